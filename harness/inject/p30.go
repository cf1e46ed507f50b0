package inject_test

import (
	"fmt"
	"reflect"
	"testing"

	"github.com/wujiu2020/strip/inject"
	"github.com/wujiu2020/strip/zzverif/vh"
)

type p30A struct{ N int }
type p30B struct{ N int }
type p30I interface{ P30() int }
type p30Impl struct{ N int }

func (p *p30Impl) P30() int { return p.N }

type p30key struct {
	t    reflect.Type
	name string
}

var p30base = []reflect.Type{reflect.TypeOf(p30A{}), reflect.TypeOf(p30B{}), reflect.TypeOf((*p30I)(nil)).Elem()}

type p30world struct {
	c      *vh.Case
	scopes []map[p30key]reflect.Value // nearest first; what resolving gives
}

func (w *p30world) lookup(k p30key) (reflect.Value, bool) {
	for _, s := range w.scopes {
		if v, ok := s[k]; ok {
			return v, true
		}
	}
	return reflect.Value{}, false
}

// a random struct type
func (w *p30world) typ(depth int) reflect.Type {
	c := w.c
	var fs []reflect.StructField
	for n := c.Intn(4); n >= 0; n-- {
		f := reflect.StructField{Name: fmt.Sprintf("F%d", len(fs))}
		switch k := c.Intn(8); {
		case k < 4:
			f.Type = p30base[c.Intn(3)]
			if f.Type.Kind() == reflect.Struct && c.Intn(4) > 0 {
				f.Type = reflect.PtrTo(f.Type)
			}
		case k == 4:
			f.Type = reflect.TypeOf(0)
		case k < 7 && depth < 5:
			f.Type = w.typ(depth + 1)
			if c.Intn(3) == 0 {
				f.Type = reflect.PtrTo(f.Type)
			}
		default:
			f.Type = reflect.TypeOf("")
		}
		f.Tag = reflect.StructTag(c.Pick("", "", "inject", "inject", "inject", `inject:"a"`, `inject:"-"`, `json:"x"`, `json:"x" inject:"a"`))
		if t := f.Type; f.Tag != "" && f.Tag != `inject:"-"` && (t.Kind() != reflect.Interface && t.Kind() != reflect.Struct && t.Kind() != reflect.Ptr || t.Kind() != reflect.Interface && t.Name() == "" && (t.Kind() == reflect.Struct || t.Elem().Name() == "")) && c.Intn(10) > 0 {
			f.Tag = ""
		}
		if c.Intn(12) == 0 {
			f.Name, f.PkgPath = fmt.Sprintf("f%d", len(fs)), "github.com/wujiu2020/strip/inject"
		}
		fs = append(fs, f)
	}
	return reflect.StructOf(fs)
}

// what Apply has to do with the struct v at this level: fills want, or fails
func (w *p30world) fill(v reflect.Value, level int) bool {
	for i := 0; i < v.NumField(); i++ {
		f, sf := v.Field(i), v.Type().Field(i)
		if sf.PkgPath != "" {
			continue
		}
		tag := sf.Tag.Get("inject")
		if tag == "-" {
			continue
		}
		if sf.Tag == "inject" || tag != "" {
			t := f.Type()
			for t.Kind() == reflect.Ptr {
				t = t.Elem()
			}
			got, ok := w.lookup(p30key{t, tag})
			if !ok {
				return false
			}
			switch {
			case got.Type().AssignableTo(f.Type()):
				f.Set(got)
			case got.Kind() == reflect.Ptr && got.Type().Elem().AssignableTo(f.Type()):
				if !got.IsNil() {
					f.Set(got.Elem())
				}
			default:
				return false
			}
			continue
		}
		if level >= 3 {
			continue
		}
		if f.Kind() == reflect.Interface {
			f = f.Elem()
		}
		if f.Kind() == reflect.Ptr {
			f = f.Elem()
		}
		if f.Kind() == reflect.Struct && f.CanSet() && !w.fill(f, level+1) {
			return false
		}
	}
	return true
}

// gives nested pointers something to point to
func p30build(c *vh.Case, v reflect.Value) {
	for i := 0; i < v.NumField(); i++ {
		f := v.Field(i)
		if !f.CanSet() {
			continue
		}
		switch {
		case f.Kind() == reflect.Int:
			f.SetInt(7)
		case f.Kind() == reflect.String:
			f.SetString("kept")
		case f.Kind() == reflect.Struct && f.Type().Name() == "":
			p30build(c, f)
		case f.Kind() == reflect.Ptr && f.Type().Elem().Name() == "" && c.Bool():
			f.Set(reflect.New(f.Type().Elem()))
			p30build(c, f.Elem())
		case c.Intn(3) == 0 && f.Type() == reflect.TypeOf(&p30A{}):
			f.Set(reflect.ValueOf(&p30A{100}))
		}
	}
}

func p30copy(v reflect.Value) reflect.Value {
	n := reflect.New(v.Type()).Elem()
	n.Set(v)
	for i := 0; i < n.NumField(); i++ {
		f := n.Field(i)
		if !f.CanSet() {
			continue
		}
		if f.Kind() == reflect.Struct {
			f.Set(p30copy(f))
		}
		if f.Kind() == reflect.Ptr && !f.IsNil() && f.Type().Elem().Name() == "" {
			p := reflect.New(f.Type().Elem())
			p.Elem().Set(p30copy(f.Elem()))
			f.Set(p)
		}
	}
	return n
}

// same contents; the dependencies themselves by identity
func p30same(a, b reflect.Value) bool {
	for i := 0; i < a.NumField(); i++ {
		x, y := a.Field(i), b.Field(i)
		if !x.CanInterface() {
			continue
		}
		switch {
		case x.Kind() == reflect.Struct:
			if !p30same(x, y) {
				return false
			}
		case x.Kind() == reflect.Ptr && !x.IsNil() && !y.IsNil() && x.Type().Elem().Name() == "":
			if !p30same(x.Elem(), y.Elem()) {
				return false
			}
		default:
			if x.Interface() != y.Interface() {
				return false
			}
		}
	}
	return true
}

func TestVerif_P30(t *testing.T) {
	vh.Run(t, "P30", 1, 0, func(c *vh.Case) {
		w := &p30world{c: c}
		inj := inject.New()
		for s, scope := 1+c.Intn(3), inj; s > 0; s-- {
			m := map[p30key]reflect.Value{}
			for n := 2 + c.Intn(6); n > 0; n-- {
				name := c.Pick("", "", "a", "b")
				base := p30base[c.Intn(3)]
				var v interface{}
				switch base {
				case p30base[0]:
					v = &p30A{n}
				case p30base[1]:
					v = &p30B{n}
				default:
					v = &p30Impl{n}
				}
				isFn := c.Intn(3) == 0
				if isFn && base.Kind() == reflect.Struct && c.Intn(3) == 0 {
					v = reflect.ValueOf(v).Elem().Interface()
				}
				rv := reflect.ValueOf(v)
				var prov interface{} = v
				if isFn {
					out := reflect.TypeOf(v)
					if base.Kind() == reflect.Interface {
						out = base
					}
					fn := reflect.MakeFunc(reflect.FuncOf(nil, []reflect.Type{out}, false), func([]reflect.Value) []reflect.Value {
						r := reflect.New(out).Elem()
						r.Set(rv)
						return []reflect.Value{r}
					})
					prov = fn.Interface()
				}
				if base.Kind() == reflect.Interface {
					scope.ProvideAs(prov, (*p30I)(nil), name)
				} else {
					scope.ProvideAs(prov, nil, name)
				}
				m[p30key{base, name}] = rv
			}
			w.scopes = append(w.scopes, m)
			if s > 1 {
				next := inject.New()
				scope.SetParent(next)
				scope = next
			}
		}
		for n := 0; n < 3; n++ {
			ty := w.typ(1)
			v := reflect.New(ty)
			p30build(c, v.Elem())
			want := p30copy(v.Elem())
			c.Log("apply to %v", ty)
			ok := w.fill(want, 1)
			err := inj.Apply(v.Interface())
			c.Check((err == nil) == ok, "Apply to %v: %v, all dependencies there: %v", ty, err, ok)
			if ok {
				c.Check(p30same(v.Elem(), want), "Apply to %v left %+v, want %+v", ty, v.Elem(), want)
			}
		}
		for _, bad := range []interface{}{nil, 1, "x", new(int), &[]int{}, func() {}, new(*p30A)} {
			var err error
			_, _, p := vh.Panics(func() { err = inj.Apply(bad) })
			c.Check(p || err != nil, "Apply to a %T succeeded", bad)
		}
	})
}
