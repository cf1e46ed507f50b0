package strip_test

import (
	"reflect"
	"strings"
	"testing"

	"github.com/wujiu2020/strip"
	"github.com/wujiu2020/strip/zzverif/vh"
)

type (
	p11Str   string
	p11Int8  int8
	p11Bool  bool
	p11Bytes []byte
	p11U     uint64
	p11PI    *int
)

var p11basic = []reflect.Type{
	reflect.TypeOf(false), reflect.TypeOf(int(0)), reflect.TypeOf(int8(0)), reflect.TypeOf(int16(0)), reflect.TypeOf(int32(0)), reflect.TypeOf(int64(0)),
	reflect.TypeOf(uint(0)), reflect.TypeOf(uint8(0)), reflect.TypeOf(uint16(0)), reflect.TypeOf(uint32(0)), reflect.TypeOf(uint64(0)),
	reflect.TypeOf(float32(0)), reflect.TypeOf(float64(0)), reflect.TypeOf(""),
	reflect.TypeOf(p11Str("")), reflect.TypeOf(p11Int8(0)), reflect.TypeOf(p11Bool(false)), reflect.TypeOf(p11U(0)),
}

var p11other = []reflect.Type{
	reflect.TypeOf([]int(nil)), reflect.TypeOf(map[string]int(nil)), reflect.TypeOf(struct{ A int }{}), reflect.TypeOf([2]int{}),
	reflect.TypeOf((*error)(nil)).Elem(), reflect.TypeOf(make(chan int)), reflect.TypeOf(func() {}), reflect.TypeOf(complex64(0)), reflect.TypeOf(uintptr(0)),
	reflect.TypeOf([]interface{}(nil)), reflect.TypeOf([][]byte(nil)), reflect.TypeOf([]bool(nil)),
}

func TestVerif_P11_strto(t *testing.T) {
	vh.Run(t, "P11", 3, 0, func(c *vh.Case) {
		s := vh.NumText(c)
		c.Log("text %q", s)
		for _, bt := range p11basic[:13] {
			want, ok := vh.TextAs(s, bt)
			n := bt.String()
			r := reflect.ValueOf(strip.StrTo(s)).MethodByName(strings.ToUpper(n[:1]) + n[1:]).Call(nil)
			err, _ := r[1].Interface().(error)
			c.Check((err == nil) == ok, "StrTo(%q) as %s: error %v, want error %v", s, n, err, !ok)
			c.Check(vh.Same(r[0].Interface(), want.Interface()), "StrTo(%q) as %s = %v, want %v", s, n, r[0], want)
		}
	})
}

func TestVerif_P11_bind(t *testing.T) {
	vh.Run(t, "P11_bind", 3, 0, func(c *vh.Case) {
		s := vh.NumText(c)
		cfg := &strip.Config{Configer: confMap11{"k": s}}
		var base reflect.Type
		unsupported := false
		switch c.Intn(6) {
		case 0:
			base, unsupported = p11other[c.Intn(len(p11other))], true
		case 1:
			base = []reflect.Type{reflect.TypeOf([]byte(nil)), reflect.TypeOf([]string(nil)), reflect.TypeOf(p11Bytes(nil))}[c.Intn(3)]
		default:
			base = p11basic[c.Intn(len(p11basic))]
		}
		typ := base
		ptrs := c.Intn(3)
		for i := 0; i < ptrs; i++ {
			typ = reflect.PtrTo(typ)
		}
		if base.Kind() == reflect.Int && ptrs == 1 && c.Bool() {
			typ = reflect.TypeOf(p11PI(nil))
		}
		c.Log("text %q for %s", s, typ)
		target := reflect.New(typ)
		before := target.Elem().Interface()
		cfg.Bind(target.Interface(), "k")
		if s == "" || unsupported {
			same := true
			switch base.Kind() {
			case reflect.Func:
				same = ptrs > 0 && target.Elem().IsNil() || ptrs == 0 && target.Elem().IsNil()
			default:
				same = reflect.DeepEqual(before, target.Elem().Interface())
			}
			c.Check(same, "target %s touched: %v", typ, target.Elem())
			return
		}
		v := target.Elem()
		for i := 0; i < ptrs; i++ {
			c.Check(!v.IsNil(), "pointer target %s left nil", typ)
			v = v.Elem()
		}
		var want interface{}
		switch base.Kind() {
		case reflect.Slice:
			if base.Elem().Kind() == reflect.Uint8 {
				want = reflect.ValueOf([]byte(s)).Convert(base).Interface()
			} else {
				l := []string{}
				for _, e := range strings.Split(s, ",") {
					if e = strings.TrimSpace(e); e != "" {
						l = append(l, e)
					}
				}
				want = l
			}
		default:
			w, _ := vh.TextAs(s, base)
			want = w.Interface()
		}
		c.Check(vh.Same(v.Interface(), want), "%q bound to %s gives %#v, want %#v", s, typ, v.Interface(), want)
	})
}

type confMap11 map[string]string

func (m confMap11) Find(n string) string { return m[n] }

type p11Ctrl struct{}

var p11got []interface{}

func (p *p11Ctrl) Get(a int8, b *uint16, d bool, s string, f float32, x []int, y **int64) {
	p11got = []interface{}{a, b, d, s, f, x, y}
}

func TestVerif_P11_args(t *testing.T) {
	vh.Run(t, "P11_args", 3, 0, func(c *vh.Case) {
		app, sk := newApp()
		app.Routers(strip.Router("/:a/:b/:d/:s/:f/:x/:y", strip.Get(&p11Ctrl{}).Action("Get")))
		ss := make([]string, 7)
		for i := range ss {
			for strings.TrimSpace(ss[i]) == "" || strings.Contains(ss[i], " ") || strings.ContainsAny(ss[i], "/\x00") {
				ss[i] = vh.NumText(c)
			}
		}
		c.Log("segments %q", ss)
		rec := newRecorder()
		p11got = nil
		app.ServeHTTP(rec, mkReq("GET", "/"+strings.Join(ss, "/")))
		c.Check(p11got != nil, "the action did not run: %v %s", rec.codes, sk.all())
		types := []reflect.Type{p11basic[2], p11basic[8], p11basic[0], p11basic[13], p11basic[11], nil, p11basic[5]}
		for i, g := range p11got {
			if types[i] == nil {
				c.Check(reflect.ValueOf(g).IsNil(), "an unsupported argument type got %v", g)
				continue
			}
			v := reflect.ValueOf(g)
			for v.Kind() == reflect.Ptr {
				v = v.Elem()
			}
			w, _ := vh.TextAs(ss[i], types[i])
			c.Check(v.IsValid() && vh.Same(v.Interface(), w.Interface()), "argument %d from %q is %v, want %v", i, ss[i], v, w)
		}
	})
}
