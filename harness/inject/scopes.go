package inject_test

import (
	"fmt"
	"reflect"
	"strings"

	"github.com/wujiu2020/strip/inject"
	"github.com/wujiu2020/strip/zzverif/vh"
)

// a model of scopes: what each key resolves to, what has been built where

type A struct{ Id int }
type B struct{ Id int }
type I interface{ Mark() int }

func (a *A) Mark() int { return a.Id }
func (b *B) Mark() int { return b.Id }

type N int

// distinct types that share a name and a package
func localOne() reflect.Type {
	type L struct{ Id int }
	return reflect.TypeOf(L{})
}
func localTwo() reflect.Type {
	type L struct{ Id int }
	return reflect.TypeOf(L{})
}

var (
	tA  = reflect.TypeOf(A{})
	tB  = reflect.TypeOf(B{})
	tL1 = localOne()
	tL2 = localTwo()
	tI  = reflect.TypeOf((*I)(nil)).Elem()
	tN  = reflect.TypeOf(N(0))
	// keys
	keyTypes = []reflect.Type{tA, tB, tL1, tL2, tI, tN}
	names    = []string{"", "", "x", "y"}
)

type key struct {
	t reflect.Type
	n string
}

func (k key) String() string { return fmt.Sprintf("%v/%q", k.t, k.n) }

type reg struct {
	k     key
	val   reflect.Value // value provider
	fn    int           // function id
	in    []reflect.Type
	deps  []key
	out   reflect.Type
	isNil bool
	isVal bool
	fnv   reflect.Value
	prov  interface{}
}

type scope struct {
	inj    inject.Injector
	parent *scope
	regs   map[key]*reg
	cache  map[key]reflect.Value
}

type world struct {
	c      *vh.Case
	scopes []*scope
	ids    int
	// real calls seen and calls the model expects
	got, want []string
	made      map[int]reflect.Value // fn -> last result made
}

func indir(t reflect.Type) reflect.Type {
	for t.Kind() == reflect.Ptr {
		t = t.Elem()
	}
	return t
}

func newWorld(c *vh.Case) *world {
	w := &world{c: c, made: map[int]reflect.Value{}}
	n := 1 + c.Intn(4)
	for i := 0; i < n; i++ {
		s := &scope{inj: inject.New(), regs: map[key]*reg{}, cache: map[key]reflect.Value{}}
		if i > 0 && c.Intn(6) != 0 {
			p := c.Intn(i)
			s.parent = w.scopes[p]
			s.inj.SetParent(s.parent.inj)
			c.Log("scope %d parent %d", i, p)
		} else {
			c.Log("scope %d", i)
		}
		w.scopes = append(w.scopes, s)
	}
	return w
}

func (s *scope) lookup(k key) *reg {
	for ; s != nil; s = s.parent {
		if r := s.regs[k]; r != nil {
			return r
		}
	}
	return nil
}

func describe(v reflect.Value) string {
	if !v.IsValid() {
		return "<none>"
	}
	if v.Kind() == reflect.Interface {
		if v.IsNil() {
			return "nil " + v.Type().String()
		}
		return describe(v.Elem())
	}
	if v.Kind() == reflect.Ptr {
		if v.IsNil() {
			return "nil " + v.Type().String()
		}
		return fmt.Sprintf("&%s", describe(v.Elem()))
	}
	return fmt.Sprintf("%v(%+v)", v.Type(), v.Interface())
}

func (w *world) make(t reflect.Type) reflect.Value {
	w.ids++
	switch {
	case t == tN:
		return reflect.ValueOf(N(w.ids))
	case t.Kind() == reflect.Struct:
		v := reflect.New(t).Elem()
		v.Field(0).SetInt(int64(w.ids))
		return v
	case t.Kind() == reflect.Ptr:
		v := reflect.New(t.Elem())
		if t.Elem() == tN {
			v.Elem().SetInt(int64(w.ids))
		} else {
			v.Elem().Field(0).SetInt(int64(w.ids))
		}
		return v
	case t == tI:
		v := reflect.New(tI).Elem()
		v.Set(reflect.ValueOf(&A{w.ids}))
		return v
	}
	panic("type")
}

// result types of functions and parameter types
func (w *world) valType() reflect.Type {
	ts := []reflect.Type{reflect.PtrTo(tA), tA, reflect.PtrTo(tB), reflect.PtrTo(tL1), reflect.PtrTo(tL2), tL1, tI, tN, reflect.PtrTo(tN), reflect.PtrTo(tA), tI}
	return ts[w.c.Intn(len(ts))]
}

func (w *world) depsOf(n int) (in []reflect.Type, dep inject.Dep, keys []key) {
	dep = inject.Dep{}
	for i := 0; i < n; i++ {
		t := w.valType()
		in = append(in, t)
		k := key{indir(t), ""}
		if w.c.Intn(3) == 0 {
			k.n = w.c.Pick("x", "y", "")
			dep[i] = k.n
		}
		keys = append(keys, k)
	}
	return
}

func (w *world) fn(id int, in []reflect.Type, out []reflect.Type, isNil bool) reflect.Value {
	return reflect.MakeFunc(reflect.FuncOf(in, out, false), func(args []reflect.Value) []reflect.Value {
		var d []string
		for _, a := range args {
			d = append(d, describe(a))
		}
		w.got = append(w.got, fmt.Sprintf("f%d(%s)", id, strings.Join(d, ", ")))
		var res []reflect.Value
		for _, t := range out {
			if isNil {
				res = append(res, reflect.Zero(t))
			} else {
				res = append(res, w.make(t))
			}
		}
		if len(res) > 0 {
			w.made[id] = res[0]
		}
		return res
	})
}

// register a random provider in a scope
func (w *world) register() {
	c := w.c
	si := c.Intn(len(w.scopes))
	s := w.scopes[si]
	r := &reg{}
	name := names[c.Intn(len(names))]
	var typ interface{}
	var prov interface{}
	if c.Intn(3) == 0 {
		// a value
		ts := []reflect.Type{tA, tB, tL1, tL2, tN}
		t := ts[c.Intn(len(ts))]
		r.isVal = true
		r.val = w.make(reflect.PtrTo(t))
		r.k = key{t, name}
		if (t == tA || t == tB) && c.Intn(3) == 0 {
			r.k.t = tI
			typ = (*I)(nil)
		}
		prov = r.val.Interface()
		c.Log("scope %d: value %s as %v", si, describe(r.val), r.k)
	} else {
		w.ids++
		r.fn = w.ids
		r.out = w.valType()
		var dep inject.Dep
		r.in, dep, r.deps = w.depsOf(c.Intn(4))
		r.isNil = (r.out.Kind() == reflect.Ptr || r.out == tI) && c.Intn(6) == 0
		r.fnv = w.fn(r.fn, r.in, []reflect.Type{r.out}, r.isNil)
		r.k = key{indir(r.out), name}
		if (r.out == reflect.PtrTo(tA) || r.out == reflect.PtrTo(tB)) && c.Intn(3) == 0 {
			r.k.t = tI
			typ = (*I)(nil)
		}
		prov = r.fnv.Interface()
		if len(dep) > 0 || c.Intn(4) == 0 {
			prov = inject.Provide{dep, prov}
		}
		c.Log("scope %d: f%d%v deps %v (%d named) -> %v nil=%v as %v", si, r.fn, r.in, r.deps, len(dep), r.out, r.isNil, r.k)
	}
	switch c.Intn(5) {
	case 0:
		s.inj.ProvideAs(inject.Object{Value: prov, Type: typ, Name: r.k.n}, nil)
	case 1:
		s.inj.ProvideAs(&inject.Object{Value: prov, Type: typ, Name: r.k.n}, nil)
	case 2:
		s.inj.Provide(inject.Object{Value: prov, Type: typ, Name: r.k.n})
	default:
		if typ == nil && r.k.n == "" && c.Bool() {
			s.inj.Provide(prov)
		} else if r.k.n == "" && c.Bool() {
			s.inj.ProvideAs(prov, typ)
		} else {
			s.inj.ProvideAs(prov, typ, r.k.n)
		}
	}
	delete(s.cache, r.k)
	s.regs[r.k] = r
}

// convert gives what place of type t holds after a provided value is stored
func convert(v reflect.Value, t reflect.Type) (string, bool) {
	if v.Type().AssignableTo(t) {
		if t.Kind() == reflect.Interface && v.Kind() != reflect.Interface {
			x := reflect.New(t).Elem()
			x.Set(v)
			return describe(x), true
		}
		return describe(v), true
	}
	if v.Kind() == reflect.Ptr && v.Type().Elem().AssignableTo(t) {
		if v.IsNil() {
			return describe(reflect.Zero(t)), true
		}
		return describe(v.Elem()), true
	}
	return "", false
}

// resolve in the model: the value, the order of calls it makes; the ids are taken from the real run's results
func (w *world) resolve(s *scope, k key, busy map[key]bool, next *int) (reflect.Value, error) {
	r := s.lookup(k)
	if r == nil {
		return reflect.Value{}, fmt.Errorf("no provider for %v", k)
	}
	if busy[k] {
		return reflect.Value{}, fmt.Errorf("cycle at %v", k)
	}
	if v, ok := s.cache[k]; ok {
		return v, nil
	}
	if r.isVal {
		return r.val, nil
	}
	busy[k] = true
	defer delete(busy, k)
	args, err := w.args(s, r.in, r.deps, busy, next)
	if err != nil {
		return reflect.Value{}, err
	}
	w.want = append(w.want, fmt.Sprintf("f%d(%s)", r.fn, strings.Join(args, ", ")))
	v := w.simulate(r.out, r.isNil, next)
	s.cache[k] = v
	return v, nil
}

// the model makes values with the ids the real run will use: the calls happen in the same order
func (w *world) simulate(t reflect.Type, isNil bool, next *int) reflect.Value {
	if isNil {
		return reflect.Zero(t)
	}
	keep := w.ids
	w.ids = *next
	v := w.make(t)
	*next = w.ids
	w.ids = keep
	return v
}

func (w *world) args(s *scope, in []reflect.Type, deps []key, busy map[key]bool, next *int) (args []string, err error) {
	for i, d := range deps {
		v, err := w.resolve(s, d, busy, next)
		if err != nil {
			return nil, err
		}
		a, ok := convert(v, in[i])
		if !ok {
			return nil, fmt.Errorf("%v does not fit %v", v.Type(), in[i])
		}
		args = append(args, a)
	}
	return args, nil
}

func (w *world) same(what string, err, merr error) {
	c := w.c
	c.Check((err != nil) == (merr != nil), "%s: error %v, expected %v", what, err, merr)
	c.Check(strings.Join(w.got, "; ") == strings.Join(w.want, "; "), "%s: provider calls [%s], expected [%s]", what, strings.Join(w.got, "; "), strings.Join(w.want, "; "))
	w.got, w.want = nil, nil
}

func (w *world) find() {
	c := w.c
	si := c.Intn(len(w.scopes))
	s := w.scopes[si]
	t := w.valType()
	k := key{indir(t), names[c.Intn(len(names))]}
	ptr := reflect.New(t)
	c.Log("scope %d: find %v of %v", si, t, k)
	next := w.ids
	mv, merr := w.resolve(s, k, map[key]bool{}, &next)
	want := describe(ptr.Elem())
	if merr == nil {
		if d, ok := convert(mv, t); ok {
			want = d
		} else {
			merr = fmt.Errorf("%v does not fit %v", mv.Type(), t)
		}
	}
	var err error
	if k.n == "" && c.Bool() {
		err = s.inj.Find(ptr.Interface())
	} else {
		err = s.inj.Find(ptr.Interface(), k.n)
	}
	w.same(fmt.Sprintf("find %v in scope %d", k, si), err, merr)
	c.Check(describe(ptr.Elem()) == want, "find %v in scope %d gave %s, expected %s", k, si, describe(ptr.Elem()), want)
	if merr == nil && mv.Kind() == reflect.Ptr && t.Kind() == reflect.Ptr && s.lookup(k).isVal && mv.Pointer() == s.lookup(k).val.Pointer() {
		c.Check(ptr.Elem().Pointer() == mv.Pointer(), "find %v in scope %d did not give the provided value itself", k, si)
	}
}

func (w *world) exists() {
	c := w.c
	si := c.Intn(len(w.scopes))
	s := w.scopes[si]
	t := w.valType()
	k := key{indir(t), names[c.Intn(len(names))]}
	ptr := reflect.New(t)
	c.Log("scope %d: exists %v of %v", si, t, k)
	r := s.lookup(k)
	want := describe(ptr.Elem())
	var merr error
	if r == nil {
		merr = fmt.Errorf("no provider")
	} else if r.isVal {
		if d, ok := convert(r.val, t); ok {
			want = d
		} else {
			merr = fmt.Errorf("does not fit")
		}
	}
	err := s.inj.Exists(ptr.Interface(), k.n)
	w.same(fmt.Sprintf("exists %v in scope %d", k, si), err, merr)
	c.Check(describe(ptr.Elem()) == want, "exists %v in scope %d gave %s, expected %s", k, si, describe(ptr.Elem()), want)
}

func (w *world) invoke() {
	c := w.c
	si := c.Intn(len(w.scopes))
	s := w.scopes[si]
	in, dep, keys := w.depsOf(c.Intn(4))
	w.ids++
	id := w.ids
	var outs []reflect.Type
	for i := c.Intn(3); i > 0; i-- {
		outs = append(outs, w.valType())
	}
	f := w.fn(id, in, outs, false)
	var prov interface{} = f.Interface()
	if len(dep) > 0 {
		prov = inject.Provide{dep, prov}
	}
	c.Log("scope %d: invoke f%d%v deps %v -> %v", si, id, in, keys, outs)
	next := w.ids
	args, merr := w.args(s, in, keys, map[key]bool{}, &next)
	var want []string
	if merr == nil {
		w.want = append(w.want, fmt.Sprintf("f%d(%s)", id, strings.Join(args, ", ")))
		for _, t := range outs {
			want = append(want, describe(w.simulate(t, false, &next)))
		}
	}
	out, err := s.inj.Invoke(prov)
	w.same(fmt.Sprintf("invoke in scope %d", si), err, merr)
	if merr == nil {
		var got []string
		for _, o := range out {
			got = append(got, describe(o))
		}
		c.Check(strings.Join(got, "; ") == strings.Join(want, "; "), "invoke in scope %d returned %v, expected %v", si, got, want)
	}
}
