package config_test

import (
	"fmt"
	"reflect"
	"testing"

	"github.com/wujiu2020/strip"
	"github.com/wujiu2020/strip/config"
	"github.com/wujiu2020/strip/zzverif/vh"
)

type p32src struct {
	vals  map[string]string
	asked map[string]bool
}

func (s *p32src) Find(name string) string { s.asked[name] = true; return s.vals[name] }

var p32types = []reflect.Type{
	reflect.TypeOf(""), reflect.TypeOf(0), reflect.TypeOf(uint8(0)), reflect.TypeOf(false), reflect.TypeOf(1.5), reflect.TypeOf((*string)(nil)), reflect.TypeOf((*int)(nil)),
}

func p32show(v reflect.Value) string {
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			return "nil"
		}
		return "&" + p32show(v.Elem())
	case reflect.Struct:
		s := "{"
		for i := 0; i < v.NumField(); i++ {
			s += v.Type().Field(i).Name + ":" + p32show(v.Field(i)) + " "
		}
		return s + "}"
	}
	return fmt.Sprintf("%#v", v.Interface())
}

func TestVerif_P32(t *testing.T) {
	vh.Run(t, "P32", 1, 0, func(c *vh.Case) {
		names := []string{"a", "b", "sec", "s2", "a-b", "x"}
		src := &p32src{vals: map[string]string{}, asked: map[string]bool{}}
		n := 0
		var mk func(depth int) reflect.Type
		mk = func(depth int) reflect.Type {
			var fs []reflect.StructField
			for k := c.Intn(4 + depth%2); k >= 0; k-- {
				n++
				f := reflect.StructField{Name: fmt.Sprint("F", n), Type: p32types[c.Intn(len(p32types))]}
				name := c.Pick(names...)
				switch c.Intn(6) {
				case 0:
				case 1:
					f.Tag = `conf:"-"`
				case 2:
					f.Tag = reflect.StructTag(`json:"` + name + `"`)
				default:
					f.Tag = reflect.StructTag(`json:"z" conf:"` + name + `"`)
				}
				if depth < 3 && c.Intn(3) == 0 {
					f.Type = mk(depth+1)
					if c.Intn(2) == 0 {
						f.Anonymous = true
					}
				}
				fs = append(fs, f)
			}
			return reflect.StructOf(fs)
		}
		typ := mk(0)
		got, want := reflect.New(typ), reflect.New(typ)
		val := func(ft reflect.Type) (string, reflect.Value) {
			switch ft.Kind() {
			case reflect.Bool:
				b := c.Bool()
				return fmt.Sprint(b), reflect.ValueOf(b)
			case reflect.Float64:
				f := float64(c.Intn(100)) / 4
				return fmt.Sprint(f), reflect.ValueOf(f)
			case reflect.String:
				s := fmt.Sprint("v", c.Intn(1000))
				return s, reflect.ValueOf(s)
			}
			i := c.Intn(200)
			return fmt.Sprint(i), reflect.ValueOf(i).Convert(ft)
		}
		ptr := func(v reflect.Value) reflect.Value { p := reflect.New(v.Type()); p.Elem().Set(v); return p }
		// a name bound to fields of two types gets no value
		kinds := map[string]reflect.Type{}
		texts := map[string]reflect.Value{}
		type slot struct {
			g, w reflect.Value
			name string
		}
		var slots []slot
		var walk func(g, w reflect.Value, sec string, inSec bool)
		walk = func(g, w reflect.Value, sec string, inSec bool) {
			for i := 0; i < g.NumField(); i++ {
				f := g.Type().Field(i)
				if !inSec && f.Anonymous && f.Type.Kind() == reflect.Struct {
					walk(g.Field(i), w.Field(i), "", false)
					continue
				}
				name := f.Tag.Get("conf")
				if f.Type.Kind() == reflect.Struct {
					if name != "" && name != "-" && !inSec {
						walk(g.Field(i), w.Field(i), name+"::", true)
					}
					// a struct within a section is no plain value: left out by giving it no value
					continue
				}
				slots = append(slots, slot{g.Field(i), w.Field(i), ""})
				if name != "" && name != "-" {
					slots[len(slots)-1].name = sec + name
				}
			}
		}
		walk(got.Elem(), want.Elem(), "", false)
		for _, s := range slots {
			base := s.g.Type()
			if base.Kind() == reflect.Ptr {
				base = base.Elem()
			}
			if c.Bool() { // what it held before
				_, old := val(base)
				if s.g.Kind() == reflect.Ptr {
					s.g.Set(ptr(old))
					s.w.Set(ptr(old))
				} else {
					s.g.Set(old)
					s.w.Set(old)
				}
			}
			if s.name == "" {
				continue
			}
			if _, ok := kinds[s.name]; !ok {
				kinds[s.name] = base
				if c.Intn(4) > 0 {
					src.vals[s.name], texts[s.name] = val(base)
				}
			} else if kinds[s.name] != base {
				delete(src.vals, s.name)
				delete(texts, s.name)
			}
		}
		for _, s := range slots {
			if v, ok := texts[s.name]; ok && s.name != "" {
				if s.w.Kind() == reflect.Ptr {
					s.w.Set(ptr(v))
				} else {
					s.w.Set(v)
				}
			}
		}
		src.vals[""], src.vals["-"] = "7", "7"
		for _, f := range []string{"json", "z", "F1", "F2", "sec::", "sec::-", "s2::-"} {
			src.vals[f] = "9"
		}
		c.Log("type %s\nvalues %q\nbefore %s", typ, src.vals, p32show(got.Elem()))
		config.Decode(&strip.Config{Configer: src}, got.Interface())
		c.Check(p32show(got.Elem()) == p32show(want.Elem()), "decoded %s, want %s", p32show(got.Elem()), p32show(want.Elem()))
		for _, s := range slots {
			c.Check(s.name == "" || src.asked[s.name], "%q never looked up", s.name)
		}
	})
}

func TestVerif_P32_bad(t *testing.T) {
	vh.Run(t, "P32_bad", 4, 50, func(c *vh.Case) {
		x := 1
		m := map[string]string{}
		for _, v := range []interface{}{struct{ A int }{1}, &x, &m, m, "s", 3} {
			c.Log("decode into %T", v)
			p, _, _ := vh.Panics(func() { config.Decode(&strip.Config{Configer: &p32src{map[string]string{}, map[string]bool{}}}, v) })
			c.Check(p != nil, "Decode into %T did not complain", v)
		}
	})
}
