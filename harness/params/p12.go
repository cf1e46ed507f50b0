package params_test

import (
	"fmt"
	"net/url"
	"reflect"
	"strconv"
	"strings"
	"testing"
	"time"

	"github.com/wujiu2020/strip/params"
	"github.com/wujiu2020/strip/zzverif/vh"
)

type p12Name string
type p12I8 int8

type p12Inner struct {
	Deep string
	Num  uint16
}

type P12Emb struct {
	Promoted int32
	Inner    p12Inner
}

type p12hidden struct {
	Shown int
}

type p12Struct struct {
	A    int8
	B    *uint16
	S    []int
	M    map[string]int
	T    time.Time
	In   p12Inner
	Kids []p12Inner
	F    func()
	X    interface{}
	Ptr  *p12Inner
	priv int
	*P12Emb
	*p12hidden
}

var p12types = []reflect.Type{
	reflect.TypeOf(false), reflect.TypeOf(int(0)), reflect.TypeOf(int8(0)), reflect.TypeOf(int16(0)), reflect.TypeOf(int32(0)), reflect.TypeOf(int64(0)),
	reflect.TypeOf(uint(0)), reflect.TypeOf(uint8(0)), reflect.TypeOf(uint16(0)), reflect.TypeOf(uint32(0)), reflect.TypeOf(uint64(0)),
	reflect.TypeOf(float32(0)), reflect.TypeOf(float64(0)), reflect.TypeOf(""), reflect.TypeOf(p12Name("")), reflect.TypeOf(p12I8(0)),
}

// what a text becomes at a basic type
func p12want(s string, t reflect.Type) reflect.Value {
	v := reflect.New(t).Elem()
	if t.Kind() == reflect.Bool {
		switch strings.TrimSpace(strings.ToLower(s)) {
		case "true", "on", "1":
			v.SetBool(true)
		}
		return v
	}
	w, _ := vh.TextAs(s, t)
	return w
}

func p12same(a, b reflect.Value) bool { return vh.Same(a.Interface(), b.Interface()) }

func p12bind(p *params.Params, t reflect.Type, name string) reflect.Value {
	d := reflect.New(t)
	p.Bind(d.Interface(), name)
	return d.Elem()
}

// one name, every basic type, alone or behind a pointer
func TestVerif_P12_basic(t *testing.T) {
	vh.Run(t, "P12", 3, 0, func(c *vh.Case) {
		bt := p12types[c.Intn(len(p12types))]
		vals := []string{}
		for n := c.Intn(3); n > 0; n-- {
			vals = append(vals, vh.NumText(c))
		}
		p := &params.Params{Values: url.Values{"other": {"5"}}}
		if len(vals) > 0 || c.Bool() {
			p.Values["k"] = vals
		}
		c.Log("k=%q as %s", vals, bt)
		want := reflect.Zero(bt)
		if len(vals) > 0 {
			want = p12want(vals[0], bt)
		}
		got := p12bind(p, bt, "k")
		c.Check(p12same(got, want), "%q binds to %v, want %v", vals, got, want)
		pg := p12bind(p, reflect.PtrTo(bt), "k")
		c.Check(pg.IsNil() == (len(vals) == 0), "pointer nil is %v", pg.IsNil())
		if !pg.IsNil() {
			c.Check(p12same(pg.Elem(), want), "pointer to %v, want %v", pg.Elem(), want)
		}
		// the same as an element, a map entry and a struct field
		if len(vals) > 0 {
			idx := c.Intn(5)
			var huge string
			q := &params.Params{Values: url.Values{}}
			q.Values[fmt.Sprintf("k[%d]", idx)] = vals
			switch c.Intn(4) {
			case 0:
				huge = c.Pick("k[abc]", "k[99999999999999999999]", "k[9223372036854775807]", "k[2147483647]", "k[1x]", "k[-1x]")
				q.Values[huge] = []string{"1"}
			}
			c.Log("and %q", huge)
			s := p12bind(q, reflect.SliceOf(bt), "k")
			c.Check(s.Len() == idx+1, "slice has %d elements, want %d", s.Len(), idx+1)
			for i := 0; i < s.Len(); i++ {
				w := reflect.Zero(bt)
				if i == idx {
					w = want
				}
				c.Check(p12same(s.Index(i), w), "element %d is %v, want %v", i, s.Index(i), w)
			}
			q = &params.Params{Values: url.Values{c.Pick("k[]", "k"): vals}}
			s = p12bind(q, reflect.SliceOf(bt), "k")
			c.Check(s.Len() == len(vals), "slice has %d elements, want %d", s.Len(), len(vals))
			for i := range vals {
				w := p12want(vals[i], bt)
				c.Check(p12same(s.Index(i), w), "element %d is %v, want %v", i, s.Index(i), w)
			}
			key := c.Pick("x", "", "a.b", "1", "]")
			q = &params.Params{Values: url.Values{"k[" + key + "]": vals, "k": {}, "k[": vals, "k[none]": {}}}
			m := p12bind(q, reflect.MapOf(reflect.TypeOf(""), bt), "k")
			e := m.MapIndex(reflect.ValueOf(key))
			c.Check(m.Len() == 1 && e.IsValid() && p12same(e, want), "map is %v, want %q=%v", m, key, want)
		}
		// numbers in a JSON map keep their digits
		if k := bt.Kind(); k >= reflect.Int && k <= reflect.Uint64 {
			d := strconv.FormatUint(c.Uint64()>>uint(c.Intn(64)), 10)
			q := &params.Params{Values: url.Values{"k": {`{"a":` + d + `,"b":"` + d + `"}`}}}
			m := p12bind(q, reflect.MapOf(reflect.TypeOf(""), bt), "k")
			for _, key := range []string{"a", "b"} {
				e := m.MapIndex(reflect.ValueOf(key))
				c.Check(e.IsValid() && p12same(e, p12want(d, bt)), "JSON %s binds to %v", d, e)
			}
		}
	})
}

// nothing a client names or sends panics
func TestVerif_P12_hostile(t *testing.T) {
	types := append([]reflect.Type{reflect.TypeOf(p12Struct{}), reflect.TypeOf(&p12Struct{}), reflect.TypeOf([]p12Struct{}), reflect.TypeOf([][]int{}), reflect.TypeOf([]*p12Inner{}),
		reflect.TypeOf(map[string]int{}), reflect.TypeOf(map[int][]string{}), reflect.TypeOf(map[p12Name]p12Inner{}), reflect.TypeOf(time.Time{}), reflect.TypeOf([]time.Time{}),
		reflect.TypeOf([2]int{}), reflect.TypeOf((*interface{})(nil)).Elem(), reflect.TypeOf(make(chan int)), reflect.TypeOf([]interface{}{}), reflect.TypeOf(map[string]interface{}{}), reflect.TypeOf(map[string][]int{})}, p12types...)
	vh.Run(t, "P12_hostile", 3, 0, func(c *vh.Case) {
		p := &params.Params{Values: url.Values{}}
		for n := 1 + c.Intn(4); n > 0; n-- {
			key := "k"
			for m := c.Intn(4); m > 0; m-- {
				key += c.Pick("[", "]", ".", "[]", "[0]", "[1]", "[2].", "[-1]", "[99999999999]", "[x]", "A", ".A", ".B", ".S", ".S[1]", ".M[a]", ".T", ".In.Deep", ".Kids[1].Num", ".F", ".X", ".Ptr.Num", ".priv", ".Promoted", ".Inner.Num", ".Shown", ".P12Emb", ".P12Emb.Promoted", ".p12hidden.Shown", "[[", "é", "\x00", " ")
			}
			var vals []string
			for m := c.Intn(3); m > 0; m-- {
				if c.Intn(4) == 0 {
					vals = append(vals, c.Pick(`{"a":1}`, `{"a":{"b":[1]}}`, `{`, `null`, `[1]`, `{"a":null}`, "2006-01-02", "2006-01-02T15:04:05Z"))
				} else {
					vals = append(vals, vh.NumText(c))
				}
			}
			p.Values[key] = vals
		}
		ty := types[c.Intn(len(types))]
		c.Log("%q as %s", p.Values, ty)
		if v, st, bad := vh.Panics(func() { p12bind(p, ty, "k") }); bad {
			c.Fail("panic: %v\n%s", v, st)
		}
		if c.Bool() {
			p.Values["Promoted"] = []string{vh.NumText(c)}
		}
		if c.Bool() {
			p.Values["Shown"] = []string{"1"}
		}
		if v, st, bad := vh.Panics(func() { p.BindValuesToStruct(&p12Struct{}) }); bad {
			c.Fail("BindValuesToStruct panic: %v\n%s", v, st)
		}
	})
}

type p12Flat struct {
	A    int8    `param:"a"`
	B    *uint16 `param:"b,omitempty"`
	C    string
	S    []int `param:"s"`
	Skip int   `param:"-"`
	priv int
	P12Emb
	*P12Ptr
}

type P12Ptr struct {
	D float32 `param:"d"`
	P12Deep
}

type P12Deep struct {
	E int64 `param:"e"`
}

// a struct bound from its fields' names, and from a prefix
func TestVerif_P12_struct(t *testing.T) {
	vh.Run(t, "P12_struct", 3, 0, func(c *vh.Case) {
		v := url.Values{}
		for _, k := range []string{"a", "b", "C", "s[0]", "s[1]", "d", "e", "Promoted", "Skip", "-", "priv"} {
			if c.Bool() {
				v[k] = []string{vh.NumText(c)}
			}
		}
		c.Log("%q", v)
		get := func(k string, x interface{}) reflect.Value {
			ty := reflect.TypeOf(x)
			if len(v[k]) == 0 {
				return reflect.Zero(ty)
			}
			return p12want(v[k][0], ty)
		}
		var d p12Flat
		d.Skip, d.priv = 77, 78
		params.BindValuesToStruct(&d, v)
		eq := func(what string, got interface{}, want reflect.Value) {
			c.Check(vh.Same(got, want.Interface()), "%s is %v, want %v", what, got, want)
		}
		eq("a", d.A, get("a", int8(0)))
		c.Check((d.B == nil) == (len(v["b"]) == 0), "b is %v", d.B)
		if d.B != nil {
			eq("b", *d.B, get("b", uint16(0)))
		}
		eq("C", d.C, get("C", ""))
		eq("Promoted", d.Promoted, get("Promoted", int32(0)))
		c.Check(d.Skip == 77 && d.priv == 78, "skipped fields touched: %+v", d)
		c.Check((d.P12Ptr != nil) == (len(v["d"])+len(v["e"]) > 0), "embedded pointer is %v", d.P12Ptr)
		if d.P12Ptr != nil {
			eq("d", d.D, get("d", float32(0)))
			eq("e", d.E, get("e", int64(0)))
		}
		n := 0
		if len(v["s[0]"]) > 0 {
			n = 1
		}
		if len(v["s[1]"]) > 0 {
			n = 2
		}
		c.Check(len(d.S) == n, "s is %v", d.S)
		for i := range d.S {
			eq("s element", d.S[i], get(fmt.Sprintf("s[%d]", i), int(0)))
		}

		w := url.Values{"u.A": {vh.NumText(c)}, "u.In.Num": {vh.NumText(c)}, "u.In.Deep": {"deep"}, "u.Kids[1].Num": {vh.NumText(c)}, "u.M[x]": {vh.NumText(c)}, "u.Promoted": {vh.NumText(c)}, "u.B": {vh.NumText(c)}, "u.priv": {"3"}, "v.A": {"9"}}
		c.Log("%q", w)
		p := &params.Params{Values: w}
		var s p12Struct
		p.Bind(&s, "u")
		one := func(k string, x interface{}) reflect.Value { return p12want(w[k][0], reflect.TypeOf(x)) }
		eq("u.A", s.A, one("u.A", int8(0)))
		eq("u.In.Num", s.In.Num, one("u.In.Num", uint16(0)))
		c.Check(s.In.Deep == "deep" && len(s.Kids) == 2 && len(s.M) == 1 && s.B != nil && s.P12Emb != nil && s.priv == 0, "bound %+v", s)
		eq("u.Kids[1].Num", s.Kids[1].Num, one("u.Kids[1].Num", uint16(0)))
		eq("u.M[x]", s.M["x"], one("u.M[x]", int(0)))
		eq("u.B", *s.B, one("u.B", uint16(0)))
		eq("u.Promoted", s.Promoted, one("u.Promoted", int32(0)))
	})
}

// a date, a time of a day, or seconds since 1970, alone and inside slices, maps, pointers and structs
func TestVerif_P12_time(t *testing.T) {
	tt := reflect.TypeOf(time.Time{})
	vh.Run(t, "P12", 1, 0, func(c *vh.Case) {
		d := time.Date(1900+c.Intn(300), time.Month(1+c.Intn(12)), 1+c.Intn(28), c.Intn(24), c.Intn(60), c.Intn(60), 0, time.Local)
		var val string
		want := d
		switch c.Intn(6) {
		case 0:
			val, want = d.Format("2006-01-02"), time.Date(d.Year(), d.Month(), d.Day(), 0, 0, 0, 0, time.Local)
		case 1:
			val, want = d.Format("2006-01-02 15:04"), d.Truncate(time.Minute)
			want = time.Date(d.Year(), d.Month(), d.Day(), d.Hour(), d.Minute(), 0, 0, time.Local)
		case 2:
			val = d.Format("2006-01-02 15:04:05")
		case 3:
			want = d.In(time.FixedZone("", 60*(c.Intn(1440)-720)))
			val = want.Format("2006-01-02T15:04:05Z07:00")
		case 4:
			val = strconv.FormatInt(d.Unix(), 10)
		case 5:
			val, want = c.Pick("", "x", "2024-13-01", "2024-02-30", "2024-01-01 25:00", "99999999999999999999", "12:30", "2024-1-1", "2024-01-01 10:0"), time.Time{}
		}
		c.Log("k=%q", val)
		p := &params.Params{Values: url.Values{"k": {val}, "s[1]": {val}, "t.At": {val}}}
		for name, got := range map[string]reflect.Value{
			"time":    p12bind(p, tt, "k"),
			"pointer": p12bind(p, reflect.PtrTo(tt), "k").Elem(),
			"element": p12bind(p, reflect.SliceOf(tt), "s").Index(1),
			"field":   p12bind(p, reflect.TypeOf(struct{ At time.Time }{}), "t").Field(0),
		} {
			at := got.Interface().(time.Time)
			c.Check(at.Equal(want) && at.IsZero() == want.IsZero(), "%s %q binds to %v, want %v", name, val, at, want)
		}
		c.Check(p12bind(p, tt, "none").Interface().(time.Time).IsZero(), "an absent time is not zero")
	})
}
