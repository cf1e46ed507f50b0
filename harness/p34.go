package strip_test

import (
	"math"
	"reflect"
	"strconv"
	"strings"
	"testing"

	"github.com/wujiu2020/strip"
	"github.com/wujiu2020/strip/zzverif/vh"
)

type (
	p34Str   string
	p34Int8  int8
	p34Bool  bool
	p34Bytes []byte
	p34U     uint64
)

var p34types = []reflect.Type{
	reflect.TypeOf(false), reflect.TypeOf(int(0)), reflect.TypeOf(int8(0)), reflect.TypeOf(int16(0)), reflect.TypeOf(int32(0)), reflect.TypeOf(int64(0)),
	reflect.TypeOf(uint(0)), reflect.TypeOf(uint8(0)), reflect.TypeOf(uint16(0)), reflect.TypeOf(uint32(0)), reflect.TypeOf(uint64(0)),
	reflect.TypeOf(float32(0)), reflect.TypeOf(float64(0)), reflect.TypeOf(""),
	reflect.TypeOf(p34Int8(0)), reflect.TypeOf(p34U(0)), reflect.TypeOf(p34Bool(false)), reflect.TypeOf(p34Str("")),
	reflect.TypeOf([]byte(nil)), reflect.TypeOf(p34Bytes(nil)),
}

func p34bits(c *vh.Case) uint64 {
	var u uint64
	for i := 0; i < 8; i++ {
		u = u<<8 | uint64(c.Intn(256))
	}
	switch c.Intn(6) {
	case 0:
		return 0
	case 1:
		return 1
	case 2:
		return uint64(1) << uint(c.Intn(64))
	case 3:
		return (uint64(1) << uint(c.Intn(64))) - 1
	case 4:
		return ^u >> uint(c.Intn(64))
	}
	return u
}

// a value of type t, and the text it has to have
func p34value(c *vh.Case, t reflect.Type) (reflect.Value, string) {
	v := reflect.New(t).Elem()
	switch t.Kind() {
	case reflect.Bool:
		b := c.Bool()
		v.SetBool(b)
		return v, strconv.FormatBool(b)
	case reflect.Float32, reflect.Float64:
		f := []float64{0, 1, -1, 0.1, 1e21, 1e-7, 16777217, 3.25, 1.0 / 3, -2.5e10, math.MaxFloat32, math.SmallestNonzeroFloat64, 123456789.125}[c.Intn(13)]
		if t.Kind() == reflect.Float32 {
			f = float64(float32(f))
		}
		v.SetFloat(f)
		return v, strconv.FormatFloat(f, 'f', -1, t.Bits())
	case reflect.String:
		s := c.Str("ab1 ,\x00é-", 6)
		v.SetString(s)
		return v, s
	case reflect.Slice:
		s := "x" + c.Str("ab1 ,\x00é-", 6)
		v.SetBytes([]byte(s))
		return v, s
	}
	if t.Kind() >= reflect.Uint {
		v.SetUint(p34bits(c) >> uint(64-t.Bits()))
		return v, strconv.FormatUint(v.Uint(), 10)
	}
	v.SetInt(int64(p34bits(c)) >> uint(64-t.Bits()))
	return v, strconv.FormatInt(v.Int(), 10)
}

func TestVerif_P34_tostr(t *testing.T) {
	vh.Run(t, "P34", 3, 0, func(c *vh.Case) {
		bt := p34types[c.Intn(len(p34types))]
		v, want := p34value(c, bt)
		in := v
		// directly, or behind pointers
		for n := c.Intn(4); n > 0; n-- {
			if bt.Kind() == reflect.String && want == "" {
				break
			}
			p := reflect.New(in.Type())
			p.Elem().Set(in)
			in = p
		}
		c.Log("%v %v", in.Type(), v.Interface())
		got := ""
		pv, _, bad := vh.Panics(func() { got = strip.ToStr(in.Interface()) })
		c.Check(!bad, "ToStr panics: %v", pv)
		c.Check(got == want, "ToStr = %q, want %q", got, want)
		if bt.PkgPath() == "" && bt.Kind() != reflect.String && bt.Kind() != reflect.Slice {
			n := bt.String()
			r := reflect.ValueOf(strip.StrTo(got)).MethodByName(strings.ToUpper(n[:1]) + n[1:]).Call(nil)
			c.Check(r[1].IsNil() && vh.Same(r[0].Interface(), v.Interface()), "%s reads back as %v %v", n, r[0], r[1])
		}
	})
}

func TestVerif_P34_strings(t *testing.T) {
	vh.Run(t, "P34", 1, 0, func(c *vh.Case) {
		s := c.Str("ab ,,;\t", 9)
		sep := []string{"", ",", ";", "a", ", ", ",,"}[c.Intn(6)]
		var got []string
		var want []string
		if sep == "" {
			got = strip.StrTo(s).Strings()
			want = strings.Split(s, ",")
		} else if c.Bool() {
			got = strip.StrTo(s).Strings(sep, "b")
			want = strings.Split(s, sep)
		} else {
			got = strip.StrTo(s).Strings(sep)
			want = strings.Split(s, sep)
		}
		for i := range want {
			want[i] = strings.TrimSpace(want[i])
		}
		c.Log("%q by %q", s, sep)
		c.Check(reflect.DeepEqual(got, want), "Strings = %q, want %q", got, want)
	})
}
