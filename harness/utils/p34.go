package utils_test

import (
	"crypto/md5"
	"fmt"
	"math"
	"reflect"
	"strconv"
	"testing"

	"github.com/wujiu2020/strip/utils"
	"github.com/wujiu2020/strip/zzverif/vh"
)

type (
	p34I  int16
	p34U  uint64
	p34S  string
	p34St struct {
		A int
		B string
	}
)

var p34types = []reflect.Type{
	reflect.TypeOf(false), reflect.TypeOf(int(0)), reflect.TypeOf(int8(0)), reflect.TypeOf(int16(0)), reflect.TypeOf(int32(0)), reflect.TypeOf(int64(0)),
	reflect.TypeOf(uint(0)), reflect.TypeOf(uint8(0)), reflect.TypeOf(uint16(0)), reflect.TypeOf(uint32(0)), reflect.TypeOf(uint64(0)),
	reflect.TypeOf(float32(0)), reflect.TypeOf(float64(0)), reflect.TypeOf(""), reflect.TypeOf(p34I(0)), reflect.TypeOf(p34U(0)), reflect.TypeOf(p34S("")),
}

func p34bits(c *vh.Case) uint64 {
	var u uint64
	for i := 0; i < 8; i++ {
		u = u<<8 | uint64(c.Intn(256))
	}
	switch c.Intn(5) {
	case 0:
		return uint64(c.Intn(2))
	case 1:
		return uint64(1) << uint(c.Intn(64))
	case 2:
		return (uint64(1) << uint(c.Intn(64))) - 1
	case 3:
		return ^u >> uint(c.Intn(64))
	}
	return u
}

func TestVerif_P34_utils(t *testing.T) {
	vh.Run(t, "P34", 3, 0, func(c *vh.Case) {
		bt := p34types[c.Intn(len(p34types))]
		v := reflect.New(bt).Elem()
		base := 10
		var args []int
		if c.Bool() {
			base = 2 + c.Intn(35)
			args = []int{base}
			if c.Bool() {
				args = append(args, 64)
			}
		}
		want := ""
		var num int64
		isNum := false
		switch bt.Kind() {
		case reflect.Bool:
			v.SetBool(c.Bool())
			want = strconv.FormatBool(v.Bool())
		case reflect.Float32, reflect.Float64:
			f := []float64{0, 1, -1, 0.1, 1e21, 1e-7, 16777217, 3.25, 1.0 / 3, math.MaxFloat32, math.SmallestNonzeroFloat64}[c.Intn(11)]
			if bt.Kind() == reflect.Float32 {
				f = float64(float32(f))
			}
			v.SetFloat(f)
			args = nil
			want = strconv.FormatFloat(f, 'f', -1, bt.Bits())
			if c.Bool() {
				prec := c.Intn(5)
				args = []int{prec}
				want = strconv.FormatFloat(f, 'f', prec, bt.Bits())
				if c.Bool() {
					args = append(args, 64)
					want = strconv.FormatFloat(f, 'f', prec, 64)
				}
			}
		case reflect.String:
			v.SetString(c.Str("ab1 ,\x00é-", 6))
			want = v.String()
		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
			v.SetUint(p34bits(c) >> uint(64-bt.Bits()))
			want, isNum, num = strconv.FormatUint(v.Uint(), base), true, int64(v.Uint())
		default:
			v.SetInt(int64(p34bits(c)) >> uint(64-bt.Bits()))
			want, isNum, num = strconv.FormatInt(v.Int(), base), true, v.Int()
		}
		c.Log("%v %v args %v", bt, v.Interface(), args)
		got := utils.ToStr(v.Interface(), args...)
		c.Check(got == want, "ToStr = %q, want %q", got, want)
		d, err := utils.ToInt64(v.Interface())
		c.Check((err == nil) == isNum && (!isNum || d == num), "ToInt64 = %v %v, want %v", d, err, num)
		c.Check(utils.StrTo(got).Md5() == fmt.Sprintf("%x", md5.Sum([]byte(got))), "Md5 of %q", got)
		c.Check(string(utils.StrTo(got).Bytes()) == got && utils.StrTo(got).String() == got, "Bytes of %q", got)
		c.Check(utils.ToStr([]byte(got)) == got, "the text of bytes")
	})
}

func TestVerif_P34_other(t *testing.T) {
	vh.Run(t, "P34", 1, 0, func(c *vh.Case) {
		n := c.Intn(100)
		for _, x := range []interface{}{nil, p34St{n, "b"}, []int{n, 2}, map[string]int{"a": n}, []string{"x"}, complex(1, 2), [2]bool{true}} {
			want := fmt.Sprintf("%#v", x)
			got := utils.ToStr(x)
			c.Check(got == want, "ToStr(%v) = %q, want %q", x, got, want)
			_, err := utils.ToInt64(x)
			c.Check(err != nil, "ToInt64(%v) gives no error", x)
		}
	})
}
