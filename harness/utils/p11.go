package utils_test

import (
	"reflect"
	"strings"
	"testing"

	"github.com/wujiu2020/strip/utils"
	"github.com/wujiu2020/strip/zzverif/vh"
)

var p11basic = []reflect.Type{
	reflect.TypeOf(false), reflect.TypeOf(int(0)), reflect.TypeOf(int8(0)), reflect.TypeOf(int16(0)), reflect.TypeOf(int32(0)), reflect.TypeOf(int64(0)),
	reflect.TypeOf(uint(0)), reflect.TypeOf(uint8(0)), reflect.TypeOf(uint16(0)), reflect.TypeOf(uint32(0)), reflect.TypeOf(uint64(0)),
	reflect.TypeOf(float32(0)), reflect.TypeOf(float64(0)),
}

func TestVerif_P11(t *testing.T) {
	vh.Run(t, "P11", 1, 0, func(c *vh.Case) {
		s := vh.NumText(c)
		c.Log("text %q", s)
		for _, bt := range p11basic {
			want, ok := vh.TextAs(s, bt)
			n := bt.String()
			m := strings.ToUpper(n[:1]) + n[1:]
			for _, src := range []interface{}{utils.StrTo(s), utils.ValueTo(s), utils.ValueTo([]byte(s))} {
				if _, is := src.(*utils.Value); is && s == "on" && reflect.TypeOf(src) != nil && n == "bool" && reflect.ValueOf(src).MethodByName("String").Call(nil)[0].String() == "on" {
					continue
				}
				r := reflect.ValueOf(src).MethodByName(m).Call(nil)
				err, _ := r[1].Interface().(error)
				c.Check((err == nil) == ok, "%T(%q) as %s: error %v, want error %v", src, s, n, err, !ok)
				c.Check(err != nil || vh.Same(r[0].Interface(), want.Interface()), "%T(%q) as %s = %v, want %v", src, s, n, r[0], want)
			}
			if ok {
				must := reflect.ValueOf(utils.StrTo(s)).MethodByName("Must" + m).Call(nil)[0].Interface()
				c.Check(vh.Same(must, want.Interface()), "Must%s(%q) = %v", m, s, must)
				same := reflect.ValueOf(utils.ValueTo(want.Interface())).MethodByName(m).Call(nil)
				c.Check(same[1].IsNil() && vh.Same(same[0].Interface(), want.Interface()), "a %s value reads back as %v %v", n, same[0], same[1])
			}
		}
	})
}
