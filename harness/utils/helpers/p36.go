package helpers_test

import (
	"flag"
	"io/ioutil"
	"reflect"
	"strings"
	"testing"

	"github.com/wujiu2020/strip/utils/helpers"
	"github.com/wujiu2020/strip/zzverif/vh"
)

func TestVerif_P36(t *testing.T) {
	vh.Run(t, "P36", 1, 0, func(c *vh.Case) {
		var s helpers.SliceValue
		var want []string
		for n := c.Intn(5); n > 0; n-- {
			if c.Intn(4) == 0 {
				// make room behind the list, shared with another one
				s = append(make(helpers.SliceValue, 0, len(s)+c.Intn(5)), s...)
			}
			v := c.Str("ab ,,\té", 9)
			if c.Bool() {
				c.Log("flag %q", v)
				fs := flag.NewFlagSet("x", flag.ContinueOnError)
				fs.SetOutput(ioutil.Discard)
				fs.Var(&s, "l", "")
				c.Check(fs.Parse([]string{"-l=" + v}) == nil, "the flag is refused")
			} else {
				c.Log("set %q", v)
				c.Check(s.Set(v) == nil, "Set fails")
			}
			for _, p := range strings.Split(v, ",") {
				if p = strings.TrimSpace(p); p != "" {
					want = append(want, p)
				}
			}
			c.Check(len(s) == len(want) && (len(want) == 0 || reflect.DeepEqual([]string(s), want)), "the list is %q, want %q", s, want)
			c.Check(s.String() == strings.Join(want, ","), "its text is %q", s.String())
			if c.Intn(3) == 0 {
				before := append([]string{}, s...)
				old := s
				s.Unique()
				want = want[:0:0]
				for i, p := range before {
					first := true
					for _, q := range before[:i] {
						first = first && p != q
					}
					if first {
						want = append(want, p)
					}
				}
				c.Log("unique")
				c.Check(len(s) == len(want) && (len(want) == 0 || reflect.DeepEqual([]string(s), want)), "the values are %q, want %q", s, want)
				c.Check(len(before) == 0 || reflect.DeepEqual([]string(old), before), "the list it was made from became %q", old)
			}
		}
	})
}
