package strip_test

import (
	"testing"

	"github.com/wujiu2020/strip"
	"github.com/wujiu2020/strip/zzverif/vh"
)

type confMap map[string]string

func (m confMap) Find(n string) string { return m[n] }

func TestVerif_P09(t *testing.T) {
	vh.Run(t, "P09", 1, 20000, func(c *vh.Case) {
		cfg := &strip.Config{}
		want := ""
		if c.Intn(4) > 0 {
			m := confMap{"k": c.Str("ab", 2), "s::k": c.Str("ab", 1)}
			cfg.Configer = m
			want = m["k"]
			c.Log("source %v", m)
		}
		var def []string
		for n := c.Intn(3); n > 0; n-- {
			def = append(def, c.Str("de", 2))
		}
		if want == "" && len(def) > 0 {
			want = def[0]
		}
		got := cfg.Find("k", def...)
		c.Check(got == want, "Find(k, %q) = %q, want %q", def, got, want)
	})
}
