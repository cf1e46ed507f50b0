package config_test

import (
	"os"
	"strings"
	"testing"

	"github.com/wujiu2020/strip/config"
	"github.com/wujiu2020/strip/zzverif/vh"
)

// declared contents, most specific source first
type src map[string]map[string]string

func envKey09(section, key string) string {
	s := key
	if section != "" {
		s = section + "_" + key
	}
	out := []rune{}
	for _, r := range s {
		switch r {
		case '.', '-', ':', ' ':
			r = '_'
		}
		out = append(out, r)
	}
	return strings.ToUpper(string(out))
}

func TestVerif_P09(t *testing.T) {
	secs := []string{"", "db", "a.b", "my sec", "x-y"}
	keys := []string{"k", "K", "app.name", "a-b", "a:b", "a b", "long_key", "é"}
	vals := []string{"v", "1", "two words", "x=y", "a::b", "true"}
	vh.Run(t, "P09", 1, 60000, func(c *vh.Case) {
		n := 1 + c.Intn(4)
		var chain []src
		var cfgs []config.Configer
		for i := 0; i < n; i++ {
			s := src{}
			text := ""
			for j := c.Intn(3); j >= 0; j-- {
				sec := secs[c.Intn(len(secs))]
				if sec == "" && j > 0 {
					sec = "default"
				}
				if sec != "" {
					text += "[" + sec + "]\n"
				}
				name := sec
				if name == "" {
					if text != "" {
						name = "default"
						text += "[default]\n"
					} else {
						name = "default"
					}
				}
				if s[name] == nil && text != "" {
					s[name] = map[string]string{}
				}
				for q := c.Intn(4); q > 0; q-- {
					k := keys[c.Intn(len(keys))]
					v := vals[c.Intn(len(vals))]
					if c.Intn(5) == 0 {
						v = ""
					}
					if strings.ContainsAny(k, ":=") {
						text += "\"" + k + "\" = " + v + "\n"
					} else {
						text += k + " = " + v + "\n"
					}
					if s[name] == nil {
						s[name] = map[string]string{}
					}
					s[name][k] = v
				}
			}
			cfg, err := config.LoadIniFromReader(strings.NewReader(text))
			c.Log("source %d: %q", i, text)
			c.Check(err == nil, "source %d does not load: %v", i, err)
			if err != nil {
				return
			}
			chain = append(chain, s)
			cfgs = append(cfgs, cfg)
		}
		for i := 0; i+1 < n; i++ {
			cfgs[i].SetParent(cfgs[i+1])
		}
		for q := 0; q < 8; q++ {
			sec := secs[c.Intn(len(secs))]
			if c.Intn(8) == 0 {
				sec = "default"
			}
			key := keys[c.Intn(len(keys))]
			if c.Intn(12) == 0 {
				key = ""
			}
			name := key
			if sec != "" || c.Intn(6) == 0 {
				name = sec + "::" + key
			}
			want := ""
			env := map[string]string{}
			if key != "" {
				setenv := func(ek string) {
					v := vals[c.Intn(len(vals))]
					if c.Intn(4) == 0 {
						v = ""
					}
					if _, ok := os.LookupEnv(ek); ok && env[ek] == "" || ek == "" || strings.ContainsAny(ek, "=\x00") {
						return // not ours
					}
					os.Setenv(ek, v)
					env[ek] = v
					c.Log("env %s=%q", ek, v)
				}
				ek := envKey09(sec, key)
				if c.Intn(3) == 0 {
					setenv(ek)
				}
				// variables of other keys and spellings do not matter
				if c.Intn(3) == 0 {
					other := []string{envKey09("", key), envKey09("default", key), envKey09(secs[c.Intn(len(secs))], key), envKey09(sec, keys[c.Intn(len(keys))]),
						envKey09(sec, ""), strings.ToLower(ek), sec + "_" + key, name}[c.Intn(8)]
					if other != ek {
						setenv(other)
					}
				}
				want = env[ek]
				own := sec
				if own == "" {
					own = "default"
				}
				for i := 0; want == "" && i < n; i++ {
					want = chain[i][own][key]
				}
				got := cfgs[0].Find(name)
				for k := range env {
					os.Unsetenv(k)
				}
				c.Check(got == want, "Find(%q) = %q, want %q", name, got, want)
			} else {
				got := cfgs[0].Find(name)
				c.Check(got == "", "Find(%q) = %q, want nothing", name, got)
			}
		}
		// a listed section is the source's own section, as a copy
		i := c.Intn(n)
		for _, sec := range append([]string{"default", "none"}, secs[1:]...) {
			m := cfgs[i].ListSection(sec)
			w, ok := chain[i][sec]
			c.Check((m != nil) == ok && len(m) == len(w), "ListSection(%q) of source %d = %v, want %v", sec, i, m, w)
			for k, v := range w {
				g, has := m[k]
				c.Check(has && g == v, "ListSection(%q)[%q] = %q %v, want %q", sec, k, g, has, v)
			}
			if m != nil {
				for k := range m {
					m[k] = "changed"
				}
				m["new"] = "x"
				m2 := cfgs[i].ListSection(sec)
				c.Check(len(m2) == len(w), "changing a listed section changed the configuration: %v", m2)
				for k, v := range w {
					c.Check(m2[k] == v, "changing a listed section changed %q to %q", k, m2[k])
				}
			}
		}
	})
}
