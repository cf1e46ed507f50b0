package helpers_test

import (
	"fmt"
	"io/ioutil"
	"os"
	"path/filepath"
	"strings"
	"testing"

	"github.com/wujiu2020/strip"
	"github.com/wujiu2020/strip/utils/helpers"
	"github.com/wujiu2020/strip/zzverif/vh"
)

type p32quiet struct{}

func (p32quiet) Print(v ...interface{}) {}

type P32base struct {
	Alpha string `conf:"alpha"`
}
type p32env struct {
	P32base
	Beta string `conf:"beta"`
	Sec  struct {
		Gamma string `conf:"gamma"`
		Delta string
	} `conf:"sec"`
	Plain string
}

func TestVerif_P32_files(t *testing.T) {
	root, err := ioutil.TempDir("", "p32_")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(root)
	root, _ = filepath.EvalSymlinks(root)
	wd0, _ := os.Getwd()
	arg0 := os.Args[0]
	defer func() { os.Args[0] = arg0; os.Chdir(wd0) }()
	vh.Run(t, "P32_files", 1, 0, func(c *vh.Case) {
		base := filepath.Join(root, fmt.Sprint("c", c.N))
		defer os.RemoveAll(base)
		ds := []string{filepath.Join(base, "exe"), filepath.Join(base, "wd"), filepath.Join(base, "given")}
		for _, d := range ds {
			os.MkdirAll(d, 0755)
		}
		if c.Intn(4) == 0 {
			ds[1] = ds[0]
		}
		dir := ds[2]
		switch c.Intn(4) {
		case 0:
			dir, ds = "", ds[:2]
		case 1:
			dir, ds[2] = ds[1], ds[1]
		}
		os.Args[0] = filepath.Join(ds[0], "prog")
		if err := os.Chdir(ds[1]); err != nil {
			c.Fail("%v", err)
		}
		app, _ := strip.New(), 0
		app.SetLogger(strip.NewLogger(p32quiet{}))
		mode := c.Pick("dev", "prod", "test", "odd")
		app.Config.RunMode = strip.Mode(mode)
		name := c.Pick("myapp", "x.y")
		var list, add []string
		for _, g := range []string{"default", name, "override"} {
			for _, d := range ds {
				list = append(list, filepath.Join(d, g+".ini"), filepath.Join(d, g+"."+mode+".ini"))
			}
		}
		for k := c.Intn(3); k > 0; k-- {
			f := filepath.Join(base, fmt.Sprint("add", c.Intn(3), ".ini"))
			if c.Intn(5) == 0 {
				f = list[c.Intn(len(list))]
			}
			add = append(add, f)
		}
		vals := map[string]map[string]string{}
		put := func(f string, load bool) {
			if _, ok := vals[f]; ok {
				return
			}
			if !load && c.Intn(3) > 0 {
				return
			}
			v := map[string]string{}
			text := ""
			for _, k := range []string{"alpha", "beta", "sec::gamma", "Delta", "sec::Delta", "Plain"} {
				if c.Intn(3) == 0 {
					v[k] = fmt.Sprint("v", c.Intn(10000))
				}
			}
			for _, k := range []string{"alpha", "beta", "Delta", "Plain"} {
				if v[k] != "" {
					text += k + " = " + v[k] + "\n"
				}
			}
			text += "[sec]\n"
			for _, k := range []string{"gamma", "Delta"} {
				if x := v["sec::"+k]; x != "" {
					text += k + " = " + x + "\n"
				}
			}
			c.Log("%s: %s", strings.TrimPrefix(f, base), strings.ReplaceAll(text, "\n", "; "))
			if err := ioutil.WriteFile(f, []byte(text), 0644); err != nil {
				c.Fail("%v", err)
			}
			vals[f] = v
		}
		for _, f := range list {
			put(f, false)
		}
		// files of other modes and programs play no part
		for _, d := range ds {
			for _, n := range []string{"default.zzz.ini", "other.ini", name + "2.ini"} {
				ioutil.WriteFile(filepath.Join(d, n), []byte("alpha=no\nbeta=no\n[sec]\ngamma=no\n"), 0644)
			}
		}
		for _, f := range add {
			if c.Intn(4) > 0 {
				put(f, true)
			}
		}
		want := map[string]string{}
		seen := map[string]bool{}
		for i, f := range append(append([]string{}, list...), add...) {
			if i < len(list) && seen[f] {
				continue
			}
			seen[f] = true
			for k, v := range vals[f] {
				want[k] = v
			}
		}
		env := &p32env{Plain: "kept"}
		env.Sec.Delta, env.Beta = "kept", "before"
		if want["beta"] == "" {
			want["beta"] = "before"
		}
		c.Log("mode %s, program %s, directory %q, added %q", mode, name, strings.TrimPrefix(dir, base), add)
		var conf interface{ Find(string) string } = helpers.LoadConfigFiles(app, name, env, dir, add...)
		got := fmt.Sprint(env.Alpha, "|", env.Beta, "|", env.Sec.Gamma, "|", env.Sec.Delta, "|", env.Plain)
		exp := fmt.Sprint(want["alpha"], "|", want["beta"], "|", want["sec::gamma"], "|kept|kept")
		c.Check(got == exp, "decoded %s, want %s", got, exp)
		for _, k := range []string{"alpha", "sec::gamma", "sec::Delta", "Plain"} {
			c.Check(conf.Find(k) == want[k] && app.Config.Find(k) == want[k], "%s is %q in the result, %q in the application, want %q", k, conf.Find(k), app.Config.Find(k), want[k])
		}
	})
}
