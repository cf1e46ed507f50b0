package strip_test

import (
	"fmt"
	"net/http"
	"strings"
	"testing"

	"github.com/wujiu2020/strip"
	"github.com/wujiu2020/strip/zzverif/vh"
)

type p33pat struct {
	segs  []string
	verbs []string
}

func (p p33pat) text() string { return "/" + strings.Join(p.segs, "/") }

// conflict tells if the patterns can not stand in one table
func p33conflict(ps []p33pat) bool {
	params, wilds := map[string]string{}, map[string]string{}
	for _, p := range ps {
		for i, s := range p.segs {
			at := strings.Join(p.segs[:i], "/")
			switch {
			case strings.HasPrefix(s, ":"):
				name := strings.SplitN(s[1:], ":", 2)[0]
				if old, ok := params[at]; ok && old != name {
					return true
				}
				params[at] = name
			case strings.HasPrefix(s, "*:"):
				if old, ok := wilds[at]; ok && old != s {
					return true
				}
				wilds[at] = s
				if i < len(p.segs)-1 {
					return true
				}
			}
		}
	}
	return false
}

func p33method(verb, id string, got *string) strip.MethodHandler {
	f := func(info *strip.RouteInfo, rw http.ResponseWriter) {
		*got += id + " " + fmt.Sprint(info.Keys, info.Values) + " " + info.Path
		rw.WriteHeader(200)
	}
	switch verb {
	case "GET":
		return strip.Get(f)
	case "POST":
		return strip.Post(f)
	case "*":
		return strip.All(f)
	}
	return strip.Any(f)
}

// spell writes a path in one of the ways that mean the same
func p33spell(c *vh.Case, segs []string) string {
	s := strings.Join(segs, "/")
	switch c.Intn(6) {
	case 0:
		return s
	case 1:
		return "/" + s + "/"
	case 2:
		return "//" + s
	case 3:
		return " /" + s + " "
	case 4:
		return "/" + strings.Join(segs, "//")
	}
	return "/" + s
}

// p33routers declares the patterns below the one of n segments: each on its own or within the routers of its beginnings
func p33routers(c *vh.Case, n int, ps []p33pat, got *string) []strip.Handler {
	var hs []strip.Handler
	used := make([]bool, len(ps))
	for i, p := range ps {
		if used[i] {
			continue
		}
		var own []strip.Handler
		verbs := p.verbs
		if len(verbs) > 1 && c.Intn(3) == 0 {
			// its methods in two declarations
			hs = append(hs, strip.Router(p33spell(c, p.segs[n:]), p33method(verbs[0], p.text()+" "+verbs[0], got)))
			verbs = verbs[1:]
		}
		for _, v := range verbs {
			own = append(own, p33method(v, p.text()+" "+v, got))
		}
		var in []p33pat
		for j := range ps {
			if j != i && !used[j] && j > i && strings.HasPrefix(ps[j].text(), p.text()+"/") && !strings.HasPrefix(p.segs[len(p.segs)-1], "*:") && c.Bool() {
				used[j] = true
				in = append(in, ps[j])
			}
		}
		if len(in) > 0 {
			own = append(own, p33routers(c, len(p.segs), in, got)...)
		}
		hs = append(hs, strip.Router(p33spell(c, p.segs[n:]), own...))
	}
	return hs
}

// the same patterns in any order, flat or nested, at once or in several calls give the same table
func TestVerif_P33(t *testing.T) {
	vh.Run(t, "P33", 1, 0, func(c *vh.Case) {
		var ps []p33pat
		have := map[string]bool{}
		clash := c.Intn(4) == 0
		for n := 1 + c.Intn(7); n > 0; n-- {
			var p p33pat
			if len(ps) > 0 && c.Bool() {
				p.segs = append(p.segs, ps[c.Intn(len(ps))].segs...)
				if strings.HasPrefix(p.segs[len(p.segs)-1], "*:") {
					p.segs = p.segs[:len(p.segs)-1]
				}
			}
			for k := 1 + c.Intn(2); k > 0 && len(p.segs) < 4; k-- {
				d := len(p.segs)
				name := fmt.Sprintf("p%d", d)
				if clash && c.Intn(4) == 0 {
					name = "q"
				}
				s := c.Pick("a", "b", "a:x", "*", ":"+name, ":"+name, ":"+name+":del", ":"+name+":mv")
				if c.Intn(8) == 0 {
					s = "*:" + name
					if clash && c.Intn(3) == 0 {
						s += ":v"
					}
					k = 1
					if clash && c.Intn(3) == 0 {
						k = 2
					}
				}
				p.segs = append(p.segs, s)
			}
			if len(p.segs) == 0 || have[p.text()] {
				continue
			}
			have[p.text()] = true
			for _, v := range []string{"GET", "POST", "*", "**"} {
				if c.Intn(3) == 0 {
					p.verbs = append(p.verbs, v)
				}
			}
			ps = append(ps, p)
		}
		for _, p := range ps {
			c.Log("pattern %s %v", p.text(), p.verbs)
		}
		bad := p33conflict(ps)
		var got [2]string
		var apps [2]*strip.Strip
		for k := range apps {
			app, _ := newApp()
			apps[k] = app
			g := &got[k]
			app.NotFound(func(rw http.ResponseWriter) { *g += "none"; rw.WriteHeader(404) })
			qs := append([]p33pat{}, ps...)
			c.Shuffle(len(qs), func(i, j int) { qs[i], qs[j] = qs[j], qs[i] })
			v, stack, panicked := vh.Panics(func() {
				if k == 0 {
					for _, p := range qs {
						var own []strip.Handler
						for _, v := range p.verbs {
							own = append(own, p33method(v, p.text()+" "+v, g))
						}
						app.Routers(strip.Router(p.text(), own...))
					}
					return
				}
				hs := p33routers(c, 0, qs, g)
				if c.Bool() {
					c.Shuffle(len(hs), func(i, j int) { hs[i], hs[j] = hs[j], hs[i] })
				}
				for len(hs) > 0 {
					n := 1 + c.Intn(len(hs))
					app.Routers(hs[:n]...)
					hs = hs[n:]
				}
			})
			if panicked != bad {
				c.Fail("table %d: registering panicked: %v (%v), the patterns conflict: %v\n%s", k, panicked, v, bad, stack)
				return
			}
		}
		if bad {
			return
		}
		for n := 0; n < 20; n++ {
			segs := []string{}
			for k := 1 + c.Intn(4); k > 0; k-- {
				segs = append(segs, c.Pick("a", "b", "a:x", "*", "c", "x:del", "y:mv"))
			}
			if c.Bool() {
				// a request made from a pattern
				segs = nil
				for _, s := range ps[c.Intn(len(ps))].segs {
					switch {
					case strings.HasPrefix(s, "*:"):
						s = c.Pick("a", "z", "z/z")
					case strings.HasPrefix(s, ":"):
						s = c.Pick("a", "z") + strings.TrimLeft(s[2:], "0123456789")
					}
					segs = append(segs, s)
				}
			}
			verb, path := c.Pick("GET", "POST", "PUT", "HEAD"), "/"+strings.Join(segs, "/")
			for k := range apps {
				got[k] = ""
				apps[k].ServeHTTP(newRecorder(), mkReq(verb, path))
			}
			c.Check(got[0] == got[1], "%s %s: %q in the one table, %q in the other", verb, path, got[0], got[1])
		}
		// nothing registered is lost: each pattern answers, in its own name where nothing goes before it
		for _, p := range ps {
			lit := true
			for _, s := range p.segs {
				lit = lit && s[0] != ':' && !strings.HasPrefix(s, "*:")
			}
			for _, v := range p.verbs {
				if !lit || v != "GET" && v != "POST" {
					continue
				}
				for k := range apps {
					got[k] = ""
					apps[k].ServeHTTP(newRecorder(), mkReq(v, p.text()))
					c.Check(strings.HasPrefix(got[k], p.text()+" "+v+" "), "%s %s answered %q in table %d", v, p.text(), got[k], k)
				}
			}
		}
	})
}

// a pattern registered again keeps its methods, the latest action of a method counts
func TestVerif_P33_again(t *testing.T) {
	vh.Run(t, "P33_again", 8, 3000, func(c *vh.Case) {
		app, _ := newApp()
		var got string
		app.NotFound(func(rw http.ResponseWriter) { got += "none"; rw.WriteHeader(404) })
		last := map[string]string{}
		pats := []string{"/a", "/a/:x", "/a/:x:del", "/:y/b", "/a/*:r"}
		paths := []string{"/a", "/a/1", "/a/1:del", "/c/b", "/a/1/2"}
		for n := 1 + c.Intn(6); n > 0; n-- {
			k := c.Intn(len(pats))
			var hs []strip.Handler
			for _, v := range []string{"GET", "POST", "*", "**"} {
				if c.Intn(3) == 0 {
					id := fmt.Sprintf("%s %s #%d", pats[k], v, n)
					c.Log("register %s", id)
					hs = append(hs, p33method(v, id, &got))
					last[pats[k]+v] = id
				}
			}
			last[pats[k]] = "known"
			app.Routers(strip.Router(pats[k], hs...))
			for i, p := range pats {
				if last[p] == "" {
					continue
				}
				for _, v := range []string{"GET", "POST", "PUT"} {
					want := "none"
					for _, w := range []string{"**", "*", v} {
						if last[p+w] != "" {
							want = last[p+w]
						}
					}
					got = ""
					app.ServeHTTP(newRecorder(), mkReq(v, paths[i]))
					c.Check(strings.HasPrefix(got, want), "%s %s answered %q, not %q", v, paths[i], got, want)
				}
			}
		}
	})
}

type p33ctl struct{}

func (p33ctl) Get()   {}
func (p33ctl) Other() {}

type p33any struct{}

func (p33any) Any() {}
func (p33any) All() {}

// what can not be served panics when it is declared, what can does not
func TestVerif_P33_declared(t *testing.T) {
	vh.Run(t, "P33_declared", 8, 600, func(c *vh.Case) {
		type decl struct {
			name string
			do   func(app *strip.Strip)
			bad  bool
		}
		get := func(p string, h strip.Handler) func(*strip.Strip) {
			return func(app *strip.Strip) { app.Routers(strip.Router(p, h)) }
		}
		lit := strings.Repeat("/l", 1+c.Intn(3))
		f := func() {}
		d := []decl{
			{"an empty path", func(app *strip.Strip) { strip.Router(c.Pick("", "/", " ", " / "), strip.Get(f)) }, true},
			{"a function", get(lit, strip.Get(f)), false},
			{"a struct with the method", get(lit, strip.Get(p33ctl{})), false},
			{"a struct pointer with the method", get(lit, strip.Get(&p33ctl{})), false},
			{"a struct without the method", func(app *strip.Strip) { get(lit, strip.Post(p33ctl{}))(app) }, true},
			{"a text as controller", func(app *strip.Strip) { strip.Get(c.Pick("x", "")) }, true},
			{"a number as controller", func(app *strip.Strip) { strip.Post(c.Intn(3)) }, true},
			{"an action the struct has", func(app *strip.Strip) { get(lit, strip.Post(p33ctl{}).Action("Other"))(app) }, false},
			{"an action the struct lacks", func(app *strip.Strip) { strip.Get(p33ctl{}).Action(c.Pick("None", "get", "")) }, true},
			{"an action of a function", func(app *strip.Strip) { strip.Get(f).Action("Get") }, true},
			{"any of a struct without Any", func(app *strip.Strip) { get(lit, strip.Any(p33ctl{}))(app) }, true},
			{"any of a struct with Any", func(app *strip.Strip) { get(lit, strip.Any(p33any{}))(app) }, false},
			{"any of a function", func(app *strip.Strip) { get(lit, strip.Any(f))(app) }, false},
			{"any with an action", func(app *strip.Strip) { get(lit, strip.Any(p33ctl{}).Action("Get"))(app) }, false},
			{"all of a struct without All", func(app *strip.Strip) { get(lit, strip.All(p33ctl{}))(app) }, false},
			{"all of a struct with All", func(app *strip.Strip) { get(lit, strip.All(p33any{}))(app) }, false},
			{"all of a function", func(app *strip.Strip) { get(lit, strip.All(f))(app) }, false},
			{"all with an action it lacks", func(app *strip.Strip) { get(lit, strip.All(p33ctl{}).Action("X"))(app) }, true},
			{"a filter that is a number", func(app *strip.Strip) { strip.Filter(c.Intn(3)) }, true},
			{"a filter that is a function", func(app *strip.Strip) { strip.Filter(f, func() {}) }, false},
		}[c.Intn(20)]
		app, _ := newApp()
		c.Log("%s at %s", d.name, lit)
		v, stack, panicked := vh.Panics(func() { d.do(app) })
		if panicked != d.bad {
			c.Fail("panicked: %v (%v)\n%s", panicked, v, stack)
		}
	})
}
