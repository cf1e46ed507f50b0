package strip_test

import (
	"fmt"
	"strings"
	"testing"

	"github.com/wujiu2020/strip"
	"github.com/wujiu2020/strip/inject"
	"github.com/wujiu2020/strip/zzverif/vh"
)

type p03node struct {
	path       string
	incl, excl [][]int
	methods    []p03method
	kids       []*p03node
	effInherit []int
}

type p03method struct {
	verb       string
	incl, excl [][]int
	order      []bool // true: Filter call, false: Exempt call
}

func p03append(h []int, vals ...int) []int {
	r := append([]int{}, h...)
	for _, v := range vals {
		in := false
		for _, x := range r {
			in = in || x == v
		}
		if !in {
			r = append(r, v)
		}
	}
	return r
}

func p03remove(h []int, vals ...int) []int {
	r := []int{}
	for _, x := range h {
		ex := false
		for _, v := range vals {
			ex = ex || x == v
		}
		if !ex {
			r = append(r, x)
		}
	}
	return r
}

// p03filter makes a filter in one of the documented forms
func p03filter(c *vh.Case, i int, trace *[]string) interface{} {
	run := func() { *trace = append(*trace, fmt.Sprint(i)) }
	switch k := c.Intn(8); k {
	case 0:
		c.Log("filter %d is a FilterFunc", i)
		return strip.FilterFunc(func() inject.Provider { return run })
	case 1:
		c.Log("filter %d is a function making the filter", i)
		return func() inject.Provider { return run }
	case 2:
		c.Log("filter %d is a Provide list", i)
		return inject.Provide{inject.Dep{}, run}
	case 3:
		c.Log("filter %d asks for the request's context", i)
		return func(ctx strip.Context) { run(); _ = ctx }
	}
	return run
}

// random router trees with filters and exemptions at every level against the declared composition
func TestVerif_P03(t *testing.T) {
	verbs := []string{"GET", "POST", "PUT", "DELETE", "*", "**"}
	vh.Run(t, "P03", 1, 0, func(c *vh.Case) {
		var trace []string
		nf := 3 + c.Intn(6)
		pool := make([]interface{}, nf)
		for i := range pool {
			pool[i] = p03filter(c, i, &trace)
		}
		some := func() ([]interface{}, []int) {
			n := c.Intn(4)
			var h []interface{}
			var ids []int
			for i := 0; i < n; i++ {
				k := c.Intn(nf)
				h = append(h, pool[k])
				ids = append(ids, k)
			}
			return h, ids
		}
		type req struct {
			verb, path string
			want       []int
		}
		var reqs []req
		// shared method handler prefixes: a method handler may be extended twice
		var build func(path string, inherited []int, depth int) []strip.Handler
		build = func(path string, inherited []int, depth int) []strip.Handler {
			var hs []strip.Handler
			own, exempt := []int{}, []int{}
			for k := c.Intn(3); k > 0; k-- {
				h, ids := some()
				hs = append(hs, strip.Filter(h...))
				own = p03append(own, ids...)
				c.Log("%s Filter%v", path, ids)
			}
			for k := c.Intn(3) - 1; k > 0; k-- {
				h, ids := some()
				hs = append(hs, strip.Exempt(h...))
				exempt = p03append(exempt, ids...)
				c.Log("%s Exempt%v", path, ids)
			}
			eff := p03remove(p03append(inherited, own...), exempt...)
			used := map[string]bool{}
			var base strip.MethodHandler
			var baseIn, baseEx []int
			for k := c.Intn(4); k > 0; k-- {
				v := verbs[c.Intn(len(verbs))]
				if used[v] {
					continue
				}
				used[v] = true
				fn := func() { trace = append(trace, "A"+v) }
				var m strip.MethodHandler
				mi, me := []int{}, []int{}
				switch v {
				case "GET":
					m = strip.Get(fn)
				case "POST":
					m = strip.Post(fn)
				case "PUT":
					m = strip.Put(fn)
				case "DELETE":
					m = strip.Delete(fn)
				case "*":
					m = strip.All(fn)
				case "**":
					m = strip.Any(fn)
				}
				for j := c.Intn(3); j > 0; j-- {
					h, ids := some()
					if c.Bool() {
						m = m.Filter(h...)
						mi = p03append(mi, ids...)
						c.Log("%s %s Filter%v", path, v, ids)
					} else {
						m = m.Exempt(h...)
						me = p03append(me, ids...)
						c.Log("%s %s Exempt%v", path, v, ids)
					}
				}
				if v == "GET" {
					base, baseIn, baseEx = m, mi, me
				}
				want := p03remove(p03append(eff, mi...), me...)
				hs = append(hs, m)
				if v != "*" && v != "**" {
					reqs = append(reqs, req{v, path, want})
				} else if v == "*" {
					reqs = append(reqs, req{"PATCH", path, want})
				} else if !used["*"] {
					reqs = append(reqs, req{"TRACE", path, want})
				}
			}
			_ = base
			_ = baseIn
			_ = baseEx
			if depth < 3 {
				for k, n := 0, c.Intn(3); k < n; k++ {
					seg := fmt.Sprintf("s%d", k)
					if c.Intn(4) == 0 {
						seg += "/x"
					}
					p := strings.TrimSuffix(path, "/") + "/" + seg
					kids := build(p, eff, depth+1)
					c.Log("Router(%s)", p)
					hs = append(hs, strip.Router("/"+seg, kids...))
				}
			}
			// order of declaration inside a router does not matter between kinds; shuffle routers and methods
			if c.Intn(3) == 0 {
				c.Shuffle(len(hs), func(i, j int) {
					_, a := hs[i].(strip.MethodHandler)
					_, b := hs[j].(strip.MethodHandler)
					if a && b {
						hs[i], hs[j] = hs[j], hs[i]
					}
				})
			}
			return hs
		}
		app, _ := newApp()
		app.NotFound(func() { trace = append(trace, "404") })
		app.Routers(build("/", nil, 0)...)
		// when both catch-alls exist the all-methods one answers; drop any-expectations shadowed by it
		seen := map[string]bool{}
		for _, r := range reqs {
			if r.verb == "PATCH" {
				seen[r.path] = true
			}
		}
		for _, r := range reqs {
			if r.verb == "TRACE" && seen[r.path] {
				continue
			}
			for _, verb := range []string{r.verb, "HEAD"} {
				if verb == "HEAD" && r.verb != "GET" {
					continue
				}
				trace = nil
				app.ServeHTTP(newRecorder(), mkReq(verb, r.path))
				w := []string{}
				for _, x := range r.want {
					w = append(w, fmt.Sprint(x))
				}
				a := map[string]string{"PATCH": "*", "TRACE": "**"}[r.verb]
				if a == "" {
					a = r.verb
				}
				w = append(w, "A"+a)
				c.Check(strings.Join(trace, ",") == strings.Join(w, ","), "%s %s ran [%s], declared [%s]", verb, r.path, strings.Join(trace, ","), strings.Join(w, ","))
			}
		}
	})
}

// two methods derived from one shared prefix keep their own filters
func TestVerif_P03_shared(t *testing.T) {
	vh.Run(t, "P03_shared", 8, 2000, func(c *vh.Case) {
		var trace []string
		nf := 4
		pool := make([]interface{}, nf)
		for i := range pool {
			pool[i] = p03filter(c, i, &trace)
		}
		base := strip.Get(func() { trace = append(trace, "A") })
		in, ex := []int{}, []int{}
		ext := func(m strip.MethodHandler, in, ex []int) (strip.MethodHandler, []int, []int) {
			k := c.Intn(nf)
			if c.Intn(3) > 0 {
				return m.Filter(pool[k]), p03append(in, k), ex
			}
			return m.Exempt(pool[k]), in, p03append(ex, k)
		}
		for j := c.Intn(4); j > 0; j-- {
			base, in, ex = ext(base, in, ex)
		}
		c.Log("base filter %v exempt %v", in, ex)
		app, _ := newApp()
		var hs []strip.Handler
		var want [][]int
		for k := 0; k < 3; k++ {
			m, i2, e2 := ext(base, append([]int{}, in...), append([]int{}, ex...))
			c.Log("route r%d filter %v exempt %v", k, i2, e2)
			hs = append(hs, strip.Router(fmt.Sprintf("/r%d", k), m))
			want = append(want, p03remove(i2, e2...))
		}
		app.Routers(hs...)
		for k := range want {
			trace = nil
			app.ServeHTTP(newRecorder(), mkReq("GET", fmt.Sprintf("/r%d", k)))
			w := ""
			for _, x := range want[k] {
				w += fmt.Sprint(x) + ","
			}
			c.Check(strings.Join(trace, ",") == w+"A", "r%d ran %v, declared %s", k, trace, w+"A")
		}
	})
}
