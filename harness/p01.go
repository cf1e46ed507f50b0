package strip_test

import (
	"fmt"
	"net/http"
	"sort"
	"strings"
	"testing"

	"github.com/wujiu2020/strip"
	"github.com/wujiu2020/strip/zzverif/vh"
)

// one node of the reference table
type p01node struct {
	seg  string
	kids []*p01node
	end  bool
}

func (n *p01node) kid(seg string) *p01node {
	for _, k := range n.kids {
		if k.seg == seg {
			return k
		}
	}
	k := &p01node{seg: seg}
	n.kids = append(n.kids, k)
	return k
}

type p01cap struct{ name, value string }

// rank: literal, parameter with a verb, parameter, wildcard
func p01rank(seg string) int {
	switch {
	case strings.HasPrefix(seg, "*:"):
		return 3
	case strings.HasPrefix(seg, ":") && strings.Contains(seg[1:], ":"):
		return 1
	case strings.HasPrefix(seg, ":"):
		return 2
	}
	return 0
}

func (n *p01node) match(segs []string) (path string, caps []p01cap, ok bool) {
	if len(segs) == 0 {
		return "", nil, n.end
	}
	kids := append([]*p01node{}, n.kids...)
	sort.SliceStable(kids, func(i, j int) bool { return p01rank(kids[i].seg) < p01rank(kids[j].seg) })
	for _, k := range kids {
		var c []p01cap
		rest := segs[1:]
		switch p01rank(k.seg) {
		case 0:
			if k.seg != segs[0] {
				continue
			}
		case 1:
			i := strings.Index(k.seg[1:], ":") + 1
			if !strings.HasSuffix(segs[0], k.seg[i:]) {
				continue
			}
			c = []p01cap{{k.seg[1:i], segs[0][:len(segs[0])-len(k.seg[i:])]}}
		case 2:
			c = []p01cap{{k.seg[1:], segs[0]}}
		case 3:
			if !k.end {
				continue
			}
			return "/" + k.seg, []p01cap{{k.seg[2:], strings.Join(segs, "/")}}, true
		}
		if p, cs, ok := k.match(rest); ok {
			return "/" + k.seg + p, append(c, cs...), true
		}
	}
	return "", nil, false
}

func TestVerif_P01(t *testing.T) {
	vh.Run(t, "P01", 1, 0, func(c *vh.Case) {
		app, _ := newApp()
		var got string
		app.NotFound(func(rw http.ResponseWriter) { got = "none"; rw.WriteHeader(404) })
		root := &p01node{}
		lits := []string{"a", "b", "c", "user", "a:x"}
		verbs := []string{":del", ":mv", ":x"}
		seg := func(depth int, last bool) string {
			switch k := c.Intn(10); {
			case k < 5:
				return lits[c.Intn(len(lits))]
			case k < 7 || !last && k == 9:
				return fmt.Sprintf(":p%d", depth)
			case k < 9:
				return fmt.Sprintf(":p%d%s", depth, verbs[c.Intn(len(verbs))])
			}
			return fmt.Sprintf("*:w%d", depth)
		}
		get := func(pat string) strip.Handler {
			return strip.Get(func(info *strip.RouteInfo, rw http.ResponseWriter) {
				var cs []string
				for i, k := range info.Keys {
					cs = append(cs, k)
					_ = i
				}
				var vs []string
				for k, v := range info.Values {
					vs = append(vs, fmt.Sprintf("%s=%q", k, v))
				}
				sort.Strings(vs)
				got = fmt.Sprintf("%s keys %v values %v reported %s", pat, cs, vs, info.Path)
				rw.WriteHeader(200)
			})
		}
		// add registers a router of 1..3 segments below node, maybe with nested ones
		var add func(at *p01node, prefix string, depth int) strip.Handler
		add = func(at *p01node, prefix string, depth int) strip.Handler {
			n := 1 + c.Intn(3)
			pat := ""
			wild := false
			for i := 0; i < n; i++ {
				s := seg(depth+i, i == n-1)
				wild = strings.HasPrefix(s, "*:")
				at = at.kid(s)
				pat += "/" + s
			}
			at.end = true
			full := prefix + pat
			c.Log("router %s (nested in %q)", full, prefix)
			hs := []strip.Handler{get(full)}
			for k := c.Intn(3); k > 0 && depth+n < 5 && !wild; k-- {
				hs = append(hs, add(at, full, depth+n))
			}
			return strip.Router(pat, hs...)
		}
		for n := 1 + c.Intn(6); n > 0; n-- {
			app.Routers(add(root, "", 0))
		}
		for n := 0; n < 25; n++ {
			segs := []string{}
			for k := 1 + c.Intn(5); k > 0; k-- {
				s := c.Pick("a", "b", "c", "user", "a:x", "d", "a:del", "b:mv", ":x", "z:x", ":del", "a b", "del", "..x", "a:del:mv")
				segs = append(segs, s)
			}
			path := "/" + strings.Join(segs, "/")
			if c.Intn(6) == 0 {
				path += "/"
			}
			c.Log("request %s", path)
			want := "none"
			if pat, caps, ok := root.match(segs); ok {
				var ks, vs []string
				val := map[string]string{}
				for _, x := range caps {
					ks = append(ks, x.name)
					val[x.name] = x.value
				}
				for k, v := range val {
					vs = append(vs, fmt.Sprintf("%s=%q", k, []string{v}))
				}
				sort.Strings(vs)
				want = fmt.Sprintf("%s keys %v values %v reported %s", pat, ks, vs, pat)
			}
			got = "nothing ran"
			app.ServeHTTP(newRecorder(), mkReq("GET", path))
			c.Check(got == want, "request %s: got %s, expected %s", path, got, want)
		}
	})
}
