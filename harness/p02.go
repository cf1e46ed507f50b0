package strip_test

import (
	"fmt"
	"net/http"
	"strings"
	"testing"

	"github.com/wujiu2020/strip"
	"github.com/wujiu2020/strip/zzverif/vh"
)

var p02ran []string

func p02(id int, name string, args ...interface{}) {
	p02ran = append(p02ran, fmt.Sprintf("%d.%s%q", id, name, fmt.Sprint(args...)))
}

type p02Full struct{ Id int }

func (c *p02Full) Get(id int)             { p02(c.Id, "Get", id) }
func (c *p02Full) Post()                  { p02(c.Id, "Post") }
func (c *p02Full) Put(a string)           { p02(c.Id, "Put", a) }
func (c *p02Full) Head(a string)          { p02(c.Id, "Head", a) }
func (c *p02Full) Foo(a string, b string) { p02(c.Id, "Foo", a, b) }
func (c *p02Full) All(a string)           { p02(c.Id, "All", a) }
func (c *p02Full) Any()                   { p02(c.Id, "Any") }
func (c *p02Full) Custom(a string)        { p02(c.Id, "Custom", a) }

type p02Some struct{ Id int }

func (c *p02Some) Get(a string)     { p02(c.Id, "Get", a) }
func (c *p02Some) Delete(a, b uint) { p02(c.Id, "Delete", a, b) }
func (c *p02Some) Any(a string)     { p02(c.Id, "Any", a) }

type p02All struct{ Id int }

func (c p02All) All() { p02(c.Id, "All") }

type p02Cust struct{ Id int }

func (c *p02Cust) Custom(n int8) { p02(c.Id, "Custom", n) }

var p02acts = map[string]string{
	"p02Full": "Get Post Put Head Foo All Any Custom", "p02Some": "Get Delete Any", "p02All": "All", "p02Cust": "Custom",
}
var p02in = map[string]string{
	"p02Full.Get": "i", "p02Full.Post": "", "p02Full.Put": "s", "p02Full.Head": "s", "p02Full.Foo": "ss", "p02Full.All": "s", "p02Full.Any": "", "p02Full.Custom": "s",
	"p02Some.Get": "s", "p02Some.Delete": "uu", "p02Some.Any": "s", "p02All.All": "", "p02Cust.Custom": "b",
}

type p02reg struct {
	id    int
	typ   string // "" for a function
	act   string
	fixed string
}

func p02has(typ, act string) bool {
	for _, a := range strings.Fields(p02acts[typ]) {
		if a == act {
			return true
		}
	}
	return false
}

func p02call(r *p02reg, act string, caps []string) string {
	if r.typ == "" {
		return fmt.Sprintf("%d.func%q", r.id, "")
	}
	var args []interface{}
	for i, k := range p02in[r.typ+"."+act] {
		v := ""
		if i < len(caps) {
			v = caps[i]
		}
		switch k {
		case 's':
			args = append(args, v)
		case 'i':
			n := 0
			fmt.Sscan(v, &n)
			if fmt.Sprint(n) != v {
				n = 0
			}
			args = append(args, n)
		case 'u':
			var n uint
			fmt.Sscan(v, &n)
			if fmt.Sprint(n) != v {
				n = 0
			}
			args = append(args, n)
		case 'b':
			n := 0
			fmt.Sscan(v, &n)
			if fmt.Sprint(n) != v || n > 127 {
				n = 0
			}
			args = append(args, int8(n))
		}
	}
	return fmt.Sprintf("%d.%s%q", r.id, act, fmt.Sprint(args...))
}

func TestVerif_P02(t *testing.T) {
	vh.Run(t, "P02", 1, 0, func(c *vh.Case) {
		app, _ := newApp()
		app.NotFound(func(rw http.ResponseWriter) { p02ran = append(p02ran, "notfound"); rw.WriteHeader(404) })
		ids := 0
		mk := func(typ string) (strip.Handler, int) {
			ids++
			id := ids
			switch typ {
			case "p02Full":
				return &p02Full{id}, id
			case "p02Some":
				return &p02Some{id}, id
			case "p02All":
				return &p02All{id}, id
			case "p02Cust":
				return &p02Cust{id}, id
			}
			return func() { p02(id, "func") }, id
		}
		types := []string{"", "p02Full", "p02Some", "p02All", "p02Cust"}
		meths := map[string]func(strip.Handler) strip.MethodHandler{"GET": strip.Get, "POST": strip.Post, "PUT": strip.Put, "HEAD": strip.Head, "DELETE": strip.Delete, "OPTIONS": strip.Options, "PATCH": strip.Patch, "TRACE": strip.Trace, "CONNECT": strip.Connect}
		names := []string{"GET", "POST", "PUT", "HEAD", "DELETE", "OPTIONS", "PATCH", "TRACE", "CONNECT"}
		title := func(m string) string { return m[:1] + strings.ToLower(m[1:]) }
		pats := []string{"/x", "/y/:id", "/z/:id/:n", "/"}
		model := map[string]map[string]*p02reg{}
		for n := 1 + c.Intn(5); n > 0; n-- {
			pat := pats[c.Intn(len(pats))]
			m := model[pat]
			if m == nil {
				m = map[string]*p02reg{}
				model[pat] = m
			}
			var hs []strip.Handler
			for k := 1 + c.Intn(3); k > 0; k-- {
				typ := types[c.Intn(len(types))]
				h, id := mk(typ)
				r := &p02reg{id: id, typ: typ}
				var mh strip.MethodHandler
				key := names[c.Intn(len(names))]
				switch c.Intn(5) {
				case 0:
					key = "*"
					mh = strip.All(h)
					if typ != "" {
						switch {
						case p02has(typ, "Custom") && c.Bool():
							mh = mh.Action("Custom")
							r.act = "Custom"
						case p02has(typ, "All"):
							r.act = "All"
						}
					}
				case 1:
					key = "**"
					if typ != "" && !p02has(typ, "Any") && !p02has(typ, "Custom") {
						continue
					}
					mh = strip.Any(h)
					if typ != "" {
						if p02has(typ, "Custom") && (!p02has(typ, "Any") || c.Bool()) {
							mh = mh.Action("Custom")
							r.act = "Custom"
						} else {
							r.act = "Any"
						}
					}
				default:
					if typ != "" && !p02has(typ, title(key)) && !p02has(typ, "Custom") {
						continue
					}
					mh = meths[key](h)
					if typ != "" {
						if p02has(typ, "Custom") && (!p02has(typ, title(key)) || c.Bool()) {
							mh = mh.Action("Custom")
							r.act = "Custom"
						} else {
							r.act = title(key)
						}
					}
				}
				c.Log("%s %s: id %d type %q action %q", pat, key, id, typ, r.act)
				m[key] = r
				hs = append(hs, mh)
			}
			if len(hs) == 0 {
				delete(model, pat)
				if len(m) > 0 {
					model[pat] = m
				}
				continue
			}
			if pat == "/" {
				app.Routers(hs...)
			} else {
				app.Routers(strip.Router(pat, hs...))
			}
		}
		for n := 0; n < 12; n++ {
			pat := pats[c.Intn(len(pats))]
			path, caps := pat, []string(nil)
			switch pat {
			case "/y/:id":
				caps = []string{c.Pick("7", "abc", "300")}
				path = "/y/" + caps[0]
			case "/z/:id/:n":
				caps = []string{c.Pick("7", "q", "300"), c.Pick("5", "w")}
				path = "/z/" + caps[0] + "/" + caps[1]
			}
			meth := names[c.Intn(len(names))]
			if c.Intn(5) == 0 {
				meth = "FOO"
			}
			asked := meth
			if c.Intn(4) == 0 {
				asked = strings.ToLower(meth)
			}
			m := model[pat]
			want := "notfound"
			if m != nil {
				r := m[meth]
				if r == nil && meth == "HEAD" {
					r = m["GET"]
				}
				if r != nil {
					want = p02call(r, r.act, caps)
				} else if a := m["*"]; a != nil && (a.typ == "" || p02has(a.typ, title(meth))) {
					want = p02call(a, title(meth), caps)
				} else if a != nil && a.act != "" {
					want = p02call(a, a.act, caps)
				} else if y := m["**"]; y != nil {
					want = p02call(y, y.act, caps)
				}
			}
			c.Log("%s %s", asked, path)
			p02ran = nil
			app.ServeHTTP(newRecorder(), mkReq(asked, path))
			c.Check(strings.Join(p02ran, ",") == want, "%s %s ran %v, expected %s", asked, path, p02ran, want)
		}
	})
}
