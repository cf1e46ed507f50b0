package strip_test

import (
	"fmt"
	"reflect"
	"strings"
	"testing"

	"github.com/wujiu2020/strip"
	"github.com/wujiu2020/strip/zzverif/vh"
)

type p27Str string
type p27dep struct{ id int }
type p27miss struct{ id int }

type p27call struct {
	name string
	self *p27ctl
	tag  string
	list []int
	dep  *p27dep
	args []interface{}
	out  string
}

var p27calls []*p27call

// Tag and List are the registered configuration, Dep comes from the request, Hits is the call's own
type p27ctl struct {
	Tag  string
	List []int
	Dep  *p27dep `inject`
	Hits int
}

func (p *p27ctl) note(name string, args ...interface{}) string {
	p.Hits++
	c := &p27call{name: name, self: p, tag: p.Tag, list: p.List, dep: p.Dep, args: args, out: fmt.Sprintf("%s/%d/%d", name, len(p27calls), p.Hits)}
	p.Tag, p.List, p.Dep = "changed by "+name, nil, nil
	p27calls = append(p27calls, c)
	return c.out
}
func (p *p27ctl) Get(a int8, b string, d *uint16) string            { return p.note("Get", a, b, d) }
func (p *p27ctl) Post(a *string, b **int64) string                  { return p.note("Post", a, b) }
func (p *p27ctl) Put(a bool, b []string, d []byte, e float32) string { return p.note("Put", a, b, d, e) }
func (p *p27ctl) Delete() string                                    { return p.note("Delete") }
func (p *p27ctl) Patch(a []int, b map[string]string, d uint8) string { return p.note("Patch", a, b, d) }
func (p *p27ctl) All(a uint, b p27Str) string                        { return p.note("All", a, b) }

// nothing to inject; what an action keeps of its controller must stay its own
type p27plain struct {
	N    int
	In   struct{ A, B int }
	Kept *[]*p27plain
}

func (p *p27plain) Get(a int) string {
	p.N += a
	p.In.B += a
	*p.Kept = append(*p.Kept, p)
	return fmt.Sprint(p.N, p.In.A, p.In.B)
}

type p27bad struct {
	Miss *p27miss `inject`
}

var p27badRuns int

func (p *p27bad) Get() string { p27badRuns++; return "bad" }

func p27want(s string, t reflect.Type) interface{} {
	switch t.Kind() {
	case reflect.Ptr:
		in := p27want(s, t.Elem())
		if in == nil {
			return nil
		}
		x := reflect.New(t.Elem())
		x.Elem().Set(reflect.ValueOf(in))
		return x.Interface()
	case reflect.Slice:
		switch t.Elem().Kind() {
		case reflect.Uint8:
			return []byte(s)
		case reflect.String:
			l := []string{}
			for _, e := range strings.Split(s, ",") {
				if e = strings.TrimSpace(e); e != "" {
					l = append(l, e)
				}
			}
			return l
		}
		return nil
	case reflect.Map:
		return nil
	}
	w, _ := vh.TextAs(s, t)
	return w.Convert(t).Interface()
}

func TestVerif_P27(t *testing.T) {
	vh.Run(t, "P27", 3, 0, func(c *vh.Case) {
		app, sk := newApp()
		app.Filter(strip.GenericOutFilter())
		p27calls = nil
		dep := &p27dep{c.Intn(100)}
		app.Provide(dep)
		tag := c.Pick("", "one", "two")
		proto := &p27ctl{Tag: tag, List: []int{1, 2, c.Intn(9)}, Hits: c.Intn(3)}
		hits, list := proto.Hits, proto.List
		var reg interface{} = proto
		form := c.Pick("ptr", "ptr", "value", "nil", "ptrptr", "func")
		switch form {
		case "value":
			reg = *proto
		case "nil":
			reg, tag, hits, list = (*p27ctl)(nil), "", 0, nil
		case "ptrptr":
			reg = &proto
		}
		n := c.Intn(5)
		pattern := ""
		for i := 0; i < n; i++ {
			pattern += fmt.Sprintf("/:p%d", i)
		}
		pattern += "/end"
		if form == "func" {
			var got *p27dep
			runs := 0
			app.Routers(strip.Router(pattern, strip.Any(func(d *p27dep) string { runs++; got = d; return "F" })))
			rec := newRecorder()
			app.ServeHTTP(rec, mkReq(c.Pick("GET", "POST", "PURGE"), strings.Repeat("/x", n)+"/end"))
			c.Check(runs == 1 && got == dep && rec.body.String() == "F", "function action ran %d times with %v, body %q, log %s", runs, got, rec.body.String(), sk.all())
			return
		}
		reg0 := reg
		names := []string{"Get", "Post", "Put", "Delete", "Patch"}
		style := c.Pick("methods", "all", "renamed")
		var hs []strip.Handler
		renamed := names[c.Intn(5)]
		switch style {
		case "methods":
			hs = []strip.Handler{strip.Get(reg), strip.Post(reg), strip.Put(reg), strip.Delete(reg), strip.Patch(reg)}
		case "all":
			hs = []strip.Handler{strip.All(reg)}
		case "renamed":
			hs = []strip.Handler{strip.Any(reg).Action(renamed)}
		}
		app.Routers(strip.Router(pattern, hs...))
		app.Routers(strip.Router("/bad", strip.Get(&p27bad{})))
		for k := 1 + c.Intn(3); k > 0; k-- {
			p27calls = nil
			ss := make([]string, n)
			for i := range ss {
				for strings.TrimSpace(ss[i]) == "" || strings.Contains(ss[i], " ") || strings.ContainsAny(ss[i], "/\x00") || ss[i] == "." || ss[i] == ".." {
					ss[i] = vh.NumText(c)
				}
			}
			name := names[c.Intn(5)]
			act := name
			if style == "renamed" {
				act = renamed
			}
			if style == "all" && c.Intn(4) == 0 {
				name, act = "Brew", "All"
			}
			path := "/" + strings.Join(append(ss, "end"), "/")
			c.Log("%s of a %s controller (%s), segments %q", name, form, style, ss)
			rec := newRecorder()
			app.ServeHTTP(rec, mkReq(strings.ToUpper(name), path))
			c.Check(len(p27calls) == 1, "%d actions ran; status %v log %s", len(p27calls), rec.codes, sk.all())
			got := p27calls[0]
			c.Check(got.name == act, "action %s ran, want %s", got.name, act)
			c.Check(rec.body.String() == got.out, "body %q, the action returned %q", rec.body.String(), got.out)
			c.Check(got.self != proto, "the registered controller itself was used")
			c.Check(got.tag == tag && reflect.DeepEqual(got.list, list), "controller fields %q %v, registered %q %v", got.tag, got.list, tag, list)
			c.Check(got.dep == dep, "dependency %v, want %v", got.dep, dep)
			c.Check(got.self.Hits == hits+1, "the controller was used before: %d", got.self.Hits)
			c.Check(proto.Tag == tag || form == "nil", "the registered controller was changed: %v", proto)
			c.Check(proto.Dep == nil && (form == "nil" || proto.Hits == hits), "the registered controller was changed: %+v", proto)
			m, _ := reflect.TypeOf(proto).MethodByName(act)
			for i := 1; i < m.Type.NumIn(); i++ {
				at := m.Type.In(i)
				want := reflect.Zero(at).Interface()
				if i-1 < n {
					if w := p27want(ss[i-1], at); w != nil {
						want = w
					}
				}
				g := got.args[i-1]
				for at.Kind() == reflect.Ptr {
					c.Check(reflect.ValueOf(g).IsNil() == reflect.ValueOf(want).IsNil(), "argument %d of %s is %v, want %v", i-1, act, g, want)
					if reflect.ValueOf(g).IsNil() {
						break
					}
					g, want, at = reflect.ValueOf(g).Elem().Interface(), reflect.ValueOf(want).Elem().Interface(), at.Elem()
				}
				c.Check(vh.Same(g, want), "argument %d of %s is %#v, want %#v", i-1, act, g, want)
			}
		}
		_ = reg0
		kept := []*p27plain{}
		plain := &p27plain{N: c.Intn(5), Kept: &kept}
		plain.In.A = c.Intn(5)
		first := *plain
		if c.Bool() {
			app.Routers(strip.Router("/plain/:n", strip.Get(plain)))
		} else {
			app.Routers(strip.Router("/plain/:n", strip.Get(*plain)))
		}
		for k := 0; k < 3; k++ {
			rec := newRecorder()
			app.ServeHTTP(rec, mkReq("GET", fmt.Sprint("/plain/", k+1)))
			c.Check(rec.body.String() == fmt.Sprint(first.N+k+1, first.In.A, k+1), "call %d of a plain controller gave %q; registered %+v", k, rec.body.String(), first)
			c.Check(*plain == first, "the registered controller was changed: %+v, was %+v", plain, first)
			c.Check(len(kept) == k+1 && kept[k] != plain, "the registered controller itself was used")
			for j, q := range kept {
				c.Check(q.N == first.N+j+1 && q.In.B == j+1, "the controller of call %d changed during call %d: %+v", j, k, q)
			}
		}
		p27badRuns = 0
		rec := newRecorder()
		_, _, bad := vh.Panics(func() { app.ServeHTTP(rec, mkReq("GET", "/bad")) })
		c.Check(p27badRuns == 0, "an action ran without its dependency")
		c.Check(bad || strings.Contains(sk.all(), "p27miss") || len(rec.codes) > 0 && rec.codes[0] >= 500, "a missing dependency went unnoticed: %v", rec.codes)
	})
}
