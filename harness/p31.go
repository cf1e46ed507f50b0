package strip_test

import (
	gocontext "context"
	"fmt"
	"net/http"
	"strings"
	"sync"
	"testing"

	"github.com/wujiu2020/strip"
	"github.com/wujiu2020/strip/utils"
	"github.com/wujiu2020/strip/zzverif/vh"
)

type p31app struct{ n int }
type p31own struct{ id string }
type p31key struct{ n int }

type p31spec struct {
	id      string
	path    string
	how     string // how it ends: "", write, status, panic
	provide bool
	replace bool
	cancel  bool
	inner   []*p31spec // served by this one's handler, one after the other
	meet    *sync.WaitGroup

	rec    *recorder
	req    *http.Request
	ctx    gocontext.Context
	stop   gocontext.CancelFunc
	mu     sync.Mutex
	faults []string
	trace  []string
}

func (s *p31spec) bad(f string, a ...interface{}) {
	s.mu.Lock()
	s.faults = append(s.faults, s.id+": "+fmt.Sprintf(f, a...))
	s.mu.Unlock()
}

func (s *p31spec) all() []*p31spec {
	r := []*p31spec{s}
	for _, x := range s.inner {
		r = append(r, x.all()...)
	}
	return r
}

type p31world struct {
	app  *strip.Strip
	val  *p31app
	byID map[string]*p31spec
}

func (w *p31world) of(req *http.Request) *p31spec { return w.byID[req.Header.Get("X-Id")] }

// what every handler of a request can rely on
func (w *p31world) look(where string, ctx strip.Context, rw http.ResponseWriter, req *http.Request, val *p31app) *p31spec {
	s := w.of(req)
	if s == nil {
		panic("p31: unknown request")
	}
	s.trace = append(s.trace, where)
	if val != w.val {
		s.bad("%s: application value %v", where, val)
	}
	if req.URL != s.req.URL || req.Body != s.req.Body || req.Host != s.req.Host {
		s.bad("%s: another request's facts", where)
	}
	if req.Context().Value(p31key{1}) != s.id || ctx.Value(p31key{1}) != s.id {
		s.bad("%s: the server's context value is %v / %v", where, req.Context().Value(p31key{1}), ctx.Value(p31key{1}))
	}
	var c strip.Context
	if err := utils.CtxFindValue(req.Context(), &c); err != nil || c == nil {
		s.bad("%s: no scope behind the request's context: %v", where, err)
		return s
	}
	var q *http.Request
	var r http.ResponseWriter
	var own *p31own
	if err := c.Find(&q, ""); err != nil || q != req {
		s.bad("%s: the scope behind the request's context holds another request (%v)", where, err)
	}
	if err := c.Find(&r, ""); err != nil || r != rw {
		s.bad("%s: the scope behind the request's context holds another writer (%v)", where, err)
	}
	for i, o := range []strip.Context{c, ctx} {
		own = nil
		err := o.Find(&own, "")
		if (own != nil) != s.has() || own != nil && own.id != s.id {
			s.bad("%s: own value %v in %d (%v), provided %v", where, own, i, err, s.has())
		}
	}
	own = nil
	w.app.Injector().Find(&own, "")
	if own != nil {
		s.bad("%s: the application sees a request's value %v", where, own)
	}
	if ctx.Written() != (rw.(strip.ResponseWriter).Status() != 0) {
		s.bad("%s: Written %v, status %d", where, ctx.Written(), rw.(strip.ResponseWriter).Status())
	}
	if s.cancel && len(s.trace) == 1 {
		s.stop()
	}
	if (req.Context().Err() != nil) != s.cancel || (ctx.Err() != nil) != s.cancel {
		s.bad("%s: cancelled %v, context says %v", where, s.cancel, req.Context().Err())
	}
	return s
}

func (s *p31spec) has() bool {
	for _, t := range s.trace {
		if t == "provided" {
			return true
		}
	}
	return false
}

func (w *p31world) filter(ctx strip.Context, rw http.ResponseWriter, req *http.Request, val *p31app) {
	s := w.look("filter", ctx, rw, req, val)
	if s.provide {
		ctx.Provide(&p31own{s.id})
		s.trace = append(s.trace, "provided")
		w.look("again", ctx, rw, req, val)
	}
	if s.replace {
		n := gocontext.WithValue(ctx.GetContext(), p31key{2}, s.id)
		ctx.ReplaceContext(n)
		if ctx.GetContext() != n || ctx.Value(p31key{2}) != s.id || ctx.Value(p31key{1}) != s.id {
			s.bad("replaced context not in force")
		}
	}
}

func (w *p31world) act(ctx strip.Context, rw http.ResponseWriter, req *http.Request, val *p31app) {
	s := w.look("action", ctx, rw, req, val)
	if (ctx.Value(p31key{2}) == s.id) != s.replace {
		s.bad("action: value of the replaced context: %v", ctx.Value(p31key{2}))
	}
	if s.meet != nil {
		s.meet.Done()
		s.meet.Wait()
	}
	for _, in := range s.inner {
		w.serve(in)
		w.look("after "+in.id, ctx, rw, req, val)
	}
	switch s.how {
	case "write":
		rw.Write([]byte("<" + s.id + ">"))
	case "status":
		rw.WriteHeader(204)
	case "panic":
		panic("p31 " + s.id)
	}
	w.look("end", ctx, rw, req, val)
}

func (w *p31world) serve(s *p31spec) {
	v, _, _ := vh.Panics(func() { w.app.ServeHTTP(s.rec, s.req) })
	if (v != nil) != (s.how == "panic") {
		s.bad("ended with panic %v", v)
	}
	if v != nil {
		return
	}
	code, body := 200, ""
	if s.path == "/none" {
		code, body = 404, s.rec.body.String()
	} else if s.how == "status" {
		code = 204
	} else if s.how == "write" {
		body = "<" + s.id + ">"
	}
	if len(s.rec.codes) != 1 || s.rec.codes[0] != code || s.rec.body.String() != body {
		s.bad("answered %v %q, want %d %q", s.rec.codes, s.rec.body.String(), code, body)
	}
	if s.rec.hdr.Get(strip.HeaderPoweredBy) == "" || s.rec.sent.Get(strip.HeaderPoweredBy) == "" {
		s.bad("no %s header", strip.HeaderPoweredBy)
	}
}

func TestVerif_P31(t *testing.T) {
	vh.Run(t, "P31", 1, 0, func(c *vh.Case) {
		w := &p31world{byID: map[string]*p31spec{}, val: &p31app{c.Intn(100)}}
		w.app, _ = newApp()
		w.app.Provide(w.val)
		w.app.Filter(w.filter)
		w.app.Routers(strip.Router("/a", strip.Get(w.act), strip.Router("/:p", strip.Get(w.act))))
		n := 0
		var mk func(depth int) *p31spec
		mk = func(depth int) *p31spec {
			n++
			s := &p31spec{id: fmt.Sprint("r", n), provide: c.Bool(), replace: c.Bool(), cancel: c.Intn(4) == 0, rec: newRecorder()}
			s.path = c.Pick("/a", "/a/x", "/none")
			s.how = c.Pick("", "write", "status", "panic")
			if s.path == "/none" {
				s.how = ""
			}
			s.req = mkReq("GET", s.path)
			s.req.Host = "h" + s.id
			s.req.Header.Set("X-Id", s.id)
			s.req.Body = http.NoBody
			s.ctx, s.stop = gocontext.WithCancel(gocontext.WithValue(gocontext.Background(), p31key{1}, s.id))
			s.req = s.req.WithContext(s.ctx)
			w.byID[s.id] = s
			if depth < 2 && s.path != "/none" {
				for k := c.Intn(3); k > 0; k-- {
					s.inner = append(s.inner, mk(depth+1))
				}
			}
			c.Log("%*s%s %s provide %v replace %v cancel %v ends %q", depth*2, "", s.id, s.path, s.provide, s.replace, s.cancel, s.how)
			return s
		}
		var tops []*p31spec
		for k := 1 + c.Intn(3); k > 0; k-- {
			tops = append(tops, mk(0))
		}
		if len(tops) > 1 && c.Bool() {
			c.Log("the top ones at the same time")
			meet := &sync.WaitGroup{}
			for _, s := range tops {
				if s.path != "/none" {
					meet.Add(1)
					s.meet = meet
				}
			}
			var wg sync.WaitGroup
			for _, s := range tops {
				s := s
				wg.Add(1)
				go func() { defer wg.Done(); w.serve(s) }()
			}
			wg.Wait()
		} else {
			for _, s := range tops {
				w.serve(s)
			}
		}
		for _, s := range tops {
			for _, x := range s.all() {
				c.Check(len(x.faults) == 0, "%s", strings.Join(x.faults, "; "))
				if x.path == "/none" {
					c.Check(len(x.trace) >= 1 && x.trace[0] == "filter", "%s: chain %v", x.id, x.trace)
				} else {
					c.Check(strings.Count(" "+strings.Join(x.trace, " ")+" ", " action ") == 1, "%s: chain %v", x.id, x.trace)
				}
				x.stop()
			}
		}
	})
}
