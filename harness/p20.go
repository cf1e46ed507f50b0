package strip_test

import (
	"bytes"
	"io"
	"net/http"
	"reflect"
	"strings"
	"testing"

	"github.com/wujiu2020/strip"
	"github.com/wujiu2020/strip/zzverif/vh"
)

type p20log struct{ got []string }

func (l *p20log) add(s string) { l.got = append(l.got, s) }

type p20reader struct {
	*strings.Reader
	chunk int
}

func (r *p20reader) Read(b []byte) (int, error) {
	if len(b) > r.chunk {
		b = b[:r.chunk]
	}
	return r.Reader.Read(b)
}

// hides WriteTo
type p20plain struct{ r io.Reader }

func (r p20plain) Read(b []byte) (int, error) { return r.r.Read(b) }

type p20closer struct {
	p20plain
	log *p20log
}

func (r *p20closer) Close() error { r.log.add("close"); return nil }

type p20res struct {
	log  *p20log
	code int
	text string
}

func (r *p20res) Write(ctx strip.Context, rw http.ResponseWriter, req *http.Request) {
	r.log.add("result")
	if r.code != 0 {
		rw.WriteHeader(r.code)
	}
	if r.text != "" {
		io.WriteString(rw, r.text)
	}
}

type p20resv struct{ p *p20res }

func (r p20resv) Write(ctx strip.Context, rw http.ResponseWriter, req *http.Request) {
	r.p.Write(ctx, rw, req)
}

type p20hand struct{ *p20res }

func (h p20hand) Write([]byte) {}
func (h p20hand) ServeHTTP(rw http.ResponseWriter, req *http.Request) {
	h.p20res.log.add("handler")
	if h.code != 0 {
		rw.WriteHeader(h.code)
	}
	io.WriteString(rw, h.text)
}

type p20ctl struct{ Out []interface{} }

func (p *p20ctl) Get() (string, int) { return p.Out[0].(string), p.Out[1].(int) }

func TestVerif_P20(t *testing.T) {
	typ := func(p interface{}) reflect.Type { return reflect.TypeOf(p).Elem() }
	vh.Run(t, "P20", 1, 0, func(c *vh.Case) {
		log := &p20log{}
		text := c.Str("ab<\n", 5)
		if c.Intn(10) == 0 {
			text = strings.Repeat("0123456789", 5000+c.Intn(3000))
		}
		inner := []int{0, 0, 201, 404}[c.Intn(4)]
		res := &p20res{log, inner, text}
		rd := func() io.Reader { return p20plain{&p20reader{strings.NewReader(text), 1 + c.Intn(5000)}} }
		closer := &p20closer{p20plain{rd()}, log}
		type result struct {
			name string
			typ  reflect.Type
			val  interface{}
			text string
			log  string
		}
		any, reader, rc, ar, hd, er := typ((*interface{})(nil)), typ((*io.Reader)(nil)), typ((*io.ReadCloser)(nil)), typ((*strip.ActionResult)(nil)), typ((*http.Handler)(nil)), typ((*error)(nil))
		rs := []result{
			{"string", typ((*string)(nil)), text, text, ""},
			{"[]byte", typ((*[]byte)(nil)), []byte(text), text, ""},
			{"nil []byte", typ((*[]byte)(nil)), nil, "", ""},
			{"io.Reader", reader, rd(), text, ""},
			{"nil io.Reader", reader, nil, "", ""},
			{"*bytes.Buffer", typ((**bytes.Buffer)(nil)), bytes.NewBufferString(text), text, ""},
			{"io.ReadCloser", rc, closer, text, "close"},
			{"io.Reader that closes", reader, closer, text, "close"},
			{"*closer", reflect.TypeOf(closer), closer, text, "close"},
			{"nil *closer", reflect.TypeOf(closer), nil, "", ""},
			{"nil io.ReadCloser", rc, nil, "", ""},
			{"result", ar, res, text, "result"},
			{"*result", reflect.TypeOf(res), res, text, "result"},
			{"nil *result", reflect.TypeOf(res), nil, "", ""},
			{"nil result", ar, nil, "", ""},
			{"struct result", typ((*p20resv)(nil)), p20resv{res}, text, "result"},
			{"struct result as result", ar, p20resv{res}, text, "result"},
			{"handler", hd, p20hand{res}, text, "handler"},
			{"struct handler", typ((*p20hand)(nil)), p20hand{res}, text, "handler"},
			{"handler func", typ((*http.HandlerFunc)(nil)), http.HandlerFunc(p20hand{res}.ServeHTTP), text, "handler"},
			{"nil handler func", typ((*http.HandlerFunc)(nil)), nil, "", ""},
			{"any string", any, text, text, ""},
			{"any []byte", any, []byte(text), text, ""},
			{"any result", any, res, text, "result"},
			{"any struct", any, struct{ A int }{1}, "", ""},
			{"any nil", any, nil, "", ""},
			{"error", er, io.EOF, "", ""},
			{"nil error", er, nil, "", ""},
			{"struct", typ((*struct{ A int })(nil)), struct{ A int }{2}, "", ""},
			{"bool", typ((*bool)(nil)), true, "", ""},
			{"int64", typ((*int64)(nil)), int64(404), "", ""},
			{"array", typ((*[2]byte)(nil)), [2]byte{1, 2}, "", ""},
			{"nil map", typ((*map[string]int)(nil)), nil, "", ""},
			{"map", typ((*map[string]int)(nil)), map[string]int{"a": 1}, "", ""},
			{"nil chan", typ((*chan int)(nil)), nil, "", ""},
			{"float", typ((*float64)(nil)), 1.5, "", ""},
		}
		r := rs[c.Intn(len(rs))]
		var types []reflect.Type
		var vals []reflect.Value
		put := func(t reflect.Type, v interface{}) {
			types = append(types, t)
			x := reflect.New(t).Elem()
			if v != nil {
				x.Set(reflect.ValueOf(v))
			}
			vals = append(vals, x)
		}
		lead := c.Intn(5) == 0
		if lead {
			put(typ((*string)(nil)), "LEAD")
		}
		none := c.Intn(12) == 0
		if !none {
			put(r.typ, r.val)
		} else if r.name, r.text, r.log = "none", "", ""; lead {
			r.name, r.text = "LEAD", "LEAD"
		}
		code := []int{0, 200, 201, 202, 400, 404, 418, 500, 503, 599}[c.Intn(10)]
		if code != 0 {
			put(reflect.TypeOf(code), code)
		}
		early := c.Pick("", "", "", "status", "body")
		c.Log("results %v (%s, %.20q of %d), code %d, answered before: %q, own status %d", types, r.name, text, len(text), code, early, inner)
		app, sink := newApp()
		if c.Bool() {
			app.Filter(strip.RecoveryFilter())
		}
		app.Filter(strip.GenericOutFilter())
		calls := 0
		var action interface{}
		if early == "" {
			action = reflect.MakeFunc(reflect.FuncOf(nil, types, false), func([]reflect.Value) []reflect.Value { calls++; return vals }).Interface()
		} else {
			action = reflect.MakeFunc(reflect.FuncOf([]reflect.Type{typ((*http.ResponseWriter)(nil))}, types, false), func(in []reflect.Value) []reflect.Value {
				calls++
				rw := in[0].Interface().(http.ResponseWriter)
				if early == "status" {
					rw.WriteHeader(203)
				} else {
					io.WriteString(rw, "EARLY")
				}
				return vals
			}).Interface()
		}
		app.Routers(strip.Router("/p", strip.Get(action)))
		rec := newRecorder()
		v, stack, bad := vh.Panics(func() { app.ServeHTTP(rec, mkReq("GET", "/p")) })
		c.Check(!bad, "serving panicked: %v\n%s", v, stack)
		c.Check(!strings.Contains(sink.all(), "PANIC"), "serving panicked: %s", sink.all())
		c.Check(calls == 1, "the action ran %d times", calls)
		want, body := code, r.text
		wlog := r.log
		if early != "" {
			want, body, wlog = 203, "", ""
			if early == "body" {
				want, body = 200, "EARLY"
			}
		} else if inner != 0 && (wlog == "result" || wlog == "handler") {
			want = inner
		}
		if want == 0 {
			want = 200
		}
		c.Check(len(rec.codes) == 1 && rec.codes[0] == want, "status %v, want %d", rec.codes, want)
		c.Check(rec.body.String() == body, "body %.60q, want %.60q", rec.body.String(), body)
		c.Check(strings.Join(log.got, " ") == wlog, "calls %v, want %q", log.got, wlog)
	})
}
