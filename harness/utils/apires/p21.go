package apires

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math"
	"net/http"
	"net/http/httptest"
	"reflect"
	"strings"
	"testing"

	"github.com/wujiu2020/strip"
	"github.com/wujiu2020/strip/zzverif/vh"
)

type p21sink struct{ lines []string }

func (s *p21sink) Print(v ...interface{}) { s.lines = append(s.lines, fmt.Sprint(v...)) }

// counts what reaches the client
type p21rec struct {
	*httptest.ResponseRecorder
	codes []int
}

func (r *p21rec) WriteHeader(c int) { r.codes = append(r.codes, c); r.ResponseRecorder.WriteHeader(c) }

type p21closer struct {
	io.Reader
	closed *int
}

func (r p21closer) Close() error { *r.closed++; return nil }

type p21code struct{ n int }

func (e p21code) Error() string { return "coded" }
func (e p21code) HttpCode() int { return e.n }

// serves one action that returns res
func p21serve(c *vh.Case, mode strip.Mode, res strip.ActionResult) (*p21rec, *p21sink) {
	s := &p21sink{}
	app := strip.New()
	l := strip.NewLogger(s)
	l.SetColorMode(false)
	app.SetLogger(l)
	app.Config.RunMode = mode
	app.Filter(strip.GenericOutFilter())
	app.Routers(strip.Router("/p", strip.Get(func() strip.ActionResult { return res })))
	rec := &p21rec{ResponseRecorder: httptest.NewRecorder()}
	v, stack, bad := vh.Panics(func() { app.ServeHTTP(rec, httptest.NewRequest("GET", "/p", nil)) })
	c.Check(!bad, "writing the result panicked: %v\n%s", v, stack)
	return rec, s
}

func p21json(v interface{}, dev bool) string {
	var b []byte
	var err error
	if dev {
		b, err = json.MarshalIndent(v, "", "  ")
	} else {
		b, err = json.Marshal(v)
	}
	if err != nil {
		panic(err)
	}
	return string(b)
}

func p21want(c *vh.Case, rec *p21rec, status int, body, ctype string) {
	if status == 0 {
		status = 200
	}
	c.Check(len(rec.codes) == 1 && rec.codes[0] == status, "status %v, want %d once", rec.codes, status)
	c.Check(rec.Body.String() == body, "body %.80q, want %.80q", rec.Body.String(), body)
	c.Check(ctype == "" || rec.Result().Header.Get("Content-Type") == ctype, "content type %q, want %q", rec.Result().Header.Get("Content-Type"), ctype)
}

const p21type = "application/json; charset=UTF-8"

var p21statuses = []int{0, 200, 201, 202, 204, 400, 401, 404, 418, 500, 503}

func TestVerif_P21(t *testing.T) {
	vh.Run(t, "P21", 2, 0, func(c *vh.Case) {
		mode := strip.Mode(c.Pick("dev", "prod", "test"))
		dev := mode == "dev"
		text := c.Str("ab<\"\n", 5)
		if c.Intn(10) == 0 {
			text = strings.Repeat("0123456789", 1000+c.Intn(3000))
		}
		status := p21statuses[c.Intn(len(p21statuses))]
		closed := 0
		body, raw := interface{}(nil), ""
		kind := c.Pick("nil", "string", "bytes", "reader", "closer", "buffer", "map", "struct", "number", "bad chan", "bad float", "false", "nil ptr")
		isRaw := true
		switch kind {
		case "string":
			body, raw = text, text
		case "bytes":
			body, raw = []byte(text), text
		case "reader":
			body, raw = io.Reader(struct{ io.Reader }{strings.NewReader(text)}), text
		case "closer":
			body, raw = p21closer{strings.NewReader(text), &closed}, text
		case "buffer":
			body, raw = bytes.NewBufferString(text), text
		default:
			isRaw = false
			body = map[string]interface{}{"nil": nil, "map": map[string]interface{}{"a": text, "b": 1.5}, "struct": struct {
				A string `json:"a"`
				B int    `json:"-"`
			}{text, 3}, "number": 7, "bad chan": make(chan int), "bad float": map[string]interface{}{"x": math.NaN()}, "false": false, "nil ptr": (*int)(nil)}[kind]
		}
		c.Log("%s, status %d, mode %s, text %.20q", kind, status, mode, text)
		if c.Bool() {
			res := &RawBody{Status: status, Body: body}
			if c.Bool() {
				res = RawWith(body, status)
				if status == 0 || c.Bool() {
					res, status = RawWith(body), 200
				}
			}
			if body == nil && c.Bool() {
				res = RawRet(status)
			}
			keep := *res
			rec, _ := p21serve(c, mode, res)
			c.Check((res.Body == nil) == (keep.Body == nil), "writing changed the body to %v", res.Body)
			c.Check(res.Status == keep.Status, "writing changed the status to %d", res.Status)
			want := 0
			if kind == "closer" && status != 204 {
				want = 1
			}
			c.Check(closed == want, "closed %d times, want %d", closed, want)
			switch {
			case status == 204 || body == nil:
				p21want(c, rec, status, "", "")
			case isRaw:
				p21want(c, rec, status, raw, "")
			default:
				p21body(c, rec, status, body, kind, dev)
			}
			return
		}
		if c.Bool() {
			if isRaw && kind != "string" {
				return
			}
			res := &ResBody{Status: status, Body: body}
			if c.Bool() {
				res = With(body, status)
			}
			if body == nil && c.Bool() {
				res = Ret(status)
			}
			st := res.Status
			rec, _ := p21serve(c, mode, res)
			c.Check(res.Status == st && (body == nil) == (res.Body == nil), "writing changed the result to %d, %v", res.Status, res.Body)
			if status == 204 {
				p21want(c, rec, 204, "", "")
			} else if body == nil {
				p21want(c, rec, status, "{}", p21type)
			} else {
				p21body(c, rec, status, body, kind, dev)
			}
			return
		}
		p21errors(c, mode, status, text)
	})
}

func p21body(c *vh.Case, rec *p21rec, status int, body interface{}, kind string, dev bool) {
	if !strings.HasPrefix(kind, "bad") {
		p21want(c, rec, status, p21json(body, dev), p21type)
		return
	}
	_, err := json.Marshal(body)
	p21want(c, rec, status, p21json(map[string]interface{}{"code": 500, "message": err.Error()}, dev), p21type)
}

type p21want2 struct {
	status, code int
	msg          string
	data         interface{}
}

func p21check(c *vh.Case, e *ResError, w p21want2, name string) {
	c.Check(e.Status == w.status && e.Code == w.code && e.Message == w.msg && reflect.DeepEqual(e.Data, w.data), "%s is %d %d %q %v, want %v", name, e.Status, e.Code, e.Message, e.Data, w)
	b, ok := e.ResBody.Body.(*ResError)
	c.Check(ok && b == e, "the response body of %s is not the error itself", name)
	c.Check(e.HttpCode() == w.status, "HttpCode of %s is %d", name, e.HttpCode())
	ok, n := GetHttpCode(e)
	c.Check(ok && n == w.status && IsResError(e), "GetHttpCode of %s is %v %d", name, ok, n)
	c.Check(e.Error() == p21json(e, false), "Error() of %s is %q", name, e.Error())
}

func p21errors(c *vh.Case, mode strip.Mode, status int, text string) {
	w := p21want2{status, c.Intn(4), c.Str("mn", 3), nil}
	datas := []interface{}{nil, 1, text, errors.New("E" + text), map[string]interface{}{"k": "v"}, false, &p21code{3}}
	var args []interface{}
	if c.Bool() {
		w.data = datas[c.Intn(len(datas))]
		args = append(args, w.data)
	}
	errs := []*ResError{NewResError(w.status, w.code, w.msg, args...)}
	wants := []p21want2{w}
	for n := 1 + c.Intn(5); n > 0; n-- {
		i := c.Intn(len(errs))
		e, w := errs[i], wants[i]
		var d *ResError
		switch c.Intn(5) {
		case 0:
			w.msg = c.Str("xyz", 3)
			c.Log("%d = %d.WithMsg(%q)", len(errs), i, w.msg)
			d = e.WithMsg(w.msg)
		case 1:
			c.Log("%d = %d.WithMsgf", len(errs), i)
			d, w.msg = e.WithMsgf("%s-%d", "f", 3), "f-3"
		case 2, 3:
			w.data = datas[c.Intn(len(datas))]
			c.Log("%d = %d.WithData(%v)", len(errs), i, w.data)
			if c.Bool() {
				w.msg = c.Str("pq", 2)
				d = e.WithData(w.data, w.msg)
				break
			}
			switch v := w.data.(type) {
			case error:
				w.msg = v.Error()
			case string:
				w.msg = v
			}
			d = e.WithData(w.data)
		default:
			c.Log("%d is sent", i)
			rec, _ := p21serve(c, mode, e)
			if e.Status == 204 {
				p21want(c, rec, 204, "", "")
			} else {
				p21want(c, rec, e.Status, p21json(e, mode == "dev"), p21type)
			}
			d, w = NewResError(c.Intn(2)*400, c.Intn(3), "o"), p21want2{}
			w = p21want2{d.Status, d.Code, "o", nil}
		}
		for _, x := range errs {
			c.Check(x != d, "the derived error is not new")
		}
		errs, wants = append(errs, d), append(wants, w)
		for i := range errs {
			p21check(c, errs[i], wants[i], fmt.Sprintf("error %d", i))
			for j := range errs {
				eq := wants[i].status == wants[j].status && wants[i].code == wants[j].code
				c.Check(errs[i].EqualAny(errs[j]) == eq, "error %d equal to %d: %v, want %v", i, j, !eq, eq)
			}
		}
	}
	var some []*ResError
	any := false
	for n := c.Intn(4); n > 0; n-- {
		i := c.Intn(len(errs))
		some = append(some, errs[i])
		any = any || wants[0].status == wants[i].status && wants[0].code == wants[i].code
	}
	c.Check(errs[0].EqualAny(some...) == any, "EqualAny of %d errors gave %v", len(some), !any)
	ok, _ := GetHttpCode(errors.New("x"))
	ok2, n := GetHttpCode(p21code{402})
	c.Check(!ok && ok2 && n == 402 && !IsResError(p21code{1}), "GetHttpCode of foreign errors")
	_ = http.StatusOK
}
