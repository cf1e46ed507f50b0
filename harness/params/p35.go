package params_test

import (
	"bytes"
	"encoding/json"
	"errors"
	"io"
	"net/http"
	"net/http/httptest"
	"reflect"
	"strings"
	"testing"

	"github.com/wujiu2020/strip"
	"github.com/wujiu2020/strip/params"
	"github.com/wujiu2020/strip/zzverif/vh"
)

type p35sink struct{}

func (p35sink) Print(v ...interface{}) {}

type p35body struct {
	r    io.Reader
	fail error
}

func (b *p35body) Read(p []byte) (int, error) {
	n, err := b.r.Read(p)
	if err == io.EOF && b.fail != nil {
		err = b.fail
	}
	return n, err
}

func (b *p35body) Close() error { return nil }

type p35target struct {
	A int
	B string
	C []interface{}
	D map[string]interface{}
}

func TestVerif_P35(t *testing.T) {
	vh.Run(t, "P35", 1, 0, func(c *vh.Case) {
		num := c.Pick("1", "0", "-7", "12345678901234567890", "1.50", "1e3", "9007199254740993")
		body := c.Pick("", " ", "\n", "0", "null", "[]", "{", "}", "x", `"t"`, `{"A":`+num+`}`, `{"A":1,"B":"b","C":[`+num+`,"`+c.Str("ab", 3)+`"],"D":{"k":`+num+`}}`,
			`{"A":"no"}`, `{"A":1} {"A":2}`, `{"A":1}x`, `{"a":3,"unknown":`+num+`}`, "["+num+",[]", "\xff")
		if c.Intn(3) == 0 {
			pad := []int{1, 500, 505, 511, 512, 513, 600, 3000}[c.Intn(8)]
			switch c.Intn(3) {
			case 0:
				body = strings.Repeat("x", pad)
			case 1:
				body += strings.Repeat(" ", pad)
			case 2:
				body = `{"B":"` + strings.Repeat("é", pad/2) + `","A":` + c.Pick(num, `"no"`) + `}`
			}
		}
		numbers := [][]bool{nil, {false}, {true}, {true, false}, {false, true}}[c.Intn(5)]
		var fail error
		if c.Intn(8) == 0 {
			fail = errors.New("broken body")
		}
		start := func() interface{} { return &p35target{A: 42, B: "was"} }
		if c.Bool() {
			start = func() interface{} { var x interface{} = "was"; return &x }
		}
		c.Log("body %.80q of %d numbers %v fail %v into %T", body, len(body), numbers, fail, start())

		rq, err := http.NewRequest("POST", "http://h/p", nil)
		if err != nil {
			c.Fail("%v", err)
		}
		rq.Body = &p35body{strings.NewReader(body), fail}
		if c.Bool() {
			rq.Header.Set("Content-Type", "application/json")
		}
		got, want := start(), start()
		app := strip.New()
		app.SetLogger(strip.NewLogger(p35sink{}))
		app.Provide(params.ParamsParser())
		runs := 0
		app.Routers(strip.Router("/p", strip.Post(func(p *params.Params) { runs++; err = p.BindJsonBody(got, numbers...) })))
		if rec, st, bad := vh.Panics(func() { app.ServeHTTP(httptest.NewRecorder(), rq) }); bad {
			c.Fail("panic %v\n%s", rec, st)
		}
		c.Check(runs == 1, "action ran %d times", runs)
		if fail != nil {
			c.Check(err == fail, "error %v of a body that can not be read", err)
			c.Check(reflect.DeepEqual(got, want), "the target became %+v", got)
			return
		}
		if body == "" {
			c.Check(err == nil && reflect.DeepEqual(got, want), "an empty body gives %v, %+v", err, got)
			return
		}
		dec := json.NewDecoder(bytes.NewReader([]byte(body)))
		if len(numbers) > 0 && numbers[0] {
			dec.UseNumber()
		}
		werr := dec.Decode(want)
		c.Check((err == nil) == (werr == nil), "error %v, want %v", err, werr)
		c.Check(reflect.DeepEqual(got, want), "the target became %+v, want %+v", got, want)
		if err != nil {
			quote := body
			if len(quote) > 512 {
				quote = quote[:512]
			}
			msg := err.Error()
			c.Check(strings.HasSuffix(msg, ", "+quote) && strings.Contains(msg, werr.Error()), "error %q does not tell %v and the body", msg, werr)
		}
	})
}
