package params_test

import (
	"bytes"
	"fmt"
	"mime/multipart"
	"net/http"
	"net/http/httptest"
	"net/url"
	"reflect"
	"strings"
	"testing"

	"github.com/wujiu2020/strip"
	"github.com/wujiu2020/strip/params"
	"github.com/wujiu2020/strip/zzverif/vh"
)

type p13sink struct{}

func (p13sink) Print(v ...interface{}) {}

func p13vals(c *vh.Case, names ...string) url.Values {
	v := url.Values{}
	for _, k := range names {
		for n := c.Intn(3); n > 0; n-- {
			v.Add(k, c.Str("xyz &=%é+", 3))
		}
	}
	if c.Intn(3) == 0 {
		v = url.Values{}
	}
	return v
}

// the view seen by an action: the query's values, then the route's, then the body's
func TestVerif_P13(t *testing.T) {
	vh.Run(t, "P13", 1, 0, func(c *vh.Case) {
		query := p13vals(c, "a", "b", "q", "m")
		form := p13vals(c, "a", "b", "f", "m")
		route := url.Values{}
		pat, path := "/r", "/r"
		for _, k := range []string{"a", "b", "r"} {
			if c.Bool() {
				s := "s" + c.Str("xy", 2)
				pat += "/:" + k
				path += "/" + s
				route.Add(k, s)
			}
		}
		body, ct := "", ""
		sent := form
		switch c.Intn(4) {
		case 0:
			ct, body = c.Pick("application/x-www-form-urlencoded", "application/x-www-form-urlencoded; charset=utf-8", "Application/X-WWW-Form-Urlencoded ;x=y"), form.Encode()
		case 1:
			var b bytes.Buffer
			w := multipart.NewWriter(&b)
			for k, vs := range form {
				for _, v := range vs {
					w.WriteField(k, v)
				}
			}
			w.Close()
			ct, body = w.FormDataContentType(), b.String()
		case 2:
			ct, body, form = c.Pick("application/json", "text/plain", "text/html"), form.Encode(), nil
		default:
			body, form = "", nil
		}
		_ = sent
		m := c.Pick("POST", "PUT", "PATCH")
		rq, err := http.NewRequest(m, "http://h"+path+"?"+query.Encode(), strings.NewReader(body))
		if err != nil {
			c.Fail("%v", err)
		}
		if ct != "" {
			rq.Header.Set("Content-Type", ct)
		}
		c.Log("%s %s pattern %s type %q body %q", m, rq.URL, pat, ct, body)

		app := strip.New()
		lg := strip.NewLogger(p13sink{})
		app.SetLogger(lg)
		app.Provide(params.ParamsParser())
		var seen *params.Params
		var info strip.RouteInfo
		runs := 0
		act := func(p *params.Params, ri *strip.RouteInfo) { runs++; seen, info = p, *ri }
		app.Routers(strip.Router(pat, strip.Any(act)))
		if rec, st, bad := vh.Panics(func() { app.ServeHTTP(httptest.NewRecorder(), rq) }); bad {
			c.Fail("panic %v\n%s", rec, st)
		}
		c.Check(runs == 1, "action ran %d times", runs)
		flat := func(v url.Values) string {
			ks := map[string][]string{}
			for k, vs := range v {
				if len(vs) > 0 {
					ks[k] = vs
				}
			}
			return fmt.Sprintf("%q", ks)
		}
		same := func(what string, got, want url.Values) {
			c.Check(flat(got) == flat(want), "%s view is %s, want %s", what, flat(got), flat(want))
		}
		same("query", seen.Query, query)
		same("route", seen.Route.Values, route)
		same("route info", info.Values, route)
		same("form", seen.Form, form)
		want := url.Values{}
		for _, src := range []url.Values{query, route, form} {
			for k, vs := range src {
				want[k] = append(want[k], vs...)
			}
		}
		same("unified", seen.Values, want)
		for k, vs := range want {
			c.Check(reflect.DeepEqual(seen.Values[k], vs), "values of %q are %q, want %q", k, seen.Values[k], vs)
		}
		c.Check(len(seen.Values) == len(want), "unified view has other names: %q, want %q", seen.Values, want)
	})
}
