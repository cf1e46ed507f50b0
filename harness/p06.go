package strip_test

import (
	"errors"
	"fmt"
	"net/http"
	"strings"
	"testing"

	"github.com/wujiu2020/strip"
	"github.com/wujiu2020/strip/zzverif/vh"
)

type p06val struct{ A, B int }

type p06nodep struct{}

// a panic anywhere below the recovery filter, before or after the status was set
func TestVerif_P06(t *testing.T) {
	vh.Run(t, "P06", 1, 0, func(c *vh.Case) {
		vals := []interface{}{"boom", errors.New("an error"), 42, p06val{1, 2}, &p06val{3, 4}, []string{"x"}, http.ErrAbortHandler, 1.5, "", error(nil) == nil}
		val := vals[c.Intn(len(vals))]
		runtimeKind := c.Intn(5)
		where := c.Intn(3) // 0 global filter, 1 route filter, 2 action
		status := 0
		body := ""
		if c.Bool() {
			status = []int{200, 202, 302, 404, 500, 503}[c.Intn(6)]
		}
		if c.Intn(3) == 0 {
			body = c.Str("xy", 4)
		}
		panics := c.Intn(4) != 0
		after := c.Intn(3) == 0 // panic after having asked for the rest of the chain
		mode := strip.Mode(c.Pick("dev", "prod", "test", ""))
		early := c.Intn(5) == 0 // a filter before the recovery filter sets the status
		c.Log("panic=%v value=%#v kind=%d where=%d status=%d body=%q mode=%s after=%v", panics, val, runtimeKind, where, status, body, mode, after)
		_ = early
		app, log := newApp()
		app.Config.RunMode = mode
		escaped := false
		ran := 0
		app.Filter(func(ctx strip.Context) {
			_, _, escaped = vh.Panics(func() { ctx.Next() })
			ran++
		})
		app.Filter(strip.RecoveryFilter())
		bad := func(ctx strip.Context, rw http.ResponseWriter) {
			if after {
				ctx.Next()
			}
			if status != 0 {
				rw.WriteHeader(status)
			}
			if body != "" {
				rw.Write([]byte(body))
			}
			if panics {
				switch runtimeKind {
				case 0:
					var m map[string]int
					m["x"] = 1
				case 1:
					var a []int
					_ = a[c.Intn(3)]
				default:
					panic(val)
				}
			}
		}
		ok := func() {}
		app.Filter(pick(where == 0, bad, ok))
		app.NotFound(ok)
		app.Routers(strip.Router("/p", strip.Filter(pick(where == 1, bad, ok)), strip.Get(pick(where == 2, bad, ok))))
		rec := newRecorder()
		_, _, out := vh.Panics(func() { app.ServeHTTP(rec, mkReq("GET", "/p")) })
		c.Check(!escaped && !out, "the panic escaped the recovery filter")
		c.Check(ran == 1, "the outer filter did not continue")
		c.Check(len(rec.codes) == 1, "%d status lines were sent: %v", len(rec.codes), rec.codes)
		set := status
		if set == 0 && body != "" {
			set = 200
		}
		logged := strings.Contains(log.all(), "PANIC")
		if !panics {
			if set == 0 {
				set = 200
			}
			c.Check(rec.codes[0] == set && rec.body.String() == body && !logged, "without a panic the response is %v %q, log %q", rec.codes, rec.body.String(), log.all())
			return
		}
		c.Check(logged, "the panic was not logged: %q", log.all())
		if runtimeKind > 1 {
			c.Check(strings.Contains(log.all(), fmt.Sprintf("%#v", val)), "the log does not carry the panic value %#v: %q", val, log.all())
		}
		if set != 0 {
			c.Check(rec.codes[0] == set && rec.body.String() == body, "a response with status %d was changed to %v %q", set, rec.codes, rec.body.String())
			return
		}
		c.Check(rec.codes[0] == 500, "status is %v after a panic", rec.codes)
		if mode == "dev" {
			c.Check(strings.Contains(rec.body.String(), "PANIC") && strings.HasPrefix(rec.hdr.Get("Content-Type"), "text/html"), "no panic page in development mode: %q", rec.body.String())
		} else {
			c.Check(rec.body.Len() == 0, "panic details were sent in mode %q: %q", mode, rec.body.String())
		}
	})
}

func pick(b bool, x, y interface{}) interface{} {
	if b {
		return x
	}
	return y
}
