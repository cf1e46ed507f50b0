package strip_test

import (
	"fmt"
	"net/http"
	"strings"
	"testing"

	"github.com/wujiu2020/strip"
	"github.com/wujiu2020/strip/zzverif/vh"
)

// random operation sequences on the framework's response writer against a reference model of the wire
func TestVerif_P05(t *testing.T) {
	vh.Run(t, "P05", 1, 0, func(c *vh.Case) {
		rec := newRecorder()
		failHijack := false
		var under http.ResponseWriter = rec
		canFlush, canHijack := false, false
		switch c.Intn(4) {
		case 0:
			under = recFlusher{rec}
			canFlush = true
		case 1, 2:
			under = recHijacker{recFlusher{rec}, &failHijack}
			canFlush, canHijack = true, true
		}
		if c.Intn(4) == 0 {
			rec.accept = c.Intn(4)
		}
		// the model
		var want []string
		status, size, committed, hijacked := 0, 0, false, false
		type hook struct {
			id, set int
		}
		var hooks []hook
		var ran, wantRan []string
		// several filters share the operations: the last write may be left to the framework
		commit := func() {
			if committed {
				return
			}
			committed = true
			for i := len(hooks) - 1; i >= 0; i-- {
				wantRan = append(wantRan, fmt.Sprint(hooks[i].id))
				if hooks[i].set != 0 {
					status = hooks[i].set
				}
			}
			if status == 0 {
				status = 200
			}
			if !hijacked {
				want = append(want, fmt.Sprintf("status %d", status))
			}
		}
		ops := func(rw strip.ResponseWriter, n int) {
			for i := 0; i < n; i++ {
				switch op := c.Intn(12); op {
				case 0, 1:
					s := []int{200, 201, 204, 304, 404, 418, 500, 100 + c.Intn(500)}[c.Intn(8)]
					c.Log("WriteHeader(%d)", s)
					rw.WriteHeader(s)
					status = s
				case 2:
					c.Log("WriteHeader(0)")
					_, _, p := vh.Panics(func() { rw.WriteHeader(0) })
					c.Check(p, "a zero status was accepted")
				case 3, 4, 5:
					b := []byte(c.Str("abc", 6))
					c.Log("Write(%q)", b)
					n, err := rw.Write(b)
					commit()
					k, short := len(b), false
					if rec.accept >= 0 && k > rec.accept {
						k, short = rec.accept, true
					}
					if len(b) > 0 {
						want = append(want, fmt.Sprintf("body %q", b[:k]))
					}
					size += k
					c.Check(n == k && (err != nil) == short, "Write returned %d,%v but the connection took %d bytes", n, err, k)
				case 6, 7, 8:
					if committed {
						continue
					}
					h := hook{id: len(hooks)}
					if c.Intn(3) == 0 {
						h.set = 300 + c.Intn(200)
					}
					c.Log("Before(#%d sets %d)", h.id, h.set)
					hooks = append(hooks, h)
					rw.Before(func(w strip.ResponseWriter) {
						ran = append(ran, fmt.Sprint(h.id))
						if len(rec.codes) > 0 {
							ran = append(ran, "late")
						}
						if h.set != 0 {
							w.WriteHeader(h.set)
						}
					})
				case 9:
					if c.Intn(3) != 0 {
						continue
					}
					failHijack = c.Intn(3) == 0
					c.Log("Hijack() supported=%v fails=%v", canHijack, failHijack)
					_, _, err := rw.Hijack()
					ok := canHijack && !failHijack
					c.Check((err == nil) == ok, "Hijack gave %v", err)
					if ok {
						hijacked = true
					}
				case 10:
					if c.Intn(2) == 0 {
						continue
					}
					c.Log("Flush()")
					rw.Flush()
					if canFlush {
						commit()
						want = append(want, "flush")
					}
				}
				c.Check(rw.Status() == status, "Status() is %d, the last status set is %d", rw.Status(), status)
				c.Check(rw.Written() == (status != 0), "Written() is %v with status %d", rw.Written(), status)
				c.Check(rw.Size() == size, "Size() is %d, %d bytes were accepted", rw.Size(), size)
			}
		}
		app, _ := newApp()
		app.Filter(func(w http.ResponseWriter) { ops(w.(strip.ResponseWriter), 1+c.Intn(8)) })
		app.NotFound(func(w http.ResponseWriter) { ops(w.(strip.ResponseWriter), c.Intn(8)) })
		app.ServeHTTP(under, mkReq("GET", "/none"))
		commit() // the framework commits at the end
		c.Check(strings.Join(rec.events, ",") == strings.Join(want, ","), "the client saw [%s], expected [%s]", strings.Join(rec.events, ","), strings.Join(want, ","))
		c.Check(strings.Join(ran, ",") == strings.Join(wantRan, ","), "hooks ran [%s], expected [%s]", strings.Join(ran, ","), strings.Join(wantRan, ","))
	})
}
