package strip_test

import (
	"errors"
	"fmt"
	"net/http"
	"strings"
	"testing"

	"github.com/wujiu2020/strip"
	"github.com/wujiu2020/strip/zzverif/vh"
)

type p04missing struct{ X int }

// random chains of filters that return, set the status, ask for the rest, or cannot be invoked
func TestVerif_P04(t *testing.T) {
	vh.Run(t, "P04", 1, 0, func(c *vh.Case) {
		const (
			plain = iota
			next
			write
			nextWrite
			nextTwice
			missing
			nilFilter
			actions
		)
		n, m := c.Intn(6), c.Intn(4)
		kinds := make([]int, n+m+1)
		for i := range kinds {
			kinds[i] = []int{plain, plain, next, next, next, write, nextWrite, nextTwice, missing}[c.Intn(9)]
			if kinds[i] == missing && c.Intn(3) > 0 {
				kinds[i] = plain
			}
		}
		if k := kinds[n+m]; k != write && k != missing {
			kinds[n+m] = plain // the action itself does not ask for more
		}
		c.Log("%d global filters, %d route filters, behaviours %v (0 plain 1 next 2 write 3 next+write 4 next twice 5 missing dependency)", n, m, kinds)
		var trace, want []string
		mk := func(i int) interface{} {
			if kinds[i] == missing {
				return func(x *p04missing) { trace = append(trace, fmt.Sprint(i)) }
			}
			return func(ctx strip.Context, rw http.ResponseWriter) {
				trace = append(trace, fmt.Sprint(i))
				switch kinds[i] {
				case next:
					ctx.Next()
				case write:
					rw.WriteHeader(201)
				case nextWrite:
					ctx.Next()
					rw.WriteHeader(202)
				case nextTwice:
					ctx.Next()
					if !ctx.Written() {
						ctx.Next()
					}
				}
				trace = append(trace, fmt.Sprintf("end%d", i))
			}
		}
		// the model: two nested chains; a chain element run returns false when the chain must stop
		written := false
		bad := errors.New("missing")
		done := make([]bool, n+m+2)
		// chain: elements ids[], final() at the end
		var chain func(ids []int, final func())
		chain = func(ids []int, final func()) {
			idx := 0
			var loop func()
			one := func(i int) {
				if i == len(ids) {
					final()
					return
				}
				id := ids[i]
				if kinds[id] == missing {
					panic(bad)
				}
				if done[id] {
					panic("model: twice")
				}
				done[id] = true
				want = append(want, fmt.Sprint(id))
				adv := func() { idx++; loop() }
				switch kinds[id] {
				case next:
					adv()
				case write:
					written = true
				case nextWrite:
					adv()
					written = true
				case nextTwice:
					adv()
					if !written {
						adv()
					}
				}
				want = append(want, fmt.Sprintf("end%d", id))
			}
			loop = func() {
				for idx <= len(ids) {
					one(idx)
					idx++
					if written {
						return
					}
				}
			}
			loop()
		}
		var g, r []int
		for i := 0; i < n; i++ {
			g = append(g, i)
		}
		for i := n; i < n+m; i++ {
			r = append(r, i)
		}
		_, _, wantErr := vh.Panics(func() {
			chain(g, func() {
				chain(r, func() {
					id := n + m
					if kinds[id] == missing {
						panic(bad)
					}
					want = append(want, fmt.Sprint(id))
					if kinds[id] == write {
						written = true
					}
					want = append(want, fmt.Sprintf("end%d", id))
				})
			})
		})
		app, _ := newApp()
		for i := 0; i < n; i++ {
			app.Filter(mk(i))
		}
		var rf []interface{}
		for i := n; i < n+m; i++ {
			rf = append(rf, mk(i))
		}
		app.Routers(strip.Router("/a", strip.Filter(rf...), strip.Get(mk(n+m))))
		_, _, gotErr := vh.Panics(func() { app.ServeHTTP(newRecorder(), mkReq("GET", "/a")) })
		c.Check(gotErr == wantErr, "an error of invoking a filter surfaced: %v, expected %v", gotErr, wantErr)
		c.Check(strings.Join(trace, ",") == strings.Join(want, ","), "invoked [%s], expected [%s]", strings.Join(trace, ","), strings.Join(want, ","))
	})
}
