package reqlogger

import (
	"encoding/base64"
	"encoding/binary"
	"net/http"
	"net/http/httptest"
	"net/url"
	"strings"
	"testing"
	"time"

	"github.com/wujiu2020/strip"
	"github.com/wujiu2020/strip/utils"
	"github.com/wujiu2020/strip/zzverif/vh"
)

type p25sink struct{ lines []string }

func (s *p25sink) Print(v ...interface{}) { s.lines = append(s.lines, v[0].(string)) }

// the client address, from the documentation
func p25addr(real, fwd, remote string) string {
	if real != "" {
		return strings.TrimSpace(real)
	}
	first := fwd
	if i := strings.IndexByte(fwd, ','); i >= 0 {
		first = fwd[:i]
	}
	if first != "" {
		a := strings.TrimSpace(first)
		if a != "" && a[0] == '[' {
			if i := strings.Index(a, "]:"); i >= 0 {
				return a[:i+1]
			}
			return a
		}
		if strings.Count(a, ":") == 1 {
			return strings.TrimSpace(a[:strings.Index(a, ":")])
		}
		return a
	}
	if i := strings.LastIndexByte(remote, ':'); i >= 0 {
		return remote[:i]
	}
	return remote
}

func p25host(c *vh.Case) string {
	return c.Pick("1.1.1.1", "10.0.0.7", "::1", "2001:db8::5", "[2001:db8::5]", "host", "a.b")
}

func p25headers(c *vh.Case) (real, fwd, remote string) {
	if c.Intn(3) == 0 {
		real = c.Pick("", " ", "  ") + p25host(c) + c.Pick("", " ")
	}
	if c.Intn(2) == 0 {
		for i := c.Intn(3); i >= 0; i-- {
			h := p25host(c)
			if c.Bool() && !(strings.Contains(h, ":") && h[0] != '[') {
				h += ":" + c.Pick("80", "3000")
			}
			if c.Intn(6) == 0 {
				h = ""
			}
			if fwd != "" || c.Intn(9) == 0 {
				fwd += ","
			}
			fwd += c.Pick("", " ") + h + c.Pick("", " ")
		}
	}
	remote = p25host(c)
	if strings.Contains(remote, ":") && remote[0] != '[' {
		remote = "[" + remote + "]"
	}
	if c.Intn(5) > 0 {
		remote += ":" + c.Pick("80", "3000", "")
	}
	return
}

func TestVerif_P25_address(t *testing.T) {
	vh.Run(t, "P25", 20, 3000, func(c *vh.Case) {
		real, fwd, remote := p25headers(c)
		c.Log("real %q, forwarded %q, connection %q", real, fwd, remote)
		req := &http.Request{Header: http.Header{}, RemoteAddr: remote}
		if real != "" {
			req.Header.Set("X-Real-Ip", real)
		}
		if fwd != "" {
			req.Header.Set("X-Forwarded-For", fwd)
		}
		got, want := realIp(req), p25addr(real, fwd, remote)
		c.Check(got == want, "the client address is %q, not %q", got, want)
	})
}

func TestVerif_P25_decode(t *testing.T) {
	vh.Run(t, "P25", 20, 3000, func(c *vh.Case) {
		if c.Intn(4) == 0 {
			old := rnd
			defer func() { rnd = old }()
			switch c.Intn(3) {
			case 0:
				rnd = uint32(c.Intn(1 << 30))
			case 1:
				rnd = 0xffffffff - uint32(c.Intn(300))
			case 2:
				rnd = uint32(c.Intn(300))
			}
			b := time.Now().UnixNano()
			id := NewReqId()
			e := time.Now().UnixNano()
			r, n := DecodeReqId(id)
			c.Log("generated id %q of %d", id, rnd)
			c.Check(uint32(r) == rnd && r <= 0xffffffff, "the decoded number is %d, not %d", r, rnd)
			c.Check(b <= n && n <= e, "the decoded time %d is not between %d and %d", n, b, e)
			c.Check(len(id) >= 10 && len(id) <= 32, "a generated id of length %d would be replaced", len(id))
			return
		}
		raw := make([]byte, c.Intn(20))
		c.Read(raw)
		id := base64.URLEncoding.EncodeToString(raw)
		switch c.Intn(5) {
		case 0:
			id = c.Str("AB_-=+/ ", 20)
		case 1:
			if len(id) > 0 {
				id = id[:c.Intn(len(id))]
			}
		}
		c.Log("id %q", id)
		r, n := DecodeReqId(id)
		b, err := base64.URLEncoding.DecodeString(id)
		if err != nil || len(b) < 12 {
			c.Check(r == 0 && n == 0, "a malformed id decodes to %d and %d", r, n)
			return
		}
		wr, wn := uint(binary.LittleEndian.Uint32(b)), int64(binary.LittleEndian.Uint64(b[4:]))
		c.Check(r == wr && n == wn, "the id decodes to %d and %d, not %d and %d", r, n, wr, wn)
	})
}

func TestVerif_P25(t *testing.T) {
	vh.Run(t, "P25", 60, 3000, func(c *vh.Case) {
		app := strip.New()
		app.Config.RunMode = "prod"
		sink := &p25sink{}
		opt := LoggerOption{FlatLine: true, ColorMode: c.Bool(), LineInfo: c.Bool()}
		prefix, given := "", ""
		filter := c.Intn(3)
		if filter > 0 {
			opt.ReqidFilter = func(ctx strip.Context, rw http.ResponseWriter, req *http.Request, id string) string {
				given = id
				if filter == 2 {
					return "short"
				}
				return "f-" + id
			}
		}
		if c.Bool() {
			prefix = "<" + c.Str("pq", 3) + ">"
			opt.PrefixFilter = func(strip.Context, http.ResponseWriter, *http.Request, string) string { return prefix }
		}
		hide := func(k int) func(strip.Context, http.ResponseWriter, *http.Request, string) string {
			switch k {
			case 1:
				return func(_ strip.Context, _ http.ResponseWriter, _ *http.Request, s string) string { return "" }
			case 2:
				return func(_ strip.Context, _ http.ResponseWriter, _ *http.Request, s string) string { return s + "~own" }
			}
			return nil
		}
		hideBeg, hideEnd := c.Intn(4), c.Intn(4)
		opt.ReqBegFilter, opt.ReqEndFilter = hide(hideBeg), hide(hideEnd)
		// what the action sees and does
		var id, hdrReq, hdrRW, ctxID string
		provided := false
		spoil, write, msg := c.Intn(3), c.Intn(3), c.Str("xy z", 4)
		ran := 0
		app.Filter(ReqLoggerFilter(sink, opt))
		app.Routers(strip.Router("/a", strip.Get(func(rw http.ResponseWriter, req *http.Request, l strip.ReqLogger, log strip.Logger) {
			ran++
			id, hdrReq, hdrRW = l.ReqId(), req.Header.Get("X-Reqid"), rw.Header().Get("X-Reqid")
			var cl strip.Logger
			if utils.CtxFindValue(req.Context(), &cl) == nil && cl != nil {
				if rl, ok := cl.(strip.ReqLogger); ok {
					ctxID = rl.ReqId()
				}
			}
			provided = interface{}(log) == interface{}(l)
			log.Warn(msg)
			switch spoil {
			case 1:
				rw.Header().Del("X-Reqid")
			case 2:
				rw.Header()["X-Reqid"] = []string{"other", "two"}
			}
			switch write {
			case 1:
				rw.WriteHeader(202)
			case 2:
				rw.Write([]byte("hello"))
			}
		})))
		own := c.Str("abc/-\"", 40)
		if c.Intn(3) == 0 {
			own = strings.Repeat("k", []int{9, 10, 32, 33, 0, 11, 31}[c.Intn(7)])
		}
		own = strings.TrimSpace(own)
		req := &http.Request{Method: "GET", URL: &url.URL{Path: "/a"}, Header: http.Header{}, RemoteAddr: "1.1.1.1:80"}
		if own != "" {
			req.Header.Set("X-Reqid", own)
		}
		rec := httptest.NewRecorder()
		c.Log("own id %q, id filter %d, prefix %q, action: spoil %d, write %d", own, filter, prefix, spoil, write)
		app.ServeHTTP(rec, req)
		c.Check(ran == 1, "the action ran %d times", ran)
		base := id
		if filter > 0 {
			base = given
			want := "f-" + given
			if filter == 2 {
				want = "short"
			}
			c.Check(id == want, "the logger's id is %q, the filter answered %q", id, want)
		}
		if len(own) >= 10 && len(own) <= 32 {
			c.Check(base == own, "the request's id %q was replaced by %q", own, base)
		} else {
			c.Check(base != own && len(base) == 16, "the id for a request with %q is %q", own, base)
			r, n := DecodeReqId(base)
			c.Check(uint32(r) == rnd && time.Since(time.Unix(0, n)) < time.Minute && n <= time.Now().UnixNano(), "the id %q decodes to %d and %d", base, r, n)
		}
		c.Check(hdrReq == id && hdrRW == id && ctxID == id && provided, "the action saw the ids %q on the request, %q on the response, %q in the context (same logger: %v), the logger has %q", hdrReq, hdrRW, ctxID, provided, id)
		if write > 0 {
			got := rec.Result().Header["X-Reqid"]
			c.Check(len(got) == 1 && got[0] == id, "the response carries the id %q, not %q", got, id)
		}
		begun, warned, ended := 0, 0, 0
		order := ""
		for _, l := range sink.lines {
			c.Check(strings.Contains(l, "["+id+"]"+prefix), "the log line %q lacks %q", l, "["+id+"]"+prefix)
			if strings.Contains(l, "[REQ_BEG]") {
				begun++
				order += "B"
				c.Check(strings.Contains(l, "~own") == (hideBeg == 2), "the first line %q (filter %d)", l, hideBeg)
			}
			if strings.Contains(l, "[REQ_END]") {
				ended++
				order += "E"
				status := []string{"200", "202", "200"}[write]
				c.Check(strings.Contains(l, "[REQ_END] "+status+" "), "the last line %q lacks the status %s", l, status)
				c.Check(strings.Contains(l, "~own") == (hideEnd == 2), "the last line %q (filter %d)", l, hideEnd)
			}
			if strings.Contains(l, "[WARN]") {
				warned++
				order += "W"
			}
		}
		want := "BWE"
		if hideBeg == 1 {
			want = want[1:]
		}
		if hideEnd == 1 {
			want = want[:len(want)-1]
		}
		c.Check(order == want, "the log has the lines %q (B first, W the action's, E last) instead of %q: %q", order, want, sink.lines)
	})
}
