package gzip

import (
	"bufio"
	"bytes"
	zip "compress/gzip"
	"io/ioutil"
	"net"
	"net/http"
	"net/http/httptest"
	"strconv"
	"strings"
	"testing"

	"github.com/wujiu2020/strip"
	"github.com/wujiu2020/strip/zzverif/vh"
)

type p22sink struct{}

func (p22sink) Print(v ...interface{}) {}

// below records the connection under the framework
type p22below struct {
	hdr  http.Header
	sent http.Header
	code int
	body bytes.Buffer
	fail int // writes fail from this one on (negative: never)
	n    int
}

func (r *p22below) Header() http.Header { return r.hdr }
func (r *p22below) WriteHeader(c int) {
	if r.sent == nil {
		r.sent, r.code = r.hdr.Clone(), c
	}
}
func (r *p22below) Write(b []byte) (int, error) {
	r.WriteHeader(200)
	r.n++
	if r.fail >= 0 && r.n > r.fail {
		return 0, net.ErrWriteToConnected
	}
	return r.body.Write(b)
}
func (r *p22below) Hijack() (net.Conn, *bufio.ReadWriter, error) { return nil, nil, nil }

type p22step struct {
	kind string
	data []byte
}

func p22plan(c *vh.Case) (steps []p22step, end string) {
	for i := c.Intn(6); i > 0; i-- {
		switch c.Intn(12) {
		case 0:
			steps = append(steps, p22step{"length", []byte(strconv.Itoa(c.Intn(2000)))})
		case 1:
			steps = append(steps, p22step{"type", []byte(c.Pick("text/plain", "application/json", "x/y"))})
		case 2:
			steps = append(steps, p22step{"status", []byte(c.Pick("200", "201", "404", "500"))})
		case 3:
			steps = append(steps, p22step{"header", []byte(c.Str("ab", 3))})
		default:
			d := []byte(c.Str("ab<html>\x00\xff {}\"%PDF-", 12))
			if c.Intn(4) == 0 {
				d = bytes.Repeat([]byte(c.Str("abc", 7)), c.Intn(4000))
			}
			if c.Intn(8) == 0 {
				d = make([]byte, c.Intn(70000))
				c.Read(d)
			}
			steps = append(steps, p22step{"write", d})
		}
	}
	answered := false
	for _, s := range steps {
		answered = answered || s.kind == "write" || s.kind == "status"
	}
	if !answered {
		steps = append(steps, p22step{"status", []byte("204")})
	}
	end = c.Pick("", "", "", "panic", "panic")
	return
}

func p22run(steps []p22step, end string) func(rw http.ResponseWriter) {
	return func(rw http.ResponseWriter) {
		for _, s := range steps {
			switch s.kind {
			case "length":
				rw.Header().Set("Content-Length", string(s.data))
			case "type":
				rw.Header().Set("Content-Type", string(s.data))
			case "status":
				n, _ := strconv.Atoi(string(s.data))
				rw.WriteHeader(n)
			case "header":
				rw.Header().Set("X-Own", string(s.data))
			case "write":
				n, err := rw.Write(s.data)
				if err == nil && n != len(s.data) {
					panic("short write without an error")
				}
			}
		}
		if end != "" {
			panic(end)
		}
	}
}

func TestVerif_P22(t *testing.T) {
	vh.Run(t, "P22", 2, 0, func(c *vh.Case) {
		steps, end := p22plan(c)
		var accept []string
		for i := c.Intn(3); i > 0; i-- {
			accept = append(accept, c.Pick("gzip", "", "deflate", "deflate, gzip", "gzip;q=0.5, br", "br", "GZIP", "x-gzip", "identity", "gz ip"))
		}
		use := len(accept) > 0 && strings.Contains(accept[0], "gzip")
		sp := strip.New()
		sp.SetLogger(strip.NewLogger(p22sink{}))
		seen := false
		var rwSeen http.ResponseWriter
		late := c.Intn(3) == 0 // a second filter between the compression and the handler
		sp.Filter(All())
		if late {
			sp.Filter(func(rw http.ResponseWriter) { rwSeen = rw })
		}
		run := p22run(steps, end)
		h := func(rw http.ResponseWriter) {
			seen = true
			rwSeen = rw
			run(rw)
		}
		sp.Filter(h)
		r, _ := http.NewRequest("GET", "http://x/", nil)
		name := c.Pick("Accept-Encoding", "accept-encoding")
		for _, a := range accept {
			r.Header.Add(name, a)
		}
		below := &p22below{hdr: http.Header{}, fail: -1}
		if c.Intn(6) == 0 {
			below.fail = c.Intn(3)
		}
		c.Log("accept %q end %q fail %d", accept, end, below.fail)
		for _, s := range steps {
			d := s.data
			if len(d) > 60 {
				d = d[:60]
			}
			c.Log("%s %q (%d)", s.kind, d, len(s.data))
		}
		v, _, panicked := vh.Panics(func() { sp.ServeHTTP(below, r) })
		if panicked != (end != "") || panicked && v != end {
			c.Fail("ended with panic %v (%v)", panicked, v)
		}
		c.Check(seen, "the rest of the chain did not run")
		var want []byte
		wrote, started, typ, length := false, false, "", ""
		sentTyp, sentLen, status := "", "", 0
		for _, s := range steps {
			switch s.kind {
			case "length":
				length = string(s.data)
			case "type":
				typ = string(s.data)
			case "status":
				if !started {
					status, _ = strconv.Atoi(string(s.data))
				}
			case "write":
				if !wrote && use && typ == "" {
					typ = http.DetectContentType(s.data)
				}
				if !wrote && use {
					length = ""
				}
				if !started {
					if started, sentTyp, sentLen = true, typ, length; status == 0 {
						status = 200
					}
				}
				wrote = true
				want = append(want, s.data...)
			}
		}
		sent := below.sent
		if sent == nil {
			sent = below.hdr
		}
		_, wrapped := rwSeen.(*gzipResponseWriter)
		c.Check(wrapped == use, "compressing writer given: %v", wrapped)
		if !use {
			c.Check(sent.Get("Content-Encoding") == "" && sent.Get("Vary") == "", "headers set without being asked: %v", sent)
			if below.fail < 0 {
				c.Check(bytes.Equal(below.body.Bytes(), want), "body %q", below.body.Bytes())
			}
			if started {
				c.Check(below.code == status && sent.Get("Content-Type") == sentTyp && sent.Get("Content-Length") == sentLen, "status %d headers %v, want %d %q %q", below.code, sent, status, sentTyp, sentLen)
			}
			return
		}
		c.Check(sent.Get("Content-Encoding") == "gzip" && sent.Get("Vary") == "Accept-Encoding", "headers %v", sent)
		c.Check(below.hdr.Get("Content-Encoding") == "gzip", "headers %v", below.hdr)
		if !wrote {
			c.Check(below.body.Len() == 0, "%d body bytes from a chain that wrote none", below.body.Len())
			return
		}
		c.Check(sent.Get("Content-Length") == "", "content length %q was sent with a compressed body", sent.Get("Content-Length"))
		c.Check(below.code == status, "status %d, want %d", below.code, status)
		c.Check(sent.Get("Content-Type") == sentTyp, "content type %q, want %q", sent.Get("Content-Type"), sentTyp)
		if below.fail >= 0 {
			return
		}
		z, err := zip.NewReader(&below.body)
		if err != nil {
			c.Fail("the body is no gzip stream: %v", err)
		}
		z.Multistream(false)
		got, err := ioutil.ReadAll(z)
		if err != nil {
			c.Fail("the compressed body is not complete: %v", err)
		}
		c.Check(bytes.Equal(got, want), "body of %d bytes decompresses to %d different ones", len(want), len(got))
		c.Check(below.body.Len() == 0, "%d bytes after the compressed stream", below.body.Len())
	})
}

// over a real connection: what a client that asks for gzip reads is what the handler wrote
func TestVerif_P22_conn(t *testing.T) {
	var steps []p22step
	sp := strip.New()
	sp.SetLogger(strip.NewLogger(p22sink{}))
	sp.Filter(All())
	sp.Filter(func(rw http.ResponseWriter) { p22run(steps, "")(rw) })
	srv := httptest.NewServer(sp)
	defer srv.Close()
	client := &http.Client{Transport: &http.Transport{}}
	vh.Run(t, "P22_conn", 4, 400, func(c *vh.Case) {
		st, _ := p22plan(c)
		steps = nil
		var want []byte
		n := 0
		for _, s := range st {
			if s.kind == "write" {
				want = append(want, s.data...)
				n++
			}
			steps = append(steps, s)
		}
		if n == 0 {
			return
		}
		for _, s := range steps {
			d := s.data
			if len(d) > 60 {
				d = d[:60]
			}
			c.Log("%s %q (%d)", s.kind, d, len(s.data))
		}
		resp, err := client.Get(srv.URL)
		if err != nil {
			c.Fail("%v", err)
		}
		defer resp.Body.Close()
		got, err := ioutil.ReadAll(resp.Body)
		if err != nil {
			c.Fail("reading the body: %v", err)
		}
		c.Check(resp.Uncompressed, "not compressed: %v", resp.Header)
		c.Check(bytes.Equal(got, want), "client read %d bytes, the handler wrote %d", len(got), len(want))
	})
}
