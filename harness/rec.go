package strip_test

import (
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"net"
	"net/http"
	"strings"

	"github.com/wujiu2020/strip"
)

// recorder is the connection below the framework: it records what reaches the client
type recorder struct {
	hdr     http.Header
	events  []string
	codes   []int
	body    bytes.Buffer
	sent    http.Header // header snapshot when the status line went out
	accept  int         // accept at most this many bytes per write (negative: all)
	flushed int
}

func newRecorder() *recorder { return &recorder{hdr: http.Header{}, accept: -1} }

func (r *recorder) Header() http.Header { return r.hdr }
func (r *recorder) WriteHeader(c int) {
	r.codes = append(r.codes, c)
	r.events = append(r.events, fmt.Sprintf("status %d", c))
	if r.sent == nil {
		r.sent = r.hdr.Clone()
	}
}
func (r *recorder) Write(b []byte) (int, error) {
	n := len(b)
	var err error
	if r.accept >= 0 && n > r.accept {
		n, err = r.accept, errors.New("short")
	}
	r.body.Write(b[:n])
	if len(b) > 0 {
		r.events = append(r.events, fmt.Sprintf("body %q", b[:n]))
	}
	return n, err
}

type recFlusher struct{ *recorder }

func (r recFlusher) Flush() {
	r.flushed++
	r.events = append(r.events, "flush")
}

type recHijacker struct {
	recFlusher
	fail *bool
}

func (r recHijacker) Hijack() (net.Conn, *bufio.ReadWriter, error) {
	if *r.fail {
		return nil, nil, errors.New("no hijack")
	}
	return nil, nil, nil
}

func (r recHijacker) CloseNotify() <-chan bool { return make(chan bool) }

// quiet is a logger that keeps what it is given
type sink struct{ lines []string }

func (s *sink) Print(v ...interface{}) { s.lines = append(s.lines, fmt.Sprint(v...)) }
func (s *sink) all() string            { return strings.Join(s.lines, "\n") }

func newApp() (*strip.Strip, *sink) {
	s := &sink{}
	a := strip.New()
	l := strip.NewLogger(s)
	l.SetColorMode(false)
	a.SetLogger(l)
	return a, s
}

func mkReq(method, path string) *http.Request {
	r, err := http.NewRequest("GET", "http://x/", nil)
	if err != nil {
		panic(err)
	}
	r.Method = method
	r.URL.Path = path
	r.RemoteAddr = "10.1.2.3:4567"
	return r
}
