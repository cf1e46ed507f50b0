package static

import (
	"io/ioutil"
	"net/http"
	"net/http/httptest"
	"net/url"
	"os"
	"path"
	"path/filepath"
	"strings"
	"testing"

	"github.com/wujiu2020/strip"
	"github.com/wujiu2020/strip/zzverif/vh"
)

type p23sink struct{}

func (p23sink) Print(v ...interface{}) {}

// stops in the middle of an answer
type p23broken struct{ *httptest.ResponseRecorder }

func (p23broken) Write(b []byte) (int, error) { panic("connection gone") }

func p23tree(t *testing.T) (base, root string) {
	base, err := ioutil.TempDir("", "p23")
	if err != nil {
		t.Fatal(err)
	}
	base, err = filepath.EvalSymlinks(base)
	if err != nil {
		t.Fatal(err)
	}
	root = filepath.Join(base, "root")
	for _, d := range []string{"root/sub/empty", "root/idx/index.html", "root/pre/a", "rootx"} {
		os.MkdirAll(filepath.Join(base, d), 0755)
	}
	for _, f := range []string{"secret.txt", "rootx/b.txt", "root/a.txt", "root/index.html", "root/sub/index.html", "root/sub/a.txt", "root/pre/a/c.txt", "root/pre.txt", "root/fall.html"} {
		ioutil.WriteFile(filepath.Join(base, f), []byte("content of "+f), 0644)
	}
	return
}

func p23fds() int {
	l, err := ioutil.ReadDir("/proc/self/fd")
	if err != nil {
		return -1
	}
	return len(l)
}

// what is at a name below the root: "" missing, "dir", or "file" and its content
func p23at(root, name string) (kind, content string) {
	name = path.Clean("/" + name)
	if strings.Contains(name, "\x00") {
		return
	}
	p := filepath.Join(root, filepath.FromSlash(name))
	fi, err := os.Stat(p)
	if err != nil {
		return
	}
	if fi.IsDir() {
		return "dir", ""
	}
	b, _ := ioutil.ReadFile(p)
	return "file", string(b)
}

func TestVerif_P23(t *testing.T) {
	base, root := p23tree(t)
	defer os.RemoveAll(base)
	vh.Run(t, "P23", 1, 0, func(c *vh.Case) {
		piece := func() string {
			return c.Pick("a.txt", "sub", "empty", "idx", "index.html", "pre", "pre.txt", "a", "c.txt", "..", ".", "", "none", "root", "rootx", "b.txt", "secret.txt", "fall.html", "%2e%2e", "..\\", "\x00")
		}
		p := ""
		for i := c.Intn(5); i > 0; i-- {
			p += "/" + piece()
		}
		if c.Intn(3) == 0 {
			p += "/"
		}
		if c.Intn(8) == 0 {
			p = strings.TrimPrefix(p, "/")
		}
		prefix := c.Pick("", "", "", "/", "pre", "/pre", "/pre/", "/sub", "sub//", "/pre/a", "/p")
		if prefix != "" && c.Intn(3) > 0 {
			p = "/" + strings.Trim(prefix, "/") + c.Pick("", p, p, p, ".txt", "x"+p)
		}
		var opt StaticOption
		opt.AnyMethod = c.Intn(4) == 0
		opt.TryFilesThen = c.Pick("", "", "fall.html", "/fall.html", "none", "/sub", "../secret.txt", "/sub/a.txt")
		for i := c.Intn(3); i > 0; i-- {
			opt.SkipPrefix = append(opt.SkipPrefix, c.Pick("/sub", "/a", "/x", "/idx/", "/pre", "sub", "/none"))
		}
		method := c.Pick("GET", "GET", "GET", "HEAD", "POST", "PUT", "get", "OPTIONS", "")
		query := c.Pick("", "", "q=1&r=%2F", "x")
		dir := root + c.Pick("", "/", "/../root")
		c.Log("prefix %q dir %q options %+v", prefix, dir, opt)
		c.Log("%s %q query %q", method, p, query)

		sp := strip.New()
		sp.SetLogger(strip.NewLogger(p23sink{}))
		if c.Intn(8) == 0 && !opt.AnyMethod && opt.TryFilesThen == "" && opt.SkipPrefix == nil {
			sp.Filter(ServeFilter(prefix, dir))
		} else {
			sp.Filter(ServeFilter(prefix, dir, opt))
		}
		sp.Filter(func(rw http.ResponseWriter) {
			rw.WriteHeader(299)
			rw.Write([]byte("next"))
		})
		req := &http.Request{Method: method, URL: &url.URL{Path: p, RawQuery: query}, Header: http.Header{}, Host: "x", Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1}

		// what should come out
		np := prefix
		if np != "" && np[0] != '/' {
			np = "/" + np
		}
		for strings.HasSuffix(np, "/") {
			np = np[:len(np)-1]
		}
		want, body := "next", "next"
		rest := p
		on := opt.AnyMethod || method == "GET" || method == "HEAD"
		if on && np != "" {
			on = p == np || strings.HasPrefix(p, np+"/")
			if on {
				rest = p[len(np):]
			}
		}
		for _, s := range opt.SkipPrefix {
			on = on && !strings.HasPrefix(rest, s)
		}
		if on {
			kind, content := p23at(root, rest)
			want, body = "file", content
			switch {
			case kind == "" && opt.TryFilesThen == "":
				want = "missing"
			case kind == "":
				kind, content = p23at(root, opt.TryFilesThen)
				body = content
				if kind == "" {
					want = "missing"
				} else if kind == "dir" {
					return
				}
			case kind == "dir" && !strings.HasSuffix(p, "/"):
				want = "redirect"
			case kind == "dir":
				kind, content = p23at(root, path.Join(rest, "index.html"))
				body = content
				if kind == "" {
					want = "missing"
				} else if kind == "dir" {
					want, body = "next", "next"
				}
			}
		}

		rec := httptest.NewRecorder()
		before := p23fds()
		if c.Intn(6) == 0 {
			vh.Panics(func() { sp.ServeHTTP(p23broken{rec}, req) })
			if n := p23fds(); n > before {
				c.Fail("%d files left open after the connection broke", n-before)
			}
			return
		}
		sp.ServeHTTP(rec, req)
		if n := p23fds(); n > before {
			c.Fail("%d files left open", n-before)
		}
		got := rec.Body.String()
		c.Check(!strings.Contains(got, "content of secret") && !strings.Contains(got, "content of rootx"), "a file outside the directory was served: %q", got)
		switch want {
		case "next":
			c.Check(rec.Code == 299 && got == "next", "the request was not left alone: %d %q", rec.Code, got)
		case "missing":
			c.Check(rec.Code == 404, "answered %d %q, want not found", rec.Code, got)
		case "redirect":
			to, err := url.Parse(rec.Header().Get("Location"))
			if err != nil {
				c.Fail("redirected to %q", rec.Header().Get("Location"))
			}
			// the client goes to the same place with a slash at the end
			at, _ := url.Parse("http://x/")
			to = at.ResolveReference(to)
			c.Check(rec.Code == 302 && to.Host == "x" && path.Clean("/"+to.Path) == path.Clean("/"+p) && strings.HasSuffix(to.Path, "/") && to.RawQuery == query, "answered %d to %q", rec.Code, rec.Header().Get("Location"))
		case "file":
			if method == "HEAD" {
				body = ""
			}
			c.Check(rec.Code == 200 && got == body, "answered %d %q, want %q", rec.Code, got, body)
		}
	})
}
