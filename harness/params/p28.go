package params_test

import (
	"net/http/httptest"
	"strings"
	"testing"

	"github.com/wujiu2020/strip/params"
	"github.com/wujiu2020/strip/zzverif/vh"
)

var p28names = []string{"127.0.0.1", "10.1.2.3", "example.com", "localhost", "::1", "2001:db8::7", "fe80::1%eth0", "::ffff:10.0.0.1"}

// an address as it stands in a request, with or without a port
func p28addr(c *vh.Case, port bool) (text, name, host string) {
	name = p28names[c.Intn(len(p28names))]
	host = name
	if strings.Contains(name, ":") {
		host = "[" + name + "]"
	}
	text = host
	switch {
	case port || c.Bool():
		text += ":" + c.Pick("80", "8080", "1")
	case host != name && c.Bool():
		text, host = name, name
	}
	return
}

func TestVerif_P28(t *testing.T) {
	vh.Run(t, "P28", 1, 0, func(c *vh.Case) {
		rawPath := ""
		for n := c.Intn(4); n >= 0; n-- {
			rawPath += "/" + c.Pick("", "a", "b%2Fc", "d%20e", "%C3%A9", "x+y", "..", "a:b", "%25")
		}
		rawQuery := c.Pick("", "", "?", "?q=1", "?q=a%26b&c=%2F", "?a=b?c")
		req := httptest.NewRequest("GET", "/here%2Fit/is?its=own", nil)
		scheme := c.Pick("", "", "https")
		req.URL.Scheme = scheme
		uri := "/here%2Fit/is?its=own"
		switch c.Intn(3) {
		case 0:
			uri = rawPath + rawQuery
			req.Header.Set("X-Original-URI", uri)
		case 1:
			if !strings.HasPrefix(rawPath, "//") {
				uri = rawPath + rawQuery
				req = httptest.NewRequest("GET", uri, nil)
				req.URL.Scheme = scheme
			}
		}
		remote, ip, _ := p28addr(c, true)
		req.RemoteAddr = remote
		if ip == "::1" {
			ip = "127.0.0.1"
		}
		if c.Bool() {
			first, name, _ := p28addr(c, false)
			rest := ""
			for n := c.Intn(3); n > 0; n-- {
				s, _, _ := p28addr(c, false)
				rest += "," + c.Pick("", " ") + s
			}
			req.Header.Set("X-Forwarded-For", first+rest)
			ip = name
		}
		if c.Intn(4) == 0 {
			s, _, _ := p28addr(c, false)
			req.Header.Set("X-Real-Ip", s)
			ip = s
		}
		text, _, host := p28addr(c, false)
		req.Host = text
		if c.Bool() {
			text, _, host = p28addr(c, false)
			req.Header.Set("X-Forwarded-Host", text)
		}
		proto := "http"
		if scheme != "" {
			proto = scheme
		}
		if c.Bool() {
			proto = c.Pick("http", "https", "wss")
			req.Header.Set("X-Forwarded-Proto", proto)
		}
		c.Log("remote %q host %q url %q headers %v", req.RemoteAddr, req.Host, req.URL, req.Header)
		before := req.URL.String()
		c.Check(params.RealIp(req) == ip, "RealIp %q, want %q", params.RealIp(req), ip)
		c.Check(params.RealHost(req) == host, "RealHost %q, want %q", params.RealHost(req), host)
		c.Check(params.RealProto(req) == proto, "RealProto %q, want %q", params.RealProto(req), proto)
		c.Check(params.RealURI(req) == uri, "RealURI %q, want %q", params.RealURI(req), uri)
		u, err := params.RealURL(req)
		c.Check(err == nil && u != nil, "RealURL of %q: %v", uri, err)
		c.Check(u.Scheme == proto && u.Host == host && u.RequestURI() == uri, "RealURL %v, want %s://%s%s", u, proto, host, uri)
		c.Check(u != req.URL && req.URL.String() == before, "RealURL changed the request's URL to %v", req.URL)
		req.Header.Set("X-Original-URI", "no uri")
		u, err = params.RealURL(req)
		c.Check(err != nil && u == nil, "RealURL of a malformed X-Original-URI: %v %v", u, err)
	})
}
