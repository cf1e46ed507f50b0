package sessions

import (
	"errors"
	"net/http"
	"net/http/httptest"
	"net/url"
	"strings"
	"testing"
	"time"

	"github.com/wujiu2020/strip/zzverif/vh"
)

const p16secret = "the-secret"

// one cookie of a request, and what it names at this moment
func p16cookie(c *vh.Case, name string, life int, sids []string) (value, sid string, ok bool) {
	sid = sids[c.Intn(len(sids))]
	age := c.Intn(3) * life / 3 // far from the end of the lifetime
	at := time.Now().Add(-time.Duration(age) * time.Second)
	switch c.Intn(8) {
	case 0: // too old
		at = time.Now().Add(-time.Duration(life+5+c.Intn(100)) * time.Second)
		value, _ = EncodeSecureValue(sid, p16secret, at)
		return value, sid, false
	case 1: // another secret
		value, _ = EncodeSecureValue(sid, c.Pick("the-secre", "x"), at)
		return value, sid, false
	case 2:
		return c.Pick("", "x", "%", "%zz", sid), sid, false
	}
	value, _ = EncodeSecureValue(sid, p16secret, at)
	if c.Bool() {
		value = url.QueryEscape(value)
	}
	return value, sid, true
}

func p16new(c *vh.Case, w *httptest.ResponseRecorder, cfg *CookieConfig, sess SessionStore, at time.Time) {
	sid := sess.Sid()
	c.Check(len(sid) == SESSION_ID_LENGTH && strings.Trim(sid, string(_SESSION_ALPHABETS)) == "", "the new id is %q", sid)
	cs := w.Result().Cookies()
	if len(cs) != 1 {
		c.Fail("%d cookies sent", len(cs))
	}
	raw, t, ok := DecodeSecureValue(cs[0].Value, p16secret)
	c.Check(cs[0].Name == cfg.CookieName && ok && raw == sid && t.Equal(at) && cs[0].HttpOnly && cs[0].Path == "/", "the cookie sent is %v (%q %v %v)", cs[0], raw, t, ok)
	want := cfg.CookieExpire
	if want < 0 {
		want = 0
	}
	c.Check(cs[0].MaxAge == want && cs[0].Secure == cfg.CookieSecure && cs[0].Domain == cfg.CookieDomain, "the cookie sent is %v", cs[0])
	c.Check(time.Since(at) < time.Minute && time.Since(at) >= 0, "created at %v", at)
}

func TestVerif_P16(t *testing.T) {
	vh.Run(t, "P16", 1, 0, func(c *vh.Case) {
		life := 60 + c.Intn(3000)
		cache := newFakeCache()
		prov := newSessProvide(Config{SecretKey: p16secret, SessionExpire: life}, cache, &bsonConverter{})
		sids := []string{"AAA", "BBB", "C,C|"}
		vals := map[string]map[string]interface{}{}
		for _, s := range sids {
			if c.Intn(3) > 0 {
				vals[s] = map[string]interface{}{"of": s, "n": c.Str("123", 2)}
				b, _ := (&bsonConverter{}).Marshal(vals[s])
				cache.m[s] = string(b)
			}
		}
		cache.flaky(c)
		failed := ""
		prev := cache.fail
		cache.fail = func(op string) bool {
			r := prev(op)
			if r && failed == "" {
				failed = op
			}
			return r
		}
		m := NewSessionManager(prov)
		cfg := &CookieConfig{CookieName: "sid", CookieExpire: c.Intn(3)*50 - 50, CookieSecure: c.Bool(), CookieDomain: c.Pick("", "example.com")}
		r := httptest.NewRequest("GET", "/", nil)
		named, sid := false, ""
		for n := c.Intn(4); n > 0; n-- {
			name := c.Pick("sid", "sid", "other", "Sid")
			v, s, ok := p16cookie(c, name, life, sids)
			r.Header["Cookie"] = append(r.Header["Cookie"], name+"="+v)
			c.Log("cookie %s=%s: names %q, valid %v", name, v, s, ok)
			if name == "sid" {
				named, sid = ok, s
				if v != "" && (strings.ContainsAny(v, "\" ,;\\")) {
					named = false
				}
			}
		}
		had, exists := vals[sid]
		exists = exists && named
		w := httptest.NewRecorder()
		var sess SessionStore
		var at time.Time
		var err error
		op := c.Pick("Start", "Regenerate", "Destroy")
		c.Log("%s with %v (lifetime %d)", op, r.Header["Cookie"], life)
		if v, stack, ok := vh.Panics(func() {
			switch op {
			case "Start":
				sess, at, err = m.Start(cfg, w, r)
			case "Regenerate":
				if c.Bool() {
					sess, at, err = m.Regenerate(cfg, w, r)
				} else {
					sess, at, err = m.Regenerate(cfg, w, r, map[string]interface{}{"given": "1"})
				}
			case "Destroy":
				err = m.Destroy(cfg, w, r)
			}
		}); ok {
			c.Fail("panic %v\n%s", v, stack)
		}
		c.Log("err %v, backend failure %q", err, failed)
		sent := w.Result().Cookies()
		if op == "Destroy" {
			c.Check(err == nil, "error %v", err)
			if !named {
				c.Check(len(sent) == 0 && len(cache.m) == len(vals), "an unnamed session was destroyed")
				return
			}
			_, left := cache.m[sid]
			c.Check(!left || failed != "", "the session is still stored")
			c.Check(len(sent) == 1 && sent[0].Name == "sid" && sent[0].MaxAge < 0 && sent[0].Value == "", "the cookies sent are %v", sent)
			return
		}
		if failed != "" {
			c.Check(errors.Is(err, errDown) && len(sent) == 0, "a failed %s gave the error %v and the cookies %v", failed, err, sent)
			if exists { // the data is somewhere
				n := 0
				for k := range cache.m {
					if got, _ := stored(cache, k); sameVals(got, had) {
						n++
					}
				}
				c.Check(n > 0, "the session's data is lost")
			}
			return
		}
		if err != nil || sess == nil {
			c.Fail("error %v", err)
		}
		switch {
		case op == "Start" && named:
			c.Check(sess.Sid() == sid && len(sent) == 0, "attached to %q, cookies %v", sess.Sid(), sent)
			if exists {
				c.Check(sameVals(sess.Values(), had), "the session holds %v, want %v", sess.Values(), had)
			} else {
				c.Check(len(sess.Values()) == 0, "the new session holds %v", sess.Values())
			}
		case op == "Start":
			p16new(c, w, cfg, sess, at)
			c.Check(len(sess.Values()) == 0, "the new session holds %v", sess.Values())
		default:
			p16new(c, w, cfg, sess, at)
			c.Check(sess.Sid() != sid, "the id was kept")
			if exists {
				c.Check(sameVals(sess.Values(), had), "the session holds %v, want %v", sess.Values(), had)
				_, left := cache.m[sid]
				got, ok := stored(cache, sess.Sid())
				c.Check(!left && ok && sameVals(got, had), "under the old id: %v; under the new one: %v", left, got)
				c.Check(cache.life[sess.Sid()] == life, "the lifetime is %d", cache.life[sess.Sid()])
			}
		}
		// the request carries the new id from here on
		if len(sent) == 1 {
			got, _, ok := m.ReadSidFromRequest(r, "sid")
			c.Check(ok && got == sess.Sid(), "the request now names %q (%v)", got, ok)
		}
	})
}

var _ = http.StatusOK
