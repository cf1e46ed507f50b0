package sessions

import (
	"net/http/httptest"
	"testing"
	"time"

	"github.com/wujiu2020/strip/zzverif/vh"
)

func TestVerif_P17(t *testing.T) {
	vh.Run(t, "P17", 1, 0, func(c *vh.Case) {
		secret := c.Pick("the-secret", "k")
		prov := newSessProvide(Config{SecretKey: secret, SessionExpire: 10}, newFakeCache(), &bsonConverter{})
		m := NewSessionManager(prov)
		life := 60 + c.Intn(1000)
		cfg := &CookieConfig{CookieName: "sid", CookieRememberName: "rem", CookieSecure: c.Bool(), RememberExpire: life}
		psk, salt := c.Str("uU1|,%é", 4), c.Str("sS|,", 3)

		// a token alone, under any lifetime
		if psk != "" && salt != "" {
			l, age := []int{-100, -1, 0, 20, 60, 1000}[c.Intn(6)], []int{10, 40, 500, 5000}[c.Intn(4)]
			tok, _ := EncodeSecureValue(psk, secret+salt, time.Now().Add(-time.Duration(age)*time.Second))
			ok := m.ValidRemember(&CookieConfig{RememberExpire: l}, psk, salt, tok)
			c.Check(ok == (age < l), "a token issued %d seconds ago is valid: %v, its lifetime is %d", age, ok, l)
			value, _ := createRememberCookieValue(secret, psk, salt, time.Now().Add(-time.Duration(age)*time.Second))
			r := httptest.NewRequest("GET", "/", nil)
			r.Header["Cookie"] = []string{"rem=" + value}
			_, _, ok = m.HasRemember(&CookieConfig{CookieRememberName: "rem", RememberExpire: l}, r)
			c.Check(ok == (age < l), "a cookie issued %d seconds ago is recognised: %v, its lifetime is %d", age, ok, l)
		}
		if psk != "" {
			// a token made without a salt
			tok, _ := EncodeSecureValue(psk, secret, time.Now())
			c.Check(!m.ValidRemember(cfg, psk, "", tok), "a token is valid for an empty salt")
		}
		gone := httptest.NewRecorder()
		m.DestroyRemember(cfg, gone)
		if ck := gone.Result().Cookies(); len(ck) != 1 || ck[0].Name != "rem" || ck[0].MaxAge >= 0 || ck[0].Value != "" {
			c.Fail("forgetting the user sent %v", ck)
		}
		w := httptest.NewRecorder()
		ok := m.WriteRemember(cfg, w, psk, salt)
		c.Log("write %q %q: %v", psk, salt, ok)
		sent := w.Result().Cookies()
		if ok != (psk != "" && salt != "") {
			c.Fail("writing reported %v", ok)
		}
		if !ok {
			c.Check(len(sent) == 0, "cookies %v sent", sent)
			return
		}
		if len(sent) != 1 {
			c.Fail("%d cookies sent", len(sent))
		}
		c.Check(sent[0].Name == "rem" && sent[0].MaxAge == life && sent[0].HttpOnly && sent[0].Secure == cfg.CookieSecure, "the cookie is %v", sent[0])
		value, good, valid := sent[0].Value, true, true
		tsecret := secret
		switch c.Intn(10) {
		case 0: // issued long ago
			value, _ = createRememberCookieValue(secret, psk, salt, time.Now().Add(-time.Duration(life+5+c.Intn(9))*time.Second))
			good = false
		case 1: // within its lifetime
			value, _ = createRememberCookieValue(secret, psk, salt, time.Now().Add(-time.Duration(c.Intn(life-5))*time.Second))
		case 2:
			value, _ = createRememberCookieValue(secret+"x", psk, salt, time.Now())
			good = false
		case 3: // signed, but not of two parts
			value, _ = EncodeSecureValue(c.Pick("u", "%", "sid"), secret, time.Now())
			good = false
		case 4: // parts that are no escaped texts
			value, _ = EncodeSecureValue(c.Pick("%|a", "a|%zz"), secret, time.Now())
			good = false
		case 5:
			value = c.Pick("", "x", value[1:], value[:len(value)-1])
			good = false
		case 6: // a signed cookie with an old token inside
			old, _ := EncodeSecureValue(psk, secret+salt, time.Now().Add(-time.Duration(life+5)*time.Second))
			value, _ = EncodeSecureValue(esc17(psk)+"|"+esc17(old), secret, time.Now())
			valid = false
		case 7: // a signed cookie with another user's token
			tok, _ := EncodeSecureValue(psk+c.Pick("x", "|", " "), secret+salt, time.Now())
			value, _ = EncodeSecureValue(esc17(psk)+"|"+esc17(tok), secret, time.Now())
			valid = false
		}
		_ = tsecret
		r := httptest.NewRequest("GET", "/", nil)
		if c.Intn(4) == 0 {
			r.Header["Cookie"] = append(r.Header["Cookie"], "rem=x")
		}
		r.Header["Cookie"] = append(r.Header["Cookie"], "rem="+value)
		var p2, tok string
		if v, stack, ok := vh.Panics(func() { p2, tok, ok = m.HasRemember(cfg, r) }); ok {
			c.Fail("panic %v\n%s", v, stack)
		}
		p2, tok, ok = m.HasRemember(cfg, r)
		c.Log("cookie %q (good %v): %q %q %v", value, good, p2, tok, ok)
		if ok != good {
			c.Fail("recognised: %v", ok)
		}
		if !ok {
			return
		}
		c.Check(p2 == psk, "the user key read is %q", p2)
		if v := m.ValidRemember(cfg, p2, salt, tok); v != valid {
			c.Fail("valid: %v, want %v", v, valid)
		}
		c.Check(!m.ValidRemember(cfg, "", salt, tok) && !m.ValidRemember(cfg, p2, "", tok) && !m.ValidRemember(cfg, p2, salt, ""), "an empty part is valid")
		c.Check(!valid || !m.ValidRemember(cfg, p2+"x", salt, tok), "valid for another user")
		c.Check(!m.ValidRemember(cfg, p2, salt+"x", tok), "valid for another salt")
	})
}

func esc17(s string) string {
	const hex = "0123456789ABCDEF"
	b := ""
	for i := 0; i < len(s); i++ {
		b += "%" + string(hex[s[i]>>4]) + string(hex[s[i]&15])
	}
	return b
}
