package sessions

import (
	"crypto/hmac"
	"crypto/sha1"
	"encoding/base64"
	"encoding/hex"
	"net/url"
	"strconv"
	"strings"
	"testing"
	"time"

	"github.com/wujiu2020/strip/zzverif/vh"
)

func p14mac(secret, text string) string {
	h := hmac.New(sha1.New, []byte(secret))
	h.Write([]byte(text))
	return hex.EncodeToString(h.Sum(nil))
}

func p14raw(c *vh.Case) string {
	return c.Str("abc,|%+ 019é=/&\x00", 8)
}

// what a value carries, judged independently: text, time, and whether the signature is theirs
func p14judge(value, secret string) (raw string, ns int64, ok bool) {
	b, err := base64.URLEncoding.DecodeString(value)
	if err != nil {
		return
	}
	p := strings.SplitN(string(b), ",", 3)
	if len(p) < 3 {
		return
	}
	raw, err = url.QueryUnescape(strings.TrimSpace(p[0]))
	if err != nil {
		return
	}
	ns, err = strconv.ParseInt(strings.TrimSpace(p[1]), 10, 64)
	if err != nil {
		return
	}
	ok = strings.TrimSpace(p[2]) == p14mac(secret, raw+","+strconv.FormatInt(ns, 10))
	return
}

func TestVerif_P14_roundtrip(t *testing.T) {
	vh.Run(t, "P14", 1, 0, func(c *vh.Case) {
		raw, secret := p14raw(c), c.Str("kK,1", 3)
		ns := int64(1 + c.Intn(1<<30))
		if c.Bool() {
			ns = ns*1000003 + 1500000000000000000
		}
		at := time.Unix(0, ns)
		c.Log("encode %q secret %q time %d", raw, secret, ns)
		value, ok := EncodeSecureValue(raw, secret, at)
		if ok != (raw != "" && secret != "") {
			c.Fail("encoding reported %v", ok)
			return
		}
		if !ok {
			c.Check(value == "", "a refused encoding gave %q", value)
			return
		}
		c.Log("value %q", value)
		r2, at2, ok := DecodeSecureValue(value, secret)
		c.Check(ok && r2 == raw && at2.Equal(at), "decoded %q %v %v", r2, at2.UnixNano(), ok)
		c.Check(GetRawFromSecureValue(value) == raw, "the text read is %q", GetRawFromSecureValue(value))
		_, _, ok = DecodeSecureValue(value, secret+"x")
		c.Check(!ok, "accepted under another secret")
	})
}

func TestVerif_P14_forged(t *testing.T) {
	vh.Run(t, "P14", 2, 0, func(c *vh.Case) {
		raw, secret := "u"+p14raw(c), "k"+c.Str("K1", 2)
		at := time.Unix(0, 1500000000000000000+int64(c.Intn(1000)))
		value, _ := EncodeSecureValue(raw, secret, at)
		plain, _ := base64.URLEncoding.DecodeString(value)
		p := strings.SplitN(string(plain), ",", 3)
		text, tm, sig := p[0], p[1], p[2]
		switch c.Intn(12) {
		case 0:
			text = url.QueryEscape(raw + c.Str("ab,|", 2))
		case 1: // move the line between text and time
			k := c.Intn(len(tm))
			text, tm = url.QueryEscape(raw+tm[:k]), tm[k:]
		case 2:
			text, tm = url.QueryEscape(raw+","+tm[:3]), tm[3:]
		case 3:
			tm = "+" + tm
		case 4:
			tm = "0" + tm
		case 5:
			tm = strconv.Itoa(1 + c.Intn(9))
		case 6:
			sig = p14mac(c.Str("kK1", 3), raw+","+tm)
		case 7:
			sig = sig + c.Pick(" ", "0", "", ",", "\n")
		case 8:
			sig = c.Pick("", "0", strings.ToUpper(sig), sig[1:], sig[:len(sig)-1])
		case 9:
			text = c.Pick("", "%", "%zz", raw, " "+text)
		case 10:
			tm = c.Pick("", "-1", "0", "x", "9223372036854775808", " "+tm)
		case 11: // a signature over something that reads the same
			sig = p14mac(secret, raw+tm)
		}
		forged := base64.URLEncoding.EncodeToString([]byte(text + "," + tm + "," + sig))
		switch c.Intn(6) {
		case 0:
			forged += c.Pick("!", "=", "A", "AAAA", "\n", "%3D")
		case 1:
			forged = c.Pick("", "!", forged[:len(forged)/2], string(plain), base64.URLEncoding.EncodeToString([]byte(c.Str("a,1%", 6))))
		}
		c.Log("value %q secret %q", forged, secret)
		var r2 string
		var at2 time.Time
		var ok bool
		if v, stack, paniced := vh.Panics(func() { r2, at2, ok = DecodeSecureValue(forged, secret); GetRawFromSecureValue(forged) }); paniced {
			c.Fail("panic %v\n%s", v, stack)
			return
		}
		if !ok {
			return
		}
		jr, jn, jok := p14judge(forged, secret)
		c.Check(jok && jr == r2 && jn == at2.UnixNano(), "accepted %q at %d", r2, at2.UnixNano())
		c.Check(r2 == raw && at2.Equal(at), "accepted %q at %d: never signed", r2, at2.UnixNano())
	})
}
