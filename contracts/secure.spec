package github.com/wujiu2020/strip/sessions

# ---- the signature, the encodings and instants, by the standard library ----
uninterp func macOf(key string, msg string) string
uninterp func hexOf(s string) string
uninterp func b64enc(s string) string
uninterp func b64ok(s string) bool
uninterp func b64dec(s string) string
uninterp func esc(s string) string
uninterp func escOK(s string) bool
uninterp func unesc(s string) string
ghost macKey arr[any->string]
ghost macMsg arr[any->string]

extern crypto/hmac.New(h, key) (r)
  modifies macKey, macMsg
  ensures r != nil && macKey == update(old(macKey), r, bytesstr(key)) && macMsg == update(old(macMsg), r, "")
iface (hash.Hash).Write(h, b) (n, err)
  modifies macMsg
  ensures err == nil ==> macMsg == update(old(macMsg), h, select(old(macMsg), h) + bytesstr(b))
  ensures never: err == nil
iface (hash.Hash).Sum(h, b) (s)
  ensures len(b) == 0 ==> bytesstr(s) == macOf(select(macKey, h), select(macMsg, h))
  ensures fresh(s)
extern encoding/hex.EncodeToString(b) (s)
  ensures s == hexOf(bytesstr(b))
extern (*encoding/base64.Encoding).EncodeToString(e, b) (s)
  requires url: e == base64.URLEncoding
  ensures s == b64enc(bytesstr(b))
extern (*encoding/base64.Encoding).DecodeString(e, s) (b, err)
  requires url: e == base64.URLEncoding
  ensures (err == nil) == b64ok(s)
  ensures err == nil ==> bytesstr(b) == b64dec(s)
  ensures fresh(b)
extern net/url.QueryEscape(s) (r)
  ensures r == esc(s)
extern net/url.QueryUnescape(s) (r, err)
  ensures (err == nil) == escOK(s)
  ensures err == nil ==> r == unesc(s)
extern strconv.ParseInt(s, base, bits) (v, err)
  requires ten: base == 10 && bits == 64
  ensures (err == nil) == decOK(s)
  ensures err == nil ==> v == num(s)

axiom forall s string :: {b64enc(s)} b64ok(b64enc(s)) && b64dec(b64enc(s)) == s
axiom forall s string :: {esc(s)} escOK(esc(s)) && unesc(esc(s)) == s && !contains(esc(s), ",") && !contains(esc(s), "|") && strings.TrimSpace(esc(s)) == esc(s) && (esc(s) == "") == (s == "")
axiom forall n int :: {dec(n)} decOK(dec(n)) && num(dec(n)) == n && !contains(dec(n), ",") && strings.TrimSpace(dec(n)) == dec(n) && dec(n) != ""
axiom forall s string :: {hexOf(s)} !contains(hexOf(s), ",") && strings.TrimSpace(hexOf(s)) == hexOf(s)
axiom forall k string, m string :: {hexOf(macOf(k, m))} hexOf(macOf(k, m)) != ""
# ---- P14 ----
pure func sig(secret string, raw string, t int) string = hexOf(macOf(secret, raw + "," + dec(t)))
pure func plain(secret string, raw string, t int) string = esc(raw) + "," + dec(t) + "," + sig(secret, raw, t)
uninterp func sealed(secret string, raw string, t int) string
axiom forall k string, r string, t int :: {sealed(k, r, t)} sealed(k, r, t) == b64enc(plain(k, r, t))
# cutting at the first two commas: none of the three parts holds one
axiom forall k string, r string, t int :: {sealed(k, r, t)} let p = strings.SplitN(plain(k, r, t), ",", 3) in len(p) == 3 && p[0] == esc(r) && p[1] == dec(t) && p[2] == sig(k, r, t)
pure func part(value string, i int) string = strings.TrimSpace(strings.SplitN(b64dec(value), ",", 3)[i])

func EncodeSecureValue(raw, secretKey, createdAt) (value, ok)
  new
  props P14 P16 P17
  modifies macKey, macMsg
  ensures given: ok == (raw != "" && secretKey != "")
  ensures sealed: ok ==> value == sealed(secretKey, raw, nanos(createdAt))
  ensures none: !ok ==> value == ""

# a value is accepted: it has the three parts and its signature is the one of the text and time it carries
pure func sealedOK(value string, secret string) bool = b64ok(value) && len(strings.SplitN(b64dec(value), ",", 3)) == 3 && part(value, 0) != "" && escOK(part(value, 0)) && decOK(part(value, 1)) && num(part(value, 1)) > 0 && dec(num(part(value, 1))) == part(value, 1) && part(value, 2) == sig(secret, unesc(part(value, 0)), num(part(value, 1)))
pure func textOf(value string) string = unesc(part(value, 0))
pure func timeOf(value string) int = num(part(value, 1))

func DecodeSecureValue(value, secretKey) (raw, createdAt, ok)
  new
  props P14 P16 P17
  modifies macKey, macMsg
  ensures signed: ok == sealedOK(value, secretKey)
  ensures carried: ok ==> raw == textOf(value) && nanos(createdAt) == timeOf(value)
  ensures roundtrip: forall r string, t int :: {sealed(secretKey, r, t)} value == sealed(secretKey, r, t) && r != "" && t > 0 ==> ok && raw == r && nanos(createdAt) == t
  ensures none: !ok ==> raw == ""
  use boundary

# two contents with one signed text are one content: no other text and time carries the signature of these
lemma boundary(r string, s string, t int, u int)
  props P14
  requires r + "," + dec(t) == s + "," + dec(u)
  ensures r == s && t == u

func GetRawFromSecureValue(value) (raw)
  new
  props P14
  ensures sealed: forall k string, r string, t int :: {sealed(k, r, t)} value == sealed(k, r, t) ==> raw == r

# ---- P16, P17: cookies of a request and of a response ----
ghost jar int
ghost sent int
ghost sentName string
ghost sentValue string
ghost sentAge int
uninterp func hasCookie(r *http.Request, jar int, name string) bool
uninterp func cookieVal(r *http.Request, jar int, name string) string
uninterp func secretOf(p SessionProvider) string
uninterp func lifeOf(p SessionProvider) int
rec func lastCookie(cs []*http.Cookie, n int, name string) *http.Cookie = ite(n <= 0, nil, ite(cs[n-1].Name == name, cs[n-1], lastCookie(cs, n-1, name)))
  reads http.Cookie.Name, elems *http.Cookie

extern (*net/http.Request).Cookies(r) (cs)
  ensures each: forall i int :: {cs[i]} 0 <= i && i < len(cs) ==> cs[i] != nil
  ensures last: forall name string :: {lastCookie(cs, len(cs), name)} let c = lastCookie(cs, len(cs), name) in (c != nil) == hasCookie(r, jar, name) && (c != nil ==> c.Value == cookieVal(r, jar, name))
  ensures fresh(cs)
extern (*net/http.Request).AddCookie(r, c)
  requires nn: r != nil && c != nil
  modifies jar
extern net/http.SetCookie(w, c)
  requires nn: c != nil
  modifies sent, sentName, sentValue, sentAge
  ensures sent == old(sent) + 1 && sentName == c.Name && sentValue == c.Value && sentAge == c.MaxAge
iface (SessionProvider).Config(p) (c)
  ensures c != nil && c.SecretKey == secretOf(p) && c.SessionExpire == lifeOf(p)
  ensures fresh(c)

func getCookie(cookies, name) (cookie, ok)
  props P16 P17
  requires nn: forall i int :: {cookies[i]} 0 <= i && i < len(cookies) ==> cookies[i] != nil
  ensures last: cookie == lastCookie(cookies, len(cookies), name) && ok == (cookie != nil)
  inv [i int] lastCookie(cookies, len(cookies), name) == lastCookie(cookies, i+1, name)

func isExpired(createdAt, expired) (old)
  props P16 P17
  modifies clock
  ensures age: old == (nanos(createdAt) + expired < clock)

func int2SecsDuration(t) (d)
  inline

# ---- P17 ----
uninterp func issued(secret string, psk string, salt string, t int) string
pure func barred(k string, u string, s string, t int) string = esc(u) + "|" + esc(sealed(k + s, u, t))
axiom forall k string, u string, s string, t int :: {issued(k, u, s, t)} issued(k, u, s, t) == sealed(k, barred(k, u, s, t), t)
axiom forall k string, u string, s string, t int :: {issued(k, u, s, t)} barred(k, u, s, t) != ""
# cutting at the first bar: no escaped text holds one
axiom forall k string, u string, s string, t int :: {issued(k, u, s, t)} let p = strings.SplitN(barred(k, u, s, t), "|", 2) in len(p) == 2 && p[0] == esc(u) && p[1] == esc(sealed(k + s, u, t))
pure func rpart(text string, i int) string = strings.SplitN(text, "|", 2)[i]
pure func rname(c *CookieConfig) string = c.CookieRememberName

func createRememberCookieValue(sk, psk, salt, createdAt) (hashValue, ok)
  new
  props P17
  modifies macKey, macMsg
  ensures given: ok == (sk != "" && psk != "" && salt != "")
  ensures issued: ok ==> hashValue == issued(sk, psk, salt, nanos(createdAt))

func (*SessionManager).HasRemember(m, config, r) (psk, saltHash, ok)
  new
  props P17
  requires nn: m != nil && m.provider != nil && config != nil && r != nil
  modifies macKey, macMsg, clock
  ensures recognised: let v = cookieVal(r, jar, rname(config)) in ok == (hasCookie(r, jar, rname(config)) && sealedOK(v, secretOf(m.provider)) && timeOf(v) + config.RememberExpire*1000000000 >= clock && len(strings.SplitN(textOf(v), "|", 2)) == 2 && escOK(rpart(textOf(v), 0)) && escOK(rpart(textOf(v), 1)))
  ensures content: let v = cookieVal(r, jar, rname(config)) in ok ==> psk == unesc(rpart(textOf(v), 0)) && saltHash == unesc(rpart(textOf(v), 1))
  ensures roundtrip: forall u string, s string, t int :: {issued(secretOf(m.provider), u, s, t)} hasCookie(r, jar, rname(config)) && cookieVal(r, jar, rname(config)) == issued(secretOf(m.provider), u, s, t) && t > 0 && t + config.RememberExpire*1000000000 >= clock ==> ok && psk == u && saltHash == sealed(secretOf(m.provider) + s, u, t)

func (*SessionManager).ValidRemember(m, config, psk, salt, saltHash) (ok)
  new
  props P17
  requires nn: m != nil && m.provider != nil && config != nil
  modifies macKey, macMsg, clock
  ensures valid: ok == (psk != "" && salt != "" && saltHash != "" && sealedOK(saltHash, secretOf(m.provider) + salt) && textOf(saltHash) == psk && timeOf(saltHash) + config.RememberExpire*1000000000 >= clock)
  ensures roundtrip: forall t int :: {sealed(secretOf(m.provider) + salt, psk, t)} saltHash == sealed(secretOf(m.provider) + salt, psk, t) && saltHash != "" && psk != "" && salt != "" && t > 0 && t + config.RememberExpire*1000000000 >= clock ==> ok

func (*SessionManager).WriteRemember(m, config, w, psk, salt) (ok)
  new
  props P17
  requires nn: m != nil && m.provider != nil && config != nil && w != nil
  modifies macKey, macMsg, clock, sent, sentName, sentValue, sentAge
  ensures given: ok == (secretOf(m.provider) != "" && psk != "" && salt != "")
  ensures written: ok ==> sent == old(sent) + 1 && sentName == rname(config) && sentValue == issued(secretOf(m.provider), psk, salt, clock) && sentAge == config.RememberExpire
  ensures none: !ok ==> sent == old(sent)

func (*SessionManager).DestroyRemember(m, config, w)
  new
  props P17
  requires nn: config != nil && w != nil
  modifies sent, sentName, sentValue, sentAge
  ensures expired: sent == old(sent) + 1 && sentName == rname(config) && sentAge == 0-1 && sentValue == ""
