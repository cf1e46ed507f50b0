package github.com/wujiu2020/strip/request-logger

# ---- P25 ----
# four and eight bytes as little-endian numbers
uninterp func le32(a int, b int, c int, d int) int
uninterp func le64(a int, b int, c int, d int, e int, f int, g int, h int) int
axiom forall a int, b int, c int, d int, e int, f int, g int, h int :: {le64(a, b, c, d, e, f, g, h)} 0 <= le64(a, b, c, d, e, f, g, h) && le64(a, b, c, d, e, f, g, h) <= 18446744073709551615
axiom forall a int, b int, c int, d int :: {le32(a, b, c, d)} 0 <= le32(a, b, c, d) && le32(a, b, c, d) <= 4294967295
pure func u32at(s string, i int) int = le32(s[i], s[i+1], s[i+2], s[i+3])
pure func u64at(s string, i int) int = le64(s[i], s[i+1], s[i+2], s[i+3], s[i+4], s[i+5], s[i+6], s[i+7])
extern (encoding/binary.littleEndian).PutUint32(_, b, v)
  requires room: len(b) >= 4
  modifies elems(b)
  ensures le32(b[0], b[1], b[2], b[3]) == v
  ensures forall i int :: {b[i]} 4 <= i && i < len(b) ==> b[i] == old(b[i])
extern (encoding/binary.littleEndian).PutUint64(_, b, v)
  requires room: len(b) >= 8
  modifies elems(b)
  ensures le64(b[0], b[1], b[2], b[3], b[4], b[5], b[6], b[7]) == v
  ensures forall i int :: {b[i]} 8 <= i && i < len(b) ==> b[i] == old(b[i])
  ensures before: off(b) >= 4 ==> b[0-1] == old(b[0-1]) && b[0-2] == old(b[0-2]) && b[0-3] == old(b[0-3]) && b[0-4] == old(b[0-4])
extern (encoding/binary.littleEndian).Uint32(_, b) (v)
  requires room: len(b) >= 4
  ensures v == le32(b[0], b[1], b[2], b[3])
extern (encoding/binary.littleEndian).Uint64(_, b) (v)
  requires room: len(b) >= 8
  ensures v == le64(b[0], b[1], b[2], b[3], b[4], b[5], b[6], b[7])
# base64, by the standard library: what was encoded comes back, anything may be refused
uninterp func enc64(s string) string
uninterp func ok64(s string) bool
uninterp func dec64(s string) string
axiom forall s string :: {enc64(s)} ok64(enc64(s)) && dec64(enc64(s)) == s && (len(s) == 12 ==> len(enc64(s)) == 16)
extern (*encoding/base64.Encoding).EncodeToString(e, b) (s)
  requires e == base64.URLEncoding
  ensures s == enc64(bytesstr(b))
extern (*encoding/base64.Encoding).DecodeString(e, s) (b, err)
  requires e == base64.URLEncoding
  new
  ensures (err == nil) == ok64(s)
  ensures err == nil ==> bytesstr(b) == dec64(s)
uninterp func nanos(t time.Time) int
ghost clock int
extern time.Now() (t)
  modifies clock
  ensures nanos(t) == clock && clock >= old(clock) && clock > 0 && clock <= 9223372036854775807
extern (time.Time).UnixNano(t) (n)
  ensures n == nanos(t)
extern time.Since(t) (d)
extern (time.Duration).Nanoseconds(d) (n)

ghost fresh_id string
pure func made(id string, r int, t int) bool = id == enc64(dec64(id)) && len(dec64(id)) == 12 && u32at(dec64(id), 0) == r && u64at(dec64(id), 4) == t

func NewReqId() (r)
  props P25
  modifies clock
  new
  effect fresh_id = r
  ensures length: len(r) == 16
  ensures parts: made(r, rnd, clock)

pure func signed(n int) int = ite(n <= 9223372036854775807, n, n - 18446744073709551616)
func DecodeReqId(id) (r, t)
  props P25
  new
  ensures malformed: !ok64(id) || len(dec64(id)) < 12 ==> r == 0 && t == 0
  ensures parts: ok64(id) && len(dec64(id)) >= 12 ==> r == u32at(dec64(id), 0) && t == signed(u64at(dec64(id), 4))
  ensures round_trip: forall a int, n int :: {made(id, a, n)} 0 <= n && n <= 9223372036854775807 && made(id, a, n) ==> r == a && t == n

# headers by name as the standard library normalises it; "" for an absent one
ghost hval arr[any->arr[string->string]]
uninterp func canon(k string) string
axiom canon("X-Reqid") == "X-Reqid" && canon("X-Response-Time") == "X-Response-Time" && canon("X-Real-Ip") == "X-Real-Ip" && canon("X-Forwarded-For") == "X-Forwarded-For"
uninterp func respHdr(w any) http.Header
pure func hdr(h http.Header) any = box(h, http.Header)
extern (net/http.Header).Get(h, k) (v)
  ensures v == hval[hdr(h)][canon(k)]
extern (net/http.Header).Set(h, k, v)
  requires h != nil
  modifies hval
  ensures hval == update(old(hval), hdr(h), update(old(hval)[hdr(h)], canon(k), v))
extern (net/http.Header).Del(h, k)
  modifies hval
  ensures hval == update(old(hval), hdr(h), update(old(hval)[hdr(h)], canon(k), ""))
iface (net/http.ResponseWriter).Header(w) (h)
  ensures h != nil && h == respHdr(w)

# texts
uninterp func trim(s string) string
uninterp func lastAt(s string, t string) int
axiom forall s string, t string :: {lastAt(s, t)} lastAt(s, t) == 0 - 1 || 0 <= lastAt(s, t) && lastAt(s, t) <= len(s) - len(t)
extern strings.TrimSpace(s) (r)
  ensures r == trim(s)
extern strings.LastIndex(s, t) (i)
  ensures i == lastAt(s, t)
extern strings.Split(s, sep) (v)
  new
  ensures len(v) >= 1
  ensures sep != "" ==> v[0] == ite(contains(s, sep), s[:indexof(s, sep)], s)

pure func firstOf(s string) string = ite(contains(s, ","), s[:indexof(s, ",")], s)
# a port follows the only colon, or the last one after a bracket
pure func noPort(a string) string = ite(lastAt(a, ":") >= 0 && (indexof(a, ":") == lastAt(a, ":") || hasSuffix(a[:lastAt(a, ":")], "]")), trim(a[:lastAt(a, ":")]), a)
pure func cutLast(a string) string = ite(lastAt(a, ":") >= 0, a[:lastAt(a, ":")], a)

func realIp(req) (ip)
  props P25
  requires nn: req != nil
  new
  ensures real: hval[hdr(req.Header)]["X-Real-Ip"] != "" ==> ip == trim(hval[hdr(req.Header)]["X-Real-Ip"])
  ensures forwarded: hval[hdr(req.Header)]["X-Real-Ip"] == "" && firstOf(hval[hdr(req.Header)]["X-Forwarded-For"]) != "" ==> ip == noPort(trim(firstOf(hval[hdr(req.Header)]["X-Forwarded-For"])))
  ensures connection: hval[hdr(req.Header)]["X-Real-Ip"] == "" && firstOf(hval[hdr(req.Header)]["X-Forwarded-For"]) == "" ==> ip == cutLast(req.RemoteAddr)

# ---- the filter ----
ghost cfg LoggerOption
ghost cfgOut strip.LogPrinter
# the request's own id, the number of content filters called so far, and what they answer
ghost ownId string
ghost nflt int
ghost fltStart int
uninterp func answer(f LoggerContentFilter, n int, content string) string
funcval LoggerContentFilter : (f, ctx, rw, req, content) (r)
  maypanic
  modifies nflt
  ensures nflt == old(nflt) + 1 && r == answer(f, old(nflt), content)

pure func idOK(s string) bool = 10 <= len(s) && len(s) <= 32
pure func baseId() string = ite(idOK(ownId), ownId, fresh_id)
pure func theId() string = ite(cfg.ReqidFilter != nil, answer(cfg.ReqidFilter, fltStart, baseId()), baseId())
pure func thePrefix() string = ite(cfg.PrefixFilter != nil, answer(cfg.PrefixFilter, fltStart + ite(cfg.ReqidFilter != nil, 1, 0), ""), "")

# the request logger (its own contracts are proved under P24)
uninterp func logId(l any) string
uninterp func logOut(l any) any
ghost logPrefix arr[any->string]
ghost infos int
ghost infoLog any
extern github.com/wujiu2020/strip.NewReqLogger(out, id) (r)
  new
  modifies logPrefix
  ensures r != nil && logId(r) == id && logOut(r) == out && logPrefix == update(old(logPrefix), r, "")
iface (github.com/wujiu2020/strip.LoggerAdv).SetPrefix(l, p)
  modifies logPrefix
  ensures logPrefix == update(old(logPrefix), l, p)
iface (github.com/wujiu2020/strip.LoggerAdv).SetLineInfo(l, b)
iface (github.com/wujiu2020/strip.LoggerAdv).SetShortLine(l, b)
iface (github.com/wujiu2020/strip.LoggerAdv).SetFlatLine(l, b)
iface (github.com/wujiu2020/strip.LoggerAdv).SetColorMode(l, b)
iface (github.com/wujiu2020/strip.LoggerAdv).EnableLogStack(l, n)
iface (github.com/wujiu2020/strip.Logger).Info(l, v)
  modifies infos, infoLog
  ensures infos == old(infos) + 1 && infoLog == l

# what the request's injector was given
ghost provLogger any
ghost provReqLogger any
ghost provReq any
iface (github.com/wujiu2020/strip/inject.TypeProvider).ProvideAs(inj, v, typ, names) (r)
  requires known: len(names) == 0 && (is(typ, *strip.Logger) || is(typ, *strip.ReqLogger))
  modifies provLogger, provReqLogger
  ensures provLogger == ite(is(typ, *strip.Logger), v, old(provLogger)) && provReqLogger == ite(is(typ, *strip.ReqLogger), v, old(provReqLogger))
iface (github.com/wujiu2020/strip/inject.TypeProvider).Provide(inj, v) (r)
  requires request: len(v) == 1 && is(v[0], *http.Request)
  modifies provReq
  ensures provReq == v[0]
ghost goctx any
iface (github.com/wujiu2020/strip.Context).ReplaceContext(c, g)
  modifies goctx
  ensures goctx == g
uninterp func reqCtx(r any) any
uninterp func ctxLog(g any) any
extern github.com/wujiu2020/strip/utils.CtxWithValue(g, v, names) (r)
  requires logger: is(v, *strip.Logger) && as(v, *strip.Logger) != nil && len(names) == 0
  new
  ensures r != nil && ctxLog(r) == *as(v, *strip.Logger)
extern (*net/http.Request).Context(r) (g)
  ensures g == reqCtx(box(r, *http.Request))
extern (*net/http.Request).WithContext(r, g) (r2)
  requires g != nil
  new
  ensures r2 != nil && fresh(r2) && r2.Header == r.Header && r2.RemoteAddr == r.RemoteAddr && reqCtx(box(r2, *http.Request)) == g

func setLoggerInContext(ctx, req, log) (r)
  props P25
  requires nn: ctx != nil && req != nil
  modifies provReq, goctx
  new
  ensures same: r != nil && r.Header == req.Header && r.RemoteAddr == req.RemoteAddr
  ensures provided: provReq == box(r, *http.Request) && goctx == reqCtx(provReq) && ctxLog(goctx) == log

# the hook before the response is committed
ghost hooks int
ghost hookOn any
iface (github.com/wujiu2020/strip.ResponseWriter).Before(w, f)
  requires f != nil
  modifies hooks, hookOn
  ensures hooks == old(hooks) + 1 && hookOn == w
iface (github.com/wujiu2020/strip.ResponseWriter).Status(w) (s)
iface (github.com/wujiu2020/strip.ResponseWriter).Size(w) (s)

ghost theReq any
ghost theHeader http.Header
ghost theRW any
ghost nexts int
ghost hooksStart int
# the rest of the chain runs with the id in place everywhere
iface (github.com/wujiu2020/strip.Context).Next(c)
  requires request: hval[hdr(theHeader)]["X-Reqid"] == theId()
  requires response: hval[hdr(respHdr(theRW))]["X-Reqid"] == theId()
  requires logger: provLogger != nil && provLogger == provReqLogger && logId(provLogger) == theId() && logOut(provLogger) == cfgOut && logPrefix[provLogger] == thePrefix()
  requires in_request: as(provReq, *http.Request) != nil && as(provReq, *http.Request).Header == theHeader && ctxLog(reqCtx(provReq)) == provLogger && goctx == reqCtx(provReq)
  requires hook: hooks == hooksStart + 1 && hookOn == theRW
  maypanic
  modifies everything, nexts, hval, nflt, clock, goctx, logPrefix, infos, infoLog, provLogger, provReqLogger, provReq, hooks, hookOn, fresh_id
  new
  ensures nexts == old(nexts) + 1
  ensures_panic nexts == old(nexts) + 1

extern fmt.Sprintf(f, v) (s)

func ReqLoggerFilter(out, opts) (r)
  props P25
  begin cfg = ite(len(opts) > 0, opts[0], zero(LoggerOption))
  begin cfgOut = out
  modifies cfg, cfgOut
  new

func ReqLoggerFilter$1(ctx, rw, req)
  props P25
  captured option: *opt == cfg
  captured printer: *out == cfgOut
  requires nn: ctx != nil && rw != nil && is(rw, strip.ResponseWriter) && req != nil && req.Header != nil
  requires apart: req.Header != respHdr(rw)
  begin ownId = hval[hdr(req.Header)]["X-Reqid"]
  begin fltStart = nflt
  begin theHeader = req.Header
  begin theRW = rw
  begin hooksStart = hooks
  maypanic
  modifies everything, nexts, hval, nflt, clock, goctx, logPrefix, infos, infoLog, provLogger, provReqLogger, provReq, hooks, hookOn, fresh_id, ownId, fltStart, theHeader, theRW, hooksStart
  ensures passed_on: nexts == old(nexts) + 1

func ReqLoggerFilter$1$1(rw)
  props P25
  captured id: *reqId == theId()
  requires nn: rw != nil
  modifies hval
  new
  ensures id: hval[hdr(respHdr(rw))]["X-Reqid"] == theId()
