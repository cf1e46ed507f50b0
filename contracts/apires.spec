package github.com/wujiu2020/strip/utils/apires

# ---- P21: the response of an API result ----
# status set (and how often), what was written, how much had been written when the status was set last
ghost wstatus arr[any->int]
ghost sets int
ghost setAt int
ghost writes int
ghost writeText string
ghost writeErr any
ghost copies int
ghost copyV any
ghost copyRW any
ghost closes int
ghost ctype string
ghost encV any
ghost encs int
ghost fallV any
ghost warned int
uninterp func encOK(v any) bool
uninterp func encText(v any, indent bool) string
uninterp func injConfig(c any) *strip.Config
uninterp func injLog(c any) any

iface (net/http.ResponseWriter).WriteHeader(w, s)
  panics when s == 0
  modifies wstatus, sets, setAt
  ensures wstatus == update(old(wstatus), w, s) && sets == old(sets) + 1 && setAt == writes + copies
iface (net/http.ResponseWriter).Write(w, b) (n, err)
  requires status_first: wstatus[w] != 0
  modifies writes, writeText, writeErr
  ensures writes == old(writes) + 1 && writeText == bytesstr(b) && writeErr == err
iface (net/http.ResponseWriter).Header(w) (h)
  ensures h != nil
extern (net/http.Header).Set(h, k, v)
  requires h != nil
  requires before_status: sets == 0
  modifies ctype, entries(h)
  new
  ensures ctype == ite(k == "Content-Type", v, old(ctype))
extern encoding/json.Marshal(v) (b, err)
  maypanic
  modifies encV, encs
  new
  ensures encs == old(encs) + 1 && encV == v && (err == nil) == encOK(v) && (err == nil ==> bytesstr(b) == encText(v, false))
extern encoding/json.MarshalIndent(v, p, i) (b, err)
  maypanic
  modifies encV, encs
  new
  ensures encs == old(encs) + 1 && encV == v && (err == nil) == encOK(v) && (err == nil && p == "" && i == "  " ==> bytesstr(b) == encText(v, true))
extern io.CopyBuffer(dst, src, buf) (n, err)
  requires status_first: wstatus[dst] != 0
  requires buffer: len(buf) > 0
  maypanic
  modifies copies, copyV, copyRW, writeErr
  ensures copies == old(copies) + 1 && copyV == src && copyRW == dst && writeErr == err
iface (io.Closer).Close(c) (err)
  requires copied: c == copyV && copies > 0
  modifies closes
  ensures closes == old(closes) + 1
iface (github.com/wujiu2020/strip/inject.Injector).Find(inj, ptr, names) (err)
  modifies deref(as(ptr, **strip.Config)), deref(as(ptr, *strip.Logger))
  new
  ensures is(ptr, **strip.Config) ==> *as(ptr, **strip.Config) == ite(injConfig(inj) == nil, old(*as(ptr, **strip.Config)), injConfig(inj))
  ensures is(ptr, *strip.Logger) ==> *as(ptr, *strip.Logger) == injLog(inj)
iface (github.com/wujiu2020/strip.Logger).Warn(l, v)
  modifies warned
  ensures warned == old(warned) + 1

pure func dev(ctx any) bool = injConfig(ctx) != nil && injConfig(ctx).RunMode == "dev"
pure func okc(ctx any, rw any) bool = existing(injConfig(ctx)) && ctx != nil && rw != nil && injLog(ctx) != nil && sets == 0 && writes == 0 && copies == 0 && closes == 0 && encs == 0

func writeJsonBody(status, body, ctx, rw, req) (err)
  props P21
  requires ok: okc(ctx, rw) && status != 0
  maypanic
  modifies wstatus, sets, setAt, writes, writeText, writeErr, ctype, encV, encs, all maptype http.Header
  new
  ensures status: sets == 1 && setAt == 0 && wstatus == update(old(wstatus), rw, status)
  ensures ctype: ctype == jsonContentType
  ensures one_body: writes == 1
  ensures encoded1: encOK(body) ==> encs == 1 && encV == body && err == writeErr
  ensures encoded2: encOK(body) ==> writeText == encText(body, true) || writeText == encText(body, false)
  ensures encoded: encOK(body) ==> writeText == encText(body, dev(ctx))
  ensures fallback: !encOK(body) ==> encs == 2 && err != nil && is(encV, map[string]any) && at(as(encV, map[string]any), "code") == box(500, int) && has(as(encV, map[string]any), "message") && (encOK(encV) ==> writeText == encText(encV, dev(ctx)))

func (*ResBody).Write(r, ctx, rw, req)
  props P21
  requires ok: okc(ctx, rw) && r != nil
  maypanic
  modifies wstatus, sets, setAt, writes, writeText, writeErr, ctype, encV, encs, warned, all maptype http.Header
  new
  ensures status: sets == 1 && setAt == 0 && wstatus == update(old(wstatus), rw, ite(r.Status == 0, 200, r.Status))
  ensures no_content: r.Status == 204 ==> writes == 0
  ensures body: r.Status != 204 && r.Body != nil ==> writes == 1 && (encOK(r.Body) ==> encV == r.Body && writeText == encText(r.Body, dev(ctx)))
  ensures empty: r.Status != 204 && r.Body == nil ==> writes == 1
  ensures type: r.Status != 204 ==> ctype == jsonContentType
  ensures copied: copies == 0

pure func isRaw(b any) bool = is(b, string) || is(b, []byte) || is(b, io.Reader)
func (*RawBody).Write(r, ctx, rw, req)
  props P21
  requires ok: okc(ctx, rw) && r != nil
  maypanic
  modifies wstatus, sets, setAt, writes, writeText, writeErr, ctype, encV, encs, warned, copies, copyV, copyRW, closes, all maptype http.Header
  new
  ensures status: sets == 1 && setAt == 0 && wstatus == update(old(wstatus), rw, ite(r.Status == 0, 200, r.Status))
  ensures nothing: r.Status == 204 || r.Body == nil ==> writes == 0 && copies == 0 && closes == 0
  ensures text: r.Status != 204 && is(r.Body, string) ==> writes == 1 && writeText == as(r.Body, string) && copies == 0 && encs == 0
  ensures bytes: r.Status != 204 && is(r.Body, []byte) ==> writes == 1 && writeText == bytesstr(as(r.Body, []byte)) && copies == 0 && encs == 0
  ensures stream: r.Status != 204 && is(r.Body, io.Reader) ==> copies == 1 && copyV == r.Body && copyRW == rw && writes == 0 && encs == 0 && closes == ite(is(r.Body, io.Closer), 1, 0)
  ensures json: r.Status != 204 && r.Body != nil && !isRaw(r.Body) ==> writes == 1 && copies == 0 && ctype == jsonContentType && (encOK(r.Body) ==> encV == r.Body && writeText == encText(r.Body, dev(ctx)))

func With(body, status) (r)
  props P21
  new
  ensures made: fresh(r) && r.Body == body && r.Status == ite(len(status) > 0, status[0], 200)
func Ret(status) (r)
  props P21
  new
  ensures made: fresh(r) && r.Body == nil && r.Status == status
func RawWith(body, status) (r)
  props P21
  new
  ensures made: fresh(r) && r.Body == body && r.Status == ite(len(status) > 0, status[0], 200)
func RawRet(status) (r)
  props P21
  new
  ensures made: fresh(r) && r.Body == nil && r.Status == status

# ---- API errors ----
# the response of an error is the error itself
pure func whole(e *ResError) bool = is(e.ResBody.Body, *ResError) && as(e.ResBody.Body, *ResError) == e

func NewResError(status, code, message, datas) (e)
  props P21
  new
  ensures made: fresh(e) && e.ResBody.Status == status && e.Code == code && e.Message == message && e.Data == ite(len(datas) > 0, datas[0], nil) && whole(e)

func (*ResError).Error(e) (s)
  props P21
  maypanic
  modifies encV, encs
  new
  ensures nil: e == nil ==> s == ""
  ensures text: e != nil && encOK(box(e, *ResError)) ==> s == encText(box(e, *ResError), false)

func (*ResError).HttpCode(e) (s)
  props P21
  requires nn: e != nil
  ensures def: s == e.ResBody.Status

func (*ResError).WithData(e, data, message) (r)
  props P21
  requires nn: e != nil
  maypanic
  new
  ensures made: fresh(r) && r.ResBody.Status == e.ResBody.Status && r.Code == e.Code && r.Data == data && whole(r)
  ensures message: r.Message == ite(len(message) > 0, message[0], ite(is(data, error), as(data, error).Error(), ite(is(data, string), as(data, string), e.Message)))

func (*ResError).WithMsg(e, message) (r)
  props P21
  requires nn: e != nil
  new
  ensures made: fresh(r) && r.ResBody.Status == e.ResBody.Status && r.Code == e.Code && r.Data == e.Data && whole(r) && r.Message == message

func (*ResError).WithMsgf(e, format, a) (r)
  props P21
  requires nn: e != nil
  new
  ensures made: fresh(r) && r.ResBody.Status == e.ResBody.Status && r.Code == e.Code && r.Data == e.Data && whole(r)

func (*ResError).EqualAny(e, errs) (b)
  props P21
  requires nn: e != nil && forall i int :: {errs[i]} 0 <= i && i < len(errs) ==> errs[i] != nil
  ensures iff: b == exists i int :: 0 <= i && i < len(errs) && errs[i].ResBody.Status == e.ResBody.Status && errs[i].Code == e.Code
  inv [i int] forall j int :: {errs[j]} 0 <= j && j < i+1 ==> errs[j].ResBody.Status != e.ResBody.Status || errs[j].Code != e.Code

func IsResError(err) (ok)
  props P21
  ensures iff: ok == is(err, *ResError)

