package github.com/wujiu2020/strip/gzip

# ---- P22 ----
# headers by name as the standard library normalises it; "" for an absent one
ghost hval arr[any->arr[string->string]]
uninterp func canon(k string) string
axiom canon("Content-Encoding") == "Content-Encoding" && canon("Vary") == "Vary" && canon("Content-Length") == "Content-Length" && canon("Content-Type") == "Content-Type" && canon("Accept-Encoding") == "Accept-Encoding"
uninterp func respHdr(w any) http.Header
pure func hdr(h http.Header) any = box(h, http.Header)

extern (net/http.Header).Get(h, k) (v)
  ensures v == hval[hdr(h)][canon(k)]
extern (net/http.Header).Set(h, k, v)
  requires h != nil
  modifies hval
  ensures hval == update(old(hval), hdr(h), update(old(hval)[hdr(h)], canon(k), v))
extern (net/http.Header).Del(h, k)
  modifies hval
  ensures hval == update(old(hval), hdr(h), update(old(hval)[hdr(h)], canon(k), ""))
iface (net/http.ResponseWriter).Header(w) (h)
  ensures h != nil && h == respHdr(w)

# compressors: where they write to, what they were given, whether closed
ghost zsink arr[any->any]
ghost zfed arr[any->string]
ghost zclosed arr[any->int]
extern compress/gzip.NewWriter(w) (z)
  requires no_length_yet: true
  new
  modifies zsink, zfed, zclosed
  ensures z != nil && fresh(z) && zsink == update(old(zsink), box(z, *gzip.Writer), w) && zfed == update(old(zfed), box(z, *gzip.Writer), "") && zclosed == update(old(zclosed), box(z, *gzip.Writer), 0)
pure func sinkHdr(z *gzip.Writer) arr[string->string] = hval[hdr(respHdr(zsink[box(z, *gzip.Writer)]))]
extern (*compress/gzip.Writer).Write(z, p) (n, err)
  requires open: z != nil && zclosed[box(z, *gzip.Writer)] == 0
  requires length_dropped: zfed[box(z, *gzip.Writer)] == "" ==> sinkHdr(z)["Content-Length"] == ""
  requires typed: zfed[box(z, *gzip.Writer)] == "" ==> sinkHdr(z)["Content-Type"] != ""
  maypanic
  modifies zfed
  ensures 0 <= n && n <= len(p) && (err == nil ==> n == len(p))
  ensures zfed == update(old(zfed), box(z, *gzip.Writer), old(zfed)[box(z, *gzip.Writer)] + bytesstr(p))
extern (*compress/gzip.Writer).Close(z) (err)
  requires once: z != nil && zclosed[box(z, *gzip.Writer)] == 0
  maypanic
  modifies zclosed
  ensures zclosed == update(old(zclosed), box(z, *gzip.Writer), 1)
  ensures_panic zclosed == update(old(zclosed), box(z, *gzip.Writer), 1)
extern net/http.DetectContentType(b) (s)
  ensures s == detected(bytesstr(b)) && s != ""
uninterp func detected(s string) string

pure func gz(g *gzipResponseWriter) any = box(g.gzw, *gzip.Writer)
# one compressor, made by the first write, in front of the writer below
pure func gzOK(g *gzipResponseWriter) bool = g.ResponseWriter != nil && oncedone(g.one) == (g.gzw != nil) && (g.gzw != nil ==> zsink[gz(g)] == g.ResponseWriter)

func (*gzipResponseWriter).Write(g, p) (n, err)
  props P22
  requires nn: g != nil && gzOK(g)
  requires open: g.gzw != nil ==> zclosed[gz(g)] == 0
  requires begun: g.gzw != nil && zfed[gz(g)] == "" ==> sinkHdr(g.gzw)["Content-Length"] == "" && sinkHdr(g.gzw)["Content-Type"] != ""
  maypanic
  modifies g.gzw, once(g.one), hval, zsink, zfed, zclosed
  new
  ensures inv: gzOK(g) && g.gzw != nil
  ensures same: old(g.gzw) != nil ==> g.gzw == old(g.gzw) && hval == old(hval)
  ensures fed: zfed[gz(g)] == ite(old(g.gzw) == nil, "", old(zfed[gz(g)])) + bytesstr(p)
  ensures count: 0 <= n && n <= len(p) && (err == nil ==> n == len(p))
  ensures open: zclosed[gz(g)] == 0
  ensures header: old(g.gzw) == nil ==> hval == update(old(hval), hdr(respHdr(g.ResponseWriter)), update(update(old(hval)[hdr(respHdr(g.ResponseWriter))], "Content-Length", ""), "Content-Type", ite(old(hval)[hdr(respHdr(g.ResponseWriter))]["Content-Type"] == "", detected(bytesstr(p)), old(hval)[hdr(respHdr(g.ResponseWriter))]["Content-Type"])))

func (*gzipResponseWriter).close(g)
  props P22
  requires nn: g != nil
  requires open: g.gzw != nil ==> zclosed[gz(g)] == 0
  maypanic
  modifies zclosed
  ensures closed: zclosed == ite(g.gzw == nil, old(zclosed), update(old(zclosed), gz(g), 1))
  ensures_panic zclosed == ite(g.gzw == nil, old(zclosed), update(old(zclosed), gz(g), 1))

# the rest of the chain: it writes through the writer it is given, however it ends
ghost nexts int
ghost given any
ghost atNextAccept string
ghost headed bool
ghost gzN *gzip.Writer
iface (github.com/wujiu2020/strip.Context).Next(c)
  requires compressed_writer: is(given, *gzipResponseWriter) && as(given, *gzipResponseWriter) != nil && gzOK(as(given, *gzipResponseWriter)) && as(given, *gzipResponseWriter).gzw == nil
  maypanic
  modifies everything, nexts, gzN, hval, zsink, zfed, zclosed
  ensures nexts == old(nexts) + 1 && given == old(given) && gzN == as(given, *gzipResponseWriter).gzw && (gzN != nil ==> zclosed[box(gzN, *gzip.Writer)] == 0)
  ensures as(given, *gzipResponseWriter).ResponseWriter == old(as(given, *gzipResponseWriter).ResponseWriter)
  ensures_panic nexts == old(nexts) + 1 && given == old(given) && gzN == as(given, *gzipResponseWriter).gzw && (gzN != nil ==> zclosed[box(gzN, *gzip.Writer)] == 0)
iface (github.com/wujiu2020/strip/inject.TypeProvider).ProvideAs(inj, v, typ, names) (r)
  requires as_writer: is(typ, *http.ResponseWriter) && len(names) == 0
  modifies given
  new
  effect given = v

pure func accepts(req *http.Request) bool = contains(hval[hdr(req.Header)]["Accept-Encoding"], "gzip")
func All$1(rw, req, ctx)
  props P22
  requires nn: rw != nil && is(rw, strip.ResponseWriter) && req != nil && ctx != nil
  maypanic
  modifies everything, nexts, gzN, hval, zsink, zfed, zclosed, given
  ensures plain: !old(accepts(req)) ==> hval == old(hval) && nexts == old(nexts) && given == old(given) && zclosed == old(zclosed)
  ensures compressed: old(accepts(req)) ==> nexts == old(nexts) + 1 && (gzN != nil ==> zclosed[box(gzN, *gzip.Writer)] == 1)
  ensures below: old(accepts(req)) ==> as(given, *gzipResponseWriter).ResponseWriter == rw
  ensures_panic closed: nexts != old(nexts) && gzN != nil ==> zclosed[box(gzN, *gzip.Writer)] == 1
