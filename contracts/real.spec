package github.com/wujiu2020/strip/params

# ---- P28: the request as the client sent it, behind proxies ----
uninterp func hget(h http.Header, k string) string
uninterp func lastAt(s string, t string) int
uninterp func trimSet(s string, set string) string
uninterp func uriOK(s string) bool
uninterp func uriPath(s string) string
uninterp func uriRawPath(s string) string
uninterp func uriQuery(s string) string
uninterp func uriOpaque(s string) string
uninterp func uriForce(s string) bool
extern (net/http.Header).Get(h, k) (v)
  ensures v == hget(h, k)
extern strings.LastIndex(s, t) (i)
  ensures i == lastAt(s, t) && i >= 0-1 && i + len(t) <= len(s)
extern strings.Trim(s, set) (r)
  ensures r == trimSet(s, set)
extern net/url.ParseRequestURI(s) (u, err)
  new
  ensures (err == nil) == uriOK(s)
  ensures err == nil ==> u != nil && fresh(u) && u.Path == uriPath(s) && u.RawPath == uriRawPath(s) && u.RawQuery == uriQuery(s) && u.Opaque == uriOpaque(s) && u.ForceQuery == uriForce(s)
extern strings.Split(s, sep) (v)
  requires sep != ""
  new
  ensures len(v) >= 1 && off(v) == 0 && fresh(v)
  ensures v[0] == ite(contains(s, sep), s[:indexof(s, sep)], s)

# a host or address without its port; the colons inside an IPv6 address are no port
pure func noPort(a string) string = let i = lastAt(a, ":") in ite(i >= 0 && (indexof(a, ":") == i || hasSuffix(a[:i], "]")), a[:i], a)
# the part before the first comma
pure func firstOf(a string) string = ite(indexof(a, ",") >= 0, a[:indexof(a, ",")], a)
pure func bare(a string) string = trimSet(noPort(a), "[]")
pure func fwd(req *http.Request) string = firstOf(hget(req.Header, "X-Forwarded-For"))
pure func theHost(req *http.Request) string = noPort(ite(hget(req.Header, "X-Forwarded-Host") != "", hget(req.Header, "X-Forwarded-Host"), req.Host))
pure func theProto(req *http.Request) string = ite(hget(req.Header, "X-Forwarded-Proto") != "", hget(req.Header, "X-Forwarded-Proto"), ite(req.URL.Scheme != "", req.URL.Scheme, "http"))
pure func theURI(req *http.Request) string = ite(hget(req.Header, "X-Original-URI") != "", hget(req.Header, "X-Original-URI"), req.URL.RequestURI())

func RealIp(req) (ip)
  props P28
  requires nn: req != nil
  new
  ensures real: hget(req.Header, "X-Real-Ip") != "" ==> ip == hget(req.Header, "X-Real-Ip")
  ensures forwarded: hget(req.Header, "X-Real-Ip") == "" && fwd(req) != "" ==> ip == bare(fwd(req))
  ensures connection: hget(req.Header, "X-Real-Ip") == "" && fwd(req) == "" ==> ip == ite(bare(req.RemoteAddr) == "::1", "127.0.0.1", bare(req.RemoteAddr))

func RealHost(req) (host)
  props P28
  requires nn: req != nil
  new
  ensures def: host == theHost(req)

func RealProto(req) (proto)
  props P28
  requires nn: req != nil && req.URL != nil
  ensures def: proto == theProto(req)

func RealURI(req) (uri)
  props P28
  requires nn: req != nil && req.URL != nil
  ensures def: uri == theURI(req)

func RealURL(req) (u, err)
  props P28
  requires nn: req != nil && req.URL != nil
  new
  ensures valid: (err == nil) == uriOK(theURI(req))
  ensures refused: err != nil ==> u == nil
  ensures own: err == nil ==> fresh(u)
  ensures parts: err == nil ==> u.Scheme == theProto(req) && u.Host == theHost(req)
  ensures uri: err == nil ==> u.Path == uriPath(theURI(req)) && u.RawQuery == uriQuery(theURI(req)) && u.Opaque == uriOpaque(theURI(req))
  ensures encoding: err == nil ==> u.RawPath == uriRawPath(theURI(req)) && u.ForceQuery == uriForce(theURI(req))
  ensures user: err == nil ==> u.User == req.URL.User
