package github.com/wujiu2020/strip/static-serve

# ---- P23 ----
# what the filter was configured with
ghost cfgPrefix string
ghost cfgDir string
ghost cfgOpt StaticOption
uninterp func absOf(d string) string
uninterp func absErr(d string) error
extern path/filepath.Abs(d) (s, err)
  ensures s == absOf(d) && err == absErr(d)
uninterp func trimRight(s string, cut string) string
extern strings.TrimRight(s, cut) (r)
  ensures r == trimRight(s, cut)
# a leading slash, none at the end; "" for no prefix
pure func norm(p string) string = ite(p == "", "", trimRight(ite(p[0] == 47, p, "/" + p), "/"))

# files: how often and with what outcome they were opened, and which are open
ghost nopens int
ghost openName arr[int->string]
ghost openErr arr[int->error]
ghost openFile arr[int->any]
# 0 never opened, 1 open, 2 closed again
ghost isopen arr[any->int]
ghost statErr arr[any->error]
ghost statInfo arr[any->os.FileInfo]
ghost wanted string
ghost theRW any
uninterp func joined(dir string, file string) string
extern path.Join(elem) (r)
  requires two: len(elem) == 2
  ensures r == joined(elem[0], elem[1])
extern (net/http.Dir).Open(d, name) (f, err)
  requires root: d == absOf(cfgDir)
  requires name: name == wanted || name == joined(wanted, "index.html") || cfgOpt.TryFilesThen != "" && name == cfgOpt.TryFilesThen
  modifies nopens, openName, openErr, openFile, isopen
  new
  ensures nopens == old(nopens) + 1 && openName == update(old(openName), old(nopens), name) && openErr == update(old(openErr), old(nopens), err) && openFile == update(old(openFile), old(nopens), f)
  ensures err != nil ==> isopen == old(isopen)
  ensures err == nil ==> f != nil && old(isopen)[f] == 0 && isopen == update(old(isopen), f, 1)
iface (net/http.File).Stat(f) (fi, err)
  requires open: isopen[f] == 1
  modifies statErr, statInfo
  ensures err == nil ==> fi != nil
  ensures statErr == update(old(statErr), f, err) && statInfo == update(old(statInfo), f, fi)
iface (net/http.File).Close(f) (err)
  requires open: isopen[f] == 1
  modifies isopen
  ensures isopen == update(old(isopen), f, 2)
# answers
ghost served int
ghost servedFile any
ghost redirected int
ghost redirectTo string
ghost notfound int
extern net/http.ServeContent(w, req, name, modtime, content)
  requires open_file: isopen[content] == 1 && w == theRW
  requires its_time: modtime == statInfo[content].ModTime()
  maypanic
  modifies served, servedFile
  ensures served == old(served) + 1 && servedFile == content
extern net/http.Redirect(w, r, url, code)
  requires found: code == 302 && w == theRW
  maypanic
  modifies redirected, redirectTo
  ensures redirected == old(redirected) + 1 && redirectTo == url
extern net/http.NotFound(w, r)
  requires w == theRW
  maypanic
  modifies notfound
  ensures notfound == old(notfound) + 1
uninterp func urlText(path string, query string, fragment string) string
uninterp func trimLeft(s string, cut string) string
extern strings.TrimLeft(s, cut) (r)
  ensures r == trimLeft(s, cut)
extern (*net/url.URL).String(u) (s)
  requires same_host: u != nil && u.Scheme == "" && u.Host == "" && u.Opaque == "" && u.User == nil
  ensures s == urlText(u.Path, u.RawQuery, u.Fragment)
iface (github.com/wujiu2020/strip.Logger).Noticef(l, format, v)
  maypanic
iface (github.com/wujiu2020/strip.Logger).Warnf(l, format, v)
  maypanic

func ServeFilter(prefix, directory, opts) (r)
  props P23
  begin cfgPrefix = prefix
  begin cfgDir = directory
  begin cfgOpt = ite(len(opts) > 0, opts[0], zero(StaticOption))
  modifies cfgPrefix, cfgDir, cfgOpt
  new
  panics when absOf(directory) == ""

pure func under(p string, pre string) bool = pre == "" || hasPrefix(p, pre) && (len(p) == len(pre) || p[len(pre)] == 47)
pure func rest(p string) string = p[len(norm(cfgPrefix)):]
pure func skipped(p string) bool = exists i int :: {cfgOpt.SkipPrefix[i]} 0 <= i && i < len(cfgOpt.SkipPrefix) && hasPrefix(rest(p), cfgOpt.SkipPrefix[i])
pure func applies(req *http.Request) bool = (cfgOpt.AnyMethod || req.Method == "GET" || req.Method == "HEAD") && under(req.URL.Path, norm(cfgPrefix)) && !skipped(req.URL.Path)

func ServeFilter$1(file) (f, fi, err)
  props P23
  captured root: *dir == absOf(cfgDir)
  requires name: file == wanted || cfgOpt.TryFilesThen != "" && file == cfgOpt.TryFilesThen
  modifies nopens, openName, openErr, openFile, isopen, statErr, statInfo
  new
  ensures opened: nopens == old(nopens) + 1 && openName == update(old(openName), old(nopens), file) && (forall i int :: i != old(nopens) ==> openErr[i] == old(openErr)[i] && openFile[i] == old(openFile)[i])
  ensures others: forall g any :: {statErr[g]} {statInfo[g]} g != openFile[old(nopens)] ==> statErr[g] == old(statErr)[g] && statInfo[g] == old(statInfo)[g]
  ensures one: forall g any :: {isopen[g]} g != openFile[old(nopens)] ==> isopen[g] == old(isopen)[g]
  ensures new: openErr[old(nopens)] == nil ==> old(isopen)[openFile[old(nopens)]] == 0 && isopen[openFile[old(nopens)]] == ite(err == nil, 1, 2)
  ensures none: openErr[old(nopens)] != nil ==> isopen == old(isopen) && statErr == old(statErr) && statInfo == old(statInfo)
  ensures failed: err != nil ==> (openErr[old(nopens)] != nil || statErr[openFile[old(nopens)]] != nil)
  ensures ok: err == nil ==> f != nil && fi != nil && openErr[old(nopens)] == nil && f == openFile[old(nopens)] && statErr[f] == nil && statInfo[f] == fi

# the k-th open or its stat failed; it is a directory
pure func gone(k int) bool = openErr[k] != nil || statErr[openFile[k]] != nil
pure func isdir(k int) bool = statInfo[openFile[k]].IsDir()

func ServeFilter$2(rw, req, log)
  props P23
  captured root: *dir == absOf(cfgDir)
  captured prefix: *prefix == norm(cfgPrefix)
  captured opt: *opt == cfgOpt
  requires nn: rw != nil && req != nil && req.URL != nil && log != nil
  let n = nopens
  let on = applies(req)
  let name = rest(req.URL.Path)
  let slash = hasSuffix(req.URL.Path, "/")
  begin wanted = rest(req.URL.Path)
  begin theRW = rw
  maypanic
  modifies nopens, openName, openErr, openFile, isopen, statErr, statInfo, wanted, theRW, served, servedFile, redirected, redirectTo, notfound
  new
  inv [i int] forall k int :: {cfgOpt.SkipPrefix[k]} 0 <= k && k <= i && k < len(cfgOpt.SkipPrefix) ==> !hasPrefix(rest(req.URL.Path), cfgOpt.SkipPrefix[k])
  ensures closed: forall f any :: {isopen[f]} isopen[f] == 1 ==> old(isopen)[f] == 1
  ensures_panic closed: forall f any :: {isopen[f]} isopen[f] == 1 ==> old(isopen)[f] == 1
  ensures alone: !on ==> nopens == n && served == old(served) && redirected == old(redirected) && notfound == old(notfound)
  ensures looked: on ==> nopens > n && openName[n] == name
  ensures not_found: on && gone(n) && cfgOpt.TryFilesThen == "" ==> nopens == n + 1 && served == old(served) && redirected == old(redirected) && notfound == old(notfound) + 1
  ensures fallback: on && gone(n) && cfgOpt.TryFilesThen != "" ==> nopens == n + 2 && openName[n+1] == cfgOpt.TryFilesThen && redirected == old(redirected)
  ensures fallback_served: on && gone(n) && cfgOpt.TryFilesThen != "" && !gone(n + 1) ==> served == old(served) + 1 && servedFile == openFile[n+1] && notfound == old(notfound)
  ensures fallback_gone: on && gone(n) && cfgOpt.TryFilesThen != "" && gone(n + 1) ==> served == old(served) && notfound == old(notfound) + 1
  ensures file: on && !gone(n) && !isdir(n) ==> nopens == n + 1 && served == old(served) + 1 && servedFile == openFile[n] && redirected == old(redirected) && notfound == old(notfound)
  ensures dir_redirected: on && !gone(n) && isdir(n) && !slash ==> nopens == n + 1 && served == old(served) && redirected == old(redirected) + 1 && redirectTo == urlText("/" + trimLeft(old(req.URL.Path), "/") + "/", old(req.URL.RawQuery), old(req.URL.Fragment)) && notfound == old(notfound)
  ensures index: on && !gone(n) && isdir(n) && slash ==> nopens == n + 2 && openName[n+1] == joined(name, "index.html") && redirected == old(redirected)
  ensures index_served: on && !gone(n) && isdir(n) && slash && !gone(n + 1) && !isdir(n + 1) ==> served == old(served) + 1 && servedFile == openFile[n+1] && notfound == old(notfound)
  ensures index_gone: on && !gone(n) && isdir(n) && slash && gone(n + 1) ==> served == old(served) && notfound == old(notfound) + 1
  ensures index_dir: on && !gone(n) && isdir(n) && slash && !gone(n + 1) && isdir(n + 1) ==> served == old(served) && notfound == old(notfound)
