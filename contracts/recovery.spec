package github.com/wujiu2020/strip

# ---- P06 ----
# nextpan: the rest of the chain ended in a panic; at* : the state when it ended
ghost nextpan bool
ghost atstatus arr[any->int]
ghost atcommits arr[any->int]
ghost atbody arr[any->string]
ghost atlogged int
ghost logged int
# the writer and logger the request's injector provides
uninterp func injRW(c any) any
uninterp func injLog(c any) any

iface (Context).Next(c)
  maypanic
  modifies nextpan, wcommits, wstatus, wbytes, wbody, logged, atstatus, atcommits, atbody, atlogged
  new
  ensures !nextpan && atstatus == wstatus && atcommits == wcommits && atbody == wbody && atlogged == logged
  ensures_panic nextpan && atstatus == wstatus && atcommits == wcommits && atbody == wbody && atlogged == logged

# a found value is stored behind the pointer
iface (github.com/wujiu2020/strip/inject.Injector).Find(inj, ptr, names) (err)
  modifies deref(as(ptr, *Logger)), deref(as(ptr, *http.ResponseWriter))
  new
  ensures is(ptr, *Logger) ==> (err == nil) == (injLog(inj) != nil) && (err == nil ==> *as(ptr, *Logger) == injLog(inj))
  ensures is(ptr, *http.ResponseWriter) ==> *as(ptr, *http.ResponseWriter) == injRW(inj)

iface (Logger).Errorf(l, format, v)
  modifies logged
  ensures logged == old(logged) + 1

extern github.com/wujiu2020/strip.Stack(n) (b)
  new

iface (net/http.ResponseWriter).Header(w) (h)
  ensures h != nil

extern (net/http.Header).Set(h, k, v)
  requires h != nil
  modifies entries(h)
  new

extern fmt.Fprintf(w, f, a) (n, err)

func RecoveryFilter$1(ctx, config)
  props P06
  requires nn: ctx != nil && config != nil
  requires env: injRW(ctx) != nil && is(injRW(ctx), ResponseWriter)
  modifies nextpan, wcommits, wstatus, wbytes, wbody, logged, atstatus, atcommits, atbody, atlogged, all maptype http.Header
  new
  ensures quiet: !nextpan ==> wstatus == atstatus && wcommits == atcommits && wbody == atbody && logged == atlogged
  ensures logged_once: nextpan && injLog(ctx) != nil ==> logged == atlogged + 1
  ensures becomes_500: nextpan && injLog(ctx) != nil && atstatus[injRW(ctx)] == 0 ==> wstatus[injRW(ctx)] == 500 && wcommits[injRW(ctx)] == atcommits[injRW(ctx)] + 1
  ensures already_answered: nextpan && atstatus[injRW(ctx)] != 0 ==> wstatus == atstatus && wcommits == atcommits && wbody == atbody
  ensures others_untouched: forall w any :: {wstatus[w]} w != injRW(ctx) ==> wstatus[w] == atstatus[w] && wbody[w] == atbody[w] && wcommits[w] == atcommits[w]
  ensures details_only_in_dev: config.RunMode != "dev" ==> wbody == atbody
