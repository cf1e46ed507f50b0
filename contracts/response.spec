package github.com/wujiu2020/strip

# ---- the wire below a responseWriter, as ghost state ----
# wcommits[w]: number of WriteHeader calls (on the connection: status lines sent), wstatus[w]: the last status
# (0: none yet), wbytes[w]: body bytes accepted, wbody[w]: their text, hookn/hooktrace: before-write hooks called so far, in order of call
ghost wcommits arr[any->int]
ghost wstatus arr[any->int]
ghost wbytes arr[any->int]
ghost wbody arr[any->string]
ghost hookn int
ghost hooktrace arr[int->ref]

iface (net/http.ResponseWriter).WriteHeader(w, s)
  modifies wcommits, wstatus
  ensures wcommits == update(old(wcommits), w, old(wcommits)[w] + 1) && wstatus == update(old(wstatus), w, s)

# the first write sends status 200 when none was set, unless the connection was taken over
iface (net/http.ResponseWriter).Write(w, b) (n, err)
  modifies wbytes, wbody, wstatus
  ensures 0 <= n && n <= len(b) && (err == nil ==> n == len(b))
  ensures wbytes == update(old(wbytes), w, old(wbytes)[w] + n)
  ensures wbody == update(old(wbody), w, wbody[w]) && (n == len(b) ==> wbody[w] == old(wbody)[w] + bytesstr(b))
  ensures wstatus == update(old(wstatus), w, ite(old(wstatus)[w] == 0 && !whijacked[w], 200, old(wstatus)[w]))

iface (ResponseWriter).Written(w) (b)
  ensures b == (wstatus[w] != 0)

iface (ResponseWriter).Status(w) (s)
  ensures s == wstatus[w]

# net/http: Flush sends a 200 status line when none has been sent yet
ghost wflushed arr[any->int]
iface (net/http.Flusher).Flush(w)
  requires after_commit: wcommits[w] > 0 || whijacked[w]
  modifies wflushed
  ensures wflushed == update(old(wflushed), w, old(wflushed)[w] + 1)

ghost whijacked arr[any->bool]
iface (net/http.Hijacker).Hijack(w) (c, b, err)
  modifies whijacked
  new
  ensures err == nil ==> whijacked == update(old(whijacked), w, true)
  ensures err != nil ==> whijacked == old(whijacked)

# a hook may set another status (the documented use is to set headers); it does not write the body
# and does not touch the writer's own bookkeeping. hookstatus is the status in force after it.
ghost hookstatus int
funcval func(ResponseWriter) : (f, w)
  requires isrw: is(w, *responseWriter)
  requires before_status_line: wcommits[as(w, *responseWriter).ResponseWriter] == 0
  modifies as(w, *responseWriter).status, hookn, hooktrace, hookstatus
  ensures hookn == old(hookn) + 1 && hooktrace == update(old(hooktrace), old(hookn), f)
  ensures hookstatus == as(w, *responseWriter).status

# bookkeeping invariant of a response writer: no status line before the first body write, at most one after
pure func hooksOK(rw *responseWriter) bool = forall i int :: {rw.beforeFuncs[i]} 0 <= i && i < len(rw.beforeFuncs) ==> rw.beforeFuncs[i] != nil
pure func rwInv(rw *responseWriter) bool =
  rw.ResponseWriter != nil && hooksOK(rw) &&
  (!oncedone(rw.once) ==> wcommits[rw.ResponseWriter] == 0) &&
  (oncedone(rw.once) ==> rw.status != 0) &&
  (oncedone(rw.once) && !rw.hijacked ==> wcommits[rw.ResponseWriter] == 1) &&
  (oncedone(rw.once) ==> wstatus[rw.ResponseWriter] != 0 || whijacked[rw.ResponseWriter]) &&
  (rw.hijacked ==> whijacked[rw.ResponseWriter]) &&
  0 <= wcommits[rw.ResponseWriter] && wcommits[rw.ResponseWriter] <= 1

func (*responseWriter).WriteHeader(rw, s)
  props P05
  requires nn: rw != nil
  panics when zero: s == 0
  modifies rw.status
  ensures rec: rw.status == s && rw.status != 0
  ensures inv: old(rwInv(rw)) ==> rwInv(rw)

func (*responseWriter).Status(rw) (s)
  props P05
  requires nn: rw != nil
  ensures st: s == rw.status

func (*responseWriter).Size(rw) (s)
  props P05
  requires nn: rw != nil
  ensures st: s == rw.size

func (*responseWriter).Written(rw) (b)
  props P05
  requires nn: rw != nil
  ensures iff: b == (rw.status != 0)

func (*responseWriter).Before(rw, f)
  props P05
  requires nn: rw != nil && f != nil
  modifies rw.beforeFuncs, elems(rw.beforeFuncs)
  new
  ensures added: len(rw.beforeFuncs) == old(len(rw.beforeFuncs)) + 1 && rw.beforeFuncs[old(len(rw.beforeFuncs))] == f
  ensures kept: forall i int :: 0 <= i && i < old(len(rw.beforeFuncs)) ==> rw.beforeFuncs[i] == old(rw.beforeFuncs[i])
  ensures inv: old(rwInv(rw)) ==> rwInv(rw)

func (*responseWriter).callBefore(rw)
  props P05
  requires nn: rw != nil && hooksOK(rw) && wcommits[rw.ResponseWriter] == 0
  modifies rw.status, hookn, hooktrace, hookstatus
  ensures each_once: hookn == old(hookn) + len(rw.beforeFuncs)
  ensures reverse: forall i int :: {hooktrace[i]} old(hookn) <= i && i < hookn ==> hooktrace[i] == rw.beforeFuncs[len(rw.beforeFuncs) - 1 - (i - old(hookn))]
  ensures earlier: forall i int :: {hooktrace[i]} i < old(hookn) ==> hooktrace[i] == old(hooktrace)[i]
  ensures status: rw.status == ite(len(rw.beforeFuncs) == 0, old(rw.status), hookstatus)
  inv [i int] hookn == old(hookn) + len(rw.beforeFuncs) - 1 - i
  inv [i int] hookn == old(hookn) + i
  inv forall i int :: {hooktrace[i]} old(hookn) <= i && i < hookn ==> hooktrace[i] == rw.beforeFuncs[len(rw.beforeFuncs) - 1 - (i - old(hookn))]
  inv forall i int :: {hooktrace[i]} i < old(hookn) ==> hooktrace[i] == old(hooktrace)[i]
  inv rw.status == ite(hookn == old(hookn), old(rw.status), hookstatus)

func (*responseWriter).Write(rw, b) (n, err)
  props P05
  requires nn: rw != nil
  requires inv: rwInv(rw)
  modifies rw.status, rw.size, once(rw.once), hookn, hooktrace, hookstatus, wcommits, wstatus, wbytes, wbody
  new
  ensures inv: rwInv(rw)
  ensures committed: oncedone(rw.once)
  ensures once_only: old(oncedone(rw.once)) ==> wcommits == old(wcommits) && wstatus == old(wstatus) && hookn == old(hookn) && rw.status == old(rw.status)
  ensures first_commit: !old(oncedone(rw.once)) && !rw.hijacked ==> wcommits == update(old(wcommits), rw.ResponseWriter, 1) && wstatus == update(old(wstatus), rw.ResponseWriter, rw.status)
  ensures hijacked_never: rw.hijacked ==> wcommits == old(wcommits) && wstatus == old(wstatus)
  ensures hooks_once: !old(oncedone(rw.once)) ==> hookn == old(hookn) + len(rw.beforeFuncs)
  ensures hooks_reverse: !old(oncedone(rw.once)) ==> forall i int :: {hooktrace[i]} old(hookn) <= i && i < hookn ==> hooktrace[i] == rw.beforeFuncs[len(rw.beforeFuncs) - 1 - (i - old(hookn))]
  ensures last_status: !old(oncedone(rw.once)) ==> let last = ite(len(rw.beforeFuncs) == 0, old(rw.status), hookstatus) in rw.status == ite(last == 0, 200, last)
  ensures size: rw.size == old(rw.size) + n && wbytes == update(old(wbytes), rw.ResponseWriter, old(wbytes)[rw.ResponseWriter] + n)

func (*responseWriter).Hijack(rw) (c, br, err)
  props P05
  requires nn: rw != nil
  requires inv: rwInv(rw)
  modifies rw.hijacked, whijacked
  new
  ensures inv: rwInv(rw)
  ensures marks: err == nil ==> rw.hijacked && whijacked[rw.ResponseWriter]
  ensures failed: err != nil ==> rw.hijacked == old(rw.hijacked) && whijacked == old(whijacked)
  ensures supported: !is(rw.ResponseWriter, http.Hijacker) ==> err != nil

func (*responseWriter).Flush(rw)
  props P05
  requires nn: rw != nil
  requires inv: rwInv(rw)
  modifies rw.status, rw.size, once(rw.once), hookn, hooktrace, hookstatus, wcommits, wstatus, wbytes, wbody, wflushed
  new
  ensures inv: rwInv(rw)

func newResponseWriter(w) (r)
  props P05
  requires conn: w != nil && wcommits[w] == 0
  new
  ensures clean: is(r, *responseWriter) && fresh(as(r, *responseWriter)) && (let x = as(r, *responseWriter) in rwInv(x) && x.ResponseWriter == w && x.status == 0 && x.size == 0 && !x.hijacked && len(x.beforeFuncs) == 0 && !oncedone(x.once))
