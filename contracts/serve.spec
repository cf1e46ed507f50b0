package github.com/wujiu2020/strip

# ---- P31: every request is served in a scope of its own ----
# reqCtx(q): the context.Context of a request; leads(c): the strip context put into c; under(c): the context c was made from
uninterp func reqCtx(q *http.Request) any
uninterp func leads(c any) any
uninterp func under(c any) any
# parentOf[i]: the scope an injector falls back to; what was provided into a scope: its request, response writer and context, and how many values
ghost parentOf arr[any->any]
ghost reqIn arr[any->ref]
ghost rwIn arr[any->any]
ghost ctxIn arr[any->any]
ghost into arr[any->int]
# the app and connection being served, the request as it came, and what has been started and finished for it
ghost app *Strip
ghost conn http.ResponseWriter
ghost came *http.Request
ghost appvals int
ghost runs int
ghost ranrw any
ghost finished int

pure func scopeOf(x any) any = ite(is(x, *context), box(as(x, *context).Injector, inject.Injector), x)

extern github.com/wujiu2020/strip/inject.New() (i)
  new
  modifies parentOf
  ensures i != nil && !is(i, *context) && into[i] == 0 && parentOf == update(old(parentOf), i, zero(any))
  ensures app != nil ==> i != app.inject

iface (github.com/wujiu2020/strip/inject.TypeProvider).ProvideAs(inj, v, typ, names) (r)
  modifies rwIn, ctxIn, into
  effect into = update(old(into), scopeOf(inj), old(into)[scopeOf(inj)] + 1)
  effect rwIn = ite(is(typ, *http.ResponseWriter) && len(names) == 0, update(old(rwIn), scopeOf(inj), v), old(rwIn))
  effect ctxIn = ite(is(typ, *Context) && len(names) == 0, update(old(ctxIn), scopeOf(inj), v), old(ctxIn))
iface (github.com/wujiu2020/strip/inject.TypeProvider).Provide(inj, v) (r)
  requires one: len(v) == 1
  modifies reqIn, into
  effect into = update(old(into), scopeOf(inj), old(into)[scopeOf(inj)] + 1)
  effect reqIn = ite(is(v[0], *http.Request), update(old(reqIn), scopeOf(inj), as(v[0], *http.Request)), old(reqIn))
iface (github.com/wujiu2020/strip/inject.Injector).SetParent(inj, p) (r)
  modifies parentOf
  effect parentOf = update(old(parentOf), scopeOf(inj), p)

func newContext(goctx, rw, filters, actionFunc) (c)
  props P31
  new
  modifies parentOf, reqIn, rwIn, ctxIn, into
  ensures start: fresh(c) && c.index == 0 && c.rw == rw && c.filters == filters && c.Context == goctx && c.Injector != nil && !is(c.Injector, *context)
  ensures own_scope: parentOf == update(old(parentOf), c.Injector, zero(any)) && (app != nil ==> c.Injector != app.inject)
  ensures itself: into == update(old(into), c.Injector, 1) && ctxIn == update(old(ctxIn), c.Injector, box(c, *context))
  ensures rest: reqIn == old(reqIn) && rwIn == old(rwIn)
  ensures action: (actionFunc == nil) == (c.action == nil)

func newNestContext(inj, rw, filters, actionFunc) (c)
  props P31
  requires nn: inj != nil
  new
  modifies reqIn, rwIn, ctxIn, into
  ensures start: fresh(c) && c.index == 0 && c.rw == rw && c.filters == filters && c.Context == inj && c.Injector == inj
  ensures itself: into == update(old(into), scopeOf(inj), old(into)[scopeOf(inj)] + 1) && ctxIn == update(old(ctxIn), scopeOf(inj), box(c, *nestContext))
  ensures rest: reqIn == old(reqIn) && rwIn == old(rwIn)
  ensures action: (actionFunc == nil) == (c.action == nil)

func (*context).GetContext(c) (r)
  props P31
  requires nn: c != nil
  ensures same: r == c.Context
func (*context).ReplaceContext(c, x)
  props P31
  requires nn: c != nil
  modifies c.Context
  ensures set: c.Context == x
iface (Context).ReplaceContext(c, x)
  requires ours: is(c, *context)
  modifies as(c, *context).Context
  ensures as(c, *context).Context == x

iface (net/http.ResponseWriter).Header(w) (h)
  ensures h != nil
extern (net/http.Header).Set(h, k, v)
  requires h != nil
extern (*net/http.Request).Context(r) (c)
  requires r != nil
  ensures c != nil && c == reqCtx(r)
extern (*net/http.Request).WithContext(r, c) (q)
  requires r != nil && c != nil
  new
  ensures fresh(q) && reqCtx(q) == c && q.URL == r.URL && q.Header == r.Header && q.Method == r.Method && q.Body == r.Body && q.Host == r.Host && q.RemoteAddr == r.RemoteAddr
# P29: the value is found again under its type, everything kept before stays
extern github.com/wujiu2020/strip/utils.CtxWithValue(ctx, v, names) (c)
  requires ctx != nil && is(v, *Context) && len(names) == 0
  new
  ensures c != nil && leads(c) == v && under(c) == ctx

# starts the chain: everything the request's handlers rely on must be in place, and only then
func (*context).run(c)
  trusted runs the chain it was made with (P04)
  requires once: runs == 0 && finished == 0
  requires scope: parentOf[c.Injector] == app.inject && c.Injector != app.inject
  requires chain: c.index == 0 && c.filters == app.filters && c.action != nil
  requires writer: is(c.rw, *responseWriter) && as(c.rw, *responseWriter).ResponseWriter == conn
  requires unsent: as(c.rw, *responseWriter).status == 0
  requires writer_provided: rwIn[c.Injector] == c.rw
  requires context: ctxIn[c.Injector] == box(c, *context) && c.Context != nil
  requires request: reqIn[c.Injector] != nil && (let q = as(box(reqIn[c.Injector], *http.Request), *http.Request) in reqCtx(q) == c.Context && under(reqCtx(q)) == reqCtx(came) && *as(leads(reqCtx(q)), *Context) == box(c, *context) && q.URL == came.URL && q.Header == came.Header && q.Method == came.Method && q.Body == came.Body)
  requires app_untouched: into[app.inject] == appvals
  maypanic
  modifies everything
  effect runs = old(runs) + 1
  effect ranrw = old(c.rw)
# ends the request: sends what was not sent yet (P05)
func (*responseWriter).Write(w, b) (n, err)
  trusted sends the status line and what is to be sent before it, once (P05)
  requires after_the_chain: w != nil && runs == 1 && finished == 0 && box(w, *responseWriter) == ranrw && len(b) == 0
  modifies finished
  effect finished = old(finished) + 1

func (*Strip).ServeHTTP(s, rw, req)
  props P31
  requires nn: s != nil && rw != nil && req != nil && s.inject != nil && s.route != nil && !is(s.inject, *context)
  maypanic
  begin app = s
  begin conn = rw
  begin came = req
  begin appvals = into[s.inject]
  begin runs = 0
  begin finished = 0
  modifies everything, parentOf, reqIn, rwIn, ctxIn, into, runs, ranrw, finished, app, conn, came, appvals
  ensures served_once: runs == 1
  ensures completed: finished == 1
