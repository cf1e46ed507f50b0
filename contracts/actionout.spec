package github.com/wujiu2020/strip

# ---- P20: from what an action returned to the response ----
# provided: the action result in force (nil: none); at*: the state when the rest of the chain had run
ghost provided any
ghost wstatus arr[any->int]
ghost wcommits arr[any->int]
ghost atstatus arr[any->int]
ghost atcommits arr[any->int]
# how the body was delivered: by a result object, a handler, a copied reader, or bytes; each with the status set by then
ghost ress int
ghost resV any
ghost resRW any
ghost resCtx any
ghost resReq *http.Request
ghost hands int
ghost handV any
ghost handRW any
ghost handReq *http.Request
ghost copies int
ghost copyV any
ghost copyRW any
ghost closes int
ghost closeV any
ghost writes int
ghost writeText string
ghost writeRW any
ghost bodyStatus int
uninterp func injRW(c any) any
uninterp func outN(o any) int
uninterp func outLast(o any) reflect.Value
uninterp func outPrev(o any) reflect.Value

iface (Context).Next(c)
  maypanic
  modifies everything, wstatus, wcommits, atstatus, atcommits, ress, resV, resRW, resCtx, resReq, hands, handV, handRW, handReq, copies, copyV, copyRW, closes, closeV, writes, writeText, writeRW, bodyStatus, provided, gotBytes
  ensures atstatus == wstatus && atcommits == wcommits && ress == 0 && hands == 0 && copies == 0 && closes == 0 && writes == 0 && bodyStatus == 0
iface (Context).Written(c) (b)
  ensures b == (wstatus[injRW(c)] != 0)
iface (github.com/wujiu2020/strip/inject.Injector).Find(inj, ptr, names) (err)
  modifies deref(as(ptr, *ActionOut)), deref(as(ptr, *http.ResponseWriter))
  new
  ensures is(ptr, *ActionOut) ==> *as(ptr, *ActionOut) == provided
  ensures is(ptr, *http.ResponseWriter) ==> *as(ptr, *http.ResponseWriter) == injRW(inj)
iface (ActionOut).Out(o) (r)
  ensures len(r) == outN(o) && (len(r) > 0 ==> r[len(r)-1] == outLast(o)) && (len(r) > 1 ==> r[len(r)-2] == outPrev(o))
  ensures forall i int :: {r[i]} 0 <= i && i < len(r) ==> r[i].IsValid()
# reflect: what a value holds; asking a value of another kind panics
uninterp func nilOf(v reflect.Value) bool
uninterp func intOf(v reflect.Value) int
# the bytes in a slice taken out of a value
ghost gotBytes string
uninterp func itfOf(v reflect.Value) any
extern (reflect.Value).IsNil(v) (b)
  requires kind: nillable(v)
  ensures b == nilOf(v)
extern (reflect.Value).Int(v) (n)
  requires kind: 2 <= v.Kind() && v.Kind() <= 6
  ensures n == intOf(v)
extern (reflect.Value).Interface(v) (x)
  requires exported: v.IsValid() && v.CanInterface()
  modifies gotBytes
  ensures x == itfOf(v) && (is(x, []byte) ==> gotBytes == bytesstr(as(x, []byte)))

iface (net/http.ResponseWriter).WriteHeader(w, s)
  panics when s == 0
  modifies wstatus, wcommits
  ensures wstatus == update(old(wstatus), w, s) && wcommits == update(old(wcommits), w, old(wcommits)[w] + 1)
iface (net/http.ResponseWriter).Write(w, b) (n, err)
  modifies wstatus, writes, writeText, writeRW, bodyStatus
  ensures writes == old(writes) + 1 && writeText == bytesstr(b) && writeRW == w && bodyStatus == old(wstatus)[w]
  ensures wstatus == update(old(wstatus), w, ite(old(wstatus)[w] == 0, 200, old(wstatus)[w]))
iface (ActionResult).Write(r, ctx, rw, req)
  maypanic
  modifies everything, wstatus, wcommits, ress, resV, resRW, resCtx, resReq, bodyStatus
  ensures ress == old(ress) + 1 && resV == r && resRW == rw && resCtx == ctx && resReq == req && bodyStatus == old(wstatus)[rw]
  ensures hands == old(hands) && copies == old(copies) && closes == old(closes) && writes == old(writes) && atstatus == old(atstatus) && atcommits == old(atcommits) && provided == old(provided)
iface (net/http.Handler).ServeHTTP(h, rw, req)
  maypanic
  modifies everything, wstatus, wcommits, hands, handV, handRW, handReq, bodyStatus
  ensures hands == old(hands) + 1 && handV == h && handRW == rw && handReq == req && bodyStatus == old(wstatus)[rw]
  ensures ress == old(ress) && copies == old(copies) && closes == old(closes) && writes == old(writes) && atstatus == old(atstatus) && atcommits == old(atcommits) && provided == old(provided)
# copies all of src, unless reading or writing fails
extern io.Copy(dst, src) (n, err)
  maypanic
  modifies copies, copyV, copyRW, bodyStatus, wstatus
  ensures copies == old(copies) + 1 && copyV == src && copyRW == dst && bodyStatus == old(wstatus)[dst]
  ensures_panic copies == old(copies) + 1 && copyV == src && closes == old(closes)
iface (io.Closer).Close(c) (err)
  requires copied_first: copies == 1 && copyV == c
  modifies closes, closeV
  ensures closes == old(closes) + 1 && closeV == c

pure func withCode(o any) bool = outLast(o).Kind() == 2
pure func bodyVal(o any) reflect.Value = ite(withCode(o), outPrev(o), outLast(o))
pure func nillable(v reflect.Value) bool = let k = v.Kind() in (18 <= k && k <= 23)
# there is something to deliver
pure func some(o any) bool = outN(o) > ite(withCode(o), 1, 0) && bodyVal(o).CanInterface() && (nillable(bodyVal(o)) ==> !nilOf(bodyVal(o)))
pure func bodyOf(o any) any = itfOf(bodyVal(o))
# there is a result and nobody answered before
pure func todo(ctx any) bool = atstatus[injRW(ctx)] == 0 && provided != nil && outN(provided) > 0
pure func deliv(ctx any) bool = todo(ctx) && some(provided)

func isNil(v) (b)
  props P20
  ensures def: b == (nillable(v) && nilOf(v))

func GenericOutFilter$1(ctx, req)
  props P20
  requires nn: ctx != nil && injRW(ctx) != nil
  maypanic
  modifies everything, wstatus, wcommits, atstatus, atcommits, ress, resV, resRW, resCtx, resReq, hands, handV, handRW, handReq, copies, copyV, copyRW, closes, closeV, writes, writeText, writeRW, bodyStatus, provided, gotBytes
  ensures nothing: !todo(ctx) ==> wstatus == atstatus && wcommits == atcommits
  ensures code: todo(ctx) && withCode(provided) && !deliv(ctx) ==> wcommits == update(atcommits, injRW(ctx), atcommits[injRW(ctx)] + 1) && wstatus[injRW(ctx)] == intOf(outLast(provided))
  ensures no_code: todo(ctx) && !withCode(provided) && !deliv(ctx) ==> wcommits == atcommits && wstatus == atstatus
  ensures code_first: ress + hands + copies + writes > 0 ==> bodyStatus == old_status(ctx)
  ensures object: ress == ite(deliv(ctx) && is(bodyOf(provided), ActionResult), 1, 0) && (ress == 1 ==> resV == bodyOf(provided) && resRW == injRW(ctx) && resCtx == ctx && resReq == req)
  ensures handler: hands == ite(deliv(ctx) && kindOf(bodyOf(provided)) == 2, 1, 0) && (hands == 1 ==> handV == bodyOf(provided) && handRW == injRW(ctx) && handReq == req)
  ensures reader: copies == ite(deliv(ctx) && (kindOf(bodyOf(provided)) == 3 || kindOf(bodyOf(provided)) == 4), 1, 0) && (copies == 1 ==> copyV == bodyOf(provided) && copyRW == injRW(ctx))
  ensures closed: closes == ite(deliv(ctx) && kindOf(bodyOf(provided)) == 3, 1, 0)
  ensures text: writes == ite(deliv(ctx) && (kindOf(bodyOf(provided)) == 5 || kindOf(bodyOf(provided)) == 6), 1, 0)
  ensures text_to: writes == 1 ==> writeRW == injRW(ctx)
  ensures text_string: writes == 1 && is(bodyOf(provided), string) ==> writeText == as(bodyOf(provided), string)
  ensures text_bytes: writes == 1 && !is(bodyOf(provided), string) ==> writeText == gotBytes

pure func old_status(ctx any) int = ite(withCode(provided), intOf(outLast(provided)), 0)
pure func kindOf(x any) int = ite(is(x, ActionResult), 1, ite(is(x, http.Handler), 2, ite(is(x, io.ReadCloser), 3, ite(is(x, io.Reader), 4, ite(is(x, string), 5, ite(is(x, []byte), 6, 0))))))

# ---- where the results come from ----
ghost invoked any
ghost invokes int
ghost called *routerAction
ghost calledName string
ghost calls int
ghost failed any
ghost results []reflect.Value
iface (github.com/wujiu2020/strip/inject.Injector).Invoke(inj, f) (out, err)
  maypanic
  modifies everything, invoked, invokes, failed, results
  ensures invokes == old(invokes) + 1 && calls == old(calls) && invoked == f && results == out && failed == err && provided == old(provided)
iface (github.com/wujiu2020/strip/inject.TypeProvider).ProvideAs(inj, v, typ, names) (r)
  requires as_result: is(typ, *ActionOut) && len(names) == 0
  modifies provided
  new
  effect provided = v
func (*routerAction).callStructFunc(r, ctx, params, action) (out)
  trusted calls the controller's method of this name (its copy, arguments and injection are proved in P27)
  maypanic
  modifies everything, called, calledName, calls, results
  ensures calls == old(calls) + 1 && invokes == old(invokes) && called == r && calledName == action && results == out && provided == old(provided)
func (*routerController).isFunc(c) (b)
  props P20
  requires nn: c != nil
  ensures def: b == (c.kind == 19)
func (actionOut).Out(r) (o)
  props P20
  ensures def: o == r
func (*routerAction).writeResult(r, ctx, out)
  props P20
  requires nn: ctx != nil
  modifies provided
  new
  ensures given: is(provided, *actionOut) && as(provided, *actionOut) != nil && *as(provided, *actionOut) == out
func (*routerAction).wrapHandle$1(ctx, rw, req)
  props P20
  requires nn: ctx != nil && *r != nil && (*r).controller != nil
  maypanic
  modifies everything, invoked, invokes, called, calledName, calls, failed, results, provided
  ensures once: calls + invokes == old(calls) + old(invokes) + 1
  ensures function: old((*r).controller.kind == 19) ==> invokes == old(invokes) + 1 && invoked == old((*r).controller.value) && failed == nil
  ensures method: old((*r).controller.kind != 19) ==> calls == old(calls) + 1 && called == old(*r) && calledName == old(*action)
  ensures given: is(provided, *actionOut) && as(provided, *actionOut) != nil && *as(provided, *actionOut) == results
