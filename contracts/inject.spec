package github.com/wujiu2020/strip/inject

# ---- P07: scopes ----
# what any injector answers for a key; for the framework's own injector it is given by its maps and parent
uninterp func otherScope(i any, n provName) *providerInfo
rec func lookup(i any, n provName) *providerInfo =
  ite(is(i, *injector), let j = as(i, *injector) in ite(has(j.values, n) && j.values[n] != nil, j.values[n], ite(j.parent == nil, nil, lookup(j.parent, n))), otherScope(i, n))
  reads injector.values, injector.parent, map[provName]*providerInfo

iface (provInvoker).get(inj, name) (p)
  requires regOK()
  ensures p == lookup(inj, name)
  ensures p != nil ==> existing(p) && p.name == name && wfProv(p)

func (*injector).get(inj, name) (p)
  props P07 P08
  requires nn: inj != nil
  requires reg: regOK()
  ensures nearest: p == lookup(box(inj, *injector), name)
  ensures filed_under_its_key: p != nil ==> existing(p) && p.name == name && wfProv(p)

func (*injector).SetParent(inj, parent) (r)
  props P07
  requires nn: inj != nil
  modifies inj.parent, regs
  effect regs = old(regs) + 1
  ensures set: inj.parent == parent && r == box(inj, *injector)

func New() (r)
  props P07
  new
  ensures reg: old(regOK() && cacheOK()) ==> regOK() && cacheOK()
  ensures empty: is(r, *injector) && fresh(as(r, *injector)) && (let j = as(r, *injector) in j.parent == nil && j.values != nil && j.caches != nil && len(j.values) == 0 && len(j.caches) == 0 && fresh(j.values) && fresh(j.caches) && (forall n provName :: {has(j.values, n)} !has(j.values, n)) && (forall n provName :: {has(j.caches, n)} !has(j.caches, n)))

# pointers are followed to the type they point to
rec func indir(t reflect.Type) reflect.Type = ite(t.Kind() == 22, indir(t.Elem()), t)

func indirectType(typ) (r)
  props P07 P08
  requires nn: typ != nil
  ensures follows: r == indir(typ) && r != nil
  inv [t reflect.Type] indir(t) == indir(typ)
  inv [t reflect.Type] t != nil

func createName(typ, name) (n)
  props P07 P08
  ensures exact: n.typ == typ && n.name == name

func getName(names) (n)
  props P07
  ensures first: n == ite(len(names) > 0, names[0], "")

# regs: counts registrations and re-parentings
ghost regs int

# ---- registration ----
rec func indirV(v reflect.Value) reflect.Value = ite(v.Kind() == 22, indirV(elemOf(v)), v)
func indirectValue(val) (r)
  props P07
  ensures follows: r == indirV(val)
  inv [v reflect.Value] indirV(v) == indirV(val)

pure func objValue(prov any) any = ite(is(prov, Object), as(prov, Object).Value, ite(is(prov, *Object), as(prov, *Object).Value, prov))
pure func objType(prov any, typ any) any = ite(typ != nil, typ, ite(is(prov, Object), as(prov, Object).Type, ite(is(prov, *Object), as(prov, *Object).Type, nil)))
pure func objName(prov any, names []string) string = ite(len(names) > 0, names[0], ite(is(prov, Object), as(prov, Object).Name, ite(is(prov, *Object), as(prov, *Object).Name, "")))
pure func isFn(v any) bool = is(v, Provide) || reflect.ValueOf(v).Kind() == 19
pure func fnOf(v any) any = ite(is(v, Provide) && len(as(v, Provide)) > 0, as(v, Provide)[len(as(v, Provide)) - 1], v)
pure func fnType(v any) reflect.Type = reflect.ValueOf(fnOf(v)).Type()
# the key a provider is registered under
pure func keyType(v any, typ any) reflect.Type = ite(isFn(v), ite(fnType(v).NumOut() > 0, ite(typ == nil, indir(fnType(v).Out(0)), indir(reflect.TypeOf(typ))), nil),
  ite(typ == nil, indirV(reflect.ValueOf(v)).Type(), indir(reflect.TypeOf(typ))))
pure func keyName(v any, name string) string = ite(isFn(v) && fnType(v).NumOut() <= 0, "", name)
# declared dependency i: the parameter's type and the name the Dep table gives
pure func depName(v any, i int) string = ite(is(v, Provide) && len(as(v, Provide)) > 0 && is(as(v, Provide)[0], Dep) && has(as(as(v, Provide)[0], Dep), i), as(as(v, Provide)[0], Dep)[i], "")

# a registered provider: a value, or a function with its declared dependencies
pure func wfProv(p *providerInfo) bool = p != nil && (p.value != nil ==> p.val.IsValid()) && (p.value == nil ==> p.ptyp != nil && p.ptyp == p.pval.Type() && len(p.deps) == p.ptyp.NumIn() && (forall k int :: {p.deps[k]} 0 <= k && k < len(p.deps) ==> p.deps[k].typ != nil) && (p.name.typ != nil ==> p.ptyp.NumOut() > 0))
# every registration made so far is filed under its own key; every cached result has a key and a first value
pure func regOK() bool = forall m map[provName]*providerInfo, n provName :: {m[n]} {has(m, n)} existing(m) && has(m, n) && m[n] != nil ==> existing(at(m, n)) && at(m, n).name == n && wfProv(at(m, n))
pure func cacheOK() bool = forall m invokeCache, n provName :: {m[n]} {has(m, n)} existing(m) && has(m, n) ==> existing(m[n]) && n.typ != nil && len(m[n]) >= 1 && m[n][0].IsValid()

extern (reflect.Value).Elem(v) (r)
  ensures r == elemOf(v)
# reflect: the zero Value stands for nil, and has kind Invalid
axiom reflect.ValueOf(nil).Kind() == 0
uninterp func elemOf(v reflect.Value) reflect.Value

func (*providerInfo).setName(p, name)
  props P07
  requires nn: p != nil
  modifies p.name
  ensures key: p.name.typ == p.typ && p.name.name == name

func newProviderValue(obj, val) (info)
  props P07
  requires ty: val == reflect.ValueOf(obj.Value)
  panics_only when val.Kind() != 22 || val.IsNil() || !indirV(val).IsValid()
  new
  keeps injector.values, injector.parent, maptype map[provName]*providerInfo, maptype invokeCache
  requires reg: regOK() && cacheOK()
  ensures reg: regOK() && cacheOK()
  ensures_panic reg: regOK() && cacheOK()
  ensures made: fresh(info) && info.value == obj.Value && info.val == val && obj.Value != nil && wfProv(info)
  ensures key: info.name.typ == ite(obj.Type == nil, indirV(val).Type(), indir(reflect.TypeOf(obj.Type))) && info.name.name == obj.Name

func newProvider(obj) (info)
  props P07 P08
  maypanic
  requires reg: regOK() && cacheOK()
  ensures reg: regOK() && cacheOK()
  ensures_panic reg: regOK() && cacheOK()
  new
  keeps injector.values, injector.parent, maptype map[provName]*providerInfo, maptype invokeCache
  ensures made: fresh(info) && wfProv(info)
  ensures key: info.name.typ == keyType(obj.Value, obj.Type) && info.name.name == keyName(obj.Value, obj.Name)
  ensures plain: !isFn(obj.Value) ==> info.value == obj.Value && info.val == reflect.ValueOf(obj.Value)
  ensures function: isFn(obj.Value) ==> info.value == nil && info.pval == reflect.ValueOf(fnOf(obj.Value)) && info.ptyp == fnType(obj.Value)
  ensures deps: isFn(obj.Value) ==> forall i int :: {info.deps[i]} 0 <= i && i < len(info.deps) ==> info.deps[i].typ == indir(info.ptyp.In(i)) && info.deps[i].name == depName(obj.Value, i)
  inv regOK() && cacheOK()
  inv [i int, deps []provName] len(deps) == i && 0 <= i
  merge
  inv [deps []provName, info outer *providerInfo] forall k int :: {deps[k]} 0 <= k && k < len(deps) ==> deps[k].typ != nil && deps[k].typ == indir(info.ptyp.In(k)) && deps[k].name == depName(obj.Value, k)
  inv [i int, deps []provName, info outer *providerInfo] i <= info.ptyp.NumIn() && (isFn(obj.Value) ==> info.pval == reflect.ValueOf(fnOf(obj.Value)) && info.ptyp == fnType(obj.Value))

func (*injector).ProvideAs(inj, prov, typ, names) (tp)
  props P07
  requires nn: inj != nil && inj.values != nil && inj.caches != nil
  requires obj: !is(prov, *Object) || as(prov, *Object) != nil
  requires reg: regOK() && cacheOK()
  maypanic
  modifies entries(inj.values), entries(inj.caches), regs
  effect regs = old(regs) + 1
  ensures reg: regOK() && cacheOK()
  ensures_panic reg: regOK() && cacheOK()
  new
  let v = objValue(prov)
  let kt = keyType(objValue(prov), objType(prov, typ))
  let kn = keyName(objValue(prov), objName(prov, names))
  ensures same_scope: tp == box(inj, *injector)
  ensures registered: forall n provName :: {inj.values[n]} n.typ == kt && n.name == kn ==> has(inj.values, n) && fresh(inj.values[n]) && wfProv(inj.values[n]) && inj.values[n].name == n
  ensures plain: !isFn(v) ==> forall n provName :: {inj.values[n]} n.typ == kt && n.name == kn ==> inj.values[n].value == v && inj.values[n].val == reflect.ValueOf(v)
  ensures function: isFn(v) ==> forall n provName :: {inj.values[n]} n.typ == kt && n.name == kn ==> inj.values[n].value == nil && inj.values[n].pval == reflect.ValueOf(fnOf(v))
  ensures only_that_key: forall n provName :: {inj.values[n]} {has(inj.values, n)} n.typ != kt || n.name != kn ==> has(inj.values, n) == old(has(inj.values, n)) && inj.values[n] == old(inj.values[n])
  ensures drops_cached: forall n provName :: {has(inj.caches, n)} n.typ == kt && n.name == kn ==> !has(inj.caches, n)
  ensures keeps_cached: forall n provName :: {has(inj.caches, n)} n.typ != kt || n.name != kn ==> has(inj.caches, n) == old(has(inj.caches, n)) && inj.caches[n] == old(inj.caches[n])

# ---- P08: resolution ----
# assigned[v]: the value last stored in the settable place v; news: places made by reflect.New
# calls: completed calls of provider functions; lastfn, lastin: the last completed call and its arguments
ghost assigned arr[reflect.Value->reflect.Value]
ghost news int
ghost calls int
ghost lastfn reflect.Value
ghost lastin arr[int->reflect.Value]
ghost lastn int
uninterp func slot(v reflect.Value) int
axiom forall v reflect.Value :: {v.IsValid()} v.IsValid() == (v.Kind() != 0)

extern (reflect.Value).Set(v, x)
  maypanic
  modifies assigned
  effect assigned = update(old(assigned), v, x)
  ensures_panic assigned == old(assigned)
extern reflect.New(t) (r)
  modifies news
  effect news = old(news) + 1
  ensures slot(elemOf(r)) == old(news) && elemOf(r).Type() == t
# user code: a provider function or an action. It may register in scopes, resolve from them, and store anywhere
# except in the places the framework made for arguments it still holds
extern (reflect.Value).Call(v, in) (out)
  requires reg: regOK() && cacheOK()
  maypanic
  modifies all maptype map[provName]*providerInfo, all maptype invokeCache, all injector.parent, regs, assigned, news, calls, lastfn, lastin, lastn
  new
  ensures len(out) == v.Type().NumOut() && fresh(out) && (forall k int :: {out[k]} 0 <= k && k < len(out) ==> out[k].IsValid())
  ensures regOK() && cacheOK() && regs >= old(regs) && news >= old(news)
  ensures (forall m invokeCache, n provName :: {m[n]} {has(m, n)} existing(m) && has(m, n) ==> fresh(m[n]) || (old(existing(m) && has(m, n)) && m[n] == old(m[n])))
  ensures regs == old(regs) ==> (forall i any, n provName :: {lookup(i, n)} lookup(i, n) == old(lookup(i, n)))
  ensures regs == old(regs) ==> (forall m invokeCache, n provName :: {has(m, n)} {m[n]} old(existing(m) && has(m, n)) ==> has(m, n) && m[n] == old(m[n]))
  ensures forall w reflect.Value :: {assigned[w]} 0 <= slot(w) && slot(w) < old(news) ==> assigned[w] == old(assigned)[w]
  ensures regs == old(regs) ==> (forall j *injector, n provName :: {has(j.caches, n)} old(existing(j)) && has(j.caches, n) && !old(has(j.caches, n)) ==> lookup(box(j, *injector), n) != nil && existing(lookup(box(j, *injector), n)) && lookup(box(j, *injector), n).value == nil)
  ensures regs == old(regs) ==> (forall j *injector, n provName :: {lookup(box(j, *injector), n)} old(existing(j) && settledIn(j, n)) ==> settledIn(j, n) && depVal(j, n) == old(depVal(j, n)))
  ensures calls > old(calls) && lastfn == v && lastn == len(in)
  ensures forall k int :: {lastin[k]} 0 <= k && k < len(in) ==> lastin[k] == in[k]
  ensures_panic regOK() && cacheOK() && regs >= old(regs) && news >= old(news)

# place e holds provided value v: directly, or what v points to
pure func holds(e reflect.Value, v reflect.Value) bool = ite(v.Type().AssignableTo(e.Type()), assigned[e] == v, v.Kind() == 22 && v.Type().Elem().AssignableTo(e.Type()) && (v.IsNil() || assigned[e] == elemOf(v)))

func assignValue(out, elm) (err)
  props P07 P08
  requires valid: out.IsValid()
  requires reg: regOK() && cacheOK()
  maypanic
  modifies assigned
  new
  keeps injector.values, injector.parent, maptype map[provName]*providerInfo, maptype invokeCache
  ensures reg: regOK() && cacheOK()
  ensures_panic reg: regOK() && cacheOK()
  ensures converts: err == nil ==> holds(elm, out)
  ensures only_elm: forall w reflect.Value :: {assigned[w]} w != elm ==> assigned[w] == old(assigned)[w]
  ensures unchanged: err != nil ==> assigned == old(assigned)
  ensures assignable: (err == nil) == (out.Type().AssignableTo(elm.Type()) || (out.Kind() == 22 && out.Type().Elem().AssignableTo(elm.Type())))
  ensures_panic only_elm: assigned == old(assigned)

# what scope inj has for key n: the cached result if it has been built here, else the registered value
pure func depVal(inj *injector, n provName) reflect.Value = ite(has(inj.caches, n), inj.caches[n][0], lookup(box(inj, *injector), n).val)

# n is settled in scope inj: it has been built here, or is a value
pure func settledIn(inj *injector, n provName) bool = lookup(box(inj, *injector), n) != nil && existing(lookup(box(inj, *injector), n)) && (has(inj.caches, n) || lookup(box(inj, *injector), n).value != nil)

func (invokeStatus).has(m, name) (b)
  props P08
  ensures b == has(m, name)
func (invokeStatus).set(m, name)
  props P08
  requires m != nil
  modifies entries(m)
  ensures forall n provName :: {has(m, n)} has(m, n) == (n == name || old(has(m, n)))

func (*providerInfo).invoke(p, inj, status) (out, err)
  props P08
  merge
  requires nn: p != nil && existing(p) && inj != nil && existing(inj) && inj.caches != nil && existing(inj.caches) && status != nil && existing(status)
  requires wf: wfProv(p)
  requires reg: regOK() && cacheOK()
  requires news: news >= 0
  requires not_in_progress: !has(status, p.name)
  requires at_key: p.name.typ != nil ==> lookup(box(inj, *injector), p.name) == p
  maypanic
  modifies entries(status), all maptype map[provName]*providerInfo, all maptype invokeCache, all injector.parent, regs, assigned, news, calls, lastfn, lastin, lastn
  new
  ensures reg: regOK() && cacheOK() && regs >= old(regs) && news >= old(news) && calls >= old(calls)
  ensures_panic reg: regOK() && cacheOK() && regs >= old(regs) && news >= old(news)
  ensures status: forall n provName :: {has(status, n)} has(status, n) == old(has(status, n))
  ensures results_only: (forall m invokeCache, n provName :: {m[n]} {has(m, n)} existing(m) && has(m, n) ==> fresh(m[n]) || (old(existing(m) && has(m, n)) && m[n] == old(m[n])))
  ensures_panic status: forall n provName :: {has(status, n)} has(status, n) == old(has(status, n))
  ensures cached: old(has(inj.caches, p.name)) ==> err == nil && out == old(inj.caches[p.name]) && calls == old(calls)
  ensures value: !old(has(inj.caches, p.name)) && p.value != nil ==> err == nil && len(out) == 1 && out[0] == p.val && calls == old(calls)
  ensures nonempty: err == nil ==> (p.name.typ != nil ==> len(out) >= 1) && (len(out) >= 1 ==> out[0].IsValid())
  ensures built: err == nil && !old(has(inj.caches, p.name)) && p.value == nil ==> calls > old(calls) && lastfn == p.pval && lastn == len(p.deps) && len(out) == p.ptyp.NumOut()
  ensures kept_in_scope: err == nil && !old(has(inj.caches, p.name)) && p.value == nil && p.name.typ != nil ==> has(inj.caches, p.name) && inj.caches[p.name] == out
  ensures args: regs == old(regs) && err == nil && !old(has(inj.caches, p.name)) && p.value == nil ==> forall k int :: {p.deps[k]} {lastin[k]} 0 <= k && k < len(p.deps) ==> lookup(box(inj, *injector), p.deps[k]) != nil && holds(lastin[k], depVal(inj, p.deps[k])) && lastin[k].Type() == p.ptyp.In(k)
  ensures acyclic: regs == old(regs) && err == nil && !old(has(inj.caches, p.name)) && p.value == nil ==> forall k int :: {p.deps[k]} 0 <= k && k < len(p.deps) ==> p.deps[k] != p.name && !old(has(status, p.deps[k]))
  ensures cached_once: regs == old(regs) ==> (forall m invokeCache, n provName :: {has(m, n)} {m[n]} old(existing(m) && has(m, n)) ==> has(m, n) && m[n] == old(m[n]))
  ensures stable: regs == old(regs) ==> (forall n provName :: {lookup(box(inj, *injector), n)} old(settledIn(inj, n)) ==> settledIn(inj, n) && depVal(inj, n) == old(depVal(inj, n)))
  ensures gives: regs == old(regs) && err == nil && p.name.typ != nil ==> settledIn(inj, p.name) && out[0] == depVal(inj, p.name)
  ensures same_lookup: regs == old(regs) ==> (forall i any, n provName :: {lookup(i, n)} lookup(i, n) == old(lookup(i, n)))
  ensures places_kept: forall w reflect.Value :: {assigned[w]} 0 <= slot(w) && slot(w) < old(news) ==> assigned[w] == old(assigned)[w]
  ensures cached_functions: regs == old(regs) ==> (forall n provName :: {has(inj.caches, n)} has(inj.caches, n) && !old(has(inj.caches, n)) ==> lookup(box(inj, *injector), n) != nil && existing(lookup(box(inj, *injector), n)) && lookup(box(inj, *injector), n).value == nil)
  inv regOK()
  inv cacheOK()
  inv regs == old(regs) ==> (forall n provName :: {lookup(box(inj, *injector), n)} old(settledIn(inj, n)) ==> settledIn(inj, n) && depVal(inj, n) == old(depVal(inj, n)))
  inv (forall m invokeCache, n provName :: {m[n]} {has(m, n)} existing(m) && has(m, n) ==> fresh(m[n]) || (old(existing(m) && has(m, n)) && m[n] == old(m[n])))
  inv [in []reflect.Value] forall m invokeCache, n provName :: {m[n]} {has(m, n)} existing(m) && has(m, n) ==> base(m[n]) != base(in)
  inv regs >= old(regs) && news >= old(news) && calls >= old(calls)
  inv [i int, in []reflect.Value] len(in) == i + 1
  inv [i int, in []reflect.Value] len(in) == i
  inv forall n provName :: {has(status, n)} has(status, n) == (old(has(status, n)) || n == p.name)
  inv regs == old(regs) ==> (forall i any, n provName :: {lookup(i, n)} lookup(i, n) == old(lookup(i, n)))
  inv regs == old(regs) ==> (forall m invokeCache, n provName :: {has(m, n)} {m[n]} old(existing(m) && has(m, n)) ==> has(m, n) && m[n] == old(m[n]))
  inv regs == old(regs) ==> (forall n provName :: {has(inj.caches, n)} has(inj.caches, n) && !old(has(inj.caches, n)) ==> lookup(box(inj, *injector), n) != nil && existing(lookup(box(inj, *injector), n)) && lookup(box(inj, *injector), n).value == nil)
  inv forall w reflect.Value :: {assigned[w]} 0 <= slot(w) && slot(w) < old(news) ==> assigned[w] == old(assigned)[w]
  inv [in []reflect.Value] forall k int :: {in[k]} 0 <= k && k < len(in) ==> old(news) <= slot(in[k]) && slot(in[k]) < news && in[k].Type() == p.ptyp.In(k)
  inv [in []reflect.Value] regs == old(regs) ==> (forall k int :: {in[k]} {p.deps[k]} 0 <= k && k < len(in) ==> settledIn(inj, p.deps[k]) && p.deps[k] != p.name && !old(has(status, p.deps[k])))
  inv [in []reflect.Value] regs == old(regs) ==> (forall k int :: {in[k]} {p.deps[k]} 0 <= k && k < len(in) ==> holds(in[k], depVal(inj, p.deps[k])))

pure func ptrKey(ptr any, names []string) reflect.Type = indir(reflect.ValueOf(ptr).Type())

func (*injector).Find(inj, ptr, names) (err)
  props P07 P08
  requires nn: inj != nil && inj.caches != nil && existing(inj) && existing(inj.caches) && news >= 0
  requires reg: regOK() && cacheOK()
  maypanic
  ensures pointer_only: reflect.ValueOf(ptr).Kind() == 22
  modifies all maptype map[provName]*providerInfo, all maptype invokeCache, all injector.parent, regs, assigned, news, calls, lastfn, lastin, lastn
  new
  ensures reg: regOK() && cacheOK() && regs >= old(regs)
  ensures_panic reg: regOK() && cacheOK()
  ensures not_found: (forall n provName :: {lookup(box(inj, *injector), n)} n.typ == indir(reflect.ValueOf(ptr).Type()) && n.name == ite(len(names) > 0, names[0], "") ==> old(lookup(box(inj, *injector), n)) == nil) ==> err != nil && calls == old(calls) && assigned == old(assigned)
  ensures nearest_value: err == nil && regs == old(regs) ==> (forall n provName :: {lookup(box(inj, *injector), n)} n.typ == indir(reflect.ValueOf(ptr).Type()) && n.name == ite(len(names) > 0, names[0], "") ==> lookup(box(inj, *injector), n) != nil && holds(elemOf(reflect.ValueOf(ptr)), depVal(inj, n)))

func (*injector).Exists(inj, ptr, names) (err)
  props P07
  requires nn: inj != nil
  requires reg: regOK() && cacheOK()
  maypanic
  ensures pointer_only: reflect.ValueOf(ptr).Kind() == 22
  modifies assigned
  new
  keeps injector.values, injector.parent, maptype map[provName]*providerInfo, maptype invokeCache
  ensures reg: regOK() && cacheOK()
  ensures not_found: (forall n provName :: {lookup(box(inj, *injector), n)} n.typ == indir(reflect.ValueOf(ptr).Type()) && n.name == ite(len(names) > 0, names[0], "") ==> lookup(box(inj, *injector), n) == nil) ==> err != nil && assigned == old(assigned)
  ensures nearest_value: err == nil ==> (forall n provName :: {lookup(box(inj, *injector), n)} n.typ == indir(reflect.ValueOf(ptr).Type()) && n.name == ite(len(names) > 0, names[0], "") ==> lookup(box(inj, *injector), n) != nil && (lookup(box(inj, *injector), n).value != nil ==> holds(elemOf(reflect.ValueOf(ptr)), lookup(box(inj, *injector), n).val)))

func (*injector).Invoke(inj, prov) (out, err)
  props P08
  requires nn: inj != nil && inj.caches != nil && existing(inj) && existing(inj.caches) && news >= 0
  requires reg: regOK() && cacheOK()
  maypanic
  modifies all maptype map[provName]*providerInfo, all maptype invokeCache, all injector.parent, regs, assigned, news, calls, lastfn, lastin, lastn
  new
  ensures reg: regOK() && cacheOK()
  ensures_panic reg: regOK() && cacheOK()
  ensures called: err == nil && isFn(prov) ==> calls > old(calls) && lastfn == reflect.ValueOf(fnOf(prov)) && lastn == fnType(prov).NumIn() && len(out) == fnType(prov).NumOut()
  ensures args: err == nil && isFn(prov) && regs == old(regs) ==> (forall k int, n provName :: {lookup(box(inj, *injector), n), lastin[k]} 0 <= k && k < fnType(prov).NumIn() && n.typ == indir(fnType(prov).In(k)) && n.name == depName(prov, k) ==> lookup(box(inj, *injector), n) != nil && holds(lastin[k], depVal(inj, n)))
  ensures no_dependency_no_call: err != nil ==> out == nil

iface (TypeProvider).ProvideAs(inj, prov, typ, names) (tp)
  requires reg: regOK() && cacheOK()
  modifies regs, all maptype map[provName]*providerInfo, all maptype invokeCache
  maypanic
  new
  ensures regOK() && cacheOK() && regs >= old(regs)
