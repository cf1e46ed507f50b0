package github.com/wujiu2020/strip/inject

# ---- P30: filling a struct's dependencies ----
# a struct's fields as places, and the tag each was declared with
uninterp func fieldOf(v reflect.Value, i int) reflect.Value
uninterp func tagAt(t reflect.Type, i int) string
uninterp func tagGet(t string, k string) string
uninterp func tagOf(v reflect.Value) string
uninterp func addrOf(v reflect.Value) reflect.Value
axiom forall v reflect.Value, i int :: {fieldOf(v, i)} tagOf(fieldOf(v, i)) == tagAt(v.Type(), i) && slot(fieldOf(v, i)) == slot(v) && fieldOf(v, i).IsValid()
axiom forall v reflect.Value :: {v.Type()} v.IsValid() ==> v.Type() != nil && v.Type().Kind() == v.Kind()
axiom forall v reflect.Value :: {v.NumField()} v.NumField() == v.Type().NumField() && v.NumField() >= 0
extern (reflect.Value).Field(v, i) (r)
  requires field: v.Kind() == 25 && 0 <= i && i < v.NumField()
  ensures r == fieldOf(v, i)
iface (reflect.Type).Field(t, i) (f)
  requires field: t != nil && 0 <= i && i < t.NumField()
  ensures f.Tag == tagAt(t, i)
extern reflect.Indirect(v) (r)
  ensures r == ite(v.Kind() == 22, elemOf(v), v)
extern (reflect.StructTag).Get(t, k) (s)
  ensures s == tagGet(t, k)
extern (reflect.Value).Addr(v) (r)
  requires settable: v.CanSet()
  ensures r == addrOf(v) && r.IsValid() && r.Kind() == 22
extern (reflect.Value).Interface(v) (x)
  requires valid: v.IsValid()
  ensures forall w reflect.Value :: {addrOf(w)} v == addrOf(w) ==> reflect.ValueOf(x).Kind() == 22 && elemOf(reflect.ValueOf(x)) == w

extern fmt.Errorf(f, a) (e)
  ensures e != nil && !is(e, *typeError)

# which fields ask for a dependency, and under which key
pure func asks(w reflect.Value) bool = let s = tagGet(tagOf(w), "inject") in s != "-" && (tagOf(w) == "inject" || s != "")
pure func skipped(w reflect.Value) bool = tagGet(tagOf(w), "inject") == "-"
uninterp func keyOf(w reflect.Value) provName
axiom forall w reflect.Value :: {keyOf(w)} keyOf(w).typ == indir(w.Type()) && keyOf(w).name == tagGet(tagOf(w), "inject")
pure func structOf(x any) reflect.Value = let v = reflect.ValueOf(x) in ite(v.Kind() == 22, elemOf(v), v)
# place w holds what the scope has for its key
pure func served(inj *injector, w reflect.Value) bool = settledIn(inj, keyOf(w)) && holds(w, depVal(inj, keyOf(w)))
# every field of e that asks for a dependency has it
pure func filled(inj *injector, e reflect.Value) bool = forall i int :: {fieldOf(e, i)} 0 <= i && i < e.NumField() && fieldOf(e, i).CanSet() && asks(fieldOf(e, i)) ==> served(inj, fieldOf(e, i))
# field i of e is a struct to be filled in turn
pure func inner(e reflect.Value, i int) bool = 0 <= i && i < e.NumField() && fieldOf(e, i).CanSet() && !asks(fieldOf(e, i)) && !skipped(fieldOf(e, i)) && fieldOf(e, i).Kind() == 25 && fieldOf(e, i).CanInterface()

func (*injector).apply(inj, ptrStruct, status, level) (err)
  props P30
  requires nn: inj != nil && existing(inj) && inj.caches != nil && existing(inj.caches) && status != nil && existing(status)
  requires reg: regOK() && cacheOK()
  requires news: news >= 0
  requires idle: forall n provName :: {has(status, n)} !has(status, n)
  let e = structOf(ptrStruct)
  maypanic
  modifies entries(status), all maptype map[provName]*providerInfo, all maptype invokeCache, all injector.parent, regs, assigned, news, calls, lastfn, lastin, lastn
  new
  ensures reg: regOK() && cacheOK() && regs >= old(regs) && news >= old(news) && calls >= old(calls)
  ensures_panic reg: regOK() && cacheOK() && regs >= old(regs) && news >= old(news)
  ensures status: forall n provName :: {has(status, n)} !has(status, n)
  ensures not_a_struct: (is(err, *typeError) && err != nil) == (e.Kind() != 25)
  ensures nothing_done: e.Kind() != 25 ==> assigned == old(assigned) && calls == old(calls) && regs == old(regs) && news == old(news)
  ensures filled: err == nil && regs == old(regs) && 0 <= slot(e) && slot(e) < old(news) ==> filled(inj, e)
  ensures second: err == nil && regs == old(regs) && 0 <= slot(e) && slot(e) < old(news) && level < 2 ==> forall i int :: {fieldOf(e, i)} inner(e, i) ==> filled(inj, fieldOf(e, i))
  ensures third: err == nil && regs == old(regs) && 0 <= slot(e) && slot(e) < old(news) && level < 1 ==> forall i int, j int :: {fieldOf(fieldOf(e, i), j)} inner(e, i) && inner(fieldOf(e, i), j) ==> filled(inj, fieldOf(fieldOf(e, i), j))
  ensures only_asked: forall w reflect.Value :: {assigned[w]} 0 <= slot(w) && slot(w) < old(news) && assigned[w] != old(assigned)[w] ==> w.CanSet() && asks(w) && (regs == old(regs) ==> served(inj, w))
  ensures stable: regs == old(regs) ==> (forall n provName :: {lookup(box(inj, *injector), n)} old(settledIn(inj, n)) ==> settledIn(inj, n) && depVal(inj, n) == old(depVal(inj, n)))
  ensures same_lookup: regs == old(regs) ==> (forall i any, n provName :: {lookup(i, n)} lookup(i, n) == old(lookup(i, n)))
  inv regOK() && cacheOK()
  inv regs >= old(regs) && news >= old(news) && calls >= old(calls)
  inv forall n provName :: {has(status, n)} !has(status, n)
  inv regs == old(regs) ==> (forall n provName :: {lookup(box(inj, *injector), n)} old(settledIn(inj, n)) ==> settledIn(inj, n) && depVal(inj, n) == old(depVal(inj, n)))
  inv regs == old(regs) ==> (forall i any, n provName :: {lookup(i, n)} lookup(i, n) == old(lookup(i, n)))
  inv forall w reflect.Value :: {assigned[w]} 0 <= slot(w) && slot(w) < old(news) && assigned[w] != old(assigned)[w] ==> w.CanSet() && asks(w) && (regs == old(regs) ==> served(inj, w))
  inv [i int] regs == old(regs) && 0 <= slot(e) && slot(e) < old(news) ==> forall k int :: {fieldOf(e, k)} 0 <= k && k < i && fieldOf(e, k).CanSet() && asks(fieldOf(e, k)) ==> served(inj, fieldOf(e, k))
  inv [i int] 0 <= i
  inv [i int] regs == old(regs) && 0 <= slot(e) && slot(e) < old(news) && level < 2 ==> forall k int :: {fieldOf(e, k)} k < i && inner(e, k) ==> filled(inj, fieldOf(e, k))
  inv [i int] regs == old(regs) && 0 <= slot(e) && slot(e) < old(news) && level < 1 ==> forall k int, j int :: {fieldOf(fieldOf(e, k), j)} k < i && inner(e, k) && inner(fieldOf(e, k), j) ==> filled(inj, fieldOf(fieldOf(e, k), j))

func (*injector).Apply(inj, ptrStruct) (err)
  props P30
  requires nn: inj != nil && existing(inj) && inj.caches != nil && existing(inj.caches) && news >= 0
  requires reg: regOK() && cacheOK()
  let e = structOf(ptrStruct)
  maypanic
  modifies all maptype map[provName]*providerInfo, all maptype invokeCache, all injector.parent, regs, assigned, news, calls, lastfn, lastin, lastn
  new
  ensures reg: regOK() && cacheOK() && regs >= old(regs)
  ensures_panic reg: regOK() && cacheOK()
  ensures not_a_struct: e.Kind() != 25 ==> err != nil && assigned == old(assigned) && calls == old(calls)
  ensures filled: err == nil && regs == old(regs) && 0 <= slot(e) && slot(e) < old(news) ==> filled(inj, e)
  ensures second: err == nil && regs == old(regs) && 0 <= slot(e) && slot(e) < old(news) ==> forall i int :: {fieldOf(e, i)} inner(e, i) ==> filled(inj, fieldOf(e, i))
  ensures third: err == nil && regs == old(regs) && 0 <= slot(e) && slot(e) < old(news) ==> forall i int, j int :: {fieldOf(fieldOf(e, i), j)} inner(e, i) && inner(fieldOf(e, i), j) ==> filled(inj, fieldOf(fieldOf(e, i), j))
  ensures only_asked: forall w reflect.Value :: {assigned[w]} 0 <= slot(w) && slot(w) < old(news) && assigned[w] != old(assigned)[w] ==> w.CanSet() && asks(w) && (regs == old(regs) ==> served(inj, w))
