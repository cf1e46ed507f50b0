package github.com/wujiu2020/strip

# ---- P27: how a matched action is called ----
# the last method call through reflection: the method, its arguments, and what every place held then
ghost ran int
ghost ranM reflect.Value
ghost ranN int
ghost ranIn arr[int->reflect.Value]
ghost ranHeld arr[reflect.Value->reflect.Value]
ghost ranOut []reflect.Value
# the last struct filled with dependencies, and what every place held before that
ghost applies int
ghost applied any
ghost applyRes any
ghost applyHeld arr[reflect.Value->reflect.Value]
uninterp func methodOf(v reflect.Value, name string) reflect.Value
uninterp func recvOf(m reflect.Value) reflect.Value
uninterp func hasMethod(t reflect.Type, name string) bool
uninterp func itfOf(v reflect.Value) any
uninterp func slotOf(x any) int
uninterp func keyAt(m map[string]string) string

axiom forall t reflect.Type, i int :: {t.In(i)} t.In(i) != nil
axiom forall t reflect.Type :: {t.NumIn()} t.NumIn() >= 0
axiom forall v reflect.Value :: {elemOf(v)} v.IsValid() && v.Kind() == 22 && elemOf(v).IsValid() ==> elemOf(v).Type() == v.Type().Elem()
axiom forall v reflect.Value :: {v.Kind()} !v.IsValid() ==> v.Kind() == 0
axiom forall v reflect.Value :: {v.Kind()} v.Kind() == 0 ==> !v.IsValid()

iface (reflect.Type).MethodByName(t, name) (m, ok)
  requires t != nil
  ensures ok == hasMethod(t, name)
extern (reflect.Value).MethodByName(v, name) (r)
  requires v.IsValid()
  ensures r == methodOf(v, name) && r.IsValid() == hasMethod(v.Type(), name)
  ensures r.IsValid() ==> r.Kind() == 19 && recvOf(r) == v && !r.Type().IsVariadic()
extern (reflect.Value).Interface(v) (x)
  requires v.IsValid()
  ensures x == itfOf(v) && slotOf(x) == slot(elemOf(v))
# the user's action: it may do anything
extern (reflect.Value).Call(m, in) (out)
  requires method: m.IsValid() && m.Kind() == 19
  requires count: len(in) == m.Type().NumIn()
  requires types: forall k int :: {in[k]} 0 <= k && k < len(in) ==> in[k].IsValid() && assignable(in[k].Type(), m.Type().In(k))
  maypanic
  modifies everything, ran, ranM, ranN, ranIn, ranHeld, ranOut, held, news
  ensures ran == old(ran) + 1 && ranM == m && ranN == len(in) && ranHeld == old(held) && ranOut == out
  ensures forall k int :: {ranIn[k]} 0 <= k && k < len(in) ==> ranIn[k] == old(in[k])
  ensures_panic ran == old(ran) + 1
# fills the struct's dependencies (P08): provider functions may run, but no place the framework holds changes but x's
iface (github.com/wujiu2020/strip/inject.Injector).Apply(inj, x) (err)
  maypanic
  modifies applies, applied, applyRes, applyHeld, held, news
  ensures applies == old(applies) + 1 && applied == x && applyRes == err && applyHeld == old(held) && news >= old(news)
  ensures forall w reflect.Value :: {held[w]} 0 <= slot(w) && slot(w) < old(news) && slot(w) != slotOf(x) ==> held[w] == old(held)[w]
  ensures_panic applies == old(applies) + 1

rec func indirV(v reflect.Value) reflect.Value = ite(v.Kind() == 22, indirV(elemOf(v)), v)
func indirectValue(val) (r)
  props P27
  ensures follows: r == indirV(val)
  ensures typed: val.IsValid() && r.IsValid() ==> r.Type() == indir(val.Type())
  inv [v reflect.Value] indirV(v) == indirV(val)
  inv [v reflect.Value] val.IsValid() && v.IsValid() ==> indir(v.Type()) == indir(val.Type())
  inv [v reflect.Value] !val.IsValid() ==> !v.IsValid()

# what a text denotes for a parameter of a basic kind
pure func numeric(k int) bool = k >= 1 && k <= 14 && k != 12
pure func known(t reflect.Type) bool = let u = indir(t) in numeric(u.Kind()) || u.Kind() == 24 || u.Kind() == 23 && (u.Elem().Kind() == 8 || u.Elem().Kind() == 24)
pure func sized(s string, k int) any = ite(k == 2, box(ite(intOK(s, 10, 64), intOf(s, 10), 0), int), ite(k == 3, box(ite(intOK(s, 10, 8), intOf(s, 10), 0), int8), ite(k == 4, box(ite(intOK(s, 10, 16), intOf(s, 10), 0), int16), ite(k == 5, box(ite(intOK(s, 10, 32), intOf(s, 10), 0), int32), box(ite(intOK(s, 10, 64), intOf(s, 10), 0), int64)))))
pure func usized(s string, k int) any = ite(k == 7, box(ite(uintOK(s, 10, 64), uintOf(s, 10), 0), uint), ite(k == 8, box(ite(uintOK(s, 10, 8), uintOf(s, 10), 0), uint8), ite(k == 9, box(ite(uintOK(s, 10, 16), uintOf(s, 10), 0), uint16), ite(k == 10, box(ite(uintOK(s, 10, 32), uintOf(s, 10), 0), uint32), box(ite(uintOK(s, 10, 64), uintOf(s, 10), 0), uint64)))))
pure func textFor(s string, k int) any = ite(k == 1, box(s == "on" || boolOK(s) && boolOf(s), bool), ite(k == 24, box(s, string), ite(k == 13, box(ite(floatOK(s, 32), float32(floatOf(s, 32)), float32(0)), float32), ite(k == 14, box(ite(floatOK(s, 64), floatOf(s, 64), float64(0)), float64), ite(k <= 6, sized(s, k), usized(s, k))))))
# argument a of type t carries the text's value, directly or behind its pointer
pure func carries(a reflect.Value, h arr[reflect.Value->reflect.Value], t reflect.Type, s string) bool = (t.Kind() != 22 && (numeric(t.Kind()) || t.Kind() == 24) ==> content(a) == textFor(s, t.Kind())) && (t.Kind() == 22 && t.Elem().Kind() != 22 && (numeric(t.Elem().Kind()) || t.Elem().Kind() == 24) ==> content(h[elemOf(a)]) == textFor(s, t.Elem().Kind()))
pure func single(m map[string]string) bool = has(m, keyAt(m)) && (forall k string :: {has(m, k)} {m[k]} has(m, k) ==> k == keyAt(m))

func makeRouterController(value) (rc)
  props P27
  requires value: value != nil
  modifies news
  new
  panics when let k = indir(reflect.ValueOf(value).Type()).Kind() in k != 25 && k != 19
  ensures kept: rc.value == value && rc.val == reflect.ValueOf(value) && rc.typ == indir(reflect.ValueOf(value).Type()) && rc.kind == reflect.ValueOf(value).Kind() && rc.pTyp == ptrTo(rc.typ)

func (*routerController).ensureHasAction(c, name)
  props P27
  requires nn: c != nil && c.typ != nil
  modifies news
  new
  panics when ite(c.typ.Kind() == 25, !hasMethod(ptrTo(c.typ), name), name != "")

func (*routerController).actionFuncExists(c, name) (b)
  props P27
  requires nn: c != nil && c.pTyp != nil
  ensures def: b == hasMethod(c.pTyp, name)

func (*routerAction).callStructFunc(r, ctx, params, action) (out)
  props P27
  requires nn: r != nil && r.controller != nil && ctx != nil && news >= 0
  requires made: r.controller.pTyp == ptrTo(r.controller.typ) && r.controller.typ != nil && r.controller.val.IsValid() && r.controller.typ == indir(r.controller.val.Type())
  requires captured: forall k int :: {params[k]} 0 <= k && k < len(params) ==> params[k] != nil && single(params[k])
  let typ = r.controller.typ
  let proto = indirV(r.controller.val)
  maypanic
  modifies everything, ran, ranM, ranN, ranIn, ranHeld, ranOut, applies, applied, applyRes, applyHeld, held, news
  ensures called: ran == old(ran) + 1 && out == ranOut && ranM == methodOf(recvOf(ranM), action)
  ensures own_copy: recvOf(ranM).Type() == ptrTo(typ) && slot(elemOf(recvOf(ranM))) >= old(news) && (proto.IsValid() ==> applyHeld[elemOf(recvOf(ranM))] == proto) && (!proto.IsValid() ==> applyHeld[elemOf(recvOf(ranM))] == zeroV(typ))
  ensures filled: applies == old(applies) + 1 && applied == itfOf(recvOf(ranM)) && applyRes == nil
  ensures prototype_kept: forall w reflect.Value :: {applyHeld[w]} 0 <= slot(w) && slot(w) < old(news) ==> applyHeld[w] == old(held)[w]
  ensures one_per_parameter: ranN == ranM.Type().NumIn()
  ensures captured: forall k int :: {ranIn[k]} 0 <= k && k < ranN && k < len(params) ==> carries(ranIn[k], ranHeld, ranM.Type().In(k), old(params[k][keyAt(params[k])]))
  ensures zero: forall k int :: {ranIn[k]} 0 <= k && k < ranN && (k >= len(params) || !known(ranM.Type().In(k))) ==> slot(ranIn[k]) >= old(news) && ranHeld[ranIn[k]] == zeroV(ranM.Type().In(k))
  ensures_panic no_action: !hasMethod(ptrTo(typ), action) ==> ran == old(ran) && applies == old(applies)
  ensures_panic unresolved: applies > old(applies) && applyRes != nil ==> ran == old(ran)
  inv [i int, in []reflect.Value] len(in) == i && 0 <= i
  inv [i int, actionTyp outer reflect.Type] i <= actionTyp.NumIn()
  inv [newStruct outer reflect.Value] news > old(news) && slot(elemOf(newStruct)) == old(news) && held[elemOf(newStruct)] == zeroV(typ)
  inv forall w reflect.Value :: {held[w]} 0 <= slot(w) && slot(w) < old(news) ==> held[w] == old(held)[w]
  inv [in []reflect.Value, actionTyp outer reflect.Type] forall k int :: {in[k]} 0 <= k && k < len(in) ==> in[k].IsValid() && assignable(in[k].Type(), actionTyp.In(k))
  inv [in []reflect.Value, actionTyp outer reflect.Type] forall k int :: {in[k]} 0 <= k && k < len(in) && k < len(params) ==> carries(in[k], held, actionTyp.In(k), params[k][keyAt(params[k])])
  inv [in []reflect.Value, actionTyp outer reflect.Type] forall k int :: {in[k]} 0 <= k && k < len(in) && k < len(params) && actionTyp.In(k).Kind() == 22 && (numeric(actionTyp.In(k).Elem().Kind()) || actionTyp.In(k).Elem().Kind() == 24) ==> old(news) < slot(elemOf(in[k])) && slot(elemOf(in[k])) < news
  inv [in []reflect.Value, actionTyp outer reflect.Type] forall k int :: {in[k]} 0 <= k && k < len(in) && (k >= len(params) || !known(actionTyp.In(k))) ==> old(news) < slot(in[k]) && slot(in[k]) < news && held[in[k]] == zeroV(actionTyp.In(k))
  inv [i outer int, param string, visited visited map[string]string] visited[keyAt(params[i])] ==> param == params[i][keyAt(params[i])]
