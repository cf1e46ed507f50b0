package github.com/wujiu2020/strip/utils

# ---- P29: values kept in a context ----
uninterp func ctxVal(c any, k any) any
uninterp func elemOf(v reflect.Value) reflect.Value
uninterp func addrOf(v reflect.Value) reflect.Value
# the stores made through reflection: how many, and the last one's target and source
ghost sets int
ghost setTo reflect.Value
ghost setFrom reflect.Value
# what is behind a pointer held by this value, read now
axiom forall v reflect.Value :: {v.Type()} v.IsValid() ==> v.Type() != nil && v.Type().Kind() == v.Kind()
axiom forall v reflect.Value :: {v.Kind()} v.IsValid() == (v.Kind() != 0)
axiom forall x any :: {reflect.ValueOf(x)} reflect.ValueOf(x).IsValid() == (x != nil)
axiom forall x any :: {reflect.TypeOf(x)} x != nil ==> reflect.TypeOf(x) == reflect.ValueOf(x).Type()
axiom forall t reflect.Type :: {t.Elem()} t.Kind() == 22 ==> t.Elem() != nil
axiom forall t reflect.Type :: {t.Kind()} t != nil ==> t.Kind() != 0

extern context.WithValue(ctx, k, v) (c)
  requires ctx != nil && k != nil
  ensures c != nil && ctxVal(c, k) == v && (forall q any :: {ctxVal(c, q)} q != k ==> ctxVal(c, q) == ctxVal(ctx, q))
iface (context.Context).Value(ctx, k) (v)
  requires ctx != nil
  ensures v == ctxVal(ctx, k)
extern (reflect.Value).Elem(v) (r)
  requires pointer: v.Kind() == 22
  ensures r == elemOf(v)
extern (reflect.Value).Addr(v) (r)
  requires v.CanSet()
  ensures r == addrOf(v)
extern (reflect.Value).IsNil(v) (b)
  requires nillable: 18 <= v.Kind() && v.Kind() <= 23
  ensures b == v.IsNil()
axiom forall v reflect.Value :: {elemOf(v)} v.Kind() == 22 ==> elemOf(v).IsValid() == !v.IsNil()
axiom forall v reflect.Value :: {elemOf(v)} v.Kind() == 22 && elemOf(v).IsValid() ==> elemOf(v).Type() == v.Type().Elem() && elemOf(v).CanSet()
axiom forall v reflect.Value :: {v.CanSet()} v.CanSet() ==> v.IsValid()
axiom forall v reflect.Value :: {addrOf(v)} v.CanSet() ==> addrOf(v).IsValid() && addrOf(v).Kind() == 22 && addrOf(v).Type().Elem() == v.Type()
extern (reflect.Value).Set(v, x)
  requires settable: v.CanSet()
  requires same_type: x.IsValid() && (x.Type() == v.Type() || x.Kind() == 22 && v.Kind() == 22 && x.Type().Elem() == v.Type().Elem())
  modifies sets, setTo, setFrom
  effect sets = old(sets) + 1
  effect setTo = v
  effect setFrom = x

# the type a pointer, or a pointer to a pointer, is about
pure func about(t reflect.Type) reflect.Type = ite(t.Elem().Kind() == 22, t.Elem().Elem(), t.Elem())
pure func extra(names []string) string = ite(len(names) > 0, names[0], "")
pure func accepted(x any) bool = x != nil && reflect.TypeOf(x).Kind() == 22 && about(reflect.TypeOf(x)).Kind() != 22 && !basic(about(reflect.TypeOf(x)))
uninterp func kindName(k reflect.Kind) string
extern (reflect.Kind).String(k) (s)
  ensures s == kindName(k)
pure func basic(t reflect.Type) bool = kindName(t.Kind()) == t.String()

uninterp func named(t reflect.Type, x string) string
axiom forall t reflect.Type, x string :: {named(t, x)} named(t, x) == t.PkgPath() + ":" + t.Name() + ":" + x
# the place of a type and a name in a context
uninterp func keyFor(t reflect.Type, x string) typeKey
axiom forall t reflect.Type, x string :: {keyFor(t, x)} keyFor(t, x).typ == t && keyFor(t, x).name == named(t, x)
pure func kept(ctx any, t reflect.Type, x string) any = ctxVal(ctx, box(keyFor(t, x), typeKey))

func ctxKey(value, extraNames) (k)
  props P29
  new
  panics when !accepted(value)
  ensures place: k == keyFor(about(reflect.TypeOf(value)), extra(extraNames))

func CtxWithValue(ctx, value, extraName) (c)
  props P29
  requires nn: ctx != nil
  new
  panics when !accepted(value)
  ensures stored: c != nil && kept(c, about(reflect.TypeOf(value)), extra(extraName)) == value
  ensures others_kept: forall t reflect.Type, x string :: {kept(c, t, x)} t != about(reflect.TypeOf(value)) || x != extra(extraName) ==> kept(c, t, x) == kept(ctx, t, x)
  ensures foreign_kept: forall q any :: {ctxVal(c, q)} !is(q, typeKey) ==> ctxVal(c, q) == ctxVal(ctx, q)

# what CtxWithValue stored under the private key: pointers to the type, or to pointers to it (CtxWithValue/stored, accepted)
axiom forall ctx any, t reflect.Type, x string :: {kept(ctx, t, x)} let v = kept(ctx, t, x) in v != nil ==> accepted(v) && about(reflect.TypeOf(v)) == t

pure func target(x any) reflect.Value = elemOf(reflect.ValueOf(x))
pure func isPP(x any) bool = reflect.TypeOf(x).Elem().Kind() == 22
# nothing behind it that the target could take
pure func hollow(v any, value any) bool = reflect.ValueOf(v).IsNil() || isPP(v) && !isPP(value) && target(v).IsNil()

func CtxFindValue(ctx, value, extraName) (err)
  props P29
  requires nn: ctx != nil
  let v = kept(ctx, about(reflect.TypeOf(value)), extra(extraName))
  new
  modifies sets, setTo, setFrom
  panics when !accepted(value) || reflect.ValueOf(value).IsNil()
  ensures missing: v == nil ==> err == CtxValueNotFound && sets == old(sets)
  ensures nothing: v != nil && hollow(v, value) ==> err == nil && sets == old(sets)
  ensures found: v != nil && !hollow(v, value) ==> err == nil && sets == old(sets) + 1 && setTo == target(value) && setFrom == ite(isPP(value) == isPP(v), target(v), ite(isPP(value), addrOf(target(v)), elemOf(target(v))))

func MustCtxFindValue(ctx, value, extraName)
  props P29
  requires nn: ctx != nil
  let v = kept(ctx, about(reflect.TypeOf(value)), extra(extraName))
  new
  modifies sets, setTo, setFrom
  panics when !accepted(value) || reflect.ValueOf(value).IsNil() || v == nil && CtxValueNotFound != nil
  ensures found: v != nil && !hollow(v, value) ==> sets == old(sets) + 1 && setTo == target(value) && setFrom == ite(isPP(value) == isPP(v), target(v), ite(isPP(value), addrOf(target(v)), elemOf(target(v))))
