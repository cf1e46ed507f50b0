package github.com/wujiu2020/strip

# ---- reflection: what the checks assume of package reflect ----
# what a reflect.Value holds, read as the basic type of its kind
uninterp func content(v reflect.Value) any
axiom forall x any :: {reflect.ValueOf(x)} content(reflect.ValueOf(x)) == x && reflect.ValueOf(x).IsValid() == (x != nil)
axiom forall x bool :: {reflect.ValueOf(box(x, bool))} reflect.ValueOf(box(x, bool)).Kind() == 1
axiom forall x int :: {reflect.ValueOf(box(x, int))} reflect.ValueOf(box(x, int)).Kind() == 2
axiom forall x int8 :: {reflect.ValueOf(box(x, int8))} reflect.ValueOf(box(x, int8)).Kind() == 3
axiom forall x int16 :: {reflect.ValueOf(box(x, int16))} reflect.ValueOf(box(x, int16)).Kind() == 4
axiom forall x int32 :: {reflect.ValueOf(box(x, int32))} reflect.ValueOf(box(x, int32)).Kind() == 5
axiom forall x int64 :: {reflect.ValueOf(box(x, int64))} reflect.ValueOf(box(x, int64)).Kind() == 6
axiom forall x uint :: {reflect.ValueOf(box(x, uint))} reflect.ValueOf(box(x, uint)).Kind() == 7
axiom forall x uint8 :: {reflect.ValueOf(box(x, uint8))} reflect.ValueOf(box(x, uint8)).Kind() == 8
axiom forall x uint16 :: {reflect.ValueOf(box(x, uint16))} reflect.ValueOf(box(x, uint16)).Kind() == 9
axiom forall x uint32 :: {reflect.ValueOf(box(x, uint32))} reflect.ValueOf(box(x, uint32)).Kind() == 10
axiom forall x uint64 :: {reflect.ValueOf(box(x, uint64))} reflect.ValueOf(box(x, uint64)).Kind() == 11
axiom forall x float32 :: {reflect.ValueOf(box(x, float32))} reflect.ValueOf(box(x, float32)).Kind() == 13
axiom forall x float64 :: {reflect.ValueOf(box(x, float64))} reflect.ValueOf(box(x, float64)).Kind() == 14
axiom forall x string :: {reflect.ValueOf(box(x, string))} reflect.ValueOf(box(x, string)).Kind() == 24
axiom forall v reflect.Value :: {v.Type()} v.IsValid() ==> v.Type() != nil && v.Type().Kind() == v.Kind()
# a value of a basic kind converts to every type of its kind
axiom forall x any, t reflect.Type :: {reflect.ValueOf(x).Type().ConvertibleTo(t)} x != nil && t.Kind() == reflect.ValueOf(x).Kind() && (t.Kind() <= 14 || t.Kind() == 24) ==> reflect.ValueOf(x).Type().ConvertibleTo(t)
axiom forall v reflect.Value :: {v.CanSet()} v.CanSet() ==> v.IsValid()
axiom forall t reflect.Type :: {t.ConvertibleTo(t)} t.ConvertibleTo(t)
axiom forall t reflect.Type :: {t.Bits()} ite(t.Kind() == 3 || t.Kind() == 8, t.Bits() == 8, ite(t.Kind() == 4 || t.Kind() == 9, t.Bits() == 16, ite(t.Kind() == 5 || t.Kind() == 10 || t.Kind() == 13, t.Bits() == 32, t.Kind() == 2 || t.Kind() == 6 || t.Kind() == 7 || t.Kind() == 11 || t.Kind() == 14 ==> t.Bits() == 64)))

extern (reflect.Value).Convert(v, t) (r)
  requires convertible: v.IsValid() && v.Type().ConvertibleTo(t)
  ensures r.IsValid() && r.Type() == t && content(r) == content(v)

# what reflection stored into a settable value
ghost held arr[reflect.Value->reflect.Value]
uninterp func assignable(t reflect.Type, u reflect.Type) bool
axiom forall t reflect.Type :: {assignable(t, t)} assignable(t, t)

# where a pointer points: the location, whatever is stored there
uninterp func elemOf(v reflect.Value) reflect.Value
extern (reflect.Value).Elem(v) (r)
  requires pointer: v.Kind() == 22
  ensures r == elemOf(v)
  ensures v.IsValid() && elemOf(v).IsValid() ==> elemOf(v).Type() == v.Type().Elem()
  ensures v.IsValid() && (!v.IsNil() || held[v].IsValid() && !held[v].IsNil()) ==> elemOf(v).IsValid()

extern (reflect.Value).Set(v, x)
  requires settable: v.IsValid() && v.CanSet()
  requires assignable: x.IsValid() && assignable(x.Type(), v.Type())
  modifies held
  effect held = update(old(held), v, x)
