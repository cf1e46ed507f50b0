package github.com/wujiu2020/strip/params

# ---- P12: binding a parameter ----
# the kinds and types a binder is registered for (assumed of the binder tables; init fills them so, see DESIGN.md)
uninterp func suits(f func(string, reflect.Type) reflect.Value, t reflect.Type) bool
uninterp func binds(f func(*Params, string, reflect.Type) reflect.Value, t reflect.Type) bool
# r is what f makes of a text
uninterp func made(f func(string, reflect.Type) reflect.Value, val string, t reflect.Type, r reflect.Value) bool
uninterp func zeroV(t reflect.Type) reflect.Value
uninterp func timeType() reflect.Type
uninterp func lenOf(v reflect.Value) int
ghost ints arr[reflect.Value->int]
ghost floats arr[reflect.Value->float64]

axiom forall x time.Time :: {reflect.ValueOf(box(x, time.Time))} reflect.ValueOf(box(x, time.Time)).Type() == timeType()

axiom forall f func(string, reflect.Type) reflect.Value, t reflect.Type :: {suits(f, t)} suits(f, t) ==> f != nil
axiom forall f func(*Params, string, reflect.Type) reflect.Value, t reflect.Type :: {binds(f, t)} binds(f, t) ==> f != nil
axiom timeType() != nil

funcval func(string, reflect.Type) reflect.Value : (f, val, typ) (r)
  requires suits: typ != nil && suits(f, typ)
  modifies held, ints, floats
  ensures r.IsValid() && r.Type().ConvertibleTo(typ) && made(f, val, typ, r)

funcval func(*Params, string, reflect.Type) reflect.Value : (f, params, name, typ) (r)
  requires binds: params != nil && typ != nil && binds(f, typ)
  modifies held, ints, floats
  ensures r.IsValid() && r.Type().ConvertibleTo(typ)

extern reflect.Zero(t) (r)
  requires t != nil
  ensures r == zeroV(t) && r.IsValid() && r.Type() == t

# a number is stored only where it fits: anything else would be truncated silently
extern (reflect.Value).SetInt(v, i)
  requires settable: v.CanSet() && v.Kind() >= 2 && v.Kind() <= 6
  requires exact: let b = v.Type().Bits() in (b == 8 ==> 0-128 <= i && i <= 127) && (b == 16 ==> 0-32768 <= i && i <= 32767) && (b == 32 ==> 0-2147483648 <= i && i <= 2147483647) && (b == 8 || b == 16 || b == 32 || b == 64)
  modifies ints
  effect ints = update(old(ints), v, i)

extern (reflect.Value).SetUint(v, i)
  requires settable: v.CanSet() && v.Kind() >= 7 && v.Kind() <= 11
  requires exact: let b = v.Type().Bits() in (b == 8 ==> i <= 255) && (b == 16 ==> i <= 65535) && (b == 32 ==> i <= 4294967295) && (b == 8 || b == 16 || b == 32 || b == 64)
  modifies ints
  effect ints = update(old(ints), v, i)

# a 32-bit target is given only numbers parsed at 32 bits
uninterp func f32ok(f float64) bool
extern (reflect.Value).SetFloat(v, f)
  requires settable: v.CanSet() && (v.Kind() == 13 || v.Kind() == 14)
  requires exact: v.Type().Bits() == 32 ==> f32ok(f)
  modifies floats
  effect floats = update(old(floats), v, f)
axiom forall s string :: {floatOf(s, 32)} floatOK(s, 32) ==> f32ok(floatOf(s, 32))

func init$1(val, typ) (r)
  props P12
  requires kind: typ != nil && typ.Kind() >= 2 && typ.Kind() <= 6
  modifies ints
  ensures valid: r.IsValid() && r.Type() == typ
  ensures exact: intOK(val, 10, typ.Bits()) && val != "" ==> ints[r] == intOf(val, 10)
  ensures malformed: val == "" || !intOK(val, 10, typ.Bits()) ==> r == zeroV(typ) && ints == old(ints)

func init$2(val, typ) (r)
  props P12
  requires kind: typ != nil && typ.Kind() >= 7 && typ.Kind() <= 11
  modifies ints
  ensures valid: r.IsValid() && r.Type() == typ
  ensures exact: uintOK(val, 10, typ.Bits()) && val != "" ==> ints[r] == uintOf(val, 10)
  ensures malformed: val == "" || !uintOK(val, 10, typ.Bits()) ==> r == zeroV(typ) && ints == old(ints)

func init$3(val, typ) (r)
  props P12
  requires kind: typ != nil && (typ.Kind() == 13 || typ.Kind() == 14)
  modifies floats
  ensures valid: r.IsValid() && r.Type() == typ
  ensures exact: floatOK(val, typ.Bits()) && val != "" ==> floats[r] == floatOf(val, typ.Bits())
  ensures malformed: val == "" || !floatOK(val, typ.Bits()) ==> r == zeroV(typ) && floats == old(floats)

func init$4(val, typ) (r)
  props P12
  requires kind: typ != nil && typ.Kind() == 24
  ensures valid: r.IsValid() && r.Type().ConvertibleTo(typ)
  ensures exact: content(r) == box(val, string)

func init$5(val, typ) (r)
  props P12
  requires kind: typ != nil && typ.Kind() == 1
  ensures valid: r.IsValid() && r.Type().ConvertibleTo(typ)
  ensures exact: let v = strings.TrimSpace(strings.ToLower(val)) in content(r) == box(v == "true" || v == "on" || v == "1", bool)

func init$6(params, name, typ) (r)
  props P12
  requires kind: params != nil && typ != nil && typ.Kind() == 22
  modifies held, ints, floats
  new
  ensures valid: r.IsValid() && r.Type().ConvertibleTo(typ)
  ensures absent: !has(params.Values, name) || len(params.Values[name]) == 0 ==> r == zeroV(typ)
  ensures present: has(params.Values, name) && len(params.Values[name]) > 0 ==> r.Kind() == 22

func init$7(val, typ) (r)
  props P12
  requires kind: typ == timeType()
  ensures valid: r.IsValid() && r.Type().ConvertibleTo(typ)

func ValueBinder$1(params, name, typ) (r)
  props P12
  requires suits: params != nil && typ != nil && suits(*f, typ)
  modifies held, ints, floats
  new
  ensures valid: r.IsValid() && r.Type().ConvertibleTo(typ)
  ensures absent: !has(params.Values, name) || len(params.Values[name]) == 0 ==> r == zeroV(typ)
  ensures first: has(params.Values, name) && len(params.Values[name]) > 0 ==> made(*f, old(params.Values[name][0]), typ, r)

axiom forall t reflect.Type :: {reflect.PtrTo(t)} t != nil ==> reflect.PtrTo(t) != nil && reflect.PtrTo(t).Kind() == 22
axiom forall t reflect.Type :: {t.Elem()} t.Kind() == 22 ==> reflect.PtrTo(t.Elem()).ConvertibleTo(t)

extern (reflect.Value).Addr(v) (r)
  requires v.CanSet()
  ensures r.IsValid() && r.Type() == reflect.PtrTo(v.Type()) && elemOf(r) == v

extern strings.IndexAny(s, chars) (r)
  ensures 0-1 <= r && r < len(s)
  ensures chars == ".[" && r < 0 ==> !contains(s, ".") && !contains(s, "[")
  ensures chars == ".[" && r >= 0 ==> !contains(s[:r], ".") && !contains(s[:r], "[")

func nextKey(key) (r)
  props P12
  ensures prefix: hasPrefix(key, r)
  ensures stops: !contains(r, ".") && !contains(r, "[")

func binderForType(typ) (binder, ok)
  trusted the binder tables hold for each type a binder for it
  requires typ != nil
  ensures ok ==> binds(binder.Bind, typ)

func Bind(params, name, typ) (r)
  props P12
  requires nn: params != nil && typ != nil
  modifies held, ints, floats
  new
  ensures valid: r.IsValid()
  ensures typed: r.Type() == typ

func BindValue(val, typ) (r)
  props P12
  requires nn: typ != nil
  modifies held, ints, floats
  new
  ensures typed: r.IsValid() && r.Type() == typ

func BindFile(fileHeader, typ) (r)
  props P12
  requires nn: typ != nil
  modifies held, ints, floats
  new
  ensures typed: r.IsValid() && r.Type() == typ

# ---- slices: no index a client sends makes the result huge or is out of range ----
uninterp func mapKey(t reflect.Type) reflect.Type
extern reflect.MakeSlice(t, n, c) (r)
  requires slice: t != nil && t.Kind() == 23
  requires size: 0 <= n && n <= c && n <= ite(MaxSliceIndex < 0, 0, MaxSliceIndex + 1)
  ensures r.IsValid() && r.Type() == t && lenOf(r) == n && r.Kind() == 23

extern (reflect.Value).Index(v, i) (r)
  requires range: v.Kind() == 23 && 0 <= i && i < lenOf(v)
  ensures r.IsValid() && r.CanSet() && r.Type() == v.Type().Elem()

extern reflect.Append(s, x) (r)
  requires slice: s.Kind() == 23
  requires assignable: forall i int :: {x[i]} 0 <= i && i < len(x) ==> x[i].IsValid() && assignable(x[i].Type(), s.Type().Elem())
  ensures r.IsValid() && r.Type() == s.Type() && r.Kind() == 23 && lenOf(r) == lenOf(s) + len(x)

func bindSlice$1(key, vals, files)
  inline

func bindSlice$2(key) (r)
  inline

func bindSlice(params, name, typ) (r)
  props P12
  requires kind: params != nil && typ != nil && typ.Kind() == 23
  modifies held, ints, floats
  new
  ensures valid: r.IsValid() && r.Type() == typ
  inv [maxIndex cell int] 0-1 <= maxIndex && maxIndex <= ite(MaxSliceIndex < 0, 0-1, MaxSliceIndex)
  inv [numNoIndex cell int] 0 <= numNoIndex
  inv [sliceValues cell []sliceValue, maxIndex cell int] forall i int :: {sliceValues[i].index} 0 <= i && i < len(sliceValues) ==> 0-1 <= sliceValues[i].index && sliceValues[i].index <= maxIndex
  inv [sliceValues cell []sliceValue] fresh(sliceValues)
  inv [sliceValues cell []sliceValue] forall i int :: {sliceValues[i].value} 0 <= i && i < len(sliceValues) ==> sliceValues[i].value.IsValid() && sliceValues[i].value.Type() == typ.Elem()
  inv [resultArray reflect.Value] resultArray.IsValid() && resultArray.Type() == typ && resultArray.Kind() == 23
  inv [resultArray reflect.Value, maxIndex cell int] lenOf(resultArray) >= maxIndex + 1

# ---- maps ----
extern (net/url.Values).Get(v, key) (r)
  ensures r == ite(has(v, key) && len(v[key]) > 0, v[key][0], "")

extern encoding/json.NewDecoder(r) (d)
  ensures d != nil

extern (*encoding/json.Decoder).UseNumber(d)
  requires d != nil

extern (*encoding/json.Decoder).Decode(d, v) (err)
  requires target: d != nil && is(v, *map[string]interface{})
  modifies deref(as(v, *map[string]interface{})), entries(*as(v, *map[string]interface{}))
  new

extern strings.NewReader(s) (r)
  ensures r != nil

extern reflect.MakeMap(t) (r)
  requires map: t != nil && t.Kind() == 21
  ensures r.IsValid() && r.Type() == t && r.Kind() == 21

extern (reflect.Value).SetMapIndex(m, k, v)
  requires map: m.IsValid() && m.Kind() == 21
  requires key: k.IsValid() && assignable(k.Type(), m.Type().Key())
  requires value: v.IsValid() && assignable(v.Type(), m.Type().Elem())

func bindMap(params, name, typ) (r)
  props P12
  requires kind: params != nil && typ != nil && typ.Kind() == 21
  modifies held, ints, floats
  new
  ensures valid: r.IsValid() && r.Type() == typ

# ---- structs ----
# i is a field of struct type t, of type fieldType(t, i)
uninterp func hasField(t reflect.Type, i int) bool
uninterp func fieldType(t reflect.Type, i int) reflect.Type
pure func under(t reflect.Type) reflect.Type = ite(t.Kind() == 22, t.Elem(), t)
rec func pathOK(t reflect.Type, p []int, i int) bool = i >= len(p) || t != nil && hasField(under(t), p[i]) && pathOK(fieldType(under(t), p[i]), p, i+1)
  reads elems int
rec func pathType(t reflect.Type, p []int, i int) reflect.Type = ite(i >= len(p), t, pathType(fieldType(under(t), p[i]), p, i+1))
  reads elems int

extern (reflect.Value).Field(v, i) (r)
  requires struct: v.IsValid() && hasField(v.Type(), i)
  ensures r == fieldAt(v, i)

iface (reflect.Type).FieldByName(t, name) (f, ok)
  ensures ok ==> pathOK(t, f.Index, 0) && pathType(t, f.Index, 0) == f.Type && len(f.Index) > 0

func fieldByIndex(v, index) (r)
  props P12
  requires path: v.IsValid() && pathOK(v.Type(), index, 0)
  modifies held
  ensures found: r.IsValid() ==> r.Type() == pathType(t0, index, 0)
  let t0 = v.Type()
  inv [w reflect.Value, i int] w.IsValid() && i >= 0-1 && pathOK(w.Type(), index, i+1) && pathType(w.Type(), index, i+1) == pathType(t0, index, 0)

func bindStruct(params, name, typ) (r)
  props P12
  requires kind: params != nil && typ != nil && typ.Kind() == 25
  modifies held, ints, floats
  new
  ensures valid: r.IsValid() && r.Type() == typ

# ---- binding into a struct ----
# v is part of a settable struct: its exported fields can be set
uninterp func holds(v reflect.Value) bool
axiom forall v reflect.Value :: {v.CanSet()} v.CanSet() ==> holds(v)
axiom forall v reflect.Value, i int :: {hasField(v.Type(), i)} v.IsValid() && v.Kind() == 25 && 0 <= i && i < v.NumField() ==> hasField(v.Type(), i)
axiom forall t reflect.Type, i int :: {t.Field(i)} hasField(t, i) ==> t.Field(i).Type != nil && t.Field(i).Type == fieldType(t, i)
# the fields of v are what Field gives; exported ones of a held struct can be set
uninterp func fieldAt(v reflect.Value, i int) reflect.Value
axiom forall v reflect.Value, i int :: {fieldAt(v, i)} hasField(v.Type(), i) ==> fieldAt(v, i).IsValid() && fieldAt(v, i).Type() == fieldType(v.Type(), i) && (holds(v) && v.Type().Field(i).PkgPath == "" ==> fieldAt(v, i).CanSet()) && (holds(v) && v.Type().Field(i).Anonymous ==> holds(fieldAt(v, i)))
axiom forall v reflect.Value :: {elemOf(v)} v.Kind() == 22 && holds(v) ==> holds(elemOf(v))

extern (reflect.Value).Pointer(v) (r)
  requires v.Kind() == 22

extern (reflect.StructTag).Get(t, key) (r)

extern reflect.Indirect(v) (r)
  ensures v.Kind() != 22 ==> r == v
  ensures v.Kind() == 22 ==> r == elemOf(v) && (v.IsValid() && !v.IsNil() ==> r.IsValid()) && (r.IsValid() ==> r.Type() == v.Type().Elem())

func (*Params).bindValuesToStruct(p, elm, pointerMap) (exits)
  props P12
  requires struct: p != nil && pointerMap != nil && elm.IsValid() && elm.Kind() == 25 && holds(elm)
  modifies held, ints, floats, entries(pointerMap)
  new
  inv [i int] 0 <= i

func (*Params).BindValuesToStruct(p, dest)
  props P12
  requires target: p != nil && reflect.ValueOf(dest).IsValid() && reflect.ValueOf(dest).Kind() == 22 && !reflect.ValueOf(dest).IsNil() && elemOf(reflect.ValueOf(dest)).Kind() == 25 && holds(elemOf(reflect.ValueOf(dest)))
  modifies held, ints, floats
  new

func (*Params).Bind(p, dest, name)
  props P12
  requires nn: p != nil && reflect.ValueOf(dest).IsValid()
  modifies held, ints, floats
  new
  panics_only when reflect.ValueOf(dest).Kind() != 22 || !elemOf(reflect.ValueOf(dest)).CanSet()
