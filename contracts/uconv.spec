package github.com/wujiu2020/strip/utils

# generated by tools/genconv.py
# ---- P11 ----

uninterp func shown(v any) string

func ToStr(value, args) (s)
  trusted the text of any value
  new
  ensures s == shown(value)

pure func textOf(v *Value) string = ite(is(v.value, string), as(v.value, string), ite(v.value == nil, "", shown(v.value)))

func (*Value).String(v) (s)
  props P11
  requires nn: v != nil
  new
  ensures text: s == textOf(v)

func (*Value).IsNil(v) (b)
  props P11
  requires nn: v != nil
  ensures def: b == (v.value == nil)

func (StrTo).Bool(f) (v, err)
  props P11
  ensures denoted: (err == nil) == (f == "on" || boolOK(f))
  ensures value: err == nil ==> v == ite(f == "on", true, boolOf(f))

func (*Value).Bool(v) (r, err)
  props P11
  requires nn: v != nil
  new
  ensures same: is(v.value, bool) ==> err == nil && r == as(v.value, bool)
  ensures denoted: !is(v.value, bool) ==> (err == nil) == (v.value == box("on", string) || boolOK(textOf(v)))
  ensures value: !is(v.value, bool) && err == nil ==> r == ite(v.value == box("on", string), true, boolOf(textOf(v)))

func (StrTo).Int(f) (v, err)
  props P11
  ensures denoted: (err == nil) == intOK(f, 10, 64)
  ensures value: err == nil ==> v == intOf(f, 10)

func (*Value).Int(v) (r, err)
  props P11
  requires nn: v != nil
  new
  ensures same: is(v.value, int) ==> err == nil && r == as(v.value, int)
  ensures denoted: !is(v.value, int) ==> (err == nil) == intOK(textOf(v), 10, 64)
  ensures value: !is(v.value, int) && err == nil ==> r == intOf(textOf(v), 10)

func (StrTo).Int8(f) (v, err)
  props P11
  ensures denoted: (err == nil) == intOK(f, 10, 8)
  ensures value: err == nil ==> v == intOf(f, 10)

func (*Value).Int8(v) (r, err)
  props P11
  requires nn: v != nil
  new
  ensures same: is(v.value, int8) ==> err == nil && r == as(v.value, int8)
  ensures denoted: !is(v.value, int8) ==> (err == nil) == intOK(textOf(v), 10, 8)
  ensures value: !is(v.value, int8) && err == nil ==> r == intOf(textOf(v), 10)

func (StrTo).Int16(f) (v, err)
  props P11
  ensures denoted: (err == nil) == intOK(f, 10, 16)
  ensures value: err == nil ==> v == intOf(f, 10)

func (*Value).Int16(v) (r, err)
  props P11
  requires nn: v != nil
  new
  ensures same: is(v.value, int16) ==> err == nil && r == as(v.value, int16)
  ensures denoted: !is(v.value, int16) ==> (err == nil) == intOK(textOf(v), 10, 16)
  ensures value: !is(v.value, int16) && err == nil ==> r == intOf(textOf(v), 10)

func (StrTo).Int32(f) (v, err)
  props P11
  ensures denoted: (err == nil) == intOK(f, 10, 32)
  ensures value: err == nil ==> v == intOf(f, 10)

func (*Value).Int32(v) (r, err)
  props P11
  requires nn: v != nil
  new
  ensures same: is(v.value, int32) ==> err == nil && r == as(v.value, int32)
  ensures denoted: !is(v.value, int32) ==> (err == nil) == intOK(textOf(v), 10, 32)
  ensures value: !is(v.value, int32) && err == nil ==> r == intOf(textOf(v), 10)

func (StrTo).Int64(f) (v, err)
  props P11
  ensures denoted: (err == nil) == intOK(f, 10, 64)
  ensures value: err == nil ==> v == intOf(f, 10)

func (*Value).Int64(v) (r, err)
  props P11
  requires nn: v != nil
  new
  ensures same: is(v.value, int64) ==> err == nil && r == as(v.value, int64)
  ensures denoted: !is(v.value, int64) ==> (err == nil) == intOK(textOf(v), 10, 64)
  ensures value: !is(v.value, int64) && err == nil ==> r == intOf(textOf(v), 10)

func (StrTo).Uint(f) (v, err)
  props P11
  ensures denoted: (err == nil) == uintOK(f, 10, 64)
  ensures value: err == nil ==> v == uintOf(f, 10)

func (*Value).Uint(v) (r, err)
  props P11
  requires nn: v != nil
  new
  ensures same: is(v.value, uint) ==> err == nil && r == as(v.value, uint)
  ensures denoted: !is(v.value, uint) ==> (err == nil) == uintOK(textOf(v), 10, 64)
  ensures value: !is(v.value, uint) && err == nil ==> r == uintOf(textOf(v), 10)

func (StrTo).Uint8(f) (v, err)
  props P11
  ensures denoted: (err == nil) == uintOK(f, 10, 8)
  ensures value: err == nil ==> v == uintOf(f, 10)

func (*Value).Uint8(v) (r, err)
  props P11
  requires nn: v != nil
  new
  ensures same: is(v.value, uint8) ==> err == nil && r == as(v.value, uint8)
  ensures denoted: !is(v.value, uint8) ==> (err == nil) == uintOK(textOf(v), 10, 8)
  ensures value: !is(v.value, uint8) && err == nil ==> r == uintOf(textOf(v), 10)

func (StrTo).Uint16(f) (v, err)
  props P11
  ensures denoted: (err == nil) == uintOK(f, 10, 16)
  ensures value: err == nil ==> v == uintOf(f, 10)

func (*Value).Uint16(v) (r, err)
  props P11
  requires nn: v != nil
  new
  ensures same: is(v.value, uint16) ==> err == nil && r == as(v.value, uint16)
  ensures denoted: !is(v.value, uint16) ==> (err == nil) == uintOK(textOf(v), 10, 16)
  ensures value: !is(v.value, uint16) && err == nil ==> r == uintOf(textOf(v), 10)

func (StrTo).Uint32(f) (v, err)
  props P11
  ensures denoted: (err == nil) == uintOK(f, 10, 32)
  ensures value: err == nil ==> v == uintOf(f, 10)

func (*Value).Uint32(v) (r, err)
  props P11
  requires nn: v != nil
  new
  ensures same: is(v.value, uint32) ==> err == nil && r == as(v.value, uint32)
  ensures denoted: !is(v.value, uint32) ==> (err == nil) == uintOK(textOf(v), 10, 32)
  ensures value: !is(v.value, uint32) && err == nil ==> r == uintOf(textOf(v), 10)

func (StrTo).Uint64(f) (v, err)
  props P11
  ensures denoted: (err == nil) == uintOK(f, 10, 64)
  ensures value: err == nil ==> v == uintOf(f, 10)

func (*Value).Uint64(v) (r, err)
  props P11
  requires nn: v != nil
  new
  ensures same: is(v.value, uint64) ==> err == nil && r == as(v.value, uint64)
  ensures denoted: !is(v.value, uint64) ==> (err == nil) == uintOK(textOf(v), 10, 64)
  ensures value: !is(v.value, uint64) && err == nil ==> r == uintOf(textOf(v), 10)

func (StrTo).Float32(f) (v, err)
  props P11
  ensures denoted: (err == nil) == floatOK(f, 32)
  ensures value: err == nil ==> v == float32(floatOf(f, 32))

func (*Value).Float32(v) (r, err)
  props P11
  requires nn: v != nil
  new
  ensures same: is(v.value, float32) ==> err == nil && r == as(v.value, float32)
  ensures denoted: !is(v.value, float32) ==> (err == nil) == floatOK(textOf(v), 32)
  ensures value: !is(v.value, float32) && err == nil ==> r == float32(floatOf(textOf(v), 32))

func (StrTo).Float64(f) (v, err)
  props P11
  ensures denoted: (err == nil) == floatOK(f, 64)
  ensures value: err == nil ==> v == float64(floatOf(f, 64))

func (*Value).Float64(v) (r, err)
  props P11
  requires nn: v != nil
  new
  ensures same: is(v.value, float64) ==> err == nil && r == as(v.value, float64)
  ensures denoted: !is(v.value, float64) ==> (err == nil) == floatOK(textOf(v), 64)
  ensures value: !is(v.value, float64) && err == nil ==> r == float64(floatOf(textOf(v), 64))

func (StrTo).MustInt(f) (v)
  props P11
  ensures value: intOK(f, 10, 64) ==> v == intOf(f, 10)

func (*Value).MustInt(v) (ret)
  props P11
  requires nn: v != nil
  new
  ensures same: is(v.value, int) ==> ret == as(v.value, int)
  ensures value: !is(v.value, int) && (intOK(textOf(v), 10, 64)) ==> ret == intOf(textOf(v), 10)

func (StrTo).MustInt8(f) (v)
  props P11
  ensures value: intOK(f, 10, 8) ==> v == intOf(f, 10)

func (*Value).MustInt8(v) (ret)
  props P11
  requires nn: v != nil
  new
  ensures same: is(v.value, int8) ==> ret == as(v.value, int8)
  ensures value: !is(v.value, int8) && (intOK(textOf(v), 10, 8)) ==> ret == intOf(textOf(v), 10)

func (StrTo).MustInt16(f) (v)
  props P11
  ensures value: intOK(f, 10, 16) ==> v == intOf(f, 10)

func (*Value).MustInt16(v) (ret)
  props P11
  requires nn: v != nil
  new
  ensures same: is(v.value, int16) ==> ret == as(v.value, int16)
  ensures value: !is(v.value, int16) && (intOK(textOf(v), 10, 16)) ==> ret == intOf(textOf(v), 10)

func (StrTo).MustInt32(f) (v)
  props P11
  ensures value: intOK(f, 10, 32) ==> v == intOf(f, 10)

func (*Value).MustInt32(v) (ret)
  props P11
  requires nn: v != nil
  new
  ensures same: is(v.value, int32) ==> ret == as(v.value, int32)
  ensures value: !is(v.value, int32) && (intOK(textOf(v), 10, 32)) ==> ret == intOf(textOf(v), 10)

func (StrTo).MustInt64(f) (v)
  props P11
  ensures value: intOK(f, 10, 64) ==> v == intOf(f, 10)

func (*Value).MustInt64(v) (ret)
  props P11
  requires nn: v != nil
  new
  ensures same: is(v.value, int64) ==> ret == as(v.value, int64)
  ensures value: !is(v.value, int64) && (intOK(textOf(v), 10, 64)) ==> ret == intOf(textOf(v), 10)

func (StrTo).MustUint(f) (v)
  props P11
  ensures value: uintOK(f, 10, 64) ==> v == uintOf(f, 10)

func (*Value).MustUint(v) (ret)
  props P11
  requires nn: v != nil
  new
  ensures same: is(v.value, uint) ==> ret == as(v.value, uint)
  ensures value: !is(v.value, uint) && (uintOK(textOf(v), 10, 64)) ==> ret == uintOf(textOf(v), 10)

func (StrTo).MustUint8(f) (v)
  props P11
  ensures value: uintOK(f, 10, 8) ==> v == uintOf(f, 10)

func (*Value).MustUint8(v) (ret)
  props P11
  requires nn: v != nil
  new
  ensures same: is(v.value, uint8) ==> ret == as(v.value, uint8)
  ensures value: !is(v.value, uint8) && (uintOK(textOf(v), 10, 8)) ==> ret == uintOf(textOf(v), 10)

func (StrTo).MustUint16(f) (v)
  props P11
  ensures value: uintOK(f, 10, 16) ==> v == uintOf(f, 10)

func (*Value).MustUint16(v) (ret)
  props P11
  requires nn: v != nil
  new
  ensures same: is(v.value, uint16) ==> ret == as(v.value, uint16)
  ensures value: !is(v.value, uint16) && (uintOK(textOf(v), 10, 16)) ==> ret == uintOf(textOf(v), 10)

func (StrTo).MustUint32(f) (v)
  props P11
  ensures value: uintOK(f, 10, 32) ==> v == uintOf(f, 10)

func (*Value).MustUint32(v) (ret)
  props P11
  requires nn: v != nil
  new
  ensures same: is(v.value, uint32) ==> ret == as(v.value, uint32)
  ensures value: !is(v.value, uint32) && (uintOK(textOf(v), 10, 32)) ==> ret == uintOf(textOf(v), 10)

func (StrTo).MustUint64(f) (v)
  props P11
  ensures value: uintOK(f, 10, 64) ==> v == uintOf(f, 10)

func (*Value).MustUint64(v) (ret)
  props P11
  requires nn: v != nil
  new
  ensures same: is(v.value, uint64) ==> ret == as(v.value, uint64)
  ensures value: !is(v.value, uint64) && (uintOK(textOf(v), 10, 64)) ==> ret == uintOf(textOf(v), 10)

func (StrTo).MustFloat32(f) (v)
  props P11
  ensures value: floatOK(f, 32) ==> v == float32(floatOf(f, 32))

func (*Value).MustFloat32(v) (ret)
  props P11
  requires nn: v != nil
  new
  ensures same: is(v.value, float32) ==> ret == as(v.value, float32)
  ensures value: !is(v.value, float32) && (floatOK(textOf(v), 32)) ==> ret == float32(floatOf(textOf(v), 32))

func (StrTo).MustFloat64(f) (v)
  props P11
  ensures value: floatOK(f, 64) ==> v == float64(floatOf(f, 64))

func (*Value).MustFloat64(v) (ret)
  props P11
  requires nn: v != nil
  new
  ensures same: is(v.value, float64) ==> ret == as(v.value, float64)
  ensures value: !is(v.value, float64) && (floatOK(textOf(v), 64)) ==> ret == float64(floatOf(textOf(v), 64))

func (StrTo).MustBool(f) (v)
  props P11
  ensures value: f == "on" || boolOK(f) ==> v == ite(f == "on", true, boolOf(f))

func (*Value).MustBool(v) (ret)
  props P11
  requires nn: v != nil
  new
  ensures same: is(v.value, bool) ==> ret == as(v.value, bool)
  ensures value: !is(v.value, bool) && (v.value == box("on", string) || boolOK(textOf(v))) ==> ret == ite(v.value == box("on", string), true, boolOf(textOf(v)))

