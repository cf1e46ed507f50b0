package github.com/wujiu2020/strip

# generated by tools/genconv.py
# ---- P11: text for a typed target ----

func (StrTo).Bool(f) (v, err)
  props P11
  ensures denoted: (err == nil) == (f == "on" || boolOK(f))
  ensures value: v == (f == "on" || boolOK(f) && boolOf(f))

func (StrTo).Int(f) (v, err)
  props P11
  ensures denoted: (err == nil) == intOK(f, 10, 64)
  ensures value: v == ite(intOK(f, 10, 64), intOf(f, 10), 0)

func (StrTo).Int8(f) (v, err)
  props P11
  ensures denoted: (err == nil) == intOK(f, 10, 8)
  ensures value: v == ite(intOK(f, 10, 8), intOf(f, 10), 0)

func (StrTo).Int16(f) (v, err)
  props P11
  ensures denoted: (err == nil) == intOK(f, 10, 16)
  ensures value: v == ite(intOK(f, 10, 16), intOf(f, 10), 0)

func (StrTo).Int32(f) (v, err)
  props P11
  ensures denoted: (err == nil) == intOK(f, 10, 32)
  ensures value: v == ite(intOK(f, 10, 32), intOf(f, 10), 0)

func (StrTo).Int64(f) (v, err)
  props P11
  ensures denoted: (err == nil) == intOK(f, 10, 64)
  ensures value: v == ite(intOK(f, 10, 64), intOf(f, 10), 0)

func (StrTo).Uint(f) (v, err)
  props P11
  ensures denoted: (err == nil) == uintOK(f, 10, 64)
  ensures value: v == ite(uintOK(f, 10, 64), uintOf(f, 10), 0)

func (StrTo).Uint8(f) (v, err)
  props P11
  ensures denoted: (err == nil) == uintOK(f, 10, 8)
  ensures value: v == ite(uintOK(f, 10, 8), uintOf(f, 10), 0)

func (StrTo).Uint16(f) (v, err)
  props P11
  ensures denoted: (err == nil) == uintOK(f, 10, 16)
  ensures value: v == ite(uintOK(f, 10, 16), uintOf(f, 10), 0)

func (StrTo).Uint32(f) (v, err)
  props P11
  ensures denoted: (err == nil) == uintOK(f, 10, 32)
  ensures value: v == ite(uintOK(f, 10, 32), uintOf(f, 10), 0)

func (StrTo).Uint64(f) (v, err)
  props P11
  ensures denoted: (err == nil) == uintOK(f, 10, 64)
  ensures value: v == ite(uintOK(f, 10, 64), uintOf(f, 10), 0)

func (StrTo).Float32(f) (v, err)
  props P11
  ensures denoted: (err == nil) == floatOK(f, 32)
  ensures value: floatOK(f, 32) ==> v == float32(floatOf(f, 32))
  ensures zero: !floatOK(f, 32) ==> v == float32(0)

func (StrTo).Float64(f) (v, err)
  props P11
  ensures denoted: (err == nil) == floatOK(f, 64)
  ensures value: floatOK(f, 64) ==> v == float64(floatOf(f, 64))
  ensures zero: !floatOK(f, 64) ==> v == float64(0)

# ---- text for a typed target ----
rec func indir(t reflect.Type) reflect.Type = ite(t.Kind() == 22, indir(t.Elem()), t)
func indirectType(typ) (r)
  props P11
  requires nn: typ != nil
  ensures def: r == indir(typ) && r != nil
  inv [t reflect.Type] indir(t) == indir(typ)
  inv [t reflect.Type] t != nil

func convertStringAsType(str, typ) (r)
  props P11
  requires nn: typ != nil
  new
  ensures of_target_type: r.IsValid() ==> r.Type() == indir(typ)
  ensures bool: indir(typ).Kind() == 1 ==> r.IsValid() && content(r) == box(str == "on" || boolOK(str) && boolOf(str), bool)
  ensures int: indir(typ).Kind() == 2 ==> r.IsValid() && content(r) == box(ite(intOK(str, 10, 64), intOf(str, 10), 0), int)
  ensures int8: indir(typ).Kind() == 3 ==> r.IsValid() && content(r) == box(ite(intOK(str, 10, 8), intOf(str, 10), 0), int8)
  ensures int16: indir(typ).Kind() == 4 ==> r.IsValid() && content(r) == box(ite(intOK(str, 10, 16), intOf(str, 10), 0), int16)
  ensures int32: indir(typ).Kind() == 5 ==> r.IsValid() && content(r) == box(ite(intOK(str, 10, 32), intOf(str, 10), 0), int32)
  ensures int64: indir(typ).Kind() == 6 ==> r.IsValid() && content(r) == box(ite(intOK(str, 10, 64), intOf(str, 10), 0), int64)
  ensures uint: indir(typ).Kind() == 7 ==> r.IsValid() && content(r) == box(ite(uintOK(str, 10, 64), uintOf(str, 10), 0), uint)
  ensures uint8: indir(typ).Kind() == 8 ==> r.IsValid() && content(r) == box(ite(uintOK(str, 10, 8), uintOf(str, 10), 0), uint8)
  ensures uint16: indir(typ).Kind() == 9 ==> r.IsValid() && content(r) == box(ite(uintOK(str, 10, 16), uintOf(str, 10), 0), uint16)
  ensures uint32: indir(typ).Kind() == 10 ==> r.IsValid() && content(r) == box(ite(uintOK(str, 10, 32), uintOf(str, 10), 0), uint32)
  ensures uint64: indir(typ).Kind() == 11 ==> r.IsValid() && content(r) == box(ite(uintOK(str, 10, 64), uintOf(str, 10), 0), uint64)
  ensures float32: indir(typ).Kind() == 13 ==> r.IsValid() && content(r) == box(ite(floatOK(str, 32), float32(floatOf(str, 32)), float32(0)), float32)
  ensures float64: indir(typ).Kind() == 14 ==> r.IsValid() && content(r) == box(ite(floatOK(str, 64), floatOf(str, 64), float64(0)), float64)
  ensures string: indir(typ).Kind() == 24 ==> r.IsValid() && content(r) == box(str, string)
  ensures bytes: indir(typ).Kind() == 23 && indir(typ).Elem().Kind() == 8 && r.IsValid() ==> is(content(r), []byte) && bytesstr(as(content(r), []byte)) == str
  ensures unsupported: !(indir(typ).Kind() >= 1 && indir(typ).Kind() <= 14 && indir(typ).Kind() != 12 || indir(typ).Kind() == 24 || indir(typ).Kind() == 23 && (indir(typ).Elem().Kind() == 8 || indir(typ).Elem().Kind() == 24)) ==> !r.IsValid()

func pointerTo(value, typ) (r)
  props P11
  requires valid: value.IsValid() && typ != nil && assignable(value.Type(), indir(typ))
  requires news: news >= 0
  modifies held, news
  ensures plain: typ.Kind() != 22 ==> r == value
  ensures pointer: typ.Kind() == 22 && typ.Elem().Kind() != 22 ==> held[elemOf(r)] == value
  ensures in_new_place: typ.Kind() == 22 ==> old(news) <= slot(elemOf(r)) && slot(elemOf(r)) < news
  ensures only_more: news >= old(news)
  ensures others_kept: (forall w reflect.Value :: {held[w]} 0 <= slot(w) && slot(w) < old(news) ==> held[w] == old(held)[w])
  ensures type: r.IsValid() && assignable(r.Type(), typ)

pure func bindable(c *Config, name string) bool = c.Configer != nil && cfgOf(c.Configer, name) != ""

func (*Config).Bind(c, ptr, name)
  props P11
  requires nn: c != nil
  requires news: news >= 0
  requires target: reflect.ValueOf(ptr).IsValid()
  requires nonnil: reflect.ValueOf(ptr).Kind() == 22 ==> elemOf(reflect.ValueOf(ptr)).IsValid()
  modifies held, news
  new
  panics_only when c.Configer != nil && reflect.ValueOf(ptr).Kind() != 22
  ensures untouched: !bindable(c, name) ==> held == old(held)
  ensures bool: let e = elemOf(reflect.ValueOf(ptr)) in bindable(c, name) && e.CanSet() && e.Kind() == 1 ==> content(held[e]) == box(cfgOf(c.Configer, name) == "on" || boolOK(cfgOf(c.Configer, name)) && boolOf(cfgOf(c.Configer, name)), bool)
  ensures int: let e = elemOf(reflect.ValueOf(ptr)) in bindable(c, name) && e.CanSet() && e.Kind() == 2 ==> content(held[e]) == box(ite(intOK(cfgOf(c.Configer, name), 10, 64), intOf(cfgOf(c.Configer, name), 10), 0), int)
  ensures int8: let e = elemOf(reflect.ValueOf(ptr)) in bindable(c, name) && e.CanSet() && e.Kind() == 3 ==> content(held[e]) == box(ite(intOK(cfgOf(c.Configer, name), 10, 8), intOf(cfgOf(c.Configer, name), 10), 0), int8)
  ensures int16: let e = elemOf(reflect.ValueOf(ptr)) in bindable(c, name) && e.CanSet() && e.Kind() == 4 ==> content(held[e]) == box(ite(intOK(cfgOf(c.Configer, name), 10, 16), intOf(cfgOf(c.Configer, name), 10), 0), int16)
  ensures int32: let e = elemOf(reflect.ValueOf(ptr)) in bindable(c, name) && e.CanSet() && e.Kind() == 5 ==> content(held[e]) == box(ite(intOK(cfgOf(c.Configer, name), 10, 32), intOf(cfgOf(c.Configer, name), 10), 0), int32)
  ensures int64: let e = elemOf(reflect.ValueOf(ptr)) in bindable(c, name) && e.CanSet() && e.Kind() == 6 ==> content(held[e]) == box(ite(intOK(cfgOf(c.Configer, name), 10, 64), intOf(cfgOf(c.Configer, name), 10), 0), int64)
  ensures uint: let e = elemOf(reflect.ValueOf(ptr)) in bindable(c, name) && e.CanSet() && e.Kind() == 7 ==> content(held[e]) == box(ite(uintOK(cfgOf(c.Configer, name), 10, 64), uintOf(cfgOf(c.Configer, name), 10), 0), uint)
  ensures uint8: let e = elemOf(reflect.ValueOf(ptr)) in bindable(c, name) && e.CanSet() && e.Kind() == 8 ==> content(held[e]) == box(ite(uintOK(cfgOf(c.Configer, name), 10, 8), uintOf(cfgOf(c.Configer, name), 10), 0), uint8)
  ensures uint16: let e = elemOf(reflect.ValueOf(ptr)) in bindable(c, name) && e.CanSet() && e.Kind() == 9 ==> content(held[e]) == box(ite(uintOK(cfgOf(c.Configer, name), 10, 16), uintOf(cfgOf(c.Configer, name), 10), 0), uint16)
  ensures uint32: let e = elemOf(reflect.ValueOf(ptr)) in bindable(c, name) && e.CanSet() && e.Kind() == 10 ==> content(held[e]) == box(ite(uintOK(cfgOf(c.Configer, name), 10, 32), uintOf(cfgOf(c.Configer, name), 10), 0), uint32)
  ensures uint64: let e = elemOf(reflect.ValueOf(ptr)) in bindable(c, name) && e.CanSet() && e.Kind() == 11 ==> content(held[e]) == box(ite(uintOK(cfgOf(c.Configer, name), 10, 64), uintOf(cfgOf(c.Configer, name), 10), 0), uint64)
  ensures float32: let e = elemOf(reflect.ValueOf(ptr)) in bindable(c, name) && e.CanSet() && e.Kind() == 13 ==> content(held[e]) == box(ite(floatOK(cfgOf(c.Configer, name), 32), float32(floatOf(cfgOf(c.Configer, name), 32)), float32(0)), float32)
  ensures float64: let e = elemOf(reflect.ValueOf(ptr)) in bindable(c, name) && e.CanSet() && e.Kind() == 14 ==> content(held[e]) == box(ite(floatOK(cfgOf(c.Configer, name), 64), floatOf(cfgOf(c.Configer, name), 64), float64(0)), float64)
  ensures string: let e = elemOf(reflect.ValueOf(ptr)) in bindable(c, name) && e.CanSet() && e.Kind() == 24 ==> content(held[e]) == box(cfgOf(c.Configer, name), string)
  ensures unsupported: let e = elemOf(reflect.ValueOf(ptr)) in let k = indir(e.Type()).Kind() in !(k >= 1 && k <= 14 && k != 12 || k == 24 || k == 23) ==> held == old(held)
