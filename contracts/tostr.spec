package github.com/wujiu2020/strip

# ---- P34: values as text ----
# a value a float32 can hold
uninterp func single(f float64) bool

# what the standard library writes reads back
extern strconv.FormatBool(b) (s)
  ensures s != "" && boolOK(s) && boolOf(s) == b
extern strconv.FormatInt(i, base) (s)
  requires base: 2 <= base && base <= 36
  ensures s != "" && intOK(s, base, 64) && intOf(s, base) == i
  ensures 0-128 <= i && i <= 127 ==> intOK(s, base, 8)
  ensures 0-32768 <= i && i <= 32767 ==> intOK(s, base, 16)
  ensures 0-2147483648 <= i && i <= 2147483647 ==> intOK(s, base, 32)
extern strconv.FormatUint(i, base) (s)
  requires base: 2 <= base && base <= 36
  ensures s != "" && uintOK(s, base, 64) && uintOf(s, base) == i
  ensures i <= 255 ==> uintOK(s, base, 8)
  ensures i <= 65535 ==> uintOK(s, base, 16)
  ensures i <= 4294967295 ==> uintOK(s, base, 32)
# with all the digits needed (-1) at the width given
extern strconv.FormatFloat(f, c, prec, bits) (s)
  requires bits: bits == 32 || bits == 64
  ensures s != ""
  ensures prec == 0-1 && bits == 64 ==> floatOK(s, 64) && floatOf(s, 64) == f
  ensures prec == 0-1 && bits == 32 ==> floatOK(s, 32) && (single(f) ==> floatOf(s, 32) == f)
extern fmt.Sprint(a) (s)
  ensures len(a) == 1 && is(a[0], string) ==> s == as(a[0], string)

# what a reflect.Value holds, by its kind
uninterp func boolIn(v reflect.Value) bool
uninterp func intIn(v reflect.Value) int
uninterp func uintIn(v reflect.Value) int
uninterp func floatIn(v reflect.Value) float64
uninterp func textIn(v reflect.Value) string
uninterp func bytesIn(v reflect.Value) string
axiom forall v reflect.Value :: {v.Kind()} v.Kind() != 0 ==> v.IsValid()
axiom forall x any :: {reflect.ValueOf(x)} is(x, string) ==> reflect.ValueOf(x).Kind() == 24 && textIn(reflect.ValueOf(x)) == as(x, string)
axiom forall x any :: {reflect.ValueOf(x)} is(x, []byte) ==> reflect.ValueOf(x).Kind() == 23
extern (reflect.Value).Bool(v) (b)
  requires kind: v.Kind() == 1
  ensures b == boolIn(v)
extern (reflect.Value).Int(v) (i)
  requires kind: 2 <= v.Kind() && v.Kind() <= 6
  ensures i == intIn(v)
  ensures v.Kind() == 3 ==> 0-128 <= i && i <= 127
  ensures v.Kind() == 4 ==> 0-32768 <= i && i <= 32767
  ensures v.Kind() == 5 ==> 0-2147483648 <= i && i <= 2147483647
extern (reflect.Value).Uint(v) (i)
  requires kind: 7 <= v.Kind() && v.Kind() <= 12
  ensures i == uintIn(v)
  ensures v.Kind() == 8 ==> i <= 255
  ensures v.Kind() == 9 ==> i <= 65535
  ensures v.Kind() == 10 ==> i <= 4294967295
extern (reflect.Value).Float(v) (f)
  requires kind: v.Kind() == 13 || v.Kind() == 14
  ensures f == floatIn(v)
  ensures v.Kind() == 13 ==> single(f)
extern (reflect.Value).String(v) (s)
  ensures v.Kind() == 24 ==> s == textIn(v)
extern (reflect.Value).Bytes(v) (b)
  ensures bytesstr(b) == bytesIn(v)

uninterp func elemOf(v reflect.Value) reflect.Value
extern (reflect.Value).Elem(v) (r)
  ensures r == elemOf(v)
rec func indir(v reflect.Value) reflect.Value = ite(v.Kind() == 22, indir(elemOf(v)), v)
pure func under(value any) reflect.Value = indir(reflect.ValueOf(value))

func indirectValue(val) (r)
  props P34
  ensures def: r == indir(val)
  inv [t reflect.Value] indir(t) == indir(val)

func ToStr(value) (s)
  props P34
  new
  ensures bool: let v = under(value) in v.Kind() == 1 ==> boolOK(s) && boolOf(s) == boolIn(v)
  ensures int: let v = under(value) in v.Kind() == 2 ==> intOK(s, 10, 64) && intOf(s, 10) == intIn(v)
  ensures int8: let v = under(value) in v.Kind() == 3 ==> intOK(s, 10, 8) && intOf(s, 10) == intIn(v)
  ensures int16: let v = under(value) in v.Kind() == 4 ==> intOK(s, 10, 16) && intOf(s, 10) == intIn(v)
  ensures int32: let v = under(value) in v.Kind() == 5 ==> intOK(s, 10, 32) && intOf(s, 10) == intIn(v)
  ensures int64: let v = under(value) in v.Kind() == 6 ==> intOK(s, 10, 64) && intOf(s, 10) == intIn(v)
  ensures uint: let v = under(value) in v.Kind() == 7 ==> uintOK(s, 10, 64) && uintOf(s, 10) == uintIn(v)
  ensures uint8: let v = under(value) in v.Kind() == 8 ==> uintOK(s, 10, 8) && uintOf(s, 10) == uintIn(v)
  ensures uint16: let v = under(value) in v.Kind() == 9 ==> uintOK(s, 10, 16) && uintOf(s, 10) == uintIn(v)
  ensures uint32: let v = under(value) in v.Kind() == 10 ==> uintOK(s, 10, 32) && uintOf(s, 10) == uintIn(v)
  ensures uint64: let v = under(value) in v.Kind() == 11 ==> uintOK(s, 10, 64) && uintOf(s, 10) == uintIn(v)
  ensures float32: let v = under(value) in v.Kind() == 13 ==> floatOK(s, 32) && floatOf(s, 32) == floatIn(v)
  ensures float64: let v = under(value) in v.Kind() == 14 ==> floatOK(s, 64) && floatOf(s, 64) == floatIn(v)
  ensures textKind: let v = under(value) in v.Kind() == 24 && textIn(v) != "" ==> s == textIn(v)
  ensures bytes: let v = under(value) in v.Kind() == 23 && v.Type().Elem().Kind() == 8 && bytesIn(v) != "" ==> s == bytesIn(v)
  ensures text: is(value, string) ==> s == as(value, string)

uninterp func cutAt(s string, sep string, i int) string
uninterp func cuts(s string, sep string) int
uninterp func trimmed(s string) string
extern strings.Split(s, sep) (v)
  new
  ensures fresh(v) && len(v) == cuts(s, sep) && cuts(s, sep) >= 0
  ensures forall i int :: {v[i]} 0 <= i && i < len(v) ==> v[i] == cutAt(s, sep, i)
extern strings.TrimSpace(s) (r)
  ensures r == trimmed(s)

func (StrTo).Strings(f, delimiters) (r)
  props P34
  new
  ensures parts: let d = ite(len(delimiters) > 0, delimiters[0], ",") in len(r) == cuts(f, d) && (forall i int :: {r[i]} 0 <= i && i < len(r) ==> r[i] == trimmed(cutAt(f, d, i)))
  inv [n int, ps outer []string, d outer string] forall i int :: {ps[i]} 0 <= i && i < len(ps) ==> ps[i] == ite(i <= n, trimmed(cutAt(f, d, i)), cutAt(f, d, i))
