package github.com/wujiu2020/strip/utils

# ---- P34: values as text ----
pure func numBase(args []int) int = ite(len(args) > 0, args[0], 10)

func (argInt).Get(a, i, args) (r)
  props P34
  ensures def: r == ite(0 <= i && i < len(a), a[i], ite(len(args) > 0, args[0], 0))

# the value as Go source
uninterp func goSyntax(x any) string
extern fmt.Sprintf(f, a) (s)
  ensures f == "%#v" && len(a) == 1 ==> s == goSyntax(a[0])

func ToStr(value, args) (s)
  props P34
  requires base: len(args) == 0 || (2 <= args[0] && args[0] <= 36) || reflect.ValueOf(value).Kind() == 1 || reflect.ValueOf(value).Kind() > 11
  requires width: len(args) <= 1 || args[1] == 32 || args[1] == 64 || reflect.ValueOf(value).Kind() <= 12 || reflect.ValueOf(value).Kind() > 14
  new
  ensures bool: let v = reflect.ValueOf(value) in v.Kind() == 1 ==> boolOK(s) && boolOf(s) == boolIn(v)
  ensures int: let v = reflect.ValueOf(value) in v.Kind() == 2 ==> intOK(s, numBase(args), 64) && intOf(s, numBase(args)) == intIn(v)
  ensures int8: let v = reflect.ValueOf(value) in v.Kind() == 3 ==> intOK(s, numBase(args), 8) && intOf(s, numBase(args)) == intIn(v)
  ensures int16: let v = reflect.ValueOf(value) in v.Kind() == 4 ==> intOK(s, numBase(args), 16) && intOf(s, numBase(args)) == intIn(v)
  ensures int32: let v = reflect.ValueOf(value) in v.Kind() == 5 ==> intOK(s, numBase(args), 32) && intOf(s, numBase(args)) == intIn(v)
  ensures int64: let v = reflect.ValueOf(value) in v.Kind() == 6 ==> intOK(s, numBase(args), 64) && intOf(s, numBase(args)) == intIn(v)
  ensures uint: let v = reflect.ValueOf(value) in v.Kind() == 7 ==> uintOK(s, numBase(args), 64) && uintOf(s, numBase(args)) == uintIn(v)
  ensures uint8: let v = reflect.ValueOf(value) in v.Kind() == 8 ==> uintOK(s, numBase(args), 8) && uintOf(s, numBase(args)) == uintIn(v)
  ensures uint16: let v = reflect.ValueOf(value) in v.Kind() == 9 ==> uintOK(s, numBase(args), 16) && uintOf(s, numBase(args)) == uintIn(v)
  ensures uint32: let v = reflect.ValueOf(value) in v.Kind() == 10 ==> uintOK(s, numBase(args), 32) && uintOf(s, numBase(args)) == uintIn(v)
  ensures uint64: let v = reflect.ValueOf(value) in v.Kind() == 11 ==> uintOK(s, numBase(args), 64) && uintOf(s, numBase(args)) == uintIn(v)
  ensures float32: let v = reflect.ValueOf(value) in v.Kind() == 13 && len(args) == 0 ==> floatOK(s, 32) && floatOf(s, 32) == floatIn(v)
  ensures float64: let v = reflect.ValueOf(value) in v.Kind() == 14 && len(args) == 0 ==> floatOK(s, 64) && floatOf(s, 64) == floatIn(v)
  ensures textKind: let v = reflect.ValueOf(value) in v.Kind() == 24 ==> s == textIn(v)
  ensures bytes: is(value, []byte) ==> s == bytesstr(as(value, []byte))

  ensures other: let k = reflect.ValueOf(value).Kind() in (k == 0 || k == 12 || k > 14) && k != 24 && !is(value, []byte) ==> s == goSyntax(value)

func ToInt64(value) (d, err)
  props P34
  new
  ensures int: let v = reflect.ValueOf(value) in 2 <= v.Kind() && v.Kind() <= 6 ==> err == nil && d == intIn(v)
  ensures uint: let v = reflect.ValueOf(value) in 7 <= v.Kind() && v.Kind() <= 11 ==> err == nil && (uintIn(v) <= 9223372036854775807 ==> d == uintIn(v))
  ensures other: let v = reflect.ValueOf(value) in v.Kind() < 2 || v.Kind() > 11 ==> err != nil
