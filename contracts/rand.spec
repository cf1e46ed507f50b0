package github.com/wujiu2020/strip/utils

# ---- P19: number codes and random tokens ----
# what a big.Int holds, a number text denotes, and the first place of a byte in a text
uninterp func ival(v big.Int) int
uninterp func isNum(s string) bool
uninterp func numOf(s string) int
# product and quotient: kept abstract, the argument needs no law of theirs
uninterp func mul(x int, y int) int
uninterp func quo(x int, y int) int
pure func bigv(x *big.Int) int = ival(*x)
axiom ival(zero(big.Int)) == 0
# the number whose low digits are the code s and whose high part is x
rec func comb(s string, a string, x int) int = ite(len(s) == 0, x, comb(s[0:len(s)-1], a, mul(x, len(a)) + place(a, s[len(s)-1])))
rec func digits(x int, b int) int = ite(x <= 0, 0, 1 + digits(quo(x, b), b))

# the code with one more high digit
lemma snoc(s string, c string, a string, x int)
  props P19
  requires len(c) == 1
  trigger comb(s + c, a, x)
  ensures comb(s + c, a, x) == comb(s, a, mul(x, len(a)) + place(a, c[0]))

extern (*math/big.Int).SetString(z, s, base) (r, ok)
  requires ten: base == 10
  modifies deref(z)
  ensures ok == isNum(s)
  ensures ok ==> r == z && bigv(z) == numOf(s)
extern math/big.NewInt(v) (r)
  new
  ensures r != nil && fresh(r) && bigv(r) == v && v <= 9223372036854775807
extern (*math/big.Int).Sign(x) (r)
  ensures (r > 0) == (bigv(x) > 0) && (r < 0) == (bigv(x) < 0)
extern (*math/big.Int).DivMod(z, x, y, m) (q, r)
  requires distinct: z != m && bigv(y) > 0
  modifies deref(z), deref(m)
  ensures q == z && r == m
  ensures old(bigv(x)) >= 0 ==> bigv(z) == quo(old(bigv(x)), old(bigv(y))) && 0 <= bigv(z) && 0 <= bigv(m) && bigv(m) < old(bigv(y)) && old(bigv(x)) == mul(bigv(z), old(bigv(y))) + bigv(m)
extern (*math/big.Int).Int64(x) (v)
  ensures 0-9223372036854775808 <= bigv(x) && bigv(x) <= 9223372036854775807 ==> v == bigv(x)
extern (*math/big.Int).SetInt64(z, v) (r)
  modifies deref(z)
  ensures r == z && bigv(z) == v
extern (*math/big.Int).Mul(z, x, y) (r)
  modifies deref(z)
  ensures r == z && bigv(z) == mul(old(bigv(x)), old(bigv(y)))
extern (*math/big.Int).Add(z, x, y) (r)
  modifies deref(z)
  ensures r == z && bigv(z) == old(bigv(x)) + old(bigv(y))
extern (*math/big.Int).String(x) (s)
  ensures isNum(s) && numOf(s) == bigv(x)
extern bytes.IndexByte(b, c) (r)
  ensures r == place(bytesstr(b), c)

func NumberEncode(number, alphabet) (token)
  props P19
  new
  use snoc
  requires alphabet: len(alphabet) >= 2 && distinct(bytesstr(alphabet))
  ensures none: !isNum(number) || numOf(number) <= 0 ==> token == ""
  ensures decodes: isNum(number) && numOf(number) >= 0 ==> comb(token, bytesstr(alphabet), 0) == numOf(number)
  ensures shape: forall i int :: {token[i]} 0 <= i && i < len(token) ==> of(bytesstr(alphabet), token[i])
  ensures length: isNum(number) ==> len(token) == digits(numOf(number), len(alphabet))
  inv [x *big.Int, m *big.Int] x != nil && m != nil && x != m && fresh(x) && fresh(m)
  inv [x *big.Int, y outer *big.Int] y != nil && fresh(y) && y != x
  inv [y outer *big.Int] bigv(y) == len(alphabet)
  inv [x *big.Int] numOf(number) >= 0 ==> bigv(x) >= 0
  inv [x *big.Int, t []byte] numOf(number) < 0 ==> bigv(x) < 0 && len(t) == 0
  inv [x *big.Int, t []byte] numOf(number) == 0 ==> bigv(x) == 0 && len(t) == 0
  inv [t []byte] fresh(t)
  inv [x *big.Int, t []byte] numOf(number) >= 0 ==> comb(bytesstr(t), bytesstr(alphabet), bigv(x)) == numOf(number)
  inv [x *big.Int, t []byte] len(t) + digits(bigv(x), len(alphabet)) == digits(numOf(number), len(alphabet))
  inv [t []byte] forall i int :: {t[i]} 0 <= i && i < len(t) ==> of(bytesstr(alphabet), t[i])

func NumberDecode(token, alphabet) (s)
  props P19
  new
  ensures number: isNum(s) && numOf(s) == comb(token, bytesstr(alphabet), 0)
  inv [x outer *big.Int, y outer *big.Int, z outer *big.Int] x != nil && y != nil && z != nil && fresh(x) && fresh(y) && fresh(z) && x != y && y != z && x != z
  inv [y outer *big.Int] bigv(y) == len(alphabet)
  inv [i int] 0-1 <= i && i < len(token)
  inv [x outer *big.Int, i int] comb(token[0:i+1], bytesstr(alphabet), bigv(x)) == comb(token, bytesstr(alphabet), 0)

pure func letters(alphabets []byte) string = ite(len(alphabets) == 0, bytesstr(DefaultAlphabets), bytesstr(alphabets))

func DefaultNumberEncode(number) (token)
  props P19
  new
  requires alphabet: len(DefaultAlphabets) >= 2 && distinct(bytesstr(DefaultAlphabets))
  ensures decodes: isNum(number) && numOf(number) >= 0 ==> comb(token, bytesstr(DefaultAlphabets), 0) == numOf(number)

extern crypto/rand.Read(b) (n, err)
  modifies elems(b), randOK
  ensures err == nil ==> n == len(b)
  ensures randOK == (err == nil)

func RandomCreateBytes(n, alphabets) (r, err)
  props P19
  new
  requires length: n >= 0
  requires alphabet: len(DefaultAlphabets) > 0
  modifies randOK
  ensures delivered: (err == nil) == randOK
  ensures length: err == nil ==> len(r) == n && fresh(r)
  ensures letters: err == nil ==> forall i int :: {r[i]} 0 <= i && i < n ==> of(letters(alphabets), r[i])
  inv [b outer []byte, i int] forall k int :: {b[k]} 0 <= k && k <= i ==> of(letters(alphabets), b[k])

func RandomCreateString(n, alphabets) (r, err)
  props P19
  new
  requires length: n >= 0
  requires alphabet: len(DefaultAlphabets) > 0
  modifies randOK
  ensures delivered: (err == nil) == randOK
  ensures length: err == nil ==> len(r) == n
  ensures letters: err == nil ==> forall i int :: {r[i]} 0 <= i && i < n ==> of(letters(alphabets), r[i])

func MustRandomCreateBytes(n, alphabets) (r)
  props P19
  new
  requires length: n >= 0
  requires alphabet: len(DefaultAlphabets) > 0
  modifies randOK
  maypanic
  ensures_panic !randOK
  ensures length: len(r) == n && fresh(r)
  ensures letters: forall i int :: {r[i]} 0 <= i && i < n ==> of(letters(alphabets), r[i])

func MustRandomCreateString(n, alphabets) (r)
  props P19
  new
  requires length: n >= 0
  requires alphabet: len(DefaultAlphabets) > 0
  modifies randOK
  maypanic
  ensures_panic !randOK
  ensures length: len(r) == n
  ensures letters: forall i int :: {r[i]} 0 <= i && i < n ==> of(letters(alphabets), r[i])

axiom forall n int :: {dec(n)} isNum(dec(n)) && numOf(dec(n)) == n
axiom forall v any :: {reflect.ValueOf(v)} is(v, int64) ==> reflect.ValueOf(v).Kind() == 6 && intIn(reflect.ValueOf(v)) == as(v, int64)
axiom forall x int :: {quo(x, 36)} x >= 0 ==> quo(x, 36) == x / 36

# the text of a value
func ToStr(value, args) (s)
  props P19
  new
  ensures decimal: len(args) == 0 && is(value, int64) ==> isNum(s) && numOf(s) == as(value, int64)

func (argInt).Get(a, i, args) (r)
  props P19
  ensures ith: r == ite(i >= 0 && i < len(a), a[i], ite(len(args) > 0, args[0], 0))
extern (reflect.Value).Bool(v) (r)
  requires kind: v.Kind() == 1
extern (reflect.Value).Uint(v) (r)
  requires kind: 7 <= v.Kind() && v.Kind() <= 12
extern (reflect.Value).Float(v) (r)
  requires kind: v.Kind() == 13 || v.Kind() == 14
extern strconv.FormatUint(v, base) (s)
extern strconv.FormatFloat(v, f, p, b) (s)
uninterp func intIn(v reflect.Value) int
extern (reflect.Value).Int(v) (r)
  requires kind: 2 <= v.Kind() && v.Kind() <= 6
  ensures r == intIn(v)
extern (reflect.Value).String(v) (r)
