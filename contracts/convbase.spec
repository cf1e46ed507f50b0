package github.com/wujiu2020/strip

# generated by tools/genconv.py
# ---- what a text denotes, by the standard library ----
uninterp func intOK(s string, base int, bits int) bool
uninterp func intOf(s string, base int) int
uninterp func uintOK(s string, base int, bits int) bool
uninterp func uintOf(s string, base int) int
uninterp func floatOK(s string, bits int) bool
uninterp func floatOf(s string, bits int) float64
uninterp func boolOK(s string) bool
uninterp func boolOf(s string) bool

extern strconv.ParseInt(s, base, bits) (v, err)
  ensures (err == nil) == intOK(s, base, bits)
  ensures err == nil ==> v == intOf(s, base)
  ensures intOK(s, base, bits) && bits == 8 ==> 0-128 <= intOf(s, base) && intOf(s, base) <= 127
  ensures intOK(s, base, bits) && bits == 16 ==> 0-32768 <= intOf(s, base) && intOf(s, base) <= 32767
  ensures intOK(s, base, bits) && bits == 32 ==> 0-2147483648 <= intOf(s, base) && intOf(s, base) <= 2147483647

extern strconv.ParseUint(s, base, bits) (v, err)
  ensures (err == nil) == uintOK(s, base, bits)
  ensures err == nil ==> v == uintOf(s, base)
  ensures uintOK(s, base, bits) && bits == 8 ==> uintOf(s, base) <= 255
  ensures uintOK(s, base, bits) && bits == 16 ==> uintOf(s, base) <= 65535
  ensures uintOK(s, base, bits) && bits == 32 ==> uintOf(s, base) <= 4294967295

extern strconv.ParseFloat(s, bits) (v, err)
  ensures (err == nil) == floatOK(s, bits)
  ensures err == nil ==> v == floatOf(s, bits)

extern strconv.ParseBool(s) (v, err)
  ensures (err == nil) == boolOK(s)
  ensures v == (err == nil && boolOf(s))
