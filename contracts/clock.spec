package github.com/wujiu2020/strip/sessions

# ---- instants, by the standard library: nanoseconds since 1970, and a clock that never runs back ----
uninterp func nanos(t time.Time) int
ghost clock int
extern time.Unix(s, n) (t)
  ensures nanos(t) == s*1000000000 + n
extern (time.Time).UnixNano(t) (n)
  ensures n == nanos(t)
extern (time.Time).Add(t, d) (r)
  ensures nanos(r) == nanos(t) + d
extern (time.Time).Before(t, u) (r)
  ensures r == (nanos(t) < nanos(u))
extern time.Now() (t)
  modifies clock
  ensures nanos(t) == clock && clock >= old(clock) && clock > 0

# ---- decimal texts, by the standard library ----
uninterp func dec(n int) string
uninterp func decOK(s string) bool
uninterp func num(s string) int
extern strconv.FormatInt(n, base) (s)
  ensures base == 10 ==> s == dec(n)
extern (time.Time).Unix(t) (s)
  ensures s == nanos(t) / 1000000000
