package github.com/wujiu2020/strip/sessions

# ---- P16, P19: a new session id ----
# did the system's random source deliver
ghost randOK bool
uninterp func place(a string, c int) int
axiom forall a string, i int :: {place(a, a[i])} 0 <= i && i < len(a) ==> 0 <= place(a, a[i]) && (distinct(a) ==> place(a, a[i]) == i)
axiom forall a string, c int :: {place(a, c)} 0 - 1 <= place(a, c) && place(a, c) < len(a) && (place(a, c) >= 0 ==> a[place(a, c)] == c)
pure func of(a string, c int) bool = place(a, c) >= 0
pure func distinct(a string) bool = forall i int, j int :: {a[i], a[j]} 0 <= i && i < j && j < len(a) ==> a[i] != a[j]
ghost mints int
ghost minted string

func CreateSid() (sid)
  props P19
  new
  fuel 15
  requires alphabet: bytesstr(_SESSION_ALPHABETS) == "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ" && len(_SESSION_ALPHABETS) == 36
  requires alphabet: len(utils.DefaultAlphabets) > 0
  modifies clock, randOK
  maypanic
  ensures_panic !randOK
  effect mints = old(mints) + 1
  effect minted = sid
  ensures length: len(sid) == 20
  ensures letters: forall i int :: {sid[i]} 0 <= i && i < 20 ==> of(bytesstr(_SESSION_ALPHABETS), sid[i])
