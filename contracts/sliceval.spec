package github.com/wujiu2020/strip/utils/helpers

# ---- P36: lists given as text ----
uninterp func cutAt(s string, sep string, i int) string
uninterp func cuts(s string, sep string) int
uninterp func trimmed(s string) string
uninterp func joined(v []string, sep string) string
  reads elems string
extern strings.Split(s, sep) (v)
  new
  ensures fresh(v) && len(v) == cuts(s, sep) && cuts(s, sep) >= 0
  ensures forall i int :: {v[i]} 0 <= i && i < len(v) ==> v[i] == cutAt(s, sep, i)
extern strings.TrimSpace(s) (r)
  ensures r == trimmed(s)
extern strings.Join(v, sep) (r)
  ensures r == joined(v, sep)

# how many of the first n parts of a text hold anything
rec func parts(s string, n int) int = ite(n <= 0, 0, parts(s, n-1) + ite(trimmed(cutAt(s, ",", n-1)) != "", 1, 0))

func (*SliceValue).Set(s, v) (err)
  props P36
  requires nn: s != nil
  modifies deref(s), elems(*s)
  new
  ensures ok: err == nil
  ensures kept: len(*s) >= old(len(*s)) && (forall i int :: {(*s)[i]} 0 <= i && i < old(len(*s)) ==> (*s)[i] == old((*s)[i]))
  ensures length: len(*s) == old(len(*s)) + parts(v, cuts(v, ","))
  ensures in_order: forall k int :: {trimmed(cutAt(v, ",", k))} 0 <= k && k < cuts(v, ",") && trimmed(cutAt(v, ",", k)) != "" ==> (*s)[old(len(*s)) + parts(v, k)] == trimmed(cutAt(v, ",", k))
  inv [ps outer []string] fresh(ps) && base(*s) != base(ps) && len(ps) == cuts(v, ",")
  inv [ps outer []string] forall i int :: {ps[i]} 0 <= i && i < len(ps) ==> ps[i] == cutAt(v, ",", i)
  inv [n int] len(*s) == old(len(*s)) + parts(v, n + 1)
  inv [n int] len(*s) >= old(len(*s))
  inv forall i int :: {(*s)[i]} 0 <= i && i < old(len(*s)) ==> (*s)[i] == old((*s)[i])
  inv [n int] forall k int :: {trimmed(cutAt(v, ",", k))} 0 <= k && k <= n && trimmed(cutAt(v, ",", k)) != "" ==> 0 <= parts(v, k) && old(len(*s)) + parts(v, k) < len(*s) && (*s)[old(len(*s)) + parts(v, k)] == trimmed(cutAt(v, ",", k))
  inv base(*s) == old(base(*s)) || fresh(*s)
  inv base(*s) == old(base(*s)) ==> off(*s) == old(off(*s)) && cap(*s) == old(cap(*s))

func (*SliceValue).String(s) (r)
  props P36
  requires nn: s != nil
  ensures joined: r == joined(*s, ",")

# the first of each value stays
pure func hasS(h []string, n int, x string) bool = exists i int :: {h[i]} 0 <= i && i < n && h[i] == x
rec func firsts(h []string, n int) int = ite(n <= 0, 0, firsts(h, n-1) + ite(hasS(h, n-1, h[n-1]), 0, 1))
  reads elems string

func (*SliceValue).Unique(s)
  props P36
  requires nn: s != nil
  modifies deref(s)
  new
  ensures length: fresh(*s) && len(*s) == old(firsts(*s, len(*s)))
  ensures in_order: forall k int :: {old((*s)[k])} 0 <= k && k < old(len(*s)) && !old(hasS(*s, k, (*s)[k])) ==> (*s)[old(firsts(*s, k))] == old((*s)[k])
  inv [v SliceValue, n int] fresh(v) && len(v) == old(firsts(*s, n + 1))
  inv [v SliceValue, n int] forall k int :: {old((*s)[k])} 0 <= k && k <= n && !old(hasS(*s, k, (*s)[k])) ==> 0 <= old(firsts(*s, k)) && old(firsts(*s, k)) < len(v) && v[old(firsts(*s, k))] == old((*s)[k])
  inv [m outer map[string]bool, n int] forall x string :: {m[x]} m[x] == old(hasS(*s, n + 1, x))
