package github.com/wujiu2020/strip

# ---- places made by reflect.New: each is new and holds its type's zero value ----
ghost news int
uninterp func slot(v reflect.Value) int
uninterp func ptrTo(t reflect.Type) reflect.Type
uninterp func zeroV(t reflect.Type) reflect.Value
axiom forall t reflect.Type :: {ptrTo(t)} ptrTo(t) != nil && ptrTo(t).Kind() == 22 && ptrTo(t).Elem() == t

extern reflect.New(t) (r)
  requires t != nil
  modifies news
  effect news = old(news) + 1
  ensures r.IsValid() && r.Kind() == 22 && !r.IsNil() && r.Type() == ptrTo(t) && elemOf(r).IsValid() && elemOf(r).CanSet() && elemOf(r).Type() == t
  ensures forall u reflect.Type :: {u.Elem()} u.Kind() == 22 && u.Elem() == t ==> assignable(r.Type(), u)
  ensures slot(elemOf(r)) == old(news) && held[elemOf(r)] == zeroV(t)
