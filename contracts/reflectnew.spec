package github.com/wujiu2020/strip

# a new zero value, held by a pointer
extern reflect.New(t) (r)
  requires t != nil
  ensures r.IsValid() && r.Kind() == 22 && !r.IsNil() && r.Type().Elem() == t && elemOf(r).IsValid() && elemOf(r).CanSet() && elemOf(r).Type() == t
  ensures forall u reflect.Type :: {u.Elem()} u.Kind() == 22 && u.Elem() == t ==> assignable(r.Type(), u)

