package github.com/wujiu2020/strip

# ---- filter lists: every list of filters is a slice of non-nil *filter ----

pure func nonnil(h []*filter) bool = forall i int :: {h[i]} 0 <= i && i < len(h) ==> h[i] != nil
pure func sameF(a *filter, b *filter) bool = a.value == b.value
pure func inF(h []*filter, f *filter) bool = exists i int :: {h[i]} 0 <= i && i < len(h) && sameF(h[i], f)

# how many of the first n values are added to h: those that neither h nor an earlier value has
rec func isNew(h []*filter, values []*filter, k int) bool = !inF(h, values[k]) && !(exists j int :: {values[j]} 0 <= j && j < k && sameF(values[j], values[k]))
  reads elems *filter, filter.value
rec func addedN(h []*filter, values []*filter, n int) int = ite(n <= 0, 0, addedN(h, values, n-1) + ite(isNew(h, values, n-1), 1, 0))
  reads elems *filter, filter.value
# how many of the first n of h are none of the exempted values
rec func keptN(h []*filter, values []*filter, n int) int = ite(n <= 0, 0, keptN(h, values, n-1) + ite(inF(values, h[n-1]), 0, 1))
  reads elems *filter, filter.value

func (filters).append(h, values) (r)
  props P03
  requires nonnil: nonnil(h) && nonnil(values)
  requires nocap: cap(h) == len(h) || base(h) != base(values)
  ensures nonnil: nonnil(r)
  ensures prefix: len(r) >= len(h) && (forall i int :: {r[i]} 0 <= i && i < len(h) ==> r[i] == old(h[i]))
  ensures nodup_added: forall i int, j int :: len(h) <= i && i < len(r) && 0 <= j && j < i ==> !sameF(r[i], r[j])
  ensures from_values: forall i int :: len(h) <= i && i < len(r) ==> exists k int :: 0 <= k && k < len(values) && r[i] == old(values[k])
  ensures all_present: forall k int :: 0 <= k && k < len(values) ==> inF(r, old(values[k]))
  ensures length: len(r) == len(h) + old(addedN(h, values, len(values)))
  ensures in_order: forall k int :: {old(values[k])} 0 <= k && k < len(values) && old(isNew(h, values, k)) ==> r[len(h) + old(addedN(h, values, k))] == old(values[k])
  modifies elems(h)
  new
  inv [r filters] nonnil(r)
  inv [r filters] len(r) >= len(h) && (forall i int :: {r[i]} 0 <= i && i < len(h) ==> r[i] == old(h[i]))
  inv [r filters] forall i int :: {old(h[i])} 0 <= i && i < len(h) ==> r[i] == old(h[i])
  inv [r filters] forall i int, j int :: len(h) <= i && i < len(r) && 0 <= j && j < i ==> !sameF(r[i], r[j])
  inv [r filters, n int] forall i int :: {r[i]} len(h) <= i && i < len(r) ==> exists k int :: {old(values[k])} 0 <= k && k <= n && r[i] == old(values[k])
  inv [r filters, n int] len(r) == len(h) + old(addedN(h, values, n + 1))
  inv [r filters, n int] forall k int :: {old(values[k])} 0 <= k && k <= n && old(isNew(h, values, k)) ==> 0 <= old(addedN(h, values, k)) && len(h) + old(addedN(h, values, k)) < len(r) && r[len(h) + old(addedN(h, values, k))] == old(values[k])
  inv [r filters, n int] forall k int :: {old(values[k])} 0 <= k && k < n ==> inF(r, old(values[k]))
  inv [r filters, n int] forall k int :: {old(values[k])} 0 <= k && k <= n ==> inF(r, old(values[k]))
  inv [i int, f outer *filter, r outer filters] forall k int :: {r[k]} 0 <= k && k < i ==> !sameF(r[k], f)
  inv [i int, f outer *filter, r outer filters] forall k int :: {r[k]} 0 <= k && k <= i ==> !sameF(r[k], f)
  inv [r filters] base(r) == base(h) || fresh(r)
  inv [r filters] base(r) == base(h) ==> off(r) == off(h) && cap(r)==cap(h)
  inv forall i int :: {values[i]} 0 <= i && i < len(values) ==> values[i] == old(values[i])

func (filters).remove(h, values) (r)
  props P03
  requires nonnil: nonnil(h) && nonnil(values)
  ensures fresh: fresh(r) && nonnil(r)
  ensures kept: forall i int :: 0 <= i && i < len(r) ==> !inF(values, r[i])
  ensures none_invented: forall i int :: 0 <= i && i < len(r) ==> exists k int :: 0 <= k && k < len(h) && r[i] == h[k]
  ensures all_others_kept: forall k int :: 0 <= k && k < len(h) ==> inF(values, h[k]) || exists i int :: 0 <= i && i < len(r) && r[i] == h[k]
  ensures length: len(r) == old(keptN(h, values, len(h)))
  ensures in_order: forall k int :: {old(h[k])} 0 <= k && k < len(h) && !old(inF(values, h[k])) ==> r[old(keptN(h, values, k))] == old(h[k])
  new
  inv [r filters, n int] len(r) == old(keptN(h, values, n + 1))
  inv [r filters, n int] forall k int :: {old(h[k])} 0 <= k && k <= n && !old(inF(values, h[k])) ==> 0 <= old(keptN(h, values, k)) && old(keptN(h, values, k)) < len(r) && r[old(keptN(h, values, k))] == old(h[k])
  inv [r filters] nonnil(r)
  inv [r filters] forall i int :: {r[i]} 0 <= i && i < len(r) ==> !inF(values, r[i])
  inv [r filters, n int] forall i int :: {r[i]} 0 <= i && i < len(r) ==> exists k int :: {h[k]} 0 <= k && k <= n && r[i] == h[k]
  inv [r filters, n int] forall k int :: {h[k]} 0 <= k && k <= n ==> inF(values, h[k]) || exists i int :: {r[i]} 0 <= i && i < len(r) && r[i] == h[k]
  inv [i int, f outer *filter] forall k int :: {values[k]} 0 <= k && k <= i ==> !sameF(values[k], f)

# ---- what Filter and Exempt make of their arguments: one filter each, in order, standing for the argument ----
func newFilter(value, fun) (r)
  props P03
  new
  ensures made: r != nil && fresh(r) && r.fun == fun && r.value == value

# the filter made of any other argument answers with that argument
ghost wrapped any
axiom forall x any :: {reflect.ValueOf(x)} itfOf(reflect.ValueOf(x)) == x
uninterp func itfOf(v reflect.Value) any
extern (reflect.Value).Interface(v) (x)
  ensures x == itfOf(v)

func wrapFilter(arg) (f)
  props P03
  begin wrapped = arg
  modifies wrapped
  new
  ensures made: f != nil && wrapped == arg

func wrapFilter$1() (r)
  props P03
  captured arg: *arg == wrapped
  ensures itself: r == *arg

func makeFilter(filter) (f)
  props P03
  maypanic
  modifies wrapped
  new
  ensures plain: is(filter, FilterFunc) ==> f == as(filter, FilterFunc)
  ensures maker: is(filter, func() inject.Provider) ==> f == as(filter, func() inject.Provider)
  ensures some: !is(filter, FilterFunc) && !is(filter, func() inject.Provider) ==> f != nil && wrapped == filter

func makeFilters(handlers) (r)
  props P03
  maypanic
  modifies wrapped
  new
  ensures each: fresh(r) && len(r) == len(handlers) && (forall i int :: {r[i]} 0 <= i && i < len(r) ==> r[i] != nil && r[i].value == reflect.ValueOf(handlers[i]))
  ensures run: forall i int :: {r[i]} 0 <= i && i < len(r) && is(handlers[i], FilterFunc) ==> r[i].fun == as(handlers[i], FilterFunc)
  ensures run2: forall i int :: {r[i]} 0 <= i && i < len(r) && is(handlers[i], func() inject.Provider) ==> r[i].fun == as(handlers[i], func() inject.Provider)
  inv [r filters, n int] fresh(r) && len(r) == n + 1 && (forall i int :: {r[i]} 0 <= i && i < len(r) ==> r[i] != nil && fresh(r[i]) && r[i].value == reflect.ValueOf(handlers[i]))
  inv [r filters, n int] forall i int :: {r[i]} 0 <= i && i < len(r) && is(handlers[i], FilterFunc) ==> r[i].fun == as(handlers[i], FilterFunc)
  inv [r filters, n int] forall i int :: {r[i]} 0 <= i && i < len(r) && is(handlers[i], func() inject.Provider) ==> r[i].fun == as(handlers[i], func() inject.Provider)

func Filter(handlers) (r)
  props P03
  maypanic
  modifies wrapped
  new
  ensures made: is(r, includeFilter) && len(as(r, includeFilter)) == len(handlers) && (forall i int :: {as(r, includeFilter)[i]} 0 <= i && i < len(handlers) ==> as(r, includeFilter)[i] != nil && as(r, includeFilter)[i].value == reflect.ValueOf(handlers[i]))

func Exempt(handlers) (r)
  props P03
  maypanic
  modifies wrapped
  new
  ensures made: is(r, exemptFilter) && len(as(r, exemptFilter)) == len(handlers) && (forall i int :: {as(r, exemptFilter)[i]} 0 <= i && i < len(handlers) ==> as(r, exemptFilter)[i] != nil && as(r, exemptFilter)[i].value == reflect.ValueOf(handlers[i]))

# ---- a method handler extended by filters is a new one: those made from the same one share nothing ----
pure func grown(h []Handler, r []Handler) bool = len(r) == len(h) + 1 && (forall i int :: {r[i]} 0 <= i && i < len(h) ==> r[i] == h[i])

func (methodParams).with(h, v) (r)
  props P03
  new
  ensures own: fresh(r) && grown(h, r) && r[len(h)] == v
  keeps elems *filter, filter.value

func (methodParams).Filter(h, exempts) (r)
  props P03
  maypanic
  modifies wrapped
  new
  ensures own: is(r, methodParams) && fresh(as(r, methodParams)) && grown(h, as(r, methodParams))
  ensures added: let x = as(r, methodParams)[len(h)] in is(x, includeFilter) && len(as(x, includeFilter)) == len(exempts) && (forall i int :: {as(x, includeFilter)[i]} 0 <= i && i < len(exempts) ==> as(x, includeFilter)[i] != nil && as(x, includeFilter)[i].value == reflect.ValueOf(exempts[i]))

func (methodParams).Exempt(h, exempts) (r)
  props P03
  maypanic
  modifies wrapped
  new
  ensures own: is(r, methodParams) && fresh(as(r, methodParams)) && grown(h, as(r, methodParams))
  ensures added: let x = as(r, methodParams)[len(h)] in is(x, exemptFilter) && len(as(x, exemptFilter)) == len(exempts) && (forall i int :: {as(x, exemptFilter)[i]} 0 <= i && i < len(exempts) ==> as(x, exemptFilter)[i] != nil && as(x, exemptFilter)[i].value == reflect.ValueOf(exempts[i]))
