package github.com/wujiu2020/strip

# ---- P04: the filter chain ----
# picked[c]: highest position of c's chain picked so far (-1: none)
# asked[c]: the chain was started, or a filter asked for the rest of it, and nothing was invoked since
# pend / pendp: the filter function picked but not called yet / its provider not invoked yet
# invokeerrs: errors returned by invocations that nobody raised
# wstatus[w] != 0: the status of response writer w is set (P05: the flag never goes back)
ghost picked arr[ref->int]
ghost asked arr[ref->bool]
ghost pend FilterFunc
ghost pendp any
ghost invokeerrs int
# a filter function yields the provider to invoke; it has no access to the chain
funcval FilterFunc : (f) (p)
  requires the_picked_one: f == pend
  maypanic
  modifies pend, pendp
  ensures pend == nil && pendp == p
  ensures_panic pend == nil && pendp == old(pendp)

# c is running the element picked last, or has been stopped by a written response, or has run to the end
pure func settled(c *context) bool = picked[c] == c.index || wstatus[c.rw] != 0 || c.index > len(c.filters)
pure func nonnegp(c *context) bool = 0 <= c.index && picked[c] <= c.index && 0-1 <= picked[c]

# what user code invoked through an injector can do to a chain: only ask for the rest (Next, below)
iface (github.com/wujiu2020/strip/inject.Injector).Invoke(inj, p) (out, err)
  requires chain_element: pend == nil && p == pendp
  maypanic
  modifies all context.index, picked, asked, pend, pendp, invokeerrs, wstatus
  new
  ensures pend == nil && pendp == nil
  ensures invokeerrs == old(invokeerrs) + ite(err == nil, 0, 1)
  ensures forall w any :: {wstatus[w]} old(wstatus)[w] != 0 ==> wstatus[w] != 0
  ensures forall x *context :: {x.index} existing(x) ==> x.index >= old(x.index) && picked[x] >= old(picked)[x]
  ensures forall x *context :: {picked[x]} existing(x) ==> x.index >= old(x.index) && picked[x] >= old(picked)[x]
  ensures forall x *context :: {x.index} existing(x) ==> (old(nonnegp(x)) ==> nonnegp(x)) && (old(settled(x)) ==> settled(x))
  ensures forall x *context :: {picked[x]} existing(x) ==> (old(nonnegp(x)) ==> nonnegp(x)) && (old(settled(x)) ==> settled(x))
  ensures_panic forall x *context :: {x.index} existing(x) ==> x.index >= old(x.index) && picked[x] >= old(picked)[x]
  ensures_panic forall x *context :: {picked[x]} existing(x) ==> x.index >= old(x.index) && picked[x] >= old(picked)[x]
  ensures_panic forall x *context :: {x.index} existing(x) ==> (old(nonnegp(x)) ==> nonnegp(x)) && (old(settled(x)) ==> settled(x))
  ensures_panic forall x *context :: {picked[x]} existing(x) ==> (old(nonnegp(x)) ==> nonnegp(x)) && (old(settled(x)) ==> settled(x))
  ensures_panic pend == nil && pendp == nil
  ensures forall x *context :: {asked[x]} existing(x) && asked[x] ==> old(asked)[x] || x.index > len(x.filters)

func (*context).Written(c) (b)
  props P04
  requires nn: c != nil && c.rw != nil
  ensures iff: b == (wstatus[c.rw] != 0)

func (*context).handler(c) (f)
  props P04
  requires nn: c != nil && c.rw != nil && nonnil(c.filters) && c.Injector != nil
  requires within: 0 <= c.index && c.index <= len(c.filters)
  requires each_at_most_once_in_order: picked[c] < c.index
  requires none_skipped: c.index == picked[c] + 1 || wstatus[c.rw] != 0
  requires not_after_written: wstatus[c.rw] == 0 || asked[c]
  requires previous_invoked: pend == nil && pendp == nil
  ensures elem: f == ite(c.index < len(c.filters), c.filters[c.index].fun, c.action)
  effect picked = update(old(picked), c, c.index)
  effect asked = update(old(asked), c, old(asked)[c] && f == nil)
  effect pend = f

func (*context).run(c)
  props P04
  requires nn: c != nil && c.rw != nil && nonnil(c.filters) && c.Injector != nil
  requires ready: 0 <= c.index && picked[c] < c.index && 0-1 <= picked[c] && (c.index == picked[c] + 1 || wstatus[c.rw] != 0 || c.index > len(c.filters))
  requires may_start: wstatus[c.rw] == 0 || asked[c]
  requires idle: pend == nil && pendp == nil
  maypanic
  modifies all context.index, picked, asked, pend, pendp, invokeerrs, wstatus
  new
  ensures idle: pend == nil && pendp == nil
  ensures ran_to_end_or_written: c.index > len(c.filters) || wstatus[c.rw] != 0
  ensures errors_surface: invokeerrs == old(invokeerrs)
  ensures grows: c.index >= old(c.index) && picked[c] >= old(picked)[c] && nonnegp(c)
  ensures asked: asked[c] ==> c.index > len(c.filters)
  ensures keeps_written: forall w any :: {wstatus[w]} old(wstatus)[w] != 0 ==> wstatus[w] != 0
  ensures_panic idle: pend == nil && pendp == nil
  ensures_panic grows: c.index >= old(c.index) && picked[c] >= old(picked)[c] && picked[c] <= c.index
  inv pend == nil && pendp == nil
  inv c.index >= old(c.index)
  inv picked[c] >= old(picked)[c]
  inv picked[c] < c.index
  inv 0-1 <= picked[c]
  inv c.index == picked[c] + 1 || wstatus[c.rw] != 0 || c.index > len(c.filters)
  inv wstatus[c.rw] == 0 || asked[c] || c.index > len(c.filters)
  inv invokeerrs == old(invokeerrs)
  inv forall w any :: {wstatus[w]} old(wstatus)[w] != 0 ==> wstatus[w] != 0
  inv c.index == old(c.index) || !asked[c] || c.index > len(c.filters)

func (*context).Next(c)
  props P04
  requires nn: c != nil && c.rw != nil && nonnil(c.filters) && c.Injector != nil
  requires from_a_filter: nonnegp(c) && settled(c)
  requires idle: pend == nil && pendp == nil
  maypanic
  modifies all context.index, wstatus
  begin asked = update(asked, c, true)
  modifies picked, asked, pend, pendp, invokeerrs
  new
  ensures rest_ran: c.index > len(c.filters) || wstatus[c.rw] != 0
  ensures grows: c.index > old(c.index) && picked[c] >= old(picked)[c] && nonnegp(c) && settled(c)
  ensures errors_surface: invokeerrs == old(invokeerrs)
  ensures asked: asked[c] ==> c.index > len(c.filters)
  ensures idle: pend == nil && pendp == nil
  ensures keeps_written: forall w any :: {wstatus[w]} old(wstatus)[w] != 0 ==> wstatus[w] != 0
  ensures_panic idle: pend == nil && pendp == nil
  ensures_panic grows: c.index >= old(c.index) && picked[c] >= old(picked)[c] && nonnegp(c)

# chains start at their first element with nothing picked
func newContext(goctx, rw, filters, actionFunc) (c)
  props P04
  requires nn: rw != nil && nonnil(filters)
  requires reg: regOK() && cacheOK()
  maypanic
  modifies regs, all maptype map[inject.provName]*inject.providerInfo, all maptype map[inject.provName][]reflect.Value
  new
  ensures start: fresh(c) && c.index == 0 && c.rw == rw && c.filters == filters && c.Injector != nil
  ensures action: (actionFunc == nil ==> c.action == nil) && (actionFunc != nil ==> c.action != nil)
  effect picked = update(old(picked), c, 0-1)
  effect asked = update(old(asked), c, true)

func newNestContext(inj, rw, filters, actionFunc) (c)
  props P04
  requires nn: inj != nil && rw != nil && nonnil(filters)
  requires reg: regOK() && cacheOK()
  maypanic
  modifies regs, all maptype map[inject.provName]*inject.providerInfo, all maptype map[inject.provName][]reflect.Value
  new
  ensures start: fresh(c) && c.index == 0 && c.rw == rw && c.filters == filters && c.Injector != nil
  ensures action: (actionFunc == nil ==> c.action == nil) && (actionFunc != nil ==> c.action != nil)
