package github.com/wujiu2020/strip

# ---- P02: which action answers a matched path ----
# what the last nested chain was started with
ghost segs []string
ghost atRoot bool
ghost mres *route
ghost gotFilters filters
ghost gotFunc any
ghost ranFilters filters
ghost ranFunc any
ghost wrapped any
ghost wrapAct *routerAction
ghost wrapName string
ghost wrapRoute *route
ghost chains int
uninterp func actName(m string) string
uninterp func offers(t any, name string) bool

func splitRoutePath(p) (r)
  trusted the path's segments (P01)
  new
  keeps route.isEnd, route.action, route.allRoute, route.anyRoute, routerAction.controller, maptype map[method]*routerAction
  ensures len(r) >= 1
  effect atRoot = r[0] == ""
  effect segs = r
  effect mres = nil

func (*route).match(r, nextPaths, params) (rt)
  trusted the registered route that fits the path best (proved for P01 in router.spec)
  requires whole_path: r != nil && params != nil && nextPaths == segs && !atRoot
  modifies deref(params), elems(*params)
  new
  keeps route.isEnd, route.action, route.allRoute, route.anyRoute, routerAction.controller, maptype map[method]*routerAction
  ensures rt == nil || !fresh(rt)
  effect mres = rt

func (method).action(m) (s)
  trusted the method's name with only its first letter in upper case
  ensures s == actName(m)

func (method).isAll(m) (b)
  props P02
  ensures def: b == (m == "*")
func (method).isAny(m) (b)
  props P02
  ensures def: b == (m == "**")

func (*routerController).isFunc(c) (b)
  props P02
  requires nn: c != nil
  ensures def: b == (c.kind == 19)

func (*routerController).actionFuncExists(c, name) (b)
  trusted whether the controller's type has an exported method of the name (reflect)
  requires c != nil
  ensures b == offers(c.pTyp, name)

func newRouteAction(c, a, f) (r)
  props P02
  new
  ensures made: fresh(r) && r.controller == c && r.action == a && r.filters == f

func (paramList).values(d) (k, v)
  trusted collects the captured names and values (bounded runs of P01)
  new

func (*route).calcPath(r) (p)
  trusted the pattern's text, for display

func (*routerAction).wrapHandle(r, rt, params, name) (h)
  props P02
  new
  ensures made: h != nil
  effect wrapped = h
  effect wrapAct = r
  effect wrapName = name
  effect wrapRoute = rt

iface (github.com/wujiu2020/strip/inject.TypeProvider).Provide(inj, v) (r)
  maypanic

func newNestContext(inj, rw, filters, actionFunc) (c)
  trusted starts a chain of these filters and this action (P04)
  maypanic
  new
  effect gotFilters = filters
  effect gotFunc = actionFunc
  ensures c != nil

func (*context).run(c)
  trusted runs the chain it was made with (P04); user code does not change the routes
  maypanic
  modifies everything
  effect ranFilters = gotFilters
  effect ranFunc = gotFunc
  effect chains = old(chains) + 1

pure func byMethod(rt *route, m string) *routerAction = ite(rt.action[m] == nil && m == "HEAD", rt.action["GET"], rt.action[m])
pure func fn(a *routerAction) bool = a.controller.kind == 19
pure func allFits(rt *route, m string) bool = rt.allRoute != nil && (fn(rt.allRoute) || offers(rt.allRoute.controller.pTyp, actName(m)) || rt.allRoute.action != "")
pure func anyFits(rt *route) bool = rt.anyRoute != nil && (fn(rt.anyRoute) || offers(rt.anyRoute.controller.pTyp, rt.anyRoute.action))
pure func chosen(rt *route, m string) *routerAction = ite(byMethod(rt, m) != nil, byMethod(rt, m), ite(allFits(rt, m), rt.allRoute, ite(anyFits(rt), rt.anyRoute, nil)))
pure func chosenName(rt *route, m string) string = ite(byMethod(rt, m) != nil, byMethod(rt, m).action, ite(allFits(rt, m), ite(fn(rt.allRoute) || offers(rt.allRoute.controller.pTyp, actName(m)), actName(m), rt.allRoute.action), rt.anyRoute.action))

func (*routeRoot).handle(r, ctx, rw, req)
  props P02
  requires nn: r != nil && r.route != nil && ctx != nil && rw != nil && is(rw, *responseWriter) && req != nil && req.URL != nil
  requires actions: (forall a *routerAction :: {a.controller} a != nil ==> a.controller != nil)
  maypanic
  modifies everything, chains, ranFilters, ranFunc, atRoot, gotFilters, gotFunc, mres, segs, wrapAct, wrapName, wrapRoute, wrapped
  ensures one_chain: chains == old(chains) + 1
  ensures answered: (let rt = ite(atRoot, old(r.route), (let x = mres in ite(x != nil && old(x.isEnd), x, nil))) in (let m = strings.ToUpper(old(req.Method)) in (ite(rt == nil || old(chosen(rt, m)) == nil, ranFunc == nil && ranFilters == old(r.notFoundFilters), ranFunc == wrapped && wrapAct == old(chosen(rt, m)) && wrapName == old(chosenName(rt, m)) && ranFilters == old(chosen(rt, m).filters) && wrapRoute == rt))))
