package github.com/wujiu2020/strip

# ---- P33: the route table a registration leaves ----
# children by kind: parameters with a verb before plain ones and all of one name, literals under their own text, at most one wildcard that ends its pattern
pure func par(x *route, i int) *route = x.paramRoutes[i]
pure func wfP() bool = forall x *route, i int :: {x.paramRoutes[i]} x != nil && 0 <= i && i < len(x.paramRoutes) ==> x.paramRoutes[i] != nil && x.paramRoutes[i].pathParam.isParam && x.paramRoutes[i].pathParam.paramName == x.paramRoutes[0].pathParam.paramName
pure func wfV() bool = forall x *route, i int, j int :: {x.paramRoutes[i], x.paramRoutes[j]} x != nil && 0 <= i && i < j && j < len(x.paramRoutes) && x.paramRoutes[j].pathParam.customVerb != "" ==> x.paramRoutes[i].pathParam.customVerb != ""
pure func wfL() bool = forall x *route, k string :: {x.pathRoutes[k]} x != nil && has(x.pathRoutes, k) ==> x.pathRoutes[k] != nil && x.pathRoutes[k].pathParam.path == k && !x.pathRoutes[k].pathParam.isParam && !x.pathRoutes[k].pathParam.isWild
pure func wfW() bool = forall x *route :: {x.wildRoute} x != nil && x.wildRoute != nil ==> x.wildRoute.pathParam.isWild && !x.wildRoute.pathParam.isParam
pure func wfM() bool = forall x *route :: {x.pathRoutes} {x.wildRoute} x != nil ==> x.pathRoutes != nil && x.action != nil
pure func wfS() bool = forall x *route, y *route :: {x.paramRoutes, y.paramRoutes} x != nil && y != nil && base(x.paramRoutes) == base(y.paramRoutes) ==> x == y

# handlers as Router, Get and the like make them
pure func okM(m []Handler) bool = exists k int :: {m[k]} 0 <= k && k < len(m) && is(m[k], routerController)
pure func okP(m []Handler) bool = len(m) >= 1 && is(m[0], string)
rec func okH(m []Handler) bool = forall k int :: {m[k]} 0 <= k && k < len(m) ==> (is(m[k], methodParams) ==> okM(as(m[k], methodParams)) && okH(as(m[k], methodParams))) && (is(m[k], routeParams) ==> okP(as(m[k], routeParams)) && okH(as(m[k], routeParams)))
  reads elems Handler
pure func okA(a routeArgs) bool = (forall i int :: {a.methods[i]} 0 <= i && i < len(a.methods) ==> okM(a.methods[i]) && okH(a.methods[i])) && (forall i int :: {a.routers[i]} 0 <= i && i < len(a.routers) ==> okP(a.routers[i]) && okH(a.routers[i]))

extern path.Clean(p) (r)
  ensures hasPrefix(p, "/") ==> hasPrefix(r, "/") && !contains(r, "//") && (r == "/" || !hasSuffix(r, "/"))
extern strings.Split(s, sep) (v)
  ensures len(v) >= 1
  ensures s == "/" && sep == "/" ==> len(v) == 2 && v[1] == ""
  ensures sep == "/" && hasPrefix(s, "/") && s != "/" && !contains(s, "//") && !hasSuffix(s, "/") ==> len(v) >= 2 && (forall i int :: {v[i]} 1 <= i && i < len(v) ==> v[i] != "")

func splitRoutePath(p) (r)
  props P33
  ensures some: len(r) >= 1
  ensures root: r[0] == "" ==> len(r) == 1
  ensures segments: r[0] != "" ==> (forall i int :: {r[i]} 0 <= i && i < len(r) ==> r[i] != "")

func (*pathParam).set(d, p)
  props P33
  requires nn: d != nil && p != ""
  requires blank: !d.isParam && !d.isWild && d.customVerb == ""
  modifies fields(d)
  ensures text: d.path == p
  ensures kind: d.isParam == hasPrefix(p, ":") && d.isWild == hasPrefix(p, "*:")
  ensures name: d.isParam || d.isWild ==> (let s = ite(hasPrefix(p, ":"), p[1:], p[2:]) in (s != "" ==> d.paramName == ite(contains(s, ":"), s[:indexof(s, ":")], s) && d.customVerb == ite(contains(s, ":"), s[indexof(s, ":"):], "")))

func (filters).append(h, values) (r)
  trusted joins two filter lists (proved for P03)
  modifies elems(h)
func (filters).remove(h, values) (r)
  trusted a filter list without the exempted ones (proved for P03)

func (*routerController).ensureHasAction(c, name)
  trusted panics unless the controller offers the action
  requires c != nil
  maypanic
func (*routerController).actionFuncExists(c, name) (b)
  trusted whether the controller's type has an exported method of the name (P27)
  requires c != nil
func (method).action(m) (s)
  trusted the method's name with only its first letter in upper case

func calcRouterArgs(handlers) (a)
  props P33
  requires made: okH(handlers)
  maypanic
  new
  modifies all elems *filter
  keeps route.paramRoutes, route.wildRoute, route.isEnd, route.pathRoutes, route.action, pathParam.path, pathParam.isParam, pathParam.isWild, pathParam.paramName, pathParam.customVerb, maptype map[string]*route, elems *route, elems Handler
  ensures sorted: okA(a)
  ensures ctl: okM(handlers) ==> a.ctroler != nil
  ensures path: len(handlers) >= 1 && is(handlers[0], string) ==> len(a.strings) >= 1 && a.strings[0] == as(handlers[0], string)
  inv [args routeArgs] forall i int :: {args.methods[i]} 0 <= i && i < len(args.methods) ==> okM(args.methods[i]) && okH(args.methods[i])
  inv [args routeArgs] forall i int :: {args.routers[i]} 0 <= i && i < len(args.routers) ==> okP(args.routers[i]) && okH(args.routers[i])
  inv [args routeArgs] fresh(args.methods) || base(args.methods) == nil
  inv [args routeArgs] fresh(args.routers) || base(args.routers) == nil
  inv [args routeArgs] fresh(args.strings) || base(args.strings) == nil
  inv [args routeArgs, n int] forall k int :: {handlers[k]} 0 <= k && k <= n && is(handlers[k], routerController) ==> args.ctroler != nil
  inv [args routeArgs, n int] n >= 0 && is(handlers[0], string) ==> len(args.strings) >= 1 && args.strings[0] == as(handlers[0], string)
  inv [args routeArgs, n int] n == 0 - 1 ==> len(args.strings) == 0
  inv [args routeArgs, n int] n >= 0 - 1

func (*route).configRoutes(r, args)
  props P33
  requires nn: r != nil
  requires end: r.isEnd
  requires made: okA(args)
  requires tree: wfP() && wfV() && wfL() && wfW() && wfM() && wfS()
  maypanic
  new
  modifies all route.paramRoutes, all route.wildRoute, all route.isEnd, all route.allRoute, all route.anyRoute, all maptype map[string]*route, all maptype map[method]*routerAction, all elems *route, all elems *filter
  keeps elems Handler
  ensures params: wfP()
  ensures verbs_first: wfV()
  ensures literals: wfL()
  ensures wildcards: wfW()
  ensures maps: wfM()
  ensures apart: wfS()
  ensures ends_kept: forall x *route :: {x.isEnd} x != nil && !fresh(x) && old(x.isEnd) ==> x.isEnd
  ensures actions_kept: forall x *route, k method :: {has(x.action, k)} x != nil && !fresh(x) && old(has(x.action, k)) ==> has(x.action, k)
  ensures wildcard_kept: forall x *route :: {x.wildRoute} x != nil && !fresh(x) && old(x.wildRoute) != nil ==> x.wildRoute == old(x.wildRoute)
  ensures literals_kept: forall x *route, k string :: {x.pathRoutes[k]} x != nil && !fresh(x) && old(has(x.pathRoutes, k)) ==> has(x.pathRoutes, k) && x.pathRoutes[k] == old(x.pathRoutes[k])
  inv [allMethod named methodParams, allArgs named routeArgs] allMethod != nil ==> allArgs.ctroler != nil
  inv [anyMethod named methodParams, anyArgs named routeArgs] anyMethod != nil ==> anyArgs.ctroler != nil
  inv okA(args)
  inv wfP()
  inv wfV()
  inv wfL()
  inv wfW()
  inv wfM()
  inv wfS()
  inv forall x *route :: {x.isEnd} x != nil && !fresh(x) && old(x.isEnd) ==> x.isEnd
  inv forall x *route :: {x.wildRoute} x != nil && !fresh(x) && old(x.wildRoute) != nil ==> x.wildRoute == old(x.wildRoute)
  inv forall x *route, k string :: {x.pathRoutes[k]} x != nil && !fresh(x) && old(has(x.pathRoutes, k)) ==> has(x.pathRoutes, k) && x.pathRoutes[k] == old(x.pathRoutes[k])
  inv forall x *route, k method :: {has(x.action, k)} x != nil && !fresh(x) && old(has(x.action, k)) ==> has(x.action, k)
  inv [t *route] t != nil
  inv [targetRoute named *route, i int, paths named outer []string] i >= len(paths) - 1 ==> targetRoute.isEnd
  inv r.isEnd
  inv [paths []string, i int] forall k int :: {paths[k]} 0 <= k && k < len(paths) ==> paths[k] != ""
  inv [i int, targetRoute named outer *route, rt named outer *route] i >= 0 ==> targetRoute.paramRoutes[0].pathParam.paramName == rt.pathParam.paramName
