package github.com/wujiu2020/strip

# ---- P01: matching ----
# every route's parameter children are routes
pure func wfR() bool = forall r *route, i int :: {r.paramRoutes[i]} r != nil && 0 <= i && i < len(r.paramRoutes) ==> r.paramRoutes[i] != nil

# a parameter takes one segment; with a verb only a segment that ends in it
pure func takes(r *route, s string) bool = r.pathParam.isParam && (r.pathParam.customVerb == "" || hasSuffix(s, r.pathParam.customVerb))
pure func taken(r *route, s string) string = ite(r.pathParam.customVerb == "", s, s[0:len(s)-len(r.pathParam.customVerb)])
# what a child gives for the path: the child itself for its last segment, else what it finds for the rest
rec func below(c *route, ps []string) *route = ite(len(ps) == 1, ite(c.isEnd, c, nil), let b = best(c, ps[1:]) in ite(b != nil && b.isEnd, b, nil))
  reads route.pathRoutes, route.paramRoutes, route.wildRoute, route.isEnd, route.pathParam, map[string]*route, elems *route, elems string
rec func viaStatic(r *route, ps []string) *route = let s = r.pathRoutes[ps[0]] in ite(s == nil, nil, below(s, ps))
  reads route.pathRoutes, route.paramRoutes, route.wildRoute, route.isEnd, route.pathParam, map[string]*route, elems *route, elems string
rec func viaParam(c *route, ps []string) *route = ite(takes(c, ps[0]), below(c, ps), nil)
  reads route.pathRoutes, route.paramRoutes, route.wildRoute, route.isEnd, route.pathParam, map[string]*route, elems *route, elems string
# the first parameter child from position j that completes the path
rec func firstParam(r *route, ps []string, j int) int =
  ite(j < 0 || j >= len(r.paramRoutes), j, ite(viaParam(r.paramRoutes[j], ps) != nil, j, firstParam(r, ps, j+1)))
  reads route.pathRoutes, route.paramRoutes, route.wildRoute, route.isEnd, route.pathParam, map[string]*route, elems *route, elems string
rec func best(r *route, ps []string) *route =
  ite(viaStatic(r, ps) != nil, viaStatic(r, ps), let i = firstParam(r, ps, 0) in ite(i < len(r.paramRoutes), viaParam(r.paramRoutes[i], ps), r.wildRoute))
  reads route.pathRoutes, route.paramRoutes, route.wildRoute, route.isEnd, route.pathParam, map[string]*route, elems *route, elems string
# the captures of the chosen route, in path order
rec func capN(r *route, ps []string) int =
  ite(viaStatic(r, ps) != nil, ite(len(ps) == 1, 0, capN(r.pathRoutes[ps[0]], ps[1:])), let i = firstParam(r, ps, 0) in ite(i < len(r.paramRoutes), ite(len(ps) == 1, 1, 1 + capN(r.paramRoutes[i], ps[1:])), ite(r.wildRoute != nil, 1, 0)))
  reads route.pathRoutes, route.paramRoutes, route.wildRoute, route.isEnd, route.pathParam, map[string]*route, elems *route, elems string
rec func capK(r *route, ps []string, k int) string =
  ite(viaStatic(r, ps) != nil, capK(r.pathRoutes[ps[0]], ps[1:], k), let i = firstParam(r, ps, 0) in ite(i < len(r.paramRoutes), ite(k == 0, r.paramRoutes[i].pathParam.paramName, capK(r.paramRoutes[i], ps[1:], k-1)), r.wildRoute.pathParam.paramName))
  reads route.pathRoutes, route.paramRoutes, route.wildRoute, route.isEnd, route.pathParam, map[string]*route, elems *route, elems string
rec func capV(r *route, ps []string, k int) string =
  ite(viaStatic(r, ps) != nil, capV(r.pathRoutes[ps[0]], ps[1:], k), let i = firstParam(r, ps, 0) in ite(i < len(r.paramRoutes), ite(k == 0, taken(r.paramRoutes[i], ps[0]), capV(r.paramRoutes[i], ps[1:], k-1)), strings.Join(ps, "/")))
  reads route.pathRoutes, route.paramRoutes, route.wildRoute, route.isEnd, route.pathParam, map[string]*route, elems *route, elems string
pure func single(m map[string]string, k string, v string) bool = has(m, k) && m[k] == v && (forall s string :: {has(m, s)} has(m, s) ==> s == k)

func (*pathParam).matchParamRoute(d, p) (value, ok)
  props P01
  requires nn: d != nil
  ensures ok: ok == (d.isParam && (d.customVerb == "" || hasSuffix(p, d.customVerb)))
  ensures value: ok ==> value == ite(d.customVerb == "", p, p[0:len(p)-len(d.customVerb)])

func (*route).match(r, nextPaths, params) (rt)
  props P01
  requires nn: r != nil && params != nil && len(nextPaths) >= 1
  requires tree: wfR()
  modifies deref(params), elems(*params)
  new
  keeps route.pathRoutes, route.paramRoutes, route.wildRoute, route.isEnd, route.pathParam, maptype map[string]*route, elems *route, elems string
  ensures route: rt == best(r, nextPaths)
  ensures count: rt != nil ==> len(*params) == old(len(*params)) + capN(r, nextPaths) && capN(r, nextPaths) >= 0
  ensures captured_names: rt != nil ==> forall j int :: {(*params)[j]} old(len(*params)) <= j && j < len(*params) ==> has((*params)[j], capK(r, nextPaths, j - old(len(*params))))
  ensures captured_values: rt != nil ==> forall j int :: {(*params)[j]} old(len(*params)) <= j && j < len(*params) ==> (*params)[j][capK(r, nextPaths, j - old(len(*params)))] == capV(r, nextPaths, j - old(len(*params)))
  ensures captured_only: rt != nil ==> forall j int, s string :: {has((*params)[j], s)} old(len(*params)) <= j && j < len(*params) && has((*params)[j], s) ==> s == capK(r, nextPaths, j - old(len(*params)))
  ensures grown: base(*params) == old(base(*params)) || fresh(*params)
  ensures kept: forall j int :: {(*params)[j]} 0 <= j && j < old(len(*params)) ==> (*params)[j] == old((*params)[j])
  ensures untouched: rt == nil ==> *params == old(*params)
  inv [i int] firstParam(r, nextPaths, 0) == firstParam(r, nextPaths, i + 1)
  inv [i int] firstParam(r, nextPaths, 0) == firstParam(r, nextPaths, i)
  inv [rt *route] rt == nil
  inv *params == old(*params)
  inv viaStatic(r, nextPaths) == nil
