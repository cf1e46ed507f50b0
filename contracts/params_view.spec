package github.com/wujiu2020/strip/params

# ---- P13: the unified view ----
pure func nQ(p *Params, k string) int = ite(has(p.Query, k), len(p.Query[k]), 0)
pure func nR(p *Params, k string) int = ite(has(p.Route.Values, k), len(p.Route.Values[k]), 0)
pure func nF(p *Params, k string) int = ite(has(p.Form, k), len(p.Form[k]), 0)

func (*Params).calcValues(p) (values)
  props P13
  requires nn: p != nil
  new
  split
  ensures names: forall k string :: {at(values, k)} has(values, k) == (has(p.Query, k) || has(p.Route.Values, k) || has(p.Form, k))
  ensures count: forall k string :: {at(values, k)} has(values, k) ==> len(values[k]) == nQ(p, k) + nR(p, k) + nF(p, k)
  ensures query: forall k string, i int :: {at(values, k)[i]} has(values, k) && 0 <= i && i < nQ(p, k) ==> at(values, k)[i] == at(p.Query, k)[i]
  ensures route: forall k string, i int :: {at(values, k)[i]} has(values, k) && nQ(p, k) <= i && i < nQ(p, k) + nR(p, k) ==> at(values, k)[i] == at(p.Route.Values, k)[i-nQ(p, k)]
  ensures form: forall k string, i int :: {at(values, k)[i]} has(values, k) && nQ(p, k) + nR(p, k) <= i && i < nQ(p, k) + nR(p, k) + nF(p, k) ==> at(values, k)[i] == at(p.Form, k)[i-nQ(p, k)-nR(p, k)]
  inv [m outer url.Values, v visited map[string][]string] forall k string :: {at(m, k)} has(m, k) == select(v, k)
  inv [m outer url.Values, v visited map[string][]string] forall k string :: {at(m, k)} has(m, k) ==> len(m[k]) == nQ(p, k)
  inv [m outer url.Values, v visited map[string][]string] forall k string :: {at(m, k)} has(m, k) == (has(p.Query, k) || select(v, k))
  inv [m outer url.Values, v visited map[string][]string] forall k string :: {at(m, k)} has(m, k) ==> len(m[k]) == nQ(p, k) + ite(select(v, k), nR(p, k), 0)
  inv [m outer url.Values, v visited map[string][]string] forall k string :: {at(m, k)} has(m, k) == (has(p.Query, k) || has(p.Route.Values, k) || select(v, k))
  inv [m outer url.Values, v visited map[string][]string] forall k string :: {at(m, k)} has(m, k) ==> len(m[k]) == nQ(p, k) + nR(p, k) + ite(select(v, k), nF(p, k), 0)
  inv [m outer url.Values] forall k string :: {at(m, k)} has(m, k) ==> m[k] == nil || fresh(m[k])
  inv [m outer url.Values] forall k string, j string :: {at(m, k), at(m, j)} has(m, k) && has(m, j) && k != j && m[k] != nil ==> base(m[k]) != base(m[j])
  inv [m outer url.Values] forall k string, i int :: {at(m, k)[i]} has(m, k) && 0 <= i && i < nQ(p, k) ==> at(m, k)[i] == at(p.Query, k)[i]
  inv [m outer url.Values, v visited map[string][]string] forall k string, i int :: {at(m, k)[i]} has(m, k) && select(v, k) && nQ(p, k) <= i && i < nQ(p, k) + nR(p, k) ==> at(m, k)[i] == at(p.Route.Values, k)[i-nQ(p, k)]
  inv [m outer url.Values] forall k string, i int :: {at(m, k)[i]} has(m, k) && nQ(p, k) <= i && i < nQ(p, k) + nR(p, k) ==> at(m, k)[i] == at(p.Route.Values, k)[i-nQ(p, k)]
  inv [m outer url.Values, v visited map[string][]string] forall k string, i int :: {at(m, k)[i]} has(m, k) && select(v, k) && nQ(p, k) + nR(p, k) <= i && i < nQ(p, k) + nR(p, k) + nF(p, k) ==> at(m, k)[i] == at(p.Form, k)[i-nQ(p, k)-nR(p, k)]
  inv [v visited map[string][]string] forall k string :: {select(v, k)} select(v, k) ==> has(p.Query, k)
  inv [v visited map[string][]string] forall k string :: {select(v, k)} select(v, k) ==> has(p.Route.Values, k)
  inv [v visited map[string][]string] forall k string :: {select(v, k)} select(v, k) ==> has(p.Form, k)

# the parsed query of a URL; Query parses it anew at every call
extern (*net/url.URL).Query(u) (q)
  requires u: u != nil
  ensures fresh: fresh(q)
extern (*net/http.Request).ParseForm(r) (err)
  modifies r.Form, r.PostForm
extern (*net/http.Request).ParseMultipartForm(r, n) (err)
  modifies r.Form, r.PostForm, r.MultipartForm
  ensures form: err == nil ==> r.MultipartForm != nil

func ParseParams(params, maxMemory) (err)
  new
  props P13
  requires nn: params != nil && params.req != nil && params.req.URL != nil
  modifies params.Query, params.Form, params.Files, params.Values, params.req.Form, params.req.PostForm, params.req.MultipartForm
  maypanic
  split
  ensures names: err == nil ==> forall k string :: {at(params.Values, k)} has(params.Values, k) == (has(params.Query, k) || has(params.Route.Values, k) || has(params.Form, k))
  ensures count: err == nil ==> forall k string :: {at(params.Values, k)} has(params.Values, k) ==> len(params.Values[k]) == nQ(params, k) + nR(params, k) + nF(params, k)
  ensures route: params.Route == old(params.Route)
  ensures form: err == nil ==> params.Form == params.req.PostForm || params.Form == old(params.Form) || (params.req.MultipartForm != nil && params.Form == params.req.MultipartForm.Value)
extern (net/http.Header).Get(h, k) (v)
