package github.com/wujiu2020/strip/config

# ---- P32: configuration decoded into a struct ----
uninterp func fieldOf(v reflect.Value, i int) reflect.Value
uninterp func elemOf(v reflect.Value) reflect.Value
uninterp func addrOf(v reflect.Value) reflect.Value
uninterp func tagAt(t reflect.Type, i int) string
uninterp func anonAt(t reflect.Type, i int) bool
uninterp func tagGet(t string, k string) string
uninterp func tagOf(v reflect.Value) string
uninterp func embedded(v reflect.Value) bool
# the name each place was last bound to, how many bindings were made, and which structs were decoded
ghost bound arr[reflect.Value->string]
ghost binds int
ghost from *strip.Config
ghost done arr[reflect.Value->bool]
axiom forall v reflect.Value, i int :: {fieldOf(v, i)} tagOf(fieldOf(v, i)) == tagAt(v.Type(), i) && embedded(fieldOf(v, i)) == anonAt(v.Type(), i) && fieldOf(v, i).IsValid()
axiom forall v reflect.Value, i int, w reflect.Value, j int :: {fieldOf(v, i), fieldOf(w, j)} fieldOf(v, i) == fieldOf(w, j) ==> v == w && i == j
axiom forall v reflect.Value :: {v.Type()} v.IsValid() ==> v.Type() != nil && v.Type().Kind() == v.Kind()
axiom forall v reflect.Value :: {v.NumField()} v.NumField() == v.Type().NumField() && v.NumField() >= 0
axiom forall v reflect.Value :: {addrOf(v)} elemOf(addrOf(v)) == v && addrOf(v).IsValid() && addrOf(v).Kind() == 22
axiom forall v reflect.Value :: {v.Kind()} v.Kind() != 0 ==> v.IsValid()

extern (reflect.Value).Elem(v) (r)
  requires pointer: v.Kind() == 22
  ensures r == elemOf(v)
extern (reflect.Value).Field(v, i) (r)
  requires field: v.Kind() == 25 && 0 <= i && i < v.NumField()
  ensures r == fieldOf(v, i)
iface (reflect.Type).Field(t, i) (f)
  requires field: t != nil && 0 <= i && i < t.NumField()
  ensures f.Tag == tagAt(t, i) && f.Anonymous == anonAt(t, i)
extern (reflect.StructTag).Get(t, k) (s)
  ensures s == tagGet(t, k)
extern (reflect.Value).Addr(v) (r)
  ensures r == addrOf(v)
# panics for a field that is not exported
extern (reflect.Value).Interface(v) (x)
  requires valid: v.IsValid()
  maypanic
  ensures reflect.ValueOf(x) == v
# P09: the place gets the configured value, if there is one
extern (*github.com/wujiu2020/strip.Config).Bind(c, ptr, name)
  requires pointer: reflect.ValueOf(ptr).Kind() == 22 && c == from
  maypanic
  modifies bound, binds
  effect bound = update(old(bound), elemOf(reflect.ValueOf(ptr)), name)
  effect binds = old(binds) + 1

iface (github.com/wujiu2020/strip.Configer).Find(c, name) (v)
  ensures v == cfgText(c, name)
uninterp func cfgText(c any, name string) string

pure func conf(w reflect.Value) string = tagGet(tagOf(w), "conf")
pure func named(w reflect.Value) bool = conf(w) != "" && conf(w) != "-"
pure func isStruct(w reflect.Value) bool = w.Kind() == 25
# field i of e is a value of its own / a section / a part of e itself
pure func single(e reflect.Value, i int) bool = 0 <= i && i < e.NumField() && named(fieldOf(e, i)) && !isStruct(fieldOf(e, i))
pure func section(e reflect.Value, i int) bool = 0 <= i && i < e.NumField() && named(fieldOf(e, i)) && isStruct(fieldOf(e, i)) && !embedded(fieldOf(e, i))
pure func part(e reflect.Value, i int) bool = 0 <= i && i < e.NumField() && isStruct(fieldOf(e, i)) && embedded(fieldOf(e, i))
pure func inSection(e reflect.Value, sec string) bool = forall j int :: {fieldOf(e, j)} 0 <= j && j < e.NumField() && named(fieldOf(e, j)) ==> bound[fieldOf(e, j)] == sec + "::" + conf(fieldOf(e, j))
pure func fields(e reflect.Value) bool = (forall i int :: {fieldOf(e, i)} single(e, i) ==> bound[fieldOf(e, i)] == conf(fieldOf(e, i))) && (forall i int :: {fieldOf(e, i)} part(e, i) ==> done[fieldOf(e, i)])
pure func sections(e reflect.Value) bool = forall i int :: {fieldOf(e, i)} section(e, i) ==> inSection(fieldOf(e, i), conf(fieldOf(e, i)))

func parseSection(config, val, sec)
  props P32
  requires nn: config != nil && config == from && isStruct(val)
  maypanic
  modifies bound, binds
  ensures all: inSection(val, sec)
  ensures only: forall w reflect.Value :: {bound[w]} bound[w] != old(bound)[w] ==> named(w) && under(w, val) && bound[w] == sec + "::" + conf(w)
  ensures its_own: forall w reflect.Value, k int :: {bound[fieldOf(w, k)]} w != val ==> bound[fieldOf(w, k)] == old(bound)[fieldOf(w, k)]
  inv [i int] 0 <= i
  inv [i int] forall j int :: {fieldOf(val, j)} 0 <= j && j < i && j < val.NumField() && named(fieldOf(val, j)) ==> bound[fieldOf(val, j)] == sec + "::" + conf(fieldOf(val, j))
  inv forall w reflect.Value :: {bound[w]} bound[w] != old(bound)[w] ==> named(w) && under(w, val) && bound[w] == sec + "::" + conf(w)
  inv forall w reflect.Value, k int :: {bound[fieldOf(w, k)]} w != val ==> bound[fieldOf(w, k)] == old(bound)[fieldOf(w, k)]

# w is e or a part of it
uninterp func under(w reflect.Value, e reflect.Value) bool
uninterp func depth(w reflect.Value) int
axiom forall e reflect.Value :: {under(e, e)} under(e, e)
axiom forall v reflect.Value, i int, e reflect.Value :: {under(fieldOf(v, i), e)} under(fieldOf(v, i), e) == (fieldOf(v, i) == e || under(v, e))
axiom forall v reflect.Value, i int, w reflect.Value :: {under(w, fieldOf(v, i))} under(w, fieldOf(v, i)) ==> under(w, v)
axiom forall v reflect.Value, i int :: {fieldOf(v, i)} depth(fieldOf(v, i)) == depth(v) + 1
axiom forall w reflect.Value, e reflect.Value :: {under(w, e)} under(w, e) ==> depth(w) >= depth(e)
axiom forall w reflect.Value, a reflect.Value, b reflect.Value :: {under(w, a), under(w, b)} under(w, a) && under(w, b) ==> under(a, b) || under(b, a)
pure func complete(e reflect.Value) bool = fields(e) && sections(e)

func Decode(config, env)
  props P32
  let e = elemOf(reflect.ValueOf(env))
  requires nn: config != nil && config == from
  requires fresh_place: forall w reflect.Value :: {done[w]} under(w, e) ==> !done[w]
  maypanic
  begin done = update(done, elemOf(reflect.ValueOf(env)), true)
  modifies bound, binds, done
  ensures struct: isStruct(e)
  ensures started: done[e]
  ensures all: forall x reflect.Value :: {done[x]} done[x] && !old(done)[x] ==> complete(x) && under(x, e)
  ensures keeps: forall x reflect.Value :: {done[x]} old(done)[x] ==> done[x]
  ensures only: forall w reflect.Value :: {bound[w]} bound[w] != old(bound)[w] ==> named(w) && under(w, e)
  inv [i int] 0 <= i
  inv done[e]
  inv forall x reflect.Value :: {done[x]} done[x] && !old(done)[x] && x != e ==> complete(x)
  inv [i int] forall x reflect.Value, k int :: {under(x, fieldOf(e, k))} done[x] && !old(done)[x] && x != e && i <= k ==> !under(x, fieldOf(e, k))
  inv forall x reflect.Value :: {done[x]} done[x] && !old(done)[x] ==> under(x, e)
  inv forall x reflect.Value :: {done[x]} old(done)[x] ==> done[x]
  inv forall w reflect.Value :: {bound[w]} bound[w] != old(bound)[w] ==> named(w) && under(w, e)
  inv [i int] forall k int :: {fieldOf(e, k)} k < i && single(e, k) ==> bound[fieldOf(e, k)] == conf(fieldOf(e, k))
  inv [i int] forall k int :: {fieldOf(e, k)} k < i && part(e, k) ==> done[fieldOf(e, k)]
  inv [i int] forall k int :: {fieldOf(e, k)} k < i && section(e, k) ==> inSection(fieldOf(e, k), conf(fieldOf(e, k)))
