package github.com/wujiu2020/strip/utils/helpers

# ---- P32: configuration files, later ones in front of earlier ones ----
uninterp func absOf(p string) string
uninterp func dirOf(p string) string
uninterp func joined(d string, f string) string
uninterp func fmt1(f string, v any) string
# how many files were loaded and put in front of the one before; the one loaded last and the one before it; what was imported
ghost latest any
ghost par arr[any->any]
ghost imported any
ghost goal any
ghost before any
ghost loads int
ghost chained int
extern path/filepath.Abs(p) (r, err)
  ensures r == absOf(p)
extern path/filepath.Dir(p) (r)
  ensures r == dirOf(p)
extern path/filepath.Join(e) (r)
  requires two: len(e) == 2
  ensures r == joined(e[0], e[1])
extern fmt.Sprintf(f, v) (s)
  requires one: len(v) == 1
  ensures s == fmt1(f, v[0])
ghost cwd string
extern os.Getwd() (d, err)
  ensures d == cwd
extern os.IsNotExist(err) (b)
extern github.com/wujiu2020/strip/config.LoadIniFile(path) (c, err)
  modifies loads, latest, before
  ensures err == nil ==> c != nil && (old(latest) == nil || c != old(latest))
  effect loads = old(loads) + ite(err == nil, 1, 0)
  effect before = ite(err == nil, old(latest), old(before))
  effect latest = ite(err == nil, c, old(latest))
iface (github.com/wujiu2020/strip/config.Configer).SetParent(c, p)
  requires behind_the_one_before: c == latest && p == before && p != nil && chained == loads - 2
  modifies par, chained
  effect chained = old(chained) + 1
  effect par = update(old(par), c, p)
extern (*github.com/wujiu2020/strip.Strip).Logger(s) (l)
  requires s != nil
  ensures l != nil
iface (github.com/wujiu2020/strip.Logger).Infof(l, f, v)
iface (github.com/wujiu2020/strip.Logger).Errorf(l, f, v)
extern (*github.com/wujiu2020/strip.Strip).ImportConfig(s, c)
  requires loaded: s != nil && c != nil
  requires before_decoding: !done[elemOf(reflect.ValueOf(goal))]
  maypanic
  modifies imported
  effect imported = c
func LoadConfigFiles(sp, app, env, dir, addFiles) (conf)
  props P32
  requires nn: sp != nil && sp.Config != nil && config.Global != nil && len(os.Args) > 0
  requires fresh_place: forall w reflect.Value :: {done[w]} under(w, elemOf(reflect.ValueOf(env))) ==> !done[w]
  maypanic
  begin goal = env
  begin from = sp.Config
  begin loads = 0
  begin chained = 0
  begin latest = zero(any)
  modifies loads, chained, before, par, imported, latest, goal, from, bound, binds, done
  new
  ensures imports: imported == conf && conf != nil && conf == ite(loads == 0, config.Global, latest)
  ensures decodes: done[elemOf(reflect.ValueOf(env))]
  ensures every_one_in_front_of_the_one_before: loads == 0 || chained == loads - 1
  inv [last config.Configer] loads >= 0 && (last == nil) == (loads == 0) && last == latest && (loads == 0 || chained == loads - 1) && (loads == 0 ==> chained == 0)
