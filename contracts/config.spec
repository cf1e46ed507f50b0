package github.com/wujiu2020/strip/config

# ---- P09: lookup ----
uninterp func envOf(k string) string
uninterp func envText(s string) string
# what a configuration source resolves a key to
uninterp func resolves(c any, name string) string

# the variable a key is overridden by: section and key, separators as underscores, in upper case
pure func envKey(section string, key string) string = strings.ToUpper(envText(ite(section != "", section + "_", "") + key))
pure func secOf(name string) string = let p = strings.SplitN(name, "::", 2) in ite(len(p) > 1, p[0], "")
pure func keyOf(name string) string = let p = strings.SplitN(name, "::", 2) in p[len(p)-1]
pure func sec(s string) string = ite(s == "", "default", s)
pure func own(c *config, s string, k string) string = ite(has(c.data, sec(s)), c.data[sec(s)][k], "")
# section maps are not shared
pure func wfC(c *config) bool = c.data != nil && (forall s string :: {at(c.data, s)} has(c.data, s) ==> at(c.data, s) != nil) && (forall s string, t string :: {at(c.data, s), at(c.data, t)} has(c.data, s) && has(c.data, t) && at(c.data, s) == at(c.data, t) ==> s == t)

extern os.Getenv(k) (v)
  ensures v == envOf(k)

extern (*strings.Replacer).Replace(r, s) (t)
  ensures t == envText(s)

iface (Configer).Find(c, name) (v)
  ensures v == resolves(c, name)

func convertToEnvKey(section, key) (k)
  props P09
  ensures key: k == envKey(section, key)

func (*config).Find(c, name) (value)
  props P09
  requires nn: c != nil
  ensures none: keyOf(name) == "" ==> value == ""
  ensures environment: keyOf(name) != "" && envOf(envKey(secOf(name), keyOf(name))) != "" ==> value == envOf(envKey(secOf(name), keyOf(name)))
  ensures own: keyOf(name) != "" && envOf(envKey(secOf(name), keyOf(name))) == "" && own(c, secOf(name), keyOf(name)) != "" ==> value == own(c, secOf(name), keyOf(name))
  ensures parent: keyOf(name) != "" && envOf(envKey(secOf(name), keyOf(name))) == "" && own(c, secOf(name), keyOf(name)) == "" ==> value == ite(c.parent == nil, "", resolves(c.parent, name))

func (*config).ListSection(c, section) (m)
  props P09
  requires nn: c != nil
  new
  ensures absent: !has(c.data, section) ==> m == nil
  ensures copied: has(c.data, section) ==> m != nil && fresh(m) && (forall k string :: {has(m, k)} has(m, k) == has(c.data[section], k)) && (forall k string :: {m[k]} has(m, k) ==> m[k] == c.data[section][k])
  inv [v visited map[string]string, w outer map[string]string] forall k string :: {has(w, k)} has(w, k) == select(v, k)
  inv [v visited map[string]string] forall k string :: {select(v, k)} select(v, k) ==> has(c.data[section], k)
  inv [w outer map[string]string] forall k string :: {w[k]} has(w, k) ==> w[k] == c.data[section][k]

func (*config).SetParent(c, parent)
  props P09
  requires nn: c != nil
  modifies c.parent
  ensures set: c.parent == parent

# ---- P10: reading ----
# the line being read, and the section the last header named
ghost line string
ghost cur string
ghost sets int
ghost count int
ghost reads int
ghost rdErr any

pure func isComment(l string) bool = len(l) > 0 && (l[0] == 35 || l[0] == 59)
pure func isHeader(l string) bool = len(l) > 0 && !isComment(l) && l[0] == 91 && l[len(l)-1] == 93
pure func isKV(l string) bool = len(l) > 0 && !isComment(l) && !isHeader(l)
pure func headerOf(l string) string = strings.TrimSpace(l[1:len(l)-1])

# the key's text ends at its closing quote, the value follows the first separator after it
pure func quoteOf(l string) string = ite(l[0] == 34, ite(len(l) >= 6 && l[0:3] == "\"\"\"", "\"\"\"", "\""), ite(l[0] == 96, "`", ""))
pure func sepOf(l string) int = let q = quoteOf(l) in ite(q == "", strings.IndexAny(l, "=:"), let p = indexof(l[len(q):], q) + len(q) in strings.IndexAny(l[p:], "=:") + p)
pure func keyText(l string) string = let q = quoteOf(l) in ite(q == "", strings.TrimSpace(l[0:sepOf(l)]), l[len(q):indexof(l[len(q):], q) + len(q)])
pure func rightOf(l string) string = strings.TrimSpace(l[sepOf(l)+1:])
pure func vquote(r string) string = ite(len(r) >= 2 && r[0:1] == "`", "`", ite(len(r) >= 6 && r[0:3] == "\"\"\"", "\"\"\"", ""))
pure func valText(l string) string = let r = rightOf(l) in let q = vquote(r) in ite(q == "", strings.TrimSpace(r), r[len(q):strings.LastIndex(r[len(q):], q) + len(q)])

func (*config).setValue(c, section, key, value)
  props P10 P09
  requires wf: c != nil && wfC(c)
  requires this_line: sets == 0 && section == cur && (isHeader(line) && key == "" || isKV(line) && (keyText(line) != "-" ==> key == keyText(line)) && value == valText(line))
  effect sets = 1
  modifies entries(c.data), entries(at(c.data, sec(section)))
  new
  ensures wf: wfC(c)
  ensures created: has(c.data, sec(section))
  ensures stored: key != "" ==> has(c.data[sec(section)], key) && c.data[sec(section)][key] == value
  ensures others: forall s string, k string :: {has(c.data[s], k)} !(s == sec(section) && k == key && key != "") ==> (has(c.data, s) && has(c.data[s], k)) == old(has(c.data, s) && has(c.data[s], k)) && c.data[s][k] == old(c.data[s][k])
  ensures sections: forall s string :: {has(c.data, s)} s != sec(section) ==> has(c.data, s) == old(has(c.data, s))

extern bufio.NewReader(r) (b)
  new
  ensures b != nil

extern (*bufio.Reader).Peek(b, n) (p, err)
  new
  ensures err == nil ==> len(p) == n
  effect rdErr = ite(err != nil && err != io.EOF, err, old(rdErr))

extern (*bufio.Reader).Read(b, p) (n, err)
  modifies elems(p)

# the next line; the one before has been dealt with
extern (*bufio.Reader).ReadString(b, delim) (s, err)
  requires stored_or_rejected: isKV(line) || isHeader(line) ==> sets == 1
  requires error_not_dropped: rdErr == nil
  requires whole: delim == 10
  ensures err == nil ==> len(s) > 0
  effect line = strings.TrimSpace(s)
  effect sets = 0
  effect cur = ite(isHeader(strings.TrimSpace(s)), headerOf(strings.TrimSpace(s)), old(cur))
  effect rdErr = ite(err != nil && err != io.EOF, err, old(rdErr))

func (*config).loadFromReader(c, r) (err)
  props P10
  requires wf: c != nil && wfC(c) && r != nil
  requires start: line == "" && cur == "" && sets == 0 && rdErr == nil
  modifies all maptype map[string]map[string]string, all maptype map[string]string, line, cur, sets, rdErr
  new
  ensures wf: wfC(c)
  ensures read_error: rdErr != nil ==> err == rdErr
  ensures last_line: err == nil && (isKV(line) || isHeader(line)) ==> sets == 1
  ensures blank_header: err == nil && isHeader(line) ==> headerOf(line) != ""
  inv wfC(c)
  inv rdErr == nil
  inv isKV(line) || isHeader(line) ==> sets == 1
  inv [s string] s == cur
