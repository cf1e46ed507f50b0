package github.com/wujiu2020/strip

# ---- P09: the application's configuration ----
uninterp func cfgOf(c any, name string) string

iface (Configer).Find(c, name) (v)
  ensures v == cfgOf(c, name)

func (*Config).Find(c, name, defaultValue) (value)
  props P09
  requires nn: c != nil
  ensures imported: c.Configer != nil && cfgOf(c.Configer, name) != "" ==> value == cfgOf(c.Configer, name)
  ensures default: (c.Configer == nil || cfgOf(c.Configer, name) == "") ==> value == ite(len(defaultValue) > 0, defaultValue[0], "")

func (*Config).setParent(c, parent)
  props P09
  requires nn: c != nil
  modifies c.Configer
  ensures set: c.Configer == parent

func (Mode).IsDev(m) (b)
  props P09
  ensures def: b == (m == "dev")
