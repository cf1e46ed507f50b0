package github.com/wujiu2020/strip

# ---- P24 ----
# what reached the printer
ghost printed int
ghost text string
iface (LogPrinter).Print(p, v)
  requires one_string: len(v) == 1 && is(v[0], string)
  modifies printed, text
  ensures printed == old(printed) + 1 && text == as(v[0], string)

# a newline becomes a backslash and an n
uninterp func esc(s string) string
axiom forall s string :: {esc(s)} !contains(esc(s), "\n")
axiom forall s string :: {esc(s)} !contains(s, "\n") ==> esc(s) == s
axiom forall a string, b string :: {esc(a + b)} esc(a + b) == esc(a) + esc(b)
pure func cut(s string) string = ite(hasSuffix(s, "\n"), s[:len(s)-1], s)
extern strings.Replace(s, from, to, n) (r)
  ensures from == "\n" && to == "\\n" && n < 0 ==> r == esc(s)
extern strings.ReplaceAll(s, from, to) (r)
  ensures from == "\n" && to == "\\n" ==> r == esc(s)
uninterp func painted(b brush, s string) string
funcval brush : (b, s) (r)
  ensures r == painted(b, s)
ghost callText string
ghost stackText string
iface (native).funcCallMsg(n, depth) (r)
  modifies callText
  ensures r == callText
extern github.com/wujiu2020/strip.Stack(n) (b)
  modifies stackText
  ensures bytesstr(b) == stackText

pure func head(l *baseLogger, tag string, prefix string, opt LineOpt) string = ite(l.line && !opt.Hidden, tag + prefix + callText, tag + prefix)
pure func dumped(l *baseLogger, level int, msg string, opt LineOpt) bool = (l.stack >= level || opt.Stack) && !(len(msg) > 5 && (msg[:5] == "PANIC" || msg[:5] == "STACK"))
pure func line(l *baseLogger, level int, prefix string, msg string, opt LineOpt) string = ite(l.color, painted(DefaultColors[level-1], head(l, DefaultLevelTag[level-1], prefix, opt)), head(l, DefaultLevelTag[level-1], prefix, opt)) + " " + msg
pure func whole(l *baseLogger, level int, prefix string, msg string, opt LineOpt) string = ite(dumped(l, level, msg, opt), line(l, level, prefix, msg, opt) + "\n" + stackText, line(l, level, prefix, msg, opt))

func (*baseLogger).print(l, level, prefix, msg, opt)
  props P24
  paths 400
  requires nn: l != nil && l.out != nil && l.native != nil
  requires level: 1 <= level && level <= 9
  requires colors: DefaultColors[level-1] != nil
  modifies printed, text, callText, stackText
  new
  ensures once: printed == old(printed) + 1
  ensures whole: text == ite(l.flat, esc(cut(whole(l, level, prefix, msg, opt))), whole(l, level, prefix, msg, opt))
  ensures one_line: l.flat ==> !contains(text, "\n")

# what the level methods hand to the printing method
ghost nprint int
ghost nlevel int
ghost nprefix string
ghost nmsg string
ghost nopt LineOpt
iface (native).print(n, level, prefix, msg, opt)
  requires level: 1 <= level && level <= 9
  modifies nprint, nlevel, nprefix, nmsg, nopt, printed, text, callText, stackText
  new
  ensures nprint == old(nprint) + 1 && nlevel == level && nprefix == prefix && nmsg == msg && nopt == opt

uninterp func formatted(format string, v []any) string
uninterp func spaced(v []any) string
extern fmt.Sprintf(format, v) (s)
  ensures s == formatted(format, v)
uninterp func one(v any) string
extern fmt.Sprintln(v) (s)
  ensures s == spaced(v)
  ensures len(v) == 1 ==> s == one(v[0])
# a prefix parser of the application's: it may take some of the values
uninterp func parsedPrefix(f PrefixParser, v []any) string
uninterp func parsedRest(f PrefixParser, v []any) []any
funcval PrefixParser : (f, v) (p, rest)
  ensures p == parsedPrefix(f, v) && rest == parsedRest(f, v)

pure func hasOpt(v []any) bool = len(v) > 0 && is(v[len(v)-1], LineOpt)
pure func values(v []any) []any = ite(hasOpt(v), v[:len(v)-1], v)
pure func shown(l *baseLogger, v []any) []any = ite(l.prefixParser != nil, parsedRest(l.prefixParser, values(v)), values(v))
pure func before(l *baseLogger, v []any) string = l.prefix + ite(l.prefixParser != nil, parsedPrefix(l.prefixParser, values(v)), "")
pure func passes(l *baseLogger, level int) bool = level <= l.level && level <= GlobalLevel
pure func depthOf(l *baseLogger, v []any) int = nopt.Depth

func (*baseLogger).writef(l, level, format, v)
  props P24
  requires level: 1 <= level && level <= 9
  requires nn: l != nil && l.native != nil
  modifies nprint, nlevel, nprefix, nmsg, nopt, printed, text, callText, stackText
  new
  ensures silent: !old(passes(l, level)) ==> nprint == old(nprint) && printed == old(printed)
  ensures once: old(passes(l, level)) ==> nprint == old(nprint) + 1 && nlevel == level
  ensures prefix: old(passes(l, level)) ==> nprefix == old(before(l, v))
  ensures msg: old(passes(l, level)) ==> nmsg == formatted(format, old(shown(l, v)))
  ensures opts: old(passes(l, level)) ==> nopt.Stack == ite(hasOpt(v), as(v[len(v)-1], LineOpt).Stack, false) && nopt.Hidden == ite(hasOpt(v), as(v[len(v)-1], LineOpt).Hidden, false)

func (*baseLogger).write(l, level, v)
  props P24
  requires level: 1 <= level && level <= 9
  requires nn: l != nil && l.native != nil
  modifies nprint, nlevel, nprefix, nmsg, nopt, printed, text, callText, stackText
  new
  ensures silent: !old(passes(l, level)) ==> nprint == old(nprint) && printed == old(printed)
  ensures once: old(passes(l, level)) ==> nprint == old(nprint) + 1 && nlevel == level
  ensures prefix: old(passes(l, level)) ==> nprefix == old(before(l, v))
  ensures msg: old(passes(l, level)) ==> nmsg == spaced(old(shown(l, v)))
  ensures one: old(passes(l, level)) && l.prefixParser == nil && len(v) == 2 && hasOpt(v) ==> nmsg == one(v[0])
  ensures opts: old(passes(l, level)) ==> nopt.Stack == ite(hasOpt(v), as(v[len(v)-1], LineOpt).Stack, false) && nopt.Hidden == ite(hasOpt(v), as(v[len(v)-1], LineOpt).Hidden, false)

func (*baseLogger).Emergencyf(l, format, v)
  props P24
  requires nn: l != nil && l.native != nil
  modifies nprint, nlevel, nprefix, nmsg, nopt, printed, text, callText, stackText
  new
  ensures silent: !old(passes(l, 1)) ==> nprint == old(nprint) && printed == old(printed)
  ensures once: old(passes(l, 1)) ==> nprint == old(nprint) + 1 && nlevel == 1
  ensures prefix: old(passes(l, 1)) ==> nprefix == old(before(l, v))
  ensures msg: old(passes(l, 1)) ==> nmsg == formatted(format, old(shown(l, v)))
  ensures opts: old(passes(l, 1)) ==> nopt.Stack == ite(hasOpt(v), as(v[len(v)-1], LineOpt).Stack, false) && nopt.Hidden == ite(hasOpt(v), as(v[len(v)-1], LineOpt).Hidden, false)

func (*baseLogger).Emergency(l, v)
  props P24
  requires nn: l != nil && l.native != nil
  modifies nprint, nlevel, nprefix, nmsg, nopt, printed, text, callText, stackText
  new
  ensures silent: !old(passes(l, 1)) ==> nprint == old(nprint) && printed == old(printed)
  ensures once: old(passes(l, 1)) ==> nprint == old(nprint) + 1 && nlevel == 1
  ensures prefix: old(passes(l, 1)) ==> nprefix == old(before(l, v))
  ensures msg: old(passes(l, 1)) ==> nmsg == spaced(old(shown(l, v)))
  ensures one: old(passes(l, 1)) && l.prefixParser == nil && len(v) == 2 && hasOpt(v) ==> nmsg == one(v[0])
  ensures opts: old(passes(l, 1)) ==> nopt.Stack == ite(hasOpt(v), as(v[len(v)-1], LineOpt).Stack, false) && nopt.Hidden == ite(hasOpt(v), as(v[len(v)-1], LineOpt).Hidden, false)

func (*baseLogger).Alertf(l, format, v)
  props P24
  requires nn: l != nil && l.native != nil
  modifies nprint, nlevel, nprefix, nmsg, nopt, printed, text, callText, stackText
  new
  ensures silent: !old(passes(l, 2)) ==> nprint == old(nprint) && printed == old(printed)
  ensures once: old(passes(l, 2)) ==> nprint == old(nprint) + 1 && nlevel == 2
  ensures prefix: old(passes(l, 2)) ==> nprefix == old(before(l, v))
  ensures msg: old(passes(l, 2)) ==> nmsg == formatted(format, old(shown(l, v)))
  ensures opts: old(passes(l, 2)) ==> nopt.Stack == ite(hasOpt(v), as(v[len(v)-1], LineOpt).Stack, false) && nopt.Hidden == ite(hasOpt(v), as(v[len(v)-1], LineOpt).Hidden, false)

func (*baseLogger).Alert(l, v)
  props P24
  requires nn: l != nil && l.native != nil
  modifies nprint, nlevel, nprefix, nmsg, nopt, printed, text, callText, stackText
  new
  ensures silent: !old(passes(l, 2)) ==> nprint == old(nprint) && printed == old(printed)
  ensures once: old(passes(l, 2)) ==> nprint == old(nprint) + 1 && nlevel == 2
  ensures prefix: old(passes(l, 2)) ==> nprefix == old(before(l, v))
  ensures msg: old(passes(l, 2)) ==> nmsg == spaced(old(shown(l, v)))
  ensures one: old(passes(l, 2)) && l.prefixParser == nil && len(v) == 2 && hasOpt(v) ==> nmsg == one(v[0])
  ensures opts: old(passes(l, 2)) ==> nopt.Stack == ite(hasOpt(v), as(v[len(v)-1], LineOpt).Stack, false) && nopt.Hidden == ite(hasOpt(v), as(v[len(v)-1], LineOpt).Hidden, false)

func (*baseLogger).Critcialf(l, format, v)
  props P24
  requires nn: l != nil && l.native != nil
  modifies nprint, nlevel, nprefix, nmsg, nopt, printed, text, callText, stackText
  new
  ensures silent: !old(passes(l, 3)) ==> nprint == old(nprint) && printed == old(printed)
  ensures once: old(passes(l, 3)) ==> nprint == old(nprint) + 1 && nlevel == 3
  ensures prefix: old(passes(l, 3)) ==> nprefix == old(before(l, v))
  ensures msg: old(passes(l, 3)) ==> nmsg == formatted(format, old(shown(l, v)))
  ensures opts: old(passes(l, 3)) ==> nopt.Stack == ite(hasOpt(v), as(v[len(v)-1], LineOpt).Stack, false) && nopt.Hidden == ite(hasOpt(v), as(v[len(v)-1], LineOpt).Hidden, false)

func (*baseLogger).Critcial(l, v)
  props P24
  requires nn: l != nil && l.native != nil
  modifies nprint, nlevel, nprefix, nmsg, nopt, printed, text, callText, stackText
  new
  ensures silent: !old(passes(l, 3)) ==> nprint == old(nprint) && printed == old(printed)
  ensures once: old(passes(l, 3)) ==> nprint == old(nprint) + 1 && nlevel == 3
  ensures prefix: old(passes(l, 3)) ==> nprefix == old(before(l, v))
  ensures msg: old(passes(l, 3)) ==> nmsg == spaced(old(shown(l, v)))
  ensures one: old(passes(l, 3)) && l.prefixParser == nil && len(v) == 2 && hasOpt(v) ==> nmsg == one(v[0])
  ensures opts: old(passes(l, 3)) ==> nopt.Stack == ite(hasOpt(v), as(v[len(v)-1], LineOpt).Stack, false) && nopt.Hidden == ite(hasOpt(v), as(v[len(v)-1], LineOpt).Hidden, false)

func (*baseLogger).Errorf(l, format, v)
  props P24
  requires nn: l != nil && l.native != nil
  modifies nprint, nlevel, nprefix, nmsg, nopt, printed, text, callText, stackText
  new
  ensures silent: !old(passes(l, 4)) ==> nprint == old(nprint) && printed == old(printed)
  ensures once: old(passes(l, 4)) ==> nprint == old(nprint) + 1 && nlevel == 4
  ensures prefix: old(passes(l, 4)) ==> nprefix == old(before(l, v))
  ensures msg: old(passes(l, 4)) ==> nmsg == formatted(format, old(shown(l, v)))
  ensures opts: old(passes(l, 4)) ==> nopt.Stack == ite(hasOpt(v), as(v[len(v)-1], LineOpt).Stack, false) && nopt.Hidden == ite(hasOpt(v), as(v[len(v)-1], LineOpt).Hidden, false)

func (*baseLogger).Error(l, v)
  props P24
  requires nn: l != nil && l.native != nil
  modifies nprint, nlevel, nprefix, nmsg, nopt, printed, text, callText, stackText
  new
  ensures silent: !old(passes(l, 4)) ==> nprint == old(nprint) && printed == old(printed)
  ensures once: old(passes(l, 4)) ==> nprint == old(nprint) + 1 && nlevel == 4
  ensures prefix: old(passes(l, 4)) ==> nprefix == old(before(l, v))
  ensures msg: old(passes(l, 4)) ==> nmsg == spaced(old(shown(l, v)))
  ensures one: old(passes(l, 4)) && l.prefixParser == nil && len(v) == 2 && hasOpt(v) ==> nmsg == one(v[0])
  ensures opts: old(passes(l, 4)) ==> nopt.Stack == ite(hasOpt(v), as(v[len(v)-1], LineOpt).Stack, false) && nopt.Hidden == ite(hasOpt(v), as(v[len(v)-1], LineOpt).Hidden, false)

func (*baseLogger).Warnf(l, format, v)
  props P24
  requires nn: l != nil && l.native != nil
  modifies nprint, nlevel, nprefix, nmsg, nopt, printed, text, callText, stackText
  new
  ensures silent: !old(passes(l, 5)) ==> nprint == old(nprint) && printed == old(printed)
  ensures once: old(passes(l, 5)) ==> nprint == old(nprint) + 1 && nlevel == 5
  ensures prefix: old(passes(l, 5)) ==> nprefix == old(before(l, v))
  ensures msg: old(passes(l, 5)) ==> nmsg == formatted(format, old(shown(l, v)))
  ensures opts: old(passes(l, 5)) ==> nopt.Stack == ite(hasOpt(v), as(v[len(v)-1], LineOpt).Stack, false) && nopt.Hidden == ite(hasOpt(v), as(v[len(v)-1], LineOpt).Hidden, false)

func (*baseLogger).Warn(l, v)
  props P24
  requires nn: l != nil && l.native != nil
  modifies nprint, nlevel, nprefix, nmsg, nopt, printed, text, callText, stackText
  new
  ensures silent: !old(passes(l, 5)) ==> nprint == old(nprint) && printed == old(printed)
  ensures once: old(passes(l, 5)) ==> nprint == old(nprint) + 1 && nlevel == 5
  ensures prefix: old(passes(l, 5)) ==> nprefix == old(before(l, v))
  ensures msg: old(passes(l, 5)) ==> nmsg == spaced(old(shown(l, v)))
  ensures one: old(passes(l, 5)) && l.prefixParser == nil && len(v) == 2 && hasOpt(v) ==> nmsg == one(v[0])
  ensures opts: old(passes(l, 5)) ==> nopt.Stack == ite(hasOpt(v), as(v[len(v)-1], LineOpt).Stack, false) && nopt.Hidden == ite(hasOpt(v), as(v[len(v)-1], LineOpt).Hidden, false)

func (*baseLogger).Noticef(l, format, v)
  props P24
  requires nn: l != nil && l.native != nil
  modifies nprint, nlevel, nprefix, nmsg, nopt, printed, text, callText, stackText
  new
  ensures silent: !old(passes(l, 6)) ==> nprint == old(nprint) && printed == old(printed)
  ensures once: old(passes(l, 6)) ==> nprint == old(nprint) + 1 && nlevel == 6
  ensures prefix: old(passes(l, 6)) ==> nprefix == old(before(l, v))
  ensures msg: old(passes(l, 6)) ==> nmsg == formatted(format, old(shown(l, v)))
  ensures opts: old(passes(l, 6)) ==> nopt.Stack == ite(hasOpt(v), as(v[len(v)-1], LineOpt).Stack, false) && nopt.Hidden == ite(hasOpt(v), as(v[len(v)-1], LineOpt).Hidden, false)

func (*baseLogger).Notice(l, v)
  props P24
  requires nn: l != nil && l.native != nil
  modifies nprint, nlevel, nprefix, nmsg, nopt, printed, text, callText, stackText
  new
  ensures silent: !old(passes(l, 6)) ==> nprint == old(nprint) && printed == old(printed)
  ensures once: old(passes(l, 6)) ==> nprint == old(nprint) + 1 && nlevel == 6
  ensures prefix: old(passes(l, 6)) ==> nprefix == old(before(l, v))
  ensures msg: old(passes(l, 6)) ==> nmsg == spaced(old(shown(l, v)))
  ensures one: old(passes(l, 6)) && l.prefixParser == nil && len(v) == 2 && hasOpt(v) ==> nmsg == one(v[0])
  ensures opts: old(passes(l, 6)) ==> nopt.Stack == ite(hasOpt(v), as(v[len(v)-1], LineOpt).Stack, false) && nopt.Hidden == ite(hasOpt(v), as(v[len(v)-1], LineOpt).Hidden, false)

func (*baseLogger).Infof(l, format, v)
  props P24
  requires nn: l != nil && l.native != nil
  modifies nprint, nlevel, nprefix, nmsg, nopt, printed, text, callText, stackText
  new
  ensures silent: !old(passes(l, 7)) ==> nprint == old(nprint) && printed == old(printed)
  ensures once: old(passes(l, 7)) ==> nprint == old(nprint) + 1 && nlevel == 7
  ensures prefix: old(passes(l, 7)) ==> nprefix == old(before(l, v))
  ensures msg: old(passes(l, 7)) ==> nmsg == formatted(format, old(shown(l, v)))
  ensures opts: old(passes(l, 7)) ==> nopt.Stack == ite(hasOpt(v), as(v[len(v)-1], LineOpt).Stack, false) && nopt.Hidden == ite(hasOpt(v), as(v[len(v)-1], LineOpt).Hidden, false)

func (*baseLogger).Info(l, v)
  props P24
  requires nn: l != nil && l.native != nil
  modifies nprint, nlevel, nprefix, nmsg, nopt, printed, text, callText, stackText
  new
  ensures silent: !old(passes(l, 7)) ==> nprint == old(nprint) && printed == old(printed)
  ensures once: old(passes(l, 7)) ==> nprint == old(nprint) + 1 && nlevel == 7
  ensures prefix: old(passes(l, 7)) ==> nprefix == old(before(l, v))
  ensures msg: old(passes(l, 7)) ==> nmsg == spaced(old(shown(l, v)))
  ensures one: old(passes(l, 7)) && l.prefixParser == nil && len(v) == 2 && hasOpt(v) ==> nmsg == one(v[0])
  ensures opts: old(passes(l, 7)) ==> nopt.Stack == ite(hasOpt(v), as(v[len(v)-1], LineOpt).Stack, false) && nopt.Hidden == ite(hasOpt(v), as(v[len(v)-1], LineOpt).Hidden, false)

func (*baseLogger).Debugf(l, format, v)
  props P24
  requires nn: l != nil && l.native != nil
  modifies nprint, nlevel, nprefix, nmsg, nopt, printed, text, callText, stackText
  new
  ensures silent: !old(passes(l, 8)) ==> nprint == old(nprint) && printed == old(printed)
  ensures once: old(passes(l, 8)) ==> nprint == old(nprint) + 1 && nlevel == 8
  ensures prefix: old(passes(l, 8)) ==> nprefix == old(before(l, v))
  ensures msg: old(passes(l, 8)) ==> nmsg == formatted(format, old(shown(l, v)))
  ensures opts: old(passes(l, 8)) ==> nopt.Stack == ite(hasOpt(v), as(v[len(v)-1], LineOpt).Stack, false) && nopt.Hidden == ite(hasOpt(v), as(v[len(v)-1], LineOpt).Hidden, false)

func (*baseLogger).Debug(l, v)
  props P24
  requires nn: l != nil && l.native != nil
  modifies nprint, nlevel, nprefix, nmsg, nopt, printed, text, callText, stackText
  new
  ensures silent: !old(passes(l, 8)) ==> nprint == old(nprint) && printed == old(printed)
  ensures once: old(passes(l, 8)) ==> nprint == old(nprint) + 1 && nlevel == 8
  ensures prefix: old(passes(l, 8)) ==> nprefix == old(before(l, v))
  ensures msg: old(passes(l, 8)) ==> nmsg == spaced(old(shown(l, v)))
  ensures one: old(passes(l, 8)) && l.prefixParser == nil && len(v) == 2 && hasOpt(v) ==> nmsg == one(v[0])
  ensures opts: old(passes(l, 8)) ==> nopt.Stack == ite(hasOpt(v), as(v[len(v)-1], LineOpt).Stack, false) && nopt.Hidden == ite(hasOpt(v), as(v[len(v)-1], LineOpt).Hidden, false)


# a request logger's prefix starts with its request id
pure func tagged(l *reqLogger) bool = l.baseLogger != nil && l.reqPrefix == "[" + l.reqId + "]" && hasPrefix(l.baseLogger.prefix, l.reqPrefix)
func NewLogger(out) (r)
  props P24
  new
  ensures made: is(r, *baseLogger) && as(r, *baseLogger) != nil && fresh(as(r, *baseLogger))
  ensures set: as(r, *baseLogger).out == out && as(r, *baseLogger).level == 8 && as(r, *baseLogger).flat && as(r, *baseLogger).prefix == "" && as(r, *baseLogger).native == box(as(r, *baseLogger), *baseLogger) && !as(r, *baseLogger).color && !as(r, *baseLogger).line && as(r, *baseLogger).stack == 0
func NewReqLogger(out, reqId) (r)
  props P24
  new
  ensures made: is(r, *reqLogger) && as(r, *reqLogger) != nil && fresh(as(r, *reqLogger)) && tagged(as(r, *reqLogger))
  ensures set: as(r, *reqLogger).reqId == reqId && as(r, *reqLogger).baseLogger.prefix == "[" + reqId + "]" && as(r, *reqLogger).baseLogger.out == out && as(r, *reqLogger).baseLogger.native == box(as(r, *reqLogger), *reqLogger) && as(r, *reqLogger).baseLogger.level == 8 && as(r, *reqLogger).baseLogger.flat
func (*reqLogger).SetPrefix(l, prefix)
  props P24
  requires nn: l != nil && tagged(l)
  modifies l.baseLogger.prefix
  ensures prefix: l.baseLogger.prefix == "[" + l.reqId + "]" + prefix && tagged(l)
func (*reqLogger).ReqId(l) (r)
  props P24
  requires l != nil
  ensures r == l.reqId
func (*baseLogger).SetPrefix(l, prefix)
  props P24
  requires l != nil
  modifies l.prefix
  ensures l.prefix == prefix
func (*baseLogger).SetLevel(l, level)
  props P24
  requires l != nil
  modifies l.level
  ensures l.level == level
func (*baseLogger).SetFlatLine(l, flat)
  props P24
  requires l != nil
  modifies l.flat
  ensures l.flat == flat
func (*baseLogger).SetColorMode(l, color)
  props P24
  requires l != nil
  modifies l.color
  ensures l.color == color
func (*baseLogger).SetLineInfo(l, show)
  props P24
  requires l != nil
  modifies l.line
  ensures l.line == show
func (*baseLogger).EnableLogStack(l, level)
  props P24
  requires l != nil
  modifies l.stack
  ensures l.stack == level
func (*baseLogger).SetPrefixParser(l, f)
  props P24
  requires l != nil
  modifies l.prefixParser
  ensures l.prefixParser == f

# the function whose panic is logged: it may do anything, logging and changing
# the level included
ghost ran int
ghost ranprint int
ghost ranprinted int
funcval func() : (f)
  maypanic
  modifies ran, ranprint, ranprinted, nprint, nlevel, nprefix, nmsg, nopt, printed, text, callText, stackText, all baseLogger.level, GlobalLevel
  new
  ensures ran == old(ran) + 1 && ranprint == nprint && ranprinted == printed
  ensures_panic ran == old(ran) + 1 && ranprint == nprint && ranprinted == printed

pure func recLevel(level []Level) int = ite(len(level) > 0, level[0], 4)
func (*baseLogger).Recover$1()
  inline

func (*baseLogger).Recover(l, f, level) (err)
  props P24
  requires nn: l != nil && l.native != nil && f != nil && l.prefixParser == nil
  requires level: len(level) > 0 ==> 1 <= level[0] && level[0] <= 9
  modifies ran, ranprint, ranprinted, nprint, nlevel, nprefix, nmsg, nopt, printed, text, callText, stackText, all baseLogger.level, GlobalLevel
  new
  ensures ran: ran == old(ran) + 1
  ensures quiet: err == nil ==> nprint == ranprint && printed == ranprinted
  ensures logged: err != nil && passes(l, recLevel(level)) ==> nprint == ranprint + 1 && nlevel == recLevel(level) && nmsg == one(err) && nopt.Stack
  ensures silent: err != nil && !passes(l, recLevel(level)) ==> nprint == ranprint && printed == ranprinted
