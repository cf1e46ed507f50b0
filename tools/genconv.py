#!/usr/bin/env python3
"""writes contracts/conv.spec and contracts/uconv.spec (one contract per width)"""
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
COMMON = '''
extern strconv.ParseInt(s, base, bits) (v, err)
  ensures (err == nil) == intOK(s, base, bits)
  ensures err == nil ==> v == intOf(s, base)
  ensures intOK(s, base, bits) && bits == 8 ==> 0-128 <= intOf(s, base) && intOf(s, base) <= 127
  ensures intOK(s, base, bits) && bits == 16 ==> 0-32768 <= intOf(s, base) && intOf(s, base) <= 32767
  ensures intOK(s, base, bits) && bits == 32 ==> 0-2147483648 <= intOf(s, base) && intOf(s, base) <= 2147483647

extern strconv.ParseUint(s, base, bits) (v, err)
  ensures (err == nil) == uintOK(s, base, bits)
  ensures err == nil ==> v == uintOf(s, base)
  ensures uintOK(s, base, bits) && bits == 8 ==> uintOf(s, base) <= 255
  ensures uintOK(s, base, bits) && bits == 16 ==> uintOf(s, base) <= 65535
  ensures uintOK(s, base, bits) && bits == 32 ==> uintOf(s, base) <= 4294967295

extern strconv.ParseFloat(s, bits) (v, err)
  ensures (err == nil) == floatOK(s, bits)
  ensures err == nil ==> v == floatOf(s, bits)

extern strconv.ParseBool(s) (v, err)
  ensures (err == nil) == boolOK(s)
  ensures v == (err == nil && boolOf(s))
'''
UN = '''uninterp func intOK(s string, base int, bits int) bool
uninterp func intOf(s string, base int) int
uninterp func uintOK(s string, base int, bits int) bool
uninterp func uintOf(s string, base int) int
uninterp func floatOK(s string, bits int) bool
uninterp func floatOf(s string, bits int) float64
uninterp func boolOK(s string) bool
uninterp func boolOf(s string) bool
'''
ints = [('Int', 'int', 64), ('Int8', 'int8', 8), ('Int16', 'int16', 16), ('Int32', 'int32', 32), ('Int64', 'int64', 64)]
uints = [('U' + n.lower(), 'u' + t, b) for n, t, b in ints]

def root():
    o = 'package github.com/wujiu2020/strip\n\n# generated by tools/genconv.py\n# ---- P11: text for a typed target ----\n'
    o += '''
func (StrTo).Bool(f) (v, err)
  props P11
  ensures denoted: (err == nil) == (f == "on" || boolOK(f))
  ensures value: v == (f == "on" || boolOK(f) && boolOf(f))

'''
    for n, t, b in ints:
        o += 'func (StrTo).%s(f) (v, err)\n  props P11\n  ensures denoted: (err == nil) == intOK(f, 10, %d)\n  ensures value: v == ite(intOK(f, 10, %d), intOf(f, 10), 0)\n\n' % (n, b, b)
    for n, t, b in uints:
        o += 'func (StrTo).%s(f) (v, err)\n  props P11\n  ensures denoted: (err == nil) == uintOK(f, 10, %d)\n  ensures value: v == ite(uintOK(f, 10, %d), uintOf(f, 10), 0)\n\n' % (n, b, b)
    for n, t, b in [('Float32', 'float32', 32), ('Float64', 'float64', 64)]:
        o += 'func (StrTo).%s(f) (v, err)\n  props P11\n  ensures denoted: (err == nil) == floatOK(f, %d)\n  ensures value: floatOK(f, %d) ==> v == %s(floatOf(f, %d))\n  ensures zero: !floatOK(f, %d) ==> v == %s(0)\n\n' % (n, b, b, t, b, b, t)
    o += """# ---- text for a typed target ----
rec func indir(t reflect.Type) reflect.Type = ite(t.Kind() == 22, indir(t.Elem()), t)
func indirectType(typ) (r)
  props P11
  requires nn: typ != nil
  ensures def: r == indir(typ) && r != nil
  inv [t reflect.Type] indir(t) == indir(typ)
  inv [t reflect.Type] t != nil

func convertStringAsType(str, typ) (r)
  props P11
  requires nn: typ != nil
  new
  ensures of_target_type: r.IsValid() ==> r.Type() == indir(typ)
  ensures bool: indir(typ).Kind() == 1 ==> r.IsValid() && content(r) == box(str == "on" || boolOK(str) && boolOf(str), bool)
"""
    for i, (n, t, b) in enumerate(ints):
        o += '  ensures %s: indir(typ).Kind() == %d ==> r.IsValid() && content(r) == box(ite(intOK(str, 10, %d), intOf(str, 10), 0), %s)\n' % (t, 2 + i, b, t)
    for i, (n, t, b) in enumerate(uints):
        o += '  ensures %s: indir(typ).Kind() == %d ==> r.IsValid() && content(r) == box(ite(uintOK(str, 10, %d), uintOf(str, 10), 0), %s)\n' % (t, 7 + i, b, t)
    o += """  ensures float32: indir(typ).Kind() == 13 ==> r.IsValid() && content(r) == box(ite(floatOK(str, 32), float32(floatOf(str, 32)), float32(0)), float32)
  ensures float64: indir(typ).Kind() == 14 ==> r.IsValid() && content(r) == box(ite(floatOK(str, 64), floatOf(str, 64), float64(0)), float64)
  ensures string: indir(typ).Kind() == 24 ==> r.IsValid() && content(r) == box(str, string)
  ensures bytes: indir(typ).Kind() == 23 && indir(typ).Elem().Kind() == 8 && r.IsValid() ==> is(content(r), []byte) && bytesstr(as(content(r), []byte)) == str
  ensures unsupported: !(indir(typ).Kind() >= 1 && indir(typ).Kind() <= 14 && indir(typ).Kind() != 12 || indir(typ).Kind() == 24 || indir(typ).Kind() == 23 && (indir(typ).Elem().Kind() == 8 || indir(typ).Elem().Kind() == 24)) ==> !r.IsValid()

func pointerTo(value, typ) (r)
  props P11
  requires valid: value.IsValid() && typ != nil && assignable(value.Type(), indir(typ))
  requires news: news >= 0
  modifies held, news
  ensures plain: typ.Kind() != 22 ==> r == value
  ensures pointer: typ.Kind() == 22 && typ.Elem().Kind() != 22 ==> held[elemOf(r)] == value
  ensures in_new_place: typ.Kind() == 22 ==> old(news) <= slot(elemOf(r)) && slot(elemOf(r)) < news
  ensures only_more: news >= old(news)
  ensures others_kept: (forall w reflect.Value :: {held[w]} 0 <= slot(w) && slot(w) < old(news) ==> held[w] == old(held)[w])
  ensures type: r.IsValid() && assignable(r.Type(), typ)

pure func bindable(c *Config, name string) bool = c.Configer != nil && cfgOf(c.Configer, name) != ""

func (*Config).Bind(c, ptr, name)
  props P11
  requires nn: c != nil
  requires news: news >= 0
  requires target: reflect.ValueOf(ptr).IsValid()
  requires nonnil: reflect.ValueOf(ptr).Kind() == 22 ==> elemOf(reflect.ValueOf(ptr)).IsValid()
  modifies held, news
  new
  panics_only when c.Configer != nil && reflect.ValueOf(ptr).Kind() != 22
  ensures untouched: !bindable(c, name) ==> held == old(held)
"""
    kinds = [('bool', 1)] + [(t, 2 + i) for i, (n, t, b) in enumerate(ints)] + [(t, 7 + i) for i, (n, t, b) in enumerate(uints)] + [('float32', 13), ('float64', 14), ('string', 24)]
    for t, k in kinds:
        w = {'bool': 'box(%s == "on" || boolOK(%s) && boolOf(%s), bool)', 'string': 'box(%s, string)'}.get(t)
        x = 'cfgOf(c.Configer, name)'
        if t == 'bool':
            cond, w = '', w % (x, x, x)
        elif t == 'string':
            cond, w = '', w % x
        elif t == 'float32':
            cond, w = '', 'box(ite(floatOK(%s, 32), float32(floatOf(%s, 32)), float32(0)), float32)' % (x, x)
        elif t == 'float64':
            cond, w = '', 'box(ite(floatOK(%s, 64), floatOf(%s, 64), float64(0)), float64)' % (x, x)
        else:
            fn = 'uint' if t[0] == 'u' else 'int'
            b = t[len(fn):] or '64'
            cond, w = '', 'box(ite(%sOK(%s, 10, %s), %sOf(%s, 10), 0), %s)' % (fn, x, b, fn, x, t)
        o += '  ensures %s: let e = elemOf(reflect.ValueOf(ptr)) in bindable(c, name) && e.CanSet() && e.Kind() == %d%s ==> content(held[e]) == %s\n' % (t, k, cond, w)
    o += """  ensures unsupported: let e = elemOf(reflect.ValueOf(ptr)) in let k = indir(e.Type()).Kind() in !(k >= 1 && k <= 14 && k != 12 || k == 24 || k == 23) ==> held == old(held)
"""
    return o

def utils():
    o = 'package github.com/wujiu2020/strip/utils\n\n# generated by tools/genconv.py\n# ---- P11 ----\n'
    o += '''
uninterp func shown(v any) string

func ToStr(value, args) (s)
  trusted the text of any value
  new
  ensures s == shown(value)

pure func textOf(v *Value) string = ite(is(v.value, string), as(v.value, string), ite(v.value == nil, "", shown(v.value)))

func (*Value).String(v) (s)
  props P11
  requires nn: v != nil
  new
  ensures text: s == textOf(v)

func (*Value).IsNil(v) (b)
  props P11
  requires nn: v != nil
  ensures def: b == (v.value == nil)

func (StrTo).Bool(f) (v, err)
  props P11
  ensures denoted: (err == nil) == (f == "on" || boolOK(f))
  ensures value: err == nil ==> v == ite(f == "on", true, boolOf(f))

func (*Value).Bool(v) (r, err)
  props P11
  requires nn: v != nil
  new
  ensures same: is(v.value, bool) ==> err == nil && r == as(v.value, bool)
  ensures denoted: !is(v.value, bool) ==> (err == nil) == (v.value == box("on", string) || boolOK(textOf(v)))
  ensures value: !is(v.value, bool) && err == nil ==> r == ite(v.value == box("on", string), true, boolOf(textOf(v)))

'''
    for l, fn in ((ints, 'int'), (uints, 'uint')):
        for n, t, b in l:
            o += 'func (StrTo).%s(f) (v, err)\n  props P11\n  ensures denoted: (err == nil) == %sOK(f, 10, %d)\n  ensures value: err == nil ==> v == %sOf(f, 10)\n\n' % (n, fn, b, fn)
            o += 'func (*Value).%s(v) (r, err)\n  props P11\n  requires nn: v != nil\n  new\n  ensures same: is(v.value, %s) ==> err == nil && r == as(v.value, %s)\n  ensures denoted: !is(v.value, %s) ==> (err == nil) == %sOK(textOf(v), 10, %d)\n  ensures value: !is(v.value, %s) && err == nil ==> r == %sOf(textOf(v), 10)\n\n' % (n, t, t, t, fn, b, t, fn)
    for n, t, b in [('Float32', 'float32', 32), ('Float64', 'float64', 64)]:
        o += 'func (StrTo).%s(f) (v, err)\n  props P11\n  ensures denoted: (err == nil) == floatOK(f, %d)\n  ensures value: err == nil ==> v == %s(floatOf(f, %d))\n\n' % (n, b, t, b)
        o += 'func (*Value).%s(v) (r, err)\n  props P11\n  requires nn: v != nil\n  new\n  ensures same: is(v.value, %s) ==> err == nil && r == as(v.value, %s)\n  ensures denoted: !is(v.value, %s) ==> (err == nil) == floatOK(textOf(v), %d)\n  ensures value: !is(v.value, %s) && err == nil ==> r == %s(floatOf(textOf(v), %d))\n\n' % (n, t, t, t, b, t, t, b)
    for n, t, b in ints + uints + [('Float32', 'float32', 32), ('Float64', 'float64', 64), ('Bool', 'bool', 0)]:
        fn = {'I': 'int', 'U': 'uint', 'F': 'float', 'B': 'bool'}[n[0]]
        if n[0] == 'B':
            ok, val = 'f == "on" || boolOK(f)', 'ite(f == "on", true, boolOf(f))'
        elif n[0] == 'F':
            ok, val = 'floatOK(f, %d)' % b, '%s(floatOf(f, %d))' % (t, b)
        else:
            ok, val = '%sOK(f, 10, %d)' % (fn, b), '%sOf(f, 10)' % fn
        o += 'func (StrTo).Must%s(f) (v)\n  props P11\n  ensures value: %s ==> v == %s\n\n' % (n, ok, val)
        if n[0] == 'B':
            ok, val = 'v.value == box("on", string) || boolOK(textOf(v))', 'ite(v.value == box("on", string), true, boolOf(textOf(v)))'
        else:
            ok, val = ok.replace('(f,', '(textOf(v),'), val.replace('(f,', '(textOf(v),')
        o += 'func (*Value).Must%s(v) (ret)\n  props P11\n  requires nn: v != nil\n  new\n  ensures same: is(v.value, %s) ==> ret == as(v.value, %s)\n  ensures value: !is(v.value, %s) && (%s) ==> ret == %s\n\n' % (n, t, t, t, ok, val)
    return o

open(V + '/contracts/convbase.spec', 'w').write('package github.com/wujiu2020/strip\n\n# generated by tools/genconv.py\n# ---- what a text denotes, by the standard library ----\n' + UN + COMMON)
open(V + '/contracts/conv.spec', 'w').write(root())
open(V + '/contracts/uconv.spec', 'w').write(utils())
