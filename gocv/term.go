package main

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
)

// ---- sorts ----

type Sort struct {
	Name string // unique
	Kind string // bool int string ref slice any f64 opaque struct array
	K, V *Sort
	// struct
	Fields []*Sort
	FNames []string
}

var sortTab = map[string]*Sort{}

func mkSort(name, kind string) *Sort {
	if s, ok := sortTab[name]; ok {
		return s
	}
	s := &Sort{Name: name, Kind: kind}
	sortTab[name] = s
	return s
}

var (
	SBool  = mkSort("Bool", "bool")
	SInt   = mkSort("Int", "int")
	SStr   = mkSort("String", "string")
	SRef   = mkSort("Ref", "ref")
	SSlice = mkSort("Slice", "slice")
	SAny   = mkSort("Any", "any")
	SF64   = mkSort("F64", "f64")
)

func ArraySort(k, v *Sort) *Sort {
	name := "(Array " + k.Name + " " + v.Name + ")"
	s := mkSort(name, "array")
	s.K, s.V = k, v
	return s
}

func OpaqueSort(n string) *Sort { return mkSort("O!"+mangle(n), "opaque") }

func mangle(s string) string {
	var b strings.Builder
	for _, c := range s {
		switch {
		case c >= 'a' && c <= 'z', c >= 'A' && c <= 'Z', c >= '0' && c <= '9', c == '_', c == '.', c == '!', c == '$', c == '@', c == '%', c == '^', c == '&', c == '-', c == '+', c == '<', c == '>', c == '?', c == '/', c == '*', c == '~', c == '=':
			b.WriteRune(c)
		case c == '[':
			b.WriteString("<")
		case c == ']':
			b.WriteString(">")
		default:
			b.WriteString("~")
		}
	}
	return b.String()
}

// ---- terms ----

type Term struct {
	id    int
	op    string
	args  []*Term
	sort  *Sort
	vars  []*Term   // quantifiers
	trigs [][]*Term // quantifiers
	birth int       // highest birth index of constants inside
	bound bool      // contains free bound variables
	ival  int64     // for int literals
	depth int
}

var (
	termTab  = map[string]*Term{}
	termSeq  int
	birthSeq int
)

const bigBirth = 1 << 40

func keyOf(op string, s *Sort, args []*Term) string {
	var b strings.Builder
	b.WriteString(op)
	b.WriteByte('|')
	b.WriteString(s.Name)
	for _, a := range args {
		b.WriteByte('|')
		b.WriteString(strconv.Itoa(a.id))
	}
	return b.String()
}

func raw(op string, s *Sort, args ...*Term) *Term {
	k := keyOf(op, s, args)
	if t, ok := termTab[k]; ok {
		return t
	}
	termSeq++
	t := &Term{id: termSeq, op: op, args: args, sort: s}
	for _, a := range args {
		if a.birth > t.birth {
			t.birth = a.birth
		}
		if a.bound {
			t.bound = true
		}
		if a.depth >= t.depth {
			t.depth = a.depth + 1
		}
	}
	termTab[k] = t
	return t
}

func isConst(t *Term) bool { return len(t.args) == 0 && strings.HasPrefix(t.op, "c:") }

// Const makes (or returns) a named constant.
func Const(name string, s *Sort) *Term {
	t := raw("c:"+name, s)
	if t.birth == 0 {
		birthSeq++
		t.birth = birthSeq
	}
	return t
}

var freshSeq = map[string]int{}

func Fresh(name string, s *Sort) *Term {
	freshSeq[name]++
	return Const(fmt.Sprintf("%s!%d", mangle(name), freshSeq[name]), s)
}

// FreshBorn makes a constant with a given birth index
func FreshBorn(name string, s *Sort, birth int) *Term {
	freshSeq[name]++
	t := raw(fmt.Sprintf("c:%s!%d", mangle(name), freshSeq[name]), s)
	t.birth = birth
	return t
}

func BoundVar(name string, s *Sort) *Term {
	freshSeq["?"+name]++
	t := raw(fmt.Sprintf("b:%s?%d", mangle(name), freshSeq["?"+name]), s)
	t.birth = bigBirth
	t.bound = true
	return t
}

func (t *Term) isLit() bool { return strings.HasPrefix(t.op, "i:") }
func (t *Term) isStr() bool { return strings.HasPrefix(t.op, "s:") }
func (t *Term) strVal() string {
	return t.op[2:]
}

func IntLit(n int64) *Term {
	t := raw("i:"+strconv.FormatInt(n, 10), SInt)
	t.ival = n
	return t
}
func BigLit(s string) *Term {
	if n, err := strconv.ParseInt(s, 10, 64); err == nil {
		return IntLit(n)
	}
	return raw("I:"+s, SInt)
}
func StrLit(s string) *Term { return raw("s:"+s, SStr) }

var (
	True   = raw("true", SBool)
	False  = raw("false", SBool)
	NilRef = raw("nilref", SRef)
	NilAny = raw("nilany", SAny)
)

func BoolLit(b bool) *Term {
	if b {
		return True
	}
	return False
}

func Not(a *Term) *Term {
	switch {
	case a == True:
		return False
	case a == False:
		return True
	case a.op == "not":
		return a.args[0]
	}
	return raw("not", SBool, a)
}

func And(as ...*Term) *Term { return nary("and", True, False, as) }
func Or(as ...*Term) *Term  { return nary("or", False, True, as) }

func nary(op string, unit, zero *Term, as []*Term) *Term {
	var out []*Term
	seen := map[int]bool{}
	var add func(a *Term) bool
	add = func(a *Term) bool {
		if a == unit || seen[a.id] {
			return true
		}
		if a == zero {
			return false
		}
		if a.op == op {
			for _, x := range a.args {
				if !add(x) {
					return false
				}
			}
			return true
		}
		if seen[Not(a).id] {
			return false
		}
		seen[a.id] = true
		out = append(out, a)
		return true
	}
	for _, a := range as {
		if !add(a) {
			return zero
		}
	}
	switch len(out) {
	case 0:
		return unit
	case 1:
		return out[0]
	}
	return raw(op, SBool, out...)
}

func Implies(a, b *Term) *Term {
	switch {
	case a == True:
		return b
	case a == False, b == True, a == b:
		return True
	case b == False:
		return Not(a)
	}
	return raw("=>", SBool, a, b)
}

func Iff(a, b *Term) *Term { return Eq(a, b) }

func Ite(c, a, b *Term) *Term {
	switch {
	case c == True:
		return a
	case c == False:
		return b
	case a == b:
		return a
	}
	if a.sort == SBool {
		if a == True && b == False {
			return c
		}
		if a == False && b == True {
			return Not(c)
		}
		if a == True {
			return Or(c, b)
		}
		if a == False {
			return And(Not(c), b)
		}
		if b == True {
			return Or(Not(c), a)
		}
		if b == False {
			return And(c, a)
		}
	}
	if c.op == "not" {
		return Ite(c.args[0], b, a)
	}
	return raw("ite", a.sort, c, a, b)
}

func isObj(t *Term) bool { return strings.HasPrefix(t.op, "c:obj!") }

// distinctRefs says whether two Ref terms certainly differ.
func distinctRefs(a, b *Term) bool {
	if a == b {
		return false
	}
	if isObj(a) && isObj(b) {
		return true
	}
	fix := func(t *Term) bool {
		return t == NilRef || strings.HasPrefix(t.op, "fn:") || strings.HasPrefix(t.op, "glob:")
	}
	if fix(a) && fix(b) {
		return true
	}
	if isObj(a) && (b.birth < a.birth || fix(b)) {
		return true
	}
	if isObj(b) && (a.birth < b.birth || fix(a)) {
		return true
	}
	suba, subb := strings.HasPrefix(a.op, "sub:"), strings.HasPrefix(b.op, "sub:")
	if suba && subb {
		if a.op == b.op {
			return distinctRefs(a.args[0], b.args[0])
		}
		return true
	}
	if suba && (isObj(b) || fix(b)) || subb && (isObj(a) || fix(a)) {
		return true
	}
	return false
}

func distinct(a, b *Term) bool {
	if a == b {
		return false
	}
	if a.sort == SRef {
		return distinctRefs(a, b)
	}
	if a.isLit() && b.isLit() {
		return true
	}
	if a.isStr() && b.isStr() {
		return true
	}
	if a.sort == SBool && (a == True && b == False || a == False && b == True) {
		return true
	}
	if a.sort == SInt {
		// x+c1 vs x+c2
		xa, ca := splitAdd(a)
		xb, cb := splitAdd(b)
		if xa == xb && ca != cb {
			return true
		}
	}
	if a.sort == SAny {
		ba, bb := strings.HasPrefix(a.op, "box:"), strings.HasPrefix(b.op, "box:")
		if ba && bb {
			if a.op != b.op {
				return true
			}
			return distinct(a.args[0], b.args[0])
		}
		if ba && b == NilAny || bb && a == NilAny {
			return true
		}
	}
	return false
}

func splitAdd(a *Term) (*Term, int64) {
	if a.isLit() {
		return nil, a.ival
	}
	if a.op == "+" && len(a.args) == 2 && a.args[1].isLit() {
		return a.args[0], a.args[1].ival
	}
	return a, 0
}

func Eq(a, b *Term) *Term {
	if a == b {
		return True
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("Eq sort mismatch %s:%s vs %s:%s", a, a.sort.Name, b, b.sort.Name))
	}
	if distinct(a, b) {
		return False
	}
	if a.sort == SBool {
		if a == True {
			return b
		}
		if b == True {
			return a
		}
		if a == False {
			return Not(b)
		}
		if b == False {
			return Not(a)
		}
	}
	if strings.HasPrefix(a.op, "box:") && a.op == b.op {
		return Eq(a.args[0], b.args[0])
	}
	if strings.HasPrefix(a.op, "mk:") && a.op == b.op {
		var cs []*Term
		for i := range a.args {
			cs = append(cs, Eq(a.args[i], b.args[i]))
		}
		return And(cs...)
	}
	if a.op == "ite" && isAtomic(b) && (isAtomic(a.args[1]) || isAtomic(a.args[2])) {
		return Ite(a.args[0], Eq(a.args[1], b), Eq(a.args[2], b))
	}
	if b.op == "ite" && isAtomic(a) && (isAtomic(b.args[1]) || isAtomic(b.args[2])) {
		return Ite(b.args[0], Eq(a, b.args[1]), Eq(a, b.args[2]))
	}
	if a.id > b.id {
		a, b = b, a
	}
	return raw("=", SBool, a, b)
}

func isAtomic(t *Term) bool {
	return len(t.args) == 0 || strings.HasPrefix(t.op, "box:") && len(t.args[0].args) == 0
}

func Select(arr, idx *Term) *Term {
	for {
		if arr.op == "store" {
			if arr.args[1] == idx {
				return arr.args[2]
			}
			if distinct(arr.args[1], idx) {
				arr = arr.args[0]
				continue
			}
		}
		if arr.op == "constarr" {
			return arr.args[0]
		}
		if fi := frameOf[arr]; fi != nil && idx.birth < fi.birth {
			arr = fi.old
			continue
		}
		break
	}
	if arr.sort.Kind != "array" {
		panic("select on " + arr.sort.Name + " " + arr.String())
	}
	if arr.sort.K != idx.sort {
		panic("select idx sort " + arr.sort.Name + " idx " + idx.sort.Name + " " + idx.String())
	}
	if idx.op == "ite" && arr.op == "store" {
		return Ite(idx.args[0], Select(arr, idx.args[1]), Select(arr, idx.args[2]))
	}
	return raw("select", arr.sort.V, arr, idx)
}

func Store(arr, idx, val *Term) *Term {
	if arr.sort.Kind != "array" || arr.sort.K != idx.sort || arr.sort.V != val.sort {
		panic(fmt.Sprintf("store sort: %s[%s]=%s  val %s", arr.sort.Name, idx.sort.Name, val.sort.Name, val))
	}
	if arr.op == "store" && arr.args[1] == idx {
		return Store(arr.args[0], idx, val)
	}
	if val.op == "select" && val.args[0] == arr && val.args[1] == idx {
		return arr
	}
	return raw("store", arr.sort, arr, idx, val)
}

func ConstArr(s *Sort, v *Term) *Term { return raw("constarr", s, v) }

func Add(a, b *Term) *Term {
	if a.isLit() && b.isLit() {
		return IntLit(a.ival + b.ival)
	}
	if a.isLit() {
		a, b = b, a
	}
	if b.isLit() {
		if b.ival == 0 {
			return a
		}
		x, c := splitAdd(a)
		if c != 0 && x != nil {
			return Add(x, IntLit(c+b.ival))
		}
		return raw("+", SInt, a, b)
	}
	// (x+c)+y => (x+y)+c
	if x, c := splitAdd(a); c != 0 && x != nil {
		return Add(Add(x, b), IntLit(c))
	}
	if y, c := splitAdd(b); c != 0 && y != nil {
		return Add(Add(a, y), IntLit(c))
	}
	// (x - y) + y => x
	if a.op == "-" && len(a.args) == 2 && a.args[1] == b {
		return a.args[0]
	}
	if b.op == "-" && len(b.args) == 2 && b.args[1] == a {
		return b.args[0]
	}
	if a.id > b.id {
		a, b = b, a
	}
	return raw("+", SInt, a, b)
}

func Sub(a, b *Term) *Term {
	if b.isLit() {
		return Add(a, IntLit(-b.ival))
	}
	if a == b {
		return IntLit(0)
	}
	xa, ca := splitAdd(a)
	xb, cb := splitAdd(b)
	if xa != nil && xa == xb {
		return IntLit(ca - cb)
	}
	if a.op == "+" && len(a.args) == 2 {
		if a.args[0] == b {
			return a.args[1]
		}
		if a.args[1] == b {
			return a.args[0]
		}
	}
	if cb != 0 && xb != nil {
		return Add(Sub(a, xb), IntLit(-cb))
	}
	if ca != 0 && xa != nil {
		return Add(Sub(xa, b), IntLit(ca))
	}
	return raw("-", SInt, a, b)
}

func Mul(a, b *Term) *Term {
	if a.isLit() && b.isLit() {
		return IntLit(a.ival * b.ival)
	}
	if a.isLit() {
		a, b = b, a
	}
	if b.isLit() && b.ival == 1 {
		return a
	}
	if b.isLit() && b.ival == 0 {
		return b
	}
	return raw("*", SInt, a, b)
}

func Lt(a, b *Term) *Term {
	xa, ca := splitAdd(a)
	xb, cb := splitAdd(b)
	if xa == xb {
		return BoolLit(ca < cb)
	}
	if xa != nil && xb != nil && (ca != 0 && cb != 0) {
		return Lt(xa, Add(xb, IntLit(cb-ca)))
	}
	return raw("<", SBool, a, b)
}
func Le(a, b *Term) *Term {
	xa, ca := splitAdd(a)
	xb, cb := splitAdd(b)
	if xa == xb {
		return BoolLit(ca <= cb)
	}
	// a <= b  ==> canonical: not (b < a)
	return Not(Lt(b, a))
}

func App(op string, s *Sort, args ...*Term) *Term { return raw(op, s, args...) }

// struct values
func StructMk(s *Sort, fs []*Term) *Term {
	// mk(get0 x, get1 x ...) = x
	if len(fs) > 0 && strings.HasPrefix(fs[0].op, "get:") {
		x := fs[0].args[0]
		all := x.sort == s
		for i, f := range fs {
			if f.op != fmt.Sprintf("get:%s#%d", s.Name, i) || f.args[0] != x {
				all = false
				break
			}
		}
		if all {
			return x
		}
	}
	return raw("mk:"+s.Name, s, fs...)
}
func StructGet(t *Term, i int) *Term {
	if strings.HasPrefix(t.op, "mk:") {
		return t.args[i]
	}
	if t.op == "ite" && (strings.HasPrefix(t.args[1].op, "mk:") || strings.HasPrefix(t.args[2].op, "mk:")) {
		return Ite(t.args[0], StructGet(t.args[1], i), StructGet(t.args[2], i))
	}
	return raw(fmt.Sprintf("get:%s#%d", t.sort.Name, i), t.sort.Fields[i], t)
}
func StructSet(t *Term, i int, v *Term) *Term {
	fs := make([]*Term, len(t.sort.Fields))
	for j := range fs {
		if j == i {
			fs[j] = v
		} else {
			fs[j] = StructGet(t, j)
		}
	}
	return StructMk(t.sort, fs)
}

// slices: struct with 4 fields
func init() {
	SSlice.Fields = []*Sort{SRef, SInt, SInt, SInt}
	SSlice.FNames = []string{"base", "off", "len", "cap"}
}
func SliceMk(b, o, l, c *Term) *Term { return StructMk(SSlice, []*Term{b, o, l, c}) }
func SBase(t *Term) *Term            { return StructGet(t, 0) }
func SOff(t *Term) *Term             { return StructGet(t, 1) }
func SLen(t *Term) *Term             { return StructGet(t, 2) }
func SCap(t *Term) *Term             { return StructGet(t, 3) }

var NilSlice = SliceMk(NilRef, IntLit(0), IntLit(0), IntLit(0))

// boxes
func Box(tname string, v *Term) *Term {
	if v.op == "unbox:"+tname {
		// only valid when tag matches; keep the box
	}
	return raw("box:"+tname, SAny, v)
}
func Unbox(tname string, s *Sort, a *Term) *Term {
	if a.op == "box:"+tname {
		return a.args[0]
	}
	if a.op == "ite" && (strings.HasPrefix(a.args[1].op, "box:") || strings.HasPrefix(a.args[2].op, "box:")) {
		return Ite(a.args[0], Unbox(tname, s, a.args[1]), Unbox(tname, s, a.args[2]))
	}
	return raw("unbox:"+tname, s, a)
}

var tagIDs = map[string]int64{}
var tagNames []string

func TagID(tname string) *Term {
	if _, ok := tagIDs[tname]; !ok {
		tagIDs[tname] = int64(len(tagIDs) + 1)
		tagNames = append(tagNames, tname)
	}
	return IntLit(tagIDs[tname])
}
func Tag(a *Term) *Term {
	if strings.HasPrefix(a.op, "box:") {
		return TagID(a.op[4:])
	}
	if a == NilAny {
		return IntLit(0)
	}
	if a.op == "ite" {
		return Ite(a.args[0], Tag(a.args[1]), Tag(a.args[2]))
	}
	return raw("tag", SInt, a)
}

func Rid(r *Term) *Term {
	if strings.HasPrefix(r.op, "sub:") || strings.HasPrefix(r.op, "elem:") {
		return Rid(r.args[0])
	}
	if r == NilRef {
		return IntLit(-1)
	}
	if r.op == "ite" {
		return Ite(r.args[0], Rid(r.args[1]), Rid(r.args[2]))
	}
	return raw("rid", SInt, r)
}

// quantifiers
func Quant(op string, vars []*Term, trigs [][]*Term, body *Term) *Term {
	if body == True || body == False || len(vars) == 0 {
		return body
	}
	if !containsAny(body, vars) {
		return body
	}
	var b strings.Builder
	b.WriteString("q:" + op)
	for _, v := range vars {
		b.WriteString("," + v.op)
	}
	k := keyOf(b.String(), SBool, []*Term{body})
	if t, ok := termTab[k]; ok {
		return t
	}
	termSeq++
	t := &Term{id: termSeq, op: op, args: []*Term{body}, sort: SBool, vars: vars, trigs: trigs, birth: body.birth, depth: body.depth + 1}
	t.bound = hasFree(body, vars)
	termTab[k] = t
	return t
}
func containsAny(t *Term, vars []*Term) bool {
	if !t.bound {
		return false
	}
	seen := map[int]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if !t.bound || seen[t.id] {
			return false
		}
		seen[t.id] = true
		for _, v := range vars {
			if t == v {
				return true
			}
		}
		for _, a := range t.args {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(t)
}
func hasFree(t *Term, vars []*Term) bool {
	bs := map[int]bool{}
	for _, v := range vars {
		bs[v.id] = true
	}
	seen := map[int]bool{}
	var rec func(t *Term, b map[int]bool) bool
	rec = func(t *Term, b map[int]bool) bool {
		if !t.bound || seen[t.id] {
			return false
		}
		if strings.HasPrefix(t.op, "b:") {
			return !b[t.id]
		}
		if t.vars != nil {
			nb := map[int]bool{}
			for k := range b {
				nb[k] = true
			}
			for _, v := range t.vars {
				nb[v.id] = true
			}
			return rec(t.args[0], nb)
		}
		seen[t.id] = true
		for _, a := range t.args {
			if rec(a, b) {
				return true
			}
		}
		return false
	}
	return rec(t, bs)
}

func Forall(vars []*Term, trigs [][]*Term, body *Term) *Term {
	return Quant("forall", vars, trigs, body)
}
func Exists(vars []*Term, trigs [][]*Term, body *Term) *Term {
	return Quant("exists", vars, trigs, body)
}

// Subst substitutes terms by terms
func Subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	return substMemo(t, m, memo)
}
func substMemo(t *Term, m, memo map[*Term]*Term) *Term {
	if r, ok := m[t]; ok {
		return r
	}
	if len(t.args) == 0 {
		return t
	}
	if r, ok := memo[t]; ok {
		return r
	}
	na := make([]*Term, len(t.args))
	ch := false
	for i, a := range t.args {
		na[i] = substMemo(a, m, memo)
		if na[i] != a {
			ch = true
		}
	}
	r := t
	if ch {
		if t.vars != nil {
			var tr [][]*Term
			for _, ts := range t.trigs {
				var o []*Term
				for _, x := range ts {
					o = append(o, substMemo(x, m, memo))
				}
				tr = append(tr, o)
			}
			r = Quant(t.op, t.vars, tr, na[0])
		} else {
			r = Rebuild(t, na)
		}
	}
	memo[t] = r
	return r
}

// Rebuild applies the simplifying constructor for t's operator.
func Rebuild(t *Term, a []*Term) *Term {
	switch t.op {
	case "not":
		return Not(a[0])
	case "and":
		return And(a...)
	case "or":
		return Or(a...)
	case "=>":
		return Implies(a[0], a[1])
	case "ite":
		return Ite(a[0], a[1], a[2])
	case "=":
		return Eq(a[0], a[1])
	case "select":
		return Select(a[0], a[1])
	case "store":
		return Store(a[0], a[1], a[2])
	case "+":
		return Add(a[0], a[1])
	case "-":
		return Sub(a[0], a[1])
	case "*":
		return Mul(a[0], a[1])
	case "<":
		return Lt(a[0], a[1])
	case "tag":
		return Tag(a[0])
	case "rid":
		return Rid(a[0])
	}
	if strings.HasPrefix(t.op, "get:") {
		i, _ := strconv.Atoi(t.op[strings.LastIndex(t.op, "#")+1:])
		return StructGet(a[0], i)
	}
	if strings.HasPrefix(t.op, "mk:") {
		return StructMk(t.sort, a)
	}
	if strings.HasPrefix(t.op, "unbox:") {
		return Unbox(t.op[6:], t.sort, a[0])
	}
	if strings.HasPrefix(t.op, "str.") || strings.HasPrefix(t.op, "u:") {
		return StrOp(t.op, t.sort, a...)
	}
	return raw(t.op, t.sort, a...)
}

// StrOp builds a string operation with light simplification
func StrOp(op string, s *Sort, a ...*Term) *Term {
	switch op {
	case "str.len":
		if a[0].isStr() {
			return IntLit(int64(len(a[0].strVal())))
		}
		if a[0].op == "str.++" {
			return Add(StrOp("str.len", SInt, a[0].args[0]), StrOp("str.len", SInt, a[0].args[1]))
		}
	case "str.++":
		if a[0].isStr() && a[1].isStr() {
			return StrLit(a[0].strVal() + a[1].strVal())
		}
		if a[0].isStr() && a[0].strVal() == "" {
			return a[1]
		}
		if a[1].isStr() && a[1].strVal() == "" {
			return a[0]
		}
		// right associate: (a++b)++c => a++(b++c)
		if a[0].op == "str.++" {
			return StrOp("str.++", SStr, a[0].args[0], StrOp("str.++", SStr, a[0].args[1], a[1]))
		}
		if a[0].isStr() && a[1].op == "str.++" && a[1].args[0].isStr() {
			return StrOp("str.++", SStr, StrLit(a[0].strVal()+a[1].args[0].strVal()), a[1].args[1])
		}
	case "str.at":
		if a[0].isStr() && a[1].isLit() && a[1].ival >= 0 && a[1].ival < int64(len(a[0].strVal())) {
			return IntLit(int64(a[0].strVal()[a[1].ival]))
		}
	case "str.substr":
		if a[0].isStr() && a[1].isLit() && a[2].isLit() {
			v := a[0].strVal()
			st, n := a[1].ival, a[2].ival
			if st >= 0 && n >= 0 && st+n <= int64(len(v)) {
				return StrLit(v[st : st+n])
			}
		}
		if a[1].isLit() && a[1].ival == 0 && a[2] == StrOp("str.len", SInt, a[0]) {
			return a[0]
		}
	}
	return raw(op, s, a...)
}

func (t *Term) String() string {
	return t.str(0)
}
func (t *Term) str(d int) string {
	if d > 6 {
		return "…"
	}
	if len(t.args) == 0 {
		if t.isStr() {
			return strconv.Quote(t.strVal())
		}
		if i := strings.Index(t.op, ":"); i >= 0 {
			return t.op[i+1:]
		}
		return t.op
	}
	var p []string
	for _, v := range t.vars {
		p = append(p, v.op)
	}
	for _, a := range t.args {
		p = append(p, a.str(d+1))
	}
	return "(" + t.op + " " + strings.Join(p, " ") + ")"
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
