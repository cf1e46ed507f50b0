package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/parser"
	"go/scanner"
	"go/token"
	"go/types"
	"strconv"
	"strings"
)

// ---- spec expressions: syntax ----

type SExpr struct {
	op   string // id int str bin un sel idx slice call quant assert let
	s    string
	a    []*SExpr
	vars []SVar
	trig [][]*SExpr
	pos  string
}

type SVar struct {
	name string
	typ  string
}

type tok struct {
	t   token.Token
	lit string
	off int
}

type sparser struct {
	toks []tok
	i    int
	src  string
	pos  string
}

func lexSpec(src, pos string) []tok {
	var s scanner.Scanner
	fs := token.NewFileSet()
	f := fs.AddFile("", fs.Base(), len(src))
	s.Init(f, []byte(src), func(p token.Position, msg string) {
		panic(specErr(pos, "lexing %q: %s", src, msg))
	}, 0)
	var out []tok
	for {
		p, t, lit := s.Scan()
		if t == token.EOF {
			break
		}
		if t == token.SEMICOLON && lit == "\n" {
			continue
		}
		off := f.Offset(p)
		if lit == "" {
			lit = t.String()
		}
		// ==>
		if t == token.GTR && len(out) > 0 && out[len(out)-1].t == token.EQL && out[len(out)-1].off+2 == off {
			out[len(out)-1] = tok{token.ARROW, "==>", off - 2}
			continue
		}
		if t == token.COLON && len(out) > 0 && out[len(out)-1].t == token.COLON && out[len(out)-1].off+1 == off {
			out[len(out)-1] = tok{token.ELLIPSIS, "::", off - 1}
			continue
		}
		out = append(out, tok{t, lit, off})
	}
	return append(out, tok{t: token.EOF, off: len(src)})
}

type specError string

func specErr(pos, f string, a ...interface{}) specError {
	return specError(pos + ": " + fmt.Sprintf(f, a...))
}

func parseSpec(src, pos string) *SExpr {
	p := &sparser{toks: lexSpec(src, pos), src: src, pos: pos}
	e := p.expr(0)
	if p.peek().t != token.EOF {
		panic(specErr(pos, "unexpected %q in %q", p.peek().lit, src))
	}
	return e
}

func (p *sparser) peek() tok { return p.toks[p.i] }
func (p *sparser) next() tok { t := p.toks[p.i]; p.i++; return t }
func (p *sparser) accept(l string) bool {
	if p.peek().lit == l && p.peek().t != token.STRING {
		p.i++
		return true
	}
	return false
}
func (p *sparser) expect(l string) {
	if !p.accept(l) {
		panic(specErr(p.pos, "expected %q, found %q in %q", l, p.peek().lit, p.src))
	}
}
func (p *sparser) mk(op, s string, a ...*SExpr) *SExpr {
	return &SExpr{op: op, s: s, a: a, pos: p.pos}
}

var prec = map[string]int{
	"==>": 1, "||": 2, "&&": 3, "==": 4, "!=": 4, "<": 4, "<=": 4, ">": 4, ">=": 4,
	"+": 5, "-": 5, "*": 6, "/": 6, "%": 6,
}

func (p *sparser) expr(min int) *SExpr {
	l := p.unary()
	for {
		t := p.peek()
		pr, ok := prec[t.lit]
		if !ok || pr < min || t.t == token.STRING || pr == 0 {
			return l
		}
		if pr < min || min > 0 && pr < min {
			return l
		}
		p.next()
		var r *SExpr
		if t.lit == "==>" {
			r = p.expr(pr)
		} else {
			r = p.expr(pr + 1)
		}
		l = p.mk("bin", t.lit, l, r)
		// comparison chaining a <= b < c
		if pr == 4 {
			for {
				t2 := p.peek()
				if prec[t2.lit] != 4 || t2.t == token.STRING {
					break
				}
				p.next()
				r2 := p.expr(5)
				l = p.mk("bin", "&&", l, p.mk("bin", t2.lit, r, r2))
				r = r2
			}
		}
	}
}

func (p *sparser) unary() *SExpr {
	t := p.peek()
	switch t.lit {
	case "!", "-", "*", "&":
		if t.t != token.STRING {
			p.next()
			return p.mk("un", t.lit, p.unary())
		}
	case "forall", "exists":
		if t.t == token.IDENT {
			p.next()
			e := p.mk("quant", t.lit)
			for {
				n := p.next()
				ty := p.typeText("::", ",", "{")
				e.vars = append(e.vars, SVar{n.lit, ty})
				if p.accept(",") {
					continue
				}
				break
			}
			p.expect("::")
			for p.accept("{") {
				var tr []*SExpr
				for {
					tr = append(tr, p.expr(0))
					if !p.accept(",") {
						break
					}
				}
				p.expect("}")
				e.trig = append(e.trig, tr)
			}
			e.a = []*SExpr{p.expr(0)}
			return e
		}
	case "let":
		if t.t == token.IDENT {
			p.next()
			n := p.next()
			p.expect("=")
			v := p.expr(0)
			if !p.accept("in") {
				p.expect(";")
			}
			b := p.expr(0)
			return p.mk("let", n.lit, v, b)
		}
	}
	return p.postfix(p.primary())
}

// typeText consumes a Go type up to one of the stop tokens (at bracket depth 0)
func (p *sparser) typeText(stops ...string) string {
	start := p.peek().off
	depth := 0
	for {
		t := p.peek()
		if t.t == token.EOF {
			break
		}
		if depth == 0 {
			stop := false
			for _, s := range stops {
				if t.lit == s && t.t != token.STRING {
					stop = true
				}
			}
			if stop && !(t.lit == "{" && p.i > 0 && (p.toks[p.i-1].lit == "interface" || p.toks[p.i-1].lit == "struct")) {
				break
			}
		}
		switch t.lit {
		case "(", "[", "{":
			depth++
		case ")", "]", "}":
			depth--
		}
		p.next()
	}
	return strings.TrimSpace(p.src[start:p.peek().off])
}

func (p *sparser) primary() *SExpr {
	t := p.next()
	switch t.t {
	case token.INT, token.CHAR:
		if t.t == token.CHAR {
			r, _, _, err := strconv.UnquoteChar(t.lit[1:len(t.lit)-1], '\'')
			if err != nil {
				panic(specErr(p.pos, "bad char %s", t.lit))
			}
			return p.mk("int", strconv.Itoa(int(r)))
		}
		return p.mk("int", t.lit)
	case token.STRING:
		s, err := strconv.Unquote(t.lit)
		if err != nil {
			panic(specErr(p.pos, "bad string %s", t.lit))
		}
		return p.mk("str", s)
	case token.LPAREN:
		e := p.expr(0)
		p.expect(")")
		return e
	case token.IDENT:
		switch t.lit {
		case "is", "zero", "box", "as":
			if p.peek().lit == "(" {
				p.next()
				e := p.mk("typ", t.lit)
				if t.lit != "zero" {
					e.a = []*SExpr{p.expr(0)}
					p.expect(",")
				}
				e.s = t.lit + " " + p.typeText(")")
				p.expect(")")
				return e
			}
		}
		return p.mk("id", t.lit)
	}
	if t.t.IsKeyword() {
		return p.mk("id", t.lit)
	}
	panic(specErr(p.pos, "unexpected %q in %q", t.lit, p.src))
}

func (p *sparser) postfix(e *SExpr) *SExpr {
	for {
		switch {
		case p.peek().t == token.PERIOD:
			p.next()
			if p.accept("(") {
				ty := p.typeText(")")
				p.expect(")")
				e = p.mk("typ", "as "+ty, e)
				continue
			}
			n := p.next()
			e = p.mk("sel", n.lit, e)
		case p.peek().t == token.LBRACK:
			p.next()
			if p.accept(":") {
				hi := p.expr(0)
				p.expect("]")
				e = p.mk("slice", "", e, nil, hi)
				continue
			}
			i := p.expr(0)
			if p.accept(":") {
				if p.accept("]") {
					e = p.mk("slice", "", e, i, nil)
					continue
				}
				hi := p.expr(0)
				p.expect("]")
				e = p.mk("slice", "", e, i, hi)
				continue
			}
			p.expect("]")
			e = p.mk("idx", "", e, i)
		case p.peek().t == token.LPAREN:
			p.next()
			c := p.mk("call", "", e)
			for !p.accept(")") {
				c.a = append(c.a, p.expr(0))
				if !p.accept(",") {
					p.expect(")")
					break
				}
			}
			e = c
		default:
			return e
		}
	}
}

// ---- values ----

type SVal struct {
	t   *Term
	typ types.Type // Go type; nil for spec-only sorts
	// location (for modifies / old)
	loc *Loc
}

// Loc: an assignable location for modifies clauses
type Loc struct {
	ptr *Term
	typ types.Type
}

type SpecFn struct {
	name   string
	kind   string // pure rec uninterp
	params []SVar
	ret    string
	reads  []string
	body   *SExpr
	pkg    *types.Package
	pos    string
	// resolved
	psorts []*Sort
	ptypes []types.Type
	rsort  *Sort
	rtype  types.Type
	rinfos []*MemInfo
	phs    []*Term // placeholders
	mphs   []*Term
	btrans *Term
}

type SEnv struct {
	v    *Verifier
	x    *Exec
	pkg  *types.Package
	vars map[string]SVal
	st   *State
	old  *State
	pos  string
	// fnAlloc: allocation counter at function entry (for fresh)
}

func (e *SEnv) with(n string, v SVal) *SEnv {
	ne := *e
	ne.vars = make(map[string]SVal, len(e.vars)+1)
	for k, x := range e.vars {
		ne.vars[k] = x
	}
	ne.vars[n] = v
	return &ne
}

func (e *SEnv) at(st *State) *SEnv { ne := *e; ne.st = st; return &ne }

func (e *SEnv) err(f string, a ...interface{}) {
	panic(specErr(e.pos, f, a...))
}

var specSorts = map[string]func(*SEnv, string) *Sort{}

// resolveType gives the Go type (or nil) and sort of a spec type
func (e *SEnv) resolveType(s string) (types.Type, *Sort) {
	s = strings.TrimSpace(s)
	if strings.HasPrefix(s, "row[") && strings.HasSuffix(s, "]") {
		_, es := e.resolveType(s[4 : len(s)-1])
		return nil, ArraySort(SInt, es)
	}
	if strings.HasPrefix(s, "set[") && strings.HasSuffix(s, "]") {
		_, es := e.resolveType(s[4 : len(s)-1])
		return nil, ArraySort(es, SBool)
	}
	if strings.HasPrefix(s, "arr[") && strings.HasSuffix(s, "]") {
		p := strings.SplitN(s[4:len(s)-1], "->", 2)
		kt, a := e.resolveType(p[0])
		t, b := e.resolveType(p[1])
		if t == nil && kt == nil {
			return nil, ArraySort(a, b)
		}
		return &ghostArr{kt, t}, ArraySort(a, b)
	}
	if s == "ref" {
		return nil, SRef
	}
	ex, err := parser.ParseExpr(s)
	if err != nil {
		e.err("bad type %q: %v", s, err)
	}
	t := e.v.goType(ex, e.pkg)
	if t == nil {
		e.err("unknown type %q in package %v", s, e.pkg)
	}
	return t, sortOf(t)
}

func (v *Verifier) goType(ex ast.Expr, pkg *types.Package) types.Type {
	switch t := ex.(type) {
	case *ast.Ident:
		if pkg != nil {
			if o, ok := pkg.Scope().Lookup(t.Name).(*types.TypeName); ok {
				return o.Type()
			}
		}
		if o, ok := types.Universe.Lookup(t.Name).(*types.TypeName); ok {
			return o.Type()
		}
	case *ast.StarExpr:
		if b := v.goType(t.X, pkg); b != nil {
			return types.NewPointer(b)
		}
	case *ast.ParenExpr:
		return v.goType(t.X, pkg)
	case *ast.ArrayType:
		b := v.goType(t.Elt, pkg)
		if b == nil {
			return nil
		}
		if t.Len == nil {
			return types.NewSlice(b)
		}
		if l, ok := t.Len.(*ast.BasicLit); ok {
			n, _ := strconv.Atoi(l.Value)
			return types.NewArray(b, int64(n))
		}
	case *ast.MapType:
		k, b := v.goType(t.Key, pkg), v.goType(t.Value, pkg)
		if k != nil && b != nil {
			return types.NewMap(k, b)
		}
	case *ast.InterfaceType:
		return types.NewInterfaceType(nil, nil)
	case *ast.FuncType:
		tup := func(fl *ast.FieldList) (*types.Tuple, bool) {
			var vs []*types.Var
			if fl != nil {
				for _, f := range fl.List {
					ft := v.goType(f.Type, pkg)
					if ft == nil {
						return nil, false
					}
					n := len(f.Names)
					if n == 0 {
						n = 1
					}
					for i := 0; i < n; i++ {
						vs = append(vs, types.NewVar(token.NoPos, nil, "", ft))
					}
				}
			}
			return types.NewTuple(vs...), true
		}
		p, ok := tup(t.Params)
		if !ok {
			return nil
		}
		r, ok := tup(t.Results)
		if !ok {
			return nil
		}
		return types.NewSignatureType(nil, nil, nil, p, r, false)
	case *ast.SelectorExpr:
		id, ok := t.X.(*ast.Ident)
		if !ok {
			return nil
		}
		for _, p := range v.pkgByName(id.Name, pkg) {
			if o, ok := p.Scope().Lookup(t.Sel.Name).(*types.TypeName); ok {
				return o.Type()
			}
		}
	}
	return nil
}

// ---- translation ----

func (e *SEnv) Bool(s *SExpr) *Term {
	v := e.tr(s)
	if v.t.sort != SBool {
		e.err("not a boolean: %s", exprText(s))
	}
	return v.t
}

func exprText(s *SExpr) string {
	if s == nil {
		return ""
	}
	var p []string
	for _, a := range s.a {
		p = append(p, exprText(a))
	}
	return s.op + ":" + s.s + "(" + strings.Join(p, ",") + ")"
}

func (e *SEnv) x0() *Exec {
	if e.x != nil {
		return e.x
	}
	return e.v.scratch
}

func (e *SEnv) tr(s *SExpr) SVal {
	switch s.op {
	case "int":
		c := constant.MakeFromLiteral(s.s, token.INT, 0)
		return SVal{t: BigLit(c.ExactString()), typ: types.Typ[types.Int]}
	case "str":
		return SVal{t: StrLit(s.s), typ: types.Typ[types.String]}
	case "id":
		return e.ident(s.s)
	case "un":
		a := e.trArg(s.a[0])
		switch s.s {
		case "!":
			return SVal{t: Not(a.t), typ: types.Typ[types.Bool]}
		case "-":
			return SVal{t: Sub(IntLit(0), a.t), typ: a.typ}
		case "*":
			t := deref(a.typ)
			return SVal{t: e.x0().load(e.st, a.t, t), typ: t, loc: &Loc{a.t, t}}
		case "&":
			if a.loc == nil {
				e.err("& of non-location")
			}
			return SVal{t: a.loc.ptr, typ: types.NewPointer(a.loc.typ)}
		}
	case "bin":
		return e.bin(s)
	case "let":
		v := e.tr(s.a[0])
		return e.with(s.s, v).tr(s.a[1])
	case "typ":
		return e.typOp(s)
	case "sel":
		return e.selector(s)
	case "idx":
		return e.index(e.tr(s.a[0]), e.tr(s.a[1]))
	case "slice":
		b := e.tr(s.a[0])
		lo := IntLit(0)
		if s.a[1] != nil {
			lo = e.tr(s.a[1]).t
		}
		if b.t.sort == SStr {
			hi := StrOp("str.len", SInt, b.t)
			if s.a[2] != nil {
				hi = e.tr(s.a[2]).t
			}
			return SVal{t: StrOp("str.substr", SStr, b.t, lo, Sub(hi, lo)), typ: types.Typ[types.String]}
		}
		if b.t.sort == SSlice {
			hi := SLen(b.t)
			if s.a[2] != nil {
				hi = e.tr(s.a[2]).t
			}
			return SVal{t: SliceMk(SBase(b.t), Add(SOff(b.t), lo), Sub(hi, lo), Sub(SCap(b.t), lo)), typ: b.typ}
		}
		e.err("slice of %s", b.t.sort.Name)
	case "quant":
		ne := e
		var bs []*Term
		for _, v := range s.vars {
			t, so := e.resolveType(v.typ)
			b := BoundVar(v.name, so)
			bs = append(bs, b)
			ne = ne.with(v.name, SVal{t: b, typ: t})
		}
		body := ne.Bool(s.a[0])
		var trs [][]*Term
		for _, tr := range s.trig {
			var o []*Term
			for _, x := range tr {
				o = append(o, trigTerm(ne.tr(x).t))
			}
			trs = append(trs, o)
		}
		return SVal{t: mkQuant(s.s, bs, trs, body), typ: types.Typ[types.Bool]}
	case "call":
		return e.callE(s)
	}
	e.err("cannot translate %s", exprText(s))
	return SVal{}
}

// trigTerm: the part of a translated map access that can serve as a pattern
func trigTerm(t *Term) *Term {
	for {
		switch {
		case t.op == "and":
			t = t.args[len(t.args)-1]
		case t.op == "ite":
			t = t.args[1]
		default:
			return t
		}
	}
}

// mkQuant re-parametrises offsets so that triggers are plain selects
func mkQuant(op string, bs []*Term, trs [][]*Term, body *Term) *Term {
	for i, b := range bs {
		if b.sort != SInt {
			continue
		}
		off := findOffset(body, b, bs)
		if off == nil {
			continue
		}
		nb := BoundVar("j", SInt)
		m := map[*Term]*Term{b: Sub(nb, off)}
		body = Subst(body, m)
		for _, tr := range trs {
			for k := range tr {
				tr[k] = Subst(tr[k], m)
			}
		}
		bs[i] = nb
	}
	if len(trs) == 0 {
		trs = autoTriggers(body, bs)
	}
	return Quant(op, bs, trs, body)
}

func findOffset(body, b *Term, _ []*Term) *Term {
	var off *Term
	plain := false
	seen := map[*Term]bool{}
	inner := []*Term{b}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		inner = append(inner, t.vars...)
		for _, a := range t.args {
			rec(a)
		}
	}
	rec(body)
	seen = map[*Term]bool{}
	rec = func(t *Term) {
		if seen[t] || !t.bound {
			return
		}
		seen[t] = true
		if t.op == "select" && t.args[1].sort == SInt {
			ix := t.args[1]
			if ix == b {
				plain = true
			} else if ix.bound && containsAny(ix, []*Term{b}) {
				o := Sub(ix, b)
				if !containsAny(o, inner) && off == nil {
					off = o
				}
			}
		}
		for _, a := range t.args {
			rec(a)
		}
	}
	rec(body)
	if plain {
		return nil
	}
	return off
}

// autoTriggers picks select/uninterpreted terms covering all bound variables
func autoTriggers(body *Term, bs []*Term) [][]*Term {
	var cands, part []*Term
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] || !t.bound {
			return
		}
		seen[t] = true
		for _, a := range t.args {
			rec(a)
		}
		if t.vars != nil {
			return
		}
		ok := false
		switch {
		case t.op == "select":
			ok = true
		case t.op == "str.at", strings.HasPrefix(t.op, "u:"), strings.HasPrefix(t.op, "rf:"):
			ok = true
		}
		if !ok || !trigOK(t) {
			return
		}
		for _, b := range bs {
			if !containsAny(t, []*Term{b}) {
				part = append(part, t)
				return
			}
		}
		cands = append(cands, t)
	}
	rec(body)
	if len(cands) == 0 && len(bs) > 1 {
		// a multi-pattern: one term per variable
		var mp []*Term
		for _, b := range bs {
			var best *Term
			for _, c := range part {
				if containsAny(c, []*Term{b}) && (best == nil || termSize(c) < termSize(best)) {
					best = c
				}
			}
			if best == nil {
				return nil
			}
			dup := false
			for _, m := range mp {
				dup = dup || m == best
			}
			if !dup {
				mp = append(mp, best)
			}
		}
		return [][]*Term{mp}
	}
	var out [][]*Term
	// minimal ones only
	for _, c := range cands {
		min := true
		for _, d := range cands {
			if d != c && containsTerm(c, d) {
				min = false
			}
		}
		if min {
			out = append(out, []*Term{c})
		}
	}
	if len(out) > 4 {
		out = out[:4]
	}
	return out
}

func termSize(t *Term) int {
	if !t.bound {
		return 1
	}
	n := 1
	for _, a := range t.args {
		n += termSize(a)
	}
	return n
}

// storeVariants: the same pattern over the arrays a store or ite was built from
func storeVariants(t *Term) []*Term {
	var out []*Term
	var rec func(t *Term)
	seen := map[*Term]bool{}
	rec = func(t *Term) {
		if len(out) >= 4 || seen[t] {
			return
		}
		seen[t] = true
		if t.op == "select" && t.bound {
			a := t.args[0]
			switch a.op {
			case "store":
				r := raw("select", t.sort, a.args[0], t.args[1])
				out = append(out, r)
				rec(r)
			case "ite":
				for _, b := range a.args[1:] {
					r := raw("select", t.sort, b, t.args[1])
					out = append(out, r)
					rec(r)
				}
			}
		}
	}
	rec(t)
	return out
}

func containsTerm(t, d *Term) bool {
	if t == d {
		return true
	}
	for _, a := range t.args {
		if containsTerm(a, d) {
			return true
		}
	}
	return false
}

func trigOK(t *Term) bool {
	switch t.op {
	case "and", "or", "not", "=>", "=", "<", "ite", "forall", "exists", "true", "false":
		return false
	}
	for _, a := range t.args {
		if a.bound && !trigOK(a) {
			return false
		}
	}
	return true
}

func (e *SEnv) ident(n string) SVal {
	if v, ok := e.vars[n]; ok {
		return v
	}
	switch n {
	case "true":
		return SVal{t: True, typ: types.Typ[types.Bool]}
	case "false":
		return SVal{t: False, typ: types.Typ[types.Bool]}
	case "nil":
		return SVal{t: NilRef, typ: types.Typ[types.UntypedNil]}
	case "panicval":
		if e.st.panic != nil {
			return SVal{t: e.st.panic, typ: types.NewInterfaceType(nil, nil)}
		}
		return SVal{t: NilAny, typ: types.NewInterfaceType(nil, nil)}
	}
	if g, ok := e.v.ghosts[n]; ok {
		return SVal{t: e.st.get(g), typ: g.Typ}
	}
	if e.pkg != nil {
		if v, ok := e.pkgObj(e.pkg, n); ok {
			return v
		}
	}
	e.err("unknown name %q", n)
	return SVal{}
}

func (e *SEnv) pkgObj(p *types.Package, n string) (SVal, bool) {
	switch o := p.Scope().Lookup(n).(type) {
	case *types.Const:
		return SVal{t: constTerm(o.Val(), o.Type()), typ: o.Type()}, true
	case *types.Var:
		gp := e.v.globalPtrOf(o)
		return SVal{t: e.x0().load(e.st, gp, o.Type()), typ: o.Type(), loc: &Loc{gp, o.Type()}}, true
	case *types.Func:
		return SVal{t: raw("fn:"+o.FullName(), SRef), typ: o.Type()}, true
	}
	return SVal{}, false
}

// trArg translates an operand
func (e *SEnv) trArg(s *SExpr) SVal { return e.tr(s) }

func (e *SEnv) coerce(a, b SVal) (SVal, SVal) {
	if a.t == b.t {
		return a, b
	}
	fix := func(n, o SVal) SVal {
		if n.t == NilRef && n.typ == types.Typ[types.UntypedNil] {
			switch o.t.sort {
			case SSlice:
				return SVal{t: NilSlice, typ: o.typ}
			case SAny:
				return SVal{t: NilAny, typ: o.typ}
			}
		}
		return n
	}
	a, b = fix(a, b), fix(b, a)
	if a.t.sort == SAny && b.t.sort != SAny && b.typ != nil {
		b = SVal{t: boxVal(b.typ, b.t), typ: a.typ}
	} else if b.t.sort == SAny && a.t.sort != SAny && a.typ != nil {
		a = SVal{t: boxVal(a.typ, a.t), typ: b.typ}
	}
	return a, b
}

func (e *SEnv) bin(s *SExpr) SVal {
	tb := types.Typ[types.Bool]
	switch s.s {
	case "&&":
		return SVal{t: And(e.Bool(s.a[0]), e.Bool(s.a[1])), typ: tb}
	case "||":
		return SVal{t: Or(e.Bool(s.a[0]), e.Bool(s.a[1])), typ: tb}
	case "==>":
		return SVal{t: Implies(e.Bool(s.a[0]), e.Bool(s.a[1])), typ: tb}
	}
	a, b := e.tr(s.a[0]), e.tr(s.a[1])
	switch s.s {
	case "==", "!=":
		a, b = e.coerce(a, b)
		var r *Term
		if a.t.sort == SSlice && (a.t == NilSlice || b.t == NilSlice) {
			o := a
			if a.t == NilSlice {
				o = b
			}
			r = Eq(SBase(o.t), NilRef)
		} else {
			if a.t.sort != b.t.sort {
				e.err("== on %s and %s: %s", a.t.sort.Name, b.t.sort.Name, exprText(s))
			}
			if a.t.sort == SF64 {
				r = Eq(a.t, b.t)
			} else {
				r = Eq(a.t, b.t)
			}
		}
		if s.s == "!=" {
			r = Not(r)
		}
		return SVal{t: r, typ: tb}
	case "<":
		return SVal{t: Lt(a.t, b.t), typ: tb}
	case "<=":
		return SVal{t: Le(a.t, b.t), typ: tb}
	case ">":
		return SVal{t: Lt(b.t, a.t), typ: tb}
	case ">=":
		return SVal{t: Le(b.t, a.t), typ: tb}
	case "+":
		if a.t.sort == SStr {
			return SVal{t: StrOp("str.++", SStr, a.t, b.t), typ: a.typ}
		}
		return SVal{t: Add(a.t, b.t), typ: a.typ}
	case "-":
		return SVal{t: Sub(a.t, b.t), typ: a.typ}
	case "*":
		return SVal{t: Mul(a.t, b.t), typ: a.typ}
	case "/":
		return SVal{t: raw("div", SInt, a.t, b.t), typ: a.typ}
	case "%":
		return SVal{t: raw("mod", SInt, a.t, b.t), typ: a.typ}
	}
	e.err("operator %s", s.s)
	return SVal{}
}

func (e *SEnv) typOp(s *SExpr) SVal {
	parts := strings.SplitN(s.s, " ", 2)
	t, so := e.resolveType(parts[1])
	switch parts[0] {
	case "zero":
		return SVal{t: zeroOf(t), typ: t}
	case "box":
		a := e.tr(s.a[0])
		if a.t.sort != so {
			e.err("box sort")
		}
		return SVal{t: boxVal(t, a.t), typ: types.NewInterfaceType(nil, nil)}
	case "is":
		a := e.tr(s.a[0])
		_, ok := asType(a.t, t)
		return SVal{t: ok, typ: types.Typ[types.Bool]}
	case "as":
		a := e.tr(s.a[0])
		v, _ := asType(a.t, t)
		return SVal{t: v, typ: t}
	}
	panic("typOp")
}

func (e *SEnv) selector(s *SExpr) SVal {
	if s.a[0].op == "id" {
		if _, ok := e.vars[s.a[0].s]; !ok {
			if _, isObj := e.pkg.Scope().Lookup(s.a[0].s).(*types.Var); !isObj {
				for _, p := range e.v.pkgByName(s.a[0].s, e.pkg) {
					if v, ok := e.pkgObj(p, s.s); ok {
						return v
					}
				}
			}
		}
	}
	a := e.tr(s.a[0])
	if a.typ == nil {
		e.err("field %s of a spec-only value", s.s)
	}
	return e.field(a, s.s)
}

func (e *SEnv) field(a SVal, name string) SVal {
	obj, path, _ := types.LookupFieldOrMethod(a.typ, true, e.pkg, name)
	if _, ok := obj.(*types.Var); !ok {
		// unexported field of another package
		if n := namedOf(a.typ); n != nil && n.Obj().Pkg() != nil {
			obj, path, _ = types.LookupFieldOrMethod(a.typ, true, n.Obj().Pkg(), name)
		}
		if _, ok := obj.(*types.Var); !ok {
			e.err("no field %s in %s", name, a.typ)
		}
	}
	cur := a
	for _, i := range path {
		cur = e.fieldAt(cur, i)
	}
	return cur
}

func namedOf(t types.Type) *types.Named {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	n, _ := types.Unalias(t).(*types.Named)
	return n
}

func (e *SEnv) fieldAt(a SVal, i int) SVal {
	if p, ok := a.typ.Underlying().(*types.Pointer); ok {
		st := p.Elem()
		u := st.Underlying().(*types.Struct)
		ft := u.Field(i).Type()
		pt := subPtr(a.t, st, i)
		return SVal{t: e.x0().load(e.st, pt, ft), typ: ft, loc: &Loc{pt, ft}}
	}
	u := a.typ.Underlying().(*types.Struct)
	ft := u.Field(i).Type()
	r := SVal{t: StructGet(a.t, i), typ: ft}
	if a.loc != nil {
		r.loc = &Loc{subPtr(a.loc.ptr, a.typ, i), ft}
		if !rooted(r.loc.ptr) {
			r.t = e.x0().load(e.st, r.loc.ptr, ft)
		}
	}
	return r
}

// ghostArr: the type of a ghost array whose elements have a Go type
type ghostArr struct{ key, elem types.Type }

func (g *ghostArr) Underlying() types.Type { return g }
func (g *ghostArr) String() string         { return "arr" }

func (e *SEnv) index(a, i SVal) SVal {
	if g, ok := a.typ.(*ghostArr); ok {
		if g.key != nil && isIface(g.key) {
			_, i = e.coerce(SVal{t: NilAny, typ: g.key}, i)
		}
		return SVal{t: Select(a.t, i.t), typ: g.elem}
	}
	if a.typ != nil {
		switch u := a.typ.Underlying().(type) {
		case *types.Slice:
			et := u.Elem()
			ix := Add(SOff(a.t), i.t)
			if b := SBase(a.t); strings.HasPrefix(b.op, "u:") && strings.HasSuffix(b.op, ".base") && !isByteSlice(a.typ) {
				// an element of what a pure external function returned
				row := raw(strings.TrimSuffix(b.op, ".base")+".row", elemKey(et).Sort.V, b.args...)
				return SVal{t: Select(row, ix), typ: et}
			}
			return SVal{t: Select(Select(e.st.get(elemKey(et)), SBase(a.t)), ix), typ: et, loc: &Loc{elemPtr(SBase(a.t), ix, et), et}}
		case *types.Map:
			if isIface(u.Key()) {
				_, i = e.coerce(SVal{t: NilAny, typ: u.Key()}, i)
			}
			v, _ := e.x0().mapGet(e.st, a.t, i.t, a.typ)
			return SVal{t: v, typ: u.Elem()}
		case *types.Array:
			return SVal{t: Select(a.t, i.t), typ: u.Elem()}
		case *types.Basic:
			if a.t.sort == SStr {
				return SVal{t: StrOp("str.at", SInt, a.t, i.t), typ: types.Typ[types.Uint8]}
			}
		}
	}
	if a.t.sort.Kind == "array" {
		return SVal{t: Select(a.t, i.t)}
	}
	e.err("index of %s", a.t.sort.Name)
	return SVal{}
}

func (e *SEnv) callE(s *SExpr) SVal {
	args := s.a[1:]
	tb, ti, ts := types.Typ[types.Bool], types.Typ[types.Int], types.Typ[types.String]
	if s.a[0].op != "id" {
		// pkg.Fn(args): uninterpreted result #0 of an auto-pure function
		if s.a[0].op == "sel" && s.a[0].a[0].op == "id" {
			for _, p := range e.v.pkgByName(s.a[0].a[0].s, e.pkg) {
				if f, ok := p.Scope().Lookup(s.a[0].s).(*types.Func); ok {
					return e.pureRes(f, args, 0)
				}
			}
		}
		// method call on value: x.M(args)
		if s.a[0].op == "sel" {
			r := e.tr(s.a[0].a[0])
			if r.typ != nil {
				obj, _, _ := types.LookupFieldOrMethod(r.typ, true, e.pkg, s.a[0].s)
				if f, ok := obj.(*types.Func); ok {
					var ats []*Term
					ats = append(ats, r.t)
					for _, a := range args {
						ats = append(ats, e.tr(a).t)
					}
					sig := f.Type().(*types.Signature)
					rt := sig.Results().At(0).Type()
					return SVal{t: raw("u:"+pureName(f)+"#0", sortOf(rt), ats...), typ: rt}
				}
			}
		}
		e.err("call of %s", exprText(s.a[0]))
	}
	n := s.a[0].s
	need := func(k int) {
		if len(args) != k {
			e.err("%s needs %d arguments", n, k)
		}
	}
	switch n {
	case "old":
		need(1)
		if e.old == nil {
			e.err("old() not available here")
		}
		return e.at(e.old).tr(args[0])
	case "len":
		need(1)
		a := e.tr(args[0])
		switch a.t.sort {
		case SStr:
			return SVal{t: StrOp("str.len", SInt, a.t), typ: ti}
		case SSlice:
			return SVal{t: SLen(a.t), typ: ti}
		case SRef:
			return SVal{t: e.x0().mapLen(e.st, a.t, a.typ), typ: ti}
		}
	case "cap":
		return SVal{t: SCap(e.tr(args[0]).t), typ: ti}
	case "off":
		return SVal{t: SOff(e.tr(args[0]).t), typ: ti}
	case "base":
		return SVal{t: SBase(e.tr(args[0]).t)}
	case "row":
		a := e.tr(args[0])
		et := a.typ.Underlying().(*types.Slice).Elem()
		return SVal{t: Select(e.st.get(elemKey(et)), SBase(a.t))}
	case "bytesstr":
		a := e.tr(args[0])
		et := a.typ.Underlying().(*types.Slice).Elem()
		return SVal{t: strOf(Select(e.st.get(elemKey(et)), SBase(a.t)), SOff(a.t), SLen(a.t)), typ: ts}
	case "mkslice": // mkslice(row-owner slice...) unsupported
	case "dom":
		a := e.tr(args[0])
		dk := mapDomKey(a.typ)
		return SVal{t: Select(e.st.get(dk), a.t)}
	case "mapvals":
		a := e.tr(args[0])
		dk := mapValKey(a.typ)
		return SVal{t: Select(e.st.get(dk), a.t)}
	case "at": // m[k], given that m has k
		a := e.tr(args[0])
		k := e.tr(args[1])
		if isIface(mapTypeOf(a.typ).Key()) {
			_, k = e.coerce(SVal{t: NilAny}, k)
		}
		return SVal{t: Select(Select(e.st.get(mapValKey(a.typ)), a.t), k.t), typ: mapTypeOf(a.typ).Elem()}
	case "has":
		need(2)
		a := e.tr(args[0])
		k := e.tr(args[1])
		if isIface(mapTypeOf(a.typ).Key()) {
			_, k = e.coerce(SVal{t: NilAny}, k)
		}
		_, ok := e.x0().mapGet(e.st, a.t, k.t, a.typ)
		return SVal{t: ok, typ: tb}
	case "rid":
		return SVal{t: Rid(e.refOf(e.tr(args[0]))), typ: ti}
	case "fresh":
		if e.old == nil {
			e.err("fresh() not available here")
		}
		return SVal{t: And(Not(Eq(e.refOf(e.tr(args[0])), NilRef)), Le(e.old.get(allocInfo), Rid(e.refOf(e.tr(args[0]))))), typ: tb}
	case "existing":
		if a := e.tr(args[0]); isMapType(a.typ) {
			return SVal{t: And(Lt(Rid(a.t), e.st.get(allocInfo)), Eq(raw("u:idkind", SInt, Rid(a.t)), mapKind(a.typ))), typ: tb}
		}
		return SVal{t: Lt(Rid(e.refOf(e.tr(args[0]))), e.st.get(allocInfo)), typ: tb}
	case "tag":
		return SVal{t: Tag(e.tr(args[0]).t), typ: ti}
	case "ite":
		need(3)
		c := e.Bool(args[0])
		a, b := e.coerce(e.tr(args[1]), e.tr(args[2]))
		return SVal{t: Ite(c, a.t, b.t), typ: a.typ}
	case "select":
		need(2)
		return SVal{t: Select(e.tr(args[0]).t, e.tr(args[1]).t)}
	case "update":
		need(3)
		a := e.tr(args[0])
		return SVal{t: Store(a.t, e.tr(args[1]).t, e.tr(args[2]).t), typ: a.typ}
	case "emptyset":
		e.err("emptyset unsupported")
	case "hasPrefix":
		return SVal{t: StrOp("str.prefixof", SBool, e.tr(args[1]).t, e.tr(args[0]).t), typ: tb}
	case "hasSuffix":
		return SVal{t: StrOp("str.suffixof", SBool, e.tr(args[1]).t, e.tr(args[0]).t), typ: tb}
	case "contains":
		return SVal{t: StrOp("str.contains", SBool, e.tr(args[0]).t, e.tr(args[1]).t), typ: tb}
	case "indexof":
		from := IntLit(0)
		if len(args) > 2 {
			from = e.tr(args[2]).t
		}
		return SVal{t: StrOp("str.indexof", SInt, e.tr(args[0]).t, e.tr(args[1]).t, from), typ: ti}
	case "float32":
		a := e.tr(args[0])
		if args[0].op == "int" && args[0].s == "0" {
			return SVal{t: raw("f64zero", SF64), typ: types.Typ[types.Float32]}
		}
		return SVal{t: raw("u:f32", SF64, a.t), typ: types.Typ[types.Float32]}
	case "float64":
		a := e.tr(args[0])
		if args[0].op == "int" && args[0].s == "0" {
			return SVal{t: raw("f64zero", SF64), typ: types.Typ[types.Float64]}
		}
		return SVal{t: a.t, typ: types.Typ[types.Float64]}
	case "wrap":
		need(2)
		t, _ := e.resolveType(args[0].s)
		return SVal{t: wrapInt(t, e.tr(args[1]).t), typ: t}
	case "res":
		// res(k, pkg.Fn(args)): k-th result of an auto-pure function
		need(2)
		k, _ := strconv.Atoi(args[0].s)
		c := args[1]
		if c.op == "call" && c.a[0].op == "sel" && c.a[0].a[0].op == "id" {
			for _, p := range e.v.pkgByName(c.a[0].a[0].s, e.pkg) {
				if f, ok := p.Scope().Lookup(c.a[0].s).(*types.Func); ok {
					return e.pureRes(f, c.a[1:], k)
				}
			}
		}
		e.err("res(): bad call")
	case "fnref":
		// fnref(name): reference to a package function
		return SVal{t: raw("fn:"+e.pkg.Path()+"."+args[0].s, SRef)}
	case "oncedone":
		need(1)
		a := e.tr(args[0])
		if a.loc == nil {
			e.err("oncedone of a non-location")
		}
		return SVal{t: Select(e.st.get(onceKey), a.loc.ptr), typ: tb}
	case "uses":
		return SVal{t: True, typ: tb}
	}
	if f, ok := e.v.specFn(n, e.pkg); ok {
		return e.applySpec(f, args)
	}
	e.err("unknown spec function %q", n)
	return SVal{}
}

func (e *SEnv) refOf(v SVal) *Term {
	switch v.t.sort {
	case SRef:
		return v.t
	case SSlice:
		return SBase(v.t)
	case SAny:
		return raw("u:anyref", SRef, v.t)
	}
	e.err("no reference in %s", v.t.sort.Name)
	return nil
}

func pureName(f *types.Func) string { return f.FullName() }

func (e *SEnv) pureRes(f *types.Func, args []*SExpr, k int) SVal {
	sig := f.Type().(*types.Signature)
	var ats []*Term
	for i, a := range args {
		av := e.tr(a)
		pt := sig.Params().At(i).Type()
		if isIface(pt) && av.t.sort != SAny {
			_, av = e.coerce(SVal{t: NilAny, typ: pt}, av)
		}
		ats = append(ats, e.x0().pureArg(e.st, av.t, pt)...)
	}
	rt := sig.Results().At(k).Type()
	return SVal{t: e.x0().pureResult(e.st, pureName(f), k, rt, ats), typ: rt}
}

func (e *SEnv) applySpec(f *SpecFn, args []*SExpr) SVal {
	f.resolve(e.v)
	if len(args) != len(f.params) {
		e.err("%s needs %d arguments", f.name, len(f.params))
	}
	var vs []SVal
	for i, a := range args {
		v := e.tr(a)
		if f.psorts[i] != v.t.sort {
			_, v = e.coerce(SVal{t: zeroOfSort(f.psorts[i]), typ: f.ptypes[i]}, v)
		}
		if f.psorts[i] != v.t.sort {
			e.err("argument %d of %s has sort %s, want %s", i, f.name, v.t.sort.Name, f.psorts[i].Name)
		}
		if f.ptypes[i] != nil {
			v.typ = f.ptypes[i]
		}
		v.loc = nil
		vs = append(vs, v)
	}
	switch f.kind {
	case "pure":
		ne := &SEnv{v: e.v, x: e.x, pkg: f.pkg, vars: map[string]SVal{}, st: e.st, old: e.old, pos: f.pos}
		for i, p := range f.params {
			ne.vars[p.name] = vs[i]
		}
		r := ne.tr(f.body)
		if f.rtype != nil {
			_, r = ne.coerce(SVal{t: zeroOfSort(f.rsort), typ: f.rtype}, r)
			r.typ = f.rtype
		}
		if r.t.sort != f.rsort {
			e.err("%s returns sort %s, declared %s", f.name, r.t.sort.Name, f.rsort.Name)
		}
		return r
	case "uninterp":
		var ts []*Term
		for _, v := range vs {
			ts = append(ts, v.t)
		}
		for _, mi := range f.rinfos {
			ts = append(ts, e.st.get(mi))
		}
		return SVal{t: raw("u:"+f.name, f.rsort, ts...), typ: f.rtype}
	case "rec":
		var ts []*Term
		for _, v := range vs {
			ts = append(ts, v.t)
		}
		for _, mi := range f.rinfos {
			ts = append(ts, e.st.get(mi))
		}
		return SVal{t: raw("rf:"+f.name, f.rsort, ts...), typ: f.rtype}
	}
	panic("applySpec")
}

func (f *SpecFn) resolve(v *Verifier) {
	if f.rsort != nil {
		return
	}
	e := &SEnv{v: v, pkg: f.pkg, vars: map[string]SVal{}, pos: f.pos}
	for _, p := range f.params {
		t, s := e.resolveType(p.typ)
		f.ptypes = append(f.ptypes, t)
		f.psorts = append(f.psorts, s)
	}
	f.rtype, f.rsort = e.resolveType(f.ret)
	for _, r := range f.reads {
		f.rinfos = append(f.rinfos, e.memKeys(r)...)
	}
}

// memKeys resolves `T.f`, `elems T`, `map[K]V`, `cell T`
func (e *SEnv) memKeys(s string) []*MemInfo {
	s = strings.TrimSpace(s)
	switch {
	case strings.HasPrefix(s, "elems "):
		t, _ := e.resolveType(s[6:])
		return []*MemInfo{elemKey(t)}
	case strings.HasPrefix(s, "cell "):
		t, _ := e.resolveType(s[5:])
		return []*MemInfo{cellKey(t)}
	case strings.HasPrefix(s, "map["), strings.HasPrefix(s, "maptype "):
		t, _ := e.resolveType(strings.TrimPrefix(s, "maptype "))
		return []*MemInfo{mapDomKey(t), mapValKey(t), mapLenKey(t)}
	}
	if g, ok := e.v.ghosts[s]; ok {
		return []*MemInfo{g}
	}
	i := strings.LastIndex(s, ".")
	if i < 0 {
		e.err("bad memory key %q", s)
	}
	t, _ := e.resolveType(s[:i])
	u, ok := t.Underlying().(*types.Struct)
	if !ok {
		e.err("bad memory key %q", s)
	}
	if s[i+1:] == "*" {
		var out []*MemInfo
		for j := 0; j < u.NumFields(); j++ {
			out = append(out, leafKeys(t, j)...)
		}
		return out
	}
	j := fieldIndex(u, s[i+1:])
	if j < 0 {
		e.err("no field in memory key %q", s)
	}
	return leafKeys(t, j)
}

func leafKeys(t types.Type, j int) []*MemInfo {
	ft := t.Underlying().(*types.Struct).Field(j).Type()
	if isDataStruct(ft) {
		var out []*MemInfo
		for k := 0; k < ft.Underlying().(*types.Struct).NumFields(); k++ {
			out = append(out, leafKeys(ft, k)...)
		}
		return out
	}
	return []*MemInfo{fieldKey(t, j)}
}

// unfoldFact: definition of a recursive spec function at given arguments
func (v *Verifier) unfold(t *Term) []*Term {
	f := v.recFns[t.op[3:]]
	if f == nil {
		return nil
	}
	if f.btrans == nil {
		e := &SEnv{v: v, pkg: f.pkg, vars: map[string]SVal{}, pos: f.pos}
		for i, p := range f.params {
			ph := Const("ph!"+f.name+"!"+p.name, f.psorts[i])
			f.phs = append(f.phs, ph)
			e.vars[p.name] = SVal{t: ph, typ: f.ptypes[i]}
		}
		st := &State{mem: map[string]*Term{}, epoch: newEpoch(Const("ph!alloc", SInt))}
		for _, mi := range f.rinfos {
			ph := Const("ph!"+f.name+"!"+mi.Key, mi.Sort)
			f.mphs = append(f.mphs, ph)
			st.mem[mi.Key] = ph
		}
		e.st = st
		r := e.tr(f.body)
		if f.rtype != nil {
			_, r = e.coerce(SVal{t: zeroOfSort(f.rsort), typ: f.rtype}, r)
		}
		f.btrans = r.t
		for k := range st.epoch.cache {
			panic(specErr(f.pos, "rec func %s reads undeclared memory %s", f.name, k))
		}
	}
	m := map[*Term]*Term{}
	for i, ph := range f.phs {
		m[ph] = t.args[i]
	}
	for i, ph := range f.mphs {
		m[ph] = t.args[len(f.phs)+i]
	}
	return []*Term{Eq(t, Subst(f.btrans, m))}
}
