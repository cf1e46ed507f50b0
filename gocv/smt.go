package main

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// constAxioms holds facts attached to constants (type invariants of havocked values).
var constAxioms = map[*Term][]*Term{}

func addConstAxiom(c, ax *Term) {
	if ax == True {
		return
	}
	constAxioms[c] = append(constAxioms[c], ax)
}

// Unfolder returns definitional facts for a ground application of a recursive spec function.
type Unfolder func(t *Term) []*Term

// symbols of user-declared uninterpreted functions carrying axioms: op -> axioms
var opAxioms = map[string][]*Term{}

type Query struct {
	Facts   []*Term
	Goal    *Term
	Unfold  Unfolder
	Fuel    int
	Name    string
	norm    []*Term
	seeds   []*Term
	Timeout time.Duration
}

func sym(s string) string {
	s = strings.ReplaceAll(s, "|", "!")
	s = strings.ReplaceAll(s, "\\", "!")
	if strings.HasPrefix(s, "str.") {
		s = "a" + s // the abstract version is no theory symbol
	}
	return "|" + s + "|"
}

type printer struct {
	theory  bool
	decls   []string
	seen    map[string]bool // declared symbols
	names   map[*Term]string
	defs    []string
	cnt     map[*Term]int
	axioms  []*Term
	axSeen  map[*Term]bool
	lits    []*Term
	usesStr bool
	usesQ   bool
	nQuant  int
	extra   []string
}

func sortStr(s *Sort, theory bool) string {
	switch s.Kind {
	case "bool", "int":
		return s.Name
	case "string":
		if theory {
			return "String"
		}
		return "Str"
	case "array":
		return "(Array " + sortStr(s.K, theory) + " " + sortStr(s.V, theory) + ")"
	}
	return sym(s.Name)
}

func (p *printer) ss(s *Sort) string { p.needSort(s); return sortStr(s, p.theory) }

func (p *printer) needSort(s *Sort) {
	k := "sort " + s.Name
	if p.seen[k] {
		return
	}
	p.seen[k] = true
	switch s.Kind {
	case "array":
		p.needSort(s.K)
		p.needSort(s.V)
	case "string":
		if !p.theory {
			p.decls = append(p.decls, "(declare-sort Str 0)")
		}
	case "struct", "slice":
		for _, f := range s.Fields {
			p.needSort(f)
		}
		var fs []string
		for i, f := range s.Fields {
			fs = append(fs, fmt.Sprintf("(%s %s)", sym(fmt.Sprintf("get:%s#%d", s.Name, i)), sortStr(f, p.theory)))
		}
		p.decls = append(p.decls, fmt.Sprintf("(declare-datatypes ((%s 0)) (((%s %s))))", sym(s.Name), sym("mk:"+s.Name), strings.Join(fs, " ")))
	case "ref", "any", "f64", "opaque":
		p.decls = append(p.decls, fmt.Sprintf("(declare-sort %s 0)", sym(s.Name)))
	}
}

func (p *printer) declFun(t *Term) {
	k := "op " + t.op
	if p.seen[k] {
		return
	}
	p.seen[k] = true
	var as []string
	for _, a := range t.args {
		as = append(as, p.ss(a.sort))
	}
	p.decls = append(p.decls, fmt.Sprintf("(declare-fun %s (%s) %s)", sym(t.op), strings.Join(as, " "), p.ss(t.sort)))
	// axioms for the builtin families
	ax := func(a *Term) { p.axioms = append(p.axioms, a) }
	switch {
	case strings.HasPrefix(t.op, "box:"):
		x := BoundVar("x", t.args[0].sort)
		b := raw(t.op, SAny, x)
		ax(Forall([]*Term{x}, [][]*Term{{b}}, And(Eq(raw("unbox:"+t.op[4:], x.sort, b), x), Eq(raw("tag", SInt, b), TagID(t.op[4:])))))
	case t.op == "tag":
		x := BoundVar("x", SAny)
		ax(Forall([]*Term{x}, [][]*Term{{raw("tag", SInt, x)}}, And(Le(IntLit(0), raw("tag", SInt, x)), Implies(Eq(raw("tag", SInt, x), IntLit(0)), Eq(x, NilAny)))))
		ax(raw("=", SBool, raw("tag", SInt, NilAny), IntLit(0)))
	case strings.HasPrefix(t.op, "sub:"):
		x := BoundVar("x", SRef)
		b := raw(t.op, SRef, x)
		ax(Forall([]*Term{x}, [][]*Term{{b}}, And(Eq(raw("rid", SInt, b), raw("rid", SInt, x)), Eq(raw("un"+t.op, SRef, b), x), Eq(raw("rkind", SInt, b), subKind(t.op)), Not(Eq(b, NilRef)))))
	case strings.HasPrefix(t.op, "elem:"):
		x := BoundVar("x", SRef)
		i := BoundVar("i", SInt)
		b := raw(t.op, SRef, x, i)
		ax(Forall([]*Term{x, i}, [][]*Term{{b}}, And(Eq(raw("rid", SInt, b), raw("rid", SInt, x)), Eq(raw("un"+t.op, SRef, b), x), Eq(raw("uni"+t.op, SInt, b), i), Eq(raw("rkind", SInt, b), subKind(t.op)), Not(Eq(b, NilRef)))))
	case t.op == "rid":
		ax(raw("=", SBool, raw("rid", SInt, NilRef), IntLit(-1)))
	}
	for _, a := range opAxioms[t.op] {
		ax(a)
	}
	if _, ok := implIfaces[t.op]; ok {
		for _, a := range implAxioms(t.op) {
			ax(a)
		}
	}
}

var subKinds = map[string]int64{}

func subKind(op string) *Term {
	if _, ok := subKinds[op]; !ok {
		subKinds[op] = int64(len(subKinds) + 1)
	}
	return IntLit(subKinds[op])
}

func smtStr(s string) string {
	var b strings.Builder
	b.WriteByte('"')
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c == '"' {
			b.WriteString(`""`)
		} else if c >= 32 && c < 127 && c != '\\' {
			b.WriteByte(c)
		} else {
			fmt.Fprintf(&b, `\u{%x}`, c)
		}
	}
	b.WriteByte('"')
	return b.String()
}

func (p *printer) constAx(t *Term) {
	if p.axSeen[t] {
		return
	}
	p.axSeen[t] = true
	for _, a := range constAxioms[t] {
		p.axioms = append(p.axioms, a)
	}
}

// expr prints a term; ground shared subterms become definitions
func (p *printer) expr(t *Term) string {
	if n, ok := p.names[t]; ok {
		return n
	}
	s := p.expr1(t)
	if !t.bound && len(t.args) > 0 && t.sort.Kind != "x" {
		n := "t" + strconv.Itoa(t.id)
		p.defs = append(p.defs, fmt.Sprintf("(define-fun %s () %s %s)", n, p.ss(t.sort), s))
		p.names[t] = n
		return n
	}
	if len(t.args) == 0 {
		p.names[t] = s
	}
	return s
}

func (p *printer) args(t *Term) string {
	var b strings.Builder
	for i, a := range t.args {
		if i > 0 {
			b.WriteByte(' ')
		}
		b.WriteString(p.expr(a))
	}
	return b.String()
}

func (p *printer) expr1(t *Term) string {
	op := t.op
	switch {
	case op == "true" || op == "false":
		return op
	case t.isLit():
		if t.ival < 0 {
			return fmt.Sprintf("(- %s)", strconv.FormatInt(t.ival, 10)[1:])
		}
		return strconv.FormatInt(t.ival, 10)
	case strings.HasPrefix(op, "I:"):
		if op[2] == '-' {
			return "(- " + op[3:] + ")"
		}
		return op[2:]
	case t.isStr():
		p.usesStr = true
		p.needSort(SStr)
		if p.theory {
			return smtStr(t.strVal())
		}
		n := sym("lit:" + strconv.Quote(t.strVal()))
		if !p.seen["lit "+t.op] {
			p.seen["lit "+t.op] = true
			p.decls = append(p.decls, fmt.Sprintf("(declare-fun %s () Str)", n))
			p.lits = append(p.lits, t)
		}
		return n
	case op == "nilref":
		p.needSort(SRef)
		p.declFun(t)
		p.declFun(raw("rid", SInt, t))
		return sym(op)
	case op == "nilany":
		p.needSort(SAny)
		p.declFun(t)
		p.declFun(raw("tag", SInt, t))
		return sym(op)
	case strings.HasPrefix(op, "fn:") || strings.HasPrefix(op, "glob:"):
		if !p.seen["op "+op] {
			p.declFun(t)
			p.axioms = append(p.axioms, Eq(raw("rid", SInt, t), IntLit(-2)), raw("=", SBool, raw("fnid", SInt, t), subKind(op)))
		}
		return sym(op)
	case strings.HasPrefix(op, "c:") || strings.HasPrefix(op, "zero:"):
		p.declFun(t)
		p.constAx(t)
		return sym(op)
	case strings.HasPrefix(op, "b:"):
		return sym(op)
	case op == "forall" || op == "exists":
		p.usesQ = true
		p.nQuant++
		var vs []string
		for _, v := range t.vars {
			vs = append(vs, fmt.Sprintf("(%s %s)", sym(v.op), p.ss(v.sort)))
		}
		body := p.expr(t.args[0])
		tr := ""
		trigs := t.trigs
		for _, ts := range t.trigs {
			if len(ts) == 1 {
				for _, alt := range storeVariants(ts[0]) {
					ok := alt.args[0].op != "store" && alt.args[0].op != "ite" && alt.args[0].op != "constarr"
					for _, v := range t.vars {
						ok = ok && containsAny(alt, []*Term{v})
					}
					if ok && len(trigs) < 6 {
						trigs = append(append([][]*Term{}, trigs...), []*Term{alt})
					}
				}
			}
		}
		for _, ts := range trigs {
			var o []string
			for _, x := range ts {
				o = append(o, p.expr(x))
			}
			tr += " :pattern (" + strings.Join(o, " ") + ")"
		}
		if tr != "" {
			body = "(! " + body + tr + ")"
		}
		return fmt.Sprintf("(%s (%s) %s)", op, strings.Join(vs, " "), body)
	case op == "store" && !t.bound && t.args[1].sort == SInt:
		a := p.args(t)
		p.extra = append(p.extra, fmt.Sprintf("(= (select (store %s) %s) %s)", a, p.expr(t.args[1]), p.expr(t.args[2])))
		return "(store " + a + ")"
	case op == "and" || op == "or" || op == "not" || op == "=>" || op == "ite" || op == "=" || op == "select" || op == "store" || op == "+" || op == "-" || op == "*" || op == "<" || op == "div" || op == "mod":
		return "(" + op + " " + p.args(t) + ")"
	case op == "constarr":
		if v := t.args[0]; !(v == True || v == False || v.isLit() || v.isStr() && p.theory) {
			// not every solver accepts constant arrays of non-values: an array constant with a defining axiom
			n := sym("ca:" + strconv.Itoa(t.id))
			e := p.expr(v)
			p.decls = append(p.decls, fmt.Sprintf("(declare-fun %s () %s)", n, p.ss(t.sort)))
			p.extra = append(p.extra, fmt.Sprintf("(forall ((|b:ca| %s)) (! (= (select %s |b:ca|) %s) :pattern ((select %s |b:ca|))))", p.ss(t.sort.K), n, e, n))
			return n
		}
		return fmt.Sprintf("((as const %s) %s)", p.ss(t.sort), p.expr(t.args[0]))
	case strings.HasPrefix(op, "wrap:"):
		// wrap:<signed>:<bits>
		parts := strings.Split(op, ":")
		bits, _ := strconv.Atoi(parts[2])
		m := pow2(bits)
		if parts[1] == "u" {
			return fmt.Sprintf("(mod %s %s)", p.expr(t.args[0]), m)
		}
		h := pow2(bits - 1)
		return fmt.Sprintf("(- (mod (+ %s %s) %s) %s)", p.expr(t.args[0]), h, m, h)
	case strings.HasPrefix(op, "mk:") || strings.HasPrefix(op, "get:"):
		p.needSort(t.sort)
		for _, a := range t.args {
			p.needSort(a.sort)
		}
		return "(" + sym(op) + " " + p.args(t) + ")"
	case strings.HasPrefix(op, "str."):
		p.usesStr = true
		p.needSort(SStr)
		if p.theory {
			switch op {
			case "str.at":
				return fmt.Sprintf("(str.to_code (str.at %s %s))", p.expr(t.args[0]), p.expr(t.args[1]))
			}
			return "(" + op + " " + p.args(t) + ")"
		}
		a := p.args(t)
		if !p.seen["op "+op] {
			p.declFun(t)
			p.strAxioms(t)
		}
		return "(" + sym(op) + " " + a + ")"
	}
	a := p.args(t)
	p.declFun(t)
	if len(t.args) == 0 {
		return sym(op)
	}
	return "(" + sym(op) + " " + a + ")"
}

func pow2(n int) string {
	if n < 62 {
		return strconv.FormatInt(int64(1)<<uint(n), 10)
	}
	switch n {
	case 62:
		return "4611686018427387904"
	case 63:
		return "9223372036854775808"
	case 64:
		return "18446744073709551616"
	}
	panic("pow2")
}

func slen(s *Term) *Term { return raw("str.len", SInt, s) }

// strAxioms adds true facts about abstract string operations
func (p *printer) strAxioms(t *Term) {
	ax := func(a *Term) { p.axioms = append(p.axioms, a) }
	x, y := BoundVar("x", SStr), BoundVar("y", SStr)
	i, n := BoundVar("i", SInt), BoundVar("n", SInt)
	e := StrLit("")
	switch t.op {
	case "str.len":
		ax(Forall([]*Term{x}, [][]*Term{{slen(x)}}, And(Le(IntLit(0), slen(x)), Implies(Eq(slen(x), IntLit(0)), Eq(x, e)))))
		ax(raw("=", SBool, slen(e), IntLit(0)))
	case "str.++":
		c := raw("str.++", SStr, x, y)
		ax(Forall([]*Term{x, y}, [][]*Term{{c}}, And(Eq(slen(c), Add(slen(x), slen(y))), Implies(Eq(y, e), Eq(c, x)), Implies(Eq(x, e), Eq(c, y)),
			Eq(raw("str.substr", SStr, c, IntLit(0), slen(x)), x), Eq(raw("str.substr", SStr, c, slen(x), slen(y)), y))))
		ca := raw("str.at", SInt, c, i)
		ax(Forall([]*Term{x, y, i}, [][]*Term{{ca}}, And(
			Implies(And(Le(IntLit(0), i), Lt(i, slen(x))), Eq(ca, raw("str.at", SInt, x, i))),
			Implies(And(Le(slen(x), i), Lt(i, Add(slen(x), slen(y)))), Eq(ca, raw("str.at", SInt, y, Sub(i, slen(x))))))))
	case "str.substr":
		c := raw("str.substr", SStr, x, i, n)
		ax(Forall([]*Term{x, i, n}, [][]*Term{{c}}, And(
			Implies(And(Le(IntLit(0), i), Le(IntLit(0), n), Le(Add(i, n), slen(x))), Eq(slen(c), n)),
			Implies(And(Eq(i, IntLit(0)), Eq(n, slen(x))), Eq(c, x)))))
		k := BoundVar("k", SInt)
		ca := raw("str.at", SInt, c, k)
		ax(Forall([]*Term{x, i, n, k}, [][]*Term{{ca}}, Implies(And(Le(IntLit(0), i), Le(Add(i, n), slen(x)), Le(IntLit(0), k), Lt(k, n)), Eq(ca, raw("str.at", SInt, x, Add(i, k))))))
	case "str.prefixof", "str.suffixof":
		c := raw(t.op, SBool, x, y)
		ax(Forall([]*Term{x, y}, [][]*Term{{c}}, Implies(c, Le(slen(x), slen(y)))))
		ax(Forall([]*Term{x, y}, [][]*Term{{c}}, Implies(Eq(x, e), c)))
		d := Sub(slen(y), slen(x))
		if t.op == "str.prefixof" {
			ax(Forall([]*Term{x, y}, [][]*Term{{c}}, Eq(c, And(Le(slen(x), slen(y)), Eq(raw("str.substr", SStr, y, IntLit(0), slen(x)), x)))))
		} else {
			ax(Forall([]*Term{x, y}, [][]*Term{{c}}, Eq(c, And(Le(slen(x), slen(y)), Eq(raw("str.substr", SStr, y, d, slen(x)), x)))))
		}
	case "str.contains":
		c := raw(t.op, SBool, x, y)
		ax(Forall([]*Term{x, y}, [][]*Term{{c}}, Implies(c, Le(slen(y), slen(x)))))
	case "str.indexof":
		c := raw(t.op, SInt, x, y, i)
		ax(Forall([]*Term{x, y, i}, [][]*Term{{c}}, And(Le(IntLit(-1), c), Le(c, slen(x)), Implies(Le(IntLit(0), c), And(Le(i, c), Le(Add(c, slen(y)), slen(x)))))))
	case "str.at":
		c := raw("str.at", SInt, x, i)
		ax(Forall([]*Term{x, i}, [][]*Term{{c}}, Implies(And(Le(IntLit(0), i), Lt(i, slen(x))), And(Le(IntLit(0), c), Lt(c, IntLit(256))))))
	}
}

// skolemize splits conjunctions and replaces outer existentials by fresh constants
func skolemize(t *Term, out []*Term) []*Term {
	inst := func(q *Term) *Term {
		m := map[*Term]*Term{}
		for _, v := range q.vars {
			m[v] = Fresh("sk", v.sort)
		}
		return Subst(q.args[0], m)
	}
	switch t.op {
	case "and":
		for _, a := range t.args {
			out = skolemize(a, out)
		}
		return out
	case "exists":
		return skolemize(inst(t), out)
	case "not":
		x := t.args[0]
		switch x.op {
		case "or":
			for _, a := range x.args {
				out = skolemize(Not(a), out)
			}
			return out
		case "=>":
			out = skolemize(x.args[0], out)
			return skolemize(Not(x.args[1]), out)
		case "forall":
			return skolemize(Not(inst(x)), out)
		}
	}
	return append(out, t)
}

// seedTerms: ground array reads and applications that occur only below quantifiers (E-matching does not see them)
func seedTerms(fs []*Term) []*Term {
	var out []*Term
	ground := map[*Term]bool{}
	var markG func(t *Term)
	markG = func(t *Term) {
		if ground[t] || t.bound {
			return
		}
		ground[t] = true
		if t.op == "forall" || t.op == "exists" {
			return
		}
		for _, a := range t.args {
			markG(a)
		}
	}
	for _, f := range fs {
		markG(f)
	}
	seen := map[*Term]bool{}
	var rec func(t *Term, under bool)
	rec = func(t *Term, under bool) {
		if seen[t] || len(out) >= 60 {
			return
		}
		seen[t] = true
		if under && !t.bound {
			if !ground[t] && t.sort.Kind != "array" && t.sort.Kind != "bool" && len(t.args) > 0 &&
				(t.op == "select" || strings.HasPrefix(t.op, "u:") || strings.HasPrefix(t.op, "rf:") || strings.HasPrefix(t.op, "str.")) {
				out = append(out, t)
				markG(t)
				return
			}
		}
		q := t.op == "forall" || t.op == "exists"
		for _, a := range t.args {
			rec(a, under || q)
		}
	}
	for _, f := range fs {
		rec(f, false)
	}
	return out
}

// Render produces the SMT text of facts && !goal
func (q *Query) Render(theory bool, solver string) (text string, usesStr, usesQ bool) {
	p := &printer{theory: theory, seen: map[string]bool{}, names: map[*Term]string{}, axSeen: map[*Term]bool{}}
	var asserts []string
	add := func(t *Term) {
		if t == True {
			return
		}
		s := p.expr(t)
		asserts = append(asserts, s)
	}
	if q.norm == nil {
		for _, f := range q.Facts {
			q.norm = skolemize(f, q.norm)
		}
		if q.Goal != nil {
			q.norm = skolemize(Not(q.Goal), q.norm)
		}
		q.seeds = seedTerms(q.norm)
	}
	all := append([]*Term{}, q.norm...)
	for _, f := range q.norm {
		add(f)
	}
	for _, sd := range q.seeds {
		nm := "seed:" + sd.sort.Name
		if !p.seen["op "+nm] {
			p.seen["op "+nm] = true
			p.decls = append(p.decls, fmt.Sprintf("(declare-fun %s (%s) Bool)", sym(nm), p.ss(sd.sort)))
		}
		p.extra = append(p.extra, "("+sym(nm)+" "+p.expr(sd)+")")
	}
	// unfold recursive spec functions
	if q.Unfold != nil {
		seen := map[*Term]bool{}
		done := map[*Term]bool{}
		frontier := all
		for fuel := 0; fuel < q.Fuel; fuel++ {
			var apps []*Term
			var rec func(t *Term)
			rec = func(t *Term) {
				if seen[t] {
					return
				}
				seen[t] = true
				for _, a := range t.args {
					rec(a)
				}
				if strings.HasPrefix(t.op, "rf:") && !t.bound && !done[t] {
					done[t] = true
					apps = append(apps, t)
				}
			}
			for _, f := range frontier {
				rec(f)
			}
			frontier = nil
			for _, a := range apps {
				for _, d := range q.Unfold(a) {
					if d == True {
						continue
					}
					add(d)
					frontier = append(frontier, d)
				}
			}
			if len(frontier) == 0 {
				break
			}
		}
	}
	// axioms (closure: printing axioms may add more)
	for i := 0; i < len(p.axioms); i++ {
		add(p.axioms[i])
	}
	var b bytes.Buffer
	switch solver {
	case "cvc5":
		b.WriteString("(set-logic ALL)\n")
		if theory {
			b.WriteString("(set-option :strings-exp true)\n")
		}
	default:
		b.WriteString("(set-option :auto_config false)\n(set-option :smt.mbqi false)\n(set-option :smt.arith.solver 2)\n")
	}
	// literals in abstract mode
	var litAx []string
	if !theory && len(p.lits) > 0 {
		var ns []string
		for _, l := range p.lits {
			ns = append(ns, p.names[l])
		}
		if len(ns) > 1 {
			litAx = append(litAx, "(distinct "+strings.Join(ns, " ")+")")
		}
		if p.seen["op str.len"] {
			for _, l := range p.lits {
				litAx = append(litAx, fmt.Sprintf("(= (|astr.len| %s) %d)", p.names[l], len(l.strVal())))
			}
		}
	}
	// undeclared late symbols were appended to decls in order of first use
	for _, d := range p.decls {
		b.WriteString(d)
		b.WriteByte('\n')
	}
	for _, d := range p.defs {
		b.WriteString(d)
		b.WriteByte('\n')
	}
	for _, a := range litAx {
		b.WriteString("(assert " + a + ")\n")
	}
	for _, a := range p.extra {
		b.WriteString("(assert " + a + ")\n")
	}
	for _, a := range asserts {
		b.WriteString("(assert " + a + ")\n")
	}
	b.WriteString("(check-sat)\n")
	return b.String(), p.usesStr, p.usesQ
}

var (
	solverCalls  int64
	solverTimeNs int64
	solverByName = map[string]int{}
	solverMu     sync.Mutex
	solverSem    = make(chan struct{}, 8)
)

func runSolver(ctx context.Context, name, text string, to time.Duration) string {
	solverSem <- struct{}{}
	defer func() { <-solverSem }()
	if ctx.Err() != nil {
		return "canceled"
	}
	atomic.AddInt64(&solverCalls, 1)
	t0 := time.Now()
	defer func() { atomic.AddInt64(&solverTimeNs, int64(time.Since(t0))) }()
	var cmd *exec.Cmd
	cctx, cancel := context.WithTimeout(ctx, to+2*time.Second)
	defer cancel()
	secs := int(to.Seconds())
	if secs < 1 {
		secs = 1
	}
	switch name {
	case "cvc5":
		cmd = exec.CommandContext(cctx, "cvc5", "--lang=smt2", fmt.Sprintf("--tlimit=%d", to.Milliseconds()), "-")
	case "z3":
		cmd = exec.CommandContext(cctx, "z3", "-in", fmt.Sprintf("-T:%d", secs), "-memory:3000")
	default:
		cmd = exec.CommandContext(cctx, "z3-new", "-in", fmt.Sprintf("-T:%d", secs), "-memory:3000")
	}
	cmd.Stdin = strings.NewReader(text)
	out, _ := cmd.Output()
	s := string(out)
	for _, l := range strings.Split(s, "\n") {
		l = strings.TrimSpace(l)
		switch l {
		case "unsat", "sat", "unknown", "timeout":
			return l
		}
		if strings.HasPrefix(l, "(error") {
			return "error: " + l
		}
	}
	return "noanswer " + strings.TrimSpace(s)
}

type Verdict struct {
	Result string // unsat sat unknown
	By     string
	Detail string
}

// Solve decides facts |- goal.
func (q *Query) Solve(full bool) Verdict {
	if q.Goal == True {
		return Verdict{"unsat", "simplifier", ""}
	}
	for _, f := range q.Facts {
		if f == False {
			return Verdict{"unsat", "simplifier", ""}
		}
	}
	to := q.Timeout
	if to == 0 {
		to = 5 * time.Second
	}
	renderMu.Lock()
	abs, usesStr, _ := q.Render(false, "z3-new")
	renderMu.Unlock()
	if d := os.Getenv("GOCV_DUMP"); d != "" {
		n := atomic.AddInt64(&dumpSeq, 1)
		os.WriteFile(fmt.Sprintf("%s/q%04d.smt2", d, n), []byte("; "+q.Name+"\n"+abs), 0644)
	}
	var det []string
	r := runSolver(context.Background(), "z3-new", abs, to)
	det = append(det, "z3-new/abstract:"+r)
	if r == "unsat" {
		return Verdict{"unsat", "z3-5.3.2", ""}
	}
	if strings.HasPrefix(r, "error") {
		return Verdict{"error", "z3-new", r}
	}
	if !full {
		return Verdict{"unknown", "", strings.Join(det, "; ")}
	}
	// portfolio
	type job struct {
		name   string
		theory bool
	}
	jobs := []job{{"cvc5", false}, {"z3", false}}
	if usesStr {
		jobs = append(jobs, job{"cvc5", true}, job{"z3-new", true})
	}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	type res struct {
		j job
		r string
	}
	ch := make(chan res, len(jobs))
	for _, j := range jobs {
		j := j
		renderMu.Lock()
		text, _, _ := q.Render(j.theory, j.name)
		renderMu.Unlock()
		if j.theory && j.name == "z3-new" {
			text = strings.Replace(text, "(set-option :auto_config false)\n(set-option :smt.mbqi false)\n(set-option :smt.arith.solver 2)\n", "", 1)
		}
		go func() { ch <- res{j, runSolver(ctx, j.name, text, to)} }()
	}
	out := Verdict{"unknown", "", ""}
	for range jobs {
		x := <-ch
		det = append(det, fmt.Sprintf("%s/theory=%v:%s", x.j.name, x.j.theory, x.r))
		if x.r == "unsat" {
			nm := map[string]string{"cvc5": "cvc5-1.1.2", "z3": "z3-4.8.12", "z3-new": "z3-5.3.2"}[x.j.name]
			return Verdict{"unsat", nm, ""}
		}
		if x.r == "sat" && (x.j.theory || !usesStr) {
			out.Result = "sat"
			if !(x.j.theory) && x.j.name == "cvc5" || x.j.theory {
				break
			}
		}
	}
	out.Detail = strings.Join(det, "; ")
	return out
}

var renderMu sync.Mutex
var dumpSeq int64
