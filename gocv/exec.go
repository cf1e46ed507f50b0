package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- state ----

type Fact struct {
	t      *Term
	branch bool // path condition literal
	parent *Fact
	n      int
}

type Epoch struct {
	id    int
	birth int
	alloc *Term
	cache map[string]*Term
	// merged epochs
	cond *Term
	a, b *Epoch
	base *Epoch // keys kept from base when keep() is true
	keep func(mi *MemInfo) bool
	st   map[string]*Term // explicit memory at the time of the havoc (for kept keys)
	// frameAlloc: only objects allocated at or after this counter may differ from base
	frameAlloc *Term
	// kept: with frameAlloc: not even new objects have these keys
	kept map[string]bool
}

type frameInfo struct {
	old    *Term
	birth  int
	alloc0 *Term
}

// frameOf: havocked memory constants that agree with an older memory on all older objects
var frameOf = map[*Term]*frameInfo{}

func refKeyed(mi *MemInfo) bool {
	switch mi.Kind {
	case "F", "C", "E", "MD", "MV", "ML":
		return true
	}
	return false
}

// framedConst makes a memory constant equal to old on objects older than alloc0
func framedConst(name string, mi *MemInfo, old, alloc0, alloc *Term, birth int) *Term {
	var t *Term
	if birth > 0 {
		t = FreshBorn(name, mi.Sort, birth)
	} else {
		t = Fresh(name, mi.Sort)
	}
	frameOf[t] = &frameInfo{old, t.birth, alloc0}
	addConstAxiom(t, memAxioms(mi, t, alloc))
	r := BoundVar("r", SRef)
	a := raw("select", mi.Sort.V, t, r)
	b := raw("select", mi.Sort.V, old, r)
	addConstAxiom(t, Forall([]*Term{r}, [][]*Term{{a}}, Implies(Lt(raw("rid", SInt, r), alloc0), Eq(a, b))))
	return t
}

var epochSeq int

func newEpoch(alloc *Term) *Epoch {
	epochSeq++
	birthSeq++
	return &Epoch{id: epochSeq, birth: birthSeq, alloc: alloc, cache: map[string]*Term{}}
}

func (e *Epoch) get(mi *MemInfo) *Term {
	if t, ok := e.cache[mi.Key]; ok {
		return t
	}
	var t *Term
	switch {
	case e.cond != nil:
		t = Ite(e.cond, e.a.get(mi), e.b.get(mi))
	case e.base != nil && (mi.Kind == "L" || mi.Kind == "I" || e.frameAlloc != nil || e.keep != nil && e.keep(mi)):
		if v, ok := e.st[mi.Key]; ok {
			t = v
		} else {
			t = e.base.get(mi)
		}
		if e.frameAlloc != nil && refKeyed(mi) && !e.kept[mi.Key] {
			t = framedConst(mi.Key+"@"+fmt.Sprint(e.id), mi, t, e.frameAlloc, e.alloc, e.birth)
		}
	default:
		t = FreshBorn(mi.Key+"@"+fmt.Sprint(e.id), mi.Sort, e.birth)
		addConstAxiom(t, memAxioms(mi, t, e.alloc))
	}
	e.cache[mi.Key] = t
	return t
}

type State struct {
	facts *Fact
	mem   map[string]*Term
	epoch *Epoch
	panic *Term // value in flight (Any) or nil
	inRec bool
}

func (s *State) clone() *State {
	n := *s
	n.mem = make(map[string]*Term, len(s.mem))
	for k, v := range s.mem {
		n.mem[k] = v
	}
	return &n
}
func (s *State) get(mi *MemInfo) *Term {
	if t, ok := s.mem[mi.Key]; ok {
		return t
	}
	return s.epoch.get(mi)
}
func (s *State) set(mi *MemInfo, t *Term) {
	if t.sort != mi.Sort {
		panic("mem set sort " + mi.Key + " " + t.sort.Name)
	}
	s.mem[mi.Key] = t
}
func (s *State) assume(t *Term) {
	if t == True {
		return
	}
	if t.op == "and" {
		for _, a := range t.args {
			s.assume(a)
		}
		return
	}
	n := 0
	if s.facts != nil {
		n = s.facts.n
	}
	s.facts = &Fact{t: t, parent: s.facts, n: n + 1}
}
func (s *State) branch(t *Term) {
	if t == True {
		return
	}
	s.assume(t)
	if s.facts != nil {
		s.facts.branch = true
	}
}

// known reports whether t (or its negation) is syntactically implied
func (s *State) known(t *Term) (val, ok bool) {
	if t == True {
		return true, true
	}
	if t == False {
		return false, true
	}
	nt := Not(t)
	for f := s.facts; f != nil; f = f.parent {
		if f.t == t {
			return true, true
		}
		if f.t == nt {
			return false, true
		}
	}
	if t.op == "and" {
		all := true
		for _, a := range t.args {
			v, k := s.known(a)
			if k && !v {
				return false, true
			}
			if !k {
				all = false
			}
		}
		return true, all
	}
	if t.op == "or" {
		all := true
		for _, a := range t.args {
			v, k := s.known(a)
			if k && v {
				return true, true
			}
			if !k {
				all = false
			}
		}
		return false, all
	}
	// constants equalities: x = lit known, asked x = lit2
	if t.op == "=" {
		a, b := t.args[0], t.args[1]
		for f := s.facts; f != nil; f = f.parent {
			if f.t.op == "=" {
				for k := 0; k < 2; k++ {
					x, c := f.t.args[k], f.t.args[1-k]
					if x == a && distinct(c, b) || x == b && distinct(c, a) {
						return false, true
					}
				}
			}
		}
	}
	return false, false
}

func (s *State) list() []*Term {
	var out []*Term
	for f := s.facts; f != nil; f = f.parent {
		out = append(out, f.t)
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

type deferred struct {
	call *ssa.Defer
	fnv  *Term
	args []*Term
}

type Frame struct {
	id     int
	fn     *ssa.Function
	regs   map[ssa.Value]*Term
	tups   map[ssa.Value][]*Term
	defers []deferred
	depth  int
	locals []string // L keys
	ghost  bool
}

func (f *Frame) clone() *Frame {
	n := *f
	n.regs = make(map[ssa.Value]*Term, len(f.regs))
	for k, v := range f.regs {
		n.regs[k] = v
	}
	n.tups = make(map[ssa.Value][]*Term, len(f.tups))
	for k, v := range f.tups {
		n.tups[k] = v
	}
	n.defers = append([]deferred(nil), f.defers...)
	n.locals = append([]string(nil), f.locals...)
	return &n
}

type cfg struct {
	st *State
	fr *Frame
}

type Outcome struct {
	st  *State
	res []*Term
	pan bool
}

type Closure struct {
	fn       *ssa.Function
	bindings []*Term
}

// ---- verification of one function ----

type Obl struct {
	Name  string
	Fn    string
	Kind  string
	Pos   string
	Facts []*Term
	Goal  *Term
	Cand  *Cand // this obligation establishes a candidate invariant
	Props []string
	Cover bool
	Vac   bool // the facts at one outcome of the function: some outcome must be possible
	Reach bool
	V     Verdict
}

type Cand struct {
	ID   *Term
	Text string
	Dead bool
	auto bool
}

type Exec struct {
	objsAt    map[objAt]*Term
	fixed     map[*Term]*Term // captured variables that keep their value
	calleeEnv map[string]SVal // captured variables of the closure about to be called by contract
	v             *Verifier
	top           *ssa.Function
	con           *Contract
	obls          []*Obl
	cands         []*Cand
	clos          map[*Term]*Closure
	entry         *State
	entryEnv      map[string]SVal
	kept          map[string]bool
	frameSeq      int
	errs          []string
	usedContracts map[*Contract]bool
	assumptions   map[string]bool
	inlined       map[string]bool
	unsupported   map[string]bool
	steps         int
	candByKey     map[string]*Cand
	globFn        map[*Term]*ssa.Function
	unboxFn       map[*Term]bool
	callStack     []*ssa.Function
	oblSeq        map[string]int
	quiet         int
}

type abort struct{ msg string }

func (x *Exec) fail(pos token.Pos, f string, a ...interface{}) {
	m := fmt.Sprintf(f, a...)
	panic(abort{x.posStr(pos) + ": " + m})
}

func (x *Exec) posStr(p token.Pos) string {
	if !p.IsValid() {
		return "-"
	}
	ps := x.v.fset.Position(p)
	fn := ps.Filename
	if i := strings.Index(fn, "/repo/"); i >= 0 {
		fn = fn[i+6:]
	}
	return fmt.Sprintf("%s:%d", fn, ps.Line)
}

func (x *Exec) oblige(st *State, goal *Term, kind string, pos token.Pos, desc string, props ...string) {
	x.obligeC(st, goal, kind, x.posStr(pos), desc, nil, props...)
	st.assume(goal)
}

func (x *Exec) obligeC(st *State, goal *Term, kind, pos, desc string, c *Cand, props ...string) *Obl {
	if v, ok := st.known(goal); ok && v {
		goal = True
	}
	name := shortFn(x.top.String()) + "/" + kind
	if desc != "" {
		name += "/" + desc
	}
	o := &Obl{Name: name, Fn: x.top.String(), Kind: kind, Pos: pos, Goal: goal, Cand: c, Props: props}
	if goal != True {
		o.Facts = st.list()
	}
	x.obls = append(x.obls, o)
	return o
}

func shortFn(s string) string { return strings.ReplaceAll(s, modulePath+"/", "") }

// newObj allocates a fresh object
func (x *Exec) newObj(st *State) *Term { return x.newObjK(st, IntLit(0)) }

func (x *Exec) newObjK(st *State, kind *Term) *Term {
	a := st.get(allocInfo)
	freshSeq["obj"]++
	o := Const(fmt.Sprintf("obj!%d", freshSeq["obj"]), SRef)
	addConstAxiom(o, Eq(raw("rid", SInt, o), a))
	addConstAxiom(o, Eq(raw("rkind", SInt, o), IntLit(0)))
	st.assume(Eq(raw("u:idkind", SInt, a), kind))
	if kind.ival != 0 {
		r := BoundVar("r", SRef)
		addConstAxiom(o, Forall([]*Term{r}, [][]*Term{{raw("rid", SInt, r)}}, Implies(Eq(raw("rid", SInt, r), a), Eq(r, o))))
	}
	addConstAxiom(o, Not(raw("=", SBool, o, NilRef)))
	st.set(allocInfo, Add(a, IntLit(1)))
	return o
}

// newObjAt names the object by its instruction and its number, so that alternative paths that allocate it share the name
func (x *Exec) newObjAt(st *State, in ssa.Instruction) *Term {
	k := objAt{in, st.get(allocInfo)}
	if o := x.objsAt[k]; o != nil {
		st.assume(Eq(raw("u:idkind", SInt, k.n), IntLit(0)))
		st.set(allocInfo, Add(k.n, IntLit(1)))
		return o
	}
	o := x.newObj(st)
	if x.objsAt == nil {
		x.objsAt = map[objAt]*Term{}
	}
	x.objsAt[k] = o
	return o
}

type objAt struct {
	in ssa.Instruction
	n  *Term
}

func (x *Exec) alloc(st *State) *Term { return st.get(allocInfo) }

func (x *Exec) freshVal(st *State, name string, t types.Type) *Term {
	c := Fresh(name, sortOf(t))
	addConstAxiom(c, typeFacts(t, c, x.alloc(st)))
	return c
}

// ---- pointers ----

type subInfo struct {
	st  types.Type
	idx int
}

var subInfos = map[string]subInfo{}

func subPtr(p *Term, st types.Type, idx int) *Term {
	u := st.Underlying().(*types.Struct)
	op := "sub:" + typeKey(st) + "." + u.Field(idx).Name()
	subInfos[op] = subInfo{st, idx}
	if p.op == "ite" {
		return Ite(p.args[0], subPtr(p.args[1], st, idx), subPtr(p.args[2], st, idx))
	}
	return raw(op, SRef, p)
}

var elemTypes = map[string]types.Type{}

func elemPtr(base, idx *Term, et types.Type) *Term {
	op := "elem:" + typeKey(et)
	elemTypes[op] = et
	return raw(op, SRef, base, idx)
}

// rooted: the pointer denotes part of a value held in a local, an array/slice element or a global
func rooted(p *Term) bool {
	switch {
	case strings.HasPrefix(p.op, "local:"), strings.HasPrefix(p.op, "elem:"), strings.HasPrefix(p.op, "glob:"), strings.HasPrefix(p.op, "aelem:"):
		return true
	case strings.HasPrefix(p.op, "sub:"):
		return rooted(p.args[0])
	}
	return false
}

func (x *Exec) load(st *State, p *Term, t types.Type) *Term {
	switch {
	case p.op == "ite":
		return Ite(p.args[0], x.load(st, p.args[1], t), x.load(st, p.args[2], t))
	case strings.HasPrefix(p.op, "local:"):
		mi := memInfos["L:"+p.op[6:]]
		return st.get(mi)
	case strings.HasPrefix(p.op, "glob:"):
		return x.v.loadGlobal(st, p.op[5:])
	case strings.HasPrefix(p.op, "elem:"):
		return Select(Select(st.get(elemKey(elemTypes[p.op])), p.args[0]), p.args[1])
	case strings.HasPrefix(p.op, "aelem:"):
		return Select(x.load(st, p.args[0], aelemArr[p.op]), p.args[1])
	case strings.HasPrefix(p.op, "sub:"):
		si := subInfos[p.op]
		if rooted(p.args[0]) {
			return StructGet(x.load(st, p.args[0], si.st), si.idx)
		}
		if !isDataStruct(t) {
			return Select(st.get(fieldKey(si.st, si.idx)), p.args[0])
		}
	}
	if isDataStruct(t) {
		u := t.Underlying().(*types.Struct)
		s := sortOf(t)
		var fs []*Term
		for i := 0; i < u.NumFields(); i++ {
			fs = append(fs, x.load(st, subPtr(p, t, i), u.Field(i).Type()))
		}
		if len(fs) == 0 {
			fs = append(fs, IntLit(0))
		}
		return StructMk(s, fs)
	}
	if a, ok := t.Underlying().(*types.Array); ok {
		return Select(st.get(elemKey(a.Elem())), p)
	}
	return Select(st.get(cellKey(t)), p)
}

var aelemArr = map[string]types.Type{}

func (x *Exec) store(st *State, p *Term, t types.Type, v *Term) {
	if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Name() == "Once" && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "sync" && !rooted(p) {
		st.set(onceKey, Store(st.get(onceKey), p, False))
	}
	switch {
	case p.op == "ite":
		a, b := p.args[1], p.args[2]
		x.store(st, a, t, Ite(p.args[0], v, x.load(st, a, t)))
		x.store(st, b, t, Ite(p.args[0], x.load(st, b, t), v))
		return
	case strings.HasPrefix(p.op, "local:"):
		st.set(memInfos["L:"+p.op[6:]], v)
		return
	case strings.HasPrefix(p.op, "glob:"):
		st.set(memInfos["G:"+p.op[5:]], v)
		return
	case strings.HasPrefix(p.op, "elem:"):
		mi := elemKey(elemTypes[p.op])
		m := st.get(mi)
		st.set(mi, Store(m, p.args[0], Store(Select(m, p.args[0]), p.args[1], v)))
		return
	case strings.HasPrefix(p.op, "aelem:"):
		at := aelemArr[p.op]
		x.store(st, p.args[0], at, Store(x.load(st, p.args[0], at), p.args[1], v))
		return
	case strings.HasPrefix(p.op, "sub:"):
		si := subInfos[p.op]
		if rooted(p.args[0]) {
			x.store(st, p.args[0], si.st, StructSet(x.load(st, p.args[0], si.st), si.idx, v))
			return
		}
		if !isDataStruct(t) {
			mi := fieldKey(si.st, si.idx)
			st.set(mi, Store(st.get(mi), p.args[0], v))
			return
		}
	}
	if isDataStruct(t) {
		u := t.Underlying().(*types.Struct)
		for i := 0; i < u.NumFields(); i++ {
			x.store(st, subPtr(p, t, i), u.Field(i).Type(), StructGet(v, i))
		}
		return
	}
	if a, ok := t.Underlying().(*types.Array); ok {
		mi := elemKey(a.Elem())
		st.set(mi, Store(st.get(mi), p, v))
		return
	}
	mi := cellKey(t)
	st.set(mi, Store(st.get(mi), p, v))
}

func (x *Exec) nonNil(st *State, p *Term, pos token.Pos, what string) {
	if rooted(p) || isObj(p) {
		return
	}
	if allSub(p) {
		return // checked when formed
	}
	g := Not(Eq(p, NilRef))
	if g == True {
		return
	}
	x.oblige(st, g, "nil-deref", pos, what)
}

func allSub(p *Term) bool {
	if p.op == "ite" {
		return allSub(p.args[1]) && allSub(p.args[2])
	}
	return strings.HasPrefix(p.op, "sub:")
}

// escape check for interior pointers
func (x *Exec) checkEscape(p *Term, t types.Type, pos token.Pos) {
	if p.sort != SRef || p == NilRef {
		return
	}
	if p.op == "ite" {
		x.checkEscape(p.args[1], t, pos)
		x.checkEscape(p.args[2], t, pos)
		return
	}
	if rooted(p) && !strings.HasPrefix(p.op, "glob:") {
		x.fail(pos, "interior pointer escapes: %s", p)
	}
	if strings.HasPrefix(p.op, "sub:") {
		si := subInfos[p.op]
		ft := si.st.Underlying().(*types.Struct).Field(si.idx).Type()
		if _, isS := ft.Underlying().(*types.Struct); !isS {
			x.fail(pos, "pointer to a scalar field escapes: %s", p)
		}
	}
}

// ---- values ----

func (x *Exec) val(fr *Frame, st *State, v ssa.Value) *Term {
	if t, ok := fr.regs[v]; ok {
		return t
	}
	switch v := v.(type) {
	case *ssa.Const:
		return x.constVal(v)
	case *ssa.Function:
		t := raw("fn:"+v.String(), SRef)
		x.globFn[t] = v
		return t
	case *ssa.Global:
		return x.v.globalPtr(v)
	case *ssa.Builtin:
		return raw("fn:builtin."+v.Name(), SRef)
	}
	x.fail(v.Pos(), "no value for %s %T in %s", v.Name(), v, fr.fn)
	return nil
}

func (x *Exec) constVal(c *ssa.Const) *Term { return constTerm(c.Value, c.Type()) }

func constTerm(cv constant.Value, t types.Type) *Term {
	if cv == nil {
		return zeroOf(t)
	}
	if _, ok := t.Underlying().(*types.Interface); ok {
		panic("const of interface type")
	}
	switch sortOf(t) {
	case SBool:
		return BoolLit(constant.BoolVal(cv))
	case SInt:
		iv := constant.ToInt(cv)
		return BigLit(iv.ExactString())
	case SStr:
		return StrLit(constant.StringVal(cv))
	case SF64:
		f, _ := constant.Float64Val(cv)
		if f == 0 {
			return raw("f64zero", SF64)
		}
		return raw("f64lit:"+fmt.Sprint(f), SF64)
	}
	panic("const " + cv.String() + " of " + t.String())
}

// ---- CFG helpers ----

type Loop struct {
	head *ssa.BasicBlock
	body map[*ssa.BasicBlock]bool
}

type fnInfo struct {
	rpo   []*ssa.BasicBlock
	idx   map[*ssa.BasicBlock]int
	loops map[*ssa.BasicBlock]*Loop
}

var fnInfos = map[*ssa.Function]*fnInfo{}

func infoOf(fn *ssa.Function) *fnInfo {
	if i, ok := fnInfos[fn]; ok {
		return i
	}
	fi := &fnInfo{idx: map[*ssa.BasicBlock]int{}, loops: map[*ssa.BasicBlock]*Loop{}}
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for i := len(b.Succs) - 1; i >= 0; i-- {
			if !seen[b.Succs[i]] {
				dfs(b.Succs[i])
			}
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	for i := len(post) - 1; i >= 0; i-- {
		fi.idx[post[i]] = len(fi.rpo)
		fi.rpo = append(fi.rpo, post[i])
	}
	for _, b := range fi.rpo {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := fi.loops[s]
				if l == nil {
					l = &Loop{head: s, body: map[*ssa.BasicBlock]bool{s: true}}
					fi.loops[s] = l
				}
				// natural loop
				stack := []*ssa.BasicBlock{b}
				for len(stack) > 0 {
					n := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					if l.body[n] {
						continue
					}
					l.body[n] = true
					for _, p := range n.Preds {
						if seen[p] {
							stack = append(stack, p)
						}
					}
				}
			} else if fi.idx[s] <= fi.idx[b] {
				panic(abort{"irreducible control flow in " + fn.String()})
			}
		}
	}
	fnInfos[fn] = fi
	return fi
}

type edgeOut struct {
	from, to *ssa.BasicBlock
	c        cfg
}

type region struct {
	x     *Exec
	fi    *fnInfo
	loop  *Loop // current loop or nil
	pend  map[*ssa.BasicBlock][]cfg
	outs  []edgeOut // edges leaving the region
	backs []cfg
	rets  *[]Outcome
}

const mergeLimit = 40

func (r *region) deliver(from, to *ssa.BasicBlock, c cfg) {
	// phis
	pi := -1
	for i, p := range to.Preds {
		if p == from {
			pi = i
			break
		}
	}
	var vals []*Term
	var phis []*ssa.Phi
	for _, in := range to.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, ph)
		vals = append(vals, r.x.val(c.fr, c.st, ph.Edges[pi]))
	}
	for i, ph := range phis {
		c.fr.regs[ph] = vals[i]
	}
	switch {
	case r.loop != nil && to == r.loop.head:
		r.backs = append(r.backs, c)
	case r.loop != nil && !r.loop.body[to]:
		r.outs = append(r.outs, edgeOut{from, to, c})
	default:
		r.pend[to] = append(r.pend[to], c)
	}
}

func (r *region) run() {
	skip := map[*ssa.BasicBlock]bool{}
	for _, b := range r.fi.rpo {
		if skip[b] || r.loop != nil && !r.loop.body[b] {
			continue
		}
		cs := r.pend[b]
		if len(cs) == 0 {
			if l := r.fi.loops[b]; l != nil && (r.loop == nil || l != r.loop) {
				for bb := range l.body {
					skip[bb] = true
				}
			}
			continue
		}
		delete(r.pend, b)
		if l := r.fi.loops[b]; l != nil && (r.loop == nil || l != r.loop) {
			c := r.x.mergeCfgs(cs)
			for bb := range l.body {
				skip[bb] = true
			}
			r.x.runLoop(r, l, c)
			continue
		}
		lim := mergeLimit
		if r.x.con != nil && r.x.con.Merge {
			lim = 1
		} else if r.x.con != nil && r.x.con.Paths > 0 {
			lim = r.x.con.Paths
		}
		if len(cs) > lim {
			cs = []cfg{r.x.mergeCfgs(cs)}
		}
		for _, c := range cs {
			r.x.runFrom(r, c, b, 0)
		}
	}
}

// mergeCfgs joins several configurations of the same frame
func (x *Exec) mergeCfgs(cs []cfg) cfg {
	if len(cs) == 1 {
		return cs[0]
	}
	// common fact prefix
	common := cs[0].st.facts
	for _, c := range cs[1:] {
		a, b := common, c.st.facts
		for a != b {
			na, nb := 0, 0
			if a != nil {
				na = a.n
			}
			if b != nil {
				nb = b.n
			}
			if na > nb {
				a = a.parent
			} else if nb > na {
				b = b.parent
			} else if a != nil {
				a, b = a.parent, b.parent
			} else {
				break
			}
		}
		common = a
	}
	st := &State{facts: common, mem: map[string]*Term{}, panic: cs[0].st.panic, inRec: cs[0].st.inRec}
	var sel []*Term
	for range cs {
		sel = append(sel, Fresh("path", SBool))
	}
	st.assume(Or(sel...))
	for i, c := range cs {
		var fs []*Term
		for f := c.st.facts; f != common; f = f.parent {
			fs = append(fs, f.t)
		}
		for j := len(fs) - 1; j >= 0; j-- {
			st.assume(Implies(sel[i], fs[j]))
		}
	}
	pick := func(vs []*Term) *Term {
		r := vs[len(vs)-1]
		for i := len(vs) - 2; i >= 0; i-- {
			r = Ite(sel[i], vs[i], r)
		}
		return r
	}
	keys := map[string]bool{}
	ep := cs[len(cs)-1].st.epoch
	for i := len(cs) - 2; i >= 0; i-- {
		e := cs[i].st.epoch
		if e != ep {
			epochSeq++
			ep = &Epoch{id: epochSeq, cond: sel[i], a: e, b: ep, cache: map[string]*Term{}}
		}
	}
	st.epoch = ep
	for _, c := range cs {
		for k := range c.st.mem {
			keys[k] = true
		}
	}
	for k := range keys {
		mi := memInfos[k]
		var vs []*Term
		for _, c := range cs {
			vs = append(vs, c.st.get(mi))
		}
		st.mem[k] = pick(vs)
	}
	fr := cs[0].fr.clone()
	for v := range fr.regs {
		var vs []*Term
		ok := true
		for _, c := range cs {
			t, has := c.fr.regs[v]
			if !has {
				ok = false
				break
			}
			vs = append(vs, t)
		}
		if ok {
			fr.regs[v] = pick(vs)
		} else {
			delete(fr.regs, v)
		}
	}
	for v := range fr.tups {
		ok := true
		for _, c := range cs {
			if len(c.fr.tups[v]) != len(fr.tups[v]) {
				ok = false
			}
		}
		if !ok {
			delete(fr.tups, v)
			continue
		}
		nt := make([]*Term, len(fr.tups[v]))
		for i := range nt {
			var vs []*Term
			for _, c := range cs {
				vs = append(vs, c.fr.tups[v][i])
			}
			nt[i] = pick(vs)
		}
		fr.tups[v] = nt
	}
	for _, c := range cs[1:] {
		if len(c.fr.defers) != len(fr.defers) {
			panic(abort{"merge of states with different defers in " + fr.fn.String()})
		}
		for _, l := range c.fr.locals {
			fr.locals = append(fr.locals, l)
		}
	}
	return cfg{st, fr}
}

type modK struct {
	full, fresh bool
	refs        []*Term
}

func (m *modK) addRef(r *Term) bool {
	for _, q := range m.refs {
		if q == r {
			return false
		}
	}
	m.refs = append(m.refs, r)
	return true
}

func freshRef(t *Term, birth int) bool {
	if isObj(t) {
		return t.birth > birth
	}
	if strings.HasPrefix(t.op, "sub:") {
		return freshRef(t.args[0], birth)
	}
	return false
}

// diffMem classifies how end differs from head; returns true when the mod set grew
func diffMem(m *modK, mi *MemInfo, head, end *Term, birth int) bool {
	if m.full {
		return false
	}
	if !refKeyed(mi) {
		if head != end {
			m.full = true
			return true
		}
		return false
	}
	grew := false
	stops := map[*Term]bool{head: true}
	for h := head; h.op == "store"; {
		h = h.args[0]
		stops[h] = true
	}
	seen := map[*Term]bool{}
	var idx func(r *Term)
	idx = func(r *Term) {
		switch {
		case r.op == "ite":
			idx(r.args[1])
			idx(r.args[2])
		case freshRef(r, birth):
			if !m.fresh {
				m.fresh = true
				grew = true
			}
		case r.birth <= birth && !r.bound:
			if m.addRef(r) {
				grew = true
			}
		default:
			if !m.full {
				m.full = true
				grew = true
			}
		}
	}
	var walk func(t *Term)
	walk = func(t *Term) {
		if stops[t] || seen[t] || m.full {
			return
		}
		seen[t] = true
		switch t.op {
		case "store":
			idx(t.args[1])
			walk(t.args[0])
			return
		case "ite":
			walk(t.args[1])
			walk(t.args[2])
			return
		}
		if fi := frameOf[t]; fi != nil && fi.birth > birth {
			if !m.fresh {
				m.fresh = true
				grew = true
			}
			walk(fi.old)
			return
		}
		m.full = true
		grew = true
	}
	walk(end)
	return grew
}

// epochDelta: 0 same, 1 only fresh objects differ, 2 anything
func epochDelta(from, to *Epoch, n int) int {
	if from == to {
		return 0
	}
	if n > 200 || to == nil {
		return 2
	}
	if to.cond != nil {
		a, b := epochDelta(from, to.a, n+1), epochDelta(from, to.b, n+1)
		if b > a {
			a = b
		}
		return a
	}
	if to.frameAlloc != nil && to.base != nil {
		if epochDelta(from, to.base, n+1) <= 1 {
			return 1
		}
	}
	return 2
}

// runLoop cuts the loop at its head
func (x *Exec) runLoop(outer *region, l *Loop, c cfg) {
	mod := map[string]*modK{}
	epochMode := 0
	entryFr := c.fr.clone()
	entrySt := c.st.clone()
	birthSeq++
	headBirth := birthSeq
	for trial := 0; ; trial++ {
		if trial > 40 {
			panic(abort{"loop write set does not stabilise in " + c.fr.fn.String()})
		}
		oblMark := len(x.obls)
		retMark := len(*outer.rets)
		st := entrySt.clone()
		fr := entryFr.clone()
		// havoc
		alloc0 := x.alloc(st)
		na := Fresh("alloc", SInt)
		st.assume(Le(alloc0, na))
		switch epochMode {
		case 1:
			ep := newEpoch(na)
			ep.base, ep.st, ep.frameAlloc = entrySt.epoch, entrySt.mem, alloc0
			ep.kept = x.kept
			st.epoch = ep
			for k := range st.mem {
				if refKeyed(memInfos[k]) && !x.kept[k] {
					delete(st.mem, k)
				}
			}
		case 2:
			ep := newEpoch(na)
			ep.base, ep.st = entrySt.epoch, entrySt.mem
			ep.keep = func(mi *MemInfo) bool { return strings.HasPrefix(mi.Key, "G:ghost.") }
			st.epoch = ep
			for k := range st.mem {
				mi := memInfos[k]
				if mi.Kind != "L" && mi.Kind != "I" && !ep.keep(mi) {
					delete(st.mem, k)
				}
			}
		}
		st.set(allocInfo, na)
		var phis []*ssa.Phi
		for _, in := range l.head.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			phis = append(phis, ph)
			fr.regs[ph] = x.freshVal(st, "phi."+ph.Comment, ph.Type())
		}
		var keys []string
		for _, k := range sortedKeys(mod) {
			m := mod[k]
			mi := memInfos[k]
			if m.full {
				h := Fresh(k+"@loop", mi.Sort)
				addConstAxiom(h, memAxioms(mi, h, na))
				st.set(mi, h)
				keys = append(keys, k)
				continue
			}
			cur := st.get(mi)
			if m.fresh && epochMode != 1 {
				cur = framedConst(k+"@loop", mi, cur, alloc0, na, 0)
			}
			for _, r := range m.refs {
				h := Fresh(k+"@loopv", mi.Sort.V)
				x.rowAxioms(mi, h, na)
				cur = Store(cur, r, h)
			}
			st.set(mi, cur)
		}
		lc := &loopCtx{x: x, loop: l, phis: phis, mod: keys, entry: cfg{entrySt, entryFr}, head: cfg{st.clone(), fr.clone()}}
		cands := x.loopCands(lc)
		pos := x.loopPos(l)
		for _, cd := range cands {
			g := cd.eval(cfg{entrySt, entryFr})
			x.obligeC(entrySt, g, "inv-init", pos, cd.c.Text, cd.c)
		}
		for _, cd := range cands {
			st.assume(Implies(cd.c.ID, cd.eval(lc.head)))
		}
		headSt := st.clone()
		r := &region{x: x, fi: outer.fi, loop: l, pend: map[*ssa.BasicBlock][]cfg{}, rets: outer.rets}
		r.pend[l.head] = []cfg{{st, fr}}
		r.run()
		grew := false
		for _, b := range r.backs {
			s := b.st
			if d := epochDelta(headSt.epoch, s.epoch, 0); d > epochMode {
				epochMode = d
				grew = true
				continue
			}
			if s.epoch != headSt.epoch && epochMode == 2 {
				// everything is havocked at the head already
				for k, v := range s.mem {
					mi := memInfos[k]
					if mi.Kind != "L" && mi.Kind != "I" && !strings.HasPrefix(k, "G:ghost.") || k == "alloc" {
						continue
					}
					if hv, ok := headSt.mem[k]; ok && hv != v {
						m := mod[k]
						if m == nil {
							m = &modK{}
							mod[k] = m
						}
						if !m.full {
							m.full = true
							grew = true
						}
					}
				}
				continue
			}
			for k := range x.kept {
				if s.get(memInfos[k]) != headSt.get(memInfos[k]) {
					s.mem[k] = s.get(memInfos[k])
				}
			}
			for k, v := range s.mem {
				if k == "alloc" {
					continue
				}
				mi := memInfos[k]
				hv, ok := headSt.mem[k]
				if !ok {
					if mi.Kind == "L" || mi.Kind == "I" {
						continue // local of the loop body, dead at the head
					}
					hv = headSt.epoch.get(mi)
				}
				if hv == v {
					continue
				}
				m := mod[k]
				if m == nil {
					m = &modK{}
				}
				if diffMem(m, mi, hv, v, headBirth) {
					grew = true
					mod[k] = m
				}
			}
		}
		if grew {
			x.obls = x.obls[:oblMark]
			*outer.rets = (*outer.rets)[:retMark]
			continue
		}
		for _, b := range r.backs {
			for _, cd := range cands {
				g := cd.eval(b)
				x.obligeC(b.st, g, "inv-keep", pos, cd.c.Text, cd.c)
			}
			if x.con != nil {
				x.loopDecreases(lc, b, pos)
			}
		}
		for _, e := range r.outs {
			outer.deliverOut(e)
		}
		return
	}
}

func (r *region) deliverOut(e edgeOut) {
	switch {
	case r.loop != nil && e.to == r.loop.head:
		r.backs = append(r.backs, e.c)
	case r.loop != nil && !r.loop.body[e.to]:
		r.outs = append(r.outs, e)
	default:
		r.pend[e.to] = append(r.pend[e.to], e.c)
	}
}

func (x *Exec) loopPos(l *Loop) string {
	for _, in := range l.head.Instrs {
		if in.Pos().IsValid() {
			return x.posStr(in.Pos())
		}
	}
	for b := range l.body {
		for _, in := range b.Instrs {
			if in.Pos().IsValid() {
				return x.posStr(in.Pos())
			}
		}
	}
	return "-"
}

// ---- function execution ----

func (x *Exec) newFrame(fn *ssa.Function, depth int) *Frame {
	x.frameSeq++
	return &Frame{id: x.frameSeq, fn: fn, regs: map[ssa.Value]*Term{}, tups: map[ssa.Value][]*Term{}, depth: depth}
}

// execFn runs fn's body from st
func (x *Exec) execFn(st *State, fn *ssa.Function, args []*Term, bindings []*Term, depth int) []Outcome {
	if len(fn.Blocks) == 0 {
		panic(abort{"no body for " + fn.String()})
	}
	if depth > 40 {
		panic(abort{"inlining too deep at " + fn.String()})
	}
	n := 0
	for _, f := range x.callStack {
		if f == fn {
			n++
		}
	}
	if n > 1 {
		panic(abort{"recursion through " + fn.String() + " needs a contract"})
	}
	x.callStack = append(x.callStack, fn)
	defer func() { x.callStack = x.callStack[:len(x.callStack)-1] }()
	fr := x.newFrame(fn, depth)
	if len(args) != len(fn.Params) {
		panic(abort{fmt.Sprintf("arity mismatch calling %s: %d args for %d params", fn, len(args), len(fn.Params))})
	}
	for i, p := range fn.Params {
		fr.regs[p] = args[i]
	}
	for i, fv := range fn.FreeVars {
		fr.regs[fv] = bindings[i]
	}
	var rets []Outcome
	r := &region{x: x, fi: infoOf(fn), pend: map[*ssa.BasicBlock][]cfg{}, rets: &rets}
	r.pend[fn.Blocks[0]] = []cfg{{st, fr}}
	r.run()
	return rets
}

func (x *Exec) dropLocals(st *State, fr *Frame) {
	for _, k := range fr.locals {
		delete(st.mem, k)
	}
}

func (x *Exec) runFrom(r *region, c cfg, b *ssa.BasicBlock, i int) {
	x.steps++
	if x.steps > 60000 {
		panic(abort{"too many steps in " + x.top.String()})
	}
	for ; i < len(b.Instrs); i++ {
		in := b.Instrs[i]
		switch in := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
			continue
		case *ssa.Jump:
			r.deliver(b, b.Succs[0], c)
			return
		case *ssa.If:
			cond := x.val(c.fr, c.st, in.Cond)
			if v, ok := c.st.known(cond); ok {
				if v {
					r.deliver(b, b.Succs[0], c)
				} else {
					r.deliver(b, b.Succs[1], c)
				}
				return
			}
			c2 := cfg{c.st.clone(), c.fr.clone()}
			c.st.branch(cond)
			c2.st.branch(Not(cond))
			r.deliver(b, b.Succs[0], c)
			r.deliver(b, b.Succs[1], c2)
			return
		case *ssa.Return:
			var res []*Term
			for _, v := range in.Results {
				res = append(res, x.val(c.fr, c.st, v))
			}
			x.dropLocals(c.st, c.fr)
			*r.rets = append(*r.rets, Outcome{st: c.st, res: res})
			return
		case *ssa.Panic:
			pv := x.val(c.fr, c.st, in.X)
			x.doPanic(r, c, pv)
			return
		case *ssa.RunDefers:
			outs := x.runDefers(c, false)
			for _, o := range outs {
				if o.pan {
					x.dropLocals(o.st, c.fr)
					*r.rets = append(*r.rets, Outcome{st: o.st, pan: true})
					continue
				}
				nf := c.fr.clone()
				nf.defers = nil
				x.runFrom(r, cfg{o.st, nf}, b, i+1)
			}
			return
		case *ssa.Defer:
			d := deferred{call: in}
			cc := in.Common()
			if cc.IsInvoke() {
				d.fnv = x.val(c.fr, c.st, cc.Value)
			} else if cc.StaticCallee() == nil || true {
				if _, isB := cc.Value.(*ssa.Builtin); !isB {
					d.fnv = x.val(c.fr, c.st, cc.Value)
				}
			}
			for _, a := range cc.Args {
				d.args = append(d.args, x.val(c.fr, c.st, a))
			}
			c.fr.defers = append(c.fr.defers, d)
		case *ssa.Call:
			outs := x.call(c, in, in.Common())
			if len(outs) == 0 {
				return // no outcome (e.g. infeasible)
			}
			for k, o := range outs {
				nc := cfg{o.st, c.fr}
				if k < len(outs)-1 {
					nc.fr = c.fr.clone()
				}
				if o.pan {
					x.doPanic(r, nc, o.st.panic)
					continue
				}
				x.bindResult(nc.fr, in, o.res)
				if len(outs) == 1 {
					c = nc
				} else {
					x.runFrom(r, nc, b, i+1)
				}
			}
			if len(outs) == 1 && !outs[0].pan {
				continue
			}
			return
		case *ssa.Go:
			if !x.v.ghostGo(x, c, in) {
				x.fail(in.Pos(), "go statement")
			}
		default:
			cs := x.instr(c, in)
			if cs == nil {
				continue
			}
			for _, nc := range cs {
				x.runFrom(r, nc, b, i+1)
			}
			return
		}
	}
}

func (x *Exec) bindResult(fr *Frame, v ssa.Value, res []*Term) {
	if tp, ok := v.Type().(*types.Tuple); ok {
		if tp.Len() == 0 {
			return
		}
		fr.tups[v] = res
		return
	}
	if len(res) > 0 {
		fr.regs[v] = res[0]
	}
}

// doPanic unwinds the current frame with panic value pv
func (x *Exec) doPanic(r *region, c cfg, pv *Term) {
	c.st.panic = pv
	if pv == nil {
		c.st.panic = Fresh("panicval", SAny)
	}
	if len(c.fr.defers) == 0 {
		x.dropLocals(c.st, c.fr)
		*r.rets = append(*r.rets, Outcome{st: c.st, pan: true})
		return
	}
	for _, o := range x.runDefers(c, true) {
		if o.pan {
			x.dropLocals(o.st, c.fr)
			*r.rets = append(*r.rets, Outcome{st: o.st, pan: true})
			continue
		}
		// recovered: return current values of named results
		nf := c.fr.clone()
		nf.defers = nil
		if rb := c.fr.fn.Recover; rb != nil {
			x.runRecoverBlock(r, cfg{o.st, nf}, rb)
			continue
		}
		var res []*Term
		rs := c.fr.fn.Signature.Results()
		for i := 0; i < rs.Len(); i++ {
			res = append(res, zeroOf(rs.At(i).Type()))
		}
		x.dropLocals(o.st, nf)
		*r.rets = append(*r.rets, Outcome{st: o.st, res: res})
	}
}

func (x *Exec) runRecoverBlock(r *region, c cfg, b *ssa.BasicBlock) {
	x.runFrom(r, c, b, 0)
}

// runDefers runs the deferred calls; returns states: pan = still panicking
func (x *Exec) runDefers(c cfg, panicking bool) []Outcome {
	ds := c.fr.defers
	cur := []Outcome{{st: c.st, pan: panicking}}
	for i := len(ds) - 1; i >= 0; i-- {
		d := ds[i]
		var next []Outcome
		for _, o := range cur {
			st := o.st
			if !o.pan {
				st.panic = nil
			}
			save := st.panic
			outs := x.callDeferred(cfg{st, c.fr}, d)
			for _, oo := range outs {
				if oo.pan {
					next = append(next, Outcome{st: oo.st, pan: true})
					continue
				}
				// recovered if panic cleared
				still := save != nil && oo.st.panic != nil
				next = append(next, Outcome{st: oo.st, pan: still})
			}
		}
		cur = next
	}
	for _, o := range cur {
		if !o.pan {
			o.st.panic = nil
		}
	}
	return cur
}
