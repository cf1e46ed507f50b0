package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Verifier struct {
	fset      *token.FileSet
	prog      *ssa.Program
	pkgs      []*packages.Package
	allTypes  map[string]*types.Package
	contracts map[string]*Contract
	specFns   map[string]*SpecFn
	recFns    map[string]*SpecFn
	ghosts    map[string]*MemInfo
	axioms    []Clause
	lemmas    []*Lemma
	lemmaBy   map[string]*Lemma
	scratch   *Exec
	fns       map[string]*ssa.Function
	globs     map[string]*globInfo
	globByVar map[*types.Var]*ssa.Global
	warned    map[string]bool
	verbose   bool
	prop      string
	timeout   time.Duration
}

type globInfo struct {
	g       *ssa.Global
	mutable bool
	stores  []ssa.Value
	val     *Term
}

func (v *Verifier) warn(f string, a ...interface{}) {
	s := fmt.Sprintf(f, a...)
	if !v.warned[s] {
		v.warned[s] = true
		fmt.Fprintln(os.Stderr, "warning:", s)
	}
}

func (v *Verifier) build(fn *ssa.Function) {
	if fn.Pkg != nil {
		fn.Pkg.Build()
	}
}

func (v *Verifier) inlinable(fn *ssa.Function) bool {
	if fn.Pkg != nil {
		return inModule(fn.Pkg.Pkg)
	}
	return fn.Synthetic != ""
}

func (v *Verifier) methodOf(t types.Type, m *types.Func) *ssa.Function {
	ms := v.prog.MethodSets.MethodSet(t)
	sel := ms.Lookup(m.Pkg(), m.Name())
	if sel == nil {
		return nil
	}
	return v.prog.MethodValue(sel)
}

func (v *Verifier) fnByName(n string) *ssa.Function { return v.fns[n] }

func (v *Verifier) ghostGo(x *Exec, c cfg, in *ssa.Go) bool { return false }

func (v *Verifier) typesPkg(path string) *types.Package { return v.allTypes[path] }

func (v *Verifier) pkgByName(name string, from *types.Package) []*types.Package {
	var out []*types.Package
	if from != nil {
		for _, p := range from.Imports() {
			if p.Name() == name {
				out = append(out, p)
			}
		}
	}
	for _, k := range sortedKeys(v.allTypes) {
		p := v.allTypes[k]
		if p.Name() == name && !strings.Contains(k, "internal/") && !strings.HasPrefix(k, "vendor/") {
			dup := false
			for _, q := range out {
				if q.Path() == p.Path() {
					dup = true
				}
			}
			if !dup {
				out = append(out, p)
			}
		}
	}
	return out
}

func load(repo, drivers string) *Verifier {
	v := &Verifier{fset: token.NewFileSet(), allTypes: map[string]*types.Package{}, contracts: map[string]*Contract{}, specFns: map[string]*SpecFn{},
		recFns: map[string]*SpecFn{}, ghosts: map[string]*MemInfo{}, fns: map[string]*ssa.Function{}, globs: map[string]*globInfo{}, globByVar: map[*types.Var]*ssa.Global{}, warned: map[string]bool{},
		lemmaBy: map[string]*Lemma{}, timeout: 8 * time.Second}
	overlay := map[string][]byte{}
	if drivers != "" {
		filepath.Walk(drivers, func(p string, fi os.FileInfo, err error) error {
			if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") {
				return nil
			}
			rel, _ := filepath.Rel(drivers, filepath.Dir(p))
			b, err := os.ReadFile(p)
			if err != nil {
				panic(err)
			}
			overlay[filepath.Join(repo, rel, "zz_gcv_"+filepath.Base(p))] = b
			return nil
		})
	}
	conf := &packages.Config{Fset: v.fset, Dir: repo, Overlay: overlay,
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedExportFile,
		Env:  append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOSUMDB=off"),
	}
	conf.Mode &^= packages.NeedDeps
	pkgs, err := packages.Load(conf, "./...")
	if err != nil {
		fatal("load: %v", err)
	}
	for _, p := range pkgs {
		for _, e := range p.Errors {
			fatal("load %s: %v", p.PkgPath, e)
		}
	}
	v.pkgs = pkgs
	var addTypes func(p *types.Package)
	addTypes = func(p *types.Package) {
		if _, ok := v.allTypes[p.Path()]; ok {
			return
		}
		v.allTypes[p.Path()] = p
		for _, q := range p.Imports() {
			addTypes(q)
		}
	}
	for _, p := range pkgs {
		v.allTypes[p.PkgPath] = p.Types
	}
	for _, p := range pkgs {
		for _, q := range p.Types.Imports() {
			addTypes(q)
		}
	}
	prog, _ := ssautil.Packages(pkgs, 0)
	v.prog = prog
	prog.Build()
	for fn := range ssautil.AllFunctions(prog) {
		v.fns[fn.String()] = fn
	}
	v.scanGlobals()
	v.scratch = v.newExec(nil)
	return v
}

func fatal(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "gocv: "+f+"\n", a...)
	os.Exit(3)
}

// ---- globals ----

func globName(g *ssa.Global) string { return g.Pkg.Pkg.Path() + "." + g.Name() }

func (v *Verifier) scanGlobals() {
	for _, p := range v.prog.AllPackages() {
		for _, m := range p.Members {
			if g, ok := m.(*ssa.Global); ok {
				v.globs[globName(g)] = &globInfo{g: g}
				if o, ok := g.Object().(*types.Var); ok {
					v.globByVar[o] = g
				}
			}
		}
	}
	for fn := range ssautil.AllFunctions(v.prog) {
		if fn.Pkg == nil && fn.Synthetic == "" || len(fn.Blocks) == 0 {
			continue
		}
		isInit := fn.Synthetic == "package initializer" || fn.Parent() == nil && strings.HasPrefix(fn.Name(), "init#")
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				var ops []*ssa.Value
				for _, op := range in.Operands(ops) {
					g, ok := (*op).(*ssa.Global)
					if !ok {
						continue
					}
					gi := v.globs[globName(g)]
					if gi == nil {
						continue
					}
					switch in := in.(type) {
					case *ssa.UnOp:
						continue
					case *ssa.Store:
						if in.Addr == g && in.Val != g {
							if isInit {
								gi.stores = append(gi.stores, in.Val)
							} else {
								gi.mutable = true
							}
							continue
						}
					}
					if _, ok := in.(*ssa.DebugRef); ok {
						continue
					}
					if !isInit || true {
						gi.mutable = true
					}
				}
			}
		}
	}
}

func (v *Verifier) globalPtr(g *ssa.Global) *Term {
	n := globName(g)
	if v.globs[n] == nil {
		v.globs[n] = &globInfo{g: g}
	}
	t := deref(g.Type())
	memInfo("G:"+n, "G", sortOf(t), t, nil)
	return raw("glob:"+n, SRef)
}

func (v *Verifier) globalPtrOf(o *types.Var) *Term {
	if g, ok := v.globByVar[o]; ok {
		return v.globalPtr(g)
	}
	n := o.Pkg().Path() + "." + o.Name()
	memInfo("G:"+n, "G", sortOf(o.Type()), o.Type(), nil)
	return raw("glob:"+n, SRef)
}

func (v *Verifier) loadGlobal(st *State, n string) *Term {
	mi := memInfos["G:"+n]
	gi := v.globs[n]
	if gi != nil && gi.mutable {
		return st.get(mi)
	}
	if gi == nil {
		gi = &globInfo{}
		v.globs[n] = gi
	}
	if gi.val != nil {
		return gi.val
	}
	c := Const("G."+n, mi.Sort)
	gi.val = c
	errT := types.Universe.Lookup("error").Type()
	external := gi.g == nil || !inModule(gi.g.Pkg.Pkg)
	if external && types.Identical(mi.Typ, errT) {
		gi.val = Box("*errors.errorString", raw("fn:errobj:"+n, SRef))
		return gi.val
	}
	if !external && len(gi.stores) == 0 {
		gi.val = zeroOf(mi.Typ)
		return gi.val
	}
	if len(gi.stores) == 1 {
		s := gi.stores[0]
		if mk, ok := s.(*ssa.ChangeInterface); ok {
			s = mk.X
		}
		switch s := s.(type) {
		case *ssa.Const:
			gi.val = constTerm(s.Value, s.Type())
			return gi.val
		case *ssa.Call:
			if f := s.Call.StaticCallee(); f != nil && f.String() == "errors.New" {
				gi.val = Box("*errors.errorString", raw("fn:errobj:"+n, SRef))
				return gi.val
			}
		case *ssa.Alloc, *ssa.MakeMap:
			addConstAxiom(c, Not(Eq(c, NilRef)))
		case *ssa.Function:
			gi.val = raw("fn:"+s.String(), SRef)
			return gi.val
		}
	}
	a0 := Const("alloc!0", SInt)
	addConstAxiom(c, typeFacts(mi.Typ, c, a0))
	return c
}

// ---- verification of a contract ----

type Result struct {
	Con    *Contract
	X      *Exec
	Err    string
	Obls   []*Obl
	Secs   float64
	Lemmas []string
}

func (v *Verifier) newExec(con *Contract) *Exec {
	return &Exec{v: v, con: con, clos: map[*Term]*Closure{}, usedContracts: map[*Contract]bool{}, assumptions: map[string]bool{}, inlined: map[string]bool{},
		unsupported: map[string]bool{}, candByKey: map[string]*Cand{}, globFn: map[*Term]*ssa.Function{}, unboxFn: map[*Term]bool{}, oblSeq: map[string]int{}}
}

func (v *Verifier) verify(con *Contract) (res *Result) {
	t0 := time.Now()
	res = &Result{Con: con}
	x := v.newExec(con)
	res.X = x
	defer func() {
		if r := recover(); r != nil {
			switch r := r.(type) {
			case abort:
				res.Err = r.msg
			case specError:
				res.Err = "contract error: " + string(r)
			default:
				res.Err = fmt.Sprintf("internal error: %v\n%s", r, debug.Stack())
			}
		}
		res.Obls = x.obls
		res.Secs = time.Since(t0).Seconds()
	}()
	fn := v.fnByName(con.Key)
	if fn == nil {
		panic(abort{"no function " + con.Key + " in the code under verification"})
	}
	v.build(fn)
	x.top = fn
	a0 := Const("alloc!0", SInt)
	st := &State{mem: map[string]*Term{}, epoch: newEpoch(a0)}
	st.set(allocInfo, a0)
	st.assume(Le(IntLit(0), a0))
	var args []*Term
	for i, p := range fn.Params {
		n := p.Name()
		if i < len(con.Params) && con.Params[i] != "_" {
			n = con.Params[i]
		}
		a := x.freshVal(st, n, p.Type())
		args = append(args, a)
	}
	var binds []*Term
	for _, fv := range fn.FreeVars {
		b := x.freshVal(st, "fv."+fv.Name(), fv.Type())
		st.assume(Not(Eq(b, NilRef)))
		binds = append(binds, b)
	}
	env := con.bind(v, x, fn.Signature, recvType(fn), args)
	for i, fv := range fn.FreeVars {
		if _, ok := env.vars[fv.Name()]; !ok {
			env.vars[fv.Name()] = SVal{t: binds[i], typ: fv.Type()}
		}
	}
	env.st = st
	x.captures(st, fn, con, binds)
	x.entry = st.clone()
	env.old = x.entry
	for _, l := range con.lets {
		env = env.with(l.label, env.tr(l.e))
	}
	x.entryEnv = env.vars
	x.kept = con.kept(env)
	for _, r := range append(append([]Clause{}, con.Captured...), con.Req...) {
		st.assume(env.Bool(r.e))
	}
	for _, u := range con.uses {
		lm := v.lemmaBy[u]
		if lm == nil {
			panic(specErr(con.pos, "unknown lemma %s", u))
		}
		st.assume(v.lemmaFact(lm))
		res.Lemmas = append(res.Lemmas, u)
	}
	x.entry.facts = st.facts
	// the precondition must be satisfiable
	if len(con.Req)+len(con.Captured) > 0 {
		x.obls = append(x.obls, &Obl{Name: shortFn(fn.String()) + "/precondition-satisfiable", Fn: fn.String(), Kind: "cover", Pos: con.pos, Facts: st.list(), Goal: False, Cover: true})
	}
	if len(con.begins) > 0 {
		var vals []*Term
		for _, b := range con.begins {
			vals = append(vals, env.tr(b.e).t)
		}
		for i, b := range con.begins {
			st.set(x.v.ghostOf(b), vals[i])
		}
	}
	outs := x.execFn(st, fn, args, binds, 0)
	n := 0
	for _, o := range outs {
		x.obls = append(x.obls, &Obl{Name: shortFn(fn.String()) + "/some outcome possible", Fn: fn.String(), Kind: "cover", Pos: outName(o) + con.pos, Facts: o.st.list(), Goal: False, Cover: true, Vac: true})
		if o.pan {
			x.checkPanic(con, env, fn, o)
			continue
		}
		n++
		renv := con.bindResults(env.at(o.st), fn.Signature, o.res)
		// ghost assignments of the contract
		for _, ef := range con.effects {
			mi := v.ghostOf(ef)
			o.st.set(mi, Fresh(mi.Key+"@effect", mi.Sort))
		}
		for _, ef := range con.effects {
			o.st.assume(Eq(o.st.get(v.ghostOf(ef)), renv.tr(ef.e).t))
		}
		x.checkNormal(con, renv, fn, o)
	}
	if n == 0 && con.PanWhen == nil && !con.MayPanic {
		x.obligeC(st, False, "no-normal-return", x.posStr(fn.Pos()), "", nil)
	}
	return res
}

func (x *Exec) checkNormal(con *Contract, env *SEnv, fn *ssa.Function, o Outcome) {
	st := o.st.clone()
	pos := x.posStr(fn.Pos())
	if con.PanWhen != nil {
		g := Not(env.at(x.entry).Bool(con.PanWhen.e))
		x.obligeC(st, g, "panics-when", pos, con.PanWhen.label, nil, con.PanWhen.props...)
		st.assume(g)
	}
	for _, c := range con.Ens {
		g := env.Bool(c.e)
		for i, gg := range conjuncts(g) {
			l := c.label
			if i > 0 {
				l = fmt.Sprintf("%s.%d", l, i)
			}
			x.obligeC(st, gg, "post", pos, l, nil, c.props...)
		}
	}
	x.checkFrame(con, env, fn, st, pos)
}

func conjuncts(t *Term) []*Term {
	if t.op == "and" {
		return t.args
	}
	return []*Term{t}
}

func (x *Exec) checkPanic(con *Contract, env *SEnv, fn *ssa.Function, o Outcome) {
	st := o.st.clone()
	pos := x.posStr(fn.Pos())
	e := env.at(st)
	switch {
	case con.PanWhen != nil:
		x.obligeC(st, env.at(x.entry).Bool(con.PanWhen.e), "panics-when", pos, con.PanWhen.label, nil, con.PanWhen.props...)
	case con.PanOnly != nil:
		x.obligeC(st, env.at(x.entry).Bool(con.PanOnly.e), "panics-only", pos, con.PanOnly.label, nil, con.PanOnly.props...)
	case con.MayPanic:
	default:
		x.obligeC(st, False, "no-panic", pos, "", nil)
	}
	for _, c := range con.EnsPanic {
		for i, gg := range conjuncts(e.Bool(c.e)) {
			l := c.label
			if i > 0 {
				l = fmt.Sprintf("%s.%d", l, i)
			}
			x.obligeC(st, gg, "post-panic", pos, l, nil, c.props...)
		}
	}
	x.checkFrame(con, e, fn, st, pos)
}

func (x *Exec) checkFrame(con *Contract, env *SEnv, fn *ssa.Function, st *State, pos string) {
	if con.NoFrame || con.Driver {
		return
	}
	m := con.mods(env.at(x.entry))
	if m.all {
		// ghosts are only modified when they are listed
		for _, k := range sortedKeys(st.mem) {
			mi := memInfos[k]
			if !strings.HasPrefix(k, "G:ghost.") || m.full[k] || m.global[k] {
				continue
			}
			if v, v0 := st.mem[k], x.entry.get(mi); v != v0 {
				x.obligeC(st, Eq(v, v0), "frame", pos, k, nil)
			}
		}
		return
	}
	switch epochDelta(x.entry.epoch, st.epoch, 0) {
	case 1:
		if !con.New {
			x.obligeC(st, False, "frame", pos, "objects created by callees escape: the contract needs `new`", nil)
		}
	case 2:
		x.obligeC(st, False, "frame", pos, "everything may be modified", nil)
		return
	}
	a0 := x.entry.get(allocInfo)
	if g := noneMade(x.kept, a0, st.get(allocInfo)); g != True {
		x.obligeC(st, g, "keeps", pos, "none made", nil)
	}
	for _, k := range sortedKeys(x.kept) {
		if !m.full[k] && st.get(memInfos[k]) != x.entry.get(memInfos[k]) {
			if len(m.refs[k]) > 0 {
				panic(abort{"keeps and modifies overlap"})
			}
			x.obligeC(st, Eq(st.get(memInfos[k]), x.entry.get(memInfos[k])), "keeps", pos, k, nil)
		}
	}
	for _, k := range sortedKeys(st.mem) {
		if k == "alloc" {
			continue
		}
		mi := memInfos[k]
		v := st.mem[k]
		if mi.Kind == "L" || mi.Kind == "I" || m.full[k] {
			continue
		}
		v0 := x.entry.get(mi)
		if v == v0 {
			continue
		}
		if !refKeyed(mi) {
			if !m.global[k] {
				x.obligeC(st, Eq(v, v0), "frame", pos, k, nil)
			}
			continue
		}
		r := Fresh("anyref", SRef)
		alts := []*Term{Eq(raw("select", mi.Sort.V, v, r), raw("select", mi.Sort.V, v0, r)), Eq(r, NilRef)}
		for _, q := range m.refs[k] {
			alts = append(alts, Eq(r, q))
		}
		if con.New {
			alts = append(alts, Le(a0, Rid(r)))
		} else {
			// temporaries that are not reachable from results are allowed
			if !x.resultsMayReach(fn, con) {
				alts = append(alts, Le(a0, Rid(r)))
			}
		}
		x.obligeC(st, Or(alts...), "frame", pos, k, nil)
	}
}

// resultsMayReach: could objects created by fn be visible to its caller?
func (x *Exec) resultsMayReach(fn *ssa.Function, con *Contract) bool {
	if len(con.Mods) > 0 {
		return true
	}
	rs := fn.Signature.Results()
	for i := 0; i < rs.Len(); i++ {
		switch sortOf(rs.At(i).Type()) {
		case SBool, SInt, SStr, SF64:
		default:
			if rs.At(i).Type().String() != "error" {
				return true
			}
		}
	}
	return false
}

// ---- lemmas ----

func (v *Verifier) lemmaFact(l *Lemma) *Term {
	e := &SEnv{v: v, pkg: l.pkg, vars: map[string]SVal{}, pos: l.pos, st: &State{mem: map[string]*Term{}, epoch: newEpoch(IntLit(0))}}
	var bs []*Term
	for _, q := range l.vars {
		t, s := e.resolveType(q.typ)
		b := BoundVar(q.name, s)
		bs = append(bs, b)
		e.vars[q.name] = SVal{t: b, typ: t}
	}
	var rq, en []*Term
	for _, c := range l.req {
		rq = append(rq, e.Bool(c.e))
	}
	for _, c := range l.ens {
		en = append(en, e.Bool(c.e))
	}
	body := Implies(And(rq...), And(en...))
	var tr [][]*Term
	if len(l.trig) > 0 {
		var t []*Term
		for _, s := range l.trig {
			t = append(t, e.tr(s).t)
		}
		tr = [][]*Term{t}
	} else {
		tr = autoTriggers(body, bs)
	}
	return Quant("forall", bs, tr, body)
}

func (v *Verifier) lemmaObls(l *Lemma) []*Obl {
	e := &SEnv{v: v, pkg: l.pkg, vars: map[string]SVal{}, pos: l.pos, st: &State{mem: map[string]*Term{}, epoch: newEpoch(IntLit(0))}}
	var facts []*Term
	for _, q := range l.vars {
		t, s := e.resolveType(q.typ)
		c := Fresh("lem."+q.name, s)
		if t != nil {
			facts = append(facts, typeFacts(t, c, Const("alloc!0", SInt)))
		}
		e.vars[q.name] = SVal{t: c, typ: t}
	}
	inst := func(e *SEnv) (rq, en []*Term) {
		for _, c := range l.req {
			rq = append(rq, e.Bool(c.e))
		}
		for _, c := range l.ens {
			en = append(en, e.Bool(c.e))
		}
		return
	}
	rq, en := inst(e)
	facts = append(facts, rq...)
	if l.induct != "" {
		iv := e.vars[l.induct]
		// well-founded: the instance at iv-1 when iv > 0
		e2 := e.with(l.induct, SVal{t: Sub(iv.t, IntLit(1)), typ: iv.typ})
		r2, n2 := inst(e2)
		facts = append(facts, Implies(And(append([]*Term{Lt(IntLit(0), iv.t)}, r2...)...), And(n2...)))
	}
	var out []*Obl
	for i, g := range en {
		out = append(out, &Obl{Name: "lemma " + l.name + "/" + l.ens[i].label, Fn: "lemma " + l.name, Kind: "lemma", Pos: l.pos, Facts: facts, Goal: g})
	}
	return out
}

// ---- discharging ----

func (v *Verifier) discharge(obls []*Obl, cands []*Cand, fuel int, to time.Duration) {
	ids := map[*Term]*Cand{}
	for _, c := range cands {
		ids[c.ID] = c
	}
	deps := map[*Obl]map[*Cand]bool{}
	for _, o := range obls {
		if o.Goal == True || len(cands) == 0 {
			continue
		}
		d := map[*Cand]bool{}
		seen := map[*Term]bool{}
		var rec func(t *Term)
		rec = func(t *Term) {
			if seen[t] {
				return
			}
			seen[t] = true
			if c, ok := ids[t]; ok {
				d[c] = true
			}
			for _, a := range t.args {
				rec(a)
			}
		}
		for _, f := range o.Facts {
			rec(f)
		}
		deps[o] = d
	}
	prepare := func(o *Obl) *Query {
		m := map[*Term]*Term{}
		for c := range deps[o] {
			m[c.ID] = BoolLit(!c.Dead)
		}
		var fs []*Term
		memo := map[*Term]*Term{}
		for _, f := range o.Facts {
			g := f
			if len(m) > 0 {
				g = substMemo(f, m, memo)
			}
			if g != True {
				fs = append(fs, g)
			}
		}
		nm := o.Name
		if o.Cand != nil {
			nm += " " + o.Kind + " " + o.Cand.Text
		}
		return &Query{Name: nm, Facts: fs, Goal: o.Goal, Unfold: v.unfold, Fuel: fuel, Timeout: to}
	}
	solveAll := func(os []*Obl, full bool) {
		var wg sync.WaitGroup
		sem := make(chan struct{}, 8)
		for _, o := range os {
			o := o
			if o.Goal == True {
				o.V = Verdict{"unsat", "simplifier", ""}
				continue
			}
			wg.Add(1)
			sem <- struct{}{}
			go func() {
				defer wg.Done()
				defer func() { <-sem }()
				renderMu.Lock()
				q := prepare(o)
				renderMu.Unlock()
				if o.Cover {
					q.Timeout = 2 * time.Second
					if o.Vac {
						q.Timeout = 700 * time.Millisecond
					}
					o.V = q.Solve(false)
					return
				}
				if !full {
					q.Timeout = 3 * time.Second
				} else if o.Cand != nil {
					q.Timeout = to / 2
				}
				t0 := time.Now()
				o.V = q.Solve(full)
				if d := time.Since(t0); slowFlag && d > time.Second {
					fmt.Fprintf(stderr, "SLOW %.1fs %s %s %s\n", d.Seconds(), o.V.Result, o.Pos, q.Name)
				}
			}()
		}
		wg.Wait()
	}
	// Houdini over candidate invariants
	var cobls, rest []*Obl
	for _, o := range obls {
		if o.Cand != nil {
			cobls = append(cobls, o)
		} else {
			rest = append(rest, o)
		}
	}
	pending := map[*Obl]bool{}
	for _, o := range cobls {
		pending[o] = true
	}
	round := 0
	for len(pending) > 0 {
		round++
		// candidates that may well be wrong go first: what depends on them is then settled once
		var todo, later []*Obl
		for _, o := range cobls {
			if !pending[o] || o.Cand.Dead {
				delete(pending, o)
			} else if o.Cand.auto || strings.Contains(o.Cand.Text, "}") && strings.Contains(o.Cand.Text, "=") && strings.HasPrefix(o.Cand.Text, "[") {
				todo = append(todo, o)
			} else {
				later = append(later, o)
			}
		}
		if len(todo) == 0 {
			todo = later
		}
		for _, o := range todo {
			delete(pending, o)
		}
		solveAll(todo, false)
		died := map[*Cand]bool{}
		var again []*Obl
		for _, o := range todo {
			if o.V.Result != "unsat" && !o.Cand.Dead && !o.Cand.auto {
				again = append(again, o) // second chance for invariants written by hand
			}
		}
		if len(again) > 0 {
			solveAll(again, true)
		}
		for _, o := range todo {
			if o.V.Result != "unsat" && !o.Cand.Dead {
				o.Cand.Dead = true
				died[o.Cand] = true
				if v.verbose && !o.Cand.auto {
					fmt.Fprintf(os.Stderr, "  candidate dropped (%s %s): %s\n", o.Kind, o.Pos, o.Cand.Text)
				}
			}
		}
		if len(died) > 0 {
			for _, o := range cobls {
				if o.Cand.Dead {
					continue
				}
				for c := range died {
					if deps[o][c] {
						pending[o] = true
						break
					}
				}
			}
		}
	}
	var vac, real []*Obl
	for _, o := range rest {
		if o.Vac {
			vac = append(vac, o)
		} else {
			real = append(real, o)
		}
	}
	solveAll(real, true)
	// no contradiction among the assumptions: stop at the first outcome that is not refuted
	for i := 0; i < len(vac); i += 4 {
		b := vac[i:]
		if len(b) > 4 {
			b = b[:4]
		}
		solveAll(b, true)
		for _, o := range b {
			if o.V.Result != "unsat" && !*reachFlag {
				return
			}
		}
	}
}

var slowFlag, stderr = os.Getenv("GOCV_SLOW") != "", os.Stderr

// ---- driver ----

type OblOut struct {
	Name   string `json:"name"`
	Pos    string `json:"pos"`
	Status string `json:"status"`
	By     string `json:"by,omitempty"`
	Detail string `json:"detail,omitempty"`
	N      int    `json:"n"`
}

type Report struct {
	Property    string         `json:"property"`
	Functions   []string       `json:"functions"`
	Inlined     []string       `json:"inlined"`
	Lemmas      []string       `json:"lemmas"`
	Trusted     []string       `json:"trusted"`
	Assumptions []string       `json:"assumptions"`
	Obligations int            `json:"obligations"`
	Discharged  int            `json:"discharged"`
	ByBackend   map[string]int `json:"by_backend"`
	Failed      []OblOut       `json:"failed"`
	All         []OblOut       `json:"all"`
	InvUsed     int            `json:"invariants_proved"`
	SolverSecs  float64        `json:"solver_secs"`
	SolverCalls int64          `json:"solver_calls"`
	Wall        float64        `json:"wall"`
}

func main() {
	repo := flag.String("repo", "/repo", "")
	dir := flag.String("contracts", "/verif/contracts", "")
	prop := flag.String("prop", "", "property")
	only := flag.String("func", "", "only contracts whose key contains this")
	out := flag.String("out", "", "report file")
	verbose := flag.Bool("v", false, "")
	listAll := flag.Bool("all", false, "verify all contracts")
	dump := flag.String("ssa", "", "print ssa of function")
	specs := flag.String("specs", "", "comma separated names of the contract files to load (default all)")
	reachFlag = flag.Bool("reach", false, "report calls no path gets past")
	to := flag.Duration("timeout", 8*time.Second, "")
	flag.Parse()
	t0 := time.Now()
	v := load(*repo, filepath.Join(*dir, "drivers"))
	v.verbose = *verbose
	v.prop = *prop
	v.timeout = *to
	if *dump != "" {
		var names []string
		for n := range v.fns {
			if strings.Contains(n, *dump) {
				names = append(names, n)
			}
		}
		sort.Strings(names)
		for _, n := range names {
			fmt.Println("=====", n)
			v.fns[n].WriteTo(os.Stdout)
		}
		return
	}
	tl := time.Since(t0)
	func() {
		defer func() {
			if r := recover(); r != nil {
				if e, ok := r.(specError); ok {
					fatal("%s", string(e))
				}
				panic(r)
			}
		}()
		v.loadContracts(*dir, *specs)
		for _, l := range v.lemmas {
			v.lemmaBy[l.name] = l
		}
		v.attachAxioms()
	}()
	if v.verbose {
		fmt.Fprintf(os.Stderr, "loaded in %.1fs\n", tl.Seconds())
	}
	rep := &Report{Property: *prop, ByBackend: map[string]int{}, Failed: []OblOut{}}
	var queue []*Contract
	queued := map[*Contract]bool{}
	push := func(c *Contract) {
		if !queued[c] && !c.NoBody {
			queued[c] = true
			queue = append(queue, c)
		}
	}
	for _, k := range sortedKeys(v.contracts) {
		c := v.contracts[k]
		if *only != "" {
			if strings.Contains(k, *only) {
				push(c)
			}
			continue
		}
		if *listAll {
			push(c)
			continue
		}
		for _, p := range c.Props {
			if p == *prop {
				push(c)
			}
		}
	}
	trusted := map[string]bool{}
	assume := map[string]bool{}
	inl := map[string]bool{}
	lemmas := map[string]bool{}
	agg := map[string]*OblOut{}
	var order []string
	record := func(o *Obl, status string) {
		key := o.Name + "|" + status
		a := agg[key]
		if a == nil {
			a = &OblOut{Name: o.Name, Pos: o.Pos, Status: status, By: o.V.By, Detail: o.V.Detail}
			agg[key] = a
			order = append(order, key)
		}
		a.N++
	}
	fail := func(name, pos, detail string) {
		rep.Obligations++
		rep.Failed = append(rep.Failed, OblOut{Name: name, Pos: pos, Status: "failed", Detail: detail, N: 1})
	}
	var lq []string
	for i := 0; i < len(queue); i++ {
		c := queue[i]
		r := v.verify(c)
		if r.Err == "" {
			to := v.timeout
			if c.Timeout > 0 {
				to = time.Duration(c.Timeout) * time.Second
			}
			v.discharge(r.Obls, r.X.cands, c.Fuel, to)
		}
		rep.Functions = append(rep.Functions, c.Key)
		if r.Err != "" {
			fail(shortFn(c.Key)+"/verifier", c.pos, r.Err)
		}
		nf, nd := 0, 0
		reached := map[string]bool{}
		seen, possible := false, false
		if r.Err == "" {
			for _, o := range r.Obls {
				if o.Cand != nil {
					if !o.Cand.Dead {
						rep.InvUsed++
					}
					continue
				}
				if o.Reach && *verbose {
					fmt.Println("REACH", o.Name, o.V.Result, o.V.By)
				}
				if o.Reach {
					reached[o.Name] = reached[o.Name] || o.V.Result != "unsat"
					continue
				}
				if o.Vac {
					if *reachFlag {
						n := "reach " + o.Name + o.Pos
						reached[n] = reached[n] || o.V.Result != "unsat"
					}
					seen = true
					possible = possible || o.V.Result != "unsat"
					continue
				}
				if o.Cover {
					if o.V.Result == "unsat" {
						fail(o.Name, o.Pos, "the precondition is unsatisfiable: the contract is vacuous")
					}
					continue
				}
				if len(o.Props) > 0 && *prop != "" && !contains(o.Props, *prop) {
					continue
				}
				rep.Obligations++
				if o.V.Result == "unsat" {
					rep.Discharged++
					nd++
					rep.ByBackend[o.V.By]++
					record(o, "discharged")
				} else {
					nf++
					record(o, "failed")
				}
			}
		}
		for n, ok := range reached {
			if !ok {
				fmt.Println("UNREACHED", n)
			}
		}
		if seen && !possible {
			fail(shortFn(c.Key)+"/some outcome possible", c.pos, "every outcome contradicts the assumptions: the contract is vacuous")
		}
		for cc := range r.X.usedContracts {
			if cc.NoBody {
				trusted[cc.Key+why(cc)] = true
			} else {
				push(cc)
			}
		}
		for a := range r.X.assumptions {
			assume[a] = true
		}
		for a := range r.X.inlined {
			inl[a] = true
		}
		for _, l := range r.Lemmas {
			if !lemmas[l] {
				lemmas[l] = true
				lq = append(lq, l)
			}
		}
		if v.verbose {
			fmt.Fprintf(os.Stderr, "%-60s discharged %d failed %d  %.1fs %s\n", shortFn(c.Key), nd, nf, r.Secs, r.Err)
		}
	}
	for _, l := range lq {
		lm := v.lemmaBy[l]
		os := v.lemmaObls(lm)
		v.discharge(os, nil, 3, v.timeout)
		for _, o := range os {
			rep.Obligations++
			if o.V.Result == "unsat" {
				rep.Discharged++
				rep.ByBackend[o.V.By]++
				record(o, "discharged")
			} else {
				record(o, "failed")
			}
		}
		rep.Lemmas = append(rep.Lemmas, l)
	}
	for _, k := range order {
		a := agg[k]
		if a.Status == "failed" {
			rep.Failed = append(rep.Failed, *a)
		}
		rep.All = append(rep.All, *a)
	}
	if len(queue) == 0 {
		fail("no-contract", "-", "no function under contract for "+*prop)
	}
	rep.Trusted = keysOf(trusted)
	rep.Assumptions = keysOf(assume)
	rep.Inlined = keysOf(inl)
	rep.SolverSecs = float64(solverTimeNs) / 1e9
	rep.SolverCalls = solverCalls
	rep.Wall = time.Since(t0).Seconds()
	if *out != "" {
		b, _ := json.MarshalIndent(rep, "", " ")
		os.WriteFile(*out, b, 0644)
	}
	for _, f := range rep.Failed {
		fmt.Printf("FAILED %s (%s) x%d\n    %s\n", f.Name, f.Pos, f.N, f.Detail)
	}
	fmt.Printf("%s: %d functions under contract, %d/%d obligations discharged, %d failed, solver %.1fs, wall %.1fs\n", *prop, len(rep.Functions), rep.Discharged, rep.Obligations, len(rep.Failed), rep.SolverSecs, rep.Wall)
	if len(rep.Failed) > 0 {
		os.Exit(1)
	}
}

func why(c *Contract) string {
	if c.Why != "" {
		return " (" + c.Why + ")"
	}
	return ""
}

func contains(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

func keysOf(m map[string]bool) []string {
	out := []string{}
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// attachAxioms ties trusted axioms to the symbols they constrain
func (v *Verifier) attachAxioms() {
	for _, a := range v.axioms {
		e := &SEnv{v: v, pkg: v.typesPkg(a.label), vars: map[string]SVal{}, pos: a.pos, st: &State{mem: map[string]*Term{}, epoch: newEpoch(IntLit(0))}}
		c := mkClause(a.text, a.pos)
		t := e.Bool(c.e)
		n := 0
		seen := map[*Term]bool{}
		ops := map[string]bool{}
		var rec func(t *Term)
		rec = func(t *Term) {
			if seen[t] {
				return
			}
			seen[t] = true
			if strings.HasPrefix(t.op, "u:") && !ops[t.op] || strings.HasPrefix(t.op, "rf:") && !ops[t.op] {
				ops[t.op] = true
				opAxioms[t.op] = append(opAxioms[t.op], t0(t, nil))
			}
			for _, x := range t.args {
				rec(x)
			}
		}
		rec(t)
		for op := range ops {
			l := opAxioms[op]
			l[len(l)-1] = t
			n++
		}
		if n == 0 {
			seen = map[*Term]bool{}
			var rc func(x *Term)
			rc = func(x *Term) {
				if seen[x] {
					return
				}
				seen[x] = true
				if isConst(x) {
					addConstAxiom(x, t)
					n++
				}
				for _, y := range x.args {
					rc(y)
				}
			}
			rc(t)
		}
		if n == 0 {
			panic(specErr(a.pos, "axiom mentions no symbol it could be attached to"))
		}
	}
}

func t0(t, _ *Term) *Term { return t }

func (v *Verifier) ghostOf(c Clause) *MemInfo {
	g := v.ghosts[c.label]
	if g == nil {
		panic(specErr(c.pos, "no ghost %s", c.label))
	}
	return g
}

func outName(o Outcome) string {
	if o.pan {
		return "panic "
	}
	return "return "
}
