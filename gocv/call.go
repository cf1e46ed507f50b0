package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (x *Exec) call(c cfg, in ssa.CallInstruction, cc *ssa.CallCommon) []Outcome {
	st, fr := c.st, c.fr
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		var args []*Term
		for _, a := range cc.Args {
			args = append(args, x.val(fr, st, a))
		}
		return x.builtin(st, b.Name(), args, cc, in)
	}
	var args []*Term
	for _, a := range cc.Args {
		t := x.val(fr, st, a)
		x.checkEscapeArg(t, a.Type(), in.Pos())
		args = append(args, t)
	}
	if cc.IsInvoke() {
		recv := x.val(fr, st, cc.Value)
		return x.invoke(st, recv, cc.Value.Type(), cc.Method, args, in.Pos(), fr.depth)
	}
	if fn, ok := cc.Value.(*ssa.Function); ok {
		return x.callFn(st, fn, args, nil, in.Pos(), fr.depth)
	}
	return x.callValue(st, x.val(fr, st, cc.Value), cc.Value.Type(), args, in.Pos(), fr.depth)
}

// pointers to locals/elements may be passed to inlined callees only; contracts check on use
func (x *Exec) checkEscapeArg(p *Term, t types.Type, pos token.Pos) {}

func (x *Exec) callDeferred(c cfg, d deferred) []Outcome {
	st, fr := c.st, c.fr
	cc := d.call.Common()
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		return x.builtin(st, b.Name(), d.args, cc, d.call)
	}
	if cc.IsInvoke() {
		return x.invoke(st, d.fnv, cc.Value.Type(), cc.Method, d.args, d.call.Pos(), fr.depth)
	}
	if fn, ok := cc.Value.(*ssa.Function); ok {
		return x.callFn(st, fn, d.args, nil, d.call.Pos(), fr.depth)
	}
	return x.callValue(st, d.fnv, cc.Value.Type(), d.args, d.call.Pos(), fr.depth)
}

// fork runs f on both values of cond
func (x *Exec) fork(st *State, cond *Term, a, b func(*State) []Outcome) []Outcome {
	if v, ok := st.known(cond); ok {
		if v {
			return a(st)
		}
		return b(st)
	}
	s2 := st.clone()
	st.branch(cond)
	s2.branch(Not(cond))
	return append(a(st), b(s2)...)
}

func (x *Exec) callValue(st *State, f *Term, ft types.Type, args []*Term, pos token.Pos, depth int) []Outcome {
	f = x.resolve(st, f)
	if fn, ok := x.globFn[f]; ok {
		return x.callFn(st, fn, args, nil, pos, depth)
	}
	if cl, ok := x.clos[f]; ok {
		return x.callFn(st, cl.fn, args, cl.bindings, pos, depth)
	}
	if strings.HasPrefix(f.op, "fn:") {
		if fn := x.v.fnByName(f.op[3:]); fn != nil {
			return x.callFn(st, fn, args, nil, pos, depth)
		}
	}
	if f == NilRef {
		x.oblige(st, False, "nil-deref", pos, "call of nil function")
		return nil
	}
	if f.op == "ite" {
		return x.fork(st, f.args[0], func(s *State) []Outcome { return x.callValue(s, f.args[1], ft, args, pos, depth) },
			func(s *State) []Outcome { return x.callValue(s, f.args[2], ft, args, pos, depth) })
	}
	sig := ft.Underlying().(*types.Signature)
	con := x.v.contracts["funcval "+typeKey(ft)]
	if con == nil {
		con = x.v.contracts["funcval "+sigKey(sig)]
	}
	if con == nil {
		x.fail(pos, "call of unknown function value of type %s", ft)
	}
	x.nonNil(st, f, pos, "call of function value")
	if con.Calls != "" {
		return x.callsOnce(st, con, sig, f, args, pos, depth)
	}
	return x.modular(st, con, sig, types.NewSignatureType(nil, nil, nil, nil, nil, false), append([]*Term{f}, args...), pos)
}

// callsOnce is a call of a function value that either does not call the function it is given
// (its contract then holds) or calls it once, with arguments of its own, and returns what it returned
func (x *Exec) callsOnce(st *State, con *Contract, sig *types.Signature, f *Term, args []*Term, pos token.Pos, depth int) []Outcome {
	i := -1
	for k, p := range con.Params {
		if p == con.Calls {
			i = k - 1
		}
	}
	if i < 0 {
		x.fail(pos, "%s: no parameter %s to call", con.Key, con.Calls)
	}
	x.assumptions[con.Key+" calls the function it is given at most once, and returns what that returned"] = true
	ft := sig.Params().At(i).Type()
	return x.fork(st, Fresh("called", SBool), func(s *State) []Outcome {
		fs := ft.Underlying().(*types.Signature)
		var as []*Term
		for k := 0; k < fs.Params().Len(); k++ {
			t := fs.Params().At(k).Type()
			a := x.freshVal(s, "arg", t)
			if _, ok := t.Underlying().(*types.Pointer); ok {
				s.assume(Not(Eq(a, NilRef)))
			}
			as = append(as, a)
		}
		x.usedContracts[con] = true
		return x.callValue(s, args[i], ft, as, pos, depth)
	}, func(s *State) []Outcome {
		return x.modular(s, con, sig, types.NewSignatureType(nil, nil, nil, nil, nil, false), append([]*Term{f}, args...), pos)
	})
}

// resolve uses equalities known on the path to identify a value
func (x *Exec) resolve(st *State, t *Term) *Term {
	if isObj(t) || len(t.args) == 0 && !strings.HasPrefix(t.op, "c:") {
		return t
	}
	for f := st.facts; f != nil; f = f.parent {
		if f.t.op == "=" {
			for k := 0; k < 2; k++ {
				if f.t.args[k] == t {
					o := f.t.args[1-k]
					if isObj(o) || strings.HasPrefix(o.op, "fn:") || strings.HasPrefix(o.op, "box:") || o == NilRef || o == NilAny {
						return o
					}
				}
			}
		}
	}
	if t.op == "ite" {
		if v, ok := st.known(t.args[0]); ok {
			if v {
				return x.resolve(st, t.args[1])
			}
			return x.resolve(st, t.args[2])
		}
	}
	return t
}

// concreteType: dynamic type of an interface value when determined
func (x *Exec) concreteType(st *State, a *Term) (types.Type, *Term) {
	a = x.resolve(st, a)
	if strings.HasPrefix(a.op, "box:") {
		if t := tagTypes[a.op[4:]]; t != nil {
			return t, a.args[0]
		}
	}
	tg := Tag(a)
	for f := st.facts; f != nil; f = f.parent {
		if f.t.op == "=" {
			for k := 0; k < 2; k++ {
				if f.t.args[k] == tg && f.t.args[1-k].isLit() {
					n := f.t.args[1-k].ival
					if n > 0 && int(n) <= len(tagNames) {
						nm := tagNames[n-1]
						if t := tagTypes[nm]; t != nil {
							v := Unbox(nm, sortOf(t), a)
							x.unboxFact(st, a, v, t, True)
							return t, v
						}
					}
				}
			}
		}
	}
	return nil, nil
}

func (x *Exec) invoke(st *State, recv *Term, it types.Type, m *types.Func, args []*Term, pos token.Pos, depth int) []Outcome {
	recv = x.resolve(st, recv)
	if recv.op == "ite" {
		return x.fork(st, recv.args[0], func(s *State) []Outcome { return x.invoke(s, recv.args[1], it, m, args, pos, depth) },
			func(s *State) []Outcome { return x.invoke(s, recv.args[2], it, m, args, pos, depth) })
	}
	if recv == NilAny {
		x.oblige(st, False, "nil-deref", pos, "method call on nil interface")
		return nil
	}
	if t, v := x.concreteType(st, recv); t != nil && !isIface(t) {
		fn := x.v.methodOf(t, m)
		if fn != nil {
			return x.callFn(st, fn, append([]*Term{v}, args...), nil, pos, depth)
		}
	}
	keys := []string{}
	if n, ok := types.Unalias(it).(*types.Named); ok && n.Obj().Pkg() != nil {
		keys = append(keys, fmt.Sprintf("(%s.%s).%s", n.Obj().Pkg().Path(), n.Obj().Name(), m.Name()))
	}
	keys = append(keys, m.FullName())
	for _, k := range keys {
		if con := x.v.contracts[k]; con != nil && con.Kind == "iface" {
			if g := Not(Eq(recv, NilAny)); g != True {
				x.oblige(st, g, "nil-deref", pos, m.Name())
			}
			sig := m.Type().(*types.Signature)
			return x.modular(st, con, sig, types.NewSignatureType(nil, nil, nil, nil, nil, false), append([]*Term{recv}, args...), pos, it)
		}
	}
	if isPureIface(m.FullName()) {
		if g := Not(Eq(recv, NilAny)); g != True {
			x.oblige(st, g, "nil-deref", pos, m.Name())
		}
		return x.pureCall(st, m.FullName(), m.Type().(*types.Signature), append([]*Term{recv}, args...), append([]types.Type{it}, paramTypes(m.Type().(*types.Signature))...), pos)
	}
	x.fail(pos, "call of interface method %s on an unknown dynamic type", m.FullName())
	return nil
}

func paramTypes(s *types.Signature) []types.Type {
	var ts []types.Type
	for i := 0; i < s.Params().Len(); i++ {
		ts = append(ts, s.Params().At(i).Type())
	}
	return ts
}

func (x *Exec) isOpaqueFn(name string) bool {
	if x.con == nil {
		return false
	}
	for _, o := range x.con.Opaque {
		if o == name || strings.HasSuffix(name, "."+o) {
			return true
		}
	}
	return false
}

func (x *Exec) callFn(st *State, fn *ssa.Function, args, bindings []*Term, pos token.Pos, depth int) []Outcome {
	name := fn.String()
	if in, ok := intrinsics[name]; ok {
		if con := x.v.contracts[name]; con == nil || con.Kind != "extern" {
			return in(x, st, fn, args, pos, depth)
		}
	}
	if con := x.v.contracts[name]; con != nil && !con.Inline {
		x.usedContracts[con] = true
		for i, fv := range fn.FreeVars {
			if i < len(bindings) {
				if x.calleeEnv == nil {
					x.calleeEnv = map[string]SVal{}
				}
				x.calleeEnv[fv.Name()] = SVal{t: bindings[i], typ: fv.Type()}
			}
		}
		return x.modular(st, con, fn.Signature, fn.Signature, args, pos)
	}
	x.v.build(fn)
	if len(fn.Blocks) > 0 && x.v.inlinable(fn) {
		x.inlined[name] = true
		return x.execFn(st, fn, args, bindings, depth+1)
	}
	if isPureFn(name) {
		ts := paramTypes(fn.Signature)
		if r := recvType(fn); r != nil {
			ts = append([]types.Type{r}, ts...)
		}
		return x.pureCall(st, pureNameOf(fn), fn.Signature, args, ts, pos)
	}
	x.fail(pos, "call of %s is not modelled", name)
	return nil
}

func pureNameOf(fn *ssa.Function) string {
	if o, ok := fn.Object().(*types.Func); ok {
		return o.FullName()
	}
	return fn.String()
}

// modular applies a contract at a call site
func (x *Exec) modular(st *State, con *Contract, sig, rsig *types.Signature, args []*Term, pos token.Pos, recvT ...types.Type) []Outcome {
	x.usedContracts[con] = true
	var recv types.Type
	if r := rsig.Recv(); r != nil {
		recv = r.Type()
	}
	if len(recvT) > 0 {
		recv = recvT[0]
	}
	if con.Kind == "funcval" {
		recv = types.NewPointer(types.Typ[types.Int]) // the function value itself
	}
	env := con.bind(x.v, x, sig, recv, args)
	for n, v := range x.calleeEnv {
		if _, ok := env.vars[n]; !ok {
			env.vars[n] = v
		}
	}
	x.calleeEnv = nil
	env.st = st
	old := st.clone()
	env.old = old
	for _, l := range con.lets {
		env = env.with(l.label, env.tr(l.e))
	}
	for _, r := range append(append([]Clause{}, con.Captured...), con.Req...) {
		g := env.Bool(r.e)
		x.obligeC(st, g, "pre", x.posStr(pos), shortFn(con.Key)+"."+r.label, nil, r.props...)
		st.assume(g)
	}
	for _, a := range args {
		if rooted(a) && !strings.HasPrefix(a.op, "glob:") && con.Kind != "extern" {
			x.fail(pos, "interior pointer passed to contract function %s", con.Key)
		}
	}
	// effects
	x.applyMods(st, con, env, old)
	var outs []Outcome
	var pst *State
	if con.PanWhen != nil || con.MayPanic {
		pst = st.clone()
	}
	var res []*Term
	for i := 0; i < sig.Results().Len(); i++ {
		n := "r"
		if i < len(con.Results) {
			n = con.Results[i]
		}
		res = append(res, x.freshVal(st, "res."+n, sig.Results().At(i).Type()))
	}
	penv := con.bindResults(env.at(st), sig, res)
	if con.PanWhen != nil {
		pc := env.at(old).Bool(con.PanWhen.e)
		st.branch(Not(pc))
		pst.branch(pc)
		if pc == False {
			pst = nil
		}
		if pc == True {
			st = nil
		}
	}
	if st != nil {
		for _, c := range con.Ens {
			g := penv.Bool(c.e)
			if g == False && con.PanWhen == nil {
				// the contract contradicts itself here, and would prove anything
				x.obls = append(x.obls, &Obl{Name: shortFn(x.top.String()) + "/contract of " + shortFn(con.Key) + " is possible", Fn: x.top.String(), Kind: "contract", Pos: x.posStr(pos), Goal: False})
			}
			st.assume(g)
		}
		x.reach(st, con, pos, "returns")
		outs = append(outs, Outcome{st: st, res: res})
	}
	if pst != nil {
		pst.panic = Fresh("panicval", SAny)
		pst.assume(Not(Eq(pst.panic, NilAny)))
		pe := env.at(pst)
		if con.PanOnly != nil {
			pst.assume(env.at(old).Bool(con.PanOnly.e))
		}
		for _, c := range con.EnsPanic {
			pst.assume(pe.Bool(c.e))
		}
		x.reach(pst, con, pos, "panics")
		outs = append(outs, Outcome{st: pst, pan: true})
	}
	return outs
}

var reachFlag *bool

// reach (a debugging aid): note the facts after a call, to find calls no path can get past
func (x *Exec) reach(st *State, con *Contract, pos token.Pos, how string) {
	if *reachFlag {
		x.obls = append(x.obls, &Obl{Name: "reach " + shortFn(x.top.String()) + " " + x.posStr(pos) + " " + shortFn(con.Key) + " " + how, Fn: x.top.String(), Kind: "cover", Facts: st.list(), Goal: False, Cover: true, Vac: true, Reach: true})
	}
}

type modSet struct {
	all    bool
	full   map[string]bool    // whole memory keys
	refs   map[string][]*Term // key -> refs whose entry may change
	global map[string]bool
}

// mods resolves a modifies list in a given environment
func (c *Contract) mods(env *SEnv) *modSet {
	m := &modSet{full: map[string]bool{}, refs: map[string][]*Term{}, global: map[string]bool{}}
	for _, s := range c.Mods {
		e := *env
		e.pos = c.pos
		e.modItem(m, s)
	}
	return m
}

func (c *Contract) kept(env *SEnv) map[string]bool {
	if len(c.Keeps) == 0 {
		return nil
	}
	m := &modSet{full: map[string]bool{}, refs: map[string][]*Term{}, global: map[string]bool{}}
	for _, s := range c.Keeps {
		e := *env
		e.pos = c.pos
		e.modItem(m, "all "+s)
	}
	return m.full
}

func (e *SEnv) modItem(m *modSet, s string) {
	add := func(mi *MemInfo, r *Term) { m.refs[mi.Key] = append(m.refs[mi.Key], r) }
	switch {
	case s == "everything":
		m.all = true
	case s == "nothing":
	case strings.HasPrefix(s, "all "):
		for _, mi := range e.memKeys(s[4:]) {
			m.full[mi.Key] = true
		}
	case strings.HasPrefix(s, "elems(") && strings.HasSuffix(s, ")"):
		v := e.tr(parseSpec(s[6:len(s)-1], e.pos))
		add(elemKey(v.typ.Underlying().(*types.Slice).Elem()), SBase(v.t))
	case strings.HasPrefix(s, "entries(") && strings.HasSuffix(s, ")"):
		v := e.tr(parseSpec(s[8:len(s)-1], e.pos))
		for _, mi := range []*MemInfo{mapDomKey(v.typ), mapValKey(v.typ), mapLenKey(v.typ)} {
			add(mi, v.t)
		}
	case strings.HasPrefix(s, "once(") && strings.HasSuffix(s, ")"):
		v := e.tr(parseSpec(s[5:len(s)-1], e.pos))
		add(onceKey, v.loc.ptr)
	case strings.HasPrefix(s, "fields(") && strings.HasSuffix(s, ")"):
		v := e.tr(parseSpec(s[7:len(s)-1], e.pos))
		st := deref(v.typ)
		e.addLoc(m, v.t, st)
	case strings.HasPrefix(s, "deref(") && strings.HasSuffix(s, ")"):
		pe := parseSpec(s[6:len(s)-1], e.pos)
		v := e.tr(pe)
		if pe.op == "typ" && strings.HasPrefix(pe.s, "as ") {
			// the pointee of an interface value, when it holds a pointer of that type
			t, _ := e.resolveType(pe.s[3:])
			_, ok := asType(e.tr(pe.a[0]).t, t)
			v.t = Ite(ok, v.t, NilRef)
			if v.t == NilRef {
				return
			}
		}
		e.addLoc(m, v.t, deref(v.typ))
	default:
		if g, ok := e.v.ghosts[s]; ok {
			m.global[g.Key] = true
			return
		}
		v := e.tr(parseSpec(s, e.pos))
		if v.loc == nil {
			e.err("modifies %s: not a location", s)
		}
		e.addLoc(m, v.loc.ptr, v.loc.typ)
	}
}

func (e *SEnv) addLoc(m *modSet, p *Term, t types.Type) {
	add := func(mi *MemInfo, r *Term) { m.refs[mi.Key] = append(m.refs[mi.Key], r) }
	if p.op == "ite" {
		e.addLoc(m, p.args[1], t)
		e.addLoc(m, p.args[2], t)
		return
	}
	if strings.HasPrefix(p.op, "glob:") {
		e.x0().v.loadGlobal(e.st, p.op[5:])
		m.global["G:"+p.op[5:]] = true
		return
	}
	if strings.HasPrefix(p.op, "sub:") && rooted(p) {
		e.addLoc(m, p.args[0], subInfos[p.op].st)
		return
	}
	if strings.HasPrefix(p.op, "elem:") {
		add(elemKey(elemTypes[p.op]), p.args[0])
		return
	}
	if isDataStruct(t) {
		u := t.Underlying().(*types.Struct)
		for i := 0; i < u.NumFields(); i++ {
			e.addLoc(m, subPtr(p, t, i), u.Field(i).Type())
		}
		return
	}
	if strings.HasPrefix(p.op, "sub:") {
		si := subInfos[p.op]
		add(fieldKey(si.st, si.idx), p.args[0])
		return
	}
	if a, ok := t.Underlying().(*types.Array); ok {
		add(elemKey(a.Elem()), p)
		return
	}
	add(cellKey(t), p)
}

func (x *Exec) applyMods(st *State, con *Contract, env *SEnv, old *State) {
	if con.Pure {
		return
	}
	m := con.mods(env.at(old))
	if m.all {
		na := Fresh("alloc", SInt)
		st.assume(Le(x.alloc(old), na))
		ep := newEpoch(na)
		ep.base = old.epoch
		ep.st = old.mem
		ep.keep = func(mi *MemInfo) bool { return strings.HasPrefix(mi.Key, "G:ghost.") && !m.global[mi.Key] }
		st.epoch = ep
		for k := range st.mem {
			mi := memInfos[k]
			if mi.Kind != "L" && mi.Kind != "I" && !ep.keep(mi) {
				delete(st.mem, k)
			}
		}
		st.set(allocInfo, na)
		return
	}
	if con.New {
		na := Fresh("alloc", SInt)
		a0 := x.alloc(old)
		st.assume(Le(a0, na))
		ep := newEpoch(na)
		ep.base = old.epoch
		ep.st = old.mem
		ep.frameAlloc = a0
		ep.kept = con.kept(env.at(old))
		st.epoch = ep
		for k := range st.mem {
			mi := memInfos[k]
			if ep.kept[k] {
				continue
			}
			switch mi.Kind {
			case "F", "C", "E", "MD", "MV", "ML":
				delete(st.mem, k)
			}
		}
		st.set(allocInfo, na)
		st.assume(noneMade(ep.kept, a0, na))
	}
	na := x.alloc(st)
	for _, k := range sortedKeys(m.full) {
		mi := memInfos[k]
		h := Fresh(k+"@call", mi.Sort)
		addConstAxiom(h, memAxioms(mi, h, na))
		st.set(mi, h)
	}
	for _, k := range sortedKeys(m.global) {
		mi := memInfos[k]
		h := Fresh(k+"@call", mi.Sort)
		addConstAxiom(h, memAxioms(mi, h, na))
		st.set(mi, h)
	}
	for _, k := range sortedKeys(m.refs) {
		mi := memInfos[k]
		if m.full[k] {
			continue
		}
		for _, r := range m.refs[k] {
			h := Fresh(k+"@callv", mi.Sort.V)
			x.rowAxioms(mi, h, na)
			st.set(mi, Store(st.get(mi), r, h))
		}
	}
}

// rowAxioms: type facts of one havocked entry of a memory array
func (x *Exec) rowAxioms(mi *MemInfo, h, alloc *Term) {
	switch mi.Kind {
	case "F", "C":
		addConstAxiom(h, typeFacts(mi.Typ, h, alloc))
	case "ML":
		addConstAxiom(h, Le(IntLit(0), h))
	case "E", "MV":
		i := BoundVar("i", h.sort.K)
		v := raw("select", h.sort.V, h, i)
		f := typeFacts(mi.Typ, v, alloc)
		if f != True {
			addConstAxiom(h, Forall([]*Term{i}, [][]*Term{{v}}, f))
		}
	}
}

// ---- builtins ----

func (x *Exec) one(st *State, res ...*Term) []Outcome { return []Outcome{{st: st, res: res}} }

func (x *Exec) builtin(st *State, name string, args []*Term, cc *ssa.CallCommon, in ssa.CallInstruction) []Outcome {
	pos := in.Pos()
	switch name {
	case "len", "cap":
		t := cc.Args[0].Type()
		switch args[0].sort {
		case SStr:
			return x.one(st, StrOp("str.len", SInt, args[0]))
		case SSlice:
			if name == "cap" {
				return x.one(st, SCap(args[0]))
			}
			return x.one(st, SLen(args[0]))
		case SRef:
			if _, ok := t.Underlying().(*types.Map); ok {
				// a map holds no more keys than its length says
				m := args[0]
				if m != NilRef {
					mk := mapDomKey(t)
					kb := BoundVar("k", mk.Sort.V.K)
					has := Select(Select(st.get(mk), m), kb)
					l := Select(st.get(mapLenKey(t)), m)
					st.assume(Forall([]*Term{kb}, [][]*Term{{has}}, Implies(has, Lt(IntLit(0), l))))
					st.assume(Le(IntLit(0), l))
				}
				return x.one(st, x.mapLen(st, m, t))
			}
			if p, ok := t.Underlying().(*types.Pointer); ok {
				return x.one(st, IntLit(p.Elem().Underlying().(*types.Array).Len()))
			}
		}
		if a, ok := t.Underlying().(*types.Array); ok {
			return x.one(st, IntLit(a.Len()))
		}
	case "append":
		if x.con != nil && x.con.Split && args[1].sort != SStr {
			// one path that grows in place, one that moves
			var out []Outcome
			if n := SLen(args[1]); !n.isLit() {
				none := Eq(n, IntLit(0))
				if _, ok := st.known(none); !ok {
					e := st.clone()
					e.branch(none)
					out = x.one(e, args[0])
					st.branch(Not(none))
					st.assume(Lt(IntLit(0), n))
				}
			}
			fits := Le(Add(SLen(args[0]), SLen(args[1])), SCap(args[0]))
			if _, ok := st.known(fits); !ok && SBase(args[0]) != NilRef && fits != True && fits != False {
				b := st.clone()
				st.branch(fits)
				b.branch(Not(fits))
				out = append(out, x.one(st, x.appendOp(st, args[0], args[1], cc.Args[0].Type(), pos))...)
				return append(out, x.one(b, x.appendOp(b, args[0], args[1], cc.Args[0].Type(), pos))...)
			}
			return append(out, x.one(st, x.appendOp(st, args[0], args[1], cc.Args[0].Type(), pos))...)
		}
		return x.one(st, x.appendOp(st, args[0], args[1], cc.Args[0].Type(), pos))
	case "copy":
		return x.one(st, x.copyOp(st, args[0], args[1], cc.Args[0].Type()))
	case "delete":
		x.mapDelete(st, args[0], args[1], cc.Args[0].Type())
		return x.one(st)
	case "recover":
		if st.panic != nil {
			v := st.panic
			st.panic = nil
			return x.one(st, v)
		}
		return x.one(st, NilAny)
	case "print", "println":
		return x.one(st)
	case "min", "max":
		r := args[0]
		for _, a := range args[1:] {
			if name == "min" {
				r = Ite(Lt(a, r), a, r)
			} else {
				r = Ite(Lt(r, a), a, r)
			}
		}
		return x.one(st, r)
	case "ssa:wrapnilchk":
		x.nonNil(st, args[0], pos, "receiver")
		return x.one(st, args[0])
	case "close":
		return x.one(st)
	}
	x.fail(pos, "builtin %s", name)
	return nil
}

func (x *Exec) appendOp(st *State, a, b *Term, at types.Type, pos token.Pos) *Term {
	et := at.Underlying().(*types.Slice).Elem()
	ek := elemKey(et)
	E := st.get(ek)
	var n, srow, soff *Term
	if b.sort == SStr {
		n = StrOp("str.len", SInt, b)
		srow, soff = bytesOf(b), IntLit(0)
	} else {
		n, srow, soff = SLen(b), Select(E, SBase(b)), SOff(b)
	}
	if n == IntLit(0) {
		return a
	}
	fits := Le(Add(SLen(a), n), SCap(a))
	if v, ok := st.known(fits); ok {
		fits = BoolLit(v)
	}
	if SBase(a) == NilRef {
		fits = False
	}
	old := Select(E, SBase(a))
	at0 := Add(SOff(a), SLen(a))
	var row *Term
	if n.isLit() && n.ival <= 16 {
		row = old
		for i := int64(0); i < n.ival; i++ {
			row = Store(row, Add(at0, IntLit(i)), Select(srow, Add(soff, IntLit(i))))
		}
		if isByteSlice(at) {
			// byte strings: abstract concatenation
			st.assume(Eq(strOf(row, SOff(a), Add(SLen(a), n)), StrOp("str.++", SStr, strOf(old, SOff(a), SLen(a)), strOf(srow, soff, n))))
		}
	} else {
		row = Fresh("appended", ek.Sort.V)
		x.rowAxioms(ek, row, x.alloc(st))
		j := BoundVar("j", SInt)
		sel := raw("select", row.sort.V, row, j)
		inNew := And(Le(at0, j), Lt(j, Add(at0, n)))
		st.assume(Forall([]*Term{j}, [][]*Term{{sel}}, And(
			Implies(Not(inNew), Eq(sel, Select(old, j))),
			Implies(inNew, Eq(sel, Select(srow, Add(soff, Sub(j, at0))))))))
		// source-side instantiation
		k := BoundVar("k", SInt)
		ssel := raw("select", row.sort.V, srow, k)
		if srow.op != "constarr" {
			st.assume(Forall([]*Term{k}, [][]*Term{{ssel}}, Implies(And(Le(soff, k), Lt(k, Add(soff, n))), Eq(Select(row, Add(at0, Sub(k, soff))), ssel))))
		}
		o := BoundVar("o", SInt)
		osel := raw("select", row.sort.V, old, o)
		if old.op == "select" || isConst(old) {
			st.assume(Forall([]*Term{o}, [][]*Term{{osel}}, Implies(Lt(o, at0), Eq(Select(row, o), osel))))
		}
		if isByteSlice(at) {
			st.assume(Eq(strOf(row, SOff(a), Add(SLen(a), n)), StrOp("str.++", SStr, strOf(old, SOff(a), SLen(a)), strOf(srow, soff, n))))
		}
	}
	var base, cp *Term
	if fits == True {
		base, cp = SBase(a), SCap(a)
	} else {
		o := x.newObj(st)
		nc := Fresh("cap", SInt)
		st.assume(Le(Add(SLen(a), n), nc))
		base, cp = Ite(fits, SBase(a), o), Ite(fits, SCap(a), nc)
	}
	st.set(ek, Store(E, base, row))
	return SliceMk(base, SOff(a), Add(SLen(a), n), cp)
}

func (x *Exec) copyOp(st *State, d, s *Term, dt types.Type) *Term {
	et := dt.Underlying().(*types.Slice).Elem()
	ek := elemKey(et)
	E := st.get(ek)
	var sl, srow, soff *Term
	if s.sort == SStr {
		sl, srow, soff = StrOp("str.len", SInt, s), bytesOf(s), IntLit(0)
	} else {
		sl, srow, soff = SLen(s), Select(E, SBase(s)), SOff(s)
	}
	n := Ite(Lt(SLen(d), sl), SLen(d), sl)
	old := Select(E, SBase(d))
	row := Fresh("copied", ek.Sort.V)
	x.rowAxioms(ek, row, x.alloc(st))
	j := BoundVar("j", SInt)
	sel := raw("select", row.sort.V, row, j)
	inNew := And(Le(SOff(d), j), Lt(j, Add(SOff(d), n)))
	st.assume(Forall([]*Term{j}, [][]*Term{{sel}}, And(
		Implies(Not(inNew), Eq(sel, Select(old, j))),
		Implies(inNew, Eq(sel, Select(srow, Add(soff, Sub(j, SOff(d)))))))))
	if isByteSlice(dt) {
		st.assume(Eq(strOf(row, SOff(d), n), strOf(srow, soff, n)))
	}
	st.set(ek, Ite(Eq(n, IntLit(0)), E, Store(E, SBase(d), row)))
	return n
}

// ---- pure external functions ----

// pureArg encodes an argument of an uninterpreted pure function by its content
func (x *Exec) pureArg(st *State, t *Term, typ types.Type) []*Term {
	switch u := typ.Underlying().(type) {
	case *types.Slice:
		row := Select(st.get(elemKey(u.Elem())), SBase(t))
		if isByteSlice(typ) {
			return []*Term{strOf(row, SOff(t), SLen(t))}
		}
		return []*Term{row, SOff(t), SLen(t)}
	case *types.Map:
		return []*Term{Select(st.get(mapDomKey(typ)), t), Select(st.get(mapValKey(typ)), t)}
	}
	return []*Term{t}
}

func (x *Exec) pureResult(st *State, name string, k int, rt types.Type, args []*Term) *Term {
	op := fmt.Sprintf("u:%s#%d", name, k)
	switch u := rt.Underlying().(type) {
	case *types.Slice:
		_ = u
		return SliceMk(raw(op+".base", SRef, args...), IntLit(0), raw(op+".len", SInt, args...), raw(op+".len", SInt, args...))
	}
	return raw(op, sortOf(rt), args...)
}

func (x *Exec) pureCall(st *State, name string, sig *types.Signature, args []*Term, ts []types.Type, pos token.Pos) []Outcome {
	if name == "(reflect.Value).Type" || name == "(reflect.Value).CanInterface" {
		valid := raw("u:(reflect.Value).IsValid#0", SBool, args[0])
		if c := x.con; c != nil && (c.MayPanic || c.PanWhen != nil) {
			return x.fork(st, valid, func(s *State) []Outcome { return x.pureCall1(s, name, sig, args, ts, pos) }, func(s *State) []Outcome {
				s.panic = Fresh("reflectpanic", SAny)
				s.assume(Not(Eq(s.panic, NilAny)))
				return []Outcome{{st: s, pan: true}}
			})
		}
		x.oblige(st, valid, "reflect-valid", pos, "reflect value is valid")
	}
	return x.pureCall1(st, name, sig, args, ts, pos)
}

func (x *Exec) pureCall1(st *State, name string, sig *types.Signature, args []*Term, ts []types.Type, pos token.Pos) []Outcome {
	x.assumptions["external function "+name+" is a deterministic function of its arguments without effects on modelled state"] = true
	var ats []*Term
	for i, a := range args {
		ats = append(ats, x.pureArg(st, a, ts[i])...)
	}
	var res []*Term
	for k := 0; k < sig.Results().Len(); k++ {
		rt := sig.Results().At(k).Type()
		r := x.pureResult(st, name, k, rt, ats)
		if sl, ok := rt.Underlying().(*types.Slice); ok {
			op := fmt.Sprintf("u:%s#%d", name, k)
			o := x.newObj(st)
			ek := elemKey(sl.Elem())
			row := raw(op+".row", ek.Sort.V, ats...)
			if isByteSlice(rt) {
				row = bytesOf(raw(op+".str", SStr, ats...))
				st.assume(Eq(SLen(r), raw("str.len", SInt, row.args[0])))
			}
			st.set(ek, Store(st.get(ek), o, row))
			ln := SLen(r)
			st.assume(Le(IntLit(0), ln))
			isnil := raw(op+".nil", SBool, ats...)
			_ = isnil
			r = SliceMk(o, IntLit(0), ln, ln)
		} else {
			f := typeFacts(rt, r, x.alloc(st))
			if _, isPtr := rt.Underlying().(*types.Pointer); !isPtr {
				st.assume(f)
			} else {
				st.assume(Lt(Rid(r), x.alloc(st)))
			}
		}
		res = append(res, r)
	}
	for _, f := range pureFacts(x, st, name, ats, res) {
		st.assume(f)
	}
	return x.one(st, res...)
}

func (x *Exec) axiomFacts(name string) {}
