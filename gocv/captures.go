package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// makers returns the instruction of the enclosing function that makes closure fn (nil when there is not exactly one)
func maker(fn *ssa.Function) *ssa.MakeClosure {
	p := fn.Parent()
	if p == nil {
		return nil
	}
	var mc *ssa.MakeClosure
	for _, b := range p.Blocks {
		for _, in := range b.Instrs {
			if m, ok := in.(*ssa.MakeClosure); ok && m.Fn == fn {
				if mc != nil {
					return nil
				}
				mc = m
			}
		}
	}
	return mc
}

// reaches tells whether control can come from instruction a to instruction b (in one function)
func reaches(a, b ssa.Instruction) bool {
	if a.Block() == b.Block() {
		for _, in := range a.Block().Instrs {
			if in == a {
				return true
			}
			if in == b {
				break
			}
		}
	}
	seen := map[*ssa.BasicBlock]bool{}
	work := append([]*ssa.BasicBlock{}, a.Block().Succs...)
	for len(work) > 0 {
		c := work[len(work)-1]
		work = work[:len(work)-1]
		if seen[c] {
			continue
		}
		seen[c] = true
		if c == b.Block() {
			return true
		}
		work = append(work, c.Succs...)
	}
	return false
}

// readOnly tells whether nothing stores through v (an address): it is only loaded from and captured by closures that do the same.
// Stores of the function mc is in are allowed when they cannot follow it.
func readOnly(v ssa.Value, mc *ssa.MakeClosure, depth int) bool {
	if depth > 8 || v.Referrers() == nil {
		return false
	}
	for _, r := range *v.Referrers() {
		switch r := r.(type) {
		case *ssa.DebugRef:
		case *ssa.UnOp:
		case *ssa.Store:
			if r.Val == v || mc == nil || reaches(mc, r) {
				return false
			}
		case *ssa.FieldAddr:
			if !readOnly(r, mc, depth+1) {
				return false
			}
		case *ssa.MakeClosure:
			f := r.Fn.(*ssa.Function)
			for i, b := range r.Bindings {
				if b == v && !readOnly(f.FreeVars[i], nil, depth+1) {
					return false
				}
			}
		default:
			return false
		}
	}
	return true
}

// captures sets up the captured variables of a closure under verification: those nothing stores to
// any more keep one value throughout, and those holding a closure of the same function are known to hold it
func (x *Exec) captures(st *State, fn *ssa.Function, con *Contract, binds []*Term) {
	if len(fn.FreeVars) == 0 {
		return
	}
	x.v.build(fn)
	mc := maker(fn)
	if mc == nil {
		return
	}
	if len(con.Captured) > 0 {
		x.v.needParent(con, fn, x)
	}
	x.fixed = map[*Term]*Term{}
	for i, b := range mc.Bindings {
		a, ok := b.(*ssa.Alloc)
		if !ok || !readOnly(a, mc, 0) {
			continue
		}
		t := deref(a.Type())
		if _, ok := t.Underlying().(*types.Struct); ok {
			continue
		}
		val := x.load(st, binds[i], t)
		x.fixed[binds[i]] = val
		var store *ssa.Store
		n := 0
		for _, r := range *a.Referrers() {
			if s, ok := r.(*ssa.Store); ok {
				store = s
				n++
			}
		}
		if n != 1 {
			continue
		}
		c, ok := store.Val.(*ssa.MakeClosure)
		if !ok {
			continue
		}
		o := val
		st.assume(Not(Eq(o, NilRef)))
		cl := &Closure{fn: c.Fn.(*ssa.Function)}
		for j, cb := range c.Bindings {
			var t *Term
			for k, mb := range mc.Bindings {
				if mb == cb {
					t = binds[k]
				}
			}
			if t == nil {
				t = x.freshVal(st, "fv."+cl.fn.FreeVars[j].Name(), cb.Type())
				st.assume(Not(Eq(t, NilRef)))
			}
			cl.bindings = append(cl.bindings, t)
		}
		x.clos[o] = cl
	}
}

// needParent: what a contract says of captured variables is proved where the closure is made
func (v *Verifier) needParent(con *Contract, fn *ssa.Function, x *Exec) {
	p := fn.Parent()
	pc := v.contracts[p.String()]
	if pc == nil || pc.NoBody {
		x.assumptions["what "+shortFn(con.Key)+" captures is as its contract says ("+p.String()+" is not under contract)"] = true
		return
	}
	x.usedContracts[pc] = true
	mc := maker(fn)
	for i, b := range mc.Bindings {
		if !mentions(con.Captured, fn.FreeVars[i].Name()) {
			continue
		}
		a, ok := b.(*ssa.Alloc)
		if !ok || !readOnly(a, mc, 0) {
			panic(abort{"captured variable " + fn.FreeVars[i].Name() + " of " + con.Key + " may change after the closure is made"})
		}
	}
}

func (x *Exec) checkCaptured(st *State, in *ssa.MakeClosure, cl *Closure) {
	con := x.v.contracts[cl.fn.String()]
	if con == nil || len(con.Captured) == 0 {
		return
	}
	env := &SEnv{v: x.v, x: x, pkg: con.pkg, vars: map[string]SVal{}, pos: con.pos}
	for i, fv := range cl.fn.FreeVars {
		env.vars[fv.Name()] = SVal{t: cl.bindings[i], typ: fv.Type()}
	}
	env.st = st
	env.old = st
	for _, c := range con.Captured {
		x.obligeC(st, env.Bool(c.e), "captured", x.posStr(in.Pos()), shortFn(con.Key)+"."+c.label, nil, c.props...)
	}
}

func mentions(cs []Clause, name string) bool {
	for _, c := range cs {
		if hasWord(c.text, name) {
			return true
		}
	}
	return false
}

func hasWord(s, w string) bool {
	id := func(b byte) bool {
		return b == '_' || b >= '0' && b <= '9' || b >= 'a' && b <= 'z' || b >= 'A' && b <= 'Z'
	}
	for i := 0; i+len(w) <= len(s); i++ {
		if s[i:i+len(w)] == w && (i == 0 || !id(s[i-1])) && (i+len(w) == len(s) || !id(s[i+len(w)])) {
			return true
		}
	}
	return false
}
