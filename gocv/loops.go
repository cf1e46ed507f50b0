package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type loopCtx struct {
	x     *Exec
	loop  *Loop
	phis  []*ssa.Phi
	mod   []string
	entry cfg
	head  cfg
}

type loopCand struct {
	c    *Cand
	eval func(cfg) *Term
}

func (x *Exec) newCand(text string, auto bool) *Cand {
	c := &Cand{ID: Fresh("cand", SBool), Text: text, auto: auto}
	x.cands = append(x.cands, c)
	return c
}

func invariantTo(l *Loop, v ssa.Value) bool {
	in, ok := v.(ssa.Instruction)
	if !ok {
		return true
	}
	return !l.body[in.Block()]
}

func (x *Exec) loopCands(lc *loopCtx) []loopCand {
	var out []loopCand
	add := func(text string, auto bool, f func(cfg) *Term) {
		out = append(out, loopCand{x.newCand(text, auto), f})
	}
	noauto := x.con != nil && x.con.noauto
	// induction variables
	for _, ph := range lc.phis {
		ph := ph
		reg := func(c cfg) *Term { return c.fr.regs[ph] }
		nm := ph.Comment
		if nm == "" {
			nm = ph.Name()
		}
		switch sortOf(ph.Type()) {
		case SInt:
			e0 := lc.entry.fr.regs[ph]
			if e0 == nil {
				break
			}
			add("auto:"+nm+">=init", true, func(c cfg) *Term { return Le(e0, reg(c)) })
			add("auto:"+nm+"<=init", true, func(c cfg) *Term { return Le(reg(c), e0) })
			if !e0.isLit() || e0.ival > 0 {
				add("auto:"+nm+">=0", true, func(c cfg) *Term { return Le(IntLit(0), reg(c)) })
			}
			for _, b := range x.loopBounds(lc, ph) {
				b := b
				add("auto:"+nm+"<=bound", true, func(c cfg) *Term { return Le(reg(c), b) })
				add("auto:"+nm+"<bound", true, func(c cfg) *Term { return Lt(reg(c), b) })
				add("auto:"+nm+">=-1", true, func(c cfg) *Term { return Le(IntLit(-1), reg(c)) })
			}
		case SSlice:
			a0 := lc.entry.st.get(allocInfo)
			e0 := lc.entry.fr.regs[ph]
			fa := x.entry.get(allocInfo)
			add("auto:"+nm+" fresh or nil", true, func(c cfg) *Term {
				s := reg(c)
				return Or(Eq(SBase(s), NilRef), Le(a0, Rid(SBase(s))), Eq(SBase(s), SBase(e0)))
			})
			add("auto:"+nm+" fresh in function or nil", true, func(c cfg) *Term {
				s := reg(c)
				return Or(Eq(SBase(s), NilRef), Le(fa, Rid(SBase(s))))
			})
			add("auto:"+nm+" non-nil", true, func(c cfg) *Term { return Not(Eq(SBase(reg(c)), NilRef)) })
			add("auto:"+nm+" zero offset", true, func(c cfg) *Term { return Eq(SOff(reg(c)), IntLit(0)) })
			add("auto:"+nm+" same base", true, func(c cfg) *Term { return Eq(SBase(reg(c)), SBase(e0)) })
			add("auto:"+nm+" same off", true, func(c cfg) *Term { return Eq(SOff(reg(c)), SOff(e0)) })
			add("auto:"+nm+" same end", true, func(c cfg) *Term { return Eq(Add(SOff(reg(c)), SLen(reg(c))), Add(SOff(e0), SLen(e0))) })
		case SRef:
			add("auto:"+nm+" non-nil", true, func(c cfg) *Term { return Not(Eq(reg(c), NilRef)) })
		case SAny:
			add("auto:"+nm+" non-nil", true, func(c cfg) *Term { return Not(Eq(reg(c), NilAny)) })
		}
	}
	// string iterators
	for _, k := range lc.mod {
		if strings.HasPrefix(k, "L:") && strings.HasSuffix(k, ".pos") {
			mi := memInfos[k]
			add("auto:string position", true, func(c cfg) *Term { return Le(IntLit(0), c.st.get(mi)) })
		}
	}
	if !noauto {
		if len(x.kept) > 0 {
			for n, a0 := range []*Term{lc.entry.st.get(allocInfo), x.entry.get(allocInfo)} {
				a0 := a0
				add(fmt.Sprintf("auto:none made (%d)", n), true, func(c cfg) *Term { return noneMade(x.kept, a0, c.st.get(allocInfo)) })
			}
		}
		// frames of fully havocked memory
		for _, k := range lc.mod {
			mi := memInfos[k]
			if mi == nil || !refKeyed(mi) {
				continue
			}
			for n, a0 := range []*Term{lc.entry.st.get(allocInfo), x.entry.get(allocInfo)} {
				a0 := a0
				m0 := lc.entry.st.get(mi)
				if n == 1 && a0 == lc.entry.st.get(allocInfo) {
					continue
				}
				add(fmt.Sprintf("auto:frame %s (%d)", k, n), true, func(c cfg) *Term {
					r := BoundVar("r", SRef)
					v := raw("select", mi.Sort.V, c.st.get(mi), r)
					return Forall([]*Term{r}, [][]*Term{{v}}, Implies(Lt(raw("rid", SInt, r), a0), Eq(v, Select(m0, r))))
				})
				if x.con != nil && len(x.con.Mods) > 0 {
					refs := x.con.mods(x.baseEnv(x.entry)).refs[k]
					if len(refs) > 0 {
						add(fmt.Sprintf("auto:declared frame %s (%d)", k, n), true, func(c cfg) *Term {
							r := BoundVar("r", SRef)
							v := raw("select", mi.Sort.V, c.st.get(mi), r)
							hyp := []*Term{Lt(raw("rid", SInt, r), a0)}
							for _, q := range refs {
								hyp = append(hyp, Not(Eq(r, q)))
							}
							return Forall([]*Term{r}, [][]*Term{{v}}, Implies(And(hyp...), Eq(v, Select(m0, r))))
						})
					}
				}
			}
		}
	}
	if x.con != nil {
		for _, ic := range x.con.Inv {
			x.instInv(lc, ic, add)
		}
	}
	return out
}

// loopBounds: loop-invariant values compared with the induction variable (or its successor)
func (x *Exec) loopBounds(lc *loopCtx, ph *ssa.Phi) []*Term {
	var out []*Term
	seen := map[*Term]bool{}
	uses := func(v ssa.Value) bool {
		if v == ph {
			return true
		}
		if b, ok := v.(*ssa.BinOp); ok && (b.X == ph || b.Y == ph) {
			return true
		}
		return false
	}
	for b := range lc.loop.body {
		for _, in := range b.Instrs {
			bo, ok := in.(*ssa.BinOp)
			if !ok {
				continue
			}
			switch bo.Op {
			case token.LSS, token.LEQ, token.GTR, token.GEQ, token.NEQ, token.EQL:
			default:
				continue
			}
			for k := 0; k < 2; k++ {
				p, q := bo.X, bo.Y
				if k == 1 {
					p, q = q, p
				}
				if !uses(p) || !invariantTo(lc.loop, q) {
					// len(s) computed inside the loop of an invariant s
					if uses(p) {
						if call, ok := q.(*ssa.Call); ok {
							if bi, ok := call.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" && invariantTo(lc.loop, call.Call.Args[0]) {
								t := x.tryVal(lc.entry, call.Call.Args[0])
								if t != nil {
									var l *Term
									switch t.sort {
									case SSlice:
										l = SLen(t)
									case SStr:
										l = StrOp("str.len", SInt, t)
									}
									if l != nil && !seen[l] {
										seen[l] = true
										out = append(out, l)
									}
								}
							}
						}
					}
					continue
				}
				t := x.tryVal(lc.entry, q)
				if t != nil && t.sort == SInt && !seen[t] {
					seen[t] = true
					out = append(out, t)
				}
			}
		}
	}
	return out
}

func (x *Exec) tryVal(c cfg, v ssa.Value) *Term {
	if t, ok := c.fr.regs[v]; ok {
		return t
	}
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value == nil && isIface(v.Type()) {
			return NilAny
		}
		return x.constVal(v)
	}
	return nil
}

type metaInst struct {
	name string
	f    func(c cfg) SVal
	desc string
}

// instInv instantiates the metavariables of a candidate invariant over the loop's variables
func (x *Exec) instInv(lc *loopCtx, ic InvClause, add func(string, bool, func(cfg) *Term)) {
	env0 := x.baseEnv(lc.entry.st)
	env0.pos = ic.pos
	var choices [][]metaInst
	for _, v := range ic.vars {
		var ms []metaInst
		ty := v.typ
		mode := "phi"
		// "named": the variable of the same name where the code has one, any of the type otherwise
		named := strings.HasPrefix(ty, "named ")
		ty = strings.TrimSpace(strings.TrimPrefix(ty, "named "))
		for _, m := range []string{"visited ", "outer ", "cell ", "any ", "pos"} {
			if strings.HasPrefix(ty, m) {
				mode = strings.TrimSpace(m)
				ty = strings.TrimSpace(ty[len(m):])
			}
		}
		switch mode {
		case "visited":
			t, _ := env0.resolveType(ty)
			so := mapDomKey(t).Sort.V
			for _, k := range lc.mod {
				mi := memInfos[k]
				if mi != nil && mi.Kind == "I" && mi.Sort == so {
					ms = append(ms, metaInst{v.name, func(c cfg) SVal { return SVal{t: c.st.get(mi)} }, k})
				}
			}
		case "pos":
			for _, k := range lc.mod {
				mi := memInfos[k]
				if mi != nil && strings.HasSuffix(k, ".pos") && mi.Kind == "L" {
					ms = append(ms, metaInst{v.name, func(c cfg) SVal { return SVal{t: c.st.get(mi), typ: types.Typ[types.Int]} }, k})
				}
			}
		default:
			t, so := env0.resolveType(ty)
			for _, ph := range lc.phis {
				ph := ph
				if mode != "outer" && mode != "cell" && sortOf(ph.Type()) == so && types.Identical(ph.Type().Underlying(), t.Underlying()) {
					ms = append(ms, metaInst{v.name, func(c cfg) SVal { return SVal{t: c.fr.regs[ph], typ: t} }, ph.Comment})
				}
			}
			// locals in memory changed by the loop
			if mode != "outer" {
				for _, k := range lc.mod {
					mi := memInfos[k]
					if mi != nil && mi.Kind == "L" && mi.Typ != nil && types.Identical(mi.Typ.Underlying(), t.Underlying()) {
						if _, ok := lc.entry.st.mem[k]; ok {
							ms = append(ms, metaInst{v.name, func(c cfg) SVal { return SVal{t: c.st.get(mi), typ: t} }, k})
						}
					}
				}
			}
			if mode == "outer" || mode == "any" || mode == "cell" {
				done := map[*Term]bool{}
				for _, rv := range sortedVals(lc.entry.fr.regs) {
					tm := lc.entry.fr.regs[rv]
					if !invariantTo(lc.loop, rv) || done[tm] {
						continue
					}
					if mode == "cell" {
						// captured / address-taken variable of the given type
						pt, ok := rv.Type().Underlying().(*types.Pointer)
						if ok && types.Identical(pt.Elem().Underlying(), t.Underlying()) {
							done[tm] = true
							tm := tm
							ms = append(ms, metaInst{v.name, func(c cfg) SVal { return SVal{t: x.load(c.st, tm, pt.Elem()), typ: t} }, rv.Name()})
						}
						continue
					}
					if tm.sort == so && types.Identical(rv.Type().Underlying(), t.Underlying()) {
						done[tm] = true
						tm := tm
						desc := rv.Name()
						if ph, is := rv.(*ssa.Phi); is && named {
							desc = ph.Comment
						}
						ms = append(ms, metaInst{v.name, func(c cfg) SVal { return SVal{t: tm, typ: t} }, desc})
					}
				}
			}
		}
		if len(ms) == 0 {
			return
		}
		if named {
			var same []metaInst
			for _, m := range ms {
				if m.desc == v.name || strings.HasSuffix(m.desc, "."+v.name) {
					same = append(same, m)
				}
			}
			if len(same) > 0 {
				ms = same
			}
		}
		choices = append(choices, ms)
	}
	n := 0
	var rec func(i int, cur []metaInst)
	rec = func(i int, cur []metaInst) {
		if n > 48 {
			return
		}
		if i == len(choices) {
			n++
			sel := append([]metaInst(nil), cur...)
			text := ic.text
			for _, m := range sel {
				text += " {" + m.name + "=" + m.desc + "}"
			}
			entry := lc.entry.st
			f := func(c cfg) *Term {
				e := x.baseEnv(c.st)
				e.pos = ic.pos
				for _, m := range sel {
					e.vars[m.name] = m.f(c)
				}
				_ = entry
				return e.Bool(ic.e)
			}
			// only well-sorted instances are used
			ok := func() (ok bool) {
				defer func() {
					if r := recover(); r != nil {
						if _, is := r.(specError); is {
							x.v.warn("%v", r)
							ok = false
							return
						}
						panic(r)
					}
				}()
				f(lc.entry)
				return true
			}()
			if ok {
				add(text, false, f)
			}
			return
		}
		for _, m := range choices[i] {
			rec(i+1, append(cur, m))
		}
	}
	rec(0, nil)
}

func sortedVals(m map[ssa.Value]*Term) []ssa.Value {
	var vs []ssa.Value
	for v := range m {
		vs = append(vs, v)
	}
	for i := 1; i < len(vs); i++ {
		for j := i; j > 0 && vs[j].Name() < vs[j-1].Name(); j-- {
			vs[j], vs[j-1] = vs[j-1], vs[j]
		}
	}
	return vs
}

// baseEnv: top-level contract environment at the given state
func (x *Exec) baseEnv(st *State) *SEnv {
	e := &SEnv{v: x.v, x: x, vars: map[string]SVal{}, st: st, old: x.entry}
	if x.con != nil {
		e.pkg = x.con.pkg
		e.pos = x.con.pos
	}
	for k, v := range x.entryEnv {
		e.vars[k] = v
	}
	return e
}

func (x *Exec) loopDecreases(lc *loopCtx, b cfg, pos string) {}
