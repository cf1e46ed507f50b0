package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var tagTypes = map[string]types.Type{}

func boxVal(t types.Type, v *Term) *Term {
	k := typeKey(t)
	tagTypes[k] = types.Unalias(t)
	return Box(k, v)
}

// implTerm: does the dynamic type of a implement interface it?
func implTerm(a *Term, it types.Type) *Term {
	iface := it.Underlying().(*types.Interface)
	if a == NilAny {
		return False
	}
	if strings.HasPrefix(a.op, "box:") {
		if ct, ok := tagTypes[a.op[4:]]; ok {
			return BoolLit(types.Implements(ct, iface))
		}
	}
	if a.op == "ite" {
		return Ite(a.args[0], implTerm(a.args[1], it), implTerm(a.args[2], it))
	}
	if iface.NumMethods() == 0 {
		return Not(Eq(a, NilAny))
	}
	op := "u:impl:" + typeKey(it)
	implIfaces[op] = iface
	return raw(op, SBool, Tag(a))
}

var implIfaces = map[string]*types.Interface{}

// implAxioms: facts on the known tags
func implAxioms(op string) []*Term {
	var out []*Term
	iface := implIfaces[op]
	for _, n := range tagNames {
		ct := tagTypes[n]
		if ct == nil {
			continue
		}
		a := raw(op, SBool, TagID(n))
		if types.Implements(ct, iface) {
			out = append(out, a)
		} else {
			out = append(out, Not(a))
		}
	}
	out = append(out, Not(raw(op, SBool, IntLit(0))))
	return out
}

func isIface(t types.Type) bool {
	_, ok := t.Underlying().(*types.Interface)
	return ok
}

// asType: (value, ok) of x.(T)
func asType(a *Term, t types.Type) (*Term, *Term) {
	if isIface(t) {
		ok := implTerm(a, t)
		return a, ok
	}
	k := typeKey(t)
	tagTypes[k] = types.Unalias(t)
	ok := Eq(Tag(a), TagID(k))
	v := Unbox(k, sortOf(t), a)
	return v, ok
}

func wrapInt(t types.Type, v *Term) *Term {
	ii, ok := intType(t)
	if !ok {
		return v
	}
	if ii.signed && ii.bits == 64 {
		return v // machine int/int64 treated as mathematical
	}
	if v.isLit() {
		n := v.ival
		if ii.bits < 63 {
			m := int64(1) << uint(ii.bits)
			n = ((n % m) + m) % m
			if ii.signed && n >= m/2 {
				n -= m
			}
			return IntLit(n)
		}
		if n >= 0 {
			return v
		}
	}
	s := "u"
	if ii.signed {
		s = "s"
	}
	op := fmt.Sprintf("wrap:%s:%d", s, ii.bits)
	if v.op == op {
		return v
	}
	return raw(op, SInt, v)
}

func isUnsigned(t types.Type) bool {
	ii, ok := intType(t)
	return ok && !ii.signed
}

func (x *Exec) tup(c cfg, v ssa.Value) []*Term {
	t, ok := c.fr.tups[v]
	if !ok {
		x.fail(v.Pos(), "no tuple for %s", v.Name())
	}
	return t
}

// instr executes a straight-line instruction; nil means continue in place.
func (x *Exec) instr(c cfg, in ssa.Instruction) []cfg {
	st, fr := c.st, c.fr
	set := func(v ssa.Value, t *Term) {
		if t.sort != sortOf(v.Type()) {
			x.fail(v.Pos(), "sort mismatch for %s (%s): %s vs %s", v.Name(), v, t.sort.Name, sortOf(v.Type()).Name)
		}
		fr.regs[v] = t
	}
	val := func(v ssa.Value) *Term { return x.val(fr, st, v) }
	switch in := in.(type) {
	case *ssa.Alloc:
		t := deref(in.Type())
		if !in.Heap {
			name := fmt.Sprintf("%d.%s.%s", fr.id, in.Name(), in.Comment)
			mi := memInfo("L:"+name, "L", sortOf(t), t, nil)
			st.set(mi, zeroOf(t))
			fr.locals = append(fr.locals, mi.Key)
			fr.regs[in] = raw("local:"+name, SRef)
			return nil
		}
		o := x.newObjAt(st, in)
		x.store(st, o, t, zeroOf(t))
		fr.regs[in] = o
	case *ssa.FieldAddr:
		p := val(in.X)
		bt := deref(in.X.Type())
		x.nonNil(st, p, in.Pos(), fieldName(bt, in.Field))
		fr.regs[in] = subPtr(p, bt, in.Field)
	case *ssa.Field:
		set(in, StructGet(val(in.X), in.Field))
	case *ssa.IndexAddr:
		b := val(in.X)
		i := val(in.Index)
		switch u := in.X.Type().Underlying().(type) {
		case *types.Slice:
			x.oblige(st, And(Le(IntLit(0), i), Lt(i, SLen(b))), "index", in.Pos(), "")
			fr.regs[in] = elemPtr(SBase(b), Add(SOff(b), i), u.Elem())
		case *types.Pointer:
			at := u.Elem().Underlying().(*types.Array)
			x.oblige(st, And(Le(IntLit(0), i), Lt(i, IntLit(at.Len()))), "index", in.Pos(), "")
			fr.regs[in] = x.arrayElem(b, i, at)
		default:
			x.fail(in.Pos(), "IndexAddr on %s", in.X.Type())
		}
	case *ssa.Index:
		b := val(in.X)
		i := val(in.Index)
		if sortOf(in.X.Type()) == SStr {
			x.oblige(st, And(Le(IntLit(0), i), Lt(i, StrOp("str.len", SInt, b))), "index", in.Pos(), "")
			set(in, StrOp("str.at", SInt, b, i))
			return nil
		}
		at := in.X.Type().Underlying().(*types.Array)
		x.oblige(st, And(Le(IntLit(0), i), Lt(i, IntLit(at.Len()))), "index", in.Pos(), "")
		set(in, Select(b, i))
	case *ssa.Store:
		p := val(in.Addr)
		v := val(in.Val)
		x.checkEscape(v, in.Val.Type(), in.Pos())
		x.nonNil(st, p, in.Pos(), "store")
		x.store(st, p, deref(in.Addr.Type()), v)
	case *ssa.UnOp:
		v := val(in.X)
		switch in.Op {
		case token.MUL:
			if t := x.fixed[v]; t != nil {
				set(in, t)
				break
			}
			x.nonNil(st, v, in.Pos(), "load")
			set(in, x.load(st, v, deref(in.X.Type())))
		case token.NOT:
			set(in, Not(v))
		case token.SUB:
			if v.sort == SF64 {
				set(in, raw("u:fneg", SF64, v))
			} else {
				set(in, wrapInt(in.Type(), Sub(IntLit(0), v)))
			}
		case token.XOR:
			if isUnsigned(in.Type()) {
				ii, _ := intType(in.Type())
				_, hi := intBounds(ii)
				set(in, Sub(hi, v))
			} else {
				set(in, Sub(IntLit(-1), v))
			}
		default:
			x.fail(in.Pos(), "unary %s", in.Op)
		}
	case *ssa.BinOp:
		set(in, x.binop(st, in.Op, val(in.X), val(in.Y), in.X.Type(), in.Y.Type(), in.Type(), in.Pos()))
	case *ssa.ChangeType:
		set(in, changeStruct(val(in.X), in.Type()))
	case *ssa.ChangeInterface:
		set(in, val(in.X))
	case *ssa.MakeInterface:
		v := val(in.X)
		x.checkEscape(v, in.X.Type(), in.Pos())
		set(in, boxVal(in.X.Type(), v))
	case *ssa.Convert:
		set(in, x.convert(st, val(in.X), in.X.Type(), in.Type(), in.Pos()))
	case *ssa.MakeClosure:
		fn := in.Fn.(*ssa.Function)
		o := x.newObj(st)
		cl := &Closure{fn: fn}
		for _, b := range in.Bindings {
			cl.bindings = append(cl.bindings, val(b))
		}
		x.clos[o] = cl
		fr.regs[in] = o
		x.checkCaptured(st, in, cl)
	case *ssa.MakeMap:
		o := x.newObjK(st, mapKind(in.Type()))
		dk := mapDomKey(in.Type())
		st.set(dk, Store(st.get(dk), o, ConstArr(dk.Sort.V, False)))
		lk := mapLenKey(in.Type())
		st.set(lk, Store(st.get(lk), o, IntLit(0)))
		fr.regs[in] = o
	case *ssa.MakeSlice:
		et := in.Type().Underlying().(*types.Slice).Elem()
		l, cp := val(in.Len), val(in.Cap)
		x.oblige(st, And(Le(IntLit(0), l), Le(l, cp)), "makeslice", in.Pos(), "")
		o := x.newObj(st)
		ek := elemKey(et)
		st.set(ek, Store(st.get(ek), o, ConstArr(ek.Sort.V, zeroOf(et))))
		set(in, SliceMk(o, IntLit(0), l, cp))
	case *ssa.MakeChan:
		fr.regs[in] = x.newObj(st)
	case *ssa.Slice:
		set(in, x.slice(c, in))
	case *ssa.TypeAssert:
		a := val(in.X)
		v, ok := asType(a, in.AssertedType)
		if isIface(in.AssertedType) {
			if in.CommaOk {
				fr.tups[in] = []*Term{Ite(ok, v, NilAny), ok}
				return nil
			}
			x.oblige(st, ok, "type-assert", in.Pos(), typeKey(in.AssertedType))
			set(in, v)
			return nil
		}
		if !in.CommaOk {
			x.oblige(st, ok, "type-assert", in.Pos(), typeKey(in.AssertedType))
			x.unboxFact(st, a, v, in.AssertedType, True)
			set(in, v)
			return nil
		}
		x.unboxFact(st, a, v, in.AssertedType, ok)
		fr.tups[in] = []*Term{Ite(ok, v, zeroOf(in.AssertedType)), ok}
	case *ssa.Extract:
		t := x.tup(c, in.Tuple)
		set(in, t[in.Index])
	case *ssa.Lookup:
		m, k := val(in.X), val(in.Index)
		if sortOf(in.X.Type()) == SStr {
			x.oblige(st, And(Le(IntLit(0), k), Lt(k, StrOp("str.len", SInt, m))), "index", in.Pos(), "")
			set(in, StrOp("str.at", SInt, m, k))
			return nil
		}
		v, ok := x.mapGet(st, m, k, in.X.Type())
		if in.CommaOk {
			fr.tups[in] = []*Term{v, ok}
		} else {
			set(in, v)
		}
	case *ssa.MapUpdate:
		m, k, v := val(in.Map), val(in.Key), val(in.Value)
		x.checkEscape(v, in.Value.Type(), in.Pos())
		x.oblige(st, Not(Eq(m, NilRef)), "nil-map-write", in.Pos(), "")
		x.mapSet(st, m, k, v, in.Map.Type())
	case *ssa.Range:
		b := val(in.X)
		if sortOf(in.X.Type()) == SStr {
			name := fmt.Sprintf("%d.%s.pos", fr.id, in.Name())
			mi := memInfo("L:"+name, "L", SInt, types.Typ[types.Int], nil)
			st.set(mi, IntLit(0))
			fr.locals = append(fr.locals, mi.Key)
			fr.tups[in] = []*Term{b}
			return nil
		}
		mt := in.X.Type()
		dk := mapDomKey(mt)
		name := fmt.Sprintf("%d.%s.visited", fr.id, in.Name())
		mi := memInfo("L:"+name, "L", dk.Sort.V, nil, nil)
		mi.Kind = "I"
		st.set(mi, ConstArr(dk.Sort.V, False))
		fr.locals = append(fr.locals, mi.Key)
		fr.tups[in] = []*Term{b, Ite(Eq(b, NilRef), ConstArr(dk.Sort.V, False), Select(st.get(dk), b))}
	case *ssa.Next:
		rg := in.Iter.(*ssa.Range)
		rv := fr.tups[rg]
		if in.IsString {
			mi := memInfos["L:"+fmt.Sprintf("%d.%s.pos", fr.id, rg.Name())]
			pos := st.get(mi)
			s := rv[0]
			w := raw("u:runewidth", SInt, s, pos)
			ok := Lt(pos, StrOp("str.len", SInt, s))
			st.assume(Implies(ok, And(Le(IntLit(1), w), Le(w, IntLit(4)), Le(Add(pos, w), StrOp("str.len", SInt, s)))))
			r := raw("u:runeat", SInt, s, pos)
			st.assume(And(Le(IntLit(0), r), Lt(r, IntLit(0x110000))))
			// ascii bytes are their own runes
			at := StrOp("str.at", SInt, s, pos)
			st.assume(Implies(And(ok, Lt(at, IntLit(128))), And(Eq(r, at), Eq(w, IntLit(1)))))
			st.set(mi, Add(pos, w))
			fr.tups[in] = []*Term{ok, pos, r}
			return nil
		}
		mt := rg.X.Type()
		mi := memInfos["L:"+fmt.Sprintf("%d.%s.visited", fr.id, rg.Name())]
		vis := st.get(mi)
		m := rv[0]
		dk := mapDomKey(mt)
		dom := Select(st.get(dk), m)
		ks := dk.Sort.V.K
		k := Fresh("key", ks)
		mt2 := mapTypeOf(mt)
		addConstAxiom(k, typeFacts(mt2.Key(), k, x.alloc(st)))
		ok := Fresh("more", SBool)
		kb := BoundVar("k", ks)
		st.assume(Implies(ok, And(Not(Eq(m, NilRef)), Select(dom, k), Not(Select(vis, k)))))
		body := Implies(And(Select(rv[1], kb), Select(dom, kb)), Select(vis, kb))
		st.assume(Implies(Not(ok), Forall([]*Term{kb}, [][]*Term{{Select(vis, kb)}, {Select(dom, kb)}}, body)))
		v := Select(Select(st.get(mapValKey(mt)), m), k)
		if vis.op != "store" || true {
			st.set(mi, Ite(ok, Store(vis, k, True), vis))
		}
		fr.tups[in] = []*Term{ok, k, v}
	case *ssa.SliceToArrayPointer:
		x.fail(in.Pos(), "slice to array pointer")
	default:
		x.fail(in.Pos(), "unsupported instruction %T", in)
	}
	return nil
}

func fieldName(t types.Type, i int) string {
	return t.Underlying().(*types.Struct).Field(i).Name()
}

// unboxFact: values taken out of interfaces satisfy their type facts and re-box to the interface
func (x *Exec) unboxFact(st *State, a, v *Term, t types.Type, ok *Term) {
	if !strings.HasPrefix(v.op, "unbox:") {
		return
	}
	st.assume(Implies(ok, And(Eq(Box(typeKey(t), v), a), typeFacts(t, v, x.alloc(st)))))
}

func (x *Exec) arrayElem(b, i *Term, at *types.Array) *Term {
	if rooted(b) || strings.HasPrefix(b.op, "sub:") {
		op := "aelem:" + typeKey(at)
		aelemArr[op] = at
		return raw(op, SRef, b, i)
	}
	return elemPtr(b, i, at.Elem())
}

func changeStruct(v *Term, t types.Type) *Term {
	s := sortOf(t)
	if v.sort == s {
		return v
	}
	if v.sort.Kind == "struct" && s.Kind == "struct" {
		u := t.Underlying().(*types.Struct)
		var fs []*Term
		for i := range s.Fields {
			if i < u.NumFields() {
				fs = append(fs, changeStruct(StructGet(v, i), u.Field(i).Type()))
			} else {
				fs = append(fs, StructGet(v, i))
			}
		}
		return StructMk(s, fs)
	}
	panic(abort{"change type " + v.sort.Name + " to " + s.Name})
}

func (x *Exec) mapGet(st *State, m, k *Term, mt types.Type) (v, ok *Term) {
	if m == NilRef {
		return zeroOf(mapTypeOf(mt).Elem()), False
	}
	ok = And(Not(Eq(m, NilRef)), Select(Select(st.get(mapDomKey(mt)), m), k))
	v = Ite(ok, Select(Select(st.get(mapValKey(mt)), m), k), zeroOf(mapTypeOf(mt).Elem()))
	return
}

func (x *Exec) mapSet(st *State, m, k, v *Term, mt types.Type) {
	dk, vk, lk := mapDomKey(mt), mapValKey(mt), mapLenKey(mt)
	dom := Select(st.get(dk), m)
	l := Select(st.get(lk), m)
	st.set(lk, Store(st.get(lk), m, Ite(Select(dom, k), l, Add(l, IntLit(1)))))
	st.set(dk, Store(st.get(dk), m, Store(dom, k, True)))
	st.set(vk, Store(st.get(vk), m, Store(Select(st.get(vk), m), k, v)))
}

func (x *Exec) mapDelete(st *State, m, k *Term, mt types.Type) {
	dk, lk := mapDomKey(mt), mapLenKey(mt)
	dom := Select(st.get(dk), m)
	l := Select(st.get(lk), m)
	has := And(Not(Eq(m, NilRef)), Select(dom, k))
	st.set(lk, Store(st.get(lk), m, Ite(has, Sub(l, IntLit(1)), l)))
	st.set(dk, Store(st.get(dk), m, Store(dom, k, False)))
}

func (x *Exec) mapLen(st *State, m *Term, mt types.Type) *Term {
	return Ite(Eq(m, NilRef), IntLit(0), Select(st.get(mapLenKey(mt)), m))
}

func (x *Exec) slice(c cfg, in *ssa.Slice) *Term {
	st, fr := c.st, c.fr
	b := x.val(fr, st, in.X)
	lo := IntLit(0)
	if in.Low != nil {
		lo = x.val(fr, st, in.Low)
	}
	if sortOf(in.X.Type()) == SStr {
		n := StrOp("str.len", SInt, b)
		hi := n
		if in.High != nil {
			hi = x.val(fr, st, in.High)
		}
		x.oblige(st, And(Le(IntLit(0), lo), Le(lo, hi), Le(hi, n)), "slice-bounds", in.Pos(), "")
		return StrOp("str.substr", SStr, b, lo, Sub(hi, lo))
	}
	var base, off, ln, cp *Term
	switch u := in.X.Type().Underlying().(type) {
	case *types.Slice:
		base, off, ln, cp = SBase(b), SOff(b), SLen(b), SCap(b)
	case *types.Pointer:
		at := u.Elem().Underlying().(*types.Array)
		if rooted(b) || strings.HasPrefix(b.op, "sub:") {
			x.fail(in.Pos(), "slicing an array that is not a heap object")
		}
		x.nonNil(st, b, in.Pos(), "array")
		base, off, ln, cp = b, IntLit(0), IntLit(at.Len()), IntLit(at.Len())
	default:
		x.fail(in.Pos(), "slice of %s", in.X.Type())
	}
	hi := ln
	if in.High != nil {
		hi = x.val(fr, st, in.High)
	}
	mx := cp
	if in.Max != nil {
		mx = x.val(fr, st, in.Max)
	}
	x.oblige(st, And(Le(IntLit(0), lo), Le(lo, hi), Le(hi, mx), Le(mx, cp)), "slice-bounds", in.Pos(), "")
	return SliceMk(base, Add(off, lo), Sub(hi, lo), Sub(mx, lo))
}

func truncDiv(a, b *Term, unsigned bool) *Term {
	d := func(p, q *Term) *Term {
		if p.isLit() && q.isLit() && q.ival > 0 && p.ival >= 0 {
			return IntLit(p.ival / q.ival)
		}
		return raw("div", SInt, p, q)
	}
	if unsigned {
		return d(a, b)
	}
	if b.isLit() && b.ival > 0 {
		return Ite(Le(IntLit(0), a), d(a, b), Sub(IntLit(0), d(Sub(IntLit(0), a), b)))
	}
	na, nb := Sub(IntLit(0), a), Sub(IntLit(0), b)
	return Ite(Le(IntLit(0), a),
		Ite(Lt(IntLit(0), b), d(a, b), Sub(IntLit(0), d(a, nb))),
		Ite(Lt(IntLit(0), b), Sub(IntLit(0), d(na, b)), d(na, nb)))
}

func isPow2(n int64) (int, bool) {
	for i := 0; i < 62; i++ {
		if n == int64(1)<<uint(i) {
			return i, true
		}
	}
	return 0, false
}

func (x *Exec) binop(st *State, op token.Token, a, b *Term, ta, tb, rt types.Type, pos token.Pos) *Term {
	switch op {
	case token.EQL, token.NEQ:
		r := x.eqVals(a, b, ta, tb, pos)
		if op == token.NEQ {
			return Not(r)
		}
		return r
	}
	switch a.sort {
	case SInt:
		switch op {
		case token.ADD:
			return wrapInt(rt, Add(a, b))
		case token.SUB:
			return wrapInt(rt, Sub(a, b))
		case token.MUL:
			return wrapInt(rt, Mul(a, b))
		case token.QUO:
			x.oblige(st, Not(Eq(b, IntLit(0))), "div-zero", pos, "")
			return wrapInt(rt, truncDiv(a, b, isUnsigned(ta)))
		case token.REM:
			x.oblige(st, Not(Eq(b, IntLit(0))), "div-zero", pos, "")
			if isUnsigned(ta) {
				return raw("mod", SInt, a, b)
			}
			return Sub(a, Mul(b, truncDiv(a, b, false)))
		case token.LSS:
			return Lt(a, b)
		case token.LEQ:
			return Le(a, b)
		case token.GTR:
			return Lt(b, a)
		case token.GEQ:
			return Le(b, a)
		case token.SHL:
			if b.isLit() && b.ival >= 0 && b.ival < 62 {
				return wrapInt(rt, Mul(a, IntLit(int64(1)<<uint(b.ival))))
			}
			return raw("u:shl", SInt, a, b)
		case token.SHR:
			if b.isLit() && b.ival >= 0 && b.ival < 62 {
				return raw("div", SInt, a, IntLit(int64(1)<<uint(b.ival)))
			}
			return raw("u:shr", SInt, a, b)
		case token.AND:
			for k := 0; k < 2; k++ {
				if b.isLit() && b.ival >= 0 {
					if _, ok := isPow2(b.ival + 1); ok {
						return raw("mod", SInt, a, IntLit(b.ival+1))
					}
				}
				a, b = b, a
			}
			if a.isLit() && b.isLit() {
				return IntLit(a.ival & b.ival)
			}
			if a.id > b.id {
				a, b = b, a
			}
			return raw("u:band", SInt, a, b)
		case token.OR:
			if a.isLit() && b.isLit() {
				return IntLit(a.ival | b.ival)
			}
			if a.id > b.id {
				a, b = b, a
			}
			return raw("u:bor", SInt, a, b)
		case token.XOR:
			return raw("u:bxor", SInt, a, b)
		case token.AND_NOT:
			return raw("u:bandnot", SInt, a, b)
		}
	case SStr:
		switch op {
		case token.ADD:
			return StrOp("str.++", SStr, a, b)
		case token.LSS:
			return raw("u:strlt", SBool, a, b)
		case token.GTR:
			return raw("u:strlt", SBool, b, a)
		case token.LEQ:
			return Not(raw("u:strlt", SBool, b, a))
		case token.GEQ:
			return Not(raw("u:strlt", SBool, a, b))
		}
	case SF64:
		switch op {
		case token.ADD, token.SUB, token.MUL, token.QUO:
			return raw("u:f"+op.String(), SF64, a, b)
		case token.LSS:
			return raw("u:flt", SBool, a, b)
		case token.GTR:
			return raw("u:flt", SBool, b, a)
		case token.LEQ:
			return raw("u:fle", SBool, a, b)
		case token.GEQ:
			return raw("u:fle", SBool, b, a)
		}
	case SBool:
		switch op {
		case token.AND:
			return And(a, b)
		case token.OR:
			return Or(a, b)
		}
	}
	x.fail(pos, "binop %s on %s", op, a.sort.Name)
	return nil
}

func (x *Exec) eqVals(a, b *Term, ta, tb types.Type, pos token.Pos) *Term {
	if isIface(ta) && !isIface(tb) {
		b = boxVal(tb, b)
	} else if !isIface(ta) && isIface(tb) {
		a = boxVal(ta, a)
	}
	if a.sort == SSlice { // only comparison with nil
		if b == NilSlice {
			return Eq(SBase(a), NilRef)
		}
		if a == NilSlice {
			return Eq(SBase(b), NilRef)
		}
	}
	if a.sort == SF64 {
		return raw("u:feq", SBool, a, b)
	}
	if a.sort.Kind == "array" {
		x.fail(pos, "array comparison")
	}
	if a.sort != b.sort {
		x.fail(pos, "comparison of %s and %s", a.sort.Name, b.sort.Name)
	}
	return Eq(a, b)
}

func isByteSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}
func isRuneSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Int32
}

var byteRow = ArraySort(SInt, SInt)

// bytesOf: the row holding the bytes of s
func bytesOf(s *Term) *Term {
	if s.op == "u:strof" && s.args[1] == IntLit(0) {
		return s.args[0]
	}
	return raw("u:bytes", byteRow, s)
}

func strOf(row, off, ln *Term) *Term {
	if row.op == "u:bytes" {
		if off == IntLit(0) && ln == StrOp("str.len", SInt, row.args[0]) {
			return row.args[0]
		}
		return StrOp("str.substr", SStr, row.args[0], off, ln)
	}
	if ln == IntLit(0) {
		return StrLit("")
	}
	return raw("u:strof", SStr, row, off, ln)
}

func init() {
	s := BoundVar("s", SStr)
	i := BoundVar("i", SInt)
	at := Select(raw("u:bytes", byteRow, s), i)
	n := raw("str.len", SInt, s)
	opAxioms["u:bytes"] = []*Term{
		Forall([]*Term{s, i}, [][]*Term{{at}}, Implies(And(Le(IntLit(0), i), Lt(i, n)), Eq(at, raw("str.at", SInt, s, i)))),
	}
	r := BoundVar("r", byteRow)
	o := BoundVar("o", SInt)
	l := BoundVar("l", SInt)
	so := raw("u:strof", SStr, r, o, l)
	sb := raw("u:strof", SStr, raw("u:bytes", byteRow, s), o, l)
	opAxioms["u:strof"] = []*Term{
		Forall([]*Term{s, o, l}, [][]*Term{{sb}}, Implies(And(Eq(o, IntLit(0)), Eq(l, n)), Eq(sb, s))),
		Forall([]*Term{r, o, l}, [][]*Term{{so}}, Implies(Le(IntLit(0), l), Eq(raw("str.len", SInt, so), l))),
		Forall([]*Term{r, o, l, i}, [][]*Term{{raw("str.at", SInt, so, i)}}, Implies(And(Le(IntLit(0), i), Lt(i, l)), Eq(raw("str.at", SInt, so, i), Select(r, Add(o, i))))),
		Forall([]*Term{r, o, l, i}, [][]*Term{{so, Select(r, i)}}, Implies(And(Le(o, i), Lt(i, Add(o, l))), Eq(raw("str.at", SInt, so, Sub(i, o)), Select(r, i)))),
	}
}

func (x *Exec) convert(st *State, v *Term, from, to types.Type, pos token.Pos) *Term {
	fs, ts := sortOf(from), sortOf(to)
	switch {
	case fs == SInt && ts == SInt:
		fi, _ := intType(from)
		ti, _ := intType(to)
		if ti.bits > fi.bits && (ti.signed || !fi.signed) || ti == fi {
			return v
		}
		return wrapIntFull(ti, v)
	case fs == SStr && ts == SStr:
		return v
	case fs == SStr && isByteSlice(to):
		o := x.newObj(st)
		ek := elemKey(to.Underlying().(*types.Slice).Elem())
		st.set(ek, Store(st.get(ek), o, bytesOf(v)))
		n := StrOp("str.len", SInt, v)
		return SliceMk(o, IntLit(0), n, n)
	case isByteSlice(from) && ts == SStr:
		ek := elemKey(from.Underlying().(*types.Slice).Elem())
		return strOf(Select(st.get(ek), SBase(v)), SOff(v), SLen(v))
	case fs == SStr && isRuneSlice(to):
		o := x.newObj(st)
		ek := elemKey(to.Underlying().(*types.Slice).Elem())
		st.set(ek, Store(st.get(ek), o, raw("u:runes", byteRow, v)))
		n := raw("u:runecount", SInt, v)
		st.assume(And(Le(IntLit(0), n), Le(n, StrOp("str.len", SInt, v))))
		return SliceMk(o, IntLit(0), n, n)
	case isRuneSlice(from) && ts == SStr:
		ek := elemKey(from.Underlying().(*types.Slice).Elem())
		return raw("u:strofrunes", SStr, Select(st.get(ek), SBase(v)), SOff(v), SLen(v))
	case fs == SInt && ts == SStr:
		return raw("u:strofrune", SStr, v)
	case fs == SInt && ts == SF64:
		return raw("u:i2f", SF64, v)
	case fs == SF64 && ts == SInt:
		r := raw("u:f2i:"+typeKey(to.Underlying()), SInt, v)
		st.assume(rangeFact(to, r))
		return r
	case fs == SF64 && ts == SF64:
		b := to.Underlying().(*types.Basic)
		if b.Kind() == types.Float32 {
			return raw("u:f32", SF64, v)
		}
		return v
	case fs == ts:
		return v
	}
	x.fail(pos, "convert %s to %s", from, to)
	return nil
}

func wrapIntFull(ii intInfo, v *Term) *Term {
	if ii.signed && ii.bits == 64 {
		// uint64 -> int64
		return raw("wrap:s:64", SInt, v)
	}
	s := "u"
	if ii.signed {
		s = "s"
	}
	if v.isLit() && v.ival >= 0 && ii.bits > 32 {
		return v
	}
	if v.isLit() && ii.bits <= 32 {
		m := int64(1) << uint(ii.bits)
		n := ((v.ival % m) + m) % m
		if ii.signed && n >= m/2 {
			n -= m
		}
		return IntLit(n)
	}
	return raw(fmt.Sprintf("wrap:%s:%d", s, ii.bits), SInt, v)
}
