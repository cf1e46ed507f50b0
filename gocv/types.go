package main

import (
	"fmt"
	"go/types"
	"strings"
)

const modulePath = "github.com/wujiu2020/strip"

func inModule(p *types.Package) bool {
	return p != nil && (p.Path() == modulePath || strings.HasPrefix(p.Path(), modulePath+"/"))
}

func typeKey(t types.Type) string {
	s := types.TypeString(types.Unalias(t), nil)
	s = strings.ReplaceAll(s, "interface{}", "any")
	return s
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	panic("deref of " + t.String())
}

// isOpaqueStruct: struct types of other modules with unexported fields are opaque values
func isOpaqueStruct(t types.Type) bool {
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil || inModule(n.Obj().Pkg()) {
		return false
	}
	for i := 0; i < st.NumFields(); i++ {
		if !st.Field(i).Exported() {
			return true
		}
	}
	return false
}

// isDataStruct: struct values represented field by field
func isDataStruct(t types.Type) bool {
	_, ok := t.Underlying().(*types.Struct)
	return ok && !isOpaqueStruct(t)
}

var structType = map[*Sort]types.Type{}

func sortOf(t types.Type) *Sort {
	t = types.Unalias(t)
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return SBool
		case u.Info()&types.IsInteger != 0:
			return SInt
		case u.Info()&types.IsString != 0:
			return SStr
		case u.Info()&types.IsFloat != 0:
			return SF64
		case u.Kind() == types.UntypedNil:
			return SRef
		case u.Kind() == types.UnsafePointer:
			return SRef
		}
		return OpaqueSort(u.Name())
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return SRef
	case *types.Slice:
		return SSlice
	case *types.Interface:
		return SAny
	case *types.Array:
		return ArraySort(SInt, sortOf(u.Elem()))
	case *types.Struct:
		if isOpaqueStruct(t) {
			return OpaqueSort(typeKey(t))
		}
		name := "S!" + mangle(typeKey(t))
		if s, ok := sortTab[name]; ok {
			return s
		}
		s := mkSort(name, "struct")
		structType[s] = t
		for i := 0; i < u.NumFields(); i++ {
			s.Fields = append(s.Fields, sortOf(u.Field(i).Type()))
			s.FNames = append(s.FNames, u.Field(i).Name())
		}
		if u.NumFields() == 0 {
			s.Fields = append(s.Fields, SInt)
			s.FNames = append(s.FNames, "_")
		}
		return s
	case *types.Tuple:
		return mkSort("TUPLE", "opaque")
	}
	panic("sortOf " + t.String())
}

func zeroOf(t types.Type) *Term {
	t = types.Unalias(t)
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch sortOf(t) {
		case SBool:
			return False
		case SInt:
			return IntLit(0)
		case SStr:
			return StrLit("")
		case SF64:
			return raw("f64zero", SF64)
		case SRef:
			return NilRef
		}
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return NilRef
	case *types.Slice:
		return NilSlice
	case *types.Interface:
		return NilAny
	case *types.Array:
		return ConstArr(sortOf(t), zeroOf(u.Elem()))
	case *types.Struct:
		s := sortOf(t)
		if s.Kind == "opaque" {
			z := raw("zero:"+s.Name, s)
			if typeKey(t) == "reflect.Value" && len(constAxioms[z]) == 0 {
				addConstAxiom(z, And(Not(raw("u:(reflect.Value).IsValid#0", SBool, z)), Eq(raw("u:(reflect.Value).Kind#0", SInt, z), IntLit(0))))
			}
			return z
		}
		var fs []*Term
		for i := 0; i < u.NumFields(); i++ {
			fs = append(fs, zeroOf(u.Field(i).Type()))
		}
		if len(fs) == 0 {
			fs = append(fs, IntLit(0))
		}
		return StructMk(s, fs)
	}
	s := sortOf(t)
	return raw("zero:"+s.Name, s)
}

// zeroOfSort is used for reads of absent map entries in ghost maps
func zeroOfSort(s *Sort) *Term {
	switch s {
	case SBool:
		return False
	case SInt:
		return IntLit(0)
	case SStr:
		return StrLit("")
	case SRef:
		return NilRef
	case SSlice:
		return NilSlice
	case SAny:
		return NilAny
	}
	return raw("zero:"+s.Name, s)
}

type intInfo struct {
	signed bool
	bits   int
}

func intType(t types.Type) (intInfo, bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok || b.Info()&types.IsInteger == 0 {
		return intInfo{}, false
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return intInfo{true, 64}, true
	case types.Int8:
		return intInfo{true, 8}, true
	case types.Int16:
		return intInfo{true, 16}, true
	case types.Int32, types.UntypedRune:
		return intInfo{true, 32}, true
	case types.Uint, types.Uint64, types.Uintptr:
		return intInfo{false, 64}, true
	case types.Uint8:
		return intInfo{false, 8}, true
	case types.Uint16:
		return intInfo{false, 16}, true
	case types.Uint32:
		return intInfo{false, 32}, true
	}
	return intInfo{}, false
}

func rangeFact(t types.Type, x *Term) *Term {
	ii, ok := intType(t)
	if !ok {
		return True
	}
	lo, hi := intBounds(ii)
	return And(Le(lo, x), Le(x, hi))
}

func intBounds(ii intInfo) (*Term, *Term) {
	if ii.signed {
		switch ii.bits {
		case 64:
			return BigLit("-9223372036854775808"), BigLit("9223372036854775807")
		default:
			h := int64(1) << uint(ii.bits-1)
			return IntLit(-h), IntLit(h - 1)
		}
	}
	if ii.bits == 64 {
		return IntLit(0), BigLit("18446744073709551615")
	}
	return IntLit(0), IntLit(int64(1)<<uint(ii.bits) - 1)
}

// typeFacts: what is known of any value of Go type t in a state whose allocation counter is alloc
func typeFacts(t types.Type, x *Term, alloc *Term) *Term {
	t = types.Unalias(t)
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return rangeFact(t, x)
	case *types.Map:
		return And(Lt(Rid(x), alloc), Or(Eq(x, NilRef), Eq(raw("u:idkind", SInt, Rid(x)), mapKind(t))))
	case *types.Pointer, *types.Chan, *types.Signature:
		return Lt(Rid(x), alloc)
	case *types.Slice:
		return And(Lt(Rid(SBase(x)), alloc), sliceValid(x))
	case *types.Struct:
		if isOpaqueStruct(t) {
			return True
		}
		var fs []*Term
		for i := 0; i < u.NumFields(); i++ {
			fs = append(fs, typeFacts(u.Field(i).Type(), StructGet(x, i), alloc))
		}
		return And(fs...)
	}
	return True
}

func sliceValid(x *Term) *Term {
	return And(Le(IntLit(0), SOff(x)), Le(IntLit(0), SLen(x)), Le(SLen(x), SCap(x)),
		Implies(Eq(SBase(x), NilRef), Eq(SCap(x), IntLit(0))))
}

// memory key metadata
type MemInfo struct {
	Key  string
	Sort *Sort
	// kind: F field, C cell, E elements, MD map domain, MV map values, ML map length, G global, L local, X ghost, A alloc
	Kind string
	Typ  types.Type // element / field / value type
	KTyp types.Type
}

var memInfos = map[string]*MemInfo{}

func memInfo(key, kind string, s *Sort, typ, kt types.Type) *MemInfo {
	if m, ok := memInfos[key]; ok {
		return m
	}
	m := &MemInfo{Key: key, Kind: kind, Sort: s, Typ: typ, KTyp: kt}
	memInfos[key] = m
	return m
}

func fieldKey(st types.Type, i int) *MemInfo {
	u := st.Underlying().(*types.Struct)
	f := u.Field(i)
	return memInfo("F:"+typeKey(st)+"."+f.Name(), "F", ArraySort(SRef, sortOf(f.Type())), f.Type(), nil)
}
func cellKey(t types.Type) *MemInfo {
	return memInfo("C:"+typeKey(t), "C", ArraySort(SRef, sortOf(t)), t, nil)
}
func elemKey(t types.Type) *MemInfo {
	return memInfo("E:"+typeKey(t), "E", ArraySort(SRef, ArraySort(SInt, sortOf(t))), t, nil)
}
func mapTypeOf(t types.Type) *types.Map { return t.Underlying().(*types.Map) }
func isMapType(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Map)
	return ok
}
func mapName(t types.Type) string       { m := mapTypeOf(t); return typeKey(types.NewMap(m.Key(), m.Elem())) }

// mapKind: object kind of maps of type t (0: other objects, positive: parts of objects)
var mapKinds = map[string]int64{}

func mapKind(t types.Type) *Term { return mapKindNamed(mapName(t)) }

// noneMade: no map of the kept types is made between allocation counters a0 and a1
func noneMade(kept map[string]bool, a0, a1 *Term) *Term {
	var alts []*Term
	i := BoundVar("i", SInt)
	v := raw("u:idkind", SInt, i)
	for _, k := range sortedKeys(kept) {
		if strings.HasPrefix(k, "MD:") {
			alts = append(alts, Not(Eq(v, mapKindNamed(k[3:]))))
		}
	}
	if len(alts) == 0 || a0 == a1 {
		return True
	}
	return Forall([]*Term{i}, [][]*Term{{v}}, Implies(And(Le(a0, i), Lt(i, a1)), And(alts...)))
}

func mapKindNamed(n string) *Term {
	k, ok := mapKinds[n]
	if !ok {
		k = -1 - int64(len(mapKinds))
		mapKinds[n] = k
	}
	return IntLit(k)
}

func mapDomKey(t types.Type) *MemInfo {
	m := mapTypeOf(t)
	return memInfo("MD:"+mapName(t), "MD", ArraySort(SRef, ArraySort(sortOf(m.Key()), SBool)), m.Elem(), m.Key())
}
func mapValKey(t types.Type) *MemInfo {
	m := mapTypeOf(t)
	return memInfo("MV:"+mapName(t), "MV", ArraySort(SRef, ArraySort(sortOf(m.Key()), sortOf(m.Elem()))), m.Elem(), m.Key())
}
func mapLenKey(t types.Type) *MemInfo {
	return memInfo("ML:"+mapName(t), "ML", ArraySort(SRef, SInt), types.Typ[types.Int], nil)
}

var allocInfo = memInfo("alloc", "A", SInt, nil, nil)

// memAxioms: closure facts of a havocked memory constant
func memAxioms(mi *MemInfo, c, alloc *Term) *Term {
	switch mi.Kind {
	case "F", "C":
		x := BoundVar("r", SRef)
		v := raw("select", c.sort.V, c, x)
		return Forall([]*Term{x}, [][]*Term{{v}}, typeFacts(mi.Typ, v, alloc))
	case "E":
		x := BoundVar("r", SRef)
		i := BoundVar("i", SInt)
		v := raw("select", mi.Sort.V.V, raw("select", mi.Sort.V, c, x), i)
		return Forall([]*Term{x, i}, [][]*Term{{v}}, typeFacts(mi.Typ, v, alloc))
	case "MV":
		x := BoundVar("r", SRef)
		i := BoundVar("k", mi.Sort.V.K)
		v := raw("select", mi.Sort.V.V, raw("select", mi.Sort.V, c, x), i)
		return Forall([]*Term{x, i}, [][]*Term{{v}}, typeFacts(mi.Typ, v, alloc))
	case "ML":
		x := BoundVar("r", SRef)
		v := raw("select", SInt, c, x)
		return Forall([]*Term{x}, [][]*Term{{v}}, Le(IntLit(0), v))
	case "G", "L":
		return typeFacts(mi.Typ, c, alloc)
	}
	return True
}

func fieldIndex(st *types.Struct, name string) int {
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return i
		}
	}
	return -1
}

func errorf(f string, a ...interface{}) error { return fmt.Errorf(f, a...) }
