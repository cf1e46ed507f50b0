package main

import (
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Clause struct {
	label string
	text  string
	e     *SExpr
	pos   string
	props []string
}

type InvClause struct {
	vars []SVar // typ may start with "visited "/"outer "
	e    *SExpr
	text string
	pos  string
}

type Contract struct {
	Key      string
	PkgPath  string
	pkg      *types.Package
	Kind     string // func extern iface funcval
	Params   []string
	Results  []string
	Props    []string
	Req      []Clause
	Captured []Clause // closures: what the captured variables hold, proved where the closure is made
	Ens      []Clause
	EnsPanic []Clause
	Mods     []string
	Keeps    []string // memory that `new` objects do not have either
	New      bool
	PanWhen  *Clause
	PanOnly  *Clause
	MayPanic bool
	Inv      []InvClause
	Decr     []Clause
	Merge    bool
	Calls    string // funcval: the parameter it may call once, returning its results
	Split    bool // appends fork into growing in place and moving
	NoBody   bool // trusted
	Driver   bool
	Inline   bool
	NoFrame  bool
	Pure     bool
	Fuel     int
	Paths    int // how many paths may arrive at a block before they are joined
	Unroll   int
	Timeout  int
	pos      string
	file     string
	Why      string
	uses     []string
	lets     []Clause
	effects  []Clause // ghost assignments at exit
	begins   []Clause // ghost assignments at entry
	noauto   bool
	Opaque   []string
}

type Lemma struct {
	name   string
	vars   []SVar
	req    []Clause
	ens    []Clause
	trig   []*SExpr
	induct string
	pkg    *types.Package
	pos    string
	props  []string
}

var clauseWords = map[string]bool{
	"props": true, "requires": true, "ensures": true, "modifies": true, "panics": true, "inv": true, "decreases": true,
	"merge": true, "split": true, "keeps": true, "trusted": true, "driver": true, "inline": true, "new": true, "ensures_panic": true, "maypanic": true, "panics_only": true,
	"fuel": true, "paths": true, "noframe": true, "reads": true, "induct": true, "trigger": true, "timeout": true, "use": true, "let": true, "noauto": true, "opaque": true, "unroll": true, "effect": true, "begin": true, "calls": true, "captured": true,
}

func firstWord(s string) (string, string) {
	s = strings.TrimSpace(s)
	i := 0
	for i < len(s) && (s[i] >= 'a' && s[i] <= 'z' || s[i] >= 'A' && s[i] <= 'Z' || s[i] == '_') {
		i++
	}
	return s[:i], strings.TrimSpace(s[i:])
}

func stripComment(l string) string {
	inStr := false
	for i := 0; i < len(l); i++ {
		if l[i] == '"' && (i == 0 || l[i-1] != '\\') {
			inStr = !inStr
		}
		if !inStr && l[i] == '#' {
			return l[:i]
		}
	}
	return l
}

// loadContracts reads every *.spec file of dir
func (v *Verifier) loadContracts(dir, only string) {
	files, _ := filepath.Glob(filepath.Join(dir, "*.spec"))
	sort.Strings(files)
	for _, f := range files {
		if only != "" && !contains(strings.Split(only, ","), strings.TrimSuffix(filepath.Base(f), ".spec")) {
			continue
		}
		b, err := os.ReadFile(f)
		if err != nil {
			panic(err)
		}
		v.parseFile(filepath.Base(f), string(b))
	}
}

func (v *Verifier) parseFile(name, text string) {
	type item struct {
		line    int
		head    string
		clauses []struct {
			line int
			text string
		}
	}
	var items []*item
	var cur *item
	for i, l := range strings.Split(text, "\n") {
		l = strings.TrimRight(stripComment(l), " \t\r")
		if strings.TrimSpace(l) == "" {
			continue
		}
		if l[0] != ' ' && l[0] != '\t' {
			cur = &item{line: i + 1, head: l}
			items = append(items, cur)
			continue
		}
		w, _ := firstWord(l)
		if clauseWords[w] {
			cur.clauses = append(cur.clauses, struct {
				line int
				text string
			}{i + 1, strings.TrimSpace(l)})
		} else if len(cur.clauses) > 0 {
			cur.clauses[len(cur.clauses)-1].text += " " + strings.TrimSpace(l)
		} else {
			cur.head += " " + strings.TrimSpace(l)
		}
	}
	var pkgPath string
	var pkg *types.Package
	for _, it := range items {
		pos := fmt.Sprintf("%s:%d", name, it.line)
		w, rest := firstWord(it.head)
		switch w {
		case "package":
			pkgPath = rest
			pkg = v.typesPkg(pkgPath)
			if pkg == nil {
				panic(specErr(pos, "package %s not loaded", pkgPath))
			}
		case "pure", "rec", "uninterp":
			w2, r2 := firstWord(rest)
			if w2 != "func" {
				panic(specErr(pos, "expected func"))
			}
			f := v.parseSpecFn(w, r2, pos, pkg)
			for _, c := range it.clauses {
				cw, cr := firstWord(c.text)
				if cw == "reads" {
					for _, r := range splitTop(cr, ',') {
						f.reads = append(f.reads, strings.TrimSpace(r))
					}
				}
			}
			if _, dup := v.specFns[f.name]; dup {
				panic(specErr(pos, "duplicate spec function %s", f.name))
			}
			v.specFns[f.name] = f
			if w == "rec" {
				v.recFns[f.name] = f
			}
		case "ghost":
			// ghost name type
			n, ty := firstWord(rest)
			e := &SEnv{v: v, pkg: pkg, pos: pos}
			t, s := e.resolveType(ty)
			mi := memInfo("G:ghost."+n, "G", s, t, nil)
			if _, arr := t.(*ghostArr); t == nil || arr {
				mi.Kind = "X"
			}
			v.ghosts[n] = mi
		case "axiom":
			v.axioms = append(v.axioms, Clause{text: rest, e: nil, pos: pos, label: pkgPath})
		case "lemma":
			lm := &Lemma{pos: pos, pkg: pkg}
			i := strings.Index(rest, "(")
			lm.name = strings.TrimSpace(rest[:i])
			lm.vars = parseVars(strings.TrimSuffix(strings.TrimSpace(rest[i+1:]), ")"))
			for _, c := range it.clauses {
				cpos := fmt.Sprintf("%s:%d", name, c.line)
				cw, cr := firstWord(c.text)
				switch cw {
				case "requires":
					lm.req = append(lm.req, mkClause(cr, cpos))
				case "ensures":
					lm.ens = append(lm.ens, mkClause(cr, cpos))
				case "induct":
					lm.induct = cr
				case "props":
					lm.props = strings.Fields(cr)
				case "trigger":
					for _, s := range splitTop(cr, ',') {
						lm.trig = append(lm.trig, parseSpec(s, cpos))
					}
				}
			}
			v.lemmas = append(v.lemmas, lm)
		case "func", "extern", "iface", "funcval":
			c := &Contract{Kind: w, PkgPath: pkgPath, pkg: pkg, pos: pos, file: name, Fuel: 3}
			v.parseHead(c, rest, pos)
			for _, cl := range it.clauses {
				v.parseClause(c, cl.text, fmt.Sprintf("%s:%d", name, cl.line))
			}
			if c.Kind == "extern" || c.Kind == "iface" || c.Kind == "funcval" {
				c.NoBody = true
			}
			if old := v.contracts[c.Key]; old != nil {
				panic(specErr(pos, "duplicate contract for %s (%s)", c.Key, old.pos))
			}
			v.contracts[c.Key] = c
		default:
			panic(specErr(pos, "unknown declaration %q", w))
		}
	}
}

func splitTop(s string, sep byte) []string {
	var out []string
	d, start := 0, 0
	inStr := false
	for i := 0; i < len(s); i++ {
		if s[i] == '"' && (i == 0 || s[i-1] != '\\') {
			inStr = !inStr
		}
		if inStr {
			continue
		}
		switch s[i] {
		case '(', '[', '{':
			d++
		case ')', ']', '}':
			d--
		case sep:
			if d == 0 {
				out = append(out, s[start:i])
				start = i + 1
			}
		}
	}
	if strings.TrimSpace(s[start:]) != "" {
		out = append(out, s[start:])
	}
	return out
}

func parseVars(s string) []SVar {
	var out []SVar
	for _, p := range splitTop(s, ',') {
		n, t := firstWordId(p)
		out = append(out, SVar{n, t})
	}
	// a, b int: propagate the type backwards
	for i := len(out) - 2; i >= 0; i-- {
		if out[i].typ == "" {
			out[i].typ = out[i+1].typ
		}
	}
	return out
}

func firstWordId(s string) (string, string) {
	s = strings.TrimSpace(s)
	i := strings.IndexAny(s, " \t")
	if i < 0 {
		return s, ""
	}
	return s[:i], strings.TrimSpace(s[i:])
}

func (v *Verifier) parseSpecFn(kind, s, pos string, pkg *types.Package) *SpecFn {
	i := strings.Index(s, "(")
	f := &SpecFn{name: strings.TrimSpace(s[:i]), kind: kind, pkg: pkg, pos: pos}
	j := matchParen(s, i)
	f.params = parseVars(s[i+1 : j])
	rest := s[j+1:]
	if kind == "uninterp" {
		f.ret = strings.TrimSpace(rest)
		return f
	}
	k := strings.Index(rest, " = ")
	if k < 0 {
		panic(specErr(pos, "expected '=' in %s", s))
	}
	f.ret = strings.TrimSpace(rest[:k])
	f.body = parseSpec(rest[k+3:], pos)
	return f
}

func matchParen(s string, i int) int {
	d := 0
	for j := i; j < len(s); j++ {
		switch s[j] {
		case '(', '[', '{':
			d++
		case ')', ']', '}':
			d--
			if d == 0 {
				return j
			}
		}
	}
	panic("unbalanced parentheses: " + s)
}

// parseHead: (*T).m(a, b) (r) | Fn(a) (r) | path/pkg.Fn(a) | (*path/pkg.T).m(a)
func (v *Verifier) parseHead(c *Contract, s, pos string) {
	s = strings.TrimSpace(s)
	if c.Kind == "funcval" {
		// funcval TYPE : (params) (results)
		i := strings.Index(s, " : ")
		e := &SEnv{v: v, pkg: c.pkg, pos: pos}
		t, _ := e.resolveType(s[:i])
		c.Key = "funcval " + sigKey(t.Underlying().(*types.Signature))
		v.parseSig(c, strings.TrimSpace(s[i+3:]))
		return
	}
	var name string
	if s[0] == '(' {
		j := matchParen(s, 0)
		recv := s[1:j]
		k := strings.Index(s[j:], "(") + j
		meth := s[j+2 : k]
		star := strings.HasPrefix(recv, "*")
		recv = strings.TrimPrefix(recv, "*")
		if !strings.Contains(recv, ".") {
			recv = c.PkgPath + "." + recv
		}
		if star {
			recv = "*" + recv
		}
		name = "(" + recv + ")." + meth
		s = s[k:]
	} else {
		k := strings.Index(s, "(")
		name = s[:k]
		if !strings.Contains(name, ".") {
			name = c.PkgPath + "." + name
		}
		s = s[k:]
	}
	c.Key = name
	v.parseSig(c, s)
}

func (v *Verifier) parseSig(c *Contract, s string) {
	j := matchParen(s, 0)
	for _, p := range splitTop(s[1:j], ',') {
		n, _ := firstWordId(p)
		c.Params = append(c.Params, n)
	}
	rest := strings.TrimSpace(s[j+1:])
	if strings.HasPrefix(rest, "(") {
		j = matchParen(rest, 0)
		for _, p := range splitTop(rest[1:j], ',') {
			n, _ := firstWordId(p)
			c.Results = append(c.Results, n)
		}
	} else if rest != "" {
		n, _ := firstWordId(rest)
		c.Results = append(c.Results, n)
	}
}

func sigKey(s *types.Signature) string {
	return typeKey(types.NewSignatureType(nil, nil, nil, stripNames(s.Params()), stripNames(s.Results()), s.Variadic()))
}
func stripNames(t *types.Tuple) *types.Tuple {
	var vs []*types.Var
	for i := 0; i < t.Len(); i++ {
		ty := t.At(i).Type()
		if s, ok := ty.(*types.Signature); ok {
			ty = types.NewSignatureType(nil, nil, nil, stripNames(s.Params()), stripNames(s.Results()), s.Variadic())
		}
		vs = append(vs, types.NewVar(0, nil, "", ty))
	}
	return types.NewTuple(vs...)
}

func mkClause(s, pos string) Clause {
	c := Clause{pos: pos}
	// optional label:   name: expr   (not ::) and optional property list [P01]
	s = strings.TrimSpace(s)
	if strings.HasPrefix(s, "[") {
		j := matchParen(s, 0)
		c.props = strings.Fields(s[1:j])
		s = strings.TrimSpace(s[j+1:])
	}
	if i := strings.Index(s, ":"); i > 0 && i+1 < len(s) && s[i+1] != ':' {
		lab := s[:i]
		ok := true
		for _, r := range lab {
			if !(r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '_' || r == '-') {
				ok = false
			}
		}
		if ok {
			c.label = lab
			s = strings.TrimSpace(s[i+1:])
		}
	}
	c.text = s
	c.e = parseSpec(s, pos)
	if c.label == "" {
		c.label = strings.TrimSuffix(pos[strings.LastIndex(pos, ":")+1:], "")
		c.label = "L" + c.label
	}
	return c
}

func (v *Verifier) parseClause(c *Contract, s, pos string) {
	w, r := firstWord(s)
	switch w {
	case "props":
		c.Props = append(c.Props, strings.Fields(r)...)
	case "requires":
		c.Req = append(c.Req, mkClause(r, pos))
	case "captured":
		c.Captured = append(c.Captured, mkClause(r, pos))
	case "ensures":
		c.Ens = append(c.Ens, mkClause(r, pos))
		if strings.Contains(r, "fresh(") {
			c.New = true // a result made by the call is younger than the caller's memory
		}
	case "ensures_panic":
		c.EnsPanic = append(c.EnsPanic, mkClause(r, pos))
		c.MayPanic = true
	case "let":
		i := strings.Index(r, "=")
		c.lets = append(c.lets, Clause{label: strings.TrimSpace(r[:i]), e: parseSpec(r[i+1:], pos), pos: pos})
	case "effect", "begin":
		i := strings.Index(r, "=")
		cl := Clause{label: strings.TrimSpace(r[:i]), e: parseSpec(r[i+1:], pos), text: r, pos: pos}
		if w == "effect" {
			c.effects = append(c.effects, cl)
			c.Ens = append(c.Ens, Clause{label: "effect-" + cl.label, text: cl.label + " == (" + r[i+1:] + ")", e: parseSpec(cl.label+" == ("+r[i+1:]+")", pos), pos: pos})
		} else {
			c.begins = append(c.begins, cl)
		}
		c.Mods = append(c.Mods, cl.label)
	case "modifies":
		for _, m := range splitTop(r, ',') {
			c.Mods = append(c.Mods, strings.TrimSpace(m))
		}
	case "keeps":
		for _, m := range splitTop(r, ',') {
			c.Keeps = append(c.Keeps, strings.TrimSpace(m))
		}
	case "new":
		c.New = true
	case "panics":
		cl := mkClause(strings.TrimPrefix(r, "when "), pos)
		c.PanWhen = &cl
	case "panics_only":
		cl := mkClause(strings.TrimPrefix(r, "when "), pos)
		c.PanOnly = &cl
		c.MayPanic = true
	case "maypanic":
		c.MayPanic = true
	case "inv":
		ic := InvClause{pos: pos, text: r}
		if strings.HasPrefix(r, "[") {
			j := matchParen(r, 0)
			ic.vars = parseVars(r[1:j])
			r = strings.TrimSpace(r[j+1:])
		}
		ic.e = parseSpec(r, pos)
		c.Inv = append(c.Inv, ic)
	case "decreases":
		c.Decr = append(c.Decr, mkClause(r, pos))
	case "merge":
		c.Merge = true
	case "calls":
		c.Calls = r
	case "split":
		c.Split = true
	case "trusted":
		c.NoBody = true
		c.Why = r
	case "driver":
		c.Driver = true
		c.NoFrame = true
	case "inline":
		c.Inline = true
	case "noframe":
		c.NoFrame = true
	case "noauto":
		c.noauto = true
	case "use":
		c.uses = append(c.uses, strings.Fields(r)...)
	case "opaque":
		c.Opaque = append(c.Opaque, strings.Fields(r)...)
	case "paths":
		fmt.Sscan(r, &c.Paths)
	case "fuel":
		fmt.Sscan(r, &c.Fuel)
	case "unroll":
		fmt.Sscan(r, &c.Unroll)
	case "timeout":
		fmt.Sscan(r, &c.Timeout)
	default:
		panic(specErr(pos, "clause %q not allowed here", w))
	}
}

func (v *Verifier) specFn(n string, pkg *types.Package) (*SpecFn, bool) {
	f, ok := v.specFns[n]
	return f, ok
}

// bindParams gives the environment for a contract
func (c *Contract) bind(v *Verifier, x *Exec, sig *types.Signature, recv types.Type, args []*Term) *SEnv {
	e := &SEnv{v: v, x: x, pkg: c.pkg, vars: map[string]SVal{}, pos: c.pos}
	var ts []types.Type
	if recv != nil {
		ts = append(ts, recv)
	}
	for i := 0; i < sig.Params().Len(); i++ {
		ts = append(ts, sig.Params().At(i).Type())
	}
	if len(c.Params) != len(ts) {
		panic(specErr(c.pos, "contract of %s names %d parameters, the function has %d", c.Key, len(c.Params), len(ts)))
	}
	for i, n := range c.Params {
		if n != "_" {
			e.vars[n] = SVal{t: args[i], typ: ts[i]}
		}
	}
	return e
}

func (c *Contract) bindResults(e *SEnv, sig *types.Signature, res []*Term) *SEnv {
	if len(c.Results) != 0 && len(c.Results) != sig.Results().Len() {
		panic(specErr(c.pos, "contract of %s names %d results, the function has %d", c.Key, len(c.Results), sig.Results().Len()))
	}
	for i, n := range c.Results {
		if n != "_" {
			e = e.with(n, SVal{t: res[i], typ: sig.Results().At(i).Type()})
		}
	}
	return e
}

func recvType(fn *ssa.Function) types.Type {
	if r := fn.Signature.Recv(); r != nil {
		return r.Type()
	}
	return nil
}
