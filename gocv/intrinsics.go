package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type intrinsic func(x *Exec, st *State, fn *ssa.Function, args []*Term, pos token.Pos, depth int) []Outcome

var intrinsics map[string]intrinsic

func noop(x *Exec, st *State, fn *ssa.Function, args []*Term, pos token.Pos, depth int) []Outcome {
	x.assumptions["locks are taken and released without effect on data (sequential execution of each verified function)"] = true
	return x.one(st)
}

var onceKey = memInfo("F:sync.Once.done", "F", ArraySort(SRef, SBool), types.Typ[types.Bool], nil)

func init() {
	intrinsics = map[string]intrinsic{}
	for _, n := range []string{"(*sync.Mutex).Lock", "(*sync.Mutex).Unlock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RLock", "(*sync.RWMutex).RUnlock"} {
		intrinsics[n] = noop
	}
	intrinsics["(*sync.Once).Do"] = func(x *Exec, st *State, fn *ssa.Function, args []*Term, pos token.Pos, depth int) []Outcome {
		o := args[0]
		d := Select(st.get(onceKey), o)
		return x.fork(st, d, func(s *State) []Outcome { return x.one(s) }, func(s *State) []Outcome {
			// done is set also when f panics; f does not re-enter the same Once (it would deadlock)
			s.set(onceKey, Store(s.get(onceKey), o, True))
			return x.callValue(s, args[1], fn.Signature.Params().At(0).Type(), nil, pos, depth)
		})
	}
	intrinsics["sync/atomic.AddInt64"] = func(x *Exec, st *State, fn *ssa.Function, args []*Term, pos token.Pos, depth int) []Outcome {
		t := deref(fn.Signature.Params().At(0).Type())
		x.nonNil(st, args[0], pos, "atomic")
		v := wrapInt(t, Add(x.load(st, args[0], t), args[1]))
		x.store(st, args[0], t, v)
		return x.one(st, v)
	}
	for _, n := range []string{"AddInt32", "AddUint32", "AddUint64"} {
		intrinsics["sync/atomic."+n] = intrinsics["sync/atomic.AddInt64"]
	}
	ld := func(x *Exec, st *State, fn *ssa.Function, args []*Term, pos token.Pos, depth int) []Outcome {
		t := deref(fn.Signature.Params().At(0).Type())
		x.nonNil(st, args[0], pos, "atomic")
		return x.one(st, x.load(st, args[0], t))
	}
	sto := func(x *Exec, st *State, fn *ssa.Function, args []*Term, pos token.Pos, depth int) []Outcome {
		t := deref(fn.Signature.Params().At(0).Type())
		x.nonNil(st, args[0], pos, "atomic")
		x.store(st, args[0], t, args[1])
		return x.one(st)
	}
	for _, n := range []string{"Int32", "Int64", "Uint32", "Uint64"} {
		intrinsics["sync/atomic.Load"+n] = ld
		intrinsics["sync/atomic.Store"+n] = sto
	}
	intrinsics["time.Now"] = func(x *Exec, st *State, fn *ssa.Function, args []*Term, pos token.Pos, depth int) []Outcome {
		return x.one(st, x.freshVal(st, "now", fn.Signature.Results().At(0).Type()))
	}
	intrinsics["time.Since"] = func(x *Exec, st *State, fn *ssa.Function, args []*Term, pos token.Pos, depth int) []Outcome {
		return x.one(st, x.freshVal(st, "since", fn.Signature.Results().At(0).Type()))
	}
	intrinsics["errors.New"] = func(x *Exec, st *State, fn *ssa.Function, args []*Term, pos token.Pos, depth int) []Outcome {
		o := x.newObj(st)
		st.assume(Eq(raw("u:errtext", SStr, o), args[0]))
		return x.one(st, Box("*errors.errorString", o))
	}
	intrinsics["strings.HasPrefix"] = func(x *Exec, st *State, fn *ssa.Function, args []*Term, pos token.Pos, depth int) []Outcome {
		return x.one(st, StrOp("str.prefixof", SBool, args[1], args[0]))
	}
	intrinsics["strings.HasSuffix"] = func(x *Exec, st *State, fn *ssa.Function, args []*Term, pos token.Pos, depth int) []Outcome {
		return x.one(st, StrOp("str.suffixof", SBool, args[1], args[0]))
	}
	intrinsics["strings.Contains"] = func(x *Exec, st *State, fn *ssa.Function, args []*Term, pos token.Pos, depth int) []Outcome {
		return x.one(st, StrOp("str.contains", SBool, args[0], args[1]))
	}
	intrinsics["strings.Index"] = func(x *Exec, st *State, fn *ssa.Function, args []*Term, pos token.Pos, depth int) []Outcome {
		return x.one(st, StrOp("str.indexof", SInt, args[0], args[1], IntLit(0)))
	}
	intrinsics["strings.IndexByte"] = func(x *Exec, st *State, fn *ssa.Function, args []*Term, pos token.Pos, depth int) []Outcome {
		if args[1].isLit() {
			return x.one(st, StrOp("str.indexof", SInt, args[0], StrLit(string([]byte{byte(args[1].ival)})), IntLit(0)))
		}
		r := raw("u:indexbyte", SInt, args[0], args[1])
		st.assume(And(Le(IntLit(-1), r), Lt(r, StrOp("str.len", SInt, args[0]))))
		return x.one(st, r)
	}
	intrinsics["strings.TrimSuffix"] = func(x *Exec, st *State, fn *ssa.Function, args []*Term, pos token.Pos, depth int) []Outcome {
		l := StrOp("str.len", SInt, args[0])
		return x.one(st, Ite(StrOp("str.suffixof", SBool, args[1], args[0]), StrOp("str.substr", SStr, args[0], IntLit(0), Sub(l, StrOp("str.len", SInt, args[1]))), args[0]))
	}
	intrinsics["strings.TrimPrefix"] = func(x *Exec, st *State, fn *ssa.Function, args []*Term, pos token.Pos, depth int) []Outcome {
		l, n := StrOp("str.len", SInt, args[0]), StrOp("str.len", SInt, args[1])
		return x.one(st, Ite(StrOp("str.prefixof", SBool, args[1], args[0]), StrOp("str.substr", SStr, args[0], n, Sub(l, n)), args[0]))
	}
	intrinsics["os.Exit"] = func(x *Exec, st *State, fn *ssa.Function, args []*Term, pos token.Pos, depth int) []Outcome {
		return nil
	}
}

// whole packages whose exported functions are treated as uninterpreted pure functions
var purePkgs = map[string]bool{
	"strings": true, "strconv": true, "path": true, "unicode": true, "unicode/utf8": true, "html": true, "math": true,
	"encoding/hex": true, "mime": true, "net/url": true, "path/filepath": true, "crypto/subtle": true,
}

var pureFns = map[string]bool{
	"fmt.Sprintf": true, "fmt.Errorf": true, "fmt.Sprint": true, "fmt.Sprintln": true,
	"net/http.StatusText": true, "net/http.CanonicalHeaderKey": true, "net/textproto.CanonicalMIMEHeaderKey": true,
	"(*encoding/base64.Encoding).EncodeToString": true, "(*encoding/base64.Encoding).DecodeString": true,
	"(time.Time).Unix": true, "(time.Time).UnixNano": true, "(time.Time).Add": true, "(time.Time).Sub": true, "(time.Time).Before": true, "(time.Time).After": true,
	"(time.Time).Equal": true, "(time.Time).UTC": true, "(time.Time).Format": true, "(time.Time).IsZero": true, "(time.Time).AddDate": true, "(time.Time).Local": true,
	"time.Unix": true, "time.Parse": true, "time.ParseDuration": true, "time.ParseInLocation": true,
	"(time.Duration).Seconds": true, "(time.Duration).String": true, "(time.Duration).Nanoseconds": true, "(time.Duration).Minutes": true,
	"reflect.TypeOf": true, "reflect.DeepEqual": true, "bytes.Equal": true, "bytes.HasPrefix": true, "bytes.Index": true,
	"encoding/json.Valid": true, "(net/url.Values).Encode": true, "(*net/url.URL).String": true,
	"errors.Is": true, "runtime.Caller": true, "os.IsNotExist": true, "(*net/url.URL).RequestURI": true,
	"(reflect.Value).Kind": true, "(reflect.Value).Type": true, "(reflect.Value).IsValid": true, "(reflect.Value).IsNil": true, "reflect.ValueOf": true, "(reflect.Value).CanInterface": true,
	"(reflect.Value).NumField": true, "(reflect.Value).CanSet": true, "reflect.PtrTo": true,
	"(*net/http.Request).UserAgent": true, "(*net/http.Request).Referer": true, "net.SplitHostPort": true, "net.ParseIP": true,
}

var pureIfaces = map[string]bool{
	"(error).Error": true, "(reflect.Type).Elem": true, "(reflect.Type).Kind": true, "(reflect.Type).String": true, "(reflect.Type).Name": true, "(reflect.Type).PkgPath": true,
	"(reflect.Type).NumField": true, "(reflect.Type).NumIn": true, "(reflect.Type).NumOut": true, "(reflect.Type).In": true, "(reflect.Type).Out": true, "(reflect.Type).Implements": true, "(reflect.Type).AssignableTo": true, "(reflect.Type).ConvertibleTo": true, "(reflect.Type).Bits": true, "(reflect.Type).Key": true, "(reflect.Type).Field": true,
	"(os.FileInfo).IsDir": true, "(os.FileInfo).ModTime": true, "(os.FileInfo).Name": true, "(os.FileInfo).Size": true,
	"(io/fs.FileInfo).IsDir": true, "(io/fs.FileInfo).ModTime": true, "(io/fs.FileInfo).Name": true, "(io/fs.FileInfo).Size": true,
}

func isPureFn(name string) bool {
	if pureFns[name] {
		return true
	}
	if strings.HasPrefix(name, "(") {
		return false
	}
	i := strings.LastIndex(name, ".")
	if i < 0 {
		return false
	}
	if strings.HasPrefix(name[i+1:], "Append") || strings.HasPrefix(name[i+1:], "New") {
		return false
	}
	return purePkgs[name[:i]]
}

func isPureIface(name string) bool { return pureIfaces[name] }

// pureFacts: facts known about results of pure external functions
func pureFacts(x *Exec, st *State, name string, args, res []*Term) []*Term {
	var out []*Term
	switch name {
	case "fmt.Errorf":
		out = append(out, Not(Eq(res[0], NilAny)))
	case "strings.Split":
		out = append(out, Implies(Not(Eq(args[1], StrLit(""))), Le(IntLit(1), SLen(res[0]))))
	case "strings.SplitN":
		out = append(out, Implies(Lt(IntLit(0), args[2]), Le(SLen(res[0]), args[2])))
		out = append(out, Implies(And(Lt(IntLit(0), args[2]), Not(Eq(args[1], StrLit("")))), Le(IntLit(1), SLen(res[0]))))
	case "strings.LastIndex", "strings.LastIndexByte", "strings.IndexAny", "strings.IndexRune", "strings.IndexFunc":
		out = append(out, Le(IntLit(-1), res[0]), Le(res[0], StrOp("str.len", SInt, args[0])))
		if name == "strings.LastIndex" {
			out = append(out, Implies(Le(IntLit(0), res[0]), Le(Add(res[0], StrOp("str.len", SInt, args[1])), StrOp("str.len", SInt, args[0]))))
		} else {
			out = append(out, Implies(Le(IntLit(0), res[0]), Lt(res[0], StrOp("str.len", SInt, args[0]))))
		}
	case "(reflect.Type).Elem", "(reflect.Type).In", "(reflect.Type).Out", "(reflect.Type).Key", "(reflect.Value).Type":
		out = append(out, Not(Eq(res[0], NilAny)))
	case "reflect.TypeOf":
		out = append(out, Eq(Eq(res[0], NilAny), Eq(args[0], NilAny)))
	case "(reflect.Type).NumIn", "(reflect.Type).NumOut", "(reflect.Type).NumField", "(reflect.Value).NumField":
		out = append(out, Le(IntLit(0), res[0]))
	case "strings.Repeat":
	}
	return out
}
