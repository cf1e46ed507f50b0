// Package vh drives the bounded runs that stand beside the proofs: seeded random cases against an oracle,
// used to replay or find failing inputs on the real code.
package vh

import (
	"fmt"
	"math/big"
	"math/rand"
	"os"
	"reflect"
	"runtime/debug"
	"strconv"
	"strings"
	"testing"
	"time"
)

type Case struct {
	*rand.Rand
	N    int
	log  []string
	note string
}

type failure struct{ msg string }

func (c *Case) Log(f string, a ...interface{}) {
	if len(c.log) < 400 {
		c.log = append(c.log, fmt.Sprintf(f, a...))
	}
}

func (c *Case) Fail(f string, a ...interface{}) { panic(failure{fmt.Sprintf(f, a...)}) }

func (c *Case) Check(ok bool, f string, a ...interface{}) {
	if !ok {
		c.Fail(f, a...)
	}
}

func (c *Case) Bool() bool { return c.Intn(2) == 0 }

// Pick returns one of the strings
func (c *Case) Pick(s ...string) string { return s[c.Intn(len(s))] }

// Str returns a random string over an alphabet
func (c *Case) Str(alpha string, max int) string {
	n := c.Intn(max + 1)
	b := make([]byte, n)
	for i := range b {
		b[i] = alpha[c.Intn(len(alpha))]
	}
	return string(b)
}

func Seed() int64 {
	n, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		return 1
	}
	return n
}

func Budget() time.Duration {
	n, err := strconv.Atoi(os.Getenv("VERIF_BUDGET_MS"))
	if err != nil {
		n = 3000
	}
	return time.Duration(n) * time.Millisecond
}

// Panics runs f and gives the recovered value
func Panics(f func()) (v interface{}, stack string, ok bool) {
	defer func() {
		if e := recover(); e != nil {
			if fl, is := e.(failure); is {
				panic(fl)
			}
			v, ok, stack = e, true, string(debug.Stack())
		}
	}()
	f()
	return
}

func one(c *Case, f func(*Case)) (msg string, bad bool) {
	defer func() {
		if e := recover(); e != nil {
			bad = true
			if fl, is := e.(failure); is {
				msg = fl.msg
				return
			}
			st := string(debug.Stack())
			if len(st) > 3000 {
				st = st[:3000]
			}
			msg = fmt.Sprintf("unexpected panic: %v\n%s", e, st)
		}
	}()
	f(c)
	return
}

// Run runs f on seeded cases until the time budget (divided by share) is used up or max cases are done
func Run(t *testing.T, name string, share int, max int, f func(*Case)) {
	if share < 1 {
		share = 1
	}
	end := time.Now().Add(Budget() / time.Duration(share))
	seed := Seed()
	n := 0
	for ; (max <= 0 || n < max) && (n < 3 || time.Now().Before(end)); n++ {
		c := &Case{Rand: rand.New(rand.NewSource(seed*1000003 + int64(n))), N: n}
		if msg, bad := one(c, f); bad {
			out := fmt.Sprintf("FAILING-INPUT test=%s seed=%d case=%d\n%s\n-- input --\n%s\n", name, seed, n, msg, strings.Join(c.log, "\n"))
			if p := os.Getenv("VERIF_REPLAY"); p != "" {
				fh, err := os.OpenFile(p, os.O_CREATE|os.O_WRONLY|os.O_APPEND, 0644)
				if err == nil {
					fh.WriteString(out)
					fh.Close()
				}
			}
			t.Fatal(out)
		}
	}
	fmt.Printf("VH-CASES %s %d\n", name, n)
}

// NumText returns text that is a number near some width's bounds, or malformed
func NumText(c *Case) string {
	bounds := []string{"0", "127", "128", "129", "255", "256", "257", "32767", "32768", "65535", "65536", "2147483647", "2147483648", "4294967295", "4294967296", "4294967297", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "36893488147419103231", "1", "7", "42"}
	s := bounds[c.Intn(len(bounds))]
	switch c.Intn(8) {
	case 0, 1:
		s = "-" + s
	case 2:
		s = "+" + s
	case 3:
		s = "00" + s
	case 4:
		s += c.Pick(".5", "e2", "x", " ", "_1", "a")
	case 5:
		s = c.Pick("", " ", "0x10", "on", "true", "false", "1", "t", "F", "On", "off", "NaN", "Inf", "1e400", "3.4e39", "1_000", "abc", "-", "+", "--1", "\x00", "é", "[1]", "1,2", "a, b,,c")
	}
	return s
}

// IntText tells whether s denotes an integer that fits and which
func IntText(s string, signed bool, bits uint) (*big.Int, bool) {
	d := s
	neg := false
	if signed && d != "" && (d[0] == '-' || d[0] == '+') {
		neg = d[0] == '-'
		d = d[1:]
	}
	if d == "" {
		return nil, false
	}
	n := new(big.Int)
	for i := 0; i < len(d); i++ {
		if d[i] < '0' || d[i] > '9' {
			return nil, false
		}
		n.Mul(n, big.NewInt(10))
		n.Add(n, big.NewInt(int64(d[i]-'0')))
	}
	if neg {
		n.Neg(n)
	}
	lo, hi := new(big.Int), new(big.Int)
	if signed {
		hi.Lsh(big.NewInt(1), bits-1)
		lo.Neg(hi)
		hi.Sub(hi, big.NewInt(1))
	} else {
		hi.Lsh(big.NewInt(1), bits)
		hi.Sub(hi, big.NewInt(1))
	}
	if n.Cmp(lo) < 0 || n.Cmp(hi) > 0 {
		return nil, false
	}
	return n, true
}

// TextAs is what text denotes as type t (no pointers), if anything
func TextAs(s string, t reflect.Type) (reflect.Value, bool) {
	v := reflect.New(t).Elem()
	switch k := t.Kind(); k {
	case reflect.Bool:
		switch s {
		case "1", "t", "T", "TRUE", "true", "True", "on":
			v.SetBool(true)
			return v, true
		case "0", "f", "F", "FALSE", "false", "False":
			return v, true
		}
		return v, false
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		n, ok := IntText(s, true, uint(t.Bits()))
		if ok {
			v.SetInt(n.Int64())
		}
		return v, ok
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		n, ok := IntText(s, false, uint(t.Bits()))
		if ok {
			v.SetUint(n.Uint64())
		}
		return v, ok
	case reflect.Float32, reflect.Float64:
		f, err := strconv.ParseFloat(s, t.Bits())
		if err == nil {
			v.SetFloat(f)
		}
		return v, err == nil
	case reflect.String:
		v.SetString(s)
		return v, true
	}
	panic("TextAs: " + t.String())
}

// Same compares values, treating NaN as equal to itself
func Same(a, b interface{}) bool {
	return reflect.DeepEqual(a, b) || fmt.Sprintf("%T %v", a, a) == "float64 NaN" && fmt.Sprintf("%T %v", b, b) == "float64 NaN" || fmt.Sprintf("%T %v", a, a) == "float32 NaN" && fmt.Sprintf("%T %v", b, b) == "float32 NaN"
}
