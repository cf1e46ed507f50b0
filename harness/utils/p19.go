package utils_test

import (
	"bytes"
	"math/big"
	"strconv"
	"strings"
	"testing"

	"github.com/wujiu2020/strip/utils"
	"github.com/wujiu2020/strip/zzverif/vh"
)

func p19alphabet(c *vh.Case, min int) []byte {
	var all []byte
	for i := 0; i < 256; i++ {
		all = append(all, byte(i))
	}
	for i := range all {
		j := i + c.Intn(len(all)-i)
		all[i], all[j] = all[j], all[i]
	}
	n := []int{1, 2, 3, 10, 36, 62, 127, 128, 129, 255, 256}[c.Intn(11)]
	if n < min {
		n = min
	}
	return all[:n]
}

func TestVerif_P19_code(t *testing.T) {
	vh.Run(t, "P19", 1, 0, func(c *vh.Case) {
		a := p19alphabet(c, 2)
		if c.Bool() {
			a = utils.DefaultAlphabets
		}
		n := c.Pick("0", "1", strconv.Itoa(c.Intn(1000)), strconv.Itoa(len(a)), strconv.Itoa(len(a)*len(a)), strconv.Itoa(len(a)-1), "9223372036854775807", "18446744073709551616", strings.TrimLeft(c.Str("0123456789", 60), "0"), "00"+strconv.Itoa(c.Intn(99)))
		if n == "" {
			n = "0"
		}
		code := utils.NumberEncode(n, a)
		back := utils.NumberDecode(code, a)
		c.Log("%s over %d bytes: %q, back %s", n, len(a), code, back)
		x, _ := new(big.Int).SetString(n, 10)
		c.Check(back == x.String(), "decoded %s, want %s", back, x)
		if x.Sign() > 0 {
			c.Check(utils.NumberDecode(utils.DefaultNumberEncode(n), utils.DefaultAlphabets) == x.String(), "the default alphabet")
		}
		for i := 0; i < len(code); i++ {
			c.Check(bytes.IndexByte(a, code[i]) >= 0, "the code has the byte %d", code[i])
		}
	})
}

func TestVerif_P19_random(t *testing.T) {
	vh.Run(t, "P19", 1, 0, func(c *vh.Case) {
		a := p19alphabet(c, 1)
		n := c.Intn(70)
		c.Log("%d of %d letters", n, len(a))
		var b []byte
		var s string
		var err, err2 error
		if v, stack, ok := vh.Panics(func() {
			b, err = utils.RandomCreateBytes(n, a...)
			s, err2 = utils.RandomCreateString(n, a...)
		}); ok {
			c.Fail("panic %v\n%s", v, stack)
		}
		c.Check(err == nil && err2 == nil && len(b) == n && len(s) == n, "lengths %d %d", len(b), len(s))
		for _, x := range append(b, s...) {
			c.Check(bytes.IndexByte(a, x) >= 0, "the token has the byte %d", x)
		}
		m := utils.MustRandomCreateString(n) + string(utils.MustRandomCreateBytes(n))
		c.Check(len(m) == 2*n && strings.Trim(m, string(utils.DefaultAlphabets)) == "", "the default token %q", m)
	})
}
