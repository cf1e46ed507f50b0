package config_test

import (
	"errors"
	"fmt"
	"io"
	"strings"
	"testing"

	"github.com/wujiu2020/strip/config"
	"github.com/wujiu2020/strip/zzverif/vh"
)

// oracle10 reads a configuration by the rules the property states, line by line
func oracle10(text string) (data map[string]map[string]string, fails bool) {
	data = map[string]map[string]string{}
	set := func(sec, k, v string) {
		if sec == "" {
			sec = "default"
		}
		if data[sec] == nil {
			data[sec] = map[string]string{}
		}
		if k != "" {
			data[sec][k] = v
		}
	}
	text = strings.TrimPrefix(text, "\xef\xbb\xbf")
	sec, count := "", 1
	for _, l := range strings.Split(text, "\n") {
		l = strings.TrimSpace(l)
		if l == "" || l[0] == '#' || l[0] == ';' {
			continue
		}
		if l[0] == '[' && l[len(l)-1] == ']' {
			sec = strings.TrimSpace(l[1 : len(l)-1])
			if sec == "" {
				return data, true
			}
			set(sec, "", "")
			count = 1
			continue
		}
		q := ""
		if l[0] == '`' {
			q = "`"
		}
		if l[0] == '"' {
			q = "\""
			if len(l) >= 6 && strings.HasPrefix(l, `"""`) {
				q = `"""`
			}
		}
		key, rest := "", ""
		if q != "" {
			e := strings.Index(l[len(q):], q)
			if e < 0 {
				return data, true
			}
			key = l[len(q) : len(q)+e]
			after := l[len(q)+e:]
			s := strings.IndexAny(after, "=:")
			if s < 0 {
				return data, true
			}
			rest = after[s+1:]
		} else {
			s := strings.IndexAny(l, "=:")
			if s <= 0 {
				return data, true
			}
			key, rest = strings.TrimSpace(l[:s]), l[s+1:]
		}
		if key == "-" {
			key = fmt.Sprintf("#%d", count)
			count++
		}
		rest = strings.TrimSpace(rest)
		vq := ""
		if len(rest) >= 2 && rest[0] == '`' {
			vq = "`"
		} else if len(rest) >= 6 && strings.HasPrefix(rest, `"""`) {
			vq = `"""`
		}
		val := rest
		if vq != "" {
			e := strings.LastIndex(rest[len(vq):], vq)
			if e < 0 {
				return data, true
			}
			val = rest[len(vq):][:e]
		}
		set(sec, key, val)
	}
	return data, false
}

// chunks delivers its text in pieces and can fail once or for good at a position
type chunks struct {
	text string
	size int
	at   int // position of the error, -1: none
	once bool
	done int
	err  error
	hit  bool
}

func (r *chunks) Read(p []byte) (int, error) {
	if r.at >= 0 && r.done >= r.at && !(r.once && r.hit) {
		r.hit = true
		return 0, r.err
	}
	if r.done >= len(r.text) {
		return 0, io.EOF
	}
	n := r.size
	if n > len(p) {
		n = len(p)
	}
	if n > len(r.text)-r.done {
		n = len(r.text) - r.done
	}
	if r.at > r.done && n > r.at-r.done {
		n = r.at - r.done
	}
	copy(p, r.text[r.done:r.done+n])
	r.done += n
	return n, nil
}

func line10(c *vh.Case) string {
	word := []string{"a", "key", "K y", "-", "x.y", "\"q\"", "`b`", "", "é", "a#b", "0", "#1", "\""}
	val := []string{"v", "two words", "", "`raw`", "`a`b", "`", "\"q\"", `"""t q"""`, `"""`, `"""x`, `""""""`, "x=y", "a:b", "v ; c", "`a` b", "=", "``"}
	sep := []string{"=", ":", " = ", " : ", "", "=="}
	pick := func(s []string) string { return s[c.Intn(len(s))] }
	switch c.Intn(12) {
	case 0:
		return pick([]string{"", "  ", "\t", "\r", "\v"})
	case 1:
		return pick([]string{"# x=1", "; [s]", "#", "  ;a", "#[", "; x"})
	case 2, 3:
		return pick([]string{"[a]", "[b]", "[ a ]", "[default]", "[a]b]", "[x=1]", " [a] ", "[é]"})
	case 4:
		return pick([]string{"[]", "[ ]", "[", "]", "[a", "[]=x", "\"", "\"\"\"", "`", "=", ":", "x", "\"\"\"\"\"\"", "`=", "\"a", "\"a\"", "\"a\"=1", "``=1", "\"\"=x", "`a=b`=c", `"""k"""=v`, `"""k""=v`, `"""""=v`, "[=", "-=", "-:x"})
	case 5:
		b := make([]byte, c.Intn(12))
		for i := range b {
			b[i] = "\"`=:[]#;-a \t\x00\xff\r"[c.Intn(15)]
		}
		return string(b)
	}
	return pick(word) + pick(sep) + pick(val)
}

func TestVerif_P10(t *testing.T) {
	vh.Run(t, "P10", 1, 400000, func(c *vh.Case) {
		var lines []string
		for n := c.Intn(8); n >= 0; n-- {
			lines = append(lines, line10(c))
		}
		text := strings.Join(lines, "\n")
		if c.Intn(3) == 0 {
			text += "\n"
		}
		if c.Intn(6) == 0 {
			text = c.Pick("\xef\xbb\xbf", "\xef\xbb\xbf", "\xef\xbb", "\xef", "\xef\xbb\xbe", "\xef\xbb\xbf\xef\xbb\xbf") + text
		}
		if c.Intn(40) == 0 {
			text += "\nlong=" + strings.Repeat("z", 4090+c.Intn(12)) + "\nlast=1"
		}
		r := &chunks{text: text, size: []int{1, 2, 3, 7, 4096, 1 << 20}[c.Intn(6)], at: -1}
		if c.Intn(4) == 0 {
			r.at = c.Intn(len(text) + 1)
			r.once = c.Intn(2) == 0
			r.err = errors.New("disk failed")
			if c.Intn(4) == 0 {
				r.err = io.ErrUnexpectedEOF
			}
		}
		c.Log("text %q chunk %d error at %d once %v", text, r.size, r.at, r.once)
		var cfg config.Configer
		var err error
		p, stack, bad := vh.Panics(func() { cfg, err = config.LoadIniFromReader(r) })
		c.Check(!bad, "loading panics: %v %s", p, stack)
		want, fails := oracle10(text)
		if r.hit {
			// a malformed line before the error may be reported instead
			_, badBefore := oracle10(text[:strings.LastIndex(text[:r.at], "\n")+1])
			c.Check(err == r.err || err != nil && badBefore, "read error %v was not returned: got %v", r.err, err)
			return
		}
		c.Check((err != nil) == fails, "load error %v, want failure %v", err, fails)
		if err != nil || fails {
			return
		}
		secs := map[string]bool{"default": true, "a": true, "b": true, "a]b": true, "x=1": true, "é": true, "": true}
		for s := range want {
			secs[s] = true
		}
		for s := range secs {
			got := cfg.ListSection(s)
			w, ok := want[s]
			c.Check((got != nil) == ok && len(got) == len(w), "section %q = %q, want %q (present %v)", s, got, w, ok)
			for k, v := range w {
				g, has := got[k]
				c.Check(has && g == v, "section %q key %q = %q (present %v), want %q", s, k, g, has, v)
			}
		}
	})
}
