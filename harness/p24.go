package strip_test

import (
	"errors"
	"fmt"
	"strings"
	"testing"

	"github.com/wujiu2020/strip"
	"github.com/wujiu2020/strip/zzverif/vh"
)

type p24sink struct{ lines []string }

func (s *p24sink) Print(v ...interface{}) { s.lines = append(s.lines, fmt.Sprint(v...)) }

var p24tags = []string{"", "[EMERGENCY]", "[ALERT]", "[CRITCIAL]", "[ERROR]", "[WARN]", "[NOTICE]", "[INFO]", "[DEBUG]"}

// log a message through the two methods of a level
func p24log(l strip.Logger, level int, f bool, format string, v ...interface{}) {
	ff := []func(string, ...interface{}){nil, l.Emergencyf, l.Alertf, l.Critcialf, l.Errorf, l.Warnf, l.Noticef, l.Infof, l.Debugf}
	fp := []func(...interface{}){nil, l.Emergency, l.Alert, l.Critcial, l.Error, l.Warn, l.Notice, l.Info, l.Debug}
	if f {
		ff[level](format, v...)
	} else {
		fp[level](v...)
	}
}

type p24set struct {
	c      *vh.Case
	sink   *p24sink
	l      strip.LoggerAdv
	id     string
	prefix string
	level  int
	stack  int
	flat   bool
	color  bool
	line   bool
	parser bool
}

func (s *p24set) configure() {
	c, l := s.c, s.l
	switch c.Intn(8) {
	case 0:
		p := c.Str("ab[]: ", 6)
		l.SetPrefix(p)
		c.Log("SetPrefix(%q)", p)
		s.prefix = p
		if s.id != "" {
			s.prefix = "[" + s.id + "]" + p
		}
	case 1:
		s.level = c.Intn(9)
		l.SetLevel(strip.Level(s.level))
		c.Log("SetLevel(%d)", s.level)
	case 2:
		s.flat = c.Bool()
		l.SetFlatLine(s.flat)
		c.Log("SetFlatLine(%v)", s.flat)
	case 3:
		s.color = c.Bool()
		l.SetColorMode(s.color)
		c.Log("SetColorMode(%v)", s.color)
	case 4:
		s.line = c.Bool()
		l.SetLineInfo(s.line)
		c.Log("SetLineInfo(%v)", s.line)
	case 5:
		s.stack = c.Intn(9)
		l.EnableLogStack(strip.Level(s.stack))
		c.Log("EnableLogStack(%d)", s.stack)
	case 6:
		g := c.Intn(9)
		strip.GlobalLevel = strip.Level(g)
		c.Log("GlobalLevel = %d", g)
	case 7:
		s.parser = c.Bool()
		c.Log("SetPrefixParser(%v)", s.parser)
		if !s.parser {
			l.SetPrefixParser(nil)
			break
		}
		l.SetPrefixParser(func(v []interface{}) (string, []interface{}) {
			if len(v) > 0 {
				if t, ok := v[0].(p24tag); ok {
					return "<" + string(t) + ">", v[1:]
				}
			}
			return "", v
		})
	}
}

type p24tag string

func (s *p24set) check(got []string, level int, msg string, tag string, opt strip.LineOpt, hasOpt bool) {
	c := s.c
	passes := level <= s.level && level <= int(strip.GlobalLevel)
	if !passes {
		c.Check(len(got) == 0, "a level %d message was printed under thresholds %d and %d: %q", level, s.level, strip.GlobalLevel, got)
		return
	}
	c.Check(len(got) == 1, "a level %d message under thresholds %d and %d was printed %d times: %q", level, s.level, strip.GlobalLevel, len(got), got)
	text := got[0]
	stack := (s.stack >= level || opt.Stack) && !(len(msg) > 5 && (msg[:5] == "PANIC" || msg[:5] == "STACK"))
	head := p24tags[level] + s.prefix
	if s.parser && tag != "" {
		head += "<" + tag + ">"
	}
	if s.color {
		c.Check(strings.HasPrefix(text, "\x1b"), "colour mode printed %q", text)
		text = text[strings.Index(text, "m")+1:]
	}
	if s.flat {
		c.Check(!strings.Contains(text, "\n"), "flat mode printed several lines: %q", text)
	}
	c.Check(strings.HasPrefix(text, head), "the message %q does not start with its tag and prefix %q", text, head)
	rest := text[len(head):]
	if s.line && !opt.Hidden {
		c.Check(strings.HasPrefix(rest, `["`), "line info is missing: %q", text)
		i := strings.Index(rest, `"]`)
		c.Check(i > 0, "line info is cut: %q", text)
		rest = rest[i+2:]
	}
	if s.color {
		i := strings.Index(rest, "m")
		c.Check(strings.HasPrefix(rest, "\x1b") && i > 0, "the colour is not reset: %q", text)
		rest = rest[i+1:]
	}
	want := " " + msg
	if stack {
		if s.flat {
			want = strings.Replace(want+"\n", "\n", "\\n", -1)
		} else {
			want += "\n"
		}
		c.Check(strings.HasPrefix(rest, want) && len(rest) > len(want)+20, "the message %q has no stack after %q", rest, want)
		return
	}
	if s.flat {
		want = strings.Replace(strings.TrimSuffix(want, "\n"), "\n", "\\n", -1)
	}
	c.Check(rest == want, "the message after the tag and prefix is %q, not %q", rest, want)
}

func p24new(c *vh.Case) *p24set {
	s := &p24set{c: c, sink: &p24sink{}, level: 8, flat: true}
	strip.GlobalLevel = strip.LevelDebug
	if c.Bool() {
		s.id = "r" + c.Str("xy0", 5)
		l := strip.NewReqLogger(s.sink, s.id)
		c.Check(l.ReqId() == s.id, "the request logger's id is %q, not %q", l.ReqId(), s.id)
		c.Log("request logger %q", s.id)
		s.prefix = "[" + s.id + "]"
		adv, ok := l.(strip.LoggerAdv)
		c.Check(ok, "the request logger is not configurable")
		s.l = adv
	} else {
		s.l = strip.NewLogger(s.sink)
		c.Log("logger")
	}
	return s
}

func TestVerif_P24(t *testing.T) {
	defer func(g strip.Level) { strip.GlobalLevel = g }(strip.GlobalLevel)
	vh.Run(t, "P24", 70, 4000, func(c *vh.Case) {
		s := p24new(c)
		for i := c.Intn(10); i >= 0; i-- {
			if c.Intn(3) > 0 {
				s.configure()
				continue
			}
			level := 1 + c.Intn(8)
			words := c.Str("a\n PANIC", 9)
			if c.Intn(4) == 0 {
				words = []string{"PANIC", "STACK", "PANIC!", "STACK: a\nb", "PANI", "\n", ""}[c.Intn(7)]
			}
			tag := ""
			var v []interface{}
			if s.parser && c.Bool() {
				tag = c.Str("tu", 2) + "t"
				v = append(v, p24tag(tag))
			}
			v = append(v, words)
			f := c.Bool()
			msg := words + "\n"
			if f {
				msg = "f:" + words
			}
			if n := c.Intn(3); n == 0 {
				v = append(v, 7)
				msg = strings.TrimSuffix(msg, "\n") + " 7\n"
				if f {
					msg = "f:" + words + ":7"
				}
			}
			format := "f:%s"
			if strings.HasSuffix(msg, ":7") && f {
				format = "f:%s:%d"
			}
			var opt strip.LineOpt
			has := c.Bool()
			if has {
				opt = strip.LineOpt{Stack: c.Bool(), Hidden: c.Bool()}
				v = append(v, opt)
			}
			c.Log("level %d, formatted %v, %q, options %v %+v", level, f, words, has, opt)
			n := len(s.sink.lines)
			p24log(s.l, level, f, format, v...)
			s.check(s.sink.lines[n:], level, msg, tag, opt, has)
		}
	})
}

func TestVerif_P24_recover(t *testing.T) {
	defer func(g strip.Level) { strip.GlobalLevel = g }(strip.GlobalLevel)
	vh.Run(t, "P24", 30, 2000, func(c *vh.Case) {
		s := p24new(c)
		for i := c.Intn(4); i > 0; i-- {
			s.configure()
		}
		level := 4
		var lv []strip.Level
		if c.Bool() {
			level = 1 + c.Intn(8)
			lv = append(lv, strip.Level(level))
			if c.Bool() {
				lv = append(lv, 2)
			}
		}
		var val interface{}
		switch c.Intn(4) {
		case 0:
			val = "went\nwrong"
		case 1:
			val = errors.New("wrong")
		case 2:
			val = 7
		}
		ran := 0
		n := 0
		c.Log("Recover of a panic with %v at level %d", val, level)
		err := s.l.Recover(func() {
			ran++
			if c.Bool() {
				s.l.Alert("inside")
			}
			if c.Intn(3) == 0 {
				s.configure()
			}
			n = len(s.sink.lines)
			if val != nil {
				panic(val)
			}
		}, lv...)
		c.Check(ran == 1, "the function ran %d times", ran)
		c.Check(err == val, "Recover returned %v after a panic with %v", err, val)
		got := s.sink.lines[n:]
		if val == nil {
			c.Check(len(got) == 0, "Recover logged %q with no panic", got)
			return
		}
		s.check(got, level, fmt.Sprintln(val), "", strip.LineOpt{Stack: true}, true)
	})
}
