package main

import (
	"fmt"
	"strconv"
	"strings"
	"sync/atomic"
	"unicode"
	"unicode/utf8"

	"github.com/rivo/uniseg"
)

// Op is an operation of an alphabet: what the implementation is fed, and what
// the model does.
type Op struct {
	Spec   string
	Bytes  string
	RW, RH int
	F      func(m *Model)
	Do     func(d *drv) // something else to do

	// how much an operation is announced: set/reset of modes
	VF, VI, VS []int
}

// ---- text

// cellWidths remembers the widths of code points, plus one.
var cellWidths [utf8.MaxRune + 1]atomic.Int32

// cellWidth is the number of columns a code point takes on its own.
func cellWidth(r rune) int {
	if r < 0x300 {
		return 1
	}
	if w := cellWidths[r].Load(); w > 0 {
		return int(w) - 1
	}
	w := max(1, uniseg.StringWidth(string(r)))
	cellWidths[r].Store(int32(w) + 1)
	return w
}

// isMark tells which code points join the character before them.
func isMark(r rune) bool {
	return r >= 0x300 && (r == 0x200d || r >= 0xfe00 && r <= 0xfe0f || unicode.In(r, unicode.Mn, unicode.Me))
}

// segment cuts text into the characters that take a cell each.
func segment(s string, grapheme bool) []Clu {
	var out []Clu
	state := -1
	for len(s) > 0 {
		var t string
		if grapheme {
			t, s, _, state = uniseg.FirstGraphemeClusterInString(s, state)
		} else {
			_, n := utf8.DecodeRuneInString(s)
			t, s = s[:n], s[n:]
		}
		c := Clu{W: 1, Merge: grapheme}
		for _, r := range t {
			c.T += string(r) // what is not UTF-8 becomes U+FFFD
			c.Merge = c.Merge && isMark(r)
		}
		if utf8.RuneCountInString(t) > 1 {
			c.W = max(1, uniseg.StringWidth(t))
		} else {
			for _, r := range t {
				c.W = cellWidth(r)
			}
		}
		out = append(out, c)
	}
	return out
}

func text(s string) *Op {
	return &Op{Spec: "t " + strconv.Quote(s), Bytes: s, F: func(m *Model) {
		for _, c := range segment(s, m.Grapheme) {
			m.put(c)
		}
	}}
}

// ---- controls

func raw(b string) *Op {
	return &Op{Spec: "raw " + strconv.Quote(b), Bytes: b, F: func(m *Model) {}}
}

func resizeOp(w, h int) *Op {
	return &Op{Spec: fmt.Sprintf("resize %d %d", w, h), RW: w, RH: h, F: func(m *Model) { m.resize(w, h) }}
}

// part is the first n bytes of an operation, which do nothing, or the rest.
func part(tail bool, n int, o *Op) *Op {
	if tail {
		return &Op{Spec: fmt.Sprintf("tail %d %s", n, o.Spec), Bytes: o.Bytes[n:], F: o.F}
	}
	return &Op{Spec: fmt.Sprintf("head %d %s", n, o.Spec), Bytes: o.Bytes[:n], F: func(m *Model) {}}
}

const omit = -1

var huge = 1 << 62

// num is a parameter as the model understands it.
func num(s string) int {
	if s == "-" {
		return omit
	}
	n, err := strconv.Atoi(s)
	if err != nil || n > 1<<24 {
		return 1 << 24
	}
	return n
}

func arg(a []int, i, def int) int {
	if i >= len(a) || a[i] == omit {
		return def
	}
	return a[i]
}

var c0ops = map[string]struct {
	b string
	f func(m *Model)
}{
	"BS":    {"\b", (*Model).bs},
	"DEL":   {"\x7f", (*Model).bs},
	"HT":    {"\t", (*Model).ht},
	"LF":    {"\n", (*Model).lf},
	"CR":    {"\r", (*Model).cr},
	"FF":    {"\f", (*Model).index},
	"IND":   {"\x1bD", (*Model).index},
	"RI":    {"\x1bM", (*Model).ri},
	"NUL":   {"\x00", func(m *Model) {}},
	"BEL":   {"\a", func(m *Model) { m.Bells++ }},
	"SAVE":  {"\x1b[s", (*Model).save},
	"REST":  {"\x1b[u", (*Model).restore},
	"KPAM":  {"\x1b=", func(m *Model) { m.VF[vfAppKeypad] = true }},
	"KPNM":  {"\x1b>", func(m *Model) { m.VF[vfAppKeypad] = false }},
	"QKBD":  {"\x1b[?u", func(m *Model) { m.reply("\x1b[?%du", m.s().KF) }},
	"DA":    {"\x1b[c", func(m *Model) { m.reply("\x1b[?1;2c") }},
	"DA0":   {"\x1b[0c", func(m *Model) { m.reply("\x1b[?1;2c") }},
	"DA2":   {"\x1b[>c", func(m *Model) { m.reply("\x1b[>1;4402;0c") }},
	"DA20":  {"\x1b[>0c", func(m *Model) { m.reply("\x1b[>1;4402;0c") }},
	"DSR":   {"\x1b[5n", func(m *Model) { m.reply("\x1b[0n") }},
	"CPR":   {"\x1b[6n", func(m *Model) { m.reply("\x1b[%d;%dR", m.s().CY+1, m.s().CX+1) }},
	"ALT":   {"\x1b[?1049h", func(m *Model) { m.decset(1049, true) }},
	"MAIN":  {"\x1b[?1049l", func(m *Model) { m.decset(1049, false) }},
	"WRAP":  {"\x1b[?7h", func(m *Model) { m.decset(7, true) }},
	"NWRAP": {"\x1b[?7l", func(m *Model) { m.decset(7, false) }},
}

func (m *Model) reply(f string, a ...any) { m.Reply += fmt.Sprintf(f, a...) }

var csiops = map[string]func(m *Model, a []int){
	"A": func(m *Model, a []int) { m.rel(0, -arg(a, 0, 1)) },
	"B": func(m *Model, a []int) { m.rel(0, arg(a, 0, 1)) },
	"C": func(m *Model, a []int) { m.rel(arg(a, 0, 1), 0) },
	"D": func(m *Model, a []int) { m.rel(-arg(a, 0, 1), 0) },
	"G": func(m *Model, a []int) { m.at(arg(a, 0, 1)-1, m.s().CY) },
	"d": func(m *Model, a []int) { m.at(m.s().CX, arg(a, 0, 1)-1) },
	"H": func(m *Model, a []int) { m.at(arg(a, 1, 1)-1, arg(a, 0, 1)-1) },
	"f": func(m *Model, a []int) { m.at(arg(a, 1, 1)-1, arg(a, 0, 1)-1) },
	"J": func(m *Model, a []int) { m.ed(arg(a, 0, 0)) },
	"K": func(m *Model, a []int) { m.el(arg(a, 0, 0)) },
	"X": func(m *Model, a []int) { m.ech(arg(a, 0, 1)) },
	"P": func(m *Model, a []int) { m.dch(arg(a, 0, 1)) },
	"S": func(m *Model, a []int) { m.su(arg(a, 0, 1)) },
	"T": func(m *Model, a []int) { m.sd(arg(a, 0, 1)) },
	"L": func(m *Model, a []int) { m.il(arg(a, 0, 1)) },
	"M": func(m *Model, a []int) { m.dl(arg(a, 0, 1)) },
	"r": func(m *Model, a []int) { m.stbm(arg(a, 0, 0), arg(a, 1, 0)) },
	"m": func(m *Model, a []int) {
		p := append([]int(nil), a...)
		for i := range p {
			if p[i] == omit {
				p[i] = 0
			}
		}
		m.sgr(p)
	},
	"?h": func(m *Model, a []int) {
		for _, p := range a {
			m.decset(p, true)
		}
	},
	"?l": func(m *Model, a []int) {
		for _, p := range a {
			m.decset(p, false)
		}
	},
	"=u": func(m *Model, a []int) { m.kset(arg(a, 0, 0), arg(a, 1, 1)) },
	">u": func(m *Model, a []int) { m.kpush(arg(a, 0, 0)) },
	"<u": func(m *Model, a []int) { m.kpop(arg(a, 0, 1)) },
	">m": func(m *Model, a []int) {
		if arg(a, 0, 0) == 4 {
			m.VI[viModKeys] = arg(a, 1, 0)
		}
	},
}

// op builds an operation from its specification, such as "H 3 4" or "LF".
func op(spec string) *Op {
	if kind, rest, _ := strings.Cut(spec, " "); kind == "head" || kind == "tail" {
		n, of, _ := strings.Cut(rest, " ")
		return part(kind == "tail", num(n), op(of))
	}
	if parts := strings.Split(spec, " | "); len(parts) > 1 {
		return seq(opsOf(parts...)...)
	}
	name, rest, _ := strings.Cut(spec, " ")
	switch name {
	case "t":
		s, err := strconv.Unquote(rest)
		if err != nil {
			panic("bad op " + spec)
		}
		return text(s)
	case "raw":
		s, err := strconv.Unquote(rest)
		if err != nil {
			panic("bad op " + spec)
		}
		return raw(s)
	case "resize":
		var w, h int
		fmt.Sscan(rest, &w, &h)
		return resizeOp(w, h)
	case "osc", "oscst":
		n, payload, _ := strings.Cut(rest, " ")
		s, err := strconv.Unquote(payload)
		if err != nil {
			panic("bad op " + spec)
		}
		end := "\a"
		if name == "oscst" {
			end = "\x1b\\"
		}
		o := &Op{Spec: spec, Bytes: "\x1b]" + n + ";" + s + end}
		k := map[string]int{"0": vsTitle, "2": vsTitle, "6": vsDir, "7": vsFile}
		i, known := k[n]
		o.F = func(m *Model) {
			if known {
				m.VS[i] = s
				m.VSN[i]++
			}
		}
		return o
	}
	if c, ok := c0ops[spec]; ok {
		return &Op{Spec: spec, Bytes: c.b, F: c.f}
	}
	f, ok := csiops[name]
	if !ok {
		panic("bad op " + spec)
	}
	var a []int
	var ps []string
	if rest != "" {
		for _, x := range strings.Split(rest, " ") {
			a = append(a, num(x))
			if x == "-" {
				x = ""
			}
			ps = append(ps, x)
		}
	}
	b := "\x1b["
	if len(name) > 1 {
		b += name[:1]
	}
	b += strings.Join(ps, ";") + name[len(name)-1:]
	return &Op{Spec: spec, Bytes: b, F: func(m *Model) { f(m, a) }}
}

func opsOf(specs ...string) []*Op {
	out := make([]*Op, len(specs))
	for i, s := range specs {
		out[i] = op(s)
	}
	return out
}

// texts makes text operations.
func texts(ss ...string) []*Op {
	var out []*Op
	for _, s := range ss {
		out = append(out, text(s))
	}
	return out
}

func specs(ops []*Op) []string {
	out := make([]string, len(ops))
	for i, o := range ops {
		out[i] = o.Spec
	}
	return out
}

// seq joins operations into one, which arrives in a single read.
func seq(ops ...*Op) *Op {
	o := &Op{Spec: strings.Join(specs(ops), " | ")}
	for _, x := range ops {
		if x.RW > 0 || x.Do != nil {
			panic("not a sequence of bytes: " + o.Spec)
		}
		o.Bytes += x.Bytes
	}
	o.F = func(m *Model) {
		for _, x := range ops {
			x.F(m)
		}
	}
	return o
}
