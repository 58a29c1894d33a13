package main

import (
	"fmt"
	"strconv"
	"strings"
	"time"
	"unicode/utf8"

	tm "github.com/ricochet1k/termemu"
)

func init() { register("C09", "model_checking", 250*time.Second, 40*time.Minute, c09) }

// known are the CSI functions the terminal knows, by prefix and final byte.
const knownCSI = " A B C D G H J K L M P S T X c d f m n r s u ?h ?l ?u >c >u >m <u =u "

// csiEffect gives what a CSI sequence without intermediates does, and whether
// the property settles it.
func csiEffect(prefix, params string, final byte) (f func(m *Model), settled bool) {
	nop := func(m *Model) {}
	name := prefix + string(rune(final))
	if !strings.Contains(knownCSI, " "+name+" ") {
		return nop, true
	}
	if strings.ContainsAny(params, "<=>?") {
		return nop, true
	}
	if strings.Contains(params, ":") {
		return nop, name == "m" // the caller resets the style
	}
	var a []int
	if params != "" {
		for _, s := range strings.Split(params, ";") {
			if s == "" {
				a = append(a, omit)
			} else {
				a = append(a, num(s))
			}
		}
	}
	first := arg(a, 0, 0)
	switch name {
	case "c":
		if first != 0 {
			return nop, true
		}
		return func(m *Model) { m.reply("\x1b[?1;2c") }, true
	case ">c":
		return func(m *Model) { m.reply("\x1b[>1;4402;0c") }, first == 0
	case "n":
		switch first {
		case 5:
			return func(m *Model) { m.reply("\x1b[0n") }, true
		case 6:
			return func(m *Model) { m.reply("\x1b[%d;%dR", m.s().CY+1, m.s().CX+1) }, true
		}
		return nop, true
	case "?u":
		return func(m *Model) { m.reply("\x1b[?%du", m.s().KF) }, params == ""
	case "s":
		return (*Model).save, params == ""
	case "u":
		return (*Model).restore, params == ""
	case "J", "K":
		if first > 2 {
			return nop, first != 3
		}
	case "=u":
		if arg(a, 0, 0) > 31 || arg(a, 1, 1) < 1 || arg(a, 1, 1) > 3 {
			return nop, false
		}
	case ">u":
		if first > 31 {
			return nop, false
		}
	case "<u":
		if params != "" && first == 0 {
			return nop, false
		}
	case ">m":
		if first != 4 || len(a) > 2 || arg(a, 1, 0) > 2 {
			return nop, false
		}
	case "r":
		if len(a) > 1 && a[0] > 1000 && a[1] > 1000 {
			return nop, false
		}
	case "m":
		for i, n := range a {
			if n > 255 && i > 0 {
				return nop, false
			}
		}
	case "?h", "?l":
		for _, n := range a {
			if n > 1<<20 {
				return nop, true
			}
		}
	}
	g, ok := csiops[name]
	if !ok {
		panic("no model of CSI " + name)
	}
	return func(m *Model) { g(m, a) }, true
}

type seqCase struct {
	s string
	f func(m *Model)
}

func c09Cases(c *Check) []seqCase {
	var out []seqCase
	nop := func(m *Model) {}
	add := func(s string, f func(m *Model)) { out = append(out, seqCase{s, f}) }
	long := func(n int) string {
		p := make([]string, n)
		for i := range p {
			p[i] = strconv.Itoa(i + 1)
		}
		return strings.Join(p, ";")
	}
	params := []string{"", "0", "1", "2", "3", "7", "12", "25", "1000", "1049", "65536", "9223372036854775808", "99999999999999999999999", "007", "1;1", "2;2", "0;0", "2;4", ";", ";2", "2;", "3;1", "1;2;3", ";;", ";;;;;;;;;", "7;25", "12;1004;2004",
		"38;5;9", "1;38;2;1;2;3;4", "48;5;1;38;5;2", "31;41;1;4;7;9;53;3;2;92"}
	for n := 4; n <= 20; n++ {
		params = append(params, long(n))
	}
	params = append(params, "0;0;0;0;0;0;0;0;7", strings.Repeat("1;", 8)+"31", strings.Repeat("0;", 16)+"4", strings.Repeat("2004;", 8)+"2004", strings.Repeat("9", 300), strings.Repeat("1;", 200)+"31", strings.Repeat("1;", 5000)+"31", strings.Repeat("9", 70000))
	// numbers which are known ones in a few bits
	for _, base := range []uint64{1 << 7, 1 << 8, 1 << 10, 1 << 12, 1 << 15, 1 << 16, 1 << 31, 1 << 32, 1 << 63} {
		for _, n := range []uint64{0, 1, 4, 6, 25} {
			params = append(params, strconv.FormatUint(base+n, 10))
		}
	}
	params = append(params, "18446744073709551616", "18446744073709551617", "18446744073709551620", "18446744073709551641", "255", "128", "127", "65535", "2147483647", "4294967295", "4294968345", "66585", "18446744073709551615")
	colons := []string{"4:3", ":", "1:2;3", "38:2::1:2:3", "38:5:9", "0;4:3", ":1", "1:", "2;:", "1:1", strings.Repeat("1:", 20) + "1"}
	odd := []string{"1?2", "1<", "2=", ";>", "?", "1;?25", ">4;?"}
	inters := []string{" ", "!", "\"", "#", "$", "%", "&", "'", "(", ")", "*", "+", ",", "-", ".", "/", "  ", "!\"#", "$'/ "}
	for f := byte(0x40); f <= 0x7e; f++ {
		for _, pre := range []string{"", "?", ">", "<", "="} {
			for _, p := range append(append([]string(nil), params...), odd...) {
				if pre == "" && p != "" && p[0] >= '<' {
					continue
				}
				if e, ok := csiEffect(pre, p, f); ok {
					add("\x1b["+pre+p+string(rune(f)), e)
				}
			}
			for _, p := range colons {
				e, ok := csiEffect(pre, p, f)
				if pre == "" && f == 'm' {
					// sub-parameters of SGR may be understood
					add("\x1b["+p+"m\x1b[m", func(m *Model) { m.sgr([]int{0}) })
				} else if ok {
					add("\x1b["+pre+p+string(rune(f)), e)
				}
			}
			for _, in := range inters {
				for _, p := range []string{"", "1", "2;2", "0", "?1", "4:3", long(20), "31"} {
					if pre != "" && p != "" && p[0] == '?' {
						continue
					}
					add("\x1b["+pre+p+in+string(rune(f)), nop)
				}
			}
		}
	}
	// escapes
	for f := byte(0x30); f <= 0x7e; f++ {
		switch f {
		case '[', ']', 'P', 'X', '^', '_', 'N', 'O':
			continue
		case 'D':
			add("\x1bD", (*Model).index)
		case 'M':
			add("\x1bM", (*Model).ri)
		case '=':
			add("\x1b=", func(m *Model) { m.VF[vfAppKeypad] = true })
		case '>':
			add("\x1b>", func(m *Model) { m.VF[vfAppKeypad] = false })
		default:
			add("\x1b"+string(rune(f)), nop)
		}
	}
	for f := byte(0x30); f <= 0x7e; f++ {
		for i := byte(0x20); i <= 0x2f; i++ {
			add("\x1b"+string(rune(i))+string(rune(f)), nop)
			for j := byte(0x20); j <= 0x2f; j += 3 {
				add("\x1b"+string(rune(i))+string(rune(j))+string(rune(f)), nop)
			}
		}
		add("\x1b !\"#$%&'()*+,-./"+string(rune(f)), nop)
	}
	// strings
	atoms := []string{"x", ";", "\\", "?", " ", "é", "Ü", "✜", "中", "𐍈", "😜", "[", "m", "\u0301", "\xff", "\xc3"}
	payloads := []string{"", "title", "file://host/p%20a;b", "a;b;c", strings.Repeat("long ", 2000), strings.Repeat("✜", 1500), "0;1", "\xf0\x9f", "\x80", "\xe2\x9c", "]2;x", "P", "\x9d", "\u009c", "a\u009cb",
		"\t", "a\nb", "\n\n", "a\r\n\r\nb", "\b\b", "\v\f", "  ", "a  b ", " a", strings.Repeat("\n", 50),
		strings.Repeat("0123456789abcde\n", 4096), strings.Repeat("x", 65535), strings.Repeat("x", 65536), strings.Repeat("y", 65537), strings.Repeat("é", 70000), strings.Repeat("z", 300000)}
	for b := 0x20; b <= 0x7e; b++ {
		payloads = append(payloads, string(rune(b)), "a"+string(rune(b))+"b")
	}
	for _, a := range atoms {
		for _, b := range atoms {
			payloads = append(payloads, a+b)
			if c.thorough() {
				for _, d := range atoms {
					payloads = append(payloads, a+b+d)
				}
			}
		}
	}
	for b := rune(0xa0); b < 0x800; b += 7 {
		payloads = append(payloads, string(b))
	}
	for b := rune(0x700); b < 0x11000; b += 61 {
		if b < 0xd800 || b > 0xdfff {
			payloads = append(payloads, string(b))
		}
	}
	// the byte that is ST on its own at every place of characters with every
	// first byte
	for b := rune(0xc0); b < 0x110000; b++ {
		var e [4]byte
		n := utf8.EncodeRune(e[:], b)
		few := true
		for _, x := range e[1:n] {
			few = few && (x == 0x80 || x == 0xbf || x == 0x90 || x == 0x9c || x == 0xa0)
		}
		if few && strings.Contains(string(e[1:n]), "\x9c") && !(b >= 0xd800 && b < 0xe000) {
			payloads = append(payloads, string(b)+"t")
		}
	}
	ends := []string{"\a", "\x1b\\", "\x9c"}
	names := map[int]int{0: vsTitle, 2: vsTitle, 6: vsDir, 7: vsFile}
	for _, p := range payloads {
		for _, e := range ends {
			if e == "\x9c" && badEnd(p) {
				continue // whose byte 0x9c would be part of a character
			}
			if strings.Contains(p, "\u009c") {
				// U+009C is ST as a character: it is not payload everywhere
				continue
			}
			if loneST(p) {
				continue
			}
			for _, n := range []string{"0", "2", "6", "7", "1", "4", "8", "10", "52", "112", "133", "1337", "99999999999999999999", "02"} {
				f := nop
				k, err := strconv.Atoi(n)
				if i, ok := names[k]; ok && err == nil {
					p := p
					f = func(m *Model) { m.VS[i] = p; m.VSN[i]++ }
				}
				if n == "02" && strings.Contains("é中", p) {
					continue
				}
				add("\x1b]"+n+";"+p+e, f)
			}
			if len(p) < 2 || p[0] >= 0x30 && !strings.Contains(p, ";") {
				continue
			}
		}
		for _, e := range ends[1:] {
			if e == "\x9c" && badEnd(p) || loneST(p) || strings.Contains(p, "\u009c") {
				continue
			}
			for _, h := range []string{"", "q", "1;2|", "$q", "+q", "1$r", "=1s", "?"} {
				add("\x1bP"+h+p+e, nop)
			}
		}
	}
	// strings of megabytes, such as pictures
	for _, n := range pick(c, []int{1<<20 + 1, 5 << 20}, []int{1<<20 - 1, 1 << 20, 1<<20 + 1, 1 << 22, 5 << 20, 1<<24 + 1, 1<<26 + 1}) {
		p := strings.Repeat("0123456789abcdef", n/16+1)[:n]
		add("\x1bPq"+p+"\x1b\\", nop)
		add("\x1b]52;"+p+"\a", nop)
		add("\x1b]2;"+p+"\x1b\\", func(m *Model) { m.VS[vsTitle] = p; m.VSN[vsTitle]++ })
	}
	for n := 0; n <= 130; n++ {
		for _, e := range ends {
			if _, ok := names[n]; !ok {
				add(fmt.Sprintf("\x1b]%d%s", n, e), nop)
				add(fmt.Sprintf("\x1b]%d;?;é%s", n, e), nop)
			}
		}
	}
	for _, base := range []uint64{1 << 8, 1 << 10, 1 << 12, 1 << 15, 1 << 16, 1 << 20, 1 << 31, 1 << 32, 1 << 48, 1 << 63, 100, 1000, 10000, 100000, 1000000, 1000000000, 10000000000} {
		for n := uint64(0); n < 12; n++ {
			add(fmt.Sprintf("\x1b]%d;x\x1b\\", base+n), nop)
			if base < 1<<60 {
				add(fmt.Sprintf("\x1b]%d;x\a", base*2+n), nop)
				add(fmt.Sprintf("\x1b]%d;x\a", base*10+n), nop)
			}
		}
	}
	for z := 1; z <= 24; z++ {
		for k, i := range names {
			add("\x1b]"+strings.Repeat("0", z)+strconv.Itoa(k)+";zero\a", func(m *Model) { m.VS[i] = "zero"; m.VSN[i]++ })
		}
		add("\x1b]"+strings.Repeat("0", z)+"60;zero\a", nop)
	}
	for n := 0; n < 12; n++ {
		add(fmt.Sprintf("\x1b]%d;x\x1b\\", 18446744073709551600+uint64(n)), nop)
		add(fmt.Sprintf("\x1b]184467440737095516%d;x\x1b\\", 16+n), nop)
		add(fmt.Sprintf("\x1b]922337203685477580%d;x\x1b\\", n), nop)
	}
	return out
}

// badEnd reports whether a byte 0x9c after s could continue its last character.
func badEnd(s string) bool {
	for i := 1; i <= 3 && i <= len(s); i++ {
		b := s[len(s)-i]
		if b >= 0xc0 {
			need := 2
			if b >= 0xe0 {
				need = 3
			}
			if b >= 0xf0 {
				need = 4
			}
			return i < need
		}
		if b < 0x80 {
			return false
		}
	}
	return false
}

// loneST reports a byte 0x9c outside of a character.
func loneST(s string) bool {
	for i, r := range s {
		if r == 0xfffd && s[i] == 0x9c {
			return true
		}
	}
	return false
}

func c09(c *Check) {
	cases := c09Cases(c)
	// what is there before, and what comes after
	type ctx struct {
		cfg  Config
		pre  []*Op
		a, b string
	}
	pre := func(specs ...string) []*Op { return []*Op{seq(opsOf(specs...)...)} }
	fillOps := func(w, h int) *Op { return seq(fill(loWide, w, h)...) }
	ctxs := []ctx{
		{Config{W: 6, H: 4}, append([]*Op{fillOps(6, 4)}, pre("r 2 3", "H 3 2", "SAVE", "m 31 1", "?h 25", ">u 5", "H 2 3")...), "Q", "R"},
		{Config{W: 5, H: 3, Grid: true}, append([]*Op{fillOps(5, 3)}, pre("WRAP", "m 44", "H 2 4", "SAVE", "ALT", `t "abc"`, "H 2 5")...), "", "中"},
		{Config{W: 6, H: 3, Grapheme: true}, append([]*Op{fillOps(6, 3)}, pre("m 7", "H 3 3", "=u 9", `osc 2 "old"`)...), "e\u0301", "é"},
	}
	run := func(w *worker, x *ctx, ks []seqCase, cut int) error {
		if x.cfg.Grid && !tm.VerifGrid {
			return nil
		}
		mid := &Op{Bytes: x.a, F: func(m *Model) {
			if x.a != "" {
				text(x.a).F(m)
			}
			for _, k := range ks {
				k.f(m)
			}
			text(x.b).F(m)
		}}
		for _, k := range ks {
			mid.Bytes += k.s
		}
		mid.Bytes += x.b
		ops := append([]*Op(nil), x.pre...)
		if cut > 0 {
			// in reads of a few bytes
			f := mid.F
			nop := func(m *Model) {}
			b := mid.Bytes
			n := cut
			for len(b) > n {
				ops = append(ops, &Op{Bytes: b[:n], F: nop})
				b = b[n:]
			}
			mid = &Op{Bytes: b, F: f}
		}
		ops = append(ops, mid)
		from := len(ops) - 1
		ops = append(ops, seq(op("CPR"), op("REST"), op("LF"), text("s")))
		d, m, err := c.replayOne(w, x.cfg, ops, nil, from, cmpAll, false, nil)
		if err == nil && d.rec.vsN != m.VSN {
			err = fmt.Errorf("ViewStringChanged was called %v times for the title, directory and file strings, expected %v", d.rec.vsN, m.VSN)
		}
		if err == nil && w != nil {
			w.buf.Reset()
			m.key(&w.buf)
			c.saw(hashOf(w.buf.String()))
		}
		return err
	}
	c.evalAll("sequences between text", len(cases)*len(ctxs), func(w *worker, i int) error {
		return run(w, &ctxs[i%len(ctxs)], cases[i/len(ctxs):i/len(ctxs)+1], 0)
	}, func(i int) string { return fmt.Sprintf("%q", cases[i/len(ctxs)].s) })
	c.evalAll("sequences in small reads", len(cases), func(w *worker, i int) error {
		if len(cases[i].s) > 200 {
			return nil
		}
		return run(w, &ctxs[0], cases[i:i+1], 1+i%3)
	}, func(i int) string { return fmt.Sprintf("%q", cases[i].s) })
	var some []seqCase
	step := len(cases) / pick(c, 400, 3000)
	for i := 0; i < len(cases); i += step {
		if len(cases[i].s) < 300 {
			some = append(some, cases[i])
		}
	}
	c.evalAll("two sequences", len(some)*len(some), func(w *worker, i int) error {
		return run(w, &ctxs[i%2], []seqCase{some[i/len(some)], some[i%len(some)]}, 0)
	}, func(i int) string { return fmt.Sprintf("%q", some[i/len(some)].s+some[i%len(some)].s) })
}
