package main

import (
	"fmt"
	"strings"
	"time"

	tm "github.com/ricochet1k/termemu"
)

func init() { register("C01", "model_checking", 250*time.Second, 60*time.Minute, c01) }

// sweep calls every read accessor with arguments in range.
func (d *drv) sweep(b *strings.Builder) (err error) {
	defer func() {
		if p := recover(); p != nil {
			err = fmt.Errorf("panic in a read accessor: %v", p)
		}
	}()
	one := func() {
		w, h := d.t.Size()
		if w < 1 || h < 1 {
			err = fmt.Errorf("the size is %dx%d", w, h)
			return
		}
		xs, ys := upTo(w), upTo(h)
		for _, y := range ys {
			_ = d.t.Line(y)
			b.WriteString(d.t.ANSILine(y))
			b.WriteByte('\n')
			for _, x := range xs {
				for _, n := range xs {
					if x+n < w {
						_ = d.t.StyledLine(x, n+1, y)
					}
				}
			}
			for _, y2 := range ys {
				if y2 >= y {
					_ = d.t.StyledLines(tm.Region{X: 0, Y: y, X2: w, Y2: y2 + 1})
					if w > 1 {
						_ = d.t.StyledLines(tm.Region{X: 1, Y: y, X2: w, Y2: y2 + 1})
						_ = d.t.StyledLines(tm.Region{X: 0, Y: y, X2: w - 1, Y2: y2 + 1})
					}
				}
			}
		}
	}
	one()
	if tm.VerifState0 {
		tm.VerifOther(d.t, one)
		x, y, _, _ := tm.VerifState(d.t)
		fmt.Fprint(b, x, ",", y)
	}
	return err
}

// upTo lists 0..n-1, or the interesting ones of many.
func upTo(n int) []int {
	if n <= 6 {
		return []int{0, 1, 2, 3, 4, 5}[:n]
	}
	return []int{0, 1, 7, n / 2, n - 2, n - 1}
}

// survive runs n histories, for which it is enough to end well.
func (c *Check) survive(name string, n int, gen func(i int) (Config, []*Op)) {
	if c.stop.Load() {
		return
	}
	var done, steps atomicCount
	const batch = 64
	c.each((n+batch-1)/batch, func(w *worker, k int) {
		for i := k * batch; i < min(n, (k+1)*batch) && !c.stop.Load(); i++ {
			cfg, ops := gen(i)
			if cfg.W == 0 || cfg.Grid && !tm.VerifGrid {
				continue
			}
			run := func(w *worker) error {
				d := newDrv(cfg, w)
				if err := d.run(ops); err != nil {
					return err
				}
				var b strings.Builder
				sb := &b
				if w != nil {
					w.buf.Reset()
					sb = &w.buf
				}
				return d.sweep(sb)
			}
			err := run(w)
			done.add(1)
			steps.add(int64(len(ops)))
			if i == n/2 || i == n/5 {
				c.sample(map[string]any{"history": name, "config": cfg.String(), "input": rawSpecs(ops)})
			}
			if err != nil {
				c.fail(Violation{Config: cfg, Ops: rawSpecs(ops), What: name, Error: err.Error()}, func() error { return run(nil) })
				return
			}
			c.saw(hashOf(w.buf.String()))
		}
	})
	c.transitions.Add(steps.get())
	c.traces.Add(done.get())
	c.bound("%s: %d of %d histories", name, done.get(), n)
}

func rawSpecs(ops []*Op) []string {
	out := make([]string, len(ops))
	for i, o := range ops {
		if o.RW > 0 {
			out[i] = fmt.Sprintf("resize %d %d", o.RW, o.RH)
		} else {
			out[i] = fmt.Sprintf("raw %q", o.Bytes)
		}
	}
	return out
}

// symbols of arbitrary input
var c01Symbols = []string{
	"\x1b", "[", "]", "P", "?", ">", ";", ":", "0", "1", "4", "9", "$", " ", "H", "J", "K", "m", "r", "S", "L", "M", "X", "h", "l", "u", "n", "c",
	"\a", "\n", "\t", "\b", "\r", "\x00", "\x7f", "\\", "a",
	"\xe4", "\xb8", "\xad", "\xcc", "\x81", "\xf0", "\x9f", "\xff", "\xc0", "\x9b", "\x9c", "\xed", "\xa0",
}

// tokens that get at every operation with hostile arguments
func c01Tokens() []string {
	nums := []string{"", "0", "1", "2", "3", "7", "65536", "2147483648", "9223372036854775807", "9223372036854775808", "18446744073709551616", "18446744073709551617", strings.Repeat("9", 40)}
	var out []string
	for _, f := range "ABCDEFGHIJKLMNOPQRSTUVWXYZ`abcdefghijklmnopqrstuvwxyz{|}~@" {
		for _, n := range nums {
			out = append(out, "\x1b["+n+string(f))
		}
		for _, a := range []string{"0;0", "1;1", "2;1", ";", ";9", "9223372036854775807;9223372036854775807", "1;9223372036854775808", "38;5", "38;2;1", "1;2;3;4;5;6;7;8;9;10;11;12;13;14;15;16;17", "4:3", ":", "1;;:", strings.Repeat(";", 40)} {
			out = append(out, "\x1b["+a+string(f))
		}
		for _, p := range []string{"?", ">", "<", "=", "!"} {
			for _, n := range []string{"", "1", "4;2", "1049", "9223372036854775808"} {
				out = append(out, "\x1b["+p+n+string(f))
			}
		}
		for _, p := range []string{" ", "$", "\"", "'", "*"} {
			out = append(out, "\x1b[1"+p+string(f))
		}
	}
	for b := 0; b < 256; b++ {
		out = append(out, string([]byte{byte(b)}), "\x1b"+string([]byte{byte(b)}), "\x1b["+string([]byte{byte(b)}), "\x1b[1"+string([]byte{byte(b)}), "\x1b]2;"+string([]byte{byte(b)}), "\x1bP"+string([]byte{byte(b)}), "\x1b("+string([]byte{byte(b)}))
	}
	for _, p := range []int{1, 7, 9, 12, 25, 1000, 1002, 1003, 1004, 1005, 1006, 1015, 1049, 2004, 0, 47, 69, 2026} {
		out = append(out, fmt.Sprintf("\x1b[?%dh", p), fmt.Sprintf("\x1b[?%dl", p))
	}
	out = append(out, "\x1b]0;title\a", "\x1b]2;t\x1b\\", "\x1b]7;file\x9c", "\x1b];\a", "\x1b]\a", "\x1b]99999999999999999999;x\a", "\x1b]8;;u\a", "\x1b]2;中\a", "\x1b]x\a", "\x1b]2\x1b[m", "\x1bP1;2|a\x1b\\", "\x1bP$qm\x1b\\", "\x1b_x\x1b\\", "\x1b^x\x1b\\", "\x1bX", "\x1b7", "\x1b8", "\x1bc", "\x1b#8", "\x1b%G", "\x1b(0", "\x1b)B")
	return out
}

// text of every kind
var c01Texts = []string{
	"a", "ab", "abcdefg", "中", "中文字", "a中", "中a", "\u0301", "e\u0301", "中\u0301", "\u200d", "👩\u200d👩", "👩\u200d", "\u200d👩", "\ufe0f", "☺\ufe0f", "❤", "🇺", "🇺🇸", "🇺🇸🇺",
	"👍🏽", "🏽", "ᄀ", "ᄀ\u1161\u11a8", "\u1161", "क\u094d\u0937", "\u0600a", "\u200b", "\u00ad", "\u2028", "\ufeff", "﷽", "\U000e0001", "\U0010ffff", "\xff", "\xe4\xb8", "\xf0\x9f\x91", "\xc0\x80", "\xed\xa0\x80", "\xf5\x80\x80\x80", "\x80", "\u0085", "\u009b", "ｱ", "Ａ", "e\u0301\u0302\u0303\u0304\u0305", "\u202e", "\t", "\n", "\r", "\b",
}

func c01(c *Check) {
	small := []size{{1, 1}, {2, 1}, {1, 2}, {3, 2}}
	var cfgs []Config
	for _, s := range small {
		for _, k := range []Config{spanRune, spanGrapheme, gridRune, gridGrapheme} {
			k.W, k.H = s.w, s.h
			cfgs = append(cfgs, k)
		}
	}
	pow := func(b, n int) int {
		r := 1
		for ; n > 0; n-- {
			r *= b
		}
		return r
	}
	// every string of symbols
	strs := func(n int, cfgs []Config, before, after string) {
		ns := pow(len(c01Symbols), n)
		c.survive(fmt.Sprintf("%d of %d symbols after %q", n, len(c01Symbols), before), ns*len(cfgs), func(i int) (Config, []*Op) {
			cfg := cfgs[i/ns]
			i %= ns
			var b strings.Builder
			b.WriteString(before)
			for k := 0; k < n; k++ {
				b.WriteString(c01Symbols[i%len(c01Symbols)])
				i /= len(c01Symbols)
			}
			b.WriteString(after)
			return cfg, []*Op{{Bytes: b.String()}}
		})
	}
	for n := 1; n <= 2; n++ {
		strs(n, cfgs, "", "")
		strs(n, cfgs, "中b\n中", "z\n")
		strs(n, cfgs[:4], "\x1b[", "H中a")
		strs(n, cfgs[12:14], "\x1b[?7hab\x1b[", "")
	}
	three := pick(c, []Config{{W: 1, H: 1, Grapheme: true}, {W: 3, H: 2}}, cfgs)
	strs(3, append(three, Config{W: 2, H: 2, Grid: true}), "", "中\n")
	strs(3, three, "中b\n中", "z\n")
	strs(3, three, "\x1b[", "H中a")
	strs(3, three, "\x1b[?7hab\x1b[", "")
	if c.thorough() {
		strs(4, cfgs[4:16], "", "")
		strs(4, cfgs[12:], "\x1b[", "中")
		strs(4, cfgs[12:14], "中\x1b[?7h中", "b\n")
	}
	// every token at every size up to 4x3 in filled screens, followed by text
	toks := c01Tokens()
	tail := "中a\x1b[99;99H中b\n\x1bM\x1b[?7hxyzxyzxyz中\x1b[1049h"
	szs := sizesUpTo(4, 3)
	szs = append(szs, size{80, 24}, size{200, 1}, size{1, 100})
	pres := []string{"", "a中b中\n\x1b[41mx中文y\x1b[2;2H", "\x1b[?7h中文字abc\x1b[2;3r\x1b[2;2H", "\x1b[?1049hab\n中\x1b[1;1r\x1b[9;9H"}
	if !c.thorough() {
		szs = []size{{1, 1}, {2, 1}, {1, 2}, {3, 3}, {4, 2}, {80, 24}}
	}
	c.survive("each token", len(toks)*len(szs)*len(pres)*4, func(i int) (Config, []*Op) {
		cfg := []Config{spanRune, spanGrapheme, gridRune, gridGrapheme}[i%4]
		i /= 4
		sz := szs[i%len(szs)]
		i /= len(szs)
		cfg.W, cfg.H = sz.w, sz.h
		return cfg, []*Op{{Bytes: pres[i%len(pres)] + toks[i/len(pres)] + tail}}
	})
	// all pairs of tokens with a resize between or inside, byte by byte
	var some []string
	for i, t := range toks {
		if c.thorough() || i%41 == 0 {
			some = append(some, t)
		}
	}
	c.survive("pairs of tokens", 2*len(toks)*len(some), func(i int) (Config, []*Op) {
		cfg := Config{W: 1 + i/2%3, H: 1 + i/6%3, Grapheme: i%5 == 0}
		a, b := toks[i/2%len(toks)], some[i/2/len(toks)]
		if i%2 == 1 {
			a, b = b, a
		}
		return cfg, []*Op{{Bytes: "中b\n"}, {Bytes: a}, {Bytes: b + "a中b中c\n\n\n"}}
	})
	sizes2 := []size{{1, 1}, {2, 1}, {1, 2}, {5, 4}}
	c.survive("resize in the middle of a token", len(toks)*len(sizes2)*4, func(i int) (Config, []*Op) {
		cfg := []Config{{W: 3, H: 3}, {W: 3, H: 3, Grid: true}, {W: 4, H: 2, Grapheme: true}, {W: 3, H: 3, Grid: true, Grapheme: true}}[i%4]
		i /= 4
		sz := sizes2[i%len(sizes2)]
		t := pres[2] + toks[i/len(sizes2)] + "中文字\x1b[2;3r\x1b[99B\n\n\x1b[L"
		var ops []*Op
		for k := 0; k < len(t); k++ {
			ops = append(ops, &Op{Bytes: t[k : k+1]})
			if k >= len(pres[2])-1 && k%2 == 0 {
				s := sz
				if k%4 == 0 {
					s = size{cfg.W, cfg.H}
				}
				ops = append(ops, &Op{RW: s.w, RH: s.h})
			}
		}
		return cfg, ops
	})
	// sequences of operations and resizes
	core := []string{"中", "ab", "xyzxyz", "\n", "\x1bM", "\x1b[9;9H", "\x1b[H", "\x1b[2;2H", "\x1b[99999999999999999999B", "\x1b[99999999999999999999C", "\x1b[99S", "\x1b[T", "\x1b[99999999999L", "\x1b[M", "\x1b[J", "\x1b[1J", "\x1b[K", "\x1b[1K", "\x1b[65536X", "\x1b[P", "\x1b[2P",
		"\x1b[2;3r", "\x1b[1;2r", "\x1b[3;99r", "\x1b[r", "\x1b[s", "\x1b[u", "\x1b[?1049h", "\x1b[?1049l", "\x1b[?7h", "\x1b[?7l", "\b", "\t", "\x1b[41m", "\u0301", "👩\u200d👩", "\xff"}
	var copers []*Op
	for _, s := range core {
		copers = append(copers, &Op{Bytes: s})
	}
	for _, s := range []size{{1, 1}, {2, 1}, {1, 3}, {3, 3}, {4, 2}, {80, 24}} {
		copers = append(copers, &Op{RW: s.w, RH: s.h})
	}
	depth := pick(c, 3, 4)
	no := pow(len(copers), depth)
	scfgs := []Config{{W: 3, H: 3}, {W: 3, H: 3, Grid: true}, {W: 2, H: 2, Grapheme: true}, {W: 4, H: 3, Grid: true, Grapheme: true}, {W: 1, H: 1}, {W: 5, H: 2}}
	c.survive(fmt.Sprintf("%d operations and resizes", depth), no*len(scfgs), func(i int) (Config, []*Op) {
		cfg := scfgs[i/no]
		i %= no
		ops := []*Op{{Bytes: "a中b\nc"}}
		for k := 0; k < depth; k++ {
			ops = append(ops, copers[i%len(copers)])
			i /= len(copers)
		}
		return cfg, append(ops, &Op{Bytes: "q中\n\n\x1bM"})
	})
	// every kind of text next to every other, cut into reads or not
	td := pick(c, 3, 4)
	nt := pow(len(c01Texts), td)
	tcfgs := []Config{{W: 3, H: 2, Grapheme: true}, {W: 3, H: 2, Grid: true, Grapheme: true}, {W: 1, H: 1, Grapheme: true}, {W: 2, H: 1}, {W: 3, H: 2, Grid: true}}
	c.survive(fmt.Sprintf("%d kinds of text", td), nt*len(tcfgs)*2, func(i int) (Config, []*Op) {
		cut := i%2 == 1
		i /= 2
		cfg := tcfgs[i/nt]
		i %= nt
		var ops []*Op
		var all strings.Builder
		if i%3 > 0 {
			all.WriteString("\x1b[?7h")
		}
		for k := 0; k < td; k++ {
			s := c01Texts[i%len(c01Texts)]
			all.WriteString(s)
			ops = append(ops, &Op{Bytes: s})
			i /= len(c01Texts)
		}
		if !cut {
			ops = []*Op{{Bytes: all.String()}}
		}
		return cfg, ops
	})
	// every kind of text at each place of a wide row, over other text
	c.survive("text over text", len(c01Texts)*len(c01Texts)*8*4, func(i int) (Config, []*Op) {
		cfg := []Config{spanRune, spanGrapheme, gridRune, gridGrapheme}[i%4]
		i /= 4
		x := i % 8
		i /= 8
		cfg.W, cfg.H = 6, 2
		return cfg, []*Op{{Bytes: strings.Repeat(c01Texts[i%len(c01Texts)], 4)}, {Bytes: fmt.Sprintf("\x1b[1;%dH", x+1)}, {Bytes: c01Texts[i/len(c01Texts)] + "b"}, {RW: 3, RH: 2}, {Bytes: fmt.Sprintf("\x1b[1;%dH\x1b[K", x)}}
	})
	// every character, in reads of one, two and seven bytes, with nothing between
	eall := everyOps(false)
	c.survive("every character", len(eall)*4*3, func(i int) (Config, []*Op) {
		cfg := []Config{spanRune, spanGrapheme, gridRune, gridGrapheme}[i%4]
		i /= 4
		cfg.W, cfg.H = []int{everyW, 3, 1}[i/len(eall)], []int{everyH, 2, 1}[i/len(eall)]
		s := "\x1b[?7h" + seq(eall[i%len(eall)]...).Bytes
		var ops []*Op
		for k := []int{1, 2, 7}[i%3]; len(s) > 0; s = s[min(k, len(s)):] {
			ops = append(ops, &Op{Bytes: s[:min(k, len(s))]})
		}
		return cfg, ops
	})
	// a stream in which every token follows every other, at real sizes, cut at
	// every so many bytes
	var real []string
	for i, t := range toks {
		if i%pick(c, 5, 1) == 0 {
			real = append(real, t)
		}
	}
	real = append(real, c01Texts...)
	real = append(real, core...)
	rs := []size{{80, 24}, {300, 5}, {5, 300}, {1, 1}, {133, 50}}
	const per = 4
	n := (len(real) + per - 1) / per
	c.survive("tokens in pairs at real sizes", n*len(rs)*4, func(i int) (Config, []*Op) {
		cfg := []Config{spanRune, spanGrapheme, gridRune, gridGrapheme}[i%4]
		i /= 4
		sz := rs[i%len(rs)]
		i /= len(rs)
		cfg.W, cfg.H = sz.w, sz.h
		var b strings.Builder
		b.WriteString("\x1b[?7h")
		for k := i * per; k < min(len(real), (i+1)*per); k++ {
			for _, t := range real {
				b.WriteString(real[k])
				b.WriteString(t)
			}
		}
		s := b.String()
		var ops []*Op
		for k := 0; len(s) > 0; k++ {
			m := min(len(s), []int{4096, 1, 8192, 4095, 100000, 2, 3}[(i+k)%7])
			ops = append(ops, &Op{Bytes: s[:m]})
			s = s[m:]
			if k%16 == 15 {
				ops = append(ops, &Op{RW: max(1, sz.w-k%3), RH: max(1, sz.h-k%5)})
			}
		}
		return cfg, ops
	})
}
