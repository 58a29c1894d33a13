package main

import (
	"fmt"
	"strings"
)

// Screens of the sizes that are used, where numbers have two and three digits
// and rows are longer than any constant of the implementation.
var realSizes = []Config{{W: 80, H: 24}, {W: 80, H: 24, Grapheme: true}, {W: 80, H: 24, Grid: true}, {W: 132, H: 43}, {W: 300, H: 4}, {W: 3, H: 260}, {W: 17, H: 9, Grid: true, Grapheme: true}, {W: 33, H: 12}}

func long(unit string, n int) string {
	s := strings.Repeat(unit, n/len([]rune(unit))+1)
	return string([]rune(s)[:n])
}

// realOps is an alphabet with counts and positions that depend on the size.
func realOps(cfg Config) []*Op {
	w, h := cfg.W, cfg.H
	ops := texts("a", "hello, world", "中文字語漢", "x文y", "\xff\xfe!", "é𐍈ß", long("0123456789", w-1), long("abcdefghijklm", w), long("nopqrstuvwxyz", w+1), long("漢字かな", w/2), long("a語", w))
	if cfg.Grapheme {
		ops = append(ops, texts("e\u0301e\u0302o", "👩\u200d👩\u200d👧!", "🇺🇸🇩🇪", "\u0301", "中\u0301文")...)
	}
	f := fmt.Sprintf
	ops = append(ops, opsOf("H", f("H %d %d", h, w), f("H %d %d", h/2+1, w/2), f("H %d 1", h), f("H 1 %d", w), f("H %d %d", (h+3)/4, max(1, w-1)), f("G %d", w-w/4), f("d %d", h-h/4),
		"LF", "LF | LF | LF", "CR", "BS", "HT", "RI", "IND", "A", f("A %d", h/3), f("B %d", h/3), f("C %d", w/3), f("D %d", w/3), "D 2", "C 10", "C 100",
		"K", "K 1", "K 2", "J", "J 1", "X", "X 10", f("X %d", w-1), "P", "P 12", f("P %d", w/2), "L", "L 10", "M", "M 10", f("M %d", h/2), "S", "S 10", "T", "T 11", f("S %d", h-1),
		f("r 2 %d", max(2, h-1)), f("r %d %d", max(1, h/3), max(1, h/2)), "r", f("r %d %d", max(1, h-2), h), "r 1 10",
		"WRAP", "NWRAP", "SAVE", "REST", "m", "m 31", "m 7 44", "m 1 38 5 200", "m 48 2 10 20 30", "m 27 22 39", "ALT", "MAIN")...)
	return ops
}

// real runs histories in which every two operations of the alphabet follow
// each other, at every size, and compares after each operation.
func (c *Check) real(more func(cfg Config) []*Op, what int, shadow bool, extra func(*drv, *Model) error) {
	los := []int{loRuns, loWide, loErased, loHalf, loCells, loBlank}
	for _, cfg := range realSizes {
		ops := realOps(cfg)
		if more != nil {
			ops = append(ops, more(cfg)...)
		}
		n, gen := pairsAt(cfg, ops, pick(c, 64, 128), func(i int) []*Op {
			s := fill(los[i%len(los)], cfg.W, cfg.H)
			if i%2 == 0 {
				s = append(s, op("WRAP"))
			}
			return s
		})
		c.scenarios("every two operations in turn, "+cfg.String(), n, func(i int) scenario {
			s := gen(i)
			return scenario{cfg, s, len(fill(los[i%len(los)], cfg.W, cfg.H))}
		}, what, shadow, extra)
	}
}

// resizesAround makes screens larger and smaller, and the usual size again.
func resizesAround(cfg Config) []*Op {
	w, h := cfg.W, cfg.H
	var out []*Op
	for _, s := range []size{{w, h}, {w + 1, h}, {max(2, w-1), h}, {w, h + 1}, {w, max(1, h-1)}, {w * 2, h * 2}, {max(2, w/2), max(1, h/2)}, {w + 70, max(1, h-7)}, {max(2, w-7), h + 70}, {2, 1}, {w, h}, {w, h}} {
		out = append(out, resizeOp(s.w, s.h))
	}
	return out
}

// manySits puts the cursor at many places of rows of hundreds of runs.
func manySits(sz size) [][]*Op {
	var out [][]*Op
	for _, lo := range []int{loCells, loErased} {
		base := seq(fill(lo, sz.w, sz.h)...)
		for _, x := range []int{0, 1, 2, 15, 16, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, sz.w / 2, sz.w - 3, sz.w - 2, sz.w - 1} {
			if x < sz.w {
				out = append(out, []*Op{base, op("m 7 45"), moveTo(x, sz.h-1)})
			}
		}
	}
	return out
}

var manySizes = []size{{70, 2}, {140, 1}, {600, 1}}

// many runs operations on rows that consist of hundreds of runs.
func (c *Check) many(cfgs []Config, what int, shadow bool, ops []*Op, n int, extra func(*drv, *Model) error) {
	c.matrix("rows of hundreds of runs", cfgs, manySizes, manySits,
		func(sz size) []*Op {
			return append(append([]*Op(nil), ops...), opsOf(fmt.Sprintf("X %d", sz.w), fmt.Sprintf("P %d", sz.w-2), fmt.Sprintf("X %d", sz.w/2))...)
		}, n, nil, what, shadow, extra)
}

// manyOps are operations for rows of many runs.
func manyOps() []*Op {
	return append(opsOf("K", "K 1", "K 2", "J", "J 1", "X", "X 2", "X 5", "X 63", "X 64", "X 65", "P", "P 2", "P 3", "P 40", "L", "M", "S", "T", "LF", "RI", "WRAP", "m 31"),
		texts("a", "ab", "中", "x中y", "abcdefghij", long("klmnop", 40), long("漢字", 33), "é")...)
}

var vastSizes = []size{{3, 2}, {4, 2}, {5, 1}, {6, 2}, {9, 1}, {12, 3}}

// vastTexts are characters of three and four columns.
func vastTexts() []*Op {
	return texts("a", "中", "⸺", "⸻", "a⸻b", "⸺⸺", "⸻中⸺a⸻", " ")
}

// wideClusters are graphemes of any number of columns.
func wideClusters() []*Op {
	out := texts("a", "中b")
	for _, n := range []int{1, 3, 63, 127, 254, 255, 256, 299, 511, 597} {
		out = append(out, text("क"+strings.Repeat("\u093e", n)))
	}
	return out
}

var clusterSizes = []size{{300, 2}, {600, 1}, {6, 2}}

func clusterSits(sz size) [][]*Op {
	var out [][]*Op
	for _, wr := range []string{"WRAP", "NWRAP"} {
		for _, x := range []int{0, 1, sz.w / 2, sz.w - 1} {
			out = append(out, []*Op{seq(fill(loWide, sz.w, sz.h)...), op("m 7 45"), op(wr), moveTo(x, 0)})
		}
	}
	return out
}

// vast runs operations on and with characters of three and four columns.
func (c *Check) vast(cfgs []Config, what int, shadow bool, ops func(sz size) []*Op, n int, after []*Op, extra func(*drv, *Model) error) {
	c.matrix("characters of three and four columns", cfgs, vastSizes,
		func(sz size) [][]*Op {
			return append(situations(sz, []int{loVast}, sz.h < 3, []bool{false, true}, []string{"m 7 45"}), situations(sz, []int{loRuns}, false, []bool{false, true}, []string{"m 31"})...)
		}, ops, n, after, what, shadow, extra)
}

// inTheMiddle resizes the screen between two bytes of each operation, at each
// place: what an operation does, it does to the screen there is when its last
// byte arrives.
func (c *Check) inTheMiddle(cfgs []Config, sizes []size, layouts []int, wraps []bool, what int, shadow bool, ops []*Op, after []*Op, extra func(*drv, *Model) error) {
	type cut struct {
		o *Op
		n int
	}
	var cuts []cut
	for _, o := range ops {
		for n := 1; n < len(o.Bytes); n++ {
			if !c.thorough() && n > 2 && n < len(o.Bytes)-1 {
				continue
			}
			cuts = append(cuts, cut{o, n})
		}
	}
	type block struct {
		cfg  Config
		sits [][]*Op
		news []*Op
	}
	var blocks []block
	total := 0
	for _, sz := range sizes {
		sits := situations(sz, layouts, sz.h > 2, wraps, []string{"m 7 45"})
		news := []*Op{resizeOp(1, 1), resizeOp(2, 2), resizeOp(sz.w+2, sz.h+1), resizeOp(max(1, sz.w-1), sz.h), resizeOp(sz.w, max(1, sz.h-1)), resizeOp(sz.w+1, sz.h), resizeOp(sz.w, sz.h+2)}
		for _, cfg := range cfgs {
			cfg.W, cfg.H = sz.w, sz.h
			blocks = append(blocks, block{cfg, sits, news})
			total += len(sits) * len(news) * len(cuts)
		}
	}
	c.scenarios("resizes in the middle of operations", total, func(i int) scenario {
		for _, b := range blocks {
			if n := len(b.sits) * len(b.news) * len(cuts); i >= n {
				i -= n
				continue
			}
			s := append([]*Op(nil), b.sits[i%len(b.sits)]...)
			i /= len(b.sits)
			k := cuts[i%len(cuts)]
			from := len(s)
			s = append(s, part(false, k.n, k.o), b.news[i/len(cuts)], part(true, k.n, k.o))
			return scenario{b.cfg, append(s, after...), from}
		}
		panic("inTheMiddle")
	}, what, shadow, extra)
}
