package main

import (
	"fmt"
	"strings"
	"time"
)

const letters = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"

var wides = []string{"中", "文", "字", "語", "漢"}

// layouts of prior content
const (
	loBlank  = iota
	loRuns   // every row one run of distinct letters
	loCells  // every cell a run with its own style
	loWide   // double-width characters mixed with narrow ones
	loHalf   // text in the first half of the row only
	loErased // blanks in several styles, and a few letters
	loVast   // characters three and four columns wide among others
	nLayouts
)

// blankStyles differ from each other in the foreground, the background or the
// modes only.
var blankStyles = []string{"m 45", "m", "m 0 31", "m 0 31 45", "m 0 7", "m 0 7 45", "m 0 4 31 45", "m 0 44"}

// fill makes the operations that draw a layout on a w x h screen.
func fill(lo, w, h int) []*Op {
	var out []*Op
	if lo == loBlank {
		return nil
	}
	k := 0
	letter := func() string { k++; return letters[k%len(letters) : k%len(letters)+1] }
	for y := 0; y < h; y++ {
		out = append(out, op(fmt.Sprintf("H %d 1", y+1)))
		switch lo {
		case loRuns:
			out = append(out, op(fmt.Sprintf("m %d", 31+y%6)))
			s := ""
			for x := 0; x < w; x++ {
				s += letter()
			}
			out = append(out, text(s))
		case loCells:
			for x := 0; x < w; x++ {
				out = append(out, op(fmt.Sprintf("m %d %d", 31+(x+y)%7, []int{1, 22, 4, 24, 7, 27, 53, 55}[(x*3+y)%8])), text(letter()))
			}
		case loWide:
			out = append(out, op(fmt.Sprintf("m %d", 41+y%6)))
			s, n := "", 0
			if y%2 == 1 {
				s, n = letter(), 1
			}
			for n < w {
				if n+2 <= w && (n/2+y)%3 != 2 {
					s += wides[(n+y)%len(wides)]
					n += 2
				} else {
					s += letter()
					n++
				}
			}
			out = append(out, text(s))
		case loVast:
			out = append(out, op(fmt.Sprintf("m %d", 41+y%6)))
			s, n := strings.Repeat(letter(), y%3%max(1, w-2)), y%3%max(1, w-2)
			for i := y; n < w; i++ {
				for j := 0; j < 4; j++ {
					if k := (i + j) % 4; n+4-k <= w {
						s += []string{"⸻", "⸺", "中", letter()}[k]
						n += 4 - k
						break
					}
				}
			}
			out = append(out, text(s))
		case loHalf:
			s := ""
			for x := 0; x < (w+1)/2; x++ {
				s += letter()
			}
			out = append(out, op("m 32 44"), text(s))
		case loErased:
			for x := 0; x < w; {
				n := 1 + (x+y)%3
				out = append(out, moveTo(x, y), op(blankStyles[(x+2*y)%len(blankStyles)]), op(fmt.Sprintf("X %d", n)))
				if x += n; x < w && x%2 == 1 {
					out = append(out, moveTo(x, y), text(letter()))
					x++
				}
			}
		}
	}
	return append(out, op("m"), op("H"))
}

// counts are the interesting values of a count on a screen of n cells.
func counts(n int) []string {
	out := []string{"-"}
	for i := 0; i <= n+1; i++ {
		out = append(out, fmt.Sprint(i))
	}
	for _, s := range []string{"255", "256", "65536", "2147483647", "4294967296", "9223372036854775807", "9223372036854775808", "99999999999999999999"} {
		out = append(out, s)
	}
	return out
}

func short(n int) []string {
	out := []string{"-"}
	for i := 0; i <= n+1; i++ {
		out = append(out, fmt.Sprint(i))
	}
	return append(out, "65536", "9223372036854775808")
}

// product makes every "name arg".
func product(names string, args []string) []*Op {
	var out []*Op
	for _, n := range strings.Fields(names) {
		for _, a := range args {
			s := n
			if a != "-" {
				s += " " + a
			}
			out = append(out, op(s))
		}
	}
	return out
}

func motionOps(w, h int, all bool) []*Op {
	cs := short
	if all {
		cs = counts
	}
	out := opsOf("BS", "HT", "CR", "LF", "FF", "IND", "RI", "DEL", "SAVE", "REST")
	out = append(out, product("A B d", cs(h))...)
	out = append(out, product("C D G", cs(w))...)
	rows := []string{"-", "0", "1", fmt.Sprint(h), fmt.Sprint(h + 1), "99999999999999999999"}
	cols := []string{"0", "1", fmt.Sprint(w), fmt.Sprint(w + 1), "99999999999999999999"}
	for _, r := range rows {
		if r == "-" {
			out = append(out, op("H"), op("f"))
			continue
		}
		out = append(out, op("H "+r), op("f "+r))
		for _, c := range cols {
			out = append(out, op("H "+r+" "+c), op("f "+r+" "+c))
		}
	}
	out = append(out, op(fmt.Sprintf("H - %d", w)), op(fmt.Sprintf("f - %d", w)))
	return out
}

// shapes are other ways to write parameters: empty ones, leading zeros, and
// more of them than the function takes.
func shapes(w, h int) []*Op {
	return opsOf("A - -", "A 1 9", "B 2 9", "C 1 9", "D 1 1 1", "G 2 9", "d 2 9", "A 01", "B 002", "C 0000000000000000000000002", "D 03", "G 02", "d 002", "A 00",
		"H -", "H - -", "H 2 -", "H - 2", "H 02 002", "H 2 2 9", "H 1 2 9 9 9", "H - - 3", "H 2 2 -", "H 2 2 - - -", "f -", "f - -", "f 2 -", "f 2 2 9", "f 02 02",
		fmt.Sprintf("H %d %d 1", h, w), fmt.Sprintf("f %d %d 1 1", h, w), "H 2 2 "+strings.TrimSpace(strings.Repeat("3 ", 30)), "C 1 "+strings.TrimSpace(strings.Repeat("- ", 40)))
}

func eraseShapes() []*Op {
	return opsOf("J -", "J 00", "J 01", "J 02", "J - -", "J 1 2", "J 0 2", "J - 2", "K -", "K 01", "K 002", "K 1 2", "K 0 1", "K - 1", "X -", "X 02", "X 1 9", "X - 9", "P -", "P 01", "P 1 9", "P - 9", "P 000000000000000000000000000001")
}

func scrollShapes() []*Op {
	return opsOf("S -", "S 01", "S 1 9", "S - 9", "L -", "L 02", "L 1 9", "L - 9", "M -", "M 02", "M 1 9", "M - 9", "T 01", "T -")
}

func eraseOps(w, h int, all bool) []*Op {
	cs := short
	if all {
		cs = counts
	}
	out := opsOf("J", "J 0", "J 1", "J 2", "K", "K 0", "K 1", "K 2")
	return append(out, product("X P", cs(w))...)
}

func scrollOps(h int, all bool) []*Op {
	cs := short
	if all {
		cs = counts
	}
	out := product("S T L M", cs(h))
	return append(out, opsOf("LF", "FF", "IND", "RI")...)
}

type size struct{ w, h int }

// sizes lists every size up to w x h.
func sizesUpTo(w, h int) []size {
	var out []size
	for x := 1; x <= w; x++ {
		for y := 1; y <= h; y++ {
			out = append(out, size{x, y})
		}
	}
	return out
}

// marginOps lists every valid margin pair of h rows, and nil for none.
func marginOps(h int) []*Op {
	out := []*Op{nil}
	for t := 1; t <= h; t++ {
		for b := t; b <= h; b++ {
			if t != 1 || b != h {
				out = append(out, op(fmt.Sprintf("r %d %d", t, b)))
			}
		}
	}
	return out
}

func moveTo(x, y int) *Op { return op(fmt.Sprintf("H %d %d", y+1, x+1)) }

// situations enumerates layout x margins x autowrap x cursor on a size.
func situations(sz size, layouts []int, margins bool, wraps []bool, styles []string) [][]*Op {
	var out [][]*Op
	ms := []*Op{nil}
	if margins {
		ms = marginOps(sz.h)
	}
	for _, lo := range layouts {
		base := fill(lo, sz.w, sz.h)
		for _, m := range ms {
			for _, wr := range wraps {
				for _, st := range styles {
					for y := 0; y < sz.h; y++ {
						for x := 0; x < sz.w; x++ {
							s := append([]*Op(nil), base...)
							if m != nil {
								s = append(s, m)
							}
							if wr {
								s = append(s, op("WRAP"))
							}
							if st != "" {
								s = append(s, op(st))
							}
							out = append(out, append(s, moveTo(x, y)))
						}
					}
				}
			}
		}
	}
	return out
}

// matrix runs every situation with every sequence of n operations after it.
func (c *Check) matrix(name string, cfgs []Config, sizes []size, sit func(sz size) [][]*Op, ops func(sz size) []*Op, n int, after []*Op, what int, shadow bool, extra func(*drv, *Model) error) {
	type block struct {
		cfg  Config
		sits [][]*Op
		ops  []*Op
		n    int
	}
	var blocks []block
	total := 0
	for _, sz := range sizes {
		ss, oo := sit(sz), ops(sz)
		k := len(ss)
		for i := 0; i < n; i++ {
			k *= len(oo)
		}
		for _, cfg := range cfgs {
			cfg.W, cfg.H = sz.w, sz.h
			blocks = append(blocks, block{cfg, ss, oo, k})
			total += k
		}
	}
	c.scenarios(name, total, func(i int) scenario {
		for _, b := range blocks {
			if i >= b.n {
				i -= b.n
				continue
			}
			s := append([]*Op(nil), b.sits[i%len(b.sits)]...)
			i /= len(b.sits)
			from := len(s)
			for j := 0; j < n; j++ {
				s = append(s, b.ops[i%len(b.ops)])
				i /= len(b.ops)
			}
			return scenario{b.cfg, append(s, after...), from}
		}
		panic("matrix")
	}, what, shadow, extra)
}

var spanRune = Config{}
var spanGrapheme = Config{Grapheme: true}
var gridRune = Config{Grid: true}
var gridGrapheme = Config{Grid: true, Grapheme: true}

func init() {
	register("C03", "model_checking", 200*time.Second, 40*time.Minute, c03)
	register("C04", "model_checking", 200*time.Second, 40*time.Minute, c04)
	register("C05", "model_checking", 200*time.Second, 40*time.Minute, c05)
	register("C06", "model_checking", 200*time.Second, 40*time.Minute, c06)
}

func c04(c *Check) {
	what := cmpAll
	c.real(func(cfg Config) []*Op { return shapes(cfg.W, cfg.H) }, what, false, nil)
	cfgs := []Config{spanRune, gridRune}
	sz := sizesUpTo(pick(c, 4, 6), pick(c, 4, 6))
	c.matrix("motion, once", cfgs, append(sz, size{9, 2}, size{17, 1}, size{2, 9}),
		func(sz size) [][]*Op {
			return situations(sz, []int{loRuns}, true, []bool{false, true}, []string{"m 7"})
		},
		func(sz size) []*Op { return motionOps(sz.w, sz.h, true) }, 1, nil, what, false, nil)
	c.inTheMiddle(cfgs, []size{{3, 3}, {4, 2}}, []int{loRuns}, []bool{true}, what, false, opsOf("A", "A 9", "B", "B 9", "C", "C 9", "D", "D 9", "G", "G 3", "G 99", "d", "d 2", "d 99", "H", "H 2 3", "H 99 99", "IND", "RI", "r 2 3"), opsOf("CPR", "BS"), nil)
	c.matrix("motion, twice", cfgs, pick(c, []size{{1, 1}, {2, 2}, {2, 3}}, []size{{1, 1}, {2, 2}, {3, 3}, {2, 4}, {4, 2}}),
		func(sz size) [][]*Op {
			return situations(sz, []int{loCells}, true, []bool{false, true}, []string{"m 4 45"})
		},
		func(sz size) []*Op { return motionOps(sz.w, sz.h, false) }, 2, nil, what, false, nil)
	c.matrix("motion, in several styles", cfgs, []size{{2, 2}, {3, 3}},
		func(sz size) [][]*Op {
			return situations(sz, []int{loErased, loBlank, loWide}, true, []bool{true}, append(blankStyles, "m 95 105"))
		},
		func(sz size) []*Op { return motionOps(sz.w, sz.h, false) }, 1, nil, what, false, nil)
	c.matrix("other forms of the parameters", cfgs, []size{{1, 1}, {3, 3}, {5, 4}, {40, 30}},
		func(sz size) [][]*Op {
			if sz.w > 9 {
				return [][]*Op{{text("abc")}, append(fill(loRuns, sz.w, sz.h), op("r 3 9"), op("H 17 17"))}
			}
			return situations(sz, []int{loRuns}, true, []bool{false}, []string{"m 7"})
		},
		func(sz size) []*Op { return shapes(sz.w, sz.h) }, 1, nil, what, false, nil)
	for _, cfg := range []Config{{W: 3, H: 3}, {W: 2, H: 4}, {W: 3, H: 3, Grid: true}} {
		ops := opsOf("BS", "HT", "CR", "LF", "FF", "RI", "A", "B", "C", "D", "A 2", "B 2", "G 2", "d 3", "H 2 3", "H", "SAVE", "REST", "r", "r 2 3", "r 1 2", "r 2 2", "WRAP", "NWRAP")
		c.search(Search{Name: "motion closure", Cfg: cfg, Init: append(fill(loRuns, cfg.W, cfg.H), op("m 43")), Ops: ops, What: what, States: pick(c, 60000, 3000000)})
	}
}

func c05(c *Check) {
	what := cmpAll
	c.real(func(cfg Config) []*Op {
		return append(append(eraseShapes(), texts("⸻⸺a⸺")...), opsOf(blankStyles...)...)
	}, what, false, nil)
	c.many([]Config{spanRune, gridRune, spanGrapheme}, what, false, append(eraseOps(66, 1, false), opsOf("X 130", "P 130", "P 257", "m 31 | X", "m | X 2", "m 31 | K")...), 1, nil)
	cfgs := []Config{spanRune, gridRune}
	sz := append(sizesUpTo(pick(c, 4, 6), pick(c, 4, 6)), size{7, 2}, size{2, 7}, size{1, 9}, size{3, 8})
	los := []int{loBlank, loRuns, loCells, loWide, loHalf, loErased}
	c.vast(append(cfgs, spanGrapheme), what, false, func(sz size) []*Op { return append(eraseOps(sz.w, sz.h, false), opsOf("m | K", "m 31 | X 2")...) }, pick(c, 1, 2), nil, nil)
	// blanks that differ from what is there in one respect only
	c.inTheMiddle(append(cfgs, spanGrapheme), []size{{5, 2}}, []int{loWide, loRuns}, []bool{false}, what, false, append(eraseOps(2, 1, false), opsOf("X 9", "P 9", "m 31")...), nil, nil)
	c.matrix("erase, in several styles", cfgs, []size{{1, 1}, {2, 1}, {3, 2}, {6, 2}, {4, 3}},
		func(sz size) [][]*Op {
			return situations(sz, []int{loErased, loBlank, loHalf}, false, []bool{false}, append(blankStyles, "m 1 32 44", "m 38 5 5 48 5 5", "m 38 2 0 0 0 48 2 0 0 5", "m 95 105"))
		},
		func(sz size) []*Op { return append(eraseOps(sz.w, sz.h, false), eraseShapes()...) }, 1, nil, what, false, nil)
	c.matrix("erase, twice", append(cfgs, spanGrapheme), pick(c, []size{{2, 1}, {4, 1}, {3, 2}}, []size{{2, 1}, {4, 1}, {5, 1}, {3, 3}, {6, 2}}),
		func(sz size) [][]*Op { return situations(sz, los, false, []bool{false}, []string{"m 4 31 45"}) },
		func(sz size) []*Op {
			var out []*Op
			for _, e := range []string{"J", "J 1", "K", "K 1", "K 2", "X", "X 2", "P", "P 2"} {
				for _, st := range []string{"m 45", "m 31", "m 4", "m 7 31 45", "m"} {
					out = append(out, seq(op(st), op(e)))
				}
			}
			return append(out, opsOf("C", "BS", "LF", `t "a"`, `t "中"`, `t " "`)...)
		}, 2, nil, what, false, nil)
	c.matrix("erase, once", append(cfgs, spanGrapheme), sz,
		func(sz size) [][]*Op { return situations(sz, los, false, []bool{false}, []string{"m 7 45"}) },
		func(sz size) []*Op { return eraseOps(sz.w, sz.h, true) }, 1, nil, what, false, nil)
	c.matrix("erase under margins and autowrap", cfgs, []size{{3, 3}, {2, 4}},
		func(sz size) [][]*Op { return situations(sz, []int{loRuns, loWide}, true, []bool{true}, []string{"m"}) },
		func(sz size) []*Op { return eraseOps(sz.w, sz.h, false) }, 1, nil, what, false, nil)
}

func c06(c *Check) {
	what := cmpAll
	c.real(func(cfg Config) []*Op { return append(scrollShapes(), texts("⸻⸺a⸺")...) }, what, false, nil)
	c.many([]Config{spanRune, gridRune}, what, false, append(scrollOps(2, false), texts("a", long("xyz", 70), long("q", 601))...), pick(c, 1, 2), nil)
	cfgs := []Config{spanRune, gridRune}
	sz := append(sizesUpTo(2, pick(c, 5, 7)), size{3, 3}, size{5, 3}, size{4, 4}, size{1, 8})
	c.inTheMiddle(cfgs, []size{{2, 3}, {1, 4}}, []int{loCells}, []bool{true}, what, false, append(scrollOps(4, false), opsOf("r 2 3", "r", "r 2")...), opsOf("LF", "S"), nil)
	c.matrix("scroll, once", append(cfgs, spanGrapheme), sz,
		func(sz size) [][]*Op {
			return append(situations(sz, []int{loCells}, true, []bool{false, true}, []string{"m 7 45"}),
				situations(sz, []int{loWide, loHalf, loErased}, true, []bool{false}, []string{"m 31"})...)
		},
		func(sz size) []*Op {
			return append(append(scrollOps(sz.h, true), scrollShapes()...), texts("z", "xyz", "中", strings.Repeat("w", sz.w), strings.Repeat("v", sz.w*sz.h+1))...)
		}, 1, nil, what, false, nil)
	c.vast(cfgs, what, false, func(sz size) []*Op { return append(scrollOps(sz.h, false), vastTexts()...) }, 1, opsOf("S", "LF", "L"), nil)
	// blanks that differ from what is there in one respect only
	c.matrix("scroll, in several styles", cfgs, []size{{1, 2}, {3, 3}, {5, 2}, {2, 4}},
		func(sz size) [][]*Op {
			return situations(sz, []int{loErased, loBlank, loCells}, true, []bool{true}, append(blankStyles, "m 95 105"))
		},
		func(sz size) []*Op {
			return append(scrollOps(sz.h, false), texts("z", strings.Repeat("w", sz.w))...)
		}, 1, nil, what, false, nil)
	// every DECSTBM, then what a scroll does
	c.matrix("margins, then scroll", cfgs, sizesUpTo(2, pick(c, 4, 6)),
		func(sz size) [][]*Op { return situations(sz, []int{loRuns}, true, []bool{false}, []string{"m 45"}) },
		func(sz size) []*Op {
			var out []*Op
			vals := append(short(sz.h), "99999999999999999999")
			for _, a := range vals {
				if a == "-" {
					out = append(out, op("r"))
				} else {
					out = append(out, op("r "+a))
				}
				for _, b := range vals {
					if b != "-" && !(len(a) > 6 && len(b) > 6) { // saturated numbers have no order
						out = append(out, op("r "+a+" "+b))
					}
				}
			}
			return out
		}, 1, opsOf("S", "LF", "LF", "LF", "LF", "LF", "RI", "RI", "RI", "RI", "RI", "L", "M 2", "T 2"), what, false, nil)
	c.matrix("scroll, twice", cfgs, pick(c, []size{{2, 3}, {1, 4}}, []size{{2, 3}, {2, 4}, {3, 3}, {1, 5}}),
		func(sz size) [][]*Op { return situations(sz, []int{loCells}, true, []bool{true}, []string{"m 46"}) },
		func(sz size) []*Op { return append(scrollOps(sz.h, false), texts("z", "yz")...) }, 2, nil, what, false, nil)
	for _, cfg := range []Config{{W: 1, H: 4}, {W: 2, H: 3}, {W: 1, H: 4, Grid: true}} {
		c.search(Search{Name: "scroll closure", Cfg: cfg, Init: append(fill(loCells, cfg.W, cfg.H), op("m 43")),
			Ops:  append(product("S T L M", []string{"-", "2", "9"}), opsOf("LF", "FF", "RI", "H 2 1", "H 9 9", "r", "r 2 3", "r 1 2", "r 2", "m 44", "WRAP", `t "x"`)...),
			What: what, States: pick(c, 40000, 3000000)})
	}
}

// c03alphabet mixes text with what decides where it goes.
func c03alphabet(cfg Config) []*Op {
	ops := texts("a", "bc", "中", "x文y", "\xff", "é", "defgh")
	ops = append(ops, opsOf("H", "H 1 2", "H 2 1", "H 99 99", "C", "BS", "LF", "CR", "WRAP", "NWRAP", "m 31", "r 1 2", "r 2 3", "r", "D", "P", "K", "X")...)
	if cfg.Grapheme {
		ops = append(ops, texts("e\u0301", "\u0301", "👩\u200d👩", "🇺🇸q")...)
	}
	return ops
}

func c03(c *Check) {
	what := cmpAll | cmpText
	c.every([]Config{spanRune, gridRune, spanGrapheme, gridGrapheme}, what, false, nil, nil)
	c.real(func(cfg Config) []*Op { return texts("⸻⸺a⸺", long("⸺b", cfg.W)) }, what, false, nil)
	c.many([]Config{spanRune, gridRune, spanGrapheme}, what, false, append(texts("a", "ab", "abc", "中", "x中y", "中文", "é", "\xff", " ", "abcdefghij", long("klmnop", 40), long("漢字", 33), long("z", 64), long("z", 65)), opsOf("WRAP")...), 2, nil)
	c.vast([]Config{spanRune, gridRune, spanGrapheme, gridGrapheme}, what, false, func(sz size) []*Op { return append(vastTexts(), opsOf("K 1", "X", "P", "C", "WRAP", "NWRAP")...) }, 2, nil, nil)
	// every run of text at every place over every layout
	chars := []string{"a", "中", "\xff", "é"}
	var runs []string
	var gen func(s string, n int)
	gen = func(s string, n int) {
		if s != "" {
			runs = append(runs, s)
		}
		if n == 0 {
			return
		}
		for _, ch := range chars {
			gen(s+ch, n-1)
		}
	}
	gen("", pick(c, 3, 4))
	gruns := append([]string(nil), runs...)
	for _, a := range []string{"", "a", "中"} {
		for _, b := range []string{"e\u0301", "中\u0301", "👩\u200d👩\u200d👧", "🇺🇸", "🇺🇸🇩🇪", "\u0301", "\u0301\u0302", "क\u093e", "क\u093e\u093e\u0301", "\u1100\u1161\u11a8"} {
			for _, d := range []string{"", "b", "文", "e\u0301"} {
				gruns = append(gruns, a+b+d)
			}
		}
	}
	for _, cfg := range []Config{spanRune, gridRune, spanGrapheme, gridGrapheme} {
		r := runs
		if cfg.Grapheme {
			r = gruns
		}
		c.matrix("text, once", []Config{cfg}, append(sizesUpTo(pick(c, 5, 6), 1), size{2, 3}, size{3, 2}, size{4, 3}),
			func(sz size) [][]*Op {
				los := []int{loCells, loWide}
				if sz.h == 1 {
					los = []int{loBlank, loRuns, loCells, loWide, loHalf}
				}
				if sz.h == 3 {
					return situations(sz, los, true, []bool{true}, []string{"m 7 45"})
				}
				return situations(sz, los, true, []bool{false, true}, []string{"m 7 45"})
			},
			func(sz size) []*Op { return texts(r...) }, 1, nil, what, false, nil)
	}
	c.matrix("graphemes of hundreds of columns", []Config{spanGrapheme, gridGrapheme}, clusterSizes, clusterSits,
		func(sz size) []*Op { return append(wideClusters(), opsOf("P", "X", "K 1", "D 3", "D 200", "BS")...) }, 2, nil, what, false, nil)
	var piles []string
	for _, n := range []int{1, 2, 3, 5, 8, 12} {
		piles = append(piles, "e"+strings.Repeat("\u0301", n), strings.Repeat("\u0302", n), "中"+strings.Repeat("\u0301", n)+"b", "a👩"+strings.Repeat("\u200d👩", n))
	}
	piles = append(piles, "e"+strings.Repeat("\u0301", 40), "e"+strings.Repeat("\u0301", 300), "a", "中")
	c.matrix("piles of marks", []Config{spanGrapheme, gridGrapheme}, []size{{2, 1}, {3, 1}, {4, 2}},
		func(sz size) [][]*Op {
			return situations(sz, []int{loCells, loWide}, false, []bool{false, true}, []string{"m 7 45"})
		},
		func(sz size) []*Op { return texts(piles...) }, 2, nil, what, false, nil)
	// halves of graphemes with a control between them: they stay apart
	heads := []string{"🇺", "🇩🇪🇺", "a🇺", "👩", "e", "\u0301", "e\u0301", "中", "👍", "क", "\u1100"}
	ctls := opsOf("BS", "CR", "LF", "BEL", "D", "C", "H", "m 1", "m", "SAVE", "KPAM", `osc 2 "🇸"`, "?l 25", "QKBD", "HT", "WRAP", "H 2 3", "X", "K 1")
	ctls = append(ctls, raw("\x00"), raw("\x1b[?9999h"), raw("\x1bPq🇸\x1b\\"), raw("\x1b(B"), raw("\x0e"))
	tails := []string{"🇸", "🇸🇺", "🇺🇸🇩", "\u0301", "👩a", "a", "🏽", "क\u093e", "\u1161"}
	c.scenarios("halves of graphemes around controls", len(heads)*len(ctls)*len(tails)*4, func(i int) scenario {
		cfg := []Config{{W: 7, H: 2, Grapheme: true}, {W: 7, H: 2, Grapheme: true, Grid: true}}[i%2]
		i /= 2
		joined := i%2 == 1
		i /= 2
		a, ctl, b := text(heads[i%len(heads)]), ctls[i/len(heads)%len(ctls)], text(tails[i/len(heads)/len(ctls)])
		ops := []*Op{op("H 1 2"), text("yz"), a, ctl, b, text("q")}
		if joined {
			ops = []*Op{op("H 1 2"), text("yz"), seq(a, ctl, b, op("C"), text("q"))}
		}
		return scenario{cfg, ops, 0}
	}, what, false, nil)
	c.inTheMiddle([]Config{spanRune, gridRune, spanGrapheme, gridGrapheme}, []size{{4, 2}, {2, 3}, {5, 1}}, []int{loCells, loWide, loHalf}, []bool{false, true}, what, false, texts("é", "中", "𐍈", "⸻", "\U0001f44d"), texts("a", "文"), nil)
	c.matrix("text, in several styles", []Config{spanRune, gridRune, spanGrapheme}, []size{{2, 1}, {4, 1}, {3, 2}},
		func(sz size) [][]*Op {
			return situations(sz, []int{loErased, loBlank, loCells, loWide}, false, []bool{false, true}, append(blankStyles, "m 0 32", "m 42", "m 95 105", "m 38 5 1", "m 91"))
		},
		func(sz size) []*Op { return texts("a", " ", "  ", "中", "b中", "é", "abcd") }, 1, nil, what, false, nil)
	// long runs over several rows
	c.matrix("long text", []Config{spanRune, gridRune, spanGrapheme}, []size{{1, 3}, {2, 3}, {3, 3}, {5, 2}, {7, 3}, {80, 24}, {300, 5}},
		func(sz size) [][]*Op {
			var out [][]*Op
			for _, wr := range []string{"WRAP", "NWRAP"} {
				for x := 0; x < min(sz.w, 8); x++ {
					for y := 0; y < min(sz.h, 3); y++ {
						for _, lo := range []int{loRuns, loWide} {
							out = append(out, append(fill(lo, sz.w, sz.h), op(wr), op("m 41"), moveTo(sz.w-1-x, sz.h-1-y)))
						}
					}
				}
			}
			return out
		},
		func(sz size) []*Op {
			n := sz.w*sz.h + 3
			return texts(strings.Repeat("abcdefg", n/7+1), strings.Repeat("中", n/2+1), strings.Repeat("a中", n/3+1), strings.Repeat("中ab", n/4+1), strings.Repeat("é", n), strings.Repeat("\xff", n), strings.Repeat("x", n)+"中", strings.Repeat("x\xff中", n/4+1))
		}, 1, texts("q"), what, false, nil)
	for _, cfg := range []Config{{W: 3, H: 2}, {W: 4, H: 2}, {W: 2, H: 3}, {W: 5, H: 1}, {W: 1, H: 2}, {W: 4, H: 2, Grapheme: true}, {W: 4, H: 2, Grid: true}, {W: 3, H: 2, Grid: true, Grapheme: true}} {
		c.search(Search{Name: "text", Cfg: cfg, Ops: c03alphabet(cfg), What: what, Depth: pick(c, 4, 6), States: pick(c, 30000, 2000000)})
	}
}
