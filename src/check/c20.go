package main

import (
	"fmt"
	"sort"
	"strings"
	"time"

	tm "github.com/ricochet1k/termemu"
)

// C20: the product of a span-backed and a grid-backed terminal.

func init() {
	register("C20", "model_checking", 250*time.Second, 50*time.Minute, c20)
}

// half is one of the two terminals after an operation.
type half struct {
	d    *drv
	rows [2][][]Cell
	key  strings.Builder
}

// runHalf runs the operations, paying attention to what the last ones announce.
func runHalf(w *worker, cfg Config, ops []*Op, from int, each func(i int, h *half) error) error {
	d := newDrv(cfg, w)
	d.rec.shadow = true
	h := &half{d: d}
	d.before = func(i int) {
		if i < from {
			return
		}
		r := d.rec
		W, H := d.t.Size()
		r.wantTouch = true
		r.touched = make([][]bool, H)
		for y := range r.touched {
			r.touched[y] = make([]bool, W)
		}
		r.lost = nil
		r.cursorN, r.styleN, r.bells = 0, 0, 0
	}
	d.onStep = func(i int) error {
		if i < from {
			return nil
		}
		return each(i, h)
	}
	return d.run(ops)
}

// halfState is what is compared.
type halfState struct {
	rows    [2][][]Cell
	x, y    [2]int
	wrap    [2]bool
	st      [2]Sty
	top     [2]int
	bot     [2]int
	touched [][]bool
	lost    [][]Cell
	cx, cy  int
	moved   bool
	style   Sty
	text    string
	shadow  error
	layout  string
}

func (h *half) state() (*halfState, error) {
	d := h.d
	s := &halfState{touched: d.rec.touched, lost: d.rec.lost, cx: d.rec.cx, cy: d.rec.cy, moved: d.rec.cursorN > 0}
	var err error
	one := func(i int) {
		w, hh := d.t.Size()
		for y := 0; y < hh; y++ {
			r, e := d.rowCells(y)
			if e != nil {
				err = e
			}
			s.rows[i] = append(s.rows[i], r)
		}
		_ = w
		x, y, wrap, st := tm.VerifState(d.t)
		s.x[i], s.y[i], s.wrap[i] = x, y, wrap
		if s.st[i], err = d.sty(st); err != nil {
			return
		}
		s.top[i], s.bot[i] = tm.VerifMargins(d.t)
	}
	one(0)
	tm.VerifOther(d.t, func() { one(1) })
	if err != nil {
		return nil, err
	}
	if d.rec.styleN > 0 {
		if s.style, err = d.sty(d.rec.style); err != nil {
			return nil, err
		}
	}
	if d.rec.err != nil {
		return nil, d.rec.err
	}
	s.shadow = d.cmpShadow()
	s.text = fmt.Sprint(d.rec.bells, d.rec.vf, d.rec.vi, d.rec.vs, string(d.out), tm.VerifOnAlt(d.t), tm.VerifKeyboard(d.t), d.rec.styleN > 0)
	var b strings.Builder
	d.deepKey(&b)
	s.layout = b.String()
	return s, nil
}

func sameRows(what string, a, b [][]Cell) error {
	if len(a) != len(b) {
		return fmt.Errorf("%s: %d and %d rows", what, len(a), len(b))
	}
	for y := range a {
		if !sameRow(a[y], b[y]) {
			for x := range a[y] {
				if x < len(b[y]) && a[y][x] != b[y][x] {
					return fmt.Errorf("%s: row %d col %d is %q %v on the span screen and %q %v on the grid screen\n  span %s\n  grid %s",
						what, y, x, a[y][x].T, a[y][x].S, b[y][x].T, b[y][x].S, cellsString(a[y]), cellsString(b[y]))
				}
			}
			return fmt.Errorf("%s: row %d has %d and %d cells", what, y, len(a[y]), len(b[y]))
		}
	}
	return nil
}

// equal compares a span-backed terminal with a grid-backed one.
func (s *halfState) equal(g *halfState, resized bool) error {
	for i, what := range []string{"active screen", "inactive screen"} {
		if err := sameRows(what, s.rows[i], g.rows[i]); err != nil {
			return err
		}
		if s.x[i] != g.x[i] || s.y[i] != g.y[i] {
			return fmt.Errorf("%s: the cursor is at %d,%d on the span screen and %d,%d on the grid screen", what, s.x[i], s.y[i], g.x[i], g.y[i])
		}
		if s.top[i] != g.top[i] || s.bot[i] != g.bot[i] {
			return fmt.Errorf("%s: the scroll region is %d..%d on the span screen and %d..%d on the grid screen", what, s.top[i], s.bot[i], g.top[i], g.bot[i])
		}
		if s.wrap[i] != g.wrap[i] || s.st[i] != g.st[i] {
			return fmt.Errorf("%s: style %v, autowrap %v on the span screen and %v, %v on the grid screen", what, s.st[i], s.wrap[i], g.st[i], g.wrap[i])
		}
	}
	if s.text != g.text {
		return fmt.Errorf("callbacks and replies: %s with the span screen, %s with the grid screen", s.text, g.text)
	}
	if s.cx != g.cx || s.cy != g.cy || s.style != g.style {
		return fmt.Errorf("the last CursorMoved said %d,%d and %d,%d; the last StyleChanged %v and %v", s.cx, s.cy, g.cx, g.cy, s.style, g.style)
	}
	if s.moved != g.moved {
		return fmt.Errorf("CursorMoved was called: %v with the span screen, %v with the grid screen", s.moved, g.moved)
	}
	if err := sameRows("ScrollLines", s.lost, g.lost); err != nil {
		return err
	}
	if s.shadow != nil {
		return fmt.Errorf("span screen: %w", s.shadow)
	}
	if g.shadow != nil {
		return fmt.Errorf("grid screen: %w", g.shadow)
	}
	if resized {
		return nil
	}
	for y := range s.touched {
		for x := range s.touched[y] {
			if s.touched[y][x] != g.touched[y][x] {
				return fmt.Errorf("RegionChanged announced row %d col %d: %v with the span screen, %v with the grid screen", y, x, s.touched[y][x], g.touched[y][x])
			}
		}
	}
	return nil
}

// lockstep runs both and compares after the operations from the given one on,
// as long as the model says that they are inside of the domain.
func lockstep(w *worker, cfg Config, ops []*Op, from int, m *Model, saw func(key string)) (string, error) {
	if m == nil {
		m = newModel(cfg)
		for i, o := range ops {
			m.begin()
			o.F(m)
			if m.Inside {
				if i <= from {
					return "", errSkip
				}
				ops = ops[:i]
				break
			}
		}
	}
	cfg.Grid = false
	var span []*halfState
	last := ""
	err := runHalf(w, cfg, ops, from, func(i int, h *half) error {
		s, err := h.state()
		span = append(span, s)
		return err
	})
	if err != nil {
		return "", fmt.Errorf("span screen: %w", err)
	}
	cfg.Grid = true
	k := 0
	err = runHalf(w, cfg, ops, from, func(i int, h *half) error {
		g, err := h.state()
		if err != nil {
			return err
		}
		s := span[k]
		k++
		if err := s.equal(g, ops[i].RW > 0); err != nil {
			return err
		}
		last = fmt.Sprint(s.layout, "#", s.x, s.y, s.wrap, s.st, s.top, s.bot, s.text)
		if saw != nil {
			saw(last)
		}
		return nil
	})
	return last, err
}

func c20(c *Check) {
	if !tm.VerifGrid {
		c.bound("the grid buffer cannot be reached here: nothing was compared")
		return
	}
	alphabet := func(cfg Config) []*Op {
		w, h := cfg.W, cfg.H
		ops := texts("a", "bcd", "中", "x文", "\xff")
		if cfg.Grapheme {
			ops = append(ops, texts("e\u0301", "👍🏽", "\u0301")...)
		}
		ops = append(ops, opsOf("H", fmt.Sprintf("H %d %d", h, w), "H 2 2", "LF", "RI", "BS", "HT", "m 31", "m 7 44", "m", "K", "K 1", "J", "J 1", "X 2", "P", "L", "M", "S", "T", "r 1 2", "r 2 3", "r", "WRAP", "NWRAP", "ALT", "MAIN", "SAVE", "H 9 9 | SAVE | H", "REST", "CPR", "IND", "C", "A")...)
		return append(ops, resizeOp(w+1, h), resizeOp(max(1, w-1), h+1))
	}
	for _, cfg := range []Config{{W: 3, H: 2}, {W: 2, H: 3}, {W: 4, H: 2, Grapheme: true}, {W: 1, H: 2}, {W: 5, H: 1}} {
		c.search(Search{Name: "lockstep", Cfg: cfg, Ops: alphabet(cfg), Depth: pick(c, 4, 6), States: pick(c, 3000, 400000), Step: func(w *worker, ops []*Op, m *Model) (string, error) {
			if m.Inside {
				return "", errSkip
			}
			return lockstep(w, cfg, ops, len(ops)-1, m, nil)
		}})
	}
	los := []int{loRuns, loCells, loWide, loHalf}
	c.lockMatrix("erase", false, append(sizesUpTo(4, 2), size{3, 3}, size{9, 1}),
		func(sz size) [][]*Op {
			return situations(sz, append(los, loBlank), false, []bool{false}, []string{"m 7 45"})
		},
		func(sz size) []*Op { return eraseOps(sz.w, sz.h, false) }, 1)
	c.lockMatrix("motion", false, append(sizesUpTo(3, 2), size{2, 4}, size{9, 2}),
		func(sz size) [][]*Op {
			return situations(sz, []int{loCells}, true, []bool{false, true}, []string{"m 7"})
		},
		func(sz size) []*Op { return motionOps(sz.w, sz.h, false) }, 1)
	c.lockMatrix("scroll", false, append(sizesUpTo(2, 3), size{3, 3}, size{2, 4}, size{4, 3}),
		func(sz size) [][]*Op {
			return situations(sz, []int{loCells, loWide}, true, []bool{true}, []string{"m 7 45"})
		},
		func(sz size) []*Op {
			return append(scrollOps(sz.h, false), texts("xyz", "中", "文z", strings.Repeat("w", sz.w), strings.Repeat("v", sz.w*sz.h+1), strings.Repeat("中", sz.w/2*sz.h+1))...)
		}, 1)
	var runs []string
	for _, a := range []string{"a", "中", "\xff", "é"} {
		runs = append(runs, a)
		for _, b := range []string{"a", "中", "\xff", "é"} {
			runs = append(runs, a+b)
			for _, d := range []string{"a", "中"} {
				runs = append(runs, a+b+d)
			}
		}
	}
	for _, g := range []bool{false, true} {
		r := runs
		if g {
			r = append(append([]string(nil), "\u0301", "\u0301a", "\u0301\u0302中", "e\u0301", "👩\u200d👩a", "🇺🇸", "🇺🇸🇩🇪b", "中\u0301", "👍🏽c", "1\ufe0f\u20e3"), runs[:8]...)
		}
		c.lockMatrix("text", g, append(sizesUpTo(5, 1), size{2, 2}, size{3, 2}, size{4, 3}),
			func(sz size) [][]*Op { return situations(sz, los, sz.h == 3, []bool{false, true}, []string{"m 7 45"}) },
			func(sz size) []*Op { return texts(r...) }, 1)
	}
	c.lockMatrix("rows of hundreds of runs", false, manySizes, manySits, func(sz size) []*Op { return manyOps() }, 1)
	c.lockMatrix("graphemes of hundreds of columns", true, clusterSizes, clusterSits,
		func(sz size) []*Op { return append(wideClusters(), opsOf("P", "X", "K 1", "D 3", "D 200", "BS")...) }, 2)
	var piles []string
	for _, n := range []int{1, 2, 3, 5, 8, 12} {
		piles = append(piles, "e"+strings.Repeat("\u0301", n), strings.Repeat("\u0302", n), "中"+strings.Repeat("\u0301", n)+"b", "👩"+strings.Repeat("\u200d👩", n))
	}
	piles = append(piles, "e"+strings.Repeat("\u0301", 40), "e"+strings.Repeat("\u0301", 300), "a", "中")
	c.lockMatrix("piles of marks", true, []size{{1, 1}, {3, 1}, {4, 2}},
		func(sz size) [][]*Op {
			return situations(sz, []int{loCells, loWide}, false, []bool{false, true}, []string{"m 7 45"})
		},
		func(sz size) []*Op { return texts(piles...) }, 2)
	for _, g := range []bool{false, true} {
		c.lockMatrix("characters of three and four columns", g, vastSizes,
			func(sz size) [][]*Op {
				return append(situations(sz, []int{loVast}, sz.h < 3, []bool{false, true}, []string{"m 7 45"}), situations(sz, []int{loRuns}, false, []bool{false, true}, []string{"m 31"})...)
			},
			func(sz size) []*Op {
				return append(append(append(vastTexts(), eraseOps(sz.w, sz.h, false)...), opsOf("LF", "RI", "L", "M", "S", "T")...), resizesAround(Config{W: sz.w, H: sz.h})...)
			}, 1)
	}
	if c.thorough() {
		c.lockMatrix("two operations", false, []size{{2, 2}, {3, 2}, {3, 3}, {4, 1}},
			func(sz size) [][]*Op {
				return situations(sz, []int{loCells, loWide}, true, []bool{false, true}, []string{"m 7 45"})
			},
			func(sz size) []*Op { return alphabet(Config{W: sz.w, H: sz.h}) }, 2)
	}
	for _, g := range []bool{false, true} {
		all := everyOps(g)
		c.locksteps(fmt.Sprintf("every character, grapheme %v", g), len(all), func(i int) scenario {
			return scenario{Config{W: everyW, H: everyH, Grapheme: g}, []*Op{op("m 4 31"), seq(all[i]...), op("P 3"), op("X 7"), op("H 7 9"), op("P"), op("J 1")}, 0}
		})
	}
	// every two operations in turn, on larger screens
	for _, cfg := range []Config{{W: 7, H: 5}, {W: 12, H: 4}, {W: 20, H: 8}, {W: 9, H: 6, Grapheme: true}, {W: 80, H: 24}} {
		ops := append(alphabet(cfg), opsOf("B 3", "D 2", "C 4", "H 3 4", "S 2", "T 3", "L 2", "M 3", "P 3", "X 5", "r 2 4", "m 1 38 5 9", "m 48 2 1 2 3", "DEL", "CR")...)
		ops = append(ops, texts("hello, world", "中文字", "aé中b")...)
		k, gen := pairsAt(cfg, ops, pick(c, 32, 64), func(i int) []*Op {
			s := fill(los[i%4], cfg.W, cfg.H)
			if i/4%2 == 1 {
				s = append(s, op("WRAP"))
			}
			return s
		})
		c.locksteps("every pair in turn "+cfg.String(), k, func(i int) scenario {
			s := within(cfg, gen(i))
			return scenario{cfg, s, 0}
		})
	}
}

// debruijn lists every word of n letters of k once, in one cyclic sequence.
func debruijn(k, n int) []int {
	a := make([]int, k*n)
	var out []int
	var db func(t, p int)
	db = func(t, p int) {
		if t > n {
			if n%p == 0 {
				out = append(out, a[1:p+1]...)
			}
			return
		}
		a[t] = a[t-p]
		db(t+1, p)
		for j := a[t-p] + 1; j < k; j++ {
			a[t] = j
			db(t+1, t)
		}
	}
	db(1, 1)
	return append(out, out[:n-1]...)
}

// within leaves out the operations that would leave the domain.
func within(cfg Config, ops []*Op) []*Op {
	m := newModel(cfg)
	var out []*Op
	for _, o := range ops {
		m2 := m.clone()
		m2.begin()
		o.F(m2)
		if m2.Inside {
			continue
		}
		m = m2
		out = append(out, o)
	}
	return out
}

// locksteps compares both buffers along each of n sequences.
func (c *Check) locksteps(name string, n int, gen func(i int) scenario) {
	if c.stop.Load() {
		return
	}
	var runs, steps atomicCount
	c.each(n, func(w *worker, i int) {
		sc := gen(i)
		_, err := lockstep(w, sc.cfg, sc.ops, sc.from, nil, func(key string) {
			steps.add(1)
			c.saw(hashOf(key))
		})
		if err == errSkip {
			return
		}
		runs.add(1)
		if i == n/2 {
			c.sample(map[string]any{"lockstep": name, "config": sc.cfg.String(), "ops": specs(sc.ops[:min(len(sc.ops), 60)])})
		}
		if err == nil {
			return
		}
		c.failMu.Lock()
		defer c.failMu.Unlock()
		if c.stop.Load() {
			return
		}
		ops := sc.ops
		ops = ops[:sort.Search(len(ops), func(k int) bool {
			_, e := lockstep(nil, sc.cfg, sc.ops[:k], 0, nil, nil)
			return e != nil && e != errSkip
		})]
		c.fail(Violation{Config: sc.cfg, Ops: specs(ops), What: name, Error: err.Error()}, func() error {
			_, err := lockstep(nil, sc.cfg, ops, 0, nil, nil)
			if err == errSkip {
				err = nil
			}
			return err
		})
	})
	c.transitions.Add(steps.get())
	c.traces.Add(runs.get())
	c.bound("%s: %d sequences, %d compared steps", name, runs.get(), steps.get())
}

// lockMatrix is matrix for both buffers.
func (c *Check) lockMatrix(name string, grapheme bool, sizes []size, sit func(sz size) [][]*Op, ops func(sz size) []*Op, n int) {
	type block struct {
		sz   size
		sits [][]*Op
		ops  []*Op
		n    int
	}
	var blocks []block
	total := 0
	for _, sz := range sizes {
		b := block{sz, sit(sz), ops(sz), 0}
		b.n = len(b.sits)
		for i := 0; i < n; i++ {
			b.n *= len(b.ops)
		}
		total += b.n
		blocks = append(blocks, b)
	}
	c.locksteps(name, total, func(i int) scenario {
		for _, b := range blocks {
			if i >= b.n {
				i -= b.n
				continue
			}
			s := append([]*Op(nil), b.sits[i%len(b.sits)]...)
			i /= len(b.sits)
			from := len(s)
			for j := 0; j < n; j++ {
				s = append(s, b.ops[i%len(b.ops)])
				i /= len(b.ops)
			}
			return scenario{Config{W: b.sz.w, H: b.sz.h, Grapheme: grapheme}, s, from}
		}
		panic("lockMatrix")
	})
}

// pairsAt is one history, cut into parts, in which every two operations follow
// each other.
func pairsAt(cfg Config, alphabet []*Op, parts int, start func(i int) []*Op) (n int, gen func(i int) []*Op) {
	db := debruijn(len(alphabet), 2)
	per := (len(db) + parts - 1) / parts
	return parts, func(i int) []*Op {
		s := append([]*Op(nil), start(i)...)
		for _, j := range db[i*per : min((i+1)*per+1, len(db))] {
			s = append(s, alphabet[j])
		}
		return s
	}
}
