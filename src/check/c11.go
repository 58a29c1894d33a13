package main

import (
	"bytes"
	"fmt"
	"sort"
	"strconv"
	"strings"
	"time"

	tm "github.com/ricochet1k/termemu"
)

func init() { register("C11", "model_checking", 250*time.Second, 50*time.Minute, c11) }

// interp makes the model read what a terminal would be sent. Only text, cursor
// positioning, SGR and a few modes are understood; it says whether the cursor
// is shown.
func (m *Model) interp(s string, shown *bool) error {
	for s != "" {
		i := strings.IndexByte(s, 27)
		if i < 0 {
			i = len(s)
		}
		if i > 0 {
			for j := 0; j < i; j++ {
				if s[j] < 32 || s[j] == 127 {
					return fmt.Errorf("control byte %q in %q", s[j], s)
				}
			}
			text(s[:i]).F(m)
			s = s[i:]
			continue
		}
		j := 2
		for j < len(s) && (s[j] < 0x40 || s[j] > 0x7e) {
			j++
		}
		if j >= len(s) || s[1] != '[' {
			return fmt.Errorf("not a sequence: %q", s)
		}
		params, final := s[2:j], s[j]
		s = s[j+1:]
		var a []int
		if params != "" && params[0] != '?' {
			for _, f := range strings.Split(params, ";") {
				n, err := strconv.Atoi(f)
				if err != nil && f != "" {
					return fmt.Errorf("parameters %q", params)
				}
				a = append(a, n)
			}
		}
		switch final {
		case 'H', 'f':
			csiops["H"](m, a)
		case 'm':
			csiops["m"](m, a)
		case 's':
			m.save()
		case 'u':
			m.restore()
		case 'h', 'l':
			switch params {
			case "?7":
				m.decset(7, final == 'h')
			case "?25":
				*shown = final == 'h'
			default:
				return fmt.Errorf("mode %q", params)
			}
		default:
			return fmt.Errorf("unexpected sequence CSI %s %c", params, final)
		}
	}
	return nil
}

func sameRow(a, b []Cell) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// roundTrip feeds the rendered rows to the model and to a fresh terminal.
func (c *Check) roundTrip(d *drv, m *Model) error {
	if tm.VerifOnAlt(d.t) && m.Alt == 0 {
		return fmt.Errorf("on the wrong screen")
	}
	_, h := d.t.Size()
	w, _ := d.t.Size()
	cfg := Config{W: w, H: h, Grid: d.cfg.Grid, Grapheme: d.cfg.Grapheme}
	m2 := newModel(cfg)
	shown := true
	ops := make([]*Op, 0, h)
	for y := 0; y < h; y++ {
		s := fmt.Sprintf("\x1b[%d;1H", y+1) + d.t.ANSILine(y)
		if err := m2.interp(s, &shown); err != nil {
			return fmt.Errorf("ANSILine(%d): %w", y, err)
		}
		ops = append(ops, &Op{Bytes: s})
	}
	for y := 0; y < h; y++ {
		if !sameRow(m2.s().Rows[y], m.s().Rows[y]) {
			return fmt.Errorf("row %d is %s, ANSILine(%d) %q shows %s", y, cellsString(m.s().Rows[y]), y, d.t.ANSILine(y), cellsString(m2.s().Rows[y]))
		}
	}
	d2 := newDrv(cfg, nil)
	d2.w = nil
	if err := d2.run(ops); err != nil {
		return err
	}
	if d.w != nil {
		d2.w = d.w // for its cache of styles
	}
	for y := 0; y < h; y++ {
		if err := d2.cmpRow(&Model{}, m.s(), y); err != nil {
			return fmt.Errorf("rendered again from %q: %w", ops[y].Bytes, err)
		}
	}
	return nil
}

// mirror is a TTYFrontend whose output two outer terminals interpret: the
// model, and another termemu terminal.
type mirror struct {
	f       *tm.TTYFrontend
	buf     bytes.Buffer
	region  tm.Region
	att     bool
	focus   bool
	shown   bool // the inner terminal shows its cursor
	outs    []string
	want    []wantScr
	outer   *Model
	visible bool
	split   bool // a wide character crosses the edge of the region
}

type wantScr struct {
	rows   [][]Cell // of the outer screen, nil when not known
	cx, cy int
	cursor bool // whether the cursor is checked
	vis    bool
}

func (k *mirror) Write(p []byte) (int, error) { return k.buf.Write(p) }

// mirrorOps interpret ATTACH x y x2 y2, DETACH, FOCUS and BLUR.
func (k *mirror) op(spec string) *Op {
	var r tm.Region
	switch {
	case spec == "DETACH":
		return &Op{Spec: spec, F: func(m *Model) {}, Do: func(d *drv) { k.att = false; k.f.Detach() }}
	case spec == "SETFOCUS":
		return &Op{Spec: spec, F: func(m *Model) {}, Do: func(d *drv) { k.focus = true; k.f.SetFocus(true) }}
	case spec == "SETBLUR":
		return &Op{Spec: "BLUR", F: func(m *Model) {}, Do: func(d *drv) { k.focus = false; k.f.SetFocus(false) }}
	case spec == "FOCUS":
		return &Op{Spec: spec, F: func(m *Model) {}, Do: func(d *drv) { k.focus = true; k.f.Focus() }}
	case spec == "BLUR":
		return &Op{Spec: spec, F: func(m *Model) {}, Do: func(d *drv) { k.focus = false; k.f.Blur() }}
	}
	var w, h int
	if _, err := fmt.Sscanf(spec, "RESIZED %d %d %d %d %d %d", &w, &h, &r.X, &r.Y, &r.X2, &r.Y2); err == nil {
		// nobody says what a resize changed: the frontend is attached again
		return &Op{Spec: spec, F: func(m *Model) { m.resize(w, h) }, Do: func(d *drv) {
			k.region, k.att = r, true
			d.resize(w, h)
			k.f.Attach(r)
		}}
	}
	if _, err := fmt.Sscanf(spec, "ATTACH %d %d %d %d", &r.X, &r.Y, &r.X2, &r.Y2); err != nil {
		return op(spec)
	}
	return &Op{Spec: spec, F: func(m *Model) {}, Do: func(d *drv) {
		k.region, k.att = r, true
		k.f.Attach(r)
	}}
}

// mirrorRun runs a program on a terminal with a TTYFrontend.
func mirrorRun(w *worker, cfg Config, prog []string, saw func(m *Model)) error {
	k := &mirror{focus: true, shown: true, visible: true}
	// OUTER w h wrap: how much larger the outer terminal is, and whether it
	// starts with autowrap on
	dw, dh, wrap := 2, 1, 0
	if len(prog) > 0 && strings.HasPrefix(prog[0], "OUTER ") {
		fmt.Sscanf(prog[0], "OUTER %d %d %d", &dw, &dh, &wrap)
		prog = prog[1:]
	}
	d := newDrv(cfg, w)
	k.f = tm.NewTTYFrontend(nil, k)
	d.fwd = k.f
	ops := make([]*Op, 0, len(prog)+1)
	ops = append(ops, &Op{Do: func(d *drv) { k.f.SetTerminal(d.t) }, F: func(m *Model) {}})
	for _, s := range prog {
		ops = append(ops, k.op(s))
	}
	m := newModel(cfg)
	oc := Config{W: cfg.W + dw, H: cfg.H + dh, Grapheme: cfg.Grapheme}
	k.outer = newModel(oc)
	for y := 0; y < oc.H; y++ {
		k.outer.at(0, y)
		text(strings.Repeat("#", oc.W)).F(k.outer)
	}
	if wrap == 1 {
		op("WRAP").F(k.outer)
	}
	hash := k.outer.clone()
	wasAtt := false
	prev := k.outer.clone()
	d.onStep = func(i int) error {
		o := ops[i]
		m.begin()
		shownBefore := m.VF[vfShow]
		o.F(m)
		if m.VF[vfShow] != shownBefore || strings.HasPrefix(o.Spec, "?") && strings.Contains(o.Spec, "25") {
			k.shown = m.VF[vfShow]
		}
		if saw != nil {
			saw(m)
		}
		out := k.buf.String()
		k.buf.Reset()
		if !k.att {
			want := ""
			if o.Spec == "DETACH" || o.Spec == "BLUR" {
				want = "\x1b[?25h"
			}
			if out != want && !(o.Spec == "BLUR" && out == "") {
				return fmt.Errorf("wrote %q while detached", out)
			}
		}
		if err := k.outer.interp(out, &k.visible); err != nil {
			return fmt.Errorf("wrote %q: %w", out, err)
		}
		// the inner screen must be the model's
		for y := range m.s().Rows {
			if err := d.cmpRow(m, m.s(), y); err != nil {
				return err
			}
		}
		ws := wantScr{}
		r := k.region
		in := func(x, y int) bool {
			return x >= r.X && x < r.X2 && y >= r.Y && y < r.Y2
		}
		if k.att {
			for y := range m.s().Rows {
				row := m.s().Rows[y]
				for x := range row {
					if row[x].W == 0 && in(x, y) != in(x-1, y) {
						k.split = true
					}
				}
			}
		}
		if m.Resized {
			// so may one that is still outside of what is left of the screen
			drawn := func(x, y int) bool { return in(x, y) && x < m.s().W && y < m.s().H }
			for y, row := range prev.s().Rows {
				for x := range row {
					if row[x].W == 0 && drawn(x, y) != drawn(x-1, y) {
						k.split = true
					}
				}
			}
		}
		if k.split {
			// what is drawn there is not specified
			return nil
		}
		expect := prev
		if k.att {
			expect = prev.clone()
			for y := 0; y < min(m.s().H, oc.H); y++ {
				for x := 0; x < min(m.s().W, oc.W); x++ {
					if in(x, y) {
						expect.s().Rows[y][x] = m.s().Rows[y][x]
					}
				}
			}
		}
		if m.Resized {
			// what the screen no longer has, or the region before had
			for y := range expect.s().Rows {
				for x := range expect.s().Rows[y] {
					if !in(x, y) || x >= m.s().W || y >= m.s().H {
						expect.s().Rows[y][x] = k.outer.s().Rows[y][x]
					}
				}
			}
		}
		prev = expect
		for y := 0; y < oc.H; y++ {
			if !sameRow(expect.s().Rows[y], k.outer.s().Rows[y]) {
				return fmt.Errorf("outer row %d is %s, expected %s\n  after %q", y, cellsString(k.outer.s().Rows[y]), cellsString(expect.s().Rows[y]), out)
			}
		}
		ws.rows = make([][]Cell, oc.H)
		for y := range ws.rows {
			ws.rows[y] = append([]Cell(nil), expect.s().Rows[y]...)
		}
		if k.att && k.focus {
			ws.cursor = true
			ws.vis = k.shown && in(m.s().CX, m.s().CY)
			ws.cx, ws.cy = m.s().CX, m.s().CY
			if k.visible != ws.vis {
				return fmt.Errorf("the outer cursor is shown: %v, expected %v (inner %d,%d, region %v)\n  after %q", k.visible, ws.vis, m.s().CX, m.s().CY, r, out)
			}
			if ws.vis && (k.outer.s().CX != ws.cx || k.outer.s().CY != ws.cy) {
				return fmt.Errorf("the outer cursor is at %d,%d, the inner one at %d,%d\n  after %q", k.outer.s().CX, k.outer.s().CY, ws.cx, ws.cy, out)
			}
		}
		if out != "" {
			k.outs = append(k.outs, out)
			k.want = append(k.want, ws)
		} else if len(k.want) > 0 {
			k.want[len(k.want)-1] = ws
		}
		wasAtt = k.att
		return nil
	}
	_ = wasAtt
	if err := d.run(ops); err != nil {
		return err
	}
	// and once more with a real terminal outside
	var oops []*Op
	for y := 0; y < oc.H; y++ {
		oops = append(oops, moveTo(0, y), text(strings.Repeat("#", oc.W)))
	}
	if wrap == 1 {
		oops = append(oops, op("WRAP"))
	}
	n := len(oops)
	for _, s := range k.outs {
		oops = append(oops, &Op{Bytes: s})
	}
	d2 := newDrv(oc, w)
	d2.onStep = func(i int) error {
		if i < n || i-n >= len(k.want) {
			return nil
		}
		ws := k.want[i-n]
		s := hash.s()
		s.Rows = ws.rows
		for y := range ws.rows {
			if err := d2.cmpRow(&Model{}, s, y); err != nil {
				return fmt.Errorf("outer terminal, after %q: %w", oops[i].Bytes, err)
			}
		}
		if ws.cursor {
			vis := d2.rec.vf[vfShow] || d2.rec.vfN[vfShow] == 0
			if vis != ws.vis || vis && (d2.rec.cx != ws.cx || d2.rec.cy != ws.cy) {
				return fmt.Errorf("outer terminal's cursor is at %d,%d, shown %v, expected %d,%d, %v, after %q", d2.rec.cx, d2.rec.cy, vis, ws.cx, ws.cy, ws.vis, oops[i].Bytes)
			}
		}
		return nil
	}
	return d2.run(oops)
}

func (c *Check) mirrors(name string, n int, gen func(i int) (Config, []string)) {
	if c.stop.Load() {
		return
	}
	var done, steps atomicCount
	c.each(n, func(w *worker, i int) {
		cfg, prog := gen(i)
		if cfg.Grid && !tm.VerifGrid {
			return
		}
		err := mirrorRun(w, cfg, prog, func(m *Model) {
			w.buf.Reset()
			fmt.Fprint(&w.buf, cfg, " mirrored ")
			m.key(&w.buf)
			c.saw(hashOf(w.buf.String()))
		})
		done.add(1)
		steps.add(int64(len(prog)))
		if i == n/2 || i == n/5 {
			c.sample(map[string]any{"mirror": name, "config": cfg.String(), "ops": prog})
		}
		if err != nil {
			c.failMu.Lock()
			defer c.failMu.Unlock()
			if c.stop.Load() {
				return
			}
			full := prog
			prog = prog[:sort.Search(len(prog), func(k int) bool { return k > 1 && mirrorRun(nil, cfg, full[:k], nil) != nil })]
			c.fail(Violation{Config: cfg, What: name, Note: fmt.Sprintf("%q", prog), Error: err.Error()}, func() error { return mirrorRun(nil, cfg, prog, nil) })
		}
	})
	c.transitions.Add(steps.get())
	c.traces.Add(done.get())
	c.bound("%s: %d of %d programs, %d steps", name, done.get(), n, steps.get())
}

func c11(c *Check) {
	extra := func(d *drv, m *Model) error { return c.roundTrip(d, m) }
	c.real(nil, cmpContent, false, func(d *drv, m *Model) error {
		if d.pos%6 != 0 {
			return nil
		}
		return c.roundTrip(d, m)
	})
	c.every([]Config{spanRune, gridRune, spanGrapheme, gridGrapheme}, cmpContent, false, nil, extra)
	for _, g := range []bool{false, true} {
		all := everyOps(g)
		cfg := Config{W: everyW, H: everyH, Grapheme: g}
		c.mirrors("mirror of every character, "+cfg.String(), len(all), func(i int) (Config, []string) {
			return cfg, []string{"m 4 31", fmt.Sprintf("ATTACH 0 0 %d %d", everyW, everyH), seq(all[i]...).Spec}
		})
	}
	for _, cfg := range realSizes {
		w, h := cfg.W, cfg.H
		ops := realOps(cfg)
		regs := []string{fmt.Sprintf("ATTACH 0 0 %d %d", w, h), fmt.Sprintf("ATTACH 0 %d %d %d", h/3, w, h-1), fmt.Sprintf("ATTACH 0 0 %d 1", w)}
		n, gen := pairsAt(cfg, ops, pick(c, 64, 128), func(i int) []*Op {
			if lo := i / 3 % nLayouts; lo != loBlank {
				return []*Op{seq(fill(lo, w, h)...)}
			}
			return nil
		})
		c.mirrors("mirror, every two operations in turn, "+cfg.String(), n, func(i int) (Config, []string) {
			prog := []string{fmt.Sprintf("OUTER %d %d %d", i%2, i/2%2, i/4%2), regs[i%3]}
			prog = append(prog, specs(gen(i))...)
			for k := 20; k < len(prog); k += 23 {
				prog[k] += []string{"", " | ?l 25", " | ?h 25"}[k%3]
			}
			return cfg, append(prog, "DETACH", "H", regs[i%3], `t "end"`)
		})
	}
	// reachable screens
	for _, cfg := range []Config{{W: 3, H: 2}, {W: 4, H: 1}, {W: 4, H: 2, Grapheme: true}, {W: 2, H: 2, Grapheme: true}, {W: 3, H: 2, Grid: true}} {
		ops := mixed(cfg)
		ops = append(ops, texts("é", "  ")...)
		if cfg.Grapheme {
			ops = append(ops, texts("👩\u200d👩", "🇺🇸", "中\u0301")...)
		}
		c.search(Search{Name: "reachable screens", Cfg: cfg, Ops: ops, What: cmpContent, Depth: pick(c, 4, 6), States: pick(c, 20000, 1000000), Extra: extra})
	}
	for _, g := range []bool{false, true} {
		cfgs := []Config{spanRune, gridRune}
		if g {
			cfgs = []Config{spanGrapheme}
		}
		c.matrix("screens after edits", cfgs, []size{{2, 1}, {3, 2}, {5, 2}, {8, 1}},
			func(sz size) [][]*Op {
				return situations(sz, []int{loBlank, loRuns, loCells, loWide, loHalf, loVast}, false, []bool{false, true}, []string{"m 3 45", "m 38 2 1 2 3"})
			},
			func(sz size) []*Op {
				out := append(eraseOps(sz.w, sz.h, false), texts("a", "ab", "中", "b中c", " ", "é𐍈", "\xff", "ÿ\u00a0")...)
				out = append(out, opsOf("L", "M", "S", "T", "LF")...)
				if g {
					out = append(out, texts("e\u0301", "👩\u200d👩x", "🇺🇸🇩🇪", "中\u0301a", "👍🏽")...)
				}
				return out
			}, 1, nil, cmpContent, false, extra)
	}
	// all styles
	modes := []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 21, 51, 52, 53}
	cols := [][2][]int{{nil, nil}, {{31}, {44}}, {{94}, {105}}, {{38, 5, 208}, {48, 5, 17}}, {{38, 2, 1, 2, 3}, {48, 2, 0, 0, 0}}, {{38, 5, 15}, nil}, {nil, {48, 2, 255, 254, 0}}, {{30}, {40}}, {{38, 5, 0}, {48, 5, 255}}}
	style := func(mask int, col [2][]int) []int {
		p := []int{0}
		for i, n := range modes {
			if mask>>i&1 == 1 {
				p = append(p, n)
			}
		}
		return append(append(p, col[0]...), col[1]...)
	}
	c.scenarios("all modes with colours", len(cols)<<13/4, func(i int) scenario {
		var ops []*Op
		col := cols[i%len(cols)]
		i = i / len(cols) * 4
		for k := 0; k < 4; k++ {
			ops = append(ops, op(sgr(style(i+k, col)...)), text("ab"[k%2:k%2+1]))
		}
		return scenario{Config{W: 4, H: 1, Grid: i%64 == 0}, append(ops, op("m"), op("CR")), len(ops) + 1}
	}, cmpContent, false, extra)
	var colours [][]int
	for n := 0; n < 256; n++ {
		for _, k := range []int{38, 48} {
			colours = append(colours, []int{k, 5, n}, []int{k, 2, n, 0, 0}, []int{k, 2, 0, n, 0}, []int{k, 2, 0, 0, n}, []int{k, 2, n, n, n}, []int{k, 2, n, 255 - n, 0})
		}
	}
	for n := 0; n < 8; n++ {
		colours = append(colours, []int{30 + n}, []int{40 + n}, []int{90 + n}, []int{100 + n})
	}
	c.scenarios("all colours", len(colours)*4, func(i int) scenario {
		a := colours[i/4]
		var ops []*Op
		switch i % 4 {
		case 0:
			ops = []*Op{op(sgr(a...)), text("abc")}
		case 1:
			ops = []*Op{text("a"), op(sgr(a...)), text("b"), op("m"), text("c")}
		case 2:
			ops = []*Op{op("m 97 107"), text("a"), op(sgr(a...)), text("b"), op("m 39 49"), text("c")}
		case 3:
			ops = []*Op{op("m 38 2 9 9 9 48 5 9"), op(sgr(a...)), op("K"), op("m 1"), text("c")}
		}
		return scenario{Config{W: 3, H: 1}, append(ops, op("m")), len(ops)}
	}, cmpContent, false, extra)
	st := styleSet()
	c.scenarios("styles next to styles", len(st)*len(st), func(i int) scenario {
		return scenario{Config{W: 4, H: 2, Grid: i%7 == 0}, opsOf(st[i%len(st)], `t "a"`, st[i/len(st)], `t "b"`, "H 2 1", `t "中"`, st[i%len(st)], "K", "m"), 8}
	}, cmpContent, false, extra)

	// a mirror of every region
	type mc struct {
		cfg Config
		att string
	}
	var regs []mc
	for _, sz := range pick(c, []size{{3, 3}, {2, 2}}, []size{{3, 3}, {2, 2}, {4, 3}, {1, 1}, {3, 4}}) {
		for y := 0; y < sz.h; y++ {
			for y2 := y; y2 <= sz.h+1; y2++ {
				for x := 0; x < sz.w; x++ {
					for x2 := x; x2 <= sz.w+1; x2++ {
						regs = append(regs, mc{Config{W: sz.w, H: sz.h}, fmt.Sprintf("ATTACH %d %d %d %d", x, y, x2, y2)})
					}
				}
			}
		}
	}
	regs = append(regs, mc{Config{W: 3, H: 2, Grapheme: true}, "ATTACH 0 0 3 2"}, mc{Config{W: 5, H: 2}, "ATTACH 0 1 5 2"}, mc{Config{W: 4, H: 2, Grid: true}, "ATTACH 0 0 4 2"}, mc{Config{W: 3, H: 2}, "ATTACH -1 -1 9 9"})
	base := []string{`H 1 1 | m 31 | t "abcd"`, `H 2 1 | m 4 42 | t "xyz"`, "H 2 2"}
	acts := []string{`t "q"`, `t "中"`, `t "mnopqrs"`, "LF", "RI", "H 1 1", "H 3 3", "H 2 2", "H 1 3", "K", "J", "J 2", "J 1", "X 2", "P", "L", "M", "S", "T", "?l 25", "?h 25", "WRAP", "r 2 3", "ALT", "MAIN", "m 7", "CR", "BS"}
	ctl := []string{"DETACH", "FOCUS", "BLUR", "ATTACH"}
	all := append(append([]string(nil), acts...), ctl...)
	depth := 2
	n := len(all) * len(all)
	c.mirrors("mirror of every region", len(regs)*n, func(i int) (Config, []string) {
		r := regs[i/n]
		i %= n
		prog := append(append([]string(nil), base...), r.att)
		for k := 0; k < depth; k++ {
			s := all[i%len(all)]
			if s == "ATTACH" {
				s = r.att
			}
			prog = append(prog, s)
			i /= len(all)
		}
		return r.cfg, append(prog, `t "z"`, r.att)
	})
	// an outer terminal of the same size, whose cursor may be anywhere, and
	// which wraps at its edges
	var outers []string
	for _, o := range []string{"0 0", "1 0", "0 1", "3 2"} {
		for _, wr := range []string{"0", "1"} {
			outers = append(outers, "OUTER "+o+" "+wr)
		}
	}
	var oregs []mc
	for _, r := range regs {
		if !strings.Contains(r.att, "4") && !strings.Contains(r.att, "-") {
			oregs = append(oregs, r)
		}
	}
	oacts := append([]string{"ATTACH", "ATTACH 0 0 2 2", "ATTACH 0 0 3 3", "DETACH"}, acts...)
	no := len(oregs) * len(oacts) * 4
	c.mirrors("outer terminals", len(outers)*no, func(i int) (Config, []string) {
		o := outers[i%len(outers)]
		i /= len(outers)
		r := oregs[i%len(oregs)]
		i /= len(oregs)
		prog := append([]string{o}, base...)
		if i%2 == 1 {
			prog = append(prog, "ATTACH 0 0 1 1", "H 1 1", "H 2 2")
		}
		i /= 2
		prog = append(prog, r.att)
		if i%2 == 1 {
			prog = append(prog, `H 3 1 | t "lmn"`, `H 1 1 | t "中"`)
		}
		i /= 2
		if s := oacts[i]; s == "ATTACH" {
			prog = append(prog, r.att)
		} else {
			prog = append(prog, s)
		}
		return r.cfg, append(prog, `t "z"`)
	})
	n3 := len(all) * n
	few := []mc{{Config{W: 3, H: 3}, "ATTACH 0 0 3 3"}, {Config{W: 3, H: 3}, "ATTACH 0 1 3 3"}, {Config{W: 3, H: 3, Grid: true}, "ATTACH 1 0 3 2"}, {Config{W: 4, H: 2, Grapheme: true}, "ATTACH 0 0 4 2"}, {Config{W: 2, H: 4}, "ATTACH 0 1 2 3"}}
	if !c.thorough() {
		few = few[:2]
	}
	c.mirrors("mirror, three operations", len(few)*n3, func(i int) (Config, []string) {
		r := few[i/n3]
		i %= n3
		prog := append([]string{r.att}, base...)
		for k := 0; k < 3; k++ {
			s := all[i%len(all)]
			if s == "ATTACH" {
				s = "ATTACH 0 0 2 2"
			}
			prog = append(prog, s)
			i /= len(all)
		}
		return r.cfg, prog
	})
	// attaching, detaching and focus in every order
	ctls := []string{"DETACH", "FOCUS", "BLUR", "ATTACH 0 0 3 2", "ATTACH 1 1 2 2", "ATTACH 1 1 1 2", "?l 25", "?h 25", "H 1 1", `H 2 2`, `t "a"`, "SETFOCUS", "SETBLUR", "ALT", "MAIN"}
	const words = 4
	nw := 1
	for i := 0; i < words; i++ {
		nw *= len(ctls)
	}
	c.mirrors("attaching and focus", nw*2, func(i int) (Config, []string) {
		prog := []string{`H 1 1 | m 31 | t "abc"`, "H 2 2"}
		if i%2 == 1 {
			prog = append(prog, "ATTACH 0 0 3 2")
		}
		i /= 2
		for k := 0; k < words; k++ {
			prog = append(prog, ctls[i%len(ctls)])
			i /= len(ctls)
		}
		return Config{W: 3, H: 2}, append(prog, `t "z"`, "ATTACH 0 0 3 2", "FOCUS", "CR")
	})
	// the inner screen is resized
	var news []string
	for _, s := range append(sizesUpTo(4, 3), size{2, 5}, size{6, 2}) {
		if s.w == 1 { // no room for the wide characters of the programs
			continue
		}
		for _, r := range []string{"0 0 9 9", "0 0 3 2", "0 1 2 3", "2 0 4 9"} {
			news = append(news, fmt.Sprintf("RESIZED %d %d %s", s.w, s.h, r))
		}
	}
	rbase := [][]string{base, {`H 1 1 | t "中文"`, `H 2 1 | t "a中b"`, "m 42", "H 3 3"}, {"ALT", `m 7 | t "xyz"`, "H 2 3", "?l 25"}}
	racts := []string{`t "q中"`, "LF", "H 9 9", "K", "X 2", "S", "ALT", "MAIN", "DETACH", "BLUR", "FOCUS", "?h 25", "H 2 1 | J"}
	nr := len(rbase) * len(news) * len(racts) * len(racts)
	c.mirrors("the inner screen is resized", 3*nr, func(i int) (Config, []string) {
		cfg := []Config{{W: 3, H: 3}, {W: 3, H: 3, Grid: true}, {W: 3, H: 3, Grapheme: true}}[i%3]
		i /= 3
		prog := append([]string{"OUTER 3 2 0"}, rbase[i%len(rbase)]...)
		i /= len(rbase)
		prog = append(prog, "ATTACH 0 0 3 3", racts[i%len(racts)])
		i /= len(racts)
		prog = append(prog, news[i%len(news)], racts[i/len(news)])
		return cfg, append(prog, `t "z"`, news[(i+7)%len(news)], `t "y"`)
	})
	// the mirror in every situation and every edit
	var edits []*Op
	edits = append(edits, eraseOps(4, 3, false)...)
	edits = append(edits, scrollOps(3, false)...)
	edits = append(edits, texts("a", "ab", "中", "b中c", "abcdefghijklm", "中文字語")...)
	edits = append(edits, opsOf("H 2 2", "H 3 4", "BS", "ALT", "r 1 2", "SAVE | H | REST")...)
	var sits [][]*Op
	sits = append(sits, situations(size{4, 3}, []int{loCells, loWide, loVast}, true, []bool{false, true}, []string{"m 7 45"})...)
	c.mirrors("mirror of every edit", len(sits)*len(edits), func(i int) (Config, []string) {
		s := specs(sits[i%len(sits)])
		reg := []string{"ATTACH 0 0 4 3", "ATTACH 0 1 4 2", "ATTACH 0 0 4 2", "ATTACH 0 2 4 3"}[i%4]
		prog := []string{strings.Join(s, " | "), reg}
		return Config{W: 4, H: 3, Grapheme: i%3 == 0}, append(prog, edits[i/len(sits)].Spec, `t "e"`)
	})
}
