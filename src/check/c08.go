package main

import (
	"fmt"
	"strings"
	"time"

	"github.com/rivo/uniseg"

	tm "github.com/ricochet1k/termemu"
)

func init() { register("C08", "model_checking", 250*time.Second, 60*time.Minute, c08) }

// rowRuns writes a row as runs of one style, however it is cut into spans.
func (d *drv) rowRuns(b *strings.Builder, y int) error {
	w, _ := d.t.Size()
	l := d.t.StyledLine(0, w, y)
	var cur Sty
	width := 0
	for i, sp := range l.Spans {
		st, err := d.sty(sp.Style)
		if err != nil {
			return err
		}
		if i == 0 || st != cur {
			fmt.Fprintf(b, "|%d{%v}", width, st)
			cur = st
		}
		width += sp.Width
		if sp.Text != "" {
			b.WriteString(sp.Text)
			continue
		}
		for j := 0; j < sp.Width; j++ {
			b.WriteRune(sp.Rune)
		}
	}
	fmt.Fprintf(b, "|%d\n", width)
	return nil
}

// signature is everything an input can be seen to have done.
func (d *drv) signature(b *strings.Builder) error {
	one := func() error {
		_, h := d.t.Size()
		for y := 0; y < h; y++ {
			if err := d.rowRuns(b, y); err != nil {
				return err
			}
		}
		return nil
	}
	if err := one(); err != nil {
		return err
	}
	if tm.VerifState0 {
		var err error
		tm.VerifOther(d.t, func() { err = one() })
		if err != nil {
			return err
		}
		x, y, wrap, st := tm.VerifState(d.t)
		t, bo := tm.VerifMargins(d.t)
		s, err := d.sty(st)
		if err != nil {
			return err
		}
		fmt.Fprintln(b, x, y, wrap, s, t, bo, tm.VerifOnAlt(d.t), tm.VerifKeyboard(d.t))
	}
	if g, ok := d.t.(viewGetter); ok {
		for i := range d.rec.vf {
			fmt.Fprint(b, g.GetViewFlag(tm.ViewFlag(i)), " ")
		}
		for i := range d.rec.vi {
			fmt.Fprint(b, g.GetViewInt(tm.ViewInt(i)), " ")
		}
		for i := range d.rec.vs {
			fmt.Fprintln(b, g.GetViewString(tm.ViewString(i)))
		}
	}
	s, err := d.sty(d.rec.style)
	if err != nil {
		return err
	}
	fmt.Fprintf(b, "cursor %d %d style %v replies %q bells %d flags %v ints %v strings %q\n", d.rec.cx, d.rec.cy, s, d.out, d.rec.bells, d.rec.vf, d.rec.vi, d.rec.vs)
	for _, e := range d.rec.events {
		switch e[:4] {
		case "bell", "flag", "int ", "stri":
			b.WriteString(e + "; ")
		}
	}
	b.WriteByte('\n')
	b.WriteString(d.rec.lostRuns.String())
	return nil
}

// program is an input whose segmentations are compared.
type program struct {
	cfg  Config
	pre  string // delivered on its own before
	body string
	post string // delivered after, alone or with the end of the body
}

// cuts lists where the body may be cut: before which of its bytes, or at its end.
func (p *program) cuts() []int {
	var out []int
	all := p.body + p.post
	if !p.cfg.Grapheme {
		for i := 1; i <= len(p.body); i++ {
			out = append(out, i)
		}
		return out
	}
	rest, state, pos := all, -1, 0
	for rest != "" {
		var c string
		c, rest, _, state = uniseg.StepString(rest, state)
		pos += len(c)
		if pos <= len(p.body) {
			out = append(out, pos)
		}
	}
	return out
}

// ops cuts the body where the mask says.
func (p *program) ops(cuts []int, mask uint64, sizes []int) []*Op {
	var ops []*Op
	if p.pre != "" {
		ops = append(ops, &Op{Bytes: p.pre})
	}
	all := p.body + p.post
	at := 0
	for i, k := range cuts {
		if mask>>uint(i)&1 == 1 {
			ops = append(ops, &Op{Bytes: all[at:k]})
			at = k
		}
	}
	return append(ops, &Op{Bytes: all[at:]})
}

func (p *program) run(w *worker, ops []*Op) (string, error) {
	d := newDrv(p.cfg, w)
	d.rec.trace, d.rec.keepLost = true, true
	if err := d.run(ops); err != nil {
		return "", err
	}
	var b strings.Builder
	sb := &b
	if w != nil {
		w.buf.Reset()
		sb = &w.buf
	}
	err := d.signature(sb)
	return sb.String(), err
}

// splits compares segmentations of n programs with a single read. masks lists
// the segmentations given the number of places to cut.
func (c *Check) splits(name string, n int, gen func(i int) *program, masks func(n int, f func(mask uint64) bool)) {
	if c.stop.Load() {
		return
	}
	var done, runs atomicCount
	c.each(n, func(w *worker, i int) {
		p := gen(i)
		if p == nil || p.cfg.Grid && !tm.VerifGrid {
			return
		}
		cuts := p.cuts()
		want, err := p.run(w, p.ops(cuts, 0, nil))
		if err != nil {
			c.fail(Violation{Config: p.cfg, Ops: rawSpecs(p.ops(cuts, 0, nil)), What: name, Error: err.Error()}, nil)
			return
		}
		c.saw(hashOf(want))
		done.add(1)
		masks(len(cuts), func(mask uint64) bool {
			if mask == 0 {
				return true
			}
			again := func(w *worker) error {
				want, err := p.run(nil, p.ops(cuts, 0, nil))
				if err != nil {
					return err
				}
				got, err := p.run(w, p.ops(cuts, mask, nil))
				if err != nil {
					return err
				}
				if got != want {
					return fmt.Errorf("in one read:\n%s\nin these:\n%s", want, got)
				}
				return nil
			}
			runs.add(1)
			got, err := p.run(w, p.ops(cuts, mask, nil))
			if err == nil && got == want {
				return !c.expired()
			}
			if err == nil {
				err = fmt.Errorf("in one read:\n%s\nin these:\n%s", want, got)
			}
			c.fail(Violation{Config: p.cfg, Ops: rawSpecs(p.ops(cuts, mask, nil)), What: name, Error: err.Error()}, func() error { return again(nil) })
			return false
		})
		if i == n/2 || i == n/5 {
			c.sample(map[string]any{"program": name, "config": p.cfg.String(), "before": p.pre, "input": fmt.Sprintf("%q", p.body), "cuts": len(cuts)})
		}
	})
	c.transitions.Add(runs.get())
	c.traces.Add(runs.get() + done.get())
	c.bound("%s: %d programs, %d segmentations", name, done.get(), runs.get())
}

func allMasks(n int, f func(uint64) bool) {
	for m := uint64(1); m < 1<<uint(n); m++ {
		if !f(m) {
			return
		}
	}
}

// fewMasks are all single and double cuts, and all cuts.
func fewMasks(n int, f func(uint64) bool) {
	for i := 0; i < n && i < 63; i++ {
		for j := i; j < n && j < 63; j++ {
			if !f(1<<uint(i) | 1<<uint(j)) {
				return
			}
		}
	}
	if n < 64 {
		f(1<<uint(n) - 1)
	}
}

// things that are read in more than one piece, or that a read boundary could
// make a difference to
var c08Tokens = []string{
	"a", "bc", "defg", "中", "é", "𐍈", "文a", "\xff", "\xe4\xb8", "\xf0\x9f", "\xc3", "\x80\x80",
	"\n", "\r", "\b", "\t", "\a", "\x00", "\x7f",
	"\x1b[m", "\x1b[31m", "\x1b[2;3H", "\x1b[K", "\x1b[1J", "\x1b[2P", "\x1b[L", "\x1b[S", "\x1b[C", "\x1b[6n", "\x1b[c", "\x1b[?7l", "\x1b[>1u", "\x1b[?u", "\x1b[2;2r", "\x1b[?25l", "\x1b[?1049h",
	"\x1bM", "\x1bD", "\x1b7", "\x1b=", "\x1b(0", "\x1b%G", "\x1b",
	"\x1b]2;t\a", "\x1b]2;t\x1b\\", "\x1b]2;t\x9c", "\x1bPq\x1b\\", "\x1b[1$x", "\x1b[1:2m",
}

var c08Clusters = []string{
	"a", "中", "e\u0301", "中\u0301", "👩\u200d👩", "🇺🇸", "👍🏽", "\u1100\u1161\u11a8", "❤\ufe0f", "1\ufe0f\u20e3", "क\u094d\u0937", "😀", "\u0301", "\u200d", "\xff", "é", "\x1b[m", "\x1b[6n", "\n", "\x1b[31m", "\x1b]2;é\a", "\b",
}

func c08(c *Check) {
	type ctx struct {
		cfg  Config
		pre  string
		post string
	}
	ctxs := []ctx{
		{Config{W: 4, H: 3}, "", "z\x1b[6n"},
		{Config{W: 3, H: 2}, "\x1b[?7ha中b\x1b[41m\x1b[1;2H", "z"},
		{Config{W: 5, H: 2, Grid: true}, "ab\n中文\x1b[1;2H", "é"},
	}
	if !c.thorough() {
		ctxs = ctxs[:3]
	}
	concat := func(toks []string, k, most int) []string {
		var out []string
		seen := map[string]bool{}
		idx := make([]int, k)
		for {
			s := ""
			for _, i := range idx {
				s += toks[i]
			}
			if len(s) <= most && len(s) > 1 && !seen[s] {
				seen[s] = true
				out = append(out, s)
			}
			j := 0
			for j < k {
				idx[j]++
				if idx[j] < len(toks) {
					break
				}
				idx[j] = 0
				j++
			}
			if j == k {
				return out
			}
		}
	}
	run := func(name string, bodies []string, ctxs []ctx, masks func(int, func(uint64) bool)) {
		c.splits(name, len(bodies)*len(ctxs), func(i int) *program {
			x := ctxs[i%len(ctxs)]
			return &program{x.cfg, x.pre, bodies[i/len(ctxs)], x.post}
		}, masks)
	}
	run("all segmentations of single tokens", concat(c08Tokens, 1, 99), ctxs, allMasks)
	run("all segmentations of pairs", concat(c08Tokens, 2, pick(c, 9, 13)), ctxs, allMasks)
	run("all segmentations of triples", concat(c08Tokens, 3, pick(c, 6, 9)), ctxs[:pick(c, 2, 3)], allMasks)
	// the rest with one or two cuts
	run("one or two cuts, pairs", concat(c08Tokens, 2, 99), ctxs, fewMasks)
	if c.thorough() {
		run("one or two cuts, triples", concat(c08Tokens, 3, 99), ctxs, fewMasks)
		run("all segmentations of four", concat(c08Tokens, 4, 7), ctxs, allMasks)
	}
	// graphemes, cut between them
	gctxs := []ctx{
		{Config{W: 6, H: 2, Grapheme: true}, "", "z\x1b[6n"},
		{Config{W: 3, H: 2, Grapheme: true}, "\x1b[?7ha中\x1b[41m\x1b[1;2H", "中"},
		{Config{W: 5, H: 2, Grapheme: true}, "\x1b[?7habc", "e\u0301"},
		{Config{W: 5, H: 2, Grapheme: true, Grid: true}, "\x1b[?7ha中b\x1b[1;1H", "🇩🇪"},
	}
	run("all segmentations of grapheme pairs", concat(c08Clusters, 2, 99), gctxs, allMasks)
	run("all segmentations of grapheme triples", concat(c08Clusters, 3, pick(c, 14, 99)), gctxs[:pick(c, 3, 4)], allMasks)
	if c.thorough() {
		run("all segmentations of four graphemes", concat(c08Clusters, 4, 20), gctxs[:2], allMasks)
	}
	// every sequence, whole, cut once or twice or everywhere
	long := []string{
		"\x1b[38;2;1;2;3mA", "\x1b[48;5;200;1;4mB", "\x1b]0;título 中文\a!", "\x1b]7;file://h/é\x1b\\!", "\x1b]2;a;b;c\x1b\\", "\x1b]8;;http://x\a", "\x1b]66;\xff\xe4\a?", "\x1bP1$r0m\x1b\\?", "\x1bPabc中\x1b\\x", "\x1b[?1;7;25;1049h", "\x1b[?1000;1006;2004h", "\x1b[=5;1u\x1b[?u", "\x1b[>31u\x1b[<1u", "\x1b[>4;2m", "\x1b[?1049hX\x1b[?1049l",
		"ab\r\ncd\x1b[2;3r\x1bMef", "中文字\x1b[1;2H\x1b[P語", "\x1b[99999999999999999999Cq", "\x1b[1;2;3;4;5;6;7;8;9m", "\x1b[;5H!", "\x1b[4:3mU", "\x1b[1\x7f2m", "\x1b[!p\x1b[ q", "\x1b#8\x1b(B\x1b)0", "\x1b]2;x\x1b[mY", "\x1b]2;x\x18Y", "\x1bP\x1b\x1b\\Z", "\xf0\x9f\x98\x80\xf0\x9f", "a\xcc\x81b\xe4", "\x1b\x1b\x1b[m", "\x1b]\x1b\\", "\x1b];\a", "\x1b]2\aT", "\x1b]2;\aT",
	}
	run("long sequences", long, ctxs, fewMasks)
	run("long sequences, graphemes", long, gctxs[:1], fewMasks)
	// every control sequence cut at every place
	var csi []string
	for f := 0x40; f <= 0x7e; f++ {
		for _, p := range []string{"", "2", "1;2", "?1", ">4;1", "<1", "=1;2", "1$", "?2 ", "4:3"} {
			csi = append(csi, "x\x1b["+p+string(rune(f))+"yé")
		}
	}
	for f := 0x20; f <= 0x7e; f++ {
		switch f {
		case '[', ']', 'P', 'X', '^', '_':
		default:
			csi = append(csi, "x\x1b"+string(rune(f))+"B")
		}
	}
	run("control sequences", csi, ctxs[:2], fewMasks)
	// around the ends of the internal buffers
	c.boundaries()
	c.everySplit()
}

// boundaries compares deliveries of long streams in which something falls on
// the end of a buffer.
func (c *Check) boundaries() {
	things := append([]string(nil), c08Tokens...)
	things = append(things, "\x1b[38;2;1;2;3m", "\x1b]2;long title 中文\a", "\x1bPabc\x1b\\", "中文字", "\xe4\xb8\xad\xe6")
	type cs struct {
		thing string
		at    int // which multiple of 4096
		off   int // bytes of it before the boundary
		fill  int
		g     bool
	}
	var all []cs
	for _, t := range things {
		for off := 0; off <= len(t)+1; off++ {
			for _, at := range []int{4096, 8192} {
				for f := 0; f < 2; f++ {
					all = append(all, cs{t, at, off, f, false})
				}
				if at == 4096 {
					all = append(all, cs{t, at, off, 0, true})
				}
			}
		}
	}
	var runs atomicCount
	c.each(len(all), func(w *worker, i int) {
		k := all[i]
		unit := []string{"0123456789abcdefghij", "é中x\x1b[31mé\n中"}[k.fill]
		n := k.at - k.off
		s := strings.Repeat(unit, n/len(unit))
		s += strings.Repeat("-", n-len(s))
		s += k.thing + "tail\x1b[6n"
		cfg := Config{W: 37, H: 4, Grapheme: k.g}
		pre := "\x1b[?7h"
		p := &program{cfg: cfg}
		want := ""
		for j, sizes := range [][]int{{1 << 20}, {64}, {4095, 1, 1}, {4097}, {1, 4096}, {5000, 3}, {k.at}, {k.at - 1, 1}, {1}} {
			ops := []*Op{{Bytes: pre}}
			rest := s
			for q := 0; rest != ""; q++ {
				m := min(len(rest), sizes[q%len(sizes)])
				if k.g && m < len(rest) && (rest[m]&0xc0 == 0x80 || rest[m] == 0xff) {
					for m < len(rest) && rest[m]&0xc0 == 0x80 {
						m++
					}
				}
				ops = append(ops, &Op{Bytes: rest[:m]})
				rest = rest[m:]
			}
			got, err := p.run(w, ops)
			runs.add(1)
			if err == nil && j > 0 && got != want {
				err = fmt.Errorf("with reads of %v:\n%s\nin one:\n%s", sizes, got, want)
			}
			if err != nil {
				c.fail(Violation{Config: cfg, What: "at the end of a buffer", Note: fmt.Sprintf("%q with %d bytes before byte %d, reads of %v", k.thing, k.off, k.at, sizes), Error: err.Error()}, nil)
				return
			}
			if j == 0 {
				want = got
			}
		}
	})
	c.transitions.Add(runs.get())
	c.traces.Add(runs.get())
	c.bound("buffer boundaries: %d placements, %d deliveries", len(all), runs.get())
}

// everySplit delivers every character in small reads.
func (c *Check) everySplit() {
	for _, cfg := range []Config{spanRune, spanGrapheme, gridRune} {
		cfg.W, cfg.H = everyW, everyH
		if cfg.Grid && !tm.VerifGrid {
			continue
		}
		all := everyOps(cfg.Grapheme)
		var runs atomicCount
		c.each(len(all), func(w *worker, i int) {
			p := &program{cfg: cfg, body: seq(all[i]...).Bytes}
			cuts := p.cuts()
			want := ""
			for _, n := range []int{0, 1, 2, 3, 5} {
				var ops []*Op
				at := 0
				for j, k := range cuts {
					if n > 0 && (j+1)%n == 0 || j == len(cuts)-1 {
						ops = append(ops, &Op{Bytes: p.body[at:k]})
						at = k
					}
				}
				if cfg.Grapheme && n == 0 {
					// no more in a read than what surely fits
					ops = ops[:0]
					for _, o := range all[i] {
						for _, s := range strings.SplitAfter(o.Bytes, "H") {
							ops = append(ops, &Op{Bytes: s})
						}
					}
				}
				got, err := p.run(w, ops)
				runs.add(1)
				if err == nil && n > 0 && got != want {
					err = fmt.Errorf("with reads of %d characters or bytes:\n%s\nin one:\n%s", n, got, want)
				}
				if err != nil {
					c.fail(Violation{Config: cfg, Ops: rawSpecs(ops), What: "every character", Error: err.Error()}, nil)
					return
				}
				want = got
			}
			c.saw(hashOf(want))
		})
		c.transitions.Add(runs.get())
		c.traces.Add(runs.get())
		c.bound("every character, %s: %d deliveries", cfg.String(), runs.get())
	}
}
