package main

import (
	"fmt"
	"strings"
	"time"

	tm "github.com/ricochet1k/termemu"
)

func init() {
	register("C02", "model_checking", 200*time.Second, 40*time.Minute, c02)
	register("C10", "model_checking", 200*time.Second, 40*time.Minute, c10)
	register("C14", "model_checking", 200*time.Second, 40*time.Minute, c14)
	register("C17", "model_checking", 200*time.Second, 40*time.Minute, c17)
	register("C18", "model_checking", 200*time.Second, 40*time.Minute, c18)
	register("C19", "model_checking", 200*time.Second, 40*time.Minute, c19)
}

var bothBuffers = []Config{{}, {Grid: true}}

// mixed is an alphabet with something of everything.
func mixed(cfg Config) []*Op {
	w, h := cfg.W, cfg.H
	ops := texts("a", "bcd", "中", "x文", "\xff")
	if cfg.Grapheme {
		ops = append(ops, texts("e\u0301", "\u0301")...)
	}
	ops = append(ops, opsOf("H", fmt.Sprintf("H %d %d", h, w), "H 2 2", "LF", "RI", "BS", "HT", "m 31", "m 7 44", "K", "K 1", "J", "J 1", "X 2", "P", "L", "M", "S", "T", "r 1 2", "r 2 3", "r", "WRAP", "NWRAP", "ALT", "MAIN", "SAVE", "REST")...)
	return ops
}

func c02(c *Check) {
	what := cmpAll | cmpText | cmpSub
	cpr := func(d *drv, m *Model) error { return nil }
	c.real(func(cfg Config) []*Op { return append(resizesAround(cfg), op("CPR")) }, what, false, nil)
	for _, cfg := range []Config{{W: 3, H: 2}, {W: 2, H: 3}, {W: 4, H: 2, Grapheme: true}, {W: 3, H: 2, Grid: true}, {W: 1, H: 2}, {W: 3, H: 2, Grid: true, Grapheme: true}} {
		ops := append(mixed(cfg), resizeOp(cfg.W+1, cfg.H), resizeOp(max(1, cfg.W-1), cfg.H+1), resizeOp(1, 1), resizeOp(5, 3), op("CPR"))
		c.search(Search{Name: "everything", Cfg: cfg, Ops: ops, What: what, Depth: pick(c, 4, 6), States: pick(c, 40000, 2500000), Extra: cpr})
	}
	c.many([]Config{spanRune, gridRune, spanGrapheme}, what, false, append(manyOps(), resizeOp(65, 2), resizeOp(300, 3), resizeOp(601, 1)), 1, nil)
	c.vast([]Config{spanRune, gridRune, spanGrapheme}, what, false, func(sz size) []*Op {
		return append(append(vastTexts(), resizesAround(Config{W: sz.w, H: sz.h})...), opsOf("K", "K 1", "X", "P", "X 2", "P 2", "BS", "LF", "L", "S", "ALT")...)
	}, pick(c, 1, 2), []*Op{op("CPR"), resizeOp(4, 2), text("⸺"), op("CPR"), resizeOp(7, 1), text("z")}, nil)
	// after each of many situations, two operations and a resize
	c.matrix("text and edits in all situations", []Config{spanRune, gridRune, spanGrapheme}, []size{{1, 2}, {2, 2}, {3, 2}, {5, 1}},
		func(sz size) [][]*Op {
			return situations(sz, []int{loCells, loWide}, true, []bool{false, true}, []string{"m 42"})
		},
		func(sz size) []*Op {
			return append(texts("a", "中", "ab", "文b", "b文"), opsOf("K", "K 1", "X", "X 2", "P", "P 2", "BS", "LF", "RI")...)
		}, 2, []*Op{op("CPR"), resizeOp(2, 3), text("中"), op("CPR"), resizeOp(4, 1), text("z")}, what, false, nil)
}

func c10(c *Check) {
	what := cmpAll | cmpShadow | cmpLost | cmpSub
	c.real(func(cfg Config) []*Op {
		return append(resizesAround(cfg), opsOf("?h 25", "?l 25", "?h 1000 1006", "?l 1006", "KPAM", "KPNM", `osc 2 "x"`, `osc 7 "yy"`, "?h 8 1004", "?l 4711 7 1004")...)
	}, what, true, nil)
	c.every([]Config{spanRune, spanGrapheme}, what, true, nil, nil)
	for _, cfg := range []Config{{W: 3, H: 2}, {W: 2, H: 3}, {W: 4, H: 2, Grapheme: true}, {W: 3, H: 2, Grid: true}, {W: 3, H: 2, Grid: true, Grapheme: true}} {
		ops := append(mixed(cfg), op("?h 25"), op("?l 25"), op("?h 1000"), op("?l 1006"), op("KPAM"), op(`osc 2 "x"`), resizeOp(cfg.W+1, cfg.H), resizeOp(2, 2))
		c.search(Search{Name: "everything", Cfg: cfg, Ops: ops, What: what, Shadow: true, Depth: pick(c, 4, 6), States: pick(c, 40000, 2500000)})
	}
	cfgs := []Config{spanRune, gridRune}
	c.many(cfgs, what, true, manyOps(), 1, nil)
	c.vast(append(cfgs, spanGrapheme), what, true, func(sz size) []*Op {
		return append(append(vastTexts(), eraseOps(sz.w, sz.h, false)...), scrollOps(sz.h, false)...)
	}, 1, opsOf("LF", `t "⸻"`, "H", `t "b"`), nil)
	los := []int{loCells, loWide}
	c.matrix("erase", append(cfgs, spanGrapheme), sizesUpTo(4, 3),
		func(sz size) [][]*Op { return situations(sz, los, false, []bool{false}, []string{"m 7 45"}) },
		func(sz size) []*Op { return eraseOps(sz.w, sz.h, false) }, 1, nil, what, true, nil)
	c.matrix("scroll", cfgs, append(sizesUpTo(2, 4), size{3, 3}),
		func(sz size) [][]*Op { return situations(sz, los, true, []bool{false, true}, []string{"m 7 45"}) },
		func(sz size) []*Op {
			return append(scrollOps(sz.h, false), texts("z", "xyz", "中", "wxyzwxyz", "wxyzwxyzwxyzwxyz")...)
		}, 1, nil, what, true, nil)
	c.matrix("motion", cfgs, []size{{3, 3}, {1, 2}, {2, 4}},
		func(sz size) [][]*Op { return situations(sz, []int{loRuns}, true, []bool{true}, []string{"m"}) },
		func(sz size) []*Op { return motionOps(sz.w, sz.h, false) }, 1, nil, what, true, nil)
	for _, g := range []bool{false, true} {
		cfgs := []Config{spanRune, gridRune}
		if g {
			cfgs = []Config{spanGrapheme, gridGrapheme}
		}
		c.matrix("text", cfgs, []size{{1, 1}, {3, 1}, {4, 2}, {5, 1}, {3, 3}},
			func(sz size) [][]*Op {
				return situations(sz, los, sz.h > 2, []bool{false, true}, []string{"m 7 45"})
			},
			func(sz size) []*Op {
				ops := texts("a", "ab", "中", "a中", "中a", "中文", "\xff中", "abcdefgh", "中文字語漢")
				if g {
					ops = append(ops, texts("e\u0301", "\u0301", "中\u0301", "👩\u200d👩", "🇺🇸", "a\u0301b中\u0301")...)
				}
				return ops
			}, 2, nil, what, true, nil)
	}
	c.inTheMiddle(append(cfgs, spanGrapheme), []size{{3, 3}, {4, 2}}, los, []bool{true}, what, true, append(opsOf("K", "K 1", "J", "J 1", "X 9", "P", "L", "M 9", "S", "T", "r 2", "H 9 9", "C 9", "REST", "ALT", "RI", "?l 25", `osc 2 "x"`), texts("中")...), opsOf(`t "z"`, "LF"), nil)
	// mode values
	var modes []*Op
	for _, p := range []int{1, 7, 9, 12, 25, 1000, 1002, 1003, 1004, 1005, 1006, 1015, 1049, 2004} {
		modes = append(modes, op(fmt.Sprintf("?h %d", p)), op(fmt.Sprintf("?l %d", p)))
	}
	modes = append(modes, opsOf("KPAM", "KPNM", ">m 4 1", ">m 4 2", ">m 4", `osc 0 "a"`, `osc 6 "b"`, `osc 7 "c"`, "?h 25 1000 1049", "?l 1049 25 7", "m 1")...)
	c.search(Search{Name: "modes", Cfg: Config{W: 2, H: 2}, Init: opsOf(`t "m"`, "?h 1049", `t "a"`, "?l 1049"), Ops: modes, What: what, Shadow: true, States: pick(c, 6000, 200000)})
}

func queryOps() []*Op { return opsOf("DA", "DA0", "DA2", "DA20", "DSR", "CPR", "QKBD") }

func c14(c *Check) {
	what := cmpAll
	c.real(func(cfg Config) []*Op { return append(queryOps(), opsOf(">u 5", "=u 3 2", "<u")...) }, what, false, nil)
	// all sequences of queries and state changes
	for _, cfg := range []Config{{W: 3, H: 2}, {W: 2, H: 3, Grid: true}, {W: 4, H: 2, Grapheme: true}} {
		ops := append(queryOps(), opsOf(`t "ab"`, `t "中"`, "H 2 2", "LF", "BS", "WRAP", "ALT", "MAIN", "=u 5", ">u 3", "<u", "r 2 2", "SAVE", "REST", "B 9", "C 9")...)
		ops = append(ops, resizeOp(1, 1), resizeOp(4, 3), seq(op("CPR"), text("x"), op("CPR"), op("QKBD"), op("DSR")), seq(op("DA"), op("DA2"), op("DSR"), op("CPR"), op("ALT"), op("QKBD"), op("CPR"), op("MAIN"), op("CPR")))
		c.search(Search{Name: "queries", Cfg: cfg, Ops: ops, What: what, Depth: pick(c, 4, 6), States: pick(c, 30000, 1500000)})
		// replies do not change the state, so sequences of them need their own enumeration
		c.matrix("three queries", []Config{cfg}, []size{{cfg.W, cfg.H}},
			func(sz size) [][]*Op {
				return situations(sz, []int{loRuns}, false, []bool{false, true}, []string{"=u 7", "ALT | >u 31"})
			},
			func(sz size) []*Op {
				return append(queryOps(), opsOf("ALT", "MAIN", ">u 1", "<u 2", `t "q"`, "CPR | DSR | CPR", "LF", "DSR | DA | QKBD")...)
			}, 3, nil, what, false, nil)
	}
	c.inTheMiddle([]Config{spanRune, gridRune, spanGrapheme}, []size{{3, 3}, {12, 2}}, []int{loRuns}, []bool{false, true}, what, false, queryOps(), opsOf("CPR", "QKBD"), nil)
	// cursor reports for every position of real screens
	for _, sz := range []size{{80, 24}, {132, 5}, {1, 120}, {1000, 2}} {
		n := sz.w * sz.h
		const per = 100
		c.scenarios("cursor reports", (n+per-1)/per, func(i int) scenario {
			var ops []*Op
			for k := i * per; k < min(n, (i+1)*per); k++ {
				ops = append(ops, seq(moveTo(k%sz.w, k/sz.w), op("CPR")))
			}
			return scenario{Config{W: sz.w, H: sz.h}, ops, 0}
		}, cmpCursor|cmpReply, false, nil)
	}
	// nothing else replies: every CSI with every prefix and a few parameters
	var quiet []string
	for f := 0x40; f <= 0x7e; f++ {
		for _, pre := range []string{"", "?", ">", "<", "="} {
			for _, p := range []string{"", "0", "1", "5", "6", "1;1", "0;0", "5;6", "26", "15", "996", "0;1", "1;0", "6;5", "0;", "05", "006", "00", "1;5", "1;6", ";5", ";6", "99999999999999999999", "5;6;7", "5;5;5", "6;6;6", "0;0;0", "0;6;5", "6;5;6;5", "5;;", "6;;;", ";;", "5;6;7;8;9;10;11;12;13;14;15;16;17;18;19;20"} {
				for _, in := range []string{"", " ", "$", "!", "'", "\""} {
					quiet = append(quiet, "\x1b["+pre+p+in+string(rune(f)))
				}
			}
		}
	}
	for f := 0x20; f <= 0x7e; f++ {
		if f != '[' && f != ']' && f != 'P' && f != 'X' && f != '^' && f != '_' {
			if f < 0x30 {
				for g := 0x30; g <= 0x7e; g++ {
					quiet = append(quiet, "\x1b"+string(rune(f))+string(rune(g)))
				}
			} else {
				quiet = append(quiet, "\x1b"+string(rune(f)))
			}
		}
	}
	for i := 0; i <= 120; i++ {
		quiet = append(quiet, fmt.Sprintf("\x1b]%d;?\a", i), fmt.Sprintf("\x1b]%d;?\x1b\\", i))
	}
	for _, s := range []string{"\x1bP+q544e\x1b\\", "\x1bP$qm\x1b\\", "\x1bP1$r\x1b\\", "\x05", "\x00", "\x0e\x0f", "\x1b[M !!"} {
		quiet = append(quiet, s)
	}
	for b := 0; b < 32; b++ {
		if b != 27 {
			quiet = append(quiet, string(rune(b)))
		}
	}
	replies := map[string]string{
		"\x1b[c": "\x1b[?1;2c", "\x1b[0c": "\x1b[?1;2c", "\x1b[0;0c": "\x1b[?1;2c", "\x1b[5n": "\x1b[0n", "\x1b[6n": "\x1b[2;3R",
		"\x1b[5;6n": "\x1b[0n", "\x1b[0;1c": "\x1b[?1;2c", "\x1b[;5c": "\x1b[?1;2c", "\x1b[;6c": "\x1b[?1;2c", "\x1b[6;5n": "\x1b[2;3R", "\x1b[0;c": "\x1b[?1;2c", "\x1b[05n": "\x1b[0n", "\x1b[006n": "\x1b[2;3R", "\x1b[00c": "\x1b[?1;2c",
		"\x1b[5;6;7n": "\x1b[0n", "\x1b[5;5;5n": "\x1b[0n", "\x1b[6;6;6n": "\x1b[2;3R", "\x1b[0;0;0c": "\x1b[?1;2c", "\x1b[0;6;5c": "\x1b[?1;2c", "\x1b[6;5;6;5n": "\x1b[2;3R", "\x1b[5;;n": "\x1b[0n", "\x1b[6;;;n": "\x1b[2;3R", "\x1b[;;c": "\x1b[?1;2c",
		"\x1b[5;6;7;8;9;10;11;12;13;14;15;16;17;18;19;20n": "\x1b[0n",
	}
	c.evalAll("only queries are answered", len(quiet), func(w *worker, i int) error {
		s := quiet[i]
		d := newDrv(Config{W: 4, H: 3}, w)
		err := d.run([]*Op{op("H 2 3"), raw(s)})
		if err != nil {
			return fmt.Errorf("%q: %w", s, err)
		}
		want, known := replies[s]
		got := string(d.out)
		if !known && len(s) > 3 && s[:3] == "\x1b[>" && s[len(s)-1] == 'c' && s[len(s)-2] != ' ' && s[len(s)-2] >= 0x30 {
			if p := s[3 : len(s)-1]; p != "" && strings.Trim(p, "0;") != "" && got == "" {
				return nil
			}
			want = "\x1b[>1;4402;0c"
		}
		if !known && len(s) > 3 && s[:3] == "\x1b[?" && s[len(s)-1] == 'u' && s[len(s)-2] >= 0x30 {
			if s != "\x1b[?u" && got == "" {
				return nil
			}
			want = "\x1b[?0u"
		}
		if got != want {
			return fmt.Errorf("%q is answered %q, expected %q", s, got, want)
		}
		return nil
	}, func(i int) string { return fmt.Sprintf("%q", quiet[i]) })
	c.slowReplies()
}

// slowReplies checks replies to an application that takes a few bytes at a
// time, or cannot be written to for a moment.
func (c *Check) slowReplies() {
	qs := append(queryOps(), opsOf("H 1 12", "ALT | =u 21 | H 2 1")...)
	type sc struct{ a, b, d, take, fail int }
	var scs []sc
	for a := range qs {
		for b := range qs {
			for d := range qs {
				for take := 1; take <= 12; take++ {
					scs = append(scs, sc{a, b, d, take, -1})
				}
				for fail := 0; fail <= 24; fail++ {
					scs = append(scs, sc{a, b, d, 100, fail})
				}
			}
		}
	}
	c.evalAll("replies written in pieces, or failing", len(scs), func(w *worker, i int) error {
		s := scs[i]
		d := newDrv(Config{W: 12, H: 2}, w)
		failed := false
		d.wfault = func(p []byte) (int, error) {
			if s.fail >= 0 && !failed && len(d.out)+len(p) > s.fail {
				failed = true
				return s.fail - len(d.out), errFault
			}
			return min(len(p), s.take), nil
		}
		ops := []*Op{qs[s.a], qs[s.b], qs[s.d]}
		m := newModel(d.cfg)
		var wants []string
		for _, o := range ops {
			m.Reply = ""
			o.F(m)
			wants = append(wants, m.Reply)
		}
		if err := d.run(ops); err != nil {
			return err
		}
		// the rest of a reply which could not be written may be lost, and
		// nothing else
		all := strings.Join(wants, "")
		if string(d.out) == all {
			return nil
		}
		end := 0
		for _, want := range wants {
			if end += len(want); failed && end > s.fail {
				break
			}
		}
		for lost := s.fail; failed && lost <= end; lost++ {
			if string(d.out) == all[:s.fail]+all[lost:] {
				return nil
			}
		}
		return fmt.Errorf("the replies to %q are %q, expected %q", specs(ops), d.out, wants)
	}, func(i int) string { return fmt.Sprint(scs[i]) })
}

// evalAll evaluates n independent cases.
func (c *Check) evalAll(name string, n int, f func(w *worker, i int) error, describe func(i int) string) {
	if c.stop.Load() {
		return
	}
	var done atomicCount
	c.each(n, func(w *worker, i int) {
		s := describe(i)
		w.desc.Store(&s)
		done.add(1)
		if err := f(w, i); err != nil {
			c.fail(Violation{What: name, Note: s, Error: err.Error()}, func() error { return f(newWorker(0), i) })
		}
		if i == n/3 || i == n/2 {
			c.sample(map[string]any{"case": name, "input": s})
		}
	})
	c.transitions.Add(done.get())
	c.traces.Add(done.get())
	c.evals.Add(done.get())
	c.bound("%s: %d of %d cases", name, done.get(), n)
}

func c17(c *Check) {
	what := cmpAll
	count := func(d *drv, m *Model) error { return nil }
	c.real(func(cfg Config) []*Op {
		return opsOf("ALT", "MAIN", "?h 1049 1049", "?l 7 1049", "?h 25 1049 7", "?h 9999 1049", "?l 1 9998 1049 7", ">u 3", "<u", "=u 4 2", "?h 25", "?l 2004", "?h 1 1002", `osc 0 "t"`)
	}, what, false, nil)
	for _, cfg := range []Config{{W: 2, H: 2}, {W: 2, H: 3, Grapheme: true}, {W: 2, H: 2, Grid: true}} {
		ops := opsOf("ALT", "MAIN", "?h 1049 1049", "?l 7 1049", "?h 7 1049", "?h 25 1049 7", "?h 9999 1049", `t "a"`, `t "中"`, "H 2 2", "LF", "m 31", "r 2 2", "r 1 1", "r", "WRAP", "NWRAP", "=u 1", ">u 3", "<u", "SAVE", "REST", "J 2", "S", "?h 25", "?l 25")
		c.search(Search{Name: "two screens", Cfg: cfg, Ops: ops, What: what, Depth: pick(c, 5, 7), States: pick(c, 50000, 2500000), Extra: count})
	}
	// each mode is level-triggered and every set and reset is reported with its value
	modes := []int{1, 7, 9, 12, 25, 1000, 1002, 1003, 1004, 1005, 1006, 1015, 1049, 2004}
	var ms []*Op
	for _, p := range modes {
		ms = append(ms, op(fmt.Sprintf("?h %d", p)), op(fmt.Sprintf("?l %d", p)))
	}
	for _, cfg := range []Config{{W: 2, H: 2}, {W: 2, H: 2, Grid: true}} {
		c.search(Search{Name: "modes", Cfg: cfg, Init: opsOf(`t "m"`, "WRAP", "m 31", "?h 1049", `t "a"`, "H 2 1", "?l 1049"), Ops: ms, What: what | cmpShadow, Shadow: true})
	}
	for i := range modes {
		ms = append(ms, op(fmt.Sprintf("?h %d %d", modes[i], modes[(i+5)%len(modes)])), op(fmt.Sprintf("?l %d 1049 %d", modes[i], modes[(i+3)%len(modes)])), op(fmt.Sprintf("?h 1049 %d 25", modes[i])),
			op(fmt.Sprintf("?h %d %d %d %d %d %d %d %d %d %d", 1, 12, 25, 1000, 1004, 1006, 1049, 2004, 7, modes[i])),
			op(fmt.Sprintf("?l %d %d %d %d %d %d %d %d %d %d", 1, 12, 25, 1000, 1004, 1006, 2004, 7, 9999, modes[i])))
	}
	c.evalAll("reports of set and reset", len(ms)*len(ms), func(w *worker, i int) error {
		a, b := ms[i%len(ms)], ms[i/len(ms)]
		d := newDrv(Config{W: 2, H: 2}, w)
		d.rec.trace = true
		m := newModel(d.cfg)
		var before int
		d.onStep = func(k int) error {
			o := d.ops[k]
			m.begin()
			o.F(m)
			if err := d.compare(m, what); err != nil {
				return err
			}
			got := map[string]int{}
			for _, e := range d.rec.events[before:] {
				got[e]++
			}
			before = len(d.rec.events)
			// the final value must have been reported for each mode named
			name, args := o.Spec[:2], o.Spec[3:]
			_ = name
			want := map[string]int{}
			var p []int
			for _, x := range fieldsInt(args) {
				p = append(p, x)
			}
			mm := newModel(d.cfg)
			for _, x := range p {
				on := o.Spec[1] == 'h'
				mm.decset(x, on)
				switch x {
				case 1, 12, 25, 1004, 2004:
					f := map[int]int{1: vfAppCursor, 12: vfBlink, 25: vfShow, 1004: vfFocus, 2004: vfPaste}[x]
					want[fmt.Sprintf("flag %d %v", f, on)]++
				case 9, 1000, 1002, 1003:
					want[fmt.Sprintf("int %d %d", viMouseMode, mm.VI[viMouseMode])]++
				case 1005, 1006, 1015:
					want[fmt.Sprintf("int %d %d", viMouseEnc, mm.VI[viMouseEnc])]++
				}
			}
			for e, n := range want {
				if got[e] < 1 || got[e] > n {
					return fmt.Errorf("%s: %q reported %d times, expected %d", o.Spec, e, got[e], n)
				}
				delete(got, e)
			}
			for e := range got {
				if len(e) > 4 && (e[:4] == "flag" || e[:3] == "int" || e[:6] == "string") {
					return fmt.Errorf("%s: unexpected report %q", o.Spec, e)
				}
			}
			return nil
		}
		return d.run([]*Op{a, b, b, a})
	}, func(i int) string { return ms[i%len(ms)].Spec + ", " + ms[i/len(ms)].Spec })
	// what one screen shows survives anything done on the other
	c.matrix("leave, edit, return", []Config{spanRune, gridRune}, []size{{3, 2}, {2, 3}, {1, 1}},
		func(sz size) [][]*Op {
			out := situations(sz, []int{loCells, loWide}, true, []bool{false, true}, []string{"m 7 45 | >u 5"})
			return append(out, func() [][]*Op {
				alt := situations(sz, []int{loRuns}, true, []bool{true}, []string{"m 3 | =u 9"})
				for i := range alt {
					alt[i] = append(opsOf("ALT"), alt[i]...)
				}
				return alt
			}()...)
		},
		func(sz size) []*Op {
			var out []*Op
			for _, o := range append(append(eraseOps(sz.w, sz.h, false), scrollOps(sz.h, false)...), append(motionOps(sz.w, sz.h, false), texts("zzzzzzzzzz", "中")...)...) {
				out = append(out, seq(op("ALT"), op("r 1 1"), o, op("WRAP"), op(">u 1"), op("MAIN")), seq(op("MAIN"), op("NWRAP"), op("m 33"), o, op("=u 2"), op("SAVE"), op("ALT")))
			}
			return out
		}, 1, opsOf("ALT", "QKBD", "CPR", `t "q"`, "LF", "MAIN", "QKBD", "CPR", `t "q"`, "REST", "LF", "CPR"), what, false, nil)
}

func fieldsInt(s string) []int {
	var out []int
	n, in := 0, false
	for _, r := range s + " " {
		if r >= '0' && r <= '9' {
			n, in = n*10+int(r-'0'), true
		} else if in {
			out = append(out, n)
			n, in = 0, false
		}
	}
	return out
}

func c18(c *Check) {
	what := cmpAll | cmpText
	probes := opsOf("CPR", `t "pq"`, "LF", "REST", "CPR", `t "中"`, "RI", "B 99", "LF", `t "z"`, "H 1 1", "RI", "J 1", "H 99 99", "LF", "T", "ALT", "CPR", `t "y"`, "LF", "REST", "CPR")
	maxW, maxH := pick(c, 4, 6), pick(c, 4, 6)
	var news []*Op
	for _, s := range sizesUpTo(maxW+1, maxH+1) {
		news = append(news, resizeOp(s.w, s.h))
	}
	news = append(news, resizeOp(80, 24), resizeOp(300, 2), resizeOp(1, 200))
	checkSize := func(d *drv, m *Model) error {
		if d.pos == 0 {
			return nil
		}
		if o := d.ops[d.pos-1]; o.RW > 0 {
			if n := len(d.sizes); n == 0 || d.sizes[n-1] != [2]int{o.RW, o.RH} {
				return fmt.Errorf("Resize(%d,%d) told the backend %v", o.RW, o.RH, d.sizes)
			}
		}
		return nil
	}
	c.real(resizesAround, what, false, checkSize)
	c.many([]Config{spanRune, gridRune, spanGrapheme}, what, false, []*Op{resizeOp(1, 1), resizeOp(2, 2), resizeOp(63, 1), resizeOp(64, 2), resizeOp(65, 2), resizeOp(129, 1), resizeOp(300, 3), resizeOp(599, 1), resizeOp(601, 1), resizeOp(66, 1), text("中")}, 2, checkSize)
	c.matrix("resize anywhere", []Config{spanRune, gridRune}, sizesUpTo(maxW, maxH),
		func(sz size) [][]*Op {
			out := situations(sz, []int{loCells}, true, []bool{sz.w%2 == 0}, []string{"SAVE | m 45"})
			out = append(out, situations(sz, []int{loWide, loErased}, false, []bool{false, true}, []string{"m 7 | SAVE"})...)
			return out
		},
		func(sz size) []*Op { return news }, 1, probes, what, false, checkSize)
	c.vast([]Config{spanRune, gridRune, spanGrapheme}, what, false, func(sz size) []*Op {
		var out []*Op
		for _, s := range []size{{1, 1}, {2, 1}, {3, 1}, {4, 2}, {5, 2}, {6, 1}, {7, 2}, {8, 3}, {9, 1}, {10, 2}, {80, 24}} {
			out = append(out, resizeOp(s.w, s.h))
		}
		return out
	}, pick(c, 1, 2), probes, checkSize)
	c.inTheMiddle([]Config{spanRune, gridRune, spanGrapheme}, []size{{3, 3}, {4, 2}}, pick(c, []int{loWide}, []int{loWide, loCells}), []bool{false, true}, what, false,
		append(opsOf("K", "K 1", "K 2", "J", "J 1", "J 2", "X 9", "P", "P 9", "L", "L 9", "M", "S", "T", "r 2 3", "r 2", "r - -", "G 9", "d 9", "H 9 9", "A", "B 9", "C 9", "D", "CPR", "SAVE", "REST", "m 31", "ALT", "WRAP", "RI", "IND"), texts("中", "é")...), opsOf("CPR", `t "z"`, "LF"), checkSize)
	c.matrix("resize with the cursor saved elsewhere", []Config{spanRune, gridRune, spanGrapheme}, []size{{2, 2}, {3, 3}, {4, 2}, {2, 4}},
		func(sz size) [][]*Op {
			var out [][]*Op
			for _, lo := range []int{loWide, loHalf} {
				f := fill(lo, sz.w, sz.h)
				for y := 0; y < sz.h; y++ {
					for x := 0; x < sz.w; x++ {
						for _, alt := range []string{"MAIN", "ALT"} {
							out = append(out, append(append(append(append([]*Op(nil), f...), op("ALT")), append(f, op("r 1 1"), op("H 99 99"), op("SAVE"))...), op(alt), moveTo(x, y), op("SAVE"), op("H 1 1"), op("m 33"), text("k")))
						}
					}
				}
			}
			return out
		},
		func(sz size) []*Op { return news }, 1, probes, what, false, checkSize)
	c.matrix("resize twice", []Config{spanRune, gridRune}, []size{{3, 3}, {4, 2}, {1, 2}},
		func(sz size) [][]*Op {
			return situations(sz, []int{loWide}, true, []bool{true}, []string{"m 42 | SAVE"})
		},
		func(sz size) []*Op {
			var out []*Op
			for _, s := range sizesUpTo(4, 4) {
				out = append(out, resizeOp(s.w, s.h))
			}
			return append(out, text("ab中"), op("LF"), op("r 2 3"), op("ALT"))
		}, 2, opsOf("CPR", `t "ab"`, "LF", "REST", "LF", `t "文"`, "MAIN", "CPR", `t "c"`), what, false, checkSize)
	for _, cfg := range []Config{{W: 2, H: 2}, {W: 3, H: 2, Grapheme: true}, {W: 2, H: 2, Grid: true}} {
		ops := opsOf(`t "a"`, `t "b中"`, "H 9 9", "H", "LF", "RI", "m 41", "r 2 3", "r 1 2", "r", "WRAP", "SAVE", "REST", "ALT", "MAIN", "K", "P")
		for _, s := range []size{{1, 1}, {2, 2}, {3, 2}, {2, 3}, {4, 3}} {
			ops = append(ops, resizeOp(s.w, s.h))
		}
		c.search(Search{Name: "resizes and output", Cfg: cfg, Ops: ops, What: what, Depth: pick(c, 5, 7), States: pick(c, 30000, 2000000), Extra: checkSize})
	}
}

func c19(c *Check) {
	what := cmpKeys | cmpReply | cmpCursor | cmpInactive
	obs := func(d *drv, m *Model) error { return nil }
	q := op("QKBD")
	with := func(s string) *Op { return seq(op(s), q) }
	var ops []*Op
	for _, s := range []string{"=u 0", "=u 1", "=u 5 1", "=u 3 2", "=u 1 3", "=u 31", "=u 16 2", "=u 16 3", "=u", ">u", ">u 1", ">u 6", ">u 31", "<u", "<u 1", "<u 2", "<u 3", "<u 33", "<u 0", "<u 99999999999", "ALT", "MAIN"} {
		ops = append(ops, with(s))
	}
	c.search(Search{Name: "all sequences", Cfg: Config{W: 2, H: 1}, Ops: ops, What: what, Depth: pick(c, 6, 8), States: pick(c, 60000, 3000000), Extra: obs})
	// closure over one flag, so that the whole stack depth is reached
	small := []*Op{with("=u 1"), with("=u 0"), with(">u 1"), with(">u 0"), with("<u"), with("<u 2")}
	c.search(Search{Name: "one flag", Cfg: Config{W: 1, H: 1}, Ops: small, What: what, Depth: pick(c, 12, 16), States: pick(c, 60000, 3000000)})
	// the screens fill up independently
	c.search(Search{Name: "both screens", Cfg: Config{W: 1, H: 1}, Ops: []*Op{with(">u 1"), with(">u 2"), with("<u"), with("=u 4 2"), with("ALT"), with("MAIN")}, What: what, Depth: pick(c, 9, 12), States: pick(c, 60000, 3000000)})
	// every way over the limit: push a distinct value each time, pop some, push more, pop all
	type sc struct{ a, p, b int }
	var scs []sc
	for a := 28; a <= 36; a++ {
		for p := 0; p <= 36; p += pick(c, 3, 1) {
			for b := 0; b <= 36; b += pick(c, 4, 1) {
				scs = append(scs, sc{a, p, b})
			}
		}
	}
	c.scenarios("over the limit", len(scs)*2, func(i int) scenario {
		s := scs[i/2]
		var o []*Op
		if i%2 == 1 {
			o = opsOf(">u 7", "ALT")
		}
		push := func(n, k int) {
			for j := 0; j < n; j++ {
				o = append(o, with(fmt.Sprintf(">u %d", (j*7+k)%31+1)))
			}
		}
		o = append(o, with("=u 30"))
		push(s.a, 0)
		if s.p > 0 {
			o = append(o, with(fmt.Sprintf("<u %d", s.p)))
		}
		push(s.b, 3)
		for j := 0; j < 38; j++ {
			o = append(o, with("<u"))
		}
		if i%2 == 1 {
			o = append(o, op("MAIN"), q, op("<u"), q)
		}
		return scenario{Config{W: 2, H: 1}, o, 0}
	}, what, false, nil)
	// everything that can be done with a full stack
	full := []*Op{with(">u 8"), with(">u"), with(">u 1"), seq(op("QKBD"), op(">u 29"), q), with("=u 29"), with("=u 1 2"), with("=u 31 3"), with("<u"), with("<u 2"), with("<u 31"), with("<u 32"), with("<u 33"),
		seq(op("ALT"), op(">u 3"), q, op(">u 3"), op("MAIN"), q)}
	all := sequences(len(full), 3)
	c.scenarios("a full stack", len(all)*5, func(i int) scenario {
		var o []*Op
		for j := 0; j < 30+i%5; j++ {
			o = append(o, op(fmt.Sprintf(">u %d", j%31+1)))
		}
		for _, j := range all[i/5] {
			o = append(o, full[j])
		}
		for j := 0; j < 36; j++ {
			o = append(o, with("<u"))
		}
		return scenario{Config{W: 2, H: 1}, append(o, op("ALT"), q, with("<u"), with("<u")), 0}
	}, what, false, nil)
	var pops []*Op
	for n := 0; n <= 40; n++ {
		pops = append(pops, seq(op(fmt.Sprintf("<u %d", n)), q))
	}
	c.scenarios("pop n of m", 41*41, func(i int) scenario {
		var o []*Op
		for j := 0; j < i/41; j++ {
			o = append(o, op(fmt.Sprintf(">u %d", j%31+1)))
		}
		return scenario{Config{W: 2, H: 1}, append(o, pops[i%41], with(">u 9"), with("<u"), with("<u")), 0}
	}, what, false, nil)
	// all flags, all modes
	c.scenarios("all flags and modes", 32*32*3, func(i int) scenario {
		return scenario{Config{W: 2, H: 1}, []*Op{with(fmt.Sprintf("=u %d", i%32)), with(fmt.Sprintf("=u %d %d", i/32%32, 1+i/1024)), with(">u 21"), with("=u 10 2"), with("<u"), with("=u 3 3")}, 0}
	}, what, false, nil)
	c.keysFollowFlags()
}

// sequences are all sequences of 1 to depth of n things.
func sequences(n, depth int) (out [][]int) {
	last := [][]int{nil}
	for d := 0; d < depth; d++ {
		var next [][]int
		for _, l := range last {
			for j := 0; j < n; j++ {
				next = append(next, append(l[:len(l):len(l)], j))
			}
		}
		out = append(out, next...)
		last = next
	}
	return
}

// keysFollowFlags checks that key encodings depend on the flags of the active
// screen, wherever they were set.
func (c *Check) keysFollowFlags() {
	seqs := []string{"=u 1", ">u 8", "<u", "ALT", "MAIN", "=u 2 2", "=u 1 3", ">u 31"}
	n := 1
	for i := 0; i < 4; i++ {
		n *= len(seqs)
	}
	c.evalAll("key encodings follow the flags", n, func(w *worker, i int) error {
		var ops []*Op
		for k := 0; k < 4; k++ {
			ops = append(ops, op(seqs[i%len(seqs)]))
			i /= len(seqs)
		}
		d := newDrv(Config{W: 2, H: 1}, w)
		m := newModel(d.cfg)
		for _, o := range ops {
			o.F(m)
		}
		if err := d.run(ops); err != nil {
			return err
		}
		d.out = nil
		if _, err := d.t.SendKey(tm.KeyEvent{Code: tm.KeyRune, Rune: 'a', Mod: tm.ModCtrl}); err != nil {
			return err
		}
		want := "\x01"
		if f := m.s().KF; f&(1|8) != 0 {
			want = "\x1b[97;5u"
		}
		if f := m.s().KF; f&9 == 0 && f != 0 {
			// only reporting flags: either form is fine
			if s := string(d.out); s == "\x01" || s == "\x1b[97;5u" {
				return nil
			}
		}
		if string(d.out) != want {
			return fmt.Errorf("ctrl+a after %q is %q, expected %q", specs(ops), d.out, want)
		}
		return nil
	}, func(i int) string { return fmt.Sprint(i) })
}
