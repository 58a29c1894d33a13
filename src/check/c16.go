package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"strings"
	"time"
	"unicode/utf8"

	"github.com/creack/pty"

	tm "github.com/ricochet1k/termemu"
)

// C16: every way of delivering a stream, failing included, against the model
// fed with the bytes that were delivered; every behaviour of the writer.

func init() {
	register("C16", "model_checking", 250*time.Second, 40*time.Minute, c16)
}

// rdStep is what a read does: it delivers n bytes, or fails, or both.
type rdStep struct {
	n   int
	err error
}

// script makes the terminal read from steps. What follows a failure is not
// part of the stream: "Z" is there to be read.
func (d *drv) script(stream string, steps []rdStep) {
	pos, at, left := 0, 0, -1
	dead, after := false, 0
	var last error
	d.rd = func(p []byte) (int, error) {
		if len(p) == 0 {
			return 0, nil
		}
		if l, ok := d.t.(locker); ok {
			if l.TryLock() {
				d.t.Unlock()
			} else {
				d.rec.fail(fmt.Errorf("the terminal lock is held while the read loop waits for input"))
			}
		}
		if dead {
			if after++; after > 3 {
				panic("the read loop keeps reading after an error")
			}
			if last == io.EOF && left != 0 {
				return 0, io.EOF
			}
			if after == 1 {
				return copy(p, "Z"), nil
			}
			return 0, io.EOF
		}
		if at >= len(steps) {
			dead, last, left = true, io.EOF, 0
			return 0, io.EOF
		}
		s := steps[at]
		if left < 0 {
			left = min(s.n, len(stream)-pos)
		}
		n := copy(p, stream[pos:pos+left])
		pos += n
		left -= n
		if left > 0 {
			return n, nil
		}
		left = -1
		at++
		if s.err != nil {
			dead, last = true, s.err
			left = 0
			if n > 0 {
				left = 1
			}
		}
		return n, s.err
	}
}

// prefixModels are what the first k bytes of the operations may show: a
// character cut short is dropped, or replaced.
func prefixModels(cfg Config, ops []*Op, k int) []*Model {
	m := newModel(cfg)
	for _, o := range ops {
		if k >= len(o.Bytes) {
			o.F(m)
			k -= len(o.Bytes)
			continue
		}
		if !strings.HasPrefix(o.Spec, "t ") {
			break
		}
		s := o.Bytes[:k]
		whole := 0
		for whole < len(s) && utf8.FullRuneInString(s[whole:]) {
			_, n := utf8.DecodeRuneInString(s[whole:])
			whole += n
		}
		text(s[:whole]).F(m)
		out := []*Model{m}
		if whole < len(s) {
			m1 := m.clone()
			m1.Lost = m.Lost
			text("\ufffd").F(m1)
			m2 := m1.clone()
			m2.Lost = m1.Lost
			text("\ufffd").F(m2)
			out = append(out, m1, m2)
		}
		return out
	}
	return []*Model{m}
}

// under puts a backend of the package between the terminal and the script.
func under(d *drv, kind int) (tee *bytes.Buffer) {
	switch kind {
	case 1:
		tee = &bytes.Buffer{}
		t := tm.NewTeeBackend(d)
		t.SetTee(tee)
		d.under = t
	case 2:
		d.under = tm.NewNoPTYBackend(struct{ io.Reader }{d}, struct{ io.Writer }{d})
	case 3:
		tee = &bytes.Buffer{}
		t := tm.NewTeeBackend(tm.NewTeeBackend(tm.NewNoPTYBackend(d, d)))
		t.SetTee(tee)
		d.under = t
	}
	return
}

// deliver runs a script and compares.
func deliver(w *worker, cfg Config, ops []*Op, k int, steps []rdStep, back int) error {
	var b strings.Builder
	for _, o := range ops {
		b.WriteString(o.Bytes)
	}
	stream := b.String()[:k]
	d := newDrv(cfg, w)
	d.rec.shadow = len(stream) < 2000
	tee := under(d, back)
	d.script(stream, steps)
	if err := d.run(nil); err != nil {
		return err
	}
	what := cmpAll
	if d.rec.shadow {
		what |= cmpShadow | cmpLost
	}
	var first error
	for i, m := range prefixModels(cfg, ops, k) {
		lost := d.rec.lost
		err := d.compare(m, what)
		d.rec.lost = lost
		if err == nil {
			first = nil
			break
		}
		if i == 0 {
			first = err
		}
	}
	if first == nil && tee != nil && tee.String() != stream {
		first = fmt.Errorf("the tee has %q of %q", tee, stream)
	}
	return first
}

func stepString(steps []rdStep) string {
	var s []string
	for _, st := range steps {
		x := fmt.Sprint(st.n)
		if st.err != nil {
			x += " " + st.err.Error()
		}
		s = append(s, x)
	}
	if len(s) > 40 {
		s = append(s[:40], "...")
	}
	return strings.Join(s, ", ")
}

// finals are the ways a stream ends.
var finals = []struct {
	with bool // together with the last bytes
	err  error
}{{false, io.EOF}, {true, io.EOF}, {false, errFault}, {true, errFault}, {true, io.ErrUnexpectedEOF}}

// stepsOf cuts k bytes where mask says.
func stepsOf(k int, mask uint64, final, zeros int) []rdStep {
	var steps []rdStep
	z := func() {
		for i := 0; i < zeros; i++ {
			steps = append(steps, rdStep{})
		}
	}
	at := 0
	for i := 1; i <= k; i++ {
		if i == k || mask>>uint(i-1)&1 == 1 {
			z()
			steps = append(steps, rdStep{n: i - at})
			at = i
		}
	}
	z()
	f := finals[final]
	if f.with && k > 0 {
		// the last bytes come with the error
		j := len(steps) - 1 - zeros
		steps[j].err = f.err
		return steps[:j+1]
	}
	return append(steps, rdStep{err: f.err})
}

func (c *Check) deliverFail(name string, cfg Config, ops []*Op, k int, steps []rdStep, back int, err error) {
	c.fail(Violation{Config: cfg, Chunks: []string{specString(ops)}, What: name, Note: fmt.Sprintf("the first %d bytes, reads of %s, backend %d", k, stepString(steps), back), Error: err.Error()}, func() error {
		return deliver(nil, cfg, ops, k, steps, back)
	})
}

func specString(ops []*Op) string {
	s := strings.Join(specs(ops), " | ")
	if len(s) > 400 {
		s = s[:200] + " ... " + s[len(s)-200:]
	}
	return s
}

func c16(c *Check) {
	// everything about short streams
	toks := opsOf(`t "a"`, `t "bc"`, `t "é"`, `t "中"`, `t "𐍈"`, `t "x文"`, "LF", "BS", "RI", "BEL", "H 2 2", "m 31", "CPR", "DA", "K", "WRAP", "ALT", `osc 2 "t"`, `oscst 2 "é"`, ">u 1", "KPAM")
	most := pick(c, 9, 12)
	var streams [][]*Op
	size := func(ops []*Op) (n int) {
		for _, o := range ops {
			n += len(o.Bytes)
		}
		return
	}
	for _, a := range toks {
		if size([]*Op{a}) <= most {
			streams = append(streams, []*Op{a})
		}
		for _, b := range toks {
			if size([]*Op{a, b}) <= most {
				streams = append(streams, []*Op{a, b})
			}
			if c.thorough() {
				for _, e := range toks {
					if size([]*Op{a, b, e}) <= most-2 {
						streams = append(streams, []*Op{a, b, e})
					}
				}
			}
		}
	}
	cfgs := []Config{{W: 4, H: 3}, {W: 3, H: 2, Grapheme: true}, {W: 4, H: 2, Grid: true}}
	var runs atomicCount
	c.each(len(streams), func(w *worker, i int) {
		ops := streams[i]
		cfg := cfgs[0]
		if i%3 == 1 {
			cfg = cfgs[1]
		}
		if i%23 == 2 && tm.VerifState0 {
			cfg = cfgs[2]
		}
		for k := 0; k <= size(ops); k++ {
			if cfg.Grapheme && k < size(ops) {
				continue
			}
			for mask := uint64(0); mask < 1<<uint(max(k-1, 0)); mask++ {
				if cfg.Grapheme && !wholeRunes(ops, mask) {
					continue
				}
				for final := range finals {
					for zeros := 0; zeros < 2; zeros++ {
						if c.expired() {
							return
						}
						back := 0
						if (int(mask)+final+zeros)%4 == 3 {
							back = 1 + (int(mask)+k)%3
						}
						steps := stepsOf(k, mask, final, zeros)
						runs.add(1)
						if err := deliver(w, cfg, ops, k, steps, back); err != nil {
							c.deliverFail("short streams", cfg, ops, k, steps, back, err)
							return
						}
					}
				}
			}
		}
	})
	c.states.Add(int64(len(streams)))
	c.bound("short streams: %d streams of up to %d bytes, stopped after every byte, in every segmentation, ended by EOF or an error, with the last bytes or on its own, with and without empty reads between: %d deliveries", len(streams), most, runs.get())
	c.sample(map[string]any{"stream": specString(streams[len(streams)/2]), "reads": stepString(stepsOf(5, 5, 3, 1))})
	short := runs.get()

	// many empty reads in a row
	c.each(8, func(w *worker, i int) {
		for _, z := range []int{2, 3, 50, 99, 100, 101, 200, 300, 5000} {
			ops := opsOf(`t "ab"`, "CPR", `t "é"`, `osc 2 "t"`)
			n := size(ops)
			steps := stepsOf(n, []uint64{0, 1<<uint(n-1) - 1, 1, 4, 16, 64, 256, 1024}[i], i%5, z)
			runs.add(1)
			if err := deliver(w, cfgs[0], ops, n, steps, i%3); err != nil {
				c.deliverFail("empty reads", cfgs[0], ops, n, steps, i%3, err)
				return
			}
		}
	})
	c.bound("up to 5000 empty reads in a row")
	c.longStreams(&runs)
	c.writeFaults()
	c.teeHistories()
	c.sizes()
	c.ptys()
	c.transitions.Add(runs.get())
	c.traces.Add(runs.get())
	c.bound("%d deliveries of long streams and empty reads", runs.get()-short)
}

// wholeRunes says whether no cut of mask is inside of a character.
func wholeRunes(ops []*Op, mask uint64) bool {
	pos := 0
	for _, o := range ops {
		for i := 0; i < len(o.Bytes); i++ {
			if pos > 0 && mask>>uint(pos-1)&1 == 1 && o.Bytes[i]&0xc0 == 0x80 {
				return false
			}
			pos++
		}
	}
	return true
}

// counter is text in which every piece is different.
func counter(n int) string {
	var b strings.Builder
	for i := 0; b.Len() < n; i++ {
		fmt.Fprintf(&b, "%x.", i)
	}
	return b.String()[:n]
}

// longStreams goes over the sizes of the internal buffers.
func (c *Check) longStreams(runs *atomicCount) {
	type long struct {
		name string
		ops  []*Op
		cfg  Config
	}
	total := func(ops []*Op) (n int) {
		for _, o := range ops {
			n += len(o.Bytes)
		}
		return
	}
	var all []long
	for _, n := range []int{4095, 4096, 4097, 8191, 8192, 8193, 12289, 20000} {
		all = append(all,
			long{"text", []*Op{op("WRAP"), text(counter(n)), op("CPR")}, Config{W: 80, H: 60}},
			long{"title", []*Op{op(`osc 2 "` + counter(n) + `"`), text("x")}, Config{W: 8, H: 2}},
			long{"wide", []*Op{op("WRAP"), text(strings.Repeat("中é𐍈a", n/10)), op("DA")}, Config{W: 79, H: 60}},
		)
		mix := []*Op{op("WRAP")}
		for i := 0; total(mix) < n; i++ {
			mix = append(mix, text(fmt.Sprint(i)), op(fmt.Sprintf("m %d", 31+i%7)))
			if i%5 == 0 {
				mix = append(mix, op("LF"), op("CPR"), text("é中"))
			}
			if i%40 == 7 {
				mix = append(mix, op(`osc 2 "`+fmt.Sprint(i)+`"`))
			}
		}
		all = append(all, long{"mixed", mix, Config{W: 40, H: 12}})
		all = append(all, long{"text without wrapping", []*Op{text(counter(n)), op("CPR")}, Config{W: 80, H: 2}})
	}
	for _, n := range []int{5000, 10000} {
		all = append(all, long{"graphemes", []*Op{op("WRAP"), text(strings.Repeat("e\u0301中ab", n/9)), op("CPR")}, Config{W: 80, H: 60, Grapheme: true}})
	}
	chunks := []int{1 << 30, 1, 2, 3, 7, 64, 1000, 4095, 4096, 4097, 8191, 8192, 8193}
	type job struct {
		l        long
		chunk, k int
		final    int
		zeros    int
	}
	var jobs []job
	for li, l := range all {
		n := total(l.ops)
		ks := []int{n}
		for _, b := range []int{4096, 8192, 12288} {
			for _, off := range pick(c, []int{-1, 0, 1}, []int{-5, -4, -3, -2, -1, 0, 1, 2, 3, 4, 5}) {
				if b+off < n && !l.cfg.Grapheme {
					ks = append(ks, b+off)
				}
			}
		}
		for ki, k := range ks {
			for ci, chunk := range chunks {
				if l.cfg.Grapheme && chunk < 9 {
					continue
				}
				if !c.thorough() && ki > 0 && (ci+ki+li)%3 != 0 {
					continue
				}
				jobs = append(jobs, job{l, chunk, k, (li + ki + ci) % len(finals), (ki + ci) % 2})
			}
		}
	}
	c.each(len(jobs), func(w *worker, i int) {
		j := jobs[i]
		var steps []rdStep
		for at := 0; at < j.k; {
			n := min(j.chunk, j.k-at)
			if j.l.cfg.Grapheme {
				n = min(n, 9*max(n/9, 1))
				n = min(n, j.k-at)
			}
			if j.zeros == 1 {
				steps = append(steps, rdStep{})
			}
			steps = append(steps, rdStep{n: n})
			at += n
		}
		if f := finals[j.final]; f.with {
			steps[len(steps)-1].err = f.err
		} else {
			steps = append(steps, rdStep{err: f.err})
		}
		if j.l.cfg.Grapheme && j.chunk > 4000 {
			return // the buffer would cut a cluster
		}
		runs.add(1)
		if err := deliver(w, j.l.cfg, j.l.ops, j.k, steps, i%4); err != nil {
			c.deliverFail("long streams: "+j.l.name, j.l.cfg, j.l.ops, j.k, steps, i%4, err)
		}
	})
	c.states.Add(int64(len(jobs)))
	c.bound("long streams of 4095 to 20000 bytes (text, titles, wide characters, sequences), stopped around multiples of 4096, reads of %v bytes: %d deliveries", chunks, len(jobs))
}

// writeFaults tries every behaviour of the writer for each call.
func (c *Check) writeFaults() {
	type outcome struct {
		n   int
		err error
	}
	var runs, states atomicCount
	// what sends something, and what it sends
	senders := []struct {
		name string
		want string
		send func(t tm.Terminal) (int, error)
	}{
		{"Write 1", "x", func(t tm.Terminal) (int, error) { return t.Write([]byte("x")) }},
		{"Write 2", "xy", func(t tm.Terminal) (int, error) { return t.Write([]byte("xy")) }},
		{"Write 4", "wxyz", func(t tm.Terminal) (int, error) { return t.Write([]byte("wxyz")) }},
		{"Write 0", "", func(t tm.Terminal) (int, error) { return t.Write(nil) }},
		{"SendKey", "\x1b[1;2A", func(t tm.Terminal) (int, error) { return t.SendKey(tm.KeyEvent{Code: tm.KeyUp, Mod: tm.ModShift}) }},
		{"Write 6", "uvwxyz", func(t tm.Terminal) (int, error) { return t.Write([]byte("uvwxyz")) }},
	}
	senders = senders[:pick(c, 5, 6)]
	c.each(len(senders)*4, func(w *worker, i int) {
		s := senders[i/4]
		d := newDrv(Config{W: 4, H: 2}, w)
		under(d, i%4)
		d.rd = func(p []byte) (int, error) { return 0, io.EOF }
		if err := d.run(nil); err != nil {
			c.fail(Violation{What: "writes", Error: err.Error()}, nil)
			return
		}
		depth := len(s.want) + 1
		var walk func(hist []outcome)
		walk = func(hist []outcome) {
			if c.expired() {
				return
			}
			// run with the outcomes of hist; the writer takes nothing after that
			calls, more := 0, -1
			var failed error
			zero := false
			d.out = d.out[:0]
			d.wfault = func(p []byte) (int, error) {
				if calls++; calls > 200 {
					panic("the write is tried for ever")
				}
				if failed != nil {
					panic("written to after it reported an error")
				}
				if calls > len(hist) {
					if more < 0 {
						more = len(p)
					}
					failed = errFault
					return 0, errFault
				}
				o := hist[calls-1]
				failed = o.err
				n := min(o.n, len(p))
				zero = zero || n == 0 && o.err == nil
				return n, o.err
			}
			n, err, p := func() (n int, err error, p any) {
				defer func() { p = recover() }()
				n, err = s.send(d.t)
				return
			}()
			runs.add(1)
			got := string(d.out)
			bad := ""
			switch {
			case p != nil:
				bad = fmt.Sprint("panic: ", p)
			case !strings.HasPrefix(s.want, got):
				bad = fmt.Sprintf("%q was written of %q", got, s.want)
			case n != len(got):
				bad = fmt.Sprintf("%d was returned, %q was written of %q", n, got, s.want)
			case err == nil && got != s.want:
				bad = fmt.Sprintf("no error, %q was written of %q", got, s.want)
			case err != nil && failed == nil && !zero:
				bad = fmt.Sprintf("error %v, the writer had none", err)
			case err != nil && failed != nil && !errors.Is(err, failed):
				bad = fmt.Sprintf("error %v, the writer reported %v", err, failed)
			}
			if bad != "" {
				var h []string
				for _, o := range hist {
					h = append(h, fmt.Sprint(o.n, " ", o.err))
				}
				c.fail(Violation{Config: d.cfg, What: s.name + ": writes", Note: fmt.Sprintf("backend %d, the writer answers %s and then 0 %v", i%4, strings.Join(h, ", "), errFault), Error: bad}, nil)
				return
			}
			if more > 0 && len(hist) < depth {
				states.add(1)
				for n := 0; n <= more; n++ {
					for _, e := range []error{nil, errFault, io.ErrShortWrite} {
						if e == io.ErrShortWrite && n == more {
							continue
						}
						walk(append(hist[:len(hist):len(hist)], outcome{n, e}))
					}
				}
			}
		}
		walk(nil)
		d.wfault = nil
	})
	// replies of the loop: a fault must not stop or kill it
	c.each(5, func(w *worker, i int) {
		q := []string{"\x1b[6n", "\x1b[c", "\x1b[>c", "\x1b[5n", "\x1b[?u"}[i]
		for cut := 0; cut < 16; cut++ {
			for kind := 0; kind < 4; kind++ {
				d := newDrv(Config{W: 4, H: 2}, w)
				taken := 0
				d.wfault = func(p []byte) (int, error) {
					n := min(len(p), max(cut-taken, 0))
					taken += n
					switch kind {
					case 0:
						return n, errFault
					case 1:
						return n, nil
					case 2:
						return min(len(p), cut+1), nil
					}
					return 0, errFault
				}
				runs.add(1)
				err := d.run([]*Op{{Bytes: "a" + q + "b\x1b[31m" + q + "c", F: func(*Model) {}}})
				if err == nil {
					m := newModel(d.cfg)
					text("ab").F(m)
					op("m 31").F(m)
					text("c").F(m)
					err = d.compare(m, cmpContent|cmpCursor|cmpStyle)
				}
				if err != nil {
					c.fail(Violation{Config: d.cfg, What: "a reply that cannot be written", Note: fmt.Sprintf("%q, fault %d after %d bytes", q, kind, cut), Error: err.Error()}, nil)
					return
				}
			}
		}
	})
	c.states.Add(states.get())
	c.transitions.Add(runs.get())
	c.traces.Add(runs.get())
	c.bound("writes: every sequence of results (bytes taken, error) of the writer for writes of up to %d bytes, through each kind of backend: %d runs", pick(c, 6, 6), runs.get())
}

// shortTee is a tee that takes nothing, or fails.
type badTee struct {
	n   int
	err error
	got bytes.Buffer
}

func (b *badTee) Write(p []byte) (int, error) {
	b.got.Write(p)
	return min(b.n, len(p)), b.err
}

// teeHistories tries every sequence of reads and SetTee calls.
func (c *Check) teeHistories() {
	if tm.NewTeeBackend(nil) != nil {
		c.fail(Violation{What: "NewTeeBackend(nil)", Error: "is not nil"}, nil)
	}
	type step struct {
		n   int
		err error
		tee int // 0: as before, 1: A, 2: B, 3: none, 4: failing, 5: taking nothing
	}
	var steps []step
	for _, n := range []int{0, 1, 2, 5} {
		for _, e := range []error{nil, io.EOF, errFault} {
			for tee := 0; tee < 6; tee++ {
				steps = append(steps, step{n, e, tee})
			}
		}
	}
	depth := pick(c, 3, 3)
	var runs atomicCount
	c.each(len(steps), func(w *worker, i int) {
		hist := make([]step, 0, depth)
		var walk func()
		walk = func() {
			if c.expired() {
				return
			}
			if len(hist) > 0 {
				runs.add(1)
				if err := func() (err error) {
					defer func() {
						if p := recover(); p != nil {
							err = fmt.Errorf("panic: %v", p)
						}
					}()
					return teeRun(len(hist), func(i int) (int, error, int) { return hist[i].n, hist[i].err, hist[i].tee })
				}(); err != nil {
					c.fail(Violation{What: "TeeBackend", Note: fmt.Sprintf("%+v", hist), Error: err.Error()}, nil)
					return
				}
			}
			if len(hist) == depth {
				return
			}
			for j, s := range steps {
				if len(hist) == 0 && j != i {
					continue
				}
				hist = append(hist, s)
				walk()
				hist = hist[:len(hist)-1]
			}
		}
		walk()
	})
	c.transitions.Add(runs.get())
	c.traces.Add(runs.get())
	c.bound("TeeBackend: every sequence of %d reads (0, 1, 2, 5 bytes; no error, EOF, error) and tees (kept, replaced, removed, failing, taking nothing): %d", depth, runs.get())
}

func teeRun(k int, at func(i int) (n int, err error, tee int)) error {
	type key struct{ tee int }
	var a, b bytes.Buffer
	f := &badTee{err: errFault}
	z := &badTee{}
	cur := 0
	want := map[int]string{}
	i, stream := 0, "0123456789abcdefghijklmnop"
	pos := 0
	var gotP int
	inner := &drv{}
	inner.rd = func(p []byte) (int, error) {
		n, err, _ := at(i)
		gotP = len(p)
		copy(p, stream[pos:pos+n])
		return n, err
	}
	// reading a backend directly: the drv has no terminal
	t := tm.NewTeeBackend(inner)
	if tm.NewTeeBackend(t) != t {
		// wrapping twice is fine as long as nothing is copied twice
		t = tm.NewTeeBackend(t)
	}
	for ; i < k; i++ {
		n, err, tee := at(i)
		switch tee {
		case 1:
			t.SetTee(&a)
		case 2:
			t.SetTee(&b)
		case 3:
			t.SetTee(nil)
		case 4:
			t.SetTee(f)
		case 5:
			t.SetTee(z)
		}
		if tee != 0 {
			cur = tee
		}
		buf := bytes.Repeat([]byte{'.'}, 7)
		gn, gerr := t.Read(buf)
		if gn != n || gerr != err {
			return fmt.Errorf("Read returned %d, %v; the backend returned %d, %v", gn, gerr, n, err)
		}
		if gotP != len(buf) {
			return fmt.Errorf("the backend was given %d bytes to fill, not %d", gotP, len(buf))
		}
		if string(buf) != stream[pos:pos+n]+strings.Repeat(".", 7-n) {
			return fmt.Errorf("Read gave %q, the backend gave %q", buf, stream[pos:pos+n])
		}
		want[cur] += stream[pos : pos+n]
		pos += n
	}
	if a.String() != want[1] || b.String() != want[2] {
		return fmt.Errorf("the tees have %q and %q, want %q and %q", &a, &b, want[1], want[2])
	}
	for j, x := range []*badTee{f, z} {
		if got := x.got.String(); got != want[4+j] && !(strings.HasPrefix(want[4+j], got)) {
			return fmt.Errorf("a bad tee was given %q, want %q", got, want[4+j])
		}
	}
	return nil
}

// sizes checks that Resize tells the backend.
func (c *Check) sizes() {
	var n atomicCount
	var ss []size
	for w := 1; w <= 20; w++ {
		for h := 1; h <= 20; h++ {
			ss = append(ss, size{w, h})
		}
	}
	ss = append(ss, size{80, 24}, size{132, 43}, size{300, 2}, size{2, 300}, size{255, 256}, size{256, 255})
	c.each(len(ss)*4, func(w *worker, i int) {
		sz, back := ss[i/4], i%4
		d := newDrv(Config{W: 3, H: 3}, w)
		under(d, back)
		if back == 2 || back == 3 {
			return // a NoPTYBackend has no size to set
		}
		d.rd = func(p []byte) (int, error) { return 0, io.EOF }
		err := d.run(nil)
		if err == nil {
			for k := 0; k < 3; k++ {
				d.sizes = nil
				d.szErr = nil
				if k == 2 {
					d.szErr = errFault
				}
				x, y := sz.w, sz.h
				if k == 1 {
					x, y = y, x
				}
				e := d.t.Resize(x, y)
				n.add(1)
				if len(d.sizes) != 1 || d.sizes[0] != [2]int{x, y} {
					err = fmt.Errorf("Resize(%d, %d) told the backend %v", x, y, d.sizes)
				}
				if (e != nil) != (d.szErr != nil) {
					err = fmt.Errorf("Resize(%d, %d) returned %v, the backend %v", x, y, e, d.szErr)
				}
				var gw, gh int
				d.t.WithLock(func() { gw, gh = d.t.Size() })
				if gw != x || gh != y {
					err = fmt.Errorf("Resize(%d, %d) made it %dx%d", x, y, gw, gh)
				}
			}
		}
		if err != nil {
			c.fail(Violation{Config: d.cfg, What: "Resize and the backend", Note: fmt.Sprintf("backend %d", back), Error: err.Error()}, nil)
		}
	})
	c.transitions.Add(n.get())
	c.traces.Add(n.get())
	c.bound("Resize: %d sizes, with and without a TeeBackend, on a backend that fails and one that does not: %d calls", len(ss), n.get())
}

// ptys checks a terminal on a real pseudo-terminal.
func (c *Check) ptys() {
	if c.expired() {
		return
	}
	err := func() (err error) {
		defer func() {
			if p := recover(); p != nil {
				err = fmt.Errorf("panic: %v", p)
			}
		}()
		b := &tm.PTYBackend{}
		if n, err := b.Read(make([]byte, 4)); n != 0 || err == nil {
			return fmt.Errorf("a PTYBackend that is not open reads %d, %v", n, err)
		}
		if n, err := b.Write([]byte("x")); n != 0 || err == nil {
			return fmt.Errorf("a PTYBackend that is not open writes %d, %v", n, err)
		}
		slave, err := b.Open()
		if err != nil {
			c.bound("no pseudo-terminals here: %v", err)
			return nil
		}
		again, err := b.Open()
		if err != nil || again != slave {
			return fmt.Errorf("a second Open gives %v, %v", again, err)
		}
		count := 0
		for _, tee := range []bool{false, true} {
			var be tm.Backend = b
			if tee {
				be = tm.NewTeeBackend(b)
			}
			for w := 1; w <= 60; w++ {
				for _, h := range []int{1, 2, 3, 24, 25, 80, 255, 256, 257, 1000, 65535} {
					for k := 0; k < 2; k++ {
						x, y := w, h
						if k == 1 {
							x, y = h, w
						}
						if err := be.SetSize(x, y); err != nil {
							return fmt.Errorf("SetSize(%d, %d): %v", x, y, err)
						}
						rows, cols, err := pty.Getsize(slave)
						if err != nil {
							return nil // not possible here
						}
						count++
						if rows != y || cols != x {
							return fmt.Errorf("SetSize(%d, %d) gives the slave %d rows and %d columns", x, y, rows, cols)
						}
					}
				}
			}
		}
		t := tm.New(nil, b)
		for _, sz := range [][2]int{{10, 4}, {7, 9}, {33, 2}} {
			if err := t.Resize(sz[0], sz[1]); err != nil {
				return err
			}
			rows, cols, _ := pty.Getsize(slave)
			if rows != sz[1] || cols != sz[0] {
				return fmt.Errorf("Resize(%d, %d) gives the slave %d rows and %d columns", sz[0], sz[1], rows, cols)
			}
		}
		// both directions
		if _, err := slave.WriteString("hello\x1b[1;3HX"); err != nil {
			return err
		}
		line := func() (s string) { t.WithLock(func() { s = t.Line(0) }); return }
		for i := 0; i < 2000 && !strings.HasPrefix(line(), "heXlo"); i++ {
			time.Sleep(5 * time.Millisecond)
		}
		if !strings.HasPrefix(line(), "heXlo") {
			return fmt.Errorf("the screen shows %q", line())
		}
		if n, err := t.Write([]byte("line\n")); n != 5 || err != nil {
			return fmt.Errorf("Write returned %d, %v", n, err)
		}
		got := make([]byte, 20)
		_ = slave.SetReadDeadline(time.Now().Add(10 * time.Second))
		n, err := slave.Read(got)
		if err != nil || string(got[:n]) != "line\n" {
			return fmt.Errorf("the slave reads %q, %v", got[:n], err)
		}
		slave.Close()
		c.bound("a pseudo-terminal: %d sizes read back from the slave, bytes in both directions", count)
		c.transitions.Add(int64(count))
		return nil
	}()
	if err != nil {
		c.fail(Violation{What: "PTYBackend", Error: err.Error()}, nil)
	}
}
