package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
	"unicode/utf8"

	tm "github.com/ricochet1k/termemu"
)

// C15: the read loop and other goroutines under a controlled scheduler, every
// schedule up to a number of preemptions, with the race detector watching.

func init() { register("C15", "model_checking", 90*time.Second, 50*time.Minute, c15) }

// act15 is something a goroutine does with the terminal.
type act15 struct {
	Name   string
	Do     func(x *exec15, th int)
	RW, RH int
	Want   []string              // what it may write to the backend, "" for nothing
	At     func(m *Model) string // what it writes in a state, if it depends on that
}

type scn15 struct {
	Name    string
	Cfg     Config
	Chunks  []string
	Toks    []*Op
	Threads [][]act15
	Bound   int
	Short   int  // the backend takes this many bytes of a write
	CB      bool // callbacks are scheduling points
	Tee     bool
	TTY     bool
}

// plain makes the stream and its tokens from operations: every character is a
// token of its own.
func (s *scn15) stream(chunk int, ops ...*Op) {
	all := ""
	var parts []*Op
	for _, o := range ops {
		if p := strings.Split(o.Spec, " | "); len(p) > 1 {
			parts = append(parts, opsOf(p...)...)
		} else {
			parts = append(parts, o)
		}
	}
	for _, o := range parts {
		all += o.Bytes
		if strings.HasPrefix(o.Spec, "t ") {
			b := o.Bytes
			for len(b) > 0 {
				_, n := utf8.DecodeRuneInString(b)
				s.Toks = append(s.Toks, text(b[:n]))
				b = b[n:]
			}
			continue
		}
		s.Toks = append(s.Toks, o)
	}
	if chunk < 0 { // a token at a time
		for _, o := range s.Toks {
			s.Chunks = append(s.Chunks, o.Bytes)
		}
		return
	}
	if chunk == 0 {
		s.Chunks = []string{all}
		return
	}
	for len(all) > 0 {
		n := min(chunk, len(all))
		s.Chunks = append(s.Chunks, all[:n])
		all = all[n:]
	}
}

// tokens is how many tokens are complete in the first n chunks.
func (s *scn15) tokens(n int) int {
	have, i := 0, 0
	for k := 0; k < n && k < len(s.Chunks); k++ {
		have += len(s.Chunks[k])
	}
	for ; i < len(s.Toks) && have >= len(s.Toks[i].Bytes); i++ {
		have -= len(s.Toks[i].Bytes)
	}
	return i
}

// allowed are the states that processing i tokens and j resizes can lead to.
type allowed struct {
	sets [][]map[string]*Model // [i][j]
	outs map[string][]string   // of an action, in any of the states
}

// outputs are what an action may write: what it writes in one of the states
// between i0 and i1 tokens.
func (al *allowed) outputs(a act15, i0, i1 int) []string {
	if a.At == nil {
		return a.Want
	}
	key := fmt.Sprint(a.Name, " ", i0, " ", i1)
	if l, ok := al.outs[key]; ok {
		return l
	}
	seen := map[string]bool{}
	for i := max(i0, 0); i <= i1 && i < len(al.sets); i++ {
		for _, set := range al.sets[i] {
			for _, m := range set {
				seen[a.At(m)] = true
			}
		}
	}
	l := []string{}
	for o := range seen {
		l = append(l, o)
	}
	sort.Strings(l)
	if al.outs == nil {
		al.outs = map[string][]string{}
	}
	al.outs[key] = l
	return l
}

func (s *scn15) resizes() (th int, list []act15) {
	th = -1
	for i, t := range s.Threads {
		for _, a := range t {
			if a.RW > 0 {
				if th >= 0 && th != i+1 {
					return -2, nil // several threads resize
				}
				th = i + 1
				list = append(list, a)
			}
		}
	}
	return
}

func (s *scn15) model() *allowed {
	_, rs := s.resizes()
	al := &allowed{}
	n, k := len(s.Toks), len(rs)
	al.sets = make([][]map[string]*Model, n+1)
	for i := range al.sets {
		al.sets[i] = make([]map[string]*Model, k+1)
		for j := range al.sets[i] {
			set := map[string]*Model{}
			add := func(m *Model) { set[modelState(m)+"|"+m.Reply] = m }
			if i == 0 && j == 0 {
				add(newModel(s.Cfg))
			}
			if i > 0 {
				for _, m := range al.sets[i-1][j] {
					m = m.clone()
					m.begin()
					s.Toks[i-1].F(m)
					add(m)
				}
			}
			if j > 0 {
				for _, m := range al.sets[i][j-1] {
					m = m.clone()
					m.begin()
					m.resize(rs[j-1].RW, rs[j-1].RH)
					add(m)
				}
			}
			al.sets[i][j] = set
		}
	}
	return al
}

func stateText(w, h int, row func(y int) []Cell, cx, cy int, wrap bool, st Sty, alt bool, vf [6]bool, vi [3]int, vs [3]string, kf int) string {
	if !tm.VerifState0 { // not to be seen here
		wrap, alt, st = false, false, Sty{}
	}
	if !tm.VerifKeys {
		kf = -1
	}
	var b strings.Builder
	b.WriteString(strconv.Itoa(w))
	b.WriteByte('x')
	b.WriteString(strconv.Itoa(h))
	b.WriteByte('@')
	b.WriteString(strconv.Itoa(cx))
	b.WriteByte(',')
	b.WriteString(strconv.Itoa(cy))
	for _, f := range append([]bool{wrap, alt}, vf[:]...) {
		if f {
			b.WriteByte('1')
		} else {
			b.WriteByte('0')
		}
	}
	for _, n := range append([]int{kf}, vi[:]...) {
		b.WriteByte(',')
		b.WriteString(strconv.Itoa(n))
	}
	if st != (Sty{}) {
		b.WriteString(st.String())
	}
	for _, s := range vs {
		b.WriteByte('"')
		b.WriteString(s)
	}
	for y := 0; y < h; y++ {
		b.WriteByte('\n')
		prev := Sty{}
		for _, c := range row(y) {
			if c.S != prev {
				prev = c.S
				b.WriteByte('{')
				b.WriteString(prev.String())
				b.WriteByte('}')
			}
			b.WriteString(c.T)
		}
	}
	return b.String()
}

func modelState(m *Model) string {
	s := m.s()
	return stateText(s.W, s.H, func(y int) []Cell { return s.Rows[y] }, s.CX, s.CY, s.Wrap, s.S, m.Alt == 1, m.VF, m.VI, m.VS, s.KF)
}

// fe15 is the frontend. Its fields are deliberately plain: the terminal lock
// is what protects them.
type fe15 struct {
	x      *exec15
	fwd    tm.Frontend
	cx, cy int
	style  tm.Style
	styleN int
	vf     [6]bool
	vi     [3]int
	vs     [3]string
	sh     [][]Cell
	n      int
}

func (f *fe15) cb(kind string) {
	x := f.x
	if !x.running {
		return
	}
	f.n++
	th := x.s.self()
	if x.termKnown && !x.s.owns(th) {
		x.bad(th, fmt.Errorf("%s was called without the terminal lock held", kind))
	}
	if x.scn.CB {
		x.s.here()
	}
}

func (f *fe15) Bell() { f.cb("Bell"); f.other(func(o tm.Frontend) { o.Bell() }) }
func (f *fe15) other(g func(o tm.Frontend)) {
	if f.fwd != nil {
		g(f.fwd)
	}
}

func (f *fe15) RegionChanged(r tm.Region, c tm.ChangeReason) {
	f.cb("RegionChanged")
	f.other(func(o tm.Frontend) { o.RegionChanged(r, c) })
	if !f.x.running {
		return
	}
	w, h := f.x.t.Size()
	if len(f.sh) != h || len(f.sh) > 0 && len(f.sh[0]) != w {
		f.sh = make([][]Cell, h)
		for y := range f.sh {
			f.sh[y] = make([]Cell, w)
		}
		r = tm.Region{X2: w, Y2: h}
	}
	for y := max(r.Y, 0); y < min(r.Y2, h); y++ {
		row, err := f.x.d.rowCells(y)
		if err != nil {
			f.x.bad(f.x.s.self(), fmt.Errorf("row %d read in RegionChanged: %w", y, err))
			return
		}
		for x := max(r.X, 0); x < min(r.X2, w); x++ {
			f.sh[y][x] = row[x]
		}
	}
}

func (f *fe15) ScrollLines(n int) {
	f.cb("ScrollLines")
	f.other(func(o tm.Frontend) { o.ScrollLines(n) })
	if f.x.running {
		for y := 0; y < n; y++ {
			_ = f.x.t.Line(y)
		}
	}
}

func (f *fe15) CursorMoved(x, y int) {
	f.cb("CursorMoved")
	f.other(func(o tm.Frontend) { o.CursorMoved(x, y) })
	f.cx, f.cy = x, y
	if f.x.running {
		if w, h := f.x.t.Size(); y < h && w > 0 {
			_ = f.x.t.StyledLine(0, w, y)
			_ = f.x.t.ANSILine(y)
		}
	}
}

func (f *fe15) StyleChanged(s tm.Style) {
	f.cb("StyleChanged")
	f.other(func(o tm.Frontend) { o.StyleChanged(s) })
	f.style = s
	f.styleN++
}

func (f *fe15) ViewFlagChanged(v tm.ViewFlag, b bool) {
	f.cb("ViewFlagChanged")
	f.other(func(o tm.Frontend) { o.ViewFlagChanged(v, b) })
	if int(v) < len(f.vf) {
		f.vf[v] = b
	}
}

func (f *fe15) ViewIntChanged(v tm.ViewInt, n int) {
	f.cb("ViewIntChanged")
	f.other(func(o tm.Frontend) { o.ViewIntChanged(v, n) })
	if int(v) < len(f.vi) {
		f.vi[v] = n
	}
}

func (f *fe15) ViewStringChanged(v tm.ViewString, s string) {
	f.cb("ViewStringChanged")
	f.other(func(o tm.Frontend) { o.ViewStringChanged(v, s) })
	if int(v) < len(f.vs) {
		f.vs[v] = s
	}
}

// be15 is the backend. What it keeps about writes and sizes is plain too, as
// it would be in a bytes.Buffer.
type be15 struct {
	x     *exec15
	ci    int
	rest  string
	eof   int
	log   []byte
	sizes [][2]int
}

func (b *be15) Read(p []byte) (int, error) {
	x := b.x
	if b.rest == "" {
		if x.running {
			if x.termKnown && x.s.owns(x.s.self()) {
				x.bad(x.s.self(), fmt.Errorf("the terminal lock is held while the read loop waits for input"))
			}
			x.s.here()
		}
		if b.ci >= len(x.scn.Chunks) {
			b.eof++
			return 0, io.EOF
		}
		b.rest = x.scn.Chunks[b.ci]
		b.ci++
	}
	n := copy(p, b.rest)
	b.rest = b.rest[n:]
	return n, nil
}

//go:norace
func (b *be15) chunk() int { return b.ci }

func (b *be15) Write(p []byte) (int, error) {
	x := b.x
	if x.running {
		x.s.here()
	}
	n := len(p)
	if x.scn.Short > 0 {
		n = min(n, x.scn.Short)
	}
	b.log = append(b.log, p[:n]...)
	return n, nil
}

func (b *be15) SetSize(w, h int) error {
	if b.x.running {
		b.x.s.here()
	}
	b.sizes = append(b.sizes, [2]int{w, h})
	return nil
}

// tee15 is a tee writer.
type tee15 struct {
	x *exec15
	b []byte
}

func (t *tee15) Write(p []byte) (int, error) {
	t.x.s.here()
	t.b = append(t.b, p...)
	return len(p), nil
}

// out15 is what a TTYFrontend writes to; plain, like a bytes.Buffer.
type out15 struct {
	x *exec15
	n int
}

func (o *out15) Write(p []byte) (int, error) {
	o.n += len(p)
	if o.x.running && o.x.scn.CB {
		o.x.s.here()
	}
	return len(p), nil
}

type snap15 struct {
	th, rs int // resizes its own thread had done
	text   string
}

// exec15 is one execution of a scenario under one schedule.
type exec15 struct {
	wins      [4][][2]int // of every action of a thread, the chunks read before and after it
	scn       *scn15
	s         *sched
	t         tm.Terminal
	d         *drv
	fe        *fe15
	be        *be15
	tb        *tm.TeeBackend
	tees      [2]*tee15
	tty       *tm.TTYFrontend
	running   bool
	termKnown bool
	errs      [4]error
	snaps     [4][]snap15
	rs        [4]int
}

func (x *exec15) bad(th int, err error) {
	if th < 0 {
		th = 0
	}
	if x.errs[th] == nil {
		x.errs[th] = err
	}
}

// look reads everything under the lock the caller holds.
func (x *exec15) look(th int) {
	t, f := x.t, x.fe
	w, h := t.Size()
	rows := make([][]Cell, h)
	for y := range rows {
		r, err := x.d.rowCells(y)
		if err != nil {
			x.bad(th, fmt.Errorf("row %d, read under the lock: %w", y, err))
			return
		}
		rows[y] = r
		if s := t.Line(y); s != rowText(r) {
			x.bad(th, fmt.Errorf("under the lock, Line(%d) is %q and StyledLine %q", y, s, rowText(r)))
		}
		_ = t.ANSILine(y)
	}
	if l := t.StyledLines(tm.Region{X2: w, Y2: h}); len(l) != h {
		x.bad(th, fmt.Errorf("under the lock, StyledLines returned %d rows of %d", len(l), h))
	}
	cx, cy, wrap, st := tm.VerifState(t)
	sty, err := decodeStyle(st)
	if err != nil {
		x.bad(th, err)
		return
	}
	if !tm.VerifState0 {
		cx, cy = f.cx, f.cy
	}
	if f.cx != cx || f.cy != cy {
		x.bad(th, fmt.Errorf("half-applied update: a reader holding the lock sees the cursor at %d,%d, the frontend was told %d,%d", cx, cy, f.cx, f.cy))
	}
	if f.styleN > 0 && tm.VerifState0 {
		if fs, err := decodeStyle(f.style); err != nil || fs != sty {
			x.bad(th, fmt.Errorf("half-applied update: a reader holding the lock sees style %v, the frontend was told %v", sty, fs))
		}
	}
	if g, ok := t.(viewGetter); ok {
		for i := range f.vf {
			if g.GetViewFlag(tm.ViewFlag(i)) != f.vf[i] {
				x.bad(th, fmt.Errorf("half-applied update: a reader holding the lock sees view flag %d %v, the frontend was told %v", i, !f.vf[i], f.vf[i]))
			}
		}
		for i := range f.vi {
			if n := g.GetViewInt(tm.ViewInt(i)); n != f.vi[i] {
				x.bad(th, fmt.Errorf("half-applied update: a reader holding the lock sees view int %d %d, the frontend was told %d", i, n, f.vi[i]))
			}
		}
		for i := range f.vs {
			if s := g.GetViewString(tm.ViewString(i)); s != f.vs[i] {
				x.bad(th, fmt.Errorf("half-applied update: a reader holding the lock sees view string %d %q, the frontend was told %q", i, s, f.vs[i]))
			}
		}
	}
	if rt, _ := x.scn.resizes(); rt == -1 {
		for y := range rows {
			for c := range rows[y] {
				if f.sh[y][c] != rows[y][c] {
					x.bad(th, fmt.Errorf("half-applied update: a reader holding the lock sees row %d as %s, what was announced to the frontend repaints as %s", y, cellsString(rows[y]), cellsString(f.sh[y])))
					return
				}
			}
		}
	}
	x.snaps[th] = append(x.snaps[th], snap15{th, x.rs[th],
		stateText(w, h, func(y int) []Cell { return rows[y] }, cx, cy, wrap, sty, tm.VerifOnAlt(t), f.vf, f.vi, f.vs, tm.VerifKeyboard(t))})
}

// ---- what other goroutines do

func aRead() act15 {
	return act15{Name: "read", Do: func(x *exec15, th int) { x.t.WithLock(func() { x.look(th) }) }}
}

func aLock() act15 {
	return act15{Name: "lock", Do: func(x *exec15, th int) {
		x.t.Lock()
		x.look(th)
		x.t.Unlock()
	}}
}

// aKeep reads lines under the lock and looks at them after it is released.
func aKeep() act15 {
	return act15{Name: "read and keep", Do: func(x *exec15, th int) {
		var lines []tm.Line
		var texts []string
		x.t.WithLock(func() {
			w, h := x.t.Size()
			lines = x.t.StyledLines(tm.Region{X2: w, Y2: h})
			for y := 0; y < h; y++ {
				lines = append(lines, x.t.StyledLine(0, w, y))
				texts = append(texts, x.t.Line(y), x.t.ANSILine(y))
			}
		})
		x.s.here()
		for i, l := range lines {
			n := 0
			for _, sp := range l.Spans {
				n += sp.Width
			}
			if n != l.Width {
				x.bad(th, fmt.Errorf("line %d, read under the lock, has width %d when it is looked at later, not %d", i, n, l.Width))
			}
		}
		_ = strings.Join(texts, "")
	}}
}

func aResize(w, h int) act15 {
	return act15{Name: fmt.Sprintf("resize %dx%d", w, h), RW: w, RH: h, Do: func(x *exec15, th int) {
		if err := x.t.Resize(w, h); err != nil {
			x.bad(th, err)
		}
		x.rs[th]++
	}}
}

func aWrite(s string) act15 {
	return act15{Name: fmt.Sprintf("write %q", s), Want: []string{s}, Do: func(x *exec15, th int) {
		if n, err := x.t.Write([]byte(s)); n != len(s) || err != nil {
			x.bad(th, fmt.Errorf("Write(%q) returned %d, %v", s, n, err))
		}
	}}
}

func aKey(name string, ev tm.KeyEvent, at func(m *Model) string) act15 {
	return act15{Name: "key " + name, At: at, Do: func(x *exec15, th int) {
		if _, err := x.t.SendKey(ev); err != nil {
			x.bad(th, err)
		}
	}}
}

func keyUp() act15 {
	return aKey("up", tm.KeyEvent{Code: tm.KeyUp}, func(m *Model) string {
		if m.VF[vfAppCursor] && m.s().KF == 0 {
			return "\x1bOA"
		}
		return "\x1b[A"
	})
}

func keyEsc() act15 {
	return aKey("escape", tm.KeyEvent{Code: tm.KeyEscape}, func(m *Model) string {
		if m.s().KF&(1|8) != 0 {
			return "\x1b[27u"
		}
		return "\x1b"
	})
}

func keyCtrl() act15 {
	return aKey("ctrl+i", tm.KeyEvent{Code: tm.KeyRune, Rune: 'i', Mod: tm.ModCtrl}, func(m *Model) string {
		switch {
		case m.s().KF&(1|8) != 0:
			return "\x1b[105;5u"
		case m.s().KF == 0 && m.VI[viModKeys] == 2:
			return "\x1b[27;5;105~"
		}
		return "\t"
	})
}

func aMouse() act15 {
	return act15{Name: "mouse", At: func(m *Model) string {
		switch {
		case m.VI[viMouseMode] == tm.MMNone:
			return ""
		case m.VI[viMouseEnc] == tm.MESGR:
			return "\x1b[<0;2;3M"
		}
		return "\x1b[M \"#"
	}, Do: func(x *exec15, th int) {
		if m, ok := x.t.(mouseSender); ok {
			if err := m.SendMouseRaw(tm.MBtn1, true, 0, 2, 3); err != nil {
				x.bad(th, err)
			}
		}
	}}
}

func aTee(i int) act15 {
	return act15{Name: fmt.Sprintf("tee %d", i), Do: func(x *exec15, th int) {
		if i < 0 {
			x.tb.SetTee(nil)
		} else {
			x.tb.SetTee(x.tees[i])
		}
	}}
}

// fed15 delivers some bytes, then the end, and keeps what is written.
type fed15 struct {
	in  string
	out []byte
}

func (b *fed15) Read(p []byte) (int, error) {
	if b.in == "" {
		return 0, io.EOF
	}
	n := copy(p, b.in)
	b.in = b.in[n:]
	return n, nil
}
func (b *fed15) Write(p []byte) (int, error) {
	b.out = append(b.out, p...)
	return len(p), nil
}
func (b *fed15) SetSize(w, h int) error { return nil }

// aOther runs a terminal of its own: terminals share nothing.
func aOther(cfg Config, specs ...string) act15 {
	ops := opsOf(specs...)
	in := ""
	m := newModel(cfg)
	for _, o := range ops {
		in += o.Bytes
		o.F(m)
	}
	return act15{Name: "another terminal interprets " + strings.Join(specs, " | "), Do: func(x *exec15, th int) {
		be := &fed15{in: in}
		t := tm.VerifNew(&tm.EmptyFrontend{}, be, cfg.mode(), cfg.Grid)
		_ = t.Resize(cfg.W, cfg.H)
		tm.VerifRun(t)
		d := &drv{cfg: cfg, t: t}
		t.WithLock(func() {
			for y := 0; y < cfg.H; y++ {
				r, err := d.rowCells(y)
				if err != nil {
					x.bad(th, fmt.Errorf("another terminal: %w", err))
					return
				}
				if got, want := cellsString(r), cellsString(m.s().Rows[y]); got != want {
					x.bad(th, fmt.Errorf("row %d of another terminal is %s, not %s", y, got, want))
				}
				_ = t.ANSILine(y)
			}
		})
		if _, err := t.SendKey(tm.KeyEvent{Code: tm.KeyRune, Rune: 'i', Mod: tm.ModCtrl}); err != nil {
			x.bad(th, err)
		}
		if ms, ok := t.(mouseSender); ok {
			if err := ms.SendMouseRaw(tm.MBtn1, true, 0, 2, 3); err != nil {
				x.bad(th, err)
			}
		}
		if want := m.Reply + "\t\x1b[<0;2;3M"; string(be.out) != want {
			x.bad(th, fmt.Errorf("another terminal wrote %q, not %q", be.out, want))
		}
	}}
}

func aTTY(name string, f func(x *exec15)) act15 {
	return act15{Name: name, Do: func(x *exec15, th int) { f(x) }}
}

// ---- one execution

type result15 struct {
	choices []choice
	err     error
	stray   bool
	snaps   int
}

func (s *scn15) run(sc *sched, plan []choice, al *allowed) (res result15) {
	x := &exec15{scn: s, s: sc}
	x.be = &be15{x: x}
	x.fe = &fe15{x: x}
	var b tm.Backend = x.be
	if s.Tee {
		x.tb = tm.NewTeeBackend(x.be)
		b = x.tb
		x.tees = [2]*tee15{{x: x}, {x: x}}
	}
	sc.forget()
	x.t = tm.VerifNew(x.fe, b, s.Cfg.mode(), s.Cfg.Grid)
	_ = x.t.Resize(s.Cfg.W, s.Cfg.H)
	x.be.sizes = nil
	x.d = &drv{cfg: s.Cfg, t: x.t}
	sc.learnMu()
	x.t.Lock()
	x.t.Unlock()
	sc.unlearn()
	x.termKnown = sc.known()
	x.fe.sh = make([][]Cell, s.Cfg.H)
	for y := range x.fe.sh {
		x.fe.sh[y] = blankRow(s.Cfg.W, Sty{})
	}
	if s.TTY {
		x.tty = tm.NewTTYFrontend(x.t, &out15{x: x})
		x.fe.fwd = x.tty
	}
	x.running = true

	n := 1 + len(s.Threads)
	sc.reset(n, plan)
	done := make(chan int, n)
	for i := 0; i < n; i++ {
		go func() {
			defer func() { done <- i }()
			sc.enter(i)
			defer sc.leave(i)
			defer func() {
				if p := recover(); p != nil {
					x.bad(i, fmt.Errorf("panic: %v\n%s", p, trimStack(debug.Stack())))
				}
			}()
			if i == 0 {
				tm.VerifRun(x.t)
				return
			}
			for _, a := range s.Threads[i-1] {
				c0 := x.be.chunk()
				a.Do(x, i)
				x.wins[i] = append(x.wins[i], [2]int{c0, x.be.chunk()})
			}
		}()
	}
	sc.begin()
	last, idle := -1, 0
	for left := n; left > 0; {
		select {
		case <-done:
			left--
			continue
		case <-tick15.C:
		}
		p := sc.progress()
		if p != last {
			last, idle = p, 0
			continue
		}
		idle++
		if sc.isDead() {
			if idle > 4 {
				res.err = fmt.Errorf("deadlock\n%s%s", sc.describe(), stacks())
				return
			}
			sc.retry()
			continue
		}
		if idle == 8 {
			sc.unstick()
		}
		if idle > 24 {
			res.err = fmt.Errorf("deadlock, or a goroutine that makes no progress for %d s\n%s%s", idle/4, sc.describe(), stacks())
			return
		}
	}
	x.running = false
	res.choices = sc.choices()
	res.stray = sc.strayed()
	for _, e := range x.errs {
		if e != nil {
			res.err = e
			return
		}
	}
	res.err = x.judge(al)
	for _, l := range x.snaps {
		res.snaps += len(l)
	}
	return
}

var tick15 = time.NewTicker(250 * time.Millisecond)

func stacks() string {
	b := make([]byte, 1<<16)
	b = b[:runtime.Stack(b, true)]
	var out []string
	for _, g := range strings.Split(string(b), "\n\n") {
		if strings.Contains(g, "termemu.(") || strings.Contains(g, "schedAcquire") {
			out = append(out, trimStack([]byte(g)))
		}
	}
	return strings.Join(out, "\n\n")
}

// judge looks at a finished execution.
func (x *exec15) judge(al *allowed) error {
	s := x.scn
	if x.be.ci != len(s.Chunks) || x.be.rest != "" || x.be.eof == 0 {
		return fmt.Errorf("the read loop stopped with input left")
	}
	x.look(0)
	if x.errs[0] != nil {
		return x.errs[0]
	}
	rt, rs := s.resizes()
	final := x.snaps[0][len(x.snaps[0])-1]
	x.snaps[0] = x.snaps[0][:len(x.snaps[0])-1]
	nTok := len(s.Toks)

	// where the backend ended up
	if rt != -1 {
		want := len(rs)
		if rt == -2 {
			want = 0
			for _, t := range s.Threads {
				for _, a := range t {
					if a.RW > 0 {
						want++
					}
				}
			}
		}
		w, h := x.t.Size()
		if len(x.be.sizes) != want {
			return fmt.Errorf("%d Resize calls told the backend %v", want, x.be.sizes)
		}
		if l := x.be.sizes[want-1]; l != [2]int{w, h} {
			return fmt.Errorf("after all Resize calls the backend's size is %dx%d, the screen's %dx%d", l[0], l[1], w, h)
		}
	}
	if rt != -2 {
		if err := x.judgeStates(al, final, rt, len(rs), nTok); err != nil {
			return err
		}
	}
	if s.Tee {
		all := strings.Join(s.Chunks, "")
		a, b := string(x.tees[0].b), string(x.tees[1].b)
		used := [2]bool{}
		for _, t := range s.Threads {
			for _, ac := range t {
				used[0] = used[0] || ac.Name == "tee 0"
				used[1] = used[1] || ac.Name == "tee 1"
			}
		}
		for i, g := range []string{a, b} {
			if g != "" && (!used[i] || !strings.Contains(all, g)) {
				return fmt.Errorf("tee %d got %q of %q", i, g, all)
			}
		}
	}
	return x.judgeOutput(al)
}

// list shows every allowed state.
func (al *allowed) list() string {
	var out []string
	for i := range al.sets {
		for j := range al.sets[i] {
			for _, m := range al.sets[i][j] {
				out = append(out, fmt.Sprintf("%d tokens, %d resizes: %q", i, j, modelState(m)))
			}
		}
	}
	return strings.Join(out, "\n")
}

func (x *exec15) judgeStates(al *allowed, final snap15, rt, nr, nTok int) error {
	find := func(sn snap15, j0, j1 int) (list []int) {
		for i := 0; i <= nTok; i++ {
			hit := false
			for j := j0; j <= j1 && !hit; j++ {
				for k := range al.sets[i][j] {
					if strings.HasPrefix(k, sn.text) && k[len(sn.text)] == '|' {
						hit = true
						break
					}
				}
			}
			if hit {
				list = append(list, i)
			}
		}
		return
	}
	for th := range x.snaps {
		lo := 0
		for _, sn := range x.snaps[th] {
			j0, j1 := 0, nr
			if th == rt {
				j0, j1 = sn.rs, sn.rs
			}
			l := find(sn, j0, j1)
			if len(l) == 0 {
				return fmt.Errorf("half-applied update: a reader holding the lock (thread %d) saw a state that is not the result of any number of whole updates\n%q\n%s", th, sn.text, al.list())
			}
			k := sort.SearchInts(l, lo)
			if k == len(l) {
				return fmt.Errorf("a reader (thread %d) saw the state go backwards\n%s", th, sn.text)
			}
			lo = l[k]
		}
	}
	l := find(final, nr, nr)
	if len(l) == 0 || l[len(l)-1] != nTok {
		want := ""
		for _, m := range al.sets[nTok][nr] {
			want += "\n" + modelState(m)
		}
		return fmt.Errorf("the final state is not that of any order of the input and the resizes\n%s\nexpected%s", final.text, want)
	}
	return nil
}

// judgeOutput checks that what was written is made of whole replies, keys and
// reports, those of each goroutine in order.
func (x *exec15) judgeOutput(al *allowed) error {
	s := x.scn
	if rt, _ := s.resizes(); rt == -2 {
		return nil // the replies are not modelled then
	}
	queues := make([][][]string, 1+len(s.Threads))
	// every reply of the loop, as far as the resizes leave it open
	if rt, _ := s.resizes(); rt != -2 {
		for i, o := range s.Toks {
			alt := map[string]bool{}
			for _, set := range al.sets[i] {
				for _, m := range set {
					m = m.clone()
					m.Reply = ""
					m.begin()
					o.F(m)
					alt[m.Reply] = true
				}
			}
			var list []string
			for a := range alt {
				list = append(list, a)
			}
			if len(list) == 1 && list[0] == "" {
				continue
			}
			sort.Strings(list)
			queues[0] = append(queues[0], list)
		}
	}
	for i, t := range s.Threads {
		for k, a := range t {
			i0, i1 := 0, len(s.Toks)
			if !s.Cfg.Grapheme && k < len(x.wins[i+1]) {
				// the loop has dealt with all chunks but the last when it reads
				i0, i1 = s.tokens(x.wins[i+1][k][0]-1), s.tokens(x.wins[i+1][k][1])
			}
			if w := al.outputs(a, i0, i1); w != nil {
				queues[i+1] = append(queues[i+1], w)
			}
		}
	}
	var match func(out string) bool
	match = func(out string) bool {
		empty := true
		for q := range queues {
			if len(queues[q]) == 0 {
				continue
			}
			empty = false
			head := queues[q][0]
			queues[q] = queues[q][1:]
			for _, h := range head {
				if strings.HasPrefix(out, h) && match(out[len(h):]) {
					return true
				}
			}
			queues[q] = append([][]string{head}, queues[q]...)
		}
		return empty && out == ""
	}
	if !match(string(x.be.log)) {
		return fmt.Errorf("the backend was written %q, which is not made of the whole replies and sequences %q", x.be.log, queues)
	}
	return nil
}

// ---- exploration

type stats15 struct {
	Execs, Points, Snaps, Scenarios, Stray int64
	Cut                                    bool
	Families                               map[string]int64
	Viol                                   *Violation
}

func planText(p []choice) string {
	b := make([]byte, len(p))
	for i := range p {
		b[i] = '0' + p[i].chosen
	}
	return strings.TrimRight(string(b), "0")
}

func planOf(s string) []choice {
	p := make([]choice, len(s))
	for i := range p {
		p[i].chosen = s[i] - '0'
	}
	return p
}

func (s *scn15) describe() string {
	var b strings.Builder
	fmt.Fprintf(&b, "%s; the backend delivers %q", s.Cfg, s.Chunks)
	for i, t := range s.Threads {
		fmt.Fprintf(&b, "; goroutine %d:", i+1)
		for _, a := range t {
			b.WriteString(" " + a.Name)
		}
	}
	if s.Short > 0 {
		fmt.Fprintf(&b, "; %d bytes per write", s.Short)
	}
	return b.String()
}

// explore runs every schedule of a scenario with at most s.Bound preemptions.
func (s *scn15) explore(sc *sched, st *stats15, idx int, state *os.File, deadline time.Time) {
	al := s.model()
	var plan []choice
	for {
		if time.Now().After(deadline) {
			st.Cut = true
			return
		}
		if state != nil {
			_, _ = state.WriteAt([]byte(fmt.Sprintf("%d %s\n", idx, planText(plan))), 0)
		}
		res := s.run(sc, plan, al)
		st.Execs++
		st.Points += int64(len(res.choices))
		st.Snaps += int64(res.snaps)
		if res.stray {
			st.Stray++
		}
		if res.err != nil {
			full := res.choices
			if full == nil {
				full = plan
			}
			for i := 0; i < 2 && !strings.HasPrefix(res.err.Error(), "deadlock"); i++ {
				again := s.run(sc, full, al)
				if again.err == nil {
					fmt.Fprintf(os.Stderr, "not reproduced: %v\n", res.err)
					res.err = nil
					break
				}
			}
			if res.err != nil {
				st.Viol = &Violation{Config: s.Cfg, What: s.Name, Chunks: s.Chunks,
					Note:  fmt.Sprintf("%s; schedule %d:%s", s.describe(), idx, planText(full)),
					Error: res.err.Error()}
				return
			}
		}
		rec := res.choices
		i := len(rec) - 1
		for ; i >= 0; i-- {
			if rec[i].chosen+1 >= rec[i].n {
				continue
			}
			used := 0
			for k := 0; k < i; k++ {
				if rec[k].cost && rec[k].chosen > 0 {
					used++
				}
			}
			if rec[i].cost {
				used++
			}
			if used <= s.Bound {
				break
			}
		}
		if i < 0 {
			return
		}
		plan = append(plan[:0:0], rec[:i+1]...)
		plan[i].chosen++
	}
}

// child15 explores every n-th scenario and prints what it covered.
func child15(args []string) int {
	runtime.GOMAXPROCS(1)
	debug.SetGCPercent(800)
	k, _ := strconv.Atoi(args[0])
	n, _ := strconv.Atoi(args[1])
	tier := args[2]
	limit, _ := time.ParseDuration(args[3])
	deadline := time.Now().Add(limit)
	list := scenarios15(tier == "thorough")
	sc := newSched()
	sc.install()
	st := &stats15{Families: map[string]int64{}}
	if len(args) > 5 { // a single execution
		idx, _ := strconv.Atoi(args[4])
		s := list[idx]
		res := s.run(sc, planOf(strings.TrimSpace(args[5])), s.model())
		if res.err != nil {
			fmt.Println(res.err)
			return 1
		}
		return 0
	}
	state, _ := os.Create(filepath.Join(os.Getenv("VERIF_TMP"), fmt.Sprintf("c15.%d", k)))
	for i := k; i < len(list); i += n {
		e := st.Execs
		list[i].explore(sc, st, i, state, deadline)
		st.Scenarios++
		st.Families[list[i].Name] += st.Execs - e
		if st.Viol != nil || st.Cut {
			break
		}
	}
	b, _ := json.Marshal(st)
	fmt.Printf("%s\n", b)
	return 0
}

func c15(c *Check) {
	if !tm.VerifSync || !haveSched {
		c.incomplete.Store(true)
		c.bound("no controlled schedules: the tree or this build offers no hooks")
		free15(c)
		return
	}
	list := scenarios15(c.thorough())
	for i := 0; i < len(list); i += max(1, len(list)/8) {
		c.sample(list[i].Name + ": " + list[i].describe())
	}
	n := min(8, runtime.NumCPU())
	var wg sync.WaitGroup
	all := make([]stats15, n)
	for k := 0; k < n; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			var out, errb bytes.Buffer
			cmd := exec.Command(os.Args[0], "C15child", strconv.Itoa(k), strconv.Itoa(n), c.Tier, time.Until(c.deadline).String())
			cmd.Stdout, cmd.Stderr = &out, &errb
			cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66")
			err := cmd.Run()
			if json.Unmarshal(out.Bytes(), &all[k]) == nil && err == nil {
				if v := all[k].Viol; v != nil {
					c.fail(*v, nil)
				}
				return
			}
			b, _ := os.ReadFile(filepath.Join(os.Getenv("VERIF_TMP"), fmt.Sprintf("c15.%d", k)))
			line, _, _ := strings.Cut(string(b), "\n")
			idx, plan, _ := strings.Cut(line, " ")
			log := errb.String()
			i, aerr := strconv.Atoi(idx)
			if aerr != nil || !strings.Contains(log, "ricochet1k/termemu.") {
				fmt.Fprintf(os.Stderr, "child %d: %v\n%s\n", k, err, log)
				os.Exit(3)
			}
			if len(log) > 6000 {
				log = log[:6000]
			}
			c.fail(Violation{Config: list[i].Cfg, What: list[i].Name, Chunks: list[i].Chunks,
				Note: fmt.Sprintf("%s; schedule %d:%s", list[i].describe(), i, plan), Error: log}, nil)
		}()
	}
	wg.Wait()
	fam := map[string]int64{}
	stray := int64(0)
	for _, s := range all {
		c.traces.Add(s.Execs)
		c.transitions.Add(s.Points)
		c.states.Add(s.Snaps)
		stray += s.Stray
		if s.Cut {
			c.incomplete.Store(true)
		}
		for k, v := range s.Families {
			fam[k] += v
		}
	}
	c.extra = map[string]any{"scenarios": len(list), "schedules": c.traces.Load(), "schedules_that_strayed": stray}
	for k, v := range fam {
		c.bound("%s: %d schedules", k, v)
	}
	if c.viol == nil {
		free15(c)
	}
}

// free15 lets the real read loop of New run against other goroutines, with no
// scheduler, each step waiting for the one before: every backend read is a
// point where each API is called while the loop waits.
func free15(c *Check) {
	acts := []act15{aWrite("ab"), keyUp(), aMouse(), aResize(3, 3), aResize(6, 2)}
	streams := [][]string{
		{"a", "\xe4", "\xb8\xad", "\x1b", "[", "3", ";", "2", "H", "\x1b[6n", "\n"},
		{"\x1b]2;", "ti", "tle", "\x07", "\x1b[?1049h", "x", "\x1b[?1", "049l", "\x1bP", "q", "\x1b\\"},
	}
	for si, st := range streams {
		for _, mode := range []tm.TextReadMode{tm.TextReadModeRune, tm.TextReadModeGrapheme} {
			b := &step15{step: make(chan string), wait: make(chan bool)}
			t := tm.NewWithMode(&tm.EmptyFrontend{}, b, mode)
			fail := func(what string) {
				c.fail(Violation{What: "API calls while the read loop waits", Chunks: st, Error: what}, nil)
			}
			try := func(what string, f func()) bool {
				ok := make(chan bool)
				go func() { f(); close(ok) }()
				select {
				case <-ok:
					return true
				case <-time.After(20 * time.Second):
					fail(fmt.Sprintf("%s does not return while the read loop waits for input", what))
					return false
				}
			}
			x := &exec15{t: t}
			if !try("Resize", func() { _ = t.Resize(5, 3) }) {
				return
			}
			for _, chunk := range append(append([]string(nil), st...), "") {
				if !try("the read loop", func() { <-b.wait }) {
					return
				}
				for _, a := range append(acts, act15{Name: "WithLock", Do: func(x *exec15, th int) {
					t.WithLock(func() {
						_, h := t.Size()
						for y := 0; y < h; y++ {
							_, _ = t.Line(y), t.ANSILine(y)
						}
					})
				}}) {
					if !try(a.Name, func() { a.Do(x, 1) }) {
						return
					}
					c.transitions.Add(1)
				}
				if chunk == "" {
					close(b.step)
				} else {
					b.step <- chunk
				}
			}
			c.traces.Add(1)
			_ = si
		}
	}
	c.bound("New with its own read loop: every API at every read of %d streams in both text modes", len(streams))
}

// step15 is a backend whose reads are delivered one at a time.
type step15 struct {
	step chan string
	wait chan bool
	rest string
	mu   sync.Mutex
}

func (b *step15) Read(p []byte) (int, error) {
	if b.rest == "" {
		select {
		case b.wait <- true:
		case <-b.step:
			return 0, io.EOF
		}
		s, ok := <-b.step
		if !ok {
			return 0, io.EOF
		}
		b.rest = s
	}
	n := copy(p, b.rest)
	b.rest = b.rest[n:]
	return n, nil
}

func (b *step15) Write(p []byte) (int, error) { return len(p), nil }
func (b *step15) SetSize(w, h int) error      { return nil }

// ---- scenarios

func pick15(thorough bool, quick, deep int) int {
	if thorough {
		return deep
	}
	return quick
}

func scenarios15(thorough bool) []*scn15 {
	var out []*scn15
	add := func(s *scn15) { out = append(out, s) }
	tt := func(a ...act15) []act15 { return a }

	// 1. every kind of input against one call of every kind, any placement
	inputs := []string{
		`t "ab"`, `t "中"`, `t "abcdef"`, `t "a中b"`, "BS", "HT", "LF", "CR", "FF", "IND", "RI", "BEL", "DEL",
		"A", "B 2", "C", "D 2", "G 3", "d 2", "H 2 3", "SAVE", "REST", "H 2 2 | SAVE | H | REST",
		"J", "J 1", "J 2", "K", "K 1", "K 2", "X 2", "P", "L", "M", "S", "T 2", "r 1 2 | H 2 1 | LF", "m 31", "m 1 44 | t \"z\" | m",
		"?h 1", "?l 25", "?h 1000", "?h 1006", "?h 1002 1006", "?h 2004", "WRAP | t \"abcdef\"", "ALT", "ALT | t \"q\" | MAIN",
		"=u 1", ">u 5 | <u", "QKBD", "DA", "DSR", "CPR", "DA2", ">m 4 2", `osc 2 "title"`, `oscst 7 "f"`, "KPAM", "KPNM",
	}
	cfg := Config{W: 4, H: 3}
	one := [][]act15{
		tt(aRead(), aRead()), tt(aLock()), tt(aKeep()), tt(aResize(3, 2)), tt(aResize(6, 4)), tt(aWrite("key")), tt(keyUp()), tt(keyCtrl()), tt(aMouse()),
	}
	for _, in := range inputs {
		for _, chunk := range []int{0, 1} {
			for ai, a := range one {
				if (ai == 3 || ai == 4) && (strings.Contains(in, "m ") || strings.HasPrefix(in, "r ")) {
					continue // how a resize treats margins and the style of new cells is left open
				}
				for _, g := range []bool{false, tm.VerifGrid} {
					if g && chunk == 1 && !thorough {
						continue
					}
					cfg := cfg
					cfg.Grid = g
					s := &scn15{Name: "one call at any moment of any input", Cfg: cfg, Threads: [][]act15{a}, Bound: 1, CB: chunk == 0}
					if thorough {
						s.Bound = 2
					}
					s.stream(chunk, opsOf(`t "xy"`, in, `t "z"`)...)
					add(s)
				}
			}
		}
	}

	// 2. streams with several updates, more goroutines, more preemptions
	streams := [][]string{
		{`t "ab"`, "LF", `t "c"`},
		{`t "a中"`, "CPR", "H 1 1"},
		{"WRAP", `t "abcdefg"`},
		{"ALT", `t "x"`, "MAIN", `t "y"`},
		{"?h 1", `t "a"`, "?l 1", "CPR"},
		{"?h 1000 1006", "?l 1006", "?l 1000"},
		{"=u 1", "QKBD", "=u 0"},
		{"r 1 2", "H 2 1", "LF", `t "ab"`, "RI"},
		{"m 31", `t "a"`, "J 2", `osc 2 "t"`},
		{`t "abc"`, "P", "K 1", "X"},
	}
	noResize := map[int]bool{7: true, 8: true}
	pairs := [][][]act15{
		{tt(aRead()), tt(aResize(3, 2))},
		{tt(aRead(), aRead(), aRead())},
		{tt(aResize(3, 2), aRead(), aResize(5, 3))},
		{tt(keyUp()), tt(aWrite("w1"), aWrite("w2"))},
		{tt(keyEsc(), aRead()), tt(aMouse())},
		{tt(aMouse(), keyCtrl()), tt(aResize(2, 3))},
		{tt(aResize(3, 2)), tt(aResize(5, 4))},
		{tt(aRead()), tt(aKeep())},
	}
	for si, st := range streams {
		for _, p := range pairs {
			rs := false
			for _, t := range p {
				for _, a := range t {
					rs = rs || a.RW > 0
				}
			}
			if rs && noResize[si] {
				continue
			}
			for _, chunk := range []int{0, 2} {
				for _, short := range []int{0, 1} {
					if short == 1 && (chunk != 0 || rs) {
						continue
					}
					for _, gr := range []bool{false, true} {
						if gr && !thorough && chunk != 0 {
							continue
						}
						s := &scn15{Name: "several goroutines", Cfg: Config{W: 4, H: 3, Grapheme: gr}, Threads: p, Bound: 1, Short: short}
						if chunk == 0 && short == 0 && !gr {
							s.Bound = 2
						}
						if thorough {
							s.Bound++
						}
						s.stream(chunk, opsOf(st...)...)
						add(s)
					}
				}
			}
		}
		// two goroutines, three preemptions
		for _, a := range []act15{aRead(), aResize(3, 2), keyUp(), aWrite("zz"), aMouse()} {
			if a.RW > 0 && noResize[si] {
				continue
			}
			s := &scn15{Name: "one goroutine, more preemptions", Cfg: Config{W: 4, H: 3}, Threads: [][]act15{tt(a, aRead())}, Bound: 3, CB: true}
			if thorough {
				s.Bound = 4
			}
			s.stream(0, opsOf(st...)...)
			add(s)
		}
	}

	// what is written for a key or the mouse is right in one of the states
	for _, st := range [][]string{
		{"?h 1000 1006", "?l 1000", "?l 1006"}, {"?h 1000", "?l 1000", "?h 1006", "?h 1002", "?l 1002", "?l 1006"}, {"?h 1000", "?h 1006", "?l 1000", "?l 1006", "?h 1003"}, {"?h 1000 1006", "?l 1000 1006", "?h 1003", "?l 1003", "?h 1006 1000"},
	} {
		for _, th := range [][][]act15{{tt(aMouse())}, {tt(aMouse(), aMouse())}, {tt(aMouse()), tt(aMouse())}} {
			s := &scn15{Name: "a mouse report while the mode changes", Cfg: Config{W: 4, H: 2}, Threads: th, Bound: pick15(thorough, 2, 4)}
			s.stream(-1, opsOf(st...)...)
			add(s)
		}
	}
	for _, st := range [][]string{
		{">m 4 2", "=u 1", ">m", "=u 0"}, {"=u 1", "?h 1", "=u 0", "?l 1"}, {"?h 1", "=u 1", "?l 1", "=u 0"}, {">u 1", ">m 4 2", "<u", "=u 8", ">m"}, {"ALT", "=u 1", "MAIN", "?h 1", "ALT", "?l 1", "MAIN"},
	} {
		for _, th := range [][][]act15{{tt(keyCtrl())}, {tt(keyUp())}, {tt(keyEsc())}, {tt(keyCtrl(), keyUp())}, {tt(keyUp()), tt(keyCtrl())}} {
			s := &scn15{Name: "a key while the mode changes", Cfg: Config{W: 4, H: 2}, Threads: th, Bound: pick15(thorough, 2, 4)}
			s.stream(-1, opsOf(st...)...)
			add(s)
		}
	}

	// 3. the tee
	for _, p := range [][][]act15{
		{tt(aTee(0), aTee(1))}, {tt(aTee(0), aTee(-1), aRead())}, {tt(aTee(0)), tt(aTee(1))}, {tt(aTee(0), aResize(3, 2))}, {tt(aTee(1), keyUp())},
	} {
		for _, chunk := range []int{1, 3} {
			s := &scn15{Name: "tee", Cfg: Config{W: 4, H: 2}, Threads: p, Bound: 3, Tee: true}
			if thorough {
				s.Bound = 5
			}
			s.stream(chunk, opsOf(`t "ab"`, "CPR", "LF")...)
			add(s)
		}
	}

	// two terminals at once
	for _, g := range []bool{false, tm.VerifGrid} {
		for _, gr := range []bool{false, true} {
			for _, st := range [][]string{{"m 1 31", `t "é中"`, "CPR", "H 1 2", "X", "QKBD"}, {"WRAP", `t "abcde"`, "S", `osc 2 "t"`, "K 1", "P", "L"}} {
				other := aOther(Config{W: 4, H: 2, Grid: g, Grapheme: gr}, append([]string{"?h 1000 1006"}, st...)...)
				for _, a := range []act15{aRead(), keyCtrl(), aMouse()} {
					s := &scn15{Name: "another terminal", Cfg: Config{W: 4, H: 2, Grid: g, Grapheme: gr}, Threads: [][]act15{tt(other), tt(a)}, Bound: pick15(thorough, 0, 1)}
					s.stream(0, opsOf(append([]string{"?h 1000"}, st...)...)...)
					add(s)
				}
			}
		}
	}

	// 4. a TTYFrontend that is handled by another goroutine
	r := tm.Region{X2: 3, Y2: 2}
	at := aTTY("attach", func(x *exec15) { x.tty.Attach(r) })
	de := aTTY("detach", func(x *exec15) { x.tty.Detach() })
	fo := aTTY("focus", func(x *exec15) { x.tty.SetFocus(true) })
	bl := aTTY("blur", func(x *exec15) { x.tty.Blur() })
	se := aTTY("set terminal", func(x *exec15) { x.tty.SetTerminal(x.t) })
	for _, p := range [][][]act15{
		{tt(at, de)}, {tt(at), tt(de)}, {tt(at, fo), tt(bl)}, {tt(at), tt(at)}, {tt(se, at)}, {tt(at), tt(aResize(3, 2))}, {tt(at, bl, fo, de)}, {tt(at), tt(aRead())},
	} {
		for _, st := range [][]string{{`t "ab"`, "LF", `t "c"`}, {"?l 25", `t "a"`, "?h 25"}, {"ALT", `t "中"`, "MAIN"}} {
			s := &scn15{Name: "TTYFrontend", Cfg: Config{W: 4, H: 3}, Threads: p, Bound: 2, TTY: true, CB: true}
			if thorough {
				s.Bound = 3
			}
			s.stream(0, opsOf(st...)...)
			add(s)
		}
	}
	return out
}
