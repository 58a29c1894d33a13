package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"runtime/debug"
	"strings"
	"sync/atomic"
	"time"

	tm "github.com/ricochet1k/termemu"
)

// Config is what a terminal is made with.
type Config struct {
	W, H     int
	Grid     bool
	Grapheme bool
}

func (c Config) mode() tm.TextReadMode {
	if c.Grapheme {
		return tm.TextReadModeGrapheme
	}
	return tm.TextReadModeRune
}

func (c Config) String() string {
	b, m := "span", "rune"
	if c.Grid {
		b = "grid"
	}
	if c.Grapheme {
		m = "grapheme"
	}
	return fmt.Sprintf("%dx%d/%s/%s", c.W, c.H, b, m)
}

type locker interface{ TryLock() bool }

// Rec is the frontend of every checked terminal. It keeps what it was told and
// a shadow screen that only refreshes what was announced.
type Rec struct {
	d *drv

	cx, cy  int
	cursorN int
	style   tm.Style
	styleN  int
	vf      [6]bool
	vi      [3]int
	vs      [3]string
	vfN     [6]int
	viN     [3]int
	vsN     [3]int
	bells   int

	shadow bool // keep a shadow screen
	sh     [][]Cell
	lost   [][]Cell

	keepLost bool // keep the lines that scrolled away as text
	lostRuns strings.Builder

	trace  bool // keep a trace of callbacks
	events []string

	touched    [][]bool // cells announced, when wanted
	wantTouch  bool
	unlockedCB string // a callback that came without the lock
	cbHook     func(kind string)
	err        error
}

func (r *Rec) cb(kind string) {
	if r.d == nil || r.d.t == nil {
		return
	}
	if l, ok := r.d.t.(locker); ok && !r.d.setup && l.TryLock() {
		r.d.t.Unlock()
		if r.unlockedCB == "" {
			r.unlockedCB = kind
		}
	}
	if r.cbHook != nil {
		r.cbHook(kind)
	}
}

func (r *Rec) forward(f func(tm.Frontend)) {
	if r.d != nil && r.d.fwd != nil {
		f(r.d.fwd)
	}
}

func (r *Rec) ev(f string, a ...any) {
	if r.trace {
		r.events = append(r.events, fmt.Sprintf(f, a...))
	}
}

func (r *Rec) Bell() {
	r.cb("Bell")
	r.forward(func(f tm.Frontend) { f.Bell() })
	r.bells++
	r.ev("bell")
}

func (r *Rec) RegionChanged(g tm.Region, c tm.ChangeReason) {
	r.cb("RegionChanged")
	r.forward(func(f tm.Frontend) { f.RegionChanged(g, c) })
	r.ev("region %v %d", g, c)
	if r.d == nil || r.d.t == nil {
		return
	}
	if r.wantTouch {
		for y := g.Y; y < g.Y2; y++ {
			for x := g.X; x < g.X2; x++ {
				if y >= 0 && y < len(r.touched) && x >= 0 && x < len(r.touched[y]) {
					r.touched[y][x] = true
				}
			}
		}
	}
	if r.shadow && !r.d.setup && !r.d.resizing {
		r.refresh(g)
	}
}

func (r *Rec) refresh(g tm.Region) {
	for y := max(g.Y, 0); y < g.Y2 && y < len(r.sh); y++ {
		row, err := r.d.rowCells(y)
		if err != nil {
			r.fail(fmt.Errorf("row %d read in RegionChanged: %w", y, err))
			return
		}
		x, x2 := max(g.X, 0), min(g.X2, len(row), len(r.sh[y]))
		for x < x2 {
			c := row[x]
			if c.W == 0 || x+int(c.W) > x2 {
				// half of a wide character: a part that is read shows a blank
				c.T, c.W = " ", 1
			}
			r.sh[y][x] = c
			for k := 1; k < int(c.W); k++ {
				r.sh[y][x+k] = row[x+k]
			}
			x += int(c.W)
		}
	}
}

func (r *Rec) refreshAll() {
	w, h := r.d.t.Size()
	r.sh = make([][]Cell, h)
	for y := range r.sh {
		r.sh[y] = make([]Cell, w)
	}
	r.refresh(tm.Region{X2: w, Y2: h})
}

func (r *Rec) ScrollLines(n int) {
	r.cb("ScrollLines")
	r.forward(func(f tm.Frontend) { f.ScrollLines(n) })
	r.ev("scrolllines %d", n)
	if r.keepLost && !r.d.setup {
		for y := 0; y < n; y++ {
			if err := r.d.rowRuns(&r.lostRuns, y); err != nil {
				r.fail(err)
			}
		}
	}
	if r.shadow && !r.d.setup {
		for y := 0; y < n; y++ {
			row, err := r.d.rowCells(y)
			if err != nil {
				r.fail(fmt.Errorf("row %d read in ScrollLines(%d): %w", y, n, err))
				return
			}
			r.lost = append(r.lost, row)
		}
	}
}

func (r *Rec) CursorMoved(x, y int) {
	r.cb("CursorMoved")
	r.forward(func(f tm.Frontend) { f.CursorMoved(x, y) })
	r.cx, r.cy = x, y
	r.cursorN++
	r.ev("cursor %d %d", x, y)
	if r.d != nil && r.d.t != nil && !r.d.setup && !r.d.resizing {
		if w, h := r.d.t.Size(); x < 0 || y < 0 || x >= w || y >= h {
			r.fail(fmt.Errorf("CursorMoved(%d,%d) is outside of the %dx%d screen", x, y, w, h))
		}
	}
}

func (r *Rec) StyleChanged(s tm.Style) {
	r.cb("StyleChanged")
	r.forward(func(f tm.Frontend) { f.StyleChanged(s) })
	r.style = s
	r.styleN++
	r.ev("style %v", s)
}

func (r *Rec) ViewFlagChanged(v tm.ViewFlag, b bool) {
	r.cb("ViewFlagChanged")
	r.forward(func(f tm.Frontend) { f.ViewFlagChanged(v, b) })
	r.ev("flag %d %v", v, b)
	if int(v) < len(r.vf) {
		r.vf[v] = b
		r.vfN[v]++
	}
}

func (r *Rec) ViewIntChanged(v tm.ViewInt, n int) {
	r.cb("ViewIntChanged")
	r.forward(func(f tm.Frontend) { f.ViewIntChanged(v, n) })
	r.ev("int %d %d", v, n)
	if int(v) < len(r.vi) {
		r.vi[v] = n
		r.viN[v]++
	}
}

func (r *Rec) ViewStringChanged(v tm.ViewString, s string) {
	r.cb("ViewStringChanged")
	r.forward(func(f tm.Frontend) { f.ViewStringChanged(v, s) })
	r.ev("string %d %q", v, s)
	if int(v) < len(r.vs) {
		r.vs[v] = s
		r.vsN[v]++
	}
}

func (r *Rec) fail(err error) {
	if r.err == nil {
		r.err = err
	}
}

// drv drives one terminal through a list of operations. It is the backend.
type drv struct {
	styles map[tm.Style]Sty // that were decoded

	cfg Config
	t   tm.Terminal
	rec *Rec
	fwd tm.Frontend // another frontend that hears everything
	out []byte

	ops      []*Op
	pos      int
	rest     string
	fin      bool
	after    int
	setup    bool
	resizing bool
	onStep   func(i int) error // called when op i has been processed
	before   func(i int)       // called before op i is delivered
	err      error
	w        *worker

	sizes  [][2]int                    // SetSize calls
	rd     func(p []byte) (int, error) // what is read instead of the operations
	under  tm.Backend                  // what the terminal is given instead of the drv
	szErr  error                       // what SetSize returns
	wfault func(p []byte) (int, error) // how much of a write is taken
}

var errAbort = errors.New("abort")

func newDrv(cfg Config, w *worker) *drv {
	d := &drv{cfg: cfg, w: w, setup: true}
	d.rec = &Rec{d: d}
	return d
}

// start makes the terminal.
func (d *drv) start() {
	var b tm.Backend = d
	if d.under != nil {
		b = d.under
	}
	d.t = tm.VerifNew(d.rec, b, d.cfg.mode(), d.cfg.Grid)
	_ = d.t.Resize(d.cfg.W, d.cfg.H)
	d.sizes = nil
	d.setup = false
	if d.rec.shadow {
		d.rec.refreshAll()
	}
}

func (d *drv) Write(p []byte) (int, error) {
	if d.wfault != nil {
		n, err := d.wfault(p)
		d.out = append(d.out, p[:max(0, n)]...)
		return n, err
	}
	d.out = append(d.out, p...)
	return len(p), nil
}

func (d *drv) SetSize(w, h int) error {
	d.sizes = append(d.sizes, [2]int{w, h})
	return d.szErr
}

func (d *drv) Read(p []byte) (int, error) {
	if d.rd != nil {
		return d.rd(p)
	}
	if d.fin {
		d.after++
		if d.after > 1000 {
			panic("the read loop keeps reading after EOF")
		}
		return 0, io.EOF
	}
	if d.rest != "" {
		n := copy(p, d.rest)
		d.rest = d.rest[n:]
		return n, nil
	}
	if l, ok := d.t.(locker); ok {
		if l.TryLock() {
			d.t.Unlock()
		} else {
			d.err = fmt.Errorf("the terminal lock is held while the read loop waits for input")
			d.fin = true
			return 0, io.EOF
		}
	}
	for {
		if d.pos > 0 && d.onStep != nil && d.err == nil {
			d.err = d.onStep(d.pos - 1)
		}
		if d.err != nil || d.pos >= len(d.ops) {
			break
		}
		op := d.ops[d.pos]
		if d.before != nil {
			d.before(d.pos)
		}
		d.pos++
		if op.RW > 0 {
			d.resize(op.RW, op.RH)
			continue
		}
		if op.Do != nil {
			op.Do(d)
			continue
		}
		if op.Bytes == "" {
			continue
		}
		n := copy(p, op.Bytes)
		d.rest = op.Bytes[n:]
		return n, nil
	}
	d.fin = true
	return 0, io.EOF
}

func (d *drv) resize(w, h int) {
	d.resizing = true
	_ = d.t.Resize(w, h)
	d.resizing = false
	if d.rec.shadow {
		d.rec.refreshAll()
	}
}

// run processes the operations and reports panics.
func (d *drv) run(ops []*Op) (err error) {
	d.ops = ops
	if d.w != nil {
		d.w.begin(d)
		defer d.w.end()
	}
	defer func() {
		if p := recover(); p != nil {
			err = fmt.Errorf("panic: %v\n%s", p, trimStack(debug.Stack()))
		}
	}()
	d.start()
	tm.VerifRun(d.t)
	if d.err != nil {
		return d.err
	}
	if d.pos < len(d.ops) || d.rest != "" {
		return fmt.Errorf("the read loop stopped with input left: %d of %d operations delivered", d.pos, len(d.ops))
	}
	if d.rec.err != nil {
		return d.rec.err
	}
	if d.rec.unlockedCB != "" {
		return fmt.Errorf("%s was called without the terminal lock held", d.rec.unlockedCB)
	}
	return nil
}

func trimStack(b []byte) string {
	lines := strings.Split(string(b), "\n")
	var out []string
	for _, l := range lines {
		if strings.Contains(l, "termemu") || strings.Contains(l, "/repo/") {
			out = append(out, l)
		}
	}
	if len(out) > 24 {
		out = out[:24]
	}
	return strings.Join(out, "\n")
}

// worker is one exploring goroutine, with its caches and its heartbeat.
type worker struct {
	id     int
	styles map[tm.Style]Sty
	since  atomic.Int64
	cur    atomic.Pointer[drv]
	desc   atomic.Pointer[string]
	buf    strings.Builder
	bb     bytes.Buffer
}

func newWorker(id int) *worker { return &worker{id: id, styles: map[tm.Style]Sty{}} }

func (w *worker) begin(d *drv) { w.cur.Store(d); w.since.Store(time.Now().UnixNano()) }
func (w *worker) end()         { w.since.Store(0) }
