package main

// The reference model: a deliberately boring W x H array of cells. It contains
// no parser. Operations of the alphabet pair the bytes sent to the
// implementation with a call of one of the methods below.

import (
	"fmt"
	"strings"
)

// Col is a colour: K 0 default, 1 indexed, 2 bright, 3 RGB.
type Col struct {
	K uint8
	V int32
}

// Mode bits of the model, in SGR order.
const (
	mBold = 1 << iota
	mDim
	mItalic
	mUnder
	mBlink
	mReverse
	mInvis
	mStrike
	mOver
	mDouble
	mFramed
	mEncircled
	mRapid
)

type Sty struct {
	Fg, Bg Col
	M      uint16
}

func (s Sty) String() string {
	col := func(c Col) string {
		switch c.K {
		case 0:
			return "-"
		case 1:
			return fmt.Sprintf("%d", c.V)
		case 2:
			return fmt.Sprintf("b%d", c.V)
		default:
			return fmt.Sprintf("#%06x", c.V)
		}
	}
	return fmt.Sprintf("%s/%s/%x", col(s.Fg), col(s.Bg), s.M)
}

// Cell is one column. W is 0 in the columns a wide character continues in.
type Cell struct {
	T string
	W int16
	S Sty
}

type Scr struct {
	W, H     int
	Rows     [][]Cell
	CX, CY   int
	SX, SY   int
	Top, Bot int
	Wrap     bool
	S        Sty
	KF       int
	KS       []int

	// size before the last resize
	OldW, OldH     int
	OldTop, OldBot int
}

// view state, indexed like termemu's ViewFlag, ViewInt and ViewString
const (
	vfBlink = iota
	vfShow
	vfFocus
	vfPaste
	vfAppCursor
	vfAppKeypad
)
const (
	viMouseMode = iota
	viMouseEnc
	viModKeys
)
const (
	vsTitle = iota
	vsDir
	vsFile
)

type Model struct {
	Scr   [2]*Scr
	Alt   int
	VF    [6]bool
	VI    [3]int
	VS    [3]string
	VSN   [3]int // how often each was delivered, an output
	Reply string
	Bells int

	Grid     bool
	Grapheme bool

	// rows the main screen lost at its top edge during the last operation
	Lost   [][]Cell
	LostDL bool // they were deleted by DL, which need not announce them

	Resized bool // the last operation was a Resize
	Chars   int  // printable characters handled by the last operation
	Inside  bool // one of them started inside of a wide character, or was wider than the screen
}

func blank(s Sty) Cell { return Cell{" ", 1, s} }

func blankRow(w int, s Sty) []Cell {
	r := make([]Cell, w)
	for i := range r {
		r[i] = blank(s)
	}
	return r
}

func newScr(w, h int) *Scr {
	s := &Scr{W: w, H: h, Bot: h - 1, Rows: make([][]Cell, h)}
	for y := range s.Rows {
		s.Rows[y] = blankRow(w, Sty{})
	}
	return s
}

func newModel(c Config) *Model {
	return &Model{Scr: [2]*Scr{newScr(c.W, c.H), newScr(c.W, c.H)}, Grid: c.Grid, Grapheme: c.Grapheme}
}

func (s *Scr) clone() *Scr {
	n := *s
	n.Rows = make([][]Cell, len(s.Rows))
	all := make([]Cell, 0, s.W*s.H)
	for y, r := range s.Rows {
		k := len(all)
		all = append(all, r...)
		n.Rows[y] = all[k:len(all):len(all)]
	}
	n.KS = append([]int(nil), s.KS...)
	return &n
}

func (m *Model) clone() *Model {
	n := *m
	n.Scr[0] = m.Scr[0].clone()
	n.Scr[1] = m.Scr[1].clone()
	n.Lost, n.LostDL, n.Resized, n.Chars = nil, false, false, 0
	return &n
}

func (m *Model) begin() { m.Lost, m.LostDL, m.Resized, m.Chars, m.Inside = nil, false, false, 0, false }

func (m *Model) s() *Scr { return m.Scr[m.Alt] }

// key writes everything observable about the model.
func (m *Model) key(b *strings.Builder) {
	fmt.Fprintf(b, "%d|%v|%v|%v|", m.Alt, m.VF, m.VI, m.VS) // replies and bells are outputs, not state
	for _, s := range m.Scr {
		fmt.Fprintf(b, "%dx%d c%d,%d s%d,%d m%d,%d %v %v k%d%v|", s.W, s.H, s.CX, s.CY, s.SX, s.SY, s.Top, s.Bot, s.Wrap, s.S, s.KF, s.KS)
		for _, r := range s.Rows {
			var prev Sty
			for i := range r {
				if r[i].S != prev {
					prev = r[i].S
					b.WriteString("{")
					b.WriteString(prev.String())
					b.WriteString("}")
				}
				if r[i].W == 0 {
					b.WriteByte(1)
				}
				b.WriteString(r[i].T)
				b.WriteByte(byte(r[i].W))
			}
			b.WriteByte('\n')
		}
	}
}

func clampi(v, lo, hi int) int {
	if v < lo {
		return lo
	}
	if v > hi {
		return hi
	}
	return v
}

// ---- text

// Clu is a character (grapheme cluster in grapheme mode) of the alphabet.
type Clu struct {
	T     string
	W     int
	Merge bool // joins the character before the cursor
}

func (m *Model) breakWide(y, x int) {
	s := m.s()
	if x <= 0 || x >= s.W || s.Rows[y][x].W != 0 {
		return
	}
	b := x
	for b > 0 && s.Rows[y][b].W == 0 {
		b--
	}
	w := int(s.Rows[y][b].W)
	for i := b; i < b+w; i++ {
		s.Rows[y][i] = blank(s.S)
	}
}

func (m *Model) set(y, x int, t string, w int) {
	s := m.s()
	s.Rows[y][x] = Cell{t, int16(w), s.S}
	for i := 1; i < w; i++ {
		s.Rows[y][x+i] = Cell{"", 0, s.S}
	}
}

func (m *Model) put(c Clu) {
	m.Chars++
	s := m.s()
	if c.Merge {
		if s.CX == 0 {
			return
		}
		x := s.CX - 1
		for x > 0 && s.Rows[s.CY][x].W == 0 {
			x--
		}
		s.Rows[s.CY][x].T += c.T
		return
	}
	w := c.W
	if w > s.W {
		m.Inside = true
		w = s.W
	}
	if s.CX+w > s.W {
		if s.Wrap {
			s.CX = 0
			m.index()
		} else {
			s.CX = s.W - w
		}
	}
	x, y := s.CX, s.CY
	row := s.Rows[y]
	m.Inside = m.Inside || row[x].W == 0
	if !m.Grid && row[x].W == 0 {
		b := x
		for row[b].W == 0 {
			b--
		}
		e := b + int(row[b].W)
		if e+w <= s.W {
			// the wide character stays and the new one is inserted after it
			n := x + w - e
			if n < 0 {
				n = 0
			}
			m.breakWide(y, e+n)
			nr := append([]Cell(nil), row[:e]...)
			nr = append(nr, Cell{c.T, int16(w), s.S})
			for i := 1; i < w; i++ {
				nr = append(nr, Cell{"", 0, s.S})
			}
			nr = append(nr, row[e+n:]...)
			s.Rows[y] = cutRow(nr, s.W, s.S)
			m.advance(w)
			return
		}
	}
	m.breakWide(y, x)
	m.breakWide(y, x+w)
	m.set(y, x, c.T, w)
	m.advance(w)
}

// cutRow fits a row to width w.
func cutRow(r []Cell, w int, st Sty) []Cell {
	if len(r) > w {
		if r[w].W == 0 {
			b := w
			for r[b].W == 0 {
				b--
			}
			for i := b; i < w; i++ {
				r[i] = blank(st)
			}
		}
		r = r[:w:w]
	}
	for len(r) < w {
		r = append(r, blank(st))
	}
	return r
}

func (m *Model) advance(w int) {
	s := m.s()
	s.CX += w
	if s.CX >= s.W {
		if s.Wrap {
			s.CX -= s.W
			m.index()
		} else {
			s.CX = s.W - 1
		}
	}
}

// ---- motion

func (m *Model) index() {
	s := m.s()
	if s.CY == s.Bot {
		m.scroll(s.Top, s.Bot, -1, false)
	} else if s.CY < s.H-1 {
		s.CY++
	}
}

func (m *Model) ri() {
	s := m.s()
	if s.CY == s.Top {
		m.scroll(s.Top, s.Bot, 1, false)
	} else if s.CY > 0 {
		s.CY--
	}
}

func (m *Model) lf() { m.s().CX = 0; m.index() }
func (m *Model) cr() { m.s().CX = 0 }
func (m *Model) bs() { m.rel(-1, 0) }
func (m *Model) ht() { s := m.s(); s.CX = clampi((s.CX/8+1)*8, 0, s.W-1) }

func (m *Model) rel(dx, dy int) {
	s := m.s()
	s.CX = clampi(s.CX+dx, 0, s.W-1)
	s.CY = clampi(s.CY+dy, 0, s.H-1)
}

// at moves to a 0-based position.
func (m *Model) at(x, y int) {
	s := m.s()
	s.CX = clampi(x, 0, s.W-1)
	s.CY = clampi(y, 0, s.H-1)
}

func (m *Model) save()    { s := m.s(); s.SX, s.SY = s.CX, s.CY }
func (m *Model) restore() { s := m.s(); s.CX, s.CY = s.SX, s.SY }

// ---- erase, delete, scroll

func (m *Model) eraseCells(y, x1, x2 int) {
	s := m.s()
	x1, x2 = clampi(x1, 0, s.W), clampi(x2, 0, s.W)
	if x1 >= x2 {
		return
	}
	m.breakWide(y, x1)
	m.breakWide(y, x2)
	for x := x1; x < x2; x++ {
		s.Rows[y][x] = blank(s.S)
	}
}

func (m *Model) el(n int) {
	s := m.s()
	switch n {
	case 0:
		m.eraseCells(s.CY, s.CX, s.W)
	case 1:
		m.eraseCells(s.CY, 0, s.CX+1)
	case 2:
		m.eraseCells(s.CY, 0, s.W)
	}
}

func (m *Model) ed(n int) {
	s := m.s()
	switch n {
	case 0:
		m.el(0)
		for y := s.CY + 1; y < s.H; y++ {
			m.eraseCells(y, 0, s.W)
		}
	case 1:
		m.el(1)
		for y := 0; y < s.CY; y++ {
			m.eraseCells(y, 0, s.W)
		}
	case 2:
		for y := 0; y < s.H; y++ {
			m.eraseCells(y, 0, s.W)
		}
		s.CX, s.CY = 0, 0
	}
}

func (m *Model) ech(n int) { s := m.s(); m.eraseCells(s.CY, s.CX, s.CX+n) }

func (m *Model) dch(n int) {
	s := m.s()
	if n <= 0 {
		return
	}
	x, y := s.CX, s.CY
	if x+n > s.W {
		n = s.W - x
	}
	m.breakWide(y, x)
	m.breakWide(y, x+n)
	row := append([]Cell(nil), s.Rows[y][:x]...)
	row = append(row, s.Rows[y][x+n:]...)
	s.Rows[y] = cutRow(row, s.W, s.S)
}

// scroll shifts rows y1..y2 down by dy (up when negative).
func (m *Model) scroll(y1, y2, dy int, dl bool) {
	s := m.s()
	h := y2 - y1 + 1
	dy = clampi(dy, -h, h)
	old := append([][]Cell(nil), s.Rows[y1:y2+1]...)
	if y1 == 0 && dy < 0 && m.Alt == 0 {
		for _, r := range old[:-dy] {
			m.Lost = append(m.Lost, append([]Cell(nil), r...))
		}
		m.LostDL = m.LostDL || dl
	}
	for i := 0; i < h; i++ {
		if j := i - dy; j >= 0 && j < h {
			s.Rows[y1+i] = old[j]
		} else {
			s.Rows[y1+i] = blankRow(s.W, s.S)
		}
	}
}

func (m *Model) su(n int) { s := m.s(); m.scroll(s.Top, s.Bot, -n, false) }
func (m *Model) sd(n int) { s := m.s(); m.scroll(s.Top, s.Bot, n, false) }
func (m *Model) il(n int) {
	if s := m.s(); s.CY >= s.Top && s.CY <= s.Bot {
		m.scroll(s.CY, s.Bot, n, false)
	}
}
func (m *Model) dl(n int) {
	if s := m.s(); s.CY >= s.Top && s.CY <= s.Bot {
		m.scroll(s.CY, s.Bot, -n, true)
	}
}

// stbm sets the scroll region; 0 stands for an omitted parameter.
func (m *Model) stbm(top, bot int) {
	s := m.s()
	if top == 0 {
		top = 1
	}
	if bot == 0 {
		bot = s.H
	}
	if top > bot {
		return
	}
	s.Top, s.Bot = clampi(top-1, 0, s.H-1), clampi(bot-1, 0, s.H-1)
}

// ---- attributes

func (m *Model) sgr(p []int) {
	st := m.s().S
	if len(p) == 0 {
		p = []int{0}
	}
	for i := 0; i < len(p); i++ {
		c := p[i]
		switch {
		case c == 0:
			st = Sty{}
		case c == 1:
			st.M |= mBold
		case c == 2:
			st.M |= mDim
		case c == 3:
			st.M |= mItalic
		case c == 4:
			st.M |= mUnder
		case c == 5:
			st.M |= mBlink
		case c == 6:
			st.M |= mRapid
		case c == 7:
			st.M |= mReverse
		case c == 8:
			st.M |= mInvis
		case c == 9:
			st.M |= mStrike
		case c == 21:
			st.M |= mDouble
		case c == 51:
			st.M |= mFramed
		case c == 52:
			st.M |= mEncircled
		case c == 53:
			st.M |= mOver
		case c == 22:
			st.M &^= mBold | mDim
		case c == 23:
			st.M &^= mItalic
		case c == 24:
			st.M &^= mUnder | mDouble
		case c == 25:
			st.M &^= mBlink | mRapid
		case c == 27:
			st.M &^= mReverse
		case c == 28:
			st.M &^= mInvis
		case c == 29:
			st.M &^= mStrike
		case c == 54:
			st.M &^= mFramed | mEncircled
		case c == 55:
			st.M &^= mOver
		case c >= 30 && c <= 37:
			st.Fg = Col{1, int32(c - 30)}
		case c >= 40 && c <= 47:
			st.Bg = Col{1, int32(c - 40)}
		case c >= 90 && c <= 97:
			st.Fg = Col{2, int32(c - 90)}
		case c >= 100 && c <= 107:
			st.Bg = Col{2, int32(c - 100)}
		case c == 39:
			st.Fg = Col{}
		case c == 49:
			st.Bg = Col{}
		case c == 38 || c == 48:
			var col Col
			if i+2 < len(p) && p[i+1] == 5 {
				col = Col{1, int32(p[i+2])}
				i += 2
			} else if i+4 < len(p) && p[i+1] == 2 {
				col = Col{3, int32(p[i+2]<<16 | p[i+3]<<8 | p[i+4])}
				i += 4
			} else {
				continue // truncated form
			}
			if c == 38 {
				st.Fg = col
			} else {
				st.Bg = col
			}
		}
	}
	m.s().S = st
}

// ---- modes

func (m *Model) decset(p int, on bool) {
	mouse := func(v int) {
		if !on {
			v = 0
		}
		m.VI[viMouseMode] = v
	}
	enc := func(v int) {
		if !on {
			v = 0
		}
		m.VI[viMouseEnc] = v
	}
	switch p {
	case 1:
		m.VF[vfAppCursor] = on
	case 7:
		m.s().Wrap = on
	case 9:
		mouse(1)
	case 12:
		m.VF[vfBlink] = on
	case 25:
		m.VF[vfShow] = on
	case 1000:
		mouse(2)
	case 1002:
		mouse(3)
	case 1003:
		mouse(4)
	case 1004:
		m.VF[vfFocus] = on
	case 1005, 1015:
		enc(1)
	case 1006:
		enc(2)
	case 1049:
		m.Alt = 0
		if on {
			m.Alt = 1
		}
	case 2004:
		m.VF[vfPaste] = on
	}
}

// ---- keyboard flags

func (m *Model) kset(flags, mode int) {
	s := m.s()
	switch mode {
	case 0, 1:
		s.KF = flags
	case 2:
		s.KF |= flags
	case 3:
		s.KF &^= flags
	}
}

func (m *Model) kpush(flags int) {
	s := m.s()
	s.KS = append(s.KS, s.KF)
	if len(s.KS) > 32 {
		s.KS = append([]int(nil), s.KS[1:]...)
	}
	s.KF = flags
}

func (m *Model) kpop(n int) {
	s := m.s()
	if n == 0 {
		n = 1
	}
	for ; n > 0; n-- {
		if len(s.KS) == 0 {
			s.KF = 0
			return
		}
		s.KF = s.KS[len(s.KS)-1]
		s.KS = s.KS[:len(s.KS)-1]
	}
}

// ---- resize

func (m *Model) resize(w, h int) {
	m.Resized = true
	for _, s := range m.Scr {
		rows := make([][]Cell, h)
		for y := range rows {
			if y < s.H {
				rows[y] = cutRow(append([]Cell(nil), s.Rows[y]...), w, s.S)
			} else {
				rows[y] = blankRow(w, s.S)
			}
		}
		s.OldW, s.OldH, s.OldTop, s.OldBot = s.W, s.H, s.Top, s.Bot
		s.Bot = clampi(h-(s.H-s.Bot), 0, h-1)
		if s.Top > s.Bot {
			s.Top, s.Bot = 0, h-1
		}
		s.Rows, s.W, s.H = rows, w, h
		s.CX, s.CY = clampi(s.CX, 0, w-1), clampi(s.CY, 0, h-1)
		s.SX, s.SY = clampi(s.SX, 0, w-1), clampi(s.SY, 0, h-1)
	}
}
