package main

import (
	"fmt"
	"reflect"
	"sort"
	"strings"
	"unicode/utf8"

	tm "github.com/ricochet1k/termemu"
)

// ---- styles

var modeList = []struct {
	m   tm.Mode
	bit uint16
}{
	{tm.ModeBold, mBold}, {tm.ModeDim, mDim}, {tm.ModeItalic, mItalic}, {tm.ModeUnderline, mUnder},
	{tm.ModeBlink, mBlink}, {tm.ModeReverse, mReverse}, {tm.ModeInvisible, mInvis}, {tm.ModeStrike, mStrike},
	{tm.ModeOverline, mOver}, {tm.ModeDoubleUnderline, mDouble}, {tm.ModeFramed, mFramed},
	{tm.ModeEncircled, mEncircled}, {tm.ModeRapidBlink, mRapid},
}

// decodeStyle reads a style back from what it reports: the SGR sequence it
// renders to, cross-checked with its mode and colour accessors.
func decodeStyle(st tm.Style) (Sty, error) {
	tmp := &Model{Scr: [2]*Scr{{}, {}}}
	esc := string(st.ANSIEscape())
	for esc != "" {
		if !strings.HasPrefix(esc, "\x1b[") {
			return Sty{}, fmt.Errorf("style renders as %q", string(st.ANSIEscape()))
		}
		i := strings.IndexByte(esc, 'm')
		if i < 0 {
			return Sty{}, fmt.Errorf("style renders as %q", string(st.ANSIEscape()))
		}
		var p []int
		for _, f := range strings.Split(esc[2:i], ";") {
			n := 0
			for _, c := range f {
				if c < '0' || c > '9' {
					return Sty{}, fmt.Errorf("style renders as %q", string(st.ANSIEscape()))
				}
				n = n*10 + int(c-'0')
			}
			p = append(p, n)
		}
		tmp.sgr(p)
		esc = esc[i+1:]
	}
	s := tmp.s().S
	for _, m := range modeList {
		if st.TestMode(m.m) != (s.M&m.bit != 0) {
			return s, fmt.Errorf("style renders as %q but TestMode(%d) is %v", string(st.ANSIEscape()), m.m, st.TestMode(m.m))
		}
	}
	for _, c := range []struct {
		comp tm.ColorComponent
		col  Col
	}{{tm.ComponentFG, s.Fg}, {tm.ComponentBG, s.Bg}} {
		v, rgb, err := st.GetColor(c.comp)
		if err != nil || rgb != (c.col.K == 3) || c.col.K != 0 && v != int(c.col.V) {
			return s, fmt.Errorf("style renders as %q but GetColor(%d) is %d,%v,%v", string(st.ANSIEscape()), c.comp, v, rgb, err)
		}
	}
	return s, nil
}

func (d *drv) sty(st tm.Style) (Sty, error) {
	if d.w != nil {
		d.styles = d.w.styles
	} else if d.styles == nil {
		d.styles = map[tm.Style]Sty{}
	}
	if s, ok := d.styles[st]; ok {
		return s, nil
	}
	s, err := decodeStyle(st)
	if err == nil {
		if len(d.styles) > 1<<16 {
			clear(d.styles)
		}
		d.styles[st] = s
	}
	return s, err
}

// ---- cells

// rowCells reads row y of the active screen, cell by cell.
func (d *drv) rowCells(y int) ([]Cell, error) {
	w, _ := d.t.Size()
	return d.lineCells(d.t.StyledLine(0, w, y), w)
}

func (d *drv) lineCells(l tm.Line, w int) ([]Cell, error) {
	out := make([]Cell, 0, w)
	for i, sp := range l.Spans {
		st, err := d.sty(sp.Style)
		if err != nil {
			return nil, err
		}
		if sp.Width <= 0 {
			return nil, fmt.Errorf("span %d %q has width %d", i, sp.Text, sp.Width)
		}
		if sp.Text == "" {
			for j := 0; j < sp.Width; j++ {
				out = append(out, Cell{string(sp.Rune), 1, st})
			}
			continue
		}
		cl := segment(sp.Text, d.cfg.Grapheme)
		total := 0
		for _, c := range cl {
			total += c.W
		}
		if len(cl) == 1 {
			cl[0].W = sp.Width
			total = sp.Width
		}
		if total != sp.Width && w == 1 && len(cl) == sp.Width {
			// a wide character that is clipped to a one-column screen
			for j := range cl {
				cl[j].W = 1
			}
			total = sp.Width
		}
		if total != sp.Width {
			return nil, fmt.Errorf("span %d %q has width %d, its text takes %d", i, sp.Text, sp.Width, total)
		}
		for _, c := range cl {
			out = append(out, Cell{c.T, int16(c.W), st})
			for j := 1; j < c.W; j++ {
				out = append(out, Cell{"", 0, st})
			}
		}
	}
	if len(out) != w || l.Width != w {
		return nil, fmt.Errorf("spans cover %d columns, Width is %d, the screen is %d wide", len(out), l.Width, w)
	}
	return out, nil
}

func rowText(r []Cell) string {
	var b strings.Builder
	for i := range r {
		b.WriteString(r[i].T)
	}
	return b.String()
}

func cellsString(r []Cell) string {
	var b strings.Builder
	var prev Sty
	for i := range r {
		if r[i].S != prev {
			prev = r[i].S
			fmt.Fprintf(&b, "{%v}", prev)
		}
		b.WriteString(r[i].T)
	}
	return fmt.Sprintf("%q", b.String())
}

func lineString(l tm.Line) string {
	var b strings.Builder
	for _, sp := range l.Spans {
		st, err := decodeStyle(sp.Style)
		x := ""
		if err != nil {
			x = "!"
		}
		if sp.Text == "" {
			fmt.Fprintf(&b, "[%v%s %q*%d]", st, x, string(sp.Rune), sp.Width)
		} else {
			fmt.Fprintf(&b, "[%v%s %q w%d]", st, x, sp.Text, sp.Width)
		}
	}
	return b.String()
}

// cmpRow walks the spans of a row and the model's row in lockstep.
func (d *drv) cmpRow(m *Model, s *Scr, y int) error {
	l := d.t.StyledLine(0, s.W, y)
	row := s.Rows[y]
	x := 0
	bad := func(f string, a ...any) error {
		return fmt.Errorf("row %d col %d: %s\n  shown    %s\n  expected %s", y, x, fmt.Sprintf(f, a...), lineString(l), cellsString(row))
	}
	if l.Width != s.W {
		return bad("StyledLine has Width %d, not %d", l.Width, s.W)
	}
	for _, sp := range l.Spans {
		if sp.Width <= 0 {
			return bad("a span of width %d", sp.Width)
		}
		st, err := d.sty(sp.Style)
		if err != nil {
			return bad("%v", err)
		}
		end := x + sp.Width
		if end > s.W {
			return bad("the row is wider than the screen")
		}
		txt := sp.Text
		for x < end {
			c := &row[x]
			if c.W == 0 {
				return bad("a span starts inside of a wide character")
			}
			if c.S != st {
				if m.Resized && c.T == " " && (x >= s.OldW || y >= s.OldH || x >= s.W-2) && st == (Sty{}) {
					c.S = st // the style of cells that a resize adds is not specified
				} else {
					return bad("style %v, expected %v", st, c.S)
				}
			}
			if sp.Text == "" {
				if c.W != 1 || len(c.T) == 0 || c.T != string(sp.Rune) {
					return bad("text %q, expected %q", string(sp.Rune), c.T)
				}
				x++
				continue
			}
			if !strings.HasPrefix(txt, c.T) {
				return bad("text %q, expected %q", txt, c.T)
			}
			txt = txt[len(c.T):]
			x += int(c.W)
			if x > end {
				return bad("a span ends inside of a wide character")
			}
		}
		if txt != "" {
			return bad("%q is left over in a span of width %d", txt, sp.Width)
		}
	}
	if x != s.W {
		return bad("the row has width %d, the screen %d", x, s.W)
	}
	return nil
}

// cmpTexts checks that Line and ANSILine describe the row's text.
func (d *drv) cmpTexts(s *Scr, y int) error {
	want := rowText(s.Rows[y])
	if got := d.t.Line(y); got != want {
		return fmt.Errorf("Line(%d) is %q, StyledLine shows %q", y, got, want)
	}
	got, err := stripANSI(d.t.ANSILine(y))
	if err != nil || got != want {
		return fmt.Errorf("ANSILine(%d) is %q, StyledLine shows %q (%v)", y, d.t.ANSILine(y), want, err)
	}
	return nil
}

func stripANSI(s string) (string, error) {
	if strings.IndexByte(s, 27) < 0 {
		return s, nil
	}
	var b strings.Builder
	for len(s) > 0 {
		i := strings.IndexByte(s, 27)
		if i < 0 {
			b.WriteString(s)
			break
		}
		b.WriteString(s[:i])
		s = s[i:]
		j := strings.IndexByte(s, 'm')
		if j < 0 || !strings.HasPrefix(s, "\x1b[") || strings.Trim(s[2:j], "0123456789;:") != "" {
			return "", fmt.Errorf("not an SGR sequence: %q", s)
		}
		s = s[j+1:]
	}
	return b.String(), nil
}

// what compare looks at
const (
	cmpContent = 1 << iota
	cmpCursor
	cmpMargins
	cmpInactive
	cmpReply
	cmpViews
	cmpStyle
	cmpText
	cmpShadow
	cmpLost
	cmpKeys
	cmpSub

	cmpAll = cmpContent | cmpCursor | cmpMargins | cmpInactive | cmpReply | cmpViews | cmpStyle | cmpKeys
)

func (d *drv) cmpScr(m *Model, s *Scr, what int) error {
	w, h := d.t.Size()
	if w != s.W || h != s.H {
		return fmt.Errorf("Size is %dx%d, expected %dx%d", w, h, s.W, s.H)
	}
	x, y, wrap, _ := tm.VerifState(d.t)
	if what&cmpCursor != 0 && tm.VerifState0 {
		if x != s.CX || y != s.CY {
			return fmt.Errorf("cursor is at %d,%d, expected %d,%d", x, y, s.CX, s.CY)
		}
		if wrap != s.Wrap {
			return fmt.Errorf("autowrap is %v, expected %v", wrap, s.Wrap)
		}
	}
	if what&cmpMargins != 0 && tm.VerifState0 {
		top, bot := tm.VerifMargins(d.t)
		if top < 0 || bot >= h || top > bot {
			return fmt.Errorf("scroll region %d..%d is not a non-empty part of %d rows", top, bot, h)
		}
		if m.Resized && (top != s.Top || bot != s.Bot) {
			// how a resize fits the region into the screen is not specified
			ok := top == 0 && bot == h-1
			if !(s.OldTop == 0 && s.OldBot == s.OldH-1) {
				ok = ok || top == clampi(s.OldTop, 0, h-1) && bot == clampi(s.OldBot, 0, h-1)
			}
			if ok {
				s.Top, s.Bot = top, bot
			}
		}
		if top != s.Top || bot != s.Bot {
			return fmt.Errorf("scroll region is %d..%d, expected %d..%d", top, bot, s.Top, s.Bot)
		}
	}
	if what&cmpStyle != 0 && tm.VerifState0 {
		_, _, _, st := tm.VerifState(d.t)
		got, err := d.sty(st)
		if err != nil {
			return err
		}
		if got != s.S {
			return fmt.Errorf("current style is %v, expected %v", got, s.S)
		}
	}
	if what&cmpContent != 0 {
		for y := range s.Rows {
			if err := d.cmpRow(m, s, y); err != nil {
				return err
			}
			if what&cmpText != 0 {
				if err := d.cmpTexts(s, y); err != nil {
					return err
				}
			}
		}
		if what&cmpSub != 0 {
			return d.cmpParts(s)
		}
	}
	return nil
}

// cmpParts reads parts of the rows, which have been compared as a whole: all
// of them on a small screen, some on a large one.
func (d *drv) cmpParts(s *Scr) error {
	part := func(x, w int) error {
		all := d.t.StyledLines(tm.Region{X: x, Y: 0, X2: x + w, Y2: s.H})
		if len(all) != s.H {
			return fmt.Errorf("StyledLines returned %d rows of %d", len(all), s.H)
		}
		for y := range all {
			if err := d.cmpPart(s.Rows[y], x, w, d.t.StyledLine(x, w, y)); err != nil {
				return fmt.Errorf("StyledLine(%d, %d, %d): %w", x, w, y, err)
			}
			if err := d.cmpPart(s.Rows[y], x, w, all[y]); err != nil {
				return fmt.Errorf("row %d of StyledLines of columns %d..%d: %w", y, x, x+w-1, err)
			}
		}
		return nil
	}
	if s.W <= 8 && s.H <= 30 {
		for x := 0; x < s.W; x++ {
			for w := 1; x+w <= s.W; w++ {
				if err := part(x, w); err != nil {
					return err
				}
			}
		}
		// one part of the rows
		for y := 0; y < s.H && s.H <= 8; y++ {
			for y2 := y + 1; y2 <= s.H; y2++ {
				ls := d.t.StyledLines(tm.Region{X: 0, Y: y, X2: s.W, Y2: y2})
				if len(ls) != y2-y {
					return fmt.Errorf("StyledLines returned %d rows of %d", len(ls), y2-y)
				}
				for i := range ls {
					if err := d.cmpPart(s.Rows[y+i], 0, s.W, ls[i]); err != nil {
						return fmt.Errorf("row %d of StyledLines of rows %d..%d: %w", i, y, y2-1, err)
					}
				}
			}
		}
		return nil
	}
	for _, p := range [...][2]int{{1, s.W - 1}, {0, s.W - 1}, {s.W / 2, 2}, {s.W - 1, 1}} {
		if p[1] == 0 || p[0]+p[1] > s.W {
			continue
		}
		if err := part(p[0], p[1]); err != nil {
			return err
		}
	}
	return nil
}

// cmpPart compares columns x to x+w-1 of a row. What is shown for a half of a
// wide character has its style and takes one column.
func (d *drv) cmpPart(row []Cell, x, w int, l tm.Line) error {
	x0, x2 := x, x+w
	bad := func(f string, a ...any) error {
		return fmt.Errorf("col %d: %s\n  shown    %s\n  expected columns %d..%d of %s", x, fmt.Sprintf(f, a...), lineString(l), x0, x2-1, cellsString(row))
	}
	if l.Width != w {
		return bad("the Width is %d, not %d", l.Width, w)
	}
	for _, sp := range l.Spans {
		if sp.Width <= 0 {
			return bad("a span of width %d", sp.Width)
		}
		st, err := d.sty(sp.Style)
		if err != nil {
			return bad("%v", err)
		}
		end := x + sp.Width
		if end > x2 {
			return bad("the part is too wide")
		}
		txt := sp.Text
		for x < end {
			c := row[x]
			if c.W == 0 || x+int(c.W) > x2 { // a half
				b := x
				for row[b].W == 0 {
					b--
				}
				if row[b].S != st {
					return bad("style %v, expected %v", st, row[b].S)
				}
				if b >= x0 && b+int(row[b].W) <= x2 {
					return bad("a span starts inside of a wide character")
				}
				c = Cell{" ", 1, st}
			}
			if c.S != st {
				return bad("style %v, expected %v", st, c.S)
			}
			if sp.Text == "" {
				if c.W != 1 || c.T != string(sp.Rune) {
					return bad("text %q, expected %q", string(sp.Rune), c.T)
				}
				x++
				continue
			}
			if !strings.HasPrefix(txt, c.T) {
				return bad("text %q, expected %q", txt, c.T)
			}
			txt = txt[len(c.T):]
			x += int(c.W)
			if x > end {
				return bad("a span ends inside of a wide character")
			}
		}
		if txt != "" {
			return bad("%q is left over in a span of width %d", txt, sp.Width)
		}
	}
	if x != x2 {
		return bad("the part is %d columns wide, not %d", x-x0, w)
	}
	return nil
}

type viewGetter interface {
	GetViewFlag(tm.ViewFlag) bool
	GetViewInt(tm.ViewInt) int
	GetViewString(tm.ViewString) string
}

// compare holds the terminal against the model.
func (d *drv) compare(m *Model, what int) error {
	if err := d.cmpScr(m, m.s(), what); err != nil {
		return err
	}
	r := d.rec
	if r.err != nil {
		return r.err
	}
	if what&cmpCursor != 0 && (r.cx != m.s().CX || r.cy != m.s().CY) {
		return fmt.Errorf("the last CursorMoved said %d,%d, the cursor is at %d,%d", r.cx, r.cy, m.s().CX, m.s().CY)
	}
	if what&cmpStyle != 0 && r.styleN > 0 {
		got, err := d.sty(r.style)
		if err != nil {
			return err
		}
		if got != m.s().S {
			return fmt.Errorf("the last StyleChanged said %v, the style is %v", got, m.s().S)
		}
	}
	if what&cmpReply != 0 && string(d.out) != m.Reply {
		return fmt.Errorf("replies are %q, expected %q", d.out, m.Reply)
	}
	if what&cmpViews != 0 {
		if r.vf != m.VF || r.vi != m.VI || r.vs != m.VS {
			return fmt.Errorf("View*Changed callbacks said %v %v %q, expected %v %v %q", r.vf, r.vi, r.vs, m.VF, m.VI, m.VS)
		}
		if g, ok := d.t.(viewGetter); ok {
			for i, v := range m.VF {
				if g.GetViewFlag(tm.ViewFlag(i)) != v {
					return fmt.Errorf("view flag %d is %v, expected %v", i, !v, v)
				}
			}
			for i, v := range m.VI {
				if n := g.GetViewInt(tm.ViewInt(i)); n != v {
					return fmt.Errorf("view int %d is %d, expected %d", i, n, v)
				}
			}
			for i, v := range m.VS {
				if n := g.GetViewString(tm.ViewString(i)); n != v {
					return fmt.Errorf("view string %d is %q, expected %q", i, n, v)
				}
			}
		}
		if r.bells != m.Bells {
			return fmt.Errorf("%d Bell callbacks, expected %d", r.bells, m.Bells)
		}
	}
	if n := tm.VerifKeyboard(d.t); what&cmpKeys != 0 && n >= 0 && n != m.s().KF {
		return fmt.Errorf("keyboard flags are %d, expected %d", n, m.s().KF)
	}
	if what&cmpShadow != 0 {
		if err := d.cmpShadow(); err != nil {
			return err
		}
	}
	if what&cmpLost != 0 {
		lost := r.lost
		r.lost = nil
		if !(m.LostDL && len(lost) == 0) {
			if len(lost) != len(m.Lost) {
				return fmt.Errorf("ScrollLines announced %d rows, %d were scrolled off", len(lost), len(m.Lost))
			}
			for i := range lost {
				for x := range lost[i] {
					if x < len(m.Lost[i]) && lost[i][x] != m.Lost[i][x] {
						return fmt.Errorf("row %d scrolled off was %s, ScrollLines announced it as %s", i, cellsString(m.Lost[i]), cellsString(lost[i]))
					}
				}
			}
		}
	}
	if what&cmpInactive != 0 && tm.VerifState0 {
		var err error
		tm.VerifOther(d.t, func() { err = d.cmpScr(m, m.Scr[1-m.Alt], what) })
		if err != nil {
			return fmt.Errorf("inactive screen: %w", err)
		}
	}
	return nil
}

func (d *drv) cmpShadow() error {
	for y := range d.rec.sh {
		row, err := d.rowCells(y)
		if err != nil {
			return fmt.Errorf("row %d: %w", y, err)
		}
		for x := range row {
			if row[x] != d.rec.sh[y][x] {
				return fmt.Errorf("row %d col %d: a frontend that repaints what is announced shows %q %v, the screen has %q %v\n  repainted %s\n  screen    %s",
					y, x, d.rec.sh[y][x].T, d.rec.sh[y][x].S, row[x].T, row[x].S, cellsString(d.rec.sh[y]), cellsString(row))
			}
		}
	}
	return nil
}

// deepKey adds everything that the terminal keeps, by reflection, so that two
// states that differ in anything are never taken for the same. The frontend
// and the backend, which belong to this program, are left out.
func (d *drv) deepKey(b *strings.Builder) {
	d.deep(b, reflect.ValueOf(d.t), 0)
}

func (d *drv) deep(b *strings.Builder, v reflect.Value, depth int) {
	num := func(n uint64) {
		for n >= 0x80 {
			b.WriteByte(byte(n) | 0x80)
			n >>= 7
		}
		b.WriteByte(byte(n))
	}
	if depth > 40 {
		return
	}
	switch v.Kind() {
	case reflect.Bool:
		if v.Bool() {
			b.WriteByte(1)
		} else {
			b.WriteByte(0)
		}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		num(uint64(v.Int())<<1 ^ uint64(v.Int()>>63))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		num(v.Uint())
	case reflect.Float32, reflect.Float64:
		fmt.Fprint(b, v.Float())
	case reflect.String:
		num(uint64(v.Len()))
		b.WriteString(v.String())
	case reflect.Slice:
		num(uint64(v.Len()))
		fallthrough
	case reflect.Array:
		if v.Kind() == reflect.Slice && v.Type().Elem().Kind() == reflect.Uint8 {
			b.Write(v.Bytes())
			return
		}
		for i := 0; i < v.Len(); i++ {
			d.deep(b, v.Index(i), depth+1)
		}
	case reflect.Map:
		var l []string
		for it := v.MapRange(); it.Next(); {
			var e strings.Builder
			d.deep(&e, it.Key(), depth+1)
			d.deep(&e, it.Value(), depth+1)
			l = append(l, e.String())
		}
		sort.Strings(l)
		num(uint64(len(l)))
		b.WriteString(strings.Join(l, "|"))
	case reflect.Struct:
		switch v.Type().PkgPath() {
		case "sync", "sync/atomic", "time", "os", "internal/sync":
			return
		}
		for i := 0; i < v.NumField(); i++ {
			d.deep(b, v.Field(i), depth+1)
		}
	case reflect.Pointer, reflect.Interface:
		if v.IsNil() {
			b.WriteByte(0)
			return
		}
		e := v.Elem()
		t := e.Type()
		if t.Kind() == reflect.Pointer {
			t = t.Elem()
		}
		if p := t.PkgPath(); p == "main" || p == "os" {
			return
		}
		b.WriteByte(1)
		d.deep(b, e, depth+1)
	}
}

// layoutKey adds how the implementation cuts its rows into spans.
func (d *drv) layoutKey(b *strings.Builder) {
	one := func() {
		w, h := d.t.Size()
		for y := 0; y < h; y++ {
			for _, sp := range d.t.StyledLine(0, w, y).Spans {
				if sp.Text == "" {
					b.WriteByte(2)
					b.WriteRune(sp.Rune)
				} else {
					b.WriteByte(3)
				}
				var n [4]byte
				b.Write(n[:utf8.EncodeRune(n[:], rune(sp.Width))])
			}
			b.WriteByte(4)
		}
	}
	one()
	if tm.VerifState0 {
		tm.VerifOther(d.t, one)
	}
}
