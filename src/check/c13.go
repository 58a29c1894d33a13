package main

import (
	"errors"
	"fmt"
	"strings"
	"sync/atomic"
	"time"
	"unicode/utf8"

	tm "github.com/ricochet1k/termemu"
)

// C13: SendMouseRaw over the whole domain, judged by a decoder of each
// encoding, with every fault of the writer at every byte.

func init() {
	register("C13", "model_checking", 600*time.Second, 1200*time.Second, checkC13)
}

type mouseSender interface {
	SendMouseRaw(btn tm.MouseBtn, press bool, mods tm.MouseFlag, x, y int) error
}

type mouseEv struct {
	btn   int
	press bool
	mods  int
	x, y  int
}

func (e mouseEv) String() string {
	return fmt.Sprintf("button %d press %v flags %d at %d,%d", e.btn, e.press, e.mods, e.x, e.y)
}

const (
	mouseMotion = 32
	mouseWheel  = 64
)

// mouseReport is what a report says.
type mouseReport struct {
	bits    int // button and flags
	x, y    int
	release bool
}

// decodeMouse reads exactly one report.
func decodeMouse(b []byte, enc int) (r mouseReport, err error) {
	s := string(b)
	switch enc {
	case tm.MESGR:
		if !strings.HasPrefix(s, "\x1b[<") {
			return r, fmt.Errorf("%q is not an SGR report", s)
		}
		s = s[3:]
		var v [3]int
		for i := range v {
			n := 0
			for n < len(s) && s[n] >= '0' && s[n] <= '9' {
				v[i] = v[i]*10 + int(s[n]-'0')
				n++
			}
			if n == 0 || n > 9 || n > 1 && s[0] == '0' {
				return r, fmt.Errorf("%q is not an SGR report", b)
			}
			s = s[n:]
			if i < 2 {
				if s == "" || s[0] != ';' {
					return r, fmt.Errorf("%q is not an SGR report", b)
				}
				s = s[1:]
			}
		}
		if s != "M" && s != "m" {
			return r, fmt.Errorf("%q is not an SGR report", b)
		}
		return mouseReport{v[0], v[1], v[2], s == "m"}, nil
	default:
		if !strings.HasPrefix(s, "\x1b[M") {
			return r, fmt.Errorf("%q is not a mouse report", b)
		}
		s = s[3:]
		var v [3]int
		for i := range v {
			if s == "" {
				return r, fmt.Errorf("%q is a truncated report", b)
			}
			if enc == tm.MEX10 {
				v[i] = int(s[0])
				s = s[1:]
			} else {
				c, n := utf8.DecodeRuneInString(s)
				if c == utf8.RuneError {
					return r, fmt.Errorf("%q is not UTF-8", b)
				}
				v[i] = int(c)
				s = s[n:]
			}
			v[i] -= 32
			if v[i] < 0 {
				return r, fmt.Errorf("%q has a control byte in it", b)
			}
		}
		if s != "" {
			return r, fmt.Errorf("%q has more than a report in it", b)
		}
		return mouseReport{v[0], v[1], v[2], v[0]&3 == 3 && v[0]&mouseMotion == 0}, nil
	}
}

// mouseWanted says whether an event is reported: 0 no, 1 yes, 2 either.
func mouseWanted(mode int, e mouseEv) int {
	motion := e.mods&mouseMotion != 0
	if !e.press && (motion || e.mods&mouseWheel != 0) {
		// not something that happens
		if mode == tm.MMNone || mode == tm.MMPress {
			return 0
		}
		return 2
	}
	switch mode {
	case tm.MMNone:
		return 0
	case tm.MMPress:
		if e.btn == 3 && e.press && !motion {
			return 2 // a press of no button
		}
		if e.press && !motion {
			return 1
		}
		return 0
	case tm.MMPressRelease:
		if motion {
			return 0
		}
		return 1
	case tm.MMPressReleaseMove:
		if motion && e.btn == 3 {
			if e.mods&mouseWheel != 0 {
				return 2
			}
			return 0
		}
		return 1
	}
	return 1
}

func mouseCheck(mode, enc int, e mouseEv, out []byte) error {
	want := mouseWanted(mode, e)
	if e.x < 1 || e.y < 1 {
		want = min(want*2, 2)
	}
	if len(out) == 0 {
		if want == 1 {
			return fmt.Errorf("nothing was sent")
		}
		return nil
	}
	if want == 0 {
		return fmt.Errorf("%q was sent, the mode excludes it", out)
	}
	r, err := decodeMouse(out, enc)
	if err != nil {
		return err
	}
	for _, p := range [][2]int{{e.x, r.x}, {e.y, r.y}} {
		w := max(p[0], 1)
		switch {
		case enc == tm.MEX10 && w > 223:
			w = 223
		case enc == tm.MEUTF8 && w > 2015 && p[1] == 2015:
			w = 2015 // as far as two bytes go
		}
		if p[1] != w {
			return fmt.Errorf("%q says %d,%d", out, r.x, r.y)
		}
	}
	if r.bits&(4|8|16) != e.mods&(4|8|16) {
		return fmt.Errorf("%q says modifiers %d", out, r.bits&(4|8|16))
	}
	if r.bits&mouseMotion != e.mods&mouseMotion || r.bits&mouseWheel != e.mods&mouseWheel {
		return fmt.Errorf("%q says motion %v wheel %v", out, r.bits&mouseMotion != 0, r.bits&mouseWheel != 0)
	}
	if r.bits&^127 != 0 {
		return fmt.Errorf("%q says button %d", out, r.bits)
	}
	odd := !e.press && e.mods&(mouseMotion|mouseWheel) != 0
	if enc == tm.MESGR {
		if r.bits&3 != e.btn {
			return fmt.Errorf("%q says button %d", out, r.bits&3)
		}
		if r.release == e.press && !odd {
			return fmt.Errorf("%q says release %v", out, r.release)
		}
		return nil
	}
	b := e.btn
	if !e.press {
		b = 3
	}
	if r.bits&3 != b && !odd {
		return fmt.Errorf("%q says button %d", out, r.bits&3)
	}
	return nil
}

var errFault = errors.New("injected fault")

func checkC13(c *Check) {
	modeSeq := []struct {
		seq  string
		mode int
	}{{"", tm.MMNone}, {"\x1b[?9h", tm.MMPress}, {"\x1b[?1000h", tm.MMPressRelease}, {"\x1b[?1002h", tm.MMPressReleaseMove}, {"\x1b[?1003h", tm.MMPressReleaseMoveAll}}
	encSeq := []struct {
		seq string
		enc int
	}{{"", tm.MEX10}, {"\x1b[?1005h", tm.MEUTF8}, {"\x1b[?1006h", tm.MESGR}}
	coords := []int{-5, 0, 1, 2, 10, 63, 64, 93, 94, 95, 96, 97, 126, 127, 128, 129, 159, 160, 191, 192, 221, 222, 223, 224, 225, 254, 255, 256, 257, 287, 288, 1000, 2013, 2014, 2015, 2016, 2017, 4063, 4064, 4095, 4096}
	axis := pick(c, 2300, 20000)
	type job struct {
		setup     string
		mode, enc int
		what      string
	}
	var jobs []job
	// straight to the mode, in either order, on either screen
	for _, m := range modeSeq {
		for _, e := range encSeq {
			jobs = append(jobs, job{m.seq + e.seq, m.mode, e.enc, "domain"}, job{"\x1b[?1049h" + e.seq + m.seq, m.mode, e.enc, "domain"})
		}
	}
	// every sequence of up to three selections: the last one counts; switching
	// off what is on leaves nothing, or the default encoding
	for _, a := range modeSeq[1:] {
		for _, b := range modeSeq[1:] {
			for _, d := range modeSeq[1:] {
				jobs = append(jobs, job{a.seq + b.seq + d.seq, d.mode, tm.MEX10, "select"})
			}
			jobs = append(jobs, job{a.seq + b.seq + strings.Replace(b.seq, "h", "l", 1), tm.MMNone, tm.MEX10, "select"})
		}
		for _, e := range encSeq[1:] {
			for _, g := range encSeq[1:] {
				jobs = append(jobs, job{a.seq + e.seq + g.seq, a.mode, g.enc, "select"})
				jobs = append(jobs, job{a.seq + e.seq + g.seq + strings.Replace(g.seq, "h", "l", 1), a.mode, tm.MEX10, "select"})
			}
		}
	}
	jobs = append(jobs, job{"\x1b[?1003;1006h", tm.MMPressReleaseMoveAll, tm.MESGR, "select"})
	// faults
	for _, m := range modeSeq[1:] {
		for _, e := range encSeq {
			jobs = append(jobs, job{m.seq + e.seq, m.mode, e.enc, "fault"})
		}
	}
	var n, faults atomic.Int64
	c.each(len(jobs), func(w *worker, i int) {
		j := jobs[i]
		d := newDrv(Config{W: 4, H: 2}, w)
		desc := fmt.Sprintf("mouse events after %q", j.setup)
		w.desc.Store(&desc)
		if err := d.run([]*Op{{Spec: "setup", Bytes: j.setup, F: func(*Model) {}}}); err != nil {
			c.fail(Violation{Config: d.cfg, What: desc, Error: err.Error()}, nil)
			return
		}
		s, ok := d.t.(mouseSender)
		if !ok {
			c.fail(Violation{Config: d.cfg, What: desc, Error: "the terminal has no SendMouseRaw(MouseBtn, bool, MouseFlag, int, int) error"}, nil)
			return
		}
		send := func(e mouseEv) (err error) {
			defer func() {
				if p := recover(); p != nil {
					err = fmt.Errorf("panic: %v", p)
				}
			}()
			return s.SendMouseRaw(tm.MouseBtn(e.btn), e.press, tm.MouseFlag(e.mods), e.x, e.y)
		}
		bad := func(e mouseEv, err error) {
			c.fail(Violation{Config: d.cfg, What: desc, Note: e.String(), Error: err.Error()}, nil)
		}
		one := func(e mouseEv) bool {
			n.Add(1)
			d.out = d.out[:0]
			err := send(e)
			if err == nil {
				err = mouseCheck(j.mode, j.enc, e, d.out)
			}
			if err != nil {
				bad(e, err)
			}
			return err == nil
		}
		some := j.what != "domain"
		for btn := 0; btn < 4; btn++ {
			for _, press := range []bool{true, false} {
				for mods := 0; mods < 128; mods += 4 {
					if c.expired() {
						return
					}
					if j.what == "fault" {
						for _, xy := range [][2]int{{1, 1}, {7, 223}, {100, 128}, {300, 40}, {2015, 2}} {
							faults.Add(mouseFaults(d, j.mode, j.enc, mouseEv{btn, press, mods, xy[0], xy[1]}, send, bad))
						}
						continue
					}
					for x := 1; x <= axis && !some; x++ {
						if !one(mouseEv{btn, press, mods, x, 3}) || !one(mouseEv{btn, press, mods, 5, x}) {
							return
						}
					}
					for xi, x := range coords {
						for yi, y := range coords {
							if some && (xi%9 != 2 || yi%7 != 3) {
								continue
							}
							if !one(mouseEv{btn, press, mods, x, y}) {
								return
							}
						}
					}
				}
			}
		}
	})
	c.states.Add(int64(len(jobs)))
	c.transitions.Add(n.Load() + faults.Load())
	c.traces.Add(n.Load() + faults.Load())
	c.bound("4 buttons x press and release x 32 flag sets x (%d x %d coordinates, and each coordinate up to %d) x 5 modes x 3 encodings, %d ways of selecting them: %d events", len(coords), len(coords), axis, len(jobs), n.Load())
	c.bound("writer faults: an error, or nothing taken, after every number of bytes; every size of short writes: %d runs", faults.Load())
	c.sample(map[string]any{"setup": jobs[9].setup, "event": mouseEv{1, true, 36, 224, 95}.String()})
}

// mouseFaults sends an event with every fault of the writer.
func mouseFaults(d *drv, mode, enc int, e mouseEv, send func(mouseEv) error, bad func(mouseEv, error)) (n int64) {
	d.wfault = nil
	d.out = d.out[:0]
	if err := send(e); err != nil {
		bad(e, err)
		return
	}
	want := string(d.out)
	defer func() { d.wfault = nil }()
	for cut := 0; cut <= len(want); cut++ {
		for kind := 0; kind < 4; kind++ {
			if kind == 2 && cut == 0 {
				continue
			}
			taken, calls := 0, 0
			d.wfault = func(p []byte) (int, error) {
				if calls++; calls > 1000 {
					panic("the write is tried for ever")
				}
				k := len(p)
				switch kind {
				case 0: // error after cut bytes
					if k = min(k, cut-taken); taken+k >= cut {
						taken += k
						return k, errFault
					}
				case 1: // nothing is taken any more, without an error
					k = min(k, cut-taken)
				case 2: // short writes
					k = min(k, cut)
				case 3: // error together with the last byte
					k = min(k, max(cut, 1))
					taken += k
					if taken >= len(want) {
						return k, errFault
					}
					return k, nil
				}
				taken += k
				return k, nil
			}
			d.out = d.out[:0]
			err := send(e)
			n++
			got := string(d.out)
			what := ""
			switch {
			case want == "":
				if err != nil || got != "" || calls > 0 {
					what = "a filtered event reached the writer"
				}
			case err != nil && strings.HasPrefix(err.Error(), "panic"):
				what = "no error"
			case kind == 2 || kind == 1 && cut >= len(want):
				if err != nil || got != want {
					what = "the whole report"
				}
			case kind == 1:
				if err == nil || got != want[:cut] {
					what = "an error for a write that makes no progress"
				}
			case kind == 0:
				if err == nil || got != want[:cut] {
					what = "the write error"
				}
			case kind == 3:
				if err == nil || got != want {
					what = "the write error"
				}
			}
			if what != "" {
				bad(e, fmt.Errorf("writer fault %d at byte %d: got error %v and %q, want %s of %q", kind, cut, err, got, what, want))
				return
			}
		}
	}
	return
}
