package main

import (
	"fmt"
	"slices"
	"strings"
	"sync"
	"time"
	"unicode"

	tm "github.com/ricochet1k/termemu"
)

// C12: SendKey over the whole domain against an encoder written from
// keyboard-protocol.rst, a decoder for what comes out, and uniqueness.

func init() {
	register("C12", "model_checking", 600*time.Second, 1500*time.Second, checkC12)
}

// keyMode is what the application asked for.
type keyMode struct {
	flags, mok  int
	app, keypad bool
	alt         bool // on the alternate screen
	push        bool // flags pushed rather than set
}

func (k keyMode) String() string {
	return fmt.Sprintf("flags %d modifyOtherKeys %d app-cursor %v keypad %v alt-screen %v push %v", k.flags, k.mok, k.app, k.keypad, k.alt, k.push)
}

func (k keyMode) setup() []*Op {
	var s []string
	if k.alt {
		s = append(s, "\x1b[?1049h")
	}
	if k.app {
		s = append(s, "\x1b[?1h")
	}
	if k.keypad {
		s = append(s, "\x1b=")
	}
	if k.mok > 0 {
		s = append(s, fmt.Sprintf("\x1b[>4;%dm", k.mok))
	}
	if k.push {
		s = append(s, fmt.Sprintf("\x1b[>%du", k.flags))
	} else {
		s = append(s, fmt.Sprintf("\x1b[=%du", k.flags))
	}
	return []*Op{{Spec: "setup", Bytes: strings.Join(s, ""), F: func(*Model) {}}}
}

const (
	fDis = 1 << iota
	fEv
	fAlt
	fAll
	fText
)

const (
	mShift, mAlt, mCtrl      = 1, 2, 4
	mSuper, mHyper, mMeta    = 8, 16, 32
	mCaps, mNum              = 64, 128
	mLocks                   = mCaps | mNum
	evPress, evRepeat, evRel = 1, 2, 3
)

// keyInfo says how a key is written down: a functional key has a number and a
// final byte; a keypad key also has what it stands for.
type keyInfo struct {
	name  string
	num   int
	final byte // final byte of the CSI form
	ss3   bool // SS3 when unmodified in legacy mode (F1 to F4)
	app   bool // SS3 when unmodified in application cursor mode
	leg   int  // number of the legacy ~ form, when there is another one
	c0    byte // legacy byte
	eqKey tm.KeyCode
	eqCh  rune // the text of a keypad key
	kp    bool
	mod   bool // a modifier key
	lock  bool
}

var keyTable = func() map[tm.KeyCode]keyInfo {
	t := map[tm.KeyCode]keyInfo{}
	set := func(k tm.KeyCode, i keyInfo) {
		if _, ok := t[k]; ok {
			panic("key listed twice")
		}
		t[k] = i
	}
	for i, k := range []tm.KeyCode{tm.KeyUp, tm.KeyDown, tm.KeyRight, tm.KeyLeft} {
		set(k, keyInfo{name: "arrow", num: 1, final: "ABCD"[i], app: true})
	}
	set(tm.KeyHome, keyInfo{name: "home", num: 1, final: 'H', app: true})
	set(tm.KeyEnd, keyInfo{name: "end", num: 1, final: 'F', app: true})
	set(tm.KeyInsert, keyInfo{name: "insert", num: 2, final: '~'})
	set(tm.KeyDelete, keyInfo{name: "delete", num: 3, final: '~'})
	set(tm.KeyPageUp, keyInfo{name: "pageup", num: 5, final: '~'})
	set(tm.KeyPageDown, keyInfo{name: "pagedown", num: 6, final: '~'})
	set(tm.KeyBackspace, keyInfo{name: "backspace", num: 127, final: 'u', c0: 127})
	set(tm.KeyTab, keyInfo{name: "tab", num: 9, final: 'u', c0: 9})
	set(tm.KeyEnter, keyInfo{name: "enter", num: 13, final: 'u', c0: 13})
	set(tm.KeyEscape, keyInfo{name: "escape", num: 27, final: 'u', c0: 27})
	set(tm.KeyF1, keyInfo{name: "F1", num: 1, final: 'P', ss3: true})
	set(tm.KeyF2, keyInfo{name: "F2", num: 1, final: 'Q', ss3: true})
	set(tm.KeyF3, keyInfo{name: "F3", num: 13, final: '~', ss3: true})
	set(tm.KeyF4, keyInfo{name: "F4", num: 1, final: 'S', ss3: true})
	for i, n := range []int{15, 17, 18, 19, 20, 21, 23, 24} {
		set(tm.KeyF5+tm.KeyCode(i), keyInfo{name: fmt.Sprintf("F%d", 5+i), num: n, final: '~'})
	}
	for i := 0; i < 23; i++ {
		set(tm.KeyF13+tm.KeyCode(i), keyInfo{name: fmt.Sprintf("F%d", 13+i), num: 57376 + i, final: 'u'})
	}
	set(tm.KeyCapsLock, keyInfo{name: "capslock", num: 57358, final: 'u', lock: true})
	set(tm.KeyScrollLock, keyInfo{name: "scrolllock", num: 57359, final: 'u', lock: true})
	set(tm.KeyNumLock, keyInfo{name: "numlock", num: 57360, final: 'u', lock: true})
	set(tm.KeyPrintScreen, keyInfo{name: "printscreen", num: 57361, final: 'u'})
	set(tm.KeyPause, keyInfo{name: "pause", num: 57362, final: 'u'})
	set(tm.KeyMenu, keyInfo{name: "menu", num: 57363, final: 'u', leg: 29})
	for i, k := range []tm.KeyCode{tm.KeyKP0, tm.KeyKP1, tm.KeyKP2, tm.KeyKP3, tm.KeyKP4, tm.KeyKP5, tm.KeyKP6, tm.KeyKP7, tm.KeyKP8, tm.KeyKP9,
		tm.KeyKPDecimal, tm.KeyKPDivide, tm.KeyKPMultiply, tm.KeyKPSubtract, tm.KeyKPAdd} {
		set(k, keyInfo{name: "kp", num: 57399 + i, final: 'u', kp: true, eqCh: rune("0123456789./*-+"[i])})
	}
	set(tm.KeyKPEnter, keyInfo{name: "kpenter", num: 57414, final: 'u', kp: true, eqKey: tm.KeyEnter})
	set(tm.KeyKPEqual, keyInfo{name: "kpequal", num: 57415, final: 'u', kp: true, eqCh: '='})
	set(tm.KeyKPSeparator, keyInfo{name: "kpseparator", num: 57416, final: 'u', kp: true, eqCh: ','})
	for i, e := range []tm.KeyCode{tm.KeyLeft, tm.KeyRight, tm.KeyUp, tm.KeyDown, tm.KeyPageUp, tm.KeyPageDown, tm.KeyHome, tm.KeyEnd, tm.KeyInsert, tm.KeyDelete} {
		k := []tm.KeyCode{tm.KeyKPLeft, tm.KeyKPRight, tm.KeyKPUp, tm.KeyKPDown, tm.KeyKPPageUp, tm.KeyKPPageDown, tm.KeyKPHome, tm.KeyKPEnd, tm.KeyKPInsert, tm.KeyKPDelete}[i]
		set(k, keyInfo{name: "kpnav", num: 57417 + i, final: 'u', kp: true, eqKey: e})
	}
	set(tm.KeyKPBegin, keyInfo{name: "kpbegin", num: 1, final: 'E', kp: true, app: true})
	for i, k := range []tm.KeyCode{tm.KeyMediaPlay, tm.KeyMediaPause, tm.KeyMediaPlayPause, tm.KeyMediaReverse, tm.KeyMediaStop, tm.KeyMediaFastForward,
		tm.KeyMediaRewind, tm.KeyMediaTrackNext, tm.KeyMediaTrackPrev, tm.KeyMediaRecord, tm.KeyVolumeDown, tm.KeyVolumeUp, tm.KeyVolumeMute} {
		set(k, keyInfo{name: "media", num: 57428 + i, final: 'u'})
	}
	for i, k := range []tm.KeyCode{tm.KeyLeftShift, tm.KeyLeftControl, tm.KeyLeftAlt, tm.KeyLeftSuper, tm.KeyLeftHyper, tm.KeyLeftMeta,
		tm.KeyRightShift, tm.KeyRightControl, tm.KeyRightAlt, tm.KeyRightSuper, tm.KeyRightHyper, tm.KeyRightMeta, tm.KeyISOLevel3Shift, tm.KeyISOLevel5Shift} {
		set(k, keyInfo{name: "modifier", num: 57441 + i, final: 'u', mod: true})
	}
	return t
}()

// keyWant collects the acceptable encodings of an event. One byte buffer is
// reused, so that the whole domain can be run through.
type keyWant struct {
	buf  []byte
	ends []int
}

func (k *keyWant) reset()       { k.buf, k.ends = k.buf[:0], k.ends[:0] }
func (k *keyWant) done()        { k.ends = append(k.ends, len(k.buf)) }
func (k *keyWant) str(s string) { k.buf = append(k.buf, s...) }
func (k *keyWant) nothing()     { k.done() }
func (k *keyWant) lit(s string) { k.str(s); k.done() }
func (k *keyWant) char(c byte)  { k.buf = append(k.buf, c) }
func (k *keyWant) rune(r rune)  { k.buf = append(k.buf, string(r)...) }
func (k *keyWant) get(i int) []byte {
	lo := 0
	if i > 0 {
		lo = k.ends[i-1]
	}
	return k.buf[lo:k.ends[i]]
}
func (k *keyWant) num(n int) {
	if n >= 10 {
		k.num(n / 10)
	}
	k.char(byte('0' + n%10))
}
func (k *keyWant) has(b []byte) bool {
	for i := range k.ends {
		if string(k.get(i)) == string(b) {
			return true
		}
	}
	return false
}
func (k *keyWant) String() string {
	var s []string
	for i := range k.ends {
		s = append(s, fmt.Sprintf("%q", k.get(i)))
	}
	return strings.Join(s, " or ")
}

func evType(ev *tm.KeyEvent) int {
	if ev.Event == 0 {
		return evPress
	}
	return int(ev.Event)
}

// lower is the key code of a letter key. ok says that it is beyond doubt.
func lower(r rune) (rune, bool) {
	l := unicode.ToLower(r)
	if l == r {
		return r, true
	}
	return l, unicode.ToUpper(l) == r
}

// want lists the acceptable encodings of ev.
func (k *keyWant) want(ev *tm.KeyEvent, m keyMode) {
	k.reset()
	if m.flags == 0 {
		k.legacy(ev, ev.Code, ev.Rune, m)
		return
	}
	k.kitty(ev, m)
}

func (k *keyWant) legacy(ev *tm.KeyEvent, code tm.KeyCode, r rune, m keyMode) {
	if evType(ev) == evRel {
		k.nothing()
		return
	}
	mod := int(ev.Mod) &^ mLocks
	if code == tm.KeyRune {
		k.legacyRune(ev, r, mod, m)
		return
	}
	i := keyTable[code]
	switch {
	case i.eqCh != 0:
		k.legacyRune(ev, i.eqCh, mod, m)
	case i.eqKey != 0:
		k.legacy(ev, i.eqKey, 0, m)
	case i.mod:
		k.nothing()
	case i.lock:
		k.nothing()
		k.csi(i.num, mod, 'u')
	case i.c0 != 0:
		k.legacyC0(i, mod, m)
	case mod == 0 && (i.ss3 || i.app && m.app):
		final := i.final
		if i.name == "F3" {
			final = 'R'
		}
		k.str("\x1bO")
		k.char(final)
		k.done()
	default:
		n, final := i.num, i.final
		if i.leg != 0 {
			n, final = i.leg, '~'
		}
		k.csi(n, mod, final)
		if i.name == "F3" {
			k.str("\x1b[1;")
			k.num(1 + mod)
			k.lit("R")
		}
	}
}

// csi adds CSI n ; 1+mod final, leaving out what can be left out.
func (k *keyWant) csi(n, mod int, final byte) {
	k.str("\x1b[")
	if mod != 0 || n != 1 {
		k.num(n)
	}
	if mod != 0 {
		k.char(';')
		k.num(1 + mod)
	}
	k.char(final)
	k.done()
}

func (k *keyWant) legacyC0(i keyInfo, mod int, m keyMode) {
	if m.mok > 0 && mod != 0 {
		if i.name == "tab" && mod == mShift {
			k.lit("\x1b[Z")
			if m.mok == 2 {
				k.lit("\x1b[27;2;9~")
			}
			return
		}
		k.str("\x1b[27;")
		k.num(1 + mod)
		k.char(';')
		k.num(i.num)
		k.lit("~")
		if m.mok > 1 || mod != mAlt {
			return
		}
	}
	if mod&^(mShift|mAlt|mCtrl) != 0 || mod == mShift|mAlt|mCtrl {
		k.csi(i.num, mod, 'u')
		return
	}
	s := string(rune(i.c0))
	if i.name == "backspace" && mod&mCtrl != 0 {
		s = "\b"
	}
	if i.name == "tab" && mod&mShift != 0 {
		s = "\x1b[Z"
	}
	if mod&mAlt != 0 {
		s = "\x1b" + s
	}
	k.lit(s)
}

// ctrlOf is the table "Emulation of ctrl mapped keys".
func ctrlOf(r rune) (rune, bool) {
	if r >= 'A' && r <= 'Z' {
		r += 'a' - 'A'
	}
	if r >= 'a' && r <= 'z' {
		return r - 'a' + 1, true
	}
	if i := strings.IndexRune(" /023456789?@[\\]^_~", r); i >= 0 && r < 128 {
		return []rune{0, 31, '0', 0, 27, 28, 29, 30, 31, 127, '9', 127, 0, 27, 28, 29, 30, 31, 30}[i], true
	}
	return r, false
}

func shiftOf(ev *tm.KeyEvent, r rune) rune {
	if ev.Shifted != 0 {
		return ev.Shifted
	}
	return unicode.ToUpper(r)
}

func (k *keyWant) legacyRune(ev *tm.KeyEvent, r rune, mod int, m keyMode) {
	if m.mok > 0 && mod != 0 {
		k.str("\x1b[27;")
		k.num(1 + mod)
		k.char(';')
		k.num(int(r))
		k.lit("~")
		if mod&mShift != 0 && shiftOf(ev, r) != r {
			k.str("\x1b[27;")
			k.num(1 + mod)
			k.char(';')
			k.num(int(shiftOf(ev, r)))
			k.lit("~")
		}
		if mod == mShift {
			k.rune(shiftOf(ev, r))
			k.done()
		}
		if m.mok > 1 {
			return
		}
		// level 1 leaves alone what has a well-known encoding
		if _, ok := ctrlOf(r); mod&mCtrl != 0 && !ok || mod&^(mShift|mAlt|mCtrl) != 0 {
			return
		}
	}
	if mod&^(mShift|mAlt|mCtrl) != 0 {
		k.legacyU(r, mod)
		return
	}
	if mod&mCtrl != 0 {
		c, _ := ctrlOf(r)
		if r > 127 {
			k.legacyU(r, mod)
			return
		}
		if mod&mShift != 0 && (r != ' ' || mod&mAlt != 0) {
			k.legacyU(r, mod)
			return
		}
		r = c
	} else if mod&mShift != 0 {
		r = shiftOf(ev, r)
	}
	if mod&mAlt != 0 {
		k.char(27)
	}
	k.rune(r)
	k.done()
}

func (k *keyWant) legacyU(r rune, mod int) {
	l, sure := lower(r)
	k.csi(int(l), mod, 'u')
	if !sure {
		k.csi(int(r), mod, 'u')
	}
}

// kittyU adds CSI code:alternates ; mods:event ; text u
func (k *keyWant) kittyU(code int, mod int, ev *tm.KeyEvent, f int, text []rune) {
	k.str("\x1b[")
	k.num(code)
	if f&fAlt != 0 {
		sh := ev.Shifted
		if mod&mShift == 0 {
			sh = 0
		}
		if sh != 0 {
			k.char(':')
			k.num(int(sh))
		}
		if ev.BaseLayout != 0 {
			if sh == 0 {
				k.char(':')
			}
			k.char(':')
			k.num(int(ev.BaseLayout))
		}
	}
	event := evType(ev)
	if f&fEv == 0 {
		event = evPress
	}
	if mod != 0 || event != evPress || len(text) > 0 {
		k.char(';')
		k.num(1 + mod)
		if event != evPress {
			k.char(':')
			k.num(event)
		}
	}
	for i, r := range text {
		if i == 0 {
			k.char(';')
		} else {
			k.char(':')
		}
		k.num(int(r))
	}
	k.char('u')
	k.done()
}

func printable(t []rune) []rune {
	var out []rune
	for _, r := range t {
		if r >= 32 && (r < 127 || r > 159) {
			out = append(out, r)
		}
	}
	return out
}

// kittyKey adds the CSI u forms of a key with every acceptable text.
func (k *keyWant) kittyKey(code int, mod int, ev *tm.KeyEvent, f int, def rune) {
	if f&(fAll|fText) != fAll|fText || evType(ev) == evRel {
		k.kittyU(code, mod, ev, f, nil)
		return
	}
	if len(ev.Text) > 0 {
		k.kittyU(code, mod, ev, f, printable(ev.Text))
		return
	}
	if def == 0 {
		k.kittyU(code, mod, ev, f, nil)
		return
	}
	rest := mod &^ (mShift | mLocks)
	if rest != 0 || ev.Code != tm.KeyRune {
		k.kittyU(code, mod, ev, f, nil)
		if rest&mCtrl != 0 {
			return
		}
	}
	d := [1]rune{def}
	if mod&mShift != 0 {
		d[0] = shiftOf(ev, def)
	}
	k.kittyU(code, mod, ev, f, printable(d[:]))
	if mod&mCaps != 0 { // caps lock may have been applied, or not
		d[0] = unicode.ToUpper(def)
		k.kittyU(code, mod, ev, f, printable(d[:]))
		d[0] = def
		k.kittyU(code, mod, ev, f, printable(d[:]))
	}
}

func (k *keyWant) kitty(ev *tm.KeyEvent, m keyMode) {
	f := m.flags
	event := evType(ev)
	if event == evRel && f&fEv == 0 {
		k.nothing()
		return
	}
	mod := int(ev.Mod)
	noText := mod &^ (mShift | mLocks)
	canon := f&(fDis|fAll) != 0 // keys are told apart
	m.mok = 0
	if ev.Code == tm.KeyRune {
		k.kittyText(ev, ev.Rune, m, 0)
		return
	}
	i := keyTable[ev.Code]
	switch {
	case i.mod:
		if f&fAll != 0 {
			k.kittyKey(i.num, mod, ev, f, 0)
		} else {
			k.nothing()
		}
	case i.lock:
		k.kittyKey(i.num, mod, ev, f, 0)
		if f&fAll == 0 {
			k.nothing()
		}
	case i.eqCh != 0:
		k.kittyText(ev, i.eqCh, m, i.num)
	case i.eqKey != 0 && !canon:
		e := *ev
		e.Code = i.eqKey
		k.kitty(&e, m)
	case i.c0 != 0:
		if f&fAll != 0 || i.name == "escape" && f&fDis != 0 {
			k.kittyKey(i.num, mod, ev, f, 0)
			return
		}
		// these still generate the same bytes as in legacy mode
		if event == evRel {
			k.nothing()
			if i.name == "escape" || noText|mod&mShift != 0 {
				k.kittyKey(i.num, mod, ev, f, 0)
			}
			return
		}
		k.legacy(ev, ev.Code, 0, m)
		if mod&^mLocks != 0 && i.name != "escape" {
			k.kittyKey(i.num, mod, ev, f, 0)
		}
	case i.final == 'u':
		k.kittyKey(i.num, mod, ev, f, 0)
		if i.leg != 0 && !canon {
			k.functional(i.leg, '~', mod, event, f)
		}
	default:
		k.functional(i.num, i.final, mod, event, f)
		if i.kp { // KP_BEGIN has two forms
			k.functional(57427, '~', mod, event, f)
		}
		if !canon && event != evRel {
			// the legacy forms are still right
			k.legacy(ev, ev.Code, 0, m)
		}
	}
}

func (k *keyWant) functional(n int, final byte, mod, event, f int) {
	if f&fEv == 0 {
		event = evPress
	}
	k.str("\x1b[")
	if n != 1 || mod != 0 || event != evPress {
		k.num(n)
	}
	if mod != 0 || event != evPress {
		k.char(';')
		k.num(1 + mod)
		if event != evPress {
			k.char(':')
			k.num(event)
		}
	}
	k.char(final)
	k.done()
}

// kittyText is a key that produces text; kp is its keypad number.
func (k *keyWant) kittyText(ev *tm.KeyEvent, r rune, m keyMode, kp int) {
	f, mod := m.flags, int(ev.Mod)
	code, sure := kp, true
	if kp == 0 || f&(fDis|fAll) == 0 {
		var l rune
		l, sure = lower(r)
		code = int(l)
	}
	if f&fAll != 0 {
		k.kittyKey(code, mod, ev, f, r)
		if !sure {
			k.kittyKey(int(r), mod, ev, f, r)
		}
		return
	}
	mod &^= mLocks // not reported for keys that produce text
	if f&fDis != 0 && mod&^mShift != 0 {
		k.kittyU(code, mod, ev, f, nil)
		if !sure {
			k.kittyU(int(r), mod, ev, f, nil)
		}
		return
	}
	// what the legacy encoding would send, which has no release events
	csi := mod&^(mShift|mAlt|mCtrl) != 0 || mod&mCtrl != 0 && (r > 127 || mod&mShift != 0 && (r != ' ' || mod&mAlt != 0))
	if evType(ev) == evRel {
		k.nothing()
	} else {
		k.legacyRune(ev, r, mod, m)
	}
	if csi {
		k.kittyU(code, mod, ev, f, nil)
		if !sure {
			k.kittyU(int(r), mod, ev, f, nil)
		}
	}
}

// ---- decoding

// keyBack is what an escape code says about the key.
type keyBack struct {
	num        int
	final      byte
	mod, event int
	ss3        bool
	alts       [2]int
	text       string
	mok        bool
}

// decodeKey reads an escape code; ok is false when b is text.
func decodeKey(b []byte) (k keyBack, ok bool, err error) {
	if len(b) < 3 || b[0] != 27 || b[1] != '[' && b[1] != 'O' {
		return k, false, nil
	}
	k.event = evPress
	k.num = 1
	k.final = b[len(b)-1]
	if b[1] == 'O' {
		k.ss3 = true
		if len(b) != 3 || strings.IndexByte("ABCDEFHPQRS", b[2]) < 0 {
			return k, false, nil
		}
		return k, true, nil
	}
	if strings.IndexByte("ABCDEFHPQRSZu~", k.final) < 0 {
		return k, false, fmt.Errorf("%q ends in %q", b, k.final)
	}
	var parts [4][4]int
	np, ns, have := 0, 0, false
	var cnt [4]int
	for _, c := range b[2 : len(b)-1] {
		switch {
		case c >= '0' && c <= '9':
			if np < 4 && ns < 4 {
				parts[np][ns] = parts[np][ns]*10 + int(c-'0')
				have = true
			}
		case c == ':':
			ns++
		case c == ';':
			cnt[min(np, 3)] = ns + 1
			np++
			ns = 0
		default:
			return k, false, fmt.Errorf("%q has a %q in it", b, c)
		}
	}
	cnt[min(np, 3)] = ns + 1
	if np > 2 {
		return k, false, fmt.Errorf("%q has %d parameters", b, np+1)
	}
	if !have {
		return k, true, nil
	}
	k.num = parts[0][0]
	k.alts = [2]int{parts[0][1], parts[0][2]}
	if np >= 1 {
		k.mod = parts[1][0] - 1
		if cnt[1] > 1 {
			k.event = parts[1][1]
		}
	}
	if np >= 2 && k.final == 'u' {
		k.text = fmt.Sprint(parts[2][:min(cnt[2], 4)])
	}
	if np == 2 && k.final == '~' && k.num == 27 {
		k.mok = true
		k.num = parts[2][0]
	}
	return k, true, nil
}

// backTo checks that b says the key, modifiers and event of ev.
func backTo(b []byte, ev *tm.KeyEvent, m keyMode) error {
	k, ok, err := decodeKey(b)
	if err != nil || !ok {
		return err
	}
	if k.final == 'Z' {
		return nil
	}
	i, is := keyTable[ev.Code]
	r := ev.Rune
	if is {
		r = i.eqCh
	}
	okKey := func(n int) bool {
		if r != 0 {
			if l, _ := lower(r); n == int(l) || n == int(r) || k.mok && n == int(shiftOf(ev, r)) {
				return true
			}
		}
		if !is {
			return false
		}
		if n == i.num || i.leg != 0 && n == i.leg || i.name == "kpbegin" && n == 57427 || i.name == "F3" && (k.final == 'R') {
			return true
		}
		if i.eqKey != 0 {
			return n == keyTable[i.eqKey].num
		}
		return false
	}
	if !okKey(k.num) {
		return fmt.Errorf("%q says key %d", b, k.num)
	}
	if k.final != 'u' && k.final != '~' {
		j := i
		if i.eqKey != 0 {
			j = keyTable[i.eqKey]
		}
		if k.final != j.final && !(j.name == "F3" && k.final == 'R') {
			return fmt.Errorf("%q says final byte %c", b, k.final)
		}
	}
	mod := int(ev.Mod)
	if k.mod != mod && k.mod != mod&^mLocks {
		return fmt.Errorf("%q says modifiers %d", b, k.mod)
	}
	if m.flags&fAll != 0 && k.mod != mod {
		return fmt.Errorf("%q says modifiers %d", b, k.mod)
	}
	want := evType(ev)
	if m.flags&fEv == 0 {
		want = evPress
	}
	// Enter, Tab and Backspace generate the same bytes as in legacy mode
	legacy := m.flags&fAll == 0 && (m.flags&fDis == 0 || i.c0 != 0 && i.name != "escape" || i.eqCh != 0 && int(ev.Mod)&^(mShift|mLocks) == 0)
	if k.event != want && !legacy {
		return fmt.Errorf("%q says event %d", b, k.event)
	}
	return nil
}

// ---- running

// keyRun sends key events to a terminal in a mode.
type keyRun struct {
	c    *Check
	w    *worker
	d    *drv
	m    keyMode
	want keyWant
	n    int64
	uniq map[string]keyID
}

// keyID is what a program is told about an event.
type keyID struct {
	code  tm.KeyCode
	r     rune
	mod   tm.KeyMod
	event int
}

func (k keyID) String() string {
	return fmt.Sprintf("code %d rune %q mod %d event %d", k.code, k.r, k.mod, k.event)
}

func newKeyRun(c *Check, w *worker, m keyMode) *keyRun {
	d := newDrv(Config{W: 4, H: 2}, w)
	k := &keyRun{c: c, w: w, d: d, m: m}
	s := "key mode " + m.String()
	w.desc.Store(&s)
	if err := d.run(m.setup()); err != nil {
		c.fail(Violation{Config: d.cfg, What: s, Error: err.Error()}, nil)
		return nil
	}
	return k
}

func evString(ev *tm.KeyEvent) string {
	n := keyTable[ev.Code].name
	if n == "" {
		n = "rune"
	}
	return fmt.Sprintf("%s (code %d rune %q mod %d event %d shifted %q base %q text %q)", n, ev.Code, ev.Rune, ev.Mod, ev.Event, ev.Shifted, ev.BaseLayout, string(ev.Text))
}

func (k *keyRun) one(ev tm.KeyEvent) bool {
	k.n++
	err := k.try(&ev)
	if err == nil {
		return true
	}
	k.c.fail(Violation{Config: k.d.cfg, What: "encoding of a key event", Note: k.m.String() + ": " + evString(&ev), Error: err.Error()}, func() error {
		k2 := newKeyRun(k.c, newWorker(99), k.m)
		if k2 == nil {
			return err
		}
		if e := k2.try(&ev); e != nil || k.uniq == nil {
			return e
		}
		return err
	})
	return false
}

func (k *keyRun) try(ev *tm.KeyEvent) (err error) {
	defer func() {
		if p := recover(); p != nil {
			err = fmt.Errorf("panic: %v", p)
		}
	}()
	k.d.out = k.d.out[:0]
	n, e := k.d.t.SendKey(*ev)
	out := k.d.out
	k.want.want(ev, k.m)
	if !k.want.has(out) {
		return fmt.Errorf("sent %q, want %v", out, k.want.String())
	}
	if e != nil || n != len(out) {
		return fmt.Errorf("SendKey returned %d, %v after sending %d bytes", n, e, len(out))
	}
	if err := backTo(out, ev, k.m); err != nil {
		return err
	}
	if k.uniq != nil && len(out) > 2 && out[0] == 27 && out[1] == '[' {
		id := keyID{ev.Code, ev.Rune, ev.Mod, evType(ev)}
		if ev.Code != tm.KeyRune {
			id.r = 0
		}
		if k.m.flags&fEv == 0 {
			id.event = evPress
		}
		text := ev.Code == tm.KeyRune || keyTable[ev.Code].eqCh != 0
		if k.m.flags&fAll == 0 && (text || k.m.flags&fDis == 0) {
			id.mod &^= mLocks
		}
		if id.code == tm.KeyRune {
			id.r, _ = lower(id.r)
			if id.r == 27 || id.r == 13 || id.r == 9 || id.r == 127 {
				return nil // the code point of a key with a name of its own
			}
		}
		if i := keyTable[ev.Code]; i.c0 != 0 && k.m.flags&fAll == 0 && i.name != "escape" {
			return nil
		}
		if old, ok := k.uniq[string(out)]; ok {
			if old != id {
				return fmt.Errorf("%q stands for %v and for %v", out, old, id)
			}
		} else {
			k.uniq[string(out)] = id
		}
	}
	return nil
}

func allKeyModes() []keyMode {
	var out []keyMode
	for f := 0; f < 32; f++ {
		for mok := 0; mok < 3; mok++ {
			for b := 0; b < 4; b++ {
				out = append(out, keyMode{flags: f, mok: mok, app: b&1 != 0, keypad: b&2 != 0, alt: (f+mok+b)%2 == 1, push: (f/2+b)%2 == 1})
			}
		}
	}
	return out
}

func checkC12(c *Check) {
	modes := allKeyModes()
	var codes []tm.KeyCode
	for i := tm.KeyRune + 1; i <= tm.KeyISOLevel5Shift; i++ {
		codes = append(codes, i)
	}
	codes = slices.DeleteFunc(codes, func(k tm.KeyCode) bool { _, ok := keyTable[k]; return !ok })
	if len(codes) != 111 {
		panic(fmt.Sprintf("%d keys", len(codes)))
	}
	var mu sync.Mutex
	var total int64
	count := func(k *keyRun) {
		mu.Lock()
		total += k.n
		mu.Unlock()
	}
	// every key, modifier, event and mode; all ASCII characters likewise
	uniqSets := map[int]bool{}
	c.each(len(modes), func(w *worker, i int) {
		m := modes[i]
		k := newKeyRun(c, w, m)
		if k == nil {
			return
		}
		defer count(k)
		if m.flags&fDis != 0 || m.flags&fAll != 0 {
			if m.mok == 0 && !m.keypad && m.app == (m.flags&2 != 0) {
				k.uniq = map[string]keyID{}
				mu.Lock()
				uniqSets[m.flags] = true
				mu.Unlock()
			}
		}
		for mod := 0; mod < 256; mod++ {
			if c.expired() {
				return
			}
			for ev := tm.KeyEventType(0); ev <= 3; ev++ {
				for _, code := range codes {
					if !k.one(tm.KeyEvent{Code: code, Mod: tm.KeyMod(mod), Event: ev}) {
						return
					}
				}
				if ev == 0 && m.app || m.keypad && m.mok != 0 {
					continue
				}
				for r := rune(1); r < 128; r++ {
					if !k.one(tm.KeyEvent{Rune: r, Mod: tm.KeyMod(mod), Event: ev}) {
						return
					}
				}
			}
		}
		c.states.Add(1)
	})
	c.bound("111 keys and runes x 256 modifier sets x press, repeat, release and unset x 32 flag sets x modifyOtherKeys 0, 1, 2 x application cursor x keypad; the ASCII characters 1 to 127 x 256 x events x modes; %d modes, no two disambiguated events share an encoding in %d flag sets", len(modes), len(uniqSets))

	// alternates and text, with Rune also set for keys that do not use it
	type extra struct {
		sh, base rune
		text     string
	}
	var extras []extra
	for _, sh := range []rune{0, 'A', '!', 'É', 0x1F600} {
		for _, b := range []rune{0, 'c', 0x444} {
			for _, t := range []string{"", "x", "é€", "\x01", "a\x7f\u0085b", "\U0001F600"} {
				extras = append(extras, extra{sh, b, t})
			}
		}
	}
	keys := []tm.KeyEvent{{Rune: 'a'}, {Rune: 'A'}, {Rune: '1'}, {Rune: ' '}, {Rune: 'é'}, {Rune: 'ж'}, {Rune: 0x4E2D}, {Rune: 0x1F600}, {Rune: 27}, {Rune: 127}}
	for _, code := range codes {
		keys = append(keys, tm.KeyEvent{Code: code, Rune: 'q'})
	}
	mods := pick(c, []int{0, 1, 2, 3, 4, 5, 7, 8, 9, 64, 65, 128, 129, 132, 192, 255}, seqInts(256))
	c.each(len(modes), func(w *worker, i int) {
		m := modes[i]
		if m.keypad && m.mok != 0 {
			return
		}
		k := newKeyRun(c, w, m)
		if k == nil {
			return
		}
		defer count(k)
		for _, ev := range keys {
			for ei, e := range extras {
				if ev.Code != tm.KeyRune && ei%4 != 3 && !c.thorough() {
					continue
				}
				if c.expired() {
					return
				}
				for _, mod := range mods {
					for _, t := range []tm.KeyEventType{1, 2, 3} {
						ev.Shifted, ev.BaseLayout, ev.Text, ev.Mod, ev.Event = e.sh, e.base, []rune(e.text), tm.KeyMod(mod), t
						if e.text == "" {
							ev.Text = nil
						}
						if !k.one(ev) {
							return
						}
					}
				}
			}
		}
	})
	c.bound("alternates and text: %d keys x %d combinations x %d modifier sets x 3 events x flag sets", len(keys), len(extras), len(mods))

	// every code point
	var flagSets []keyMode
	for _, f := range pick(c, []int{0, 1, 3, 5, 8, 24, 31}, seqInts(32)) {
		flagSets = append(flagSets, keyMode{flags: f})
		if f == 0 {
			flagSets = append(flagSets, keyMode{mok: 1}, keyMode{mok: 2})
		}
	}
	rmods := pick(c, []int{0, 1, 2, 4, 7, 64}, []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 64, 128, 255})
	const parts = 34
	c.each(len(flagSets)*parts, func(w *worker, i int) {
		k := newKeyRun(c, w, flagSets[i/parts])
		if k == nil {
			return
		}
		defer count(k)
		lo := rune(i%parts) * 0x8000
		for r := max(lo, 1); r < lo+0x8000 && r <= 0x10FFFF; r++ {
			if r >= 0xD800 && r < 0xE000 {
				continue
			}
			if r&1023 == 0 && c.expired() {
				return
			}
			for _, mod := range rmods {
				if !k.one(tm.KeyEvent{Rune: r, Mod: tm.KeyMod(mod)}) {
					return
				}
			}
		}
	})
	c.bound("every code point x %d modifier sets x %d modes", len(rmods), len(flagSets))
	c.transitions.Add(total)
	c.traces.Add(total)
	c.sample(map[string]any{"mode": modes[77].String(), "event": evString(&tm.KeyEvent{Code: tm.KeyF3, Mod: 5, Event: 3})})
}

func seqInts(n int) []int {
	out := make([]int, n)
	for i := range out {
		out[i] = i
	}
	return out
}
