package termemu

// VerifState0 says that what the accessors do not show can be read.
const VerifState0 = true

// VerifMargins returns the scroll region of the active screen.
func VerifMargins(t Terminal) (int, int) {
	s := t.(*terminal).screen()
	return s.TopMargin(), s.BottomMargin()
}

// VerifOther runs f while read accessors show the inactive screen.
func VerifOther(t Terminal, f func()) {
	tt := t.(*terminal)
	tt.onAltScreen = !tt.onAltScreen
	defer func() { tt.onAltScreen = !tt.onAltScreen }()
	f()
}

// VerifState returns cursor, autowrap and style of the active screen.
func VerifState(t Terminal) (x, y int, wrap bool, st Style) {
	s := t.(*terminal).screen()
	p := s.CursorPos()
	return p.X, p.Y, s.AutoWrap(), s.Style()
}

func VerifOnAlt(t Terminal) bool { return t.(*terminal).onAltScreen }
