package termemu

// Overlaid into package termemu by /verif's checks, never committed there.

// VerifSync says that the read loop runs where VerifRun is called.
const VerifSync = true

// VerifNew builds a terminal whose read loop is not running.
func VerifNew(f Frontend, b Backend, mode TextReadMode, grid bool) Terminal {
	t := newTerminal(f, b, mode)
	if grid {
		verifGrid(t, f)
	}
	return t
}

// VerifRun runs the read loop in the calling goroutine.
func VerifRun(t Terminal) { t.(*terminal).ptyReadLoop() }
