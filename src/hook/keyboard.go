package termemu

const VerifKeys = true

// VerifKeyboard returns the keyboard flags of the active screen.
func VerifKeyboard(t Terminal) int { return t.(*terminal).keyboardFlags() }
