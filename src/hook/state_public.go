package termemu

const VerifState0 = false

func VerifMargins(t Terminal) (int, int) { return -1, -1 }

func VerifOther(t Terminal, f func()) {}

func VerifState(t Terminal) (x, y int, wrap bool, st Style) { return -1, -1, false, Style{} }

func VerifOnAlt(t Terminal) bool { return false }
