package termemu

const VerifKeys = false

func VerifKeyboard(t Terminal) int { return -1 }
