package termemu

// VerifGrid says that terminals on the grid buffer can be made.
const VerifGrid = true

func verifGrid(t Terminal, f Frontend) {
	tt := t.(*terminal)
	tt.mainScreen = newGridScreen(f)
	tt.altScreen = newGridScreen(f)
	tt.SetFrontend(f)
}
