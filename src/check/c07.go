package main

import (
	"fmt"
	"time"
)

func init() {
	register("C07", "model_checking", 200*time.Second, 40*time.Minute, c07)
}

func sgr(p ...int) string {
	s := "m"
	for _, n := range p {
		if n < 0 {
			s += " -"
		} else {
			s += fmt.Sprintf(" %d", n)
		}
	}
	return s
}

// styleSet is a set of renditions that differ in as little as possible.
func styleSet() []string {
	out := []string{"m"}
	for i := 0; i < 8; i++ {
		out = append(out, sgr(30+i), sgr(40+i), sgr(90+i), sgr(100+i))
	}
	for _, n := range []int{0, 1, 7, 8, 9, 15, 16, 255} {
		out = append(out, sgr(38, 5, n), sgr(48, 5, n), sgr(38, 2, 0, 0, n), sgr(48, 2, 0, 0, n), sgr(38, 2, n, 0, 0), sgr(48, 2, 0, n, 0))
	}
	out = append(out, sgr(38, 2, 0, 1, 0), sgr(38, 2, 0, 2, 0), sgr(48, 2, 0, 2, 7), sgr(38, 2, 255, 255, 255), sgr(38, 2, 1, 2, 3), sgr(48, 2, 127, 128, 129))
	for _, n := range []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 21, 51, 52, 53} {
		out = append(out, sgr(n), sgr(n, 31))
	}
	return append(out, sgr(1, 7, 53), sgr(2, 8, 52), sgr(1, 2, 3, 4, 5, 6, 7, 8, 9, 21, 51, 52, 53, 97, 48, 2, 9, 8, 7))
}

// sgrLists is every short list over codes, and long lists built around each.
func sgrLists(c *Check) [][]int {
	var out [][]int
	known := []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 21, 22, 23, 24, 25, 27, 28, 29, 51, 52, 53, 54, 55, 30, 34, 37, 39, 40, 43, 47, 49, 90, 97, 100, 107}
	for i := 0; i <= 300; i++ {
		out = append(out, []int{i})
	}
	out = append(out, nil, []int{-1}, []int{65536}, []int{1 << 24})
	for a := 0; a < 110; a++ {
		for b := 0; b < 110; b++ {
			out = append(out, []int{a, b})
		}
	}
	ext := [][]int{{38}, {48}, {38, 5}, {48, 5}, {38, 2}, {38, 2, 1}, {48, 2, 1, 2}, {38, 3, 1}, {48, 0}}
	for n := 0; n < 256; n++ {
		ext = append(ext, []int{38, 5, n}, []int{48, 5, n}, []int{38, 2, n, 1, 2}, []int{48, 2, 1, n, 2}, []int{38, 2, 1, 2, n}, []int{48, 2, n, n, 255 - n})
	}
	for _, e := range ext {
		out = append(out, e)
	}
	// extended colours before, after and between other parameters
	few := [][]int{{38, 5, 9}, {48, 5, 200}, {38, 2, 1, 2, 3}, {48, 2, 4, 5, 6}, {38, 2, 38, 48, 5}, {38, 5, 38}, {48, 5, 48}, {38, 5}, {38, 2, 9, 9}, {48}, {38, 9}, {-1}}
	for _, e := range few {
		for _, k := range known {
			out = append(out, append([]int{k}, e...), append(append([]int(nil), e...), k))
			for _, f := range few {
				out = append(out, append(append(append([]int(nil), e...), k), f...), append(append([]int{k}, e...), f...))
			}
		}
	}
	// every length up to 40 and longer ones, with each extended form ending at every place
	var lengths []int
	for n := 1; n <= 40; n++ {
		lengths = append(lengths, n)
	}
	lengths = append(lengths, 55, 56, 57, 63, 64, 65, 99, 100, 101, 126, 127, 128, 129, 200, 254, 255, 256, 257, 511, 512, 1000, 1023, 1024, 1025, 4096)
	for _, n := range lengths {
		for _, pad := range [][]int{{0}, {1}, {1, 22}, {31, 1, 39, 4}, {7, 0}} {
			l := make([]int, n)
			for i := range l {
				l[i] = pad[i%len(pad)]
			}
			out = append(out, l)
			for _, e := range few {
				out = append(out, append(append([]int(nil), l...), e...), append(append(append([]int(nil), l...), e...), 53, 9))
			}
		}
	}
	if c.thorough() {
		for _, a := range known {
			for _, b := range known {
				for _, d := range known {
					out = append(out, []int{a, b, d})
				}
			}
		}
	}
	return out
}

func c07(c *Check) {
	what := cmpAll | cmpText
	c.real(func(cfg Config) []*Op { return opsOf(styleSet()...) }, what, false, nil)
	lists := sgrLists(c)
	starts := []string{"m", sgr(1, 2, 3, 4, 5, 6, 7, 8, 9, 21, 51, 52, 53, 97, 103), sgr(38, 2, 250, 251, 252, 48, 5, 77)}
	for _, cfg := range []Config{{W: 3, H: 2}, {W: 3, H: 2, Grid: true}} {
		c.scenarios("every SGR list", len(lists)*len(starts), func(i int) scenario {
			return scenario{cfg, opsOf(`t "abc"`, starts[i%len(starts)], "H 1 2", sgr(lists[i/len(starts)]...), `t "x"`, "H 2 1", "X 2", `t "中"`, sgr(), `t "z"`), 3}
		}, what, false, nil)
		// every style over every style, by every way of writing
		st := styleSet()
		ways := []string{`t "b"`, `t " "`, `t "xy"`, `t "中"`, "X", "X 2", "K", "K 1", "P", "J 1", "L", "T", `t "\xff"`}
		c.scenarios("styles over styles", len(st)*len(st)*len(ways), func(i int) scenario {
			a, b, w := st[i%len(st)], st[i/len(st)%len(st)], ways[i/len(st)/len(st)]
			prev := `t "abc"`
			if len(w)%2 == 0 {
				prev = "K 2"
			}
			return scenario{cfg, opsOf(a, prev, "H 1 2", "m", b, w, "H 1 2", `t "b"`, a, "H 1 1", `t "a"`), 4}
		}, what, false, nil)
	}
	// the whole space of modes, and of colours
	draw := func(s string) string { return s + ` | H | t "x" | K` }
	var modes, cols []string
	for _, n := range []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 21, 22, 23, 24, 25, 27, 28, 29, 51, 52, 53, 54, 55} {
		modes = append(modes, draw(sgr(n)))
	}
	for _, n := range []int{0, 1, 8, 30, 31, 37, 39, 40, 41, 47, 49, 90, 91, 97, 100, 101, 107, 22, 28} {
		cols = append(cols, draw(sgr(n)))
	}
	for _, k := range []int{38, 48} {
		for _, n := range []int{0, 1, 7, 8, 255} {
			cols = append(cols, draw(sgr(k, 5, n)), draw(sgr(k, 2, 0, 0, n)), draw(sgr(k, 2, n, 0, 0)))
		}
		cols = append(cols, draw(sgr(k, 2, 0, 1, 0)), draw(sgr(k, 2, 0, 2, 1)), draw(sgr(k, 2, 255, 255, 255)))
	}
	c.search(Search{Name: "all modes", Cfg: Config{W: 2, H: 1}, Ops: opsOf(modes...), What: what})
	c.search(Search{Name: "all colours", Cfg: Config{W: 2, H: 1}, Ops: opsOf(cols...), What: what})
	c.search(Search{Name: "all colours", Cfg: Config{W: 2, H: 1, Grid: true}, Ops: opsOf(cols...), What: what})
	// style changes between writes to a row made of runs
	var mix []string
	for _, s := range []string{"m", "m 1", "m 31", "m 91", "m 38 2 0 0 1", "m 41", "m 22", "m 7"} {
		for _, w := range []string{`H 1 1 | t "a"`, `H 1 2 | t "ab"`, `H 1 3 | t "a"`, "H 1 2 | X", "H 1 2 | P"} {
			mix = append(mix, s+" | "+w)
		}
	}
	c.search(Search{Name: "runs of styles", Cfg: Config{W: 3, H: 1}, Ops: opsOf(mix...), What: what, Depth: pick(c, 3, 5), States: pick(c, 25000, 1500000)})
}
