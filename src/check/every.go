package main

import (
	"strings"
	"unicode/utf8"

	"github.com/rivo/uniseg"
)

// Every character there is: rows in which each code point that may be printed
// appears once.

// everyRows lists the rows, with n code points each.
func everyRows(n int, between string) []string {
	var out []string
	var b strings.Builder
	k := 0
	flush := func() {
		if k > 0 {
			out = append(out, b.String()+between)
			b.Reset()
			k = 0
		}
	}
	for r := rune(0xa0); r <= utf8.MaxRune; r++ {
		if r >= 0xd800 && r < 0xe000 { // surrogates are not encoded
			continue
		}
		if between != "" && isMark(r) && uniseg.GraphemeClusterCount(between+string(r)) > 1 {
			continue // a mark newer than the tables of package uniseg
		}
		b.WriteString(between)
		b.WriteRune(r)
		if k++; k == n {
			flush()
		}
	}
	flush()
	return out
}

const everyW, everyH = 160, 24

// everyOps cuts the rows into screens of everyW x everyH.
func everyOps(grapheme bool) [][]*Op {
	rows := everyRows(64, map[bool]string{true: "x", false: ""}[grapheme])
	var out [][]*Op
	for len(rows) > 0 {
		var s []*Op
		for y := 0; y < everyH && len(rows) > 0; y++ {
			s = append(s, moveTo(0, y), text(rows[0]))
			rows = rows[1:]
		}
		out = append(out, s)
	}
	return out
}

// every compares the screens that show every character.
func (c *Check) every(cfgs []Config, what int, shadow bool, after []*Op, extra func(*drv, *Model) error) {
	for _, cfg := range cfgs {
		cfg.W, cfg.H = everyW, everyH
		all := everyOps(cfg.Grapheme)
		c.scenarios("every character, "+cfg.String(), len(all), func(i int) scenario {
			s := append([]*Op{op("m 4 31")}, seq(all[i]...))
			return scenario{cfg, append(s, after...), 1}
		}, what, shadow, extra)
	}
}
