package main

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"strconv"
	"time"
)

type checkDef struct {
	level           string
	quick, thorough time.Duration // internal deadlines
	f               func(c *Check)
}

var checks = map[string]checkDef{}

func register(prop, level string, quick, thorough time.Duration, f func(c *Check)) {
	checks[prop] = checkDef{level, quick, thorough, f}
}

func main() {
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(20 << 30)
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: zzverif PROPERTY [quick|thorough] | replay FILE")
		os.Exit(2)
	}
	if os.Args[1] == "replay" {
		os.Exit(replay(os.Args[2]))
	}
	if os.Args[1] == "C15child" {
		os.Exit(child15(os.Args[2:]))
	}
	def, ok := checks[os.Args[1]]
	if !ok {
		fmt.Fprintln(os.Stderr, "no check for", os.Args[1])
		os.Exit(2)
	}
	tier := os.Getenv("VERIF_TIER")
	if len(os.Args) > 2 {
		tier = os.Args[2]
	}
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	c := &Check{Prop: os.Args[1], Tier: tier, Seed: seed, Level: def.level, start: time.Now()}
	c.deadline = c.start.Add(def.quick)
	if tier == "thorough" {
		c.deadline = c.start.Add(def.thorough)
	}
	if s := os.Getenv("VERIF_DEADLINE"); s != "" {
		if d, err := time.ParseDuration(s); err == nil {
			c.deadline = c.start.Add(d)
		}
	}
	go c.watch(func() { os.Exit(c.finish()) })
	runtime.GOMAXPROCS(min(8, runtime.NumCPU()))
	if p := os.Getenv("VERIF_PROFILE"); p != "" {
		f, _ := os.Create(p)
		_ = pprof.StartCPUProfile(f)
		defer f.Close()
		go func() { time.Sleep(25 * time.Second); pprof.StopCPUProfile(); f.Close() }()
	}
	def.f(c)
	os.Exit(c.finish())
}

// replay runs the history of a violation again and shows what happens.
func replay(file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var v Violation
	if err := json.Unmarshal(b, &v); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	fmt.Printf("property %s: %s\nconfig %v\n", v.Prop, v.What, v.Config)
	if len(v.Ops) == 0 {
		fmt.Printf("%q\n%s\n%s\n", v.Chunks, v.Note, v.Error)
		return 0
	}
	ops := opsOf(v.Ops...)
	d := newDrv(v.Config, nil)
	d.rec.shadow = true
	m := newModel(v.Config)
	d.onStep = func(i int) error {
		m.begin()
		ops[i].F(m)
		fmt.Printf("--- %s  %q\n", ops[i].Spec, ops[i].Bytes)
		_, h := d.t.Size()
		for y := 0; y < h; y++ {
			w, _ := d.t.Size()
			fmt.Printf("  %s\n", lineString(d.t.StyledLine(0, w, y)))
		}
		for y := range m.s().Rows {
			fmt.Printf("  model %s\n", cellsString(m.s().Rows[y]))
		}
		fmt.Printf("  cursor %d,%d model %d,%d\n", d.rec.cx, d.rec.cy, m.s().CX, m.s().CY)
		if err := d.compare(m, cmpAll|cmpText|cmpShadow|cmpLost); err != nil {
			fmt.Println("  !!", err)
		}
		return nil
	}
	if err := d.run(ops); err != nil {
		fmt.Println("!!", err)
	}
	return 0
}
