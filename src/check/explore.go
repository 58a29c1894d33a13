package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"hash/maphash"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	tm "github.com/ricochet1k/termemu"
)

// Check collects what a run of a property's check covered.
type Check struct {
	Prop     string
	Tier     string
	Seed     int64
	Level    string
	start    time.Time
	deadline time.Time

	states, transitions, traces atomic.Int64
	evals, distinct             atomic.Int64
	incomplete                  atomic.Bool
	cutBy                       sync.Map

	mu      sync.Mutex
	viol    *Violation
	samples []any
	bounds  []string
	extra   map[string]any
	stop    atomic.Bool
	workers []*worker
	seen    [256]map[h128]struct{} // states reached by scenarios
	seenMu  [256]sync.Mutex
	failMu  sync.Mutex // only one failing history is looked into
	pending *Violation // a violation that is being reproduced, since when
	since   time.Time
}

// Violation is a failing history.
type Violation struct {
	Prop   string   `json:"property"`
	Config Config   `json:"config"`
	Ops    []string `json:"ops,omitempty"`
	What   string   `json:"what"`
	Note   string   `json:"note,omitempty"`
	Error  string   `json:"error"`
	Chunks []string `json:"chunks,omitempty"`
}

// saw counts a state.
func (c *Check) saw(k h128) bool {
	i := k[0] % 256
	c.seenMu[i].Lock()
	defer c.seenMu[i].Unlock()
	if c.seen[i] == nil {
		c.seen[i] = map[h128]struct{}{}
	}
	if _, ok := c.seen[i][k]; ok {
		return false
	}
	c.seen[i][k] = struct{}{}
	return true
}

func (c *Check) thorough() bool { return c.Tier == "thorough" }

// pick is a for the quick tier and b for the thorough tier.
func pick[T any](c *Check, a, b T) T {
	if c.thorough() {
		return b
	}
	return a
}

func (c *Check) expired() bool {
	if c.stop.Load() {
		return true
	}
	if time.Now().After(c.deadline) {
		c.incomplete.Store(true)
		return true
	}
	return false
}

func (c *Check) sample(v any) {
	c.mu.Lock()
	if len(c.samples) < 12 {
		c.samples = append(c.samples, v)
	}
	c.mu.Unlock()
}

func (c *Check) bound(f string, a ...any) {
	c.mu.Lock()
	c.bounds = append(c.bounds, fmt.Sprintf(f, a...))
	c.mu.Unlock()
}

// fail records a violation after reproducing it.
func (c *Check) fail(v Violation, again func() error) {
	if again != nil {
		c.mu.Lock()
		if c.pending == nil {
			p := v
			p.Prop = c.Prop
			c.pending, c.since = &p, time.Now()
		}
		c.mu.Unlock()
		for i := 0; i < 3; i++ {
			if err := again(); err != nil {
				v.Error = err.Error()
			} else {
				c.mu.Lock()
				c.pending = nil
				c.mu.Unlock()
				fmt.Fprintf(os.Stderr, "not reproduced: %s\n", v.Error)
				c.mu.Lock()
				if c.extra == nil {
					c.extra = map[string]any{}
				}
				n, _ := c.extra["not_reproduced"].(int)
				c.extra["not_reproduced"] = n + 1
				c.mu.Unlock()
				return
			}
		}
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	v.Prop = c.Prop
	if c.viol == nil || len(v.Ops) > 0 && len(v.Ops) < len(c.viol.Ops) {
		c.viol = &v
	}
	c.stop.Store(true)
}

// parallel runs f on n workers.
func (c *Check) parallel(f func(w *worker)) {
	n := runtime.GOMAXPROCS(0)
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		w := newWorker(i)
		c.mu.Lock()
		c.workers = append(c.workers, w)
		c.mu.Unlock()
		wg.Add(1)
		go func() {
			defer wg.Done()
			f(w)
			w.end()
		}()
	}
	wg.Wait()
}

// each runs f for every i in 0..n-1, in parallel.
func (c *Check) each(n int, f func(w *worker, i int)) {
	var next atomic.Int64
	c.parallel(func(w *worker) {
		for !c.expired() {
			i := int(next.Add(1)) - 1
			if i >= n {
				return
			}
			f(w, i)
		}
	})
}

// watch reports a run that does not end.
func (c *Check) watch(finish func()) {
	for {
		time.Sleep(2 * time.Second)
		c.mu.Lock()
		ws := append([]*worker(nil), c.workers...)
		slow := c.pending != nil && time.Since(c.since) > 100*time.Second
		if slow && c.viol == nil {
			c.viol = c.pending
		}
		c.mu.Unlock()
		if slow {
			finish()
		}
		for _, w := range ws {
			since := w.since.Load()
			if since == 0 || time.Since(time.Unix(0, since)) < 90*time.Second {
				continue
			}
			d := w.cur.Load()
			v := Violation{Prop: c.Prop, Error: "no progress for 90 s: the read loop is stuck"}
			if d != nil {
				v.Config = d.cfg
				v.Ops = specs(d.ops)
			}
			if s := w.desc.Load(); s != nil {
				v.What = *s
			}
			c.mu.Lock()
			c.viol = &v
			c.mu.Unlock()
			finish()
		}
	}
}

// ---- breadth-first search over the product of model and implementation

type node struct {
	parent *node
	op     int16
	depth  int16
	m      *Model
}

func (n *node) hist(ops []*Op) []*Op {
	if n == nil || n.parent == nil {
		return nil
	}
	return append(n.parent.hist(ops), ops[n.op])
}

// Search is a bounded search.
type Search struct {
	Name   string
	Cfg    Config
	Init   []*Op // how the initial state is reached
	Ops    []*Op
	Depth  int
	States int // most states to keep
	What   int
	Shadow bool
	// Enabled says which operations are part of the domain in a state
	Enabled   func(m *Model, o *Op) bool
	Extra     func(d *drv, m *Model) error // more to check in a state
	ModelOnly bool                         // identify states by the model alone, not with all that the terminal keeps
	OnState   func(n *node)
	// Step replaces the comparison with the model: it runs the operations and
	// judges the last one
	Step func(w *worker, ops []*Op, m *Model) (key string, err error)
}

// errSkip says that an operation is outside of the domain.
var errSkip = errors.New("outside of the domain")

var hseed = maphash.MakeSeed()
var hseed2 = maphash.MakeSeed()

type h128 [2]uint64

func hashOf(s string) h128 { return h128{maphash.String(hseed, s), maphash.String(hseed2, s)} }

// replayOne runs ops and compares at the end of each step from checkFrom on.
func (c *Check) replayOne(w *worker, cfg Config, ops []*Op, m0 *Model, checkFrom int, what int, shadow bool, extra func(*drv, *Model) error) (*drv, *Model, error) {
	d := newDrv(cfg, w)
	d.rec.shadow = shadow
	m := m0
	if m == nil {
		m = newModel(cfg)
	}
	step := func(i int) error {
		if i < checkFrom {
			if m0 == nil {
				m.begin()
				ops[i].F(m)
				if m.Resized {
					// adopt the margins the implementation chose
					if err := d.cmpScr(m, m.s(), cmpMargins|cmpContent); err != nil {
						return err
					}
				}
			}
			d.rec.lost = nil
			return nil
		}
		m.begin()
		ops[i].F(m)
		if err := d.compare(m, what); err != nil {
			return err
		}
		if extra != nil {
			return extra(d, m)
		}
		return nil
	}
	d.onStep = step
	err := d.run(ops)
	return d, m, err
}

// search explores until the state space closes, or a bound is reached.
func (c *Check) search(s Search) {
	if c.stop.Load() || s.Cfg.Grid && !tm.VerifGrid {
		return
	}
	if s.Depth == 0 {
		s.Depth = 1 << 14
	}
	if s.States == 0 {
		s.States = 1 << 40
	}
	const shards = 256
	var seen [shards]map[h128]struct{}
	var locks [shards]sync.Mutex
	for i := range seen {
		seen[i] = map[h128]struct{}{}
	}
	var count atomic.Int64
	add := func(k h128) bool {
		i := k[0] % shards
		locks[i].Lock()
		defer locks[i].Unlock()
		if _, ok := seen[i][k]; ok {
			return false
		}
		seen[i][k] = struct{}{}
		count.Add(1)
		return true
	}
	m := newModel(s.Cfg)
	root := &node{m: m, op: -1}
	if len(s.Init) > 0 {
		_, m1, err := c.replayOne(nil, s.Cfg, s.Init, nil, 0, s.What, s.Shadow, s.Extra)
		if err != nil {
			c.fail(Violation{Config: s.Cfg, Ops: specs(s.Init), What: s.Name, Error: err.Error()}, nil)
			return
		}
		m1.begin()
		root.m = m1
	}
	var b strings.Builder
	root.m.key(&b)
	add(hashOf(b.String()))
	frontier := []*node{root}
	depth := 0
	closed, cut := false, false
	var ntrans int64
	for ; depth < s.Depth && len(frontier) > 0; depth++ {
		var next []*node
		var nmu sync.Mutex
		var idx atomic.Int64
		const batch = 8
		c.parallel(func(w *worker) {
			var local []*node
			var trans int64
			for {
				lo := int(idx.Add(batch)) - batch
				if lo >= len(frontier) || c.expired() {
					break
				}
				for _, n := range frontier[lo:min(lo+batch, len(frontier))] {
					if c.stop.Load() {
						break
					}
					hist := append(append([]*Op(nil), s.Init...), n.hist(s.Ops)...)
					for oi, o := range s.Ops {
						if s.Enabled != nil && !s.Enabled(n.m, o) {
							continue
						}
						ops := append(hist[:len(hist):len(hist)], o)
						m2 := n.m.clone()
						var key string
						extra := func(d *drv, m *Model) error {
							if s.Extra != nil {
								if err := s.Extra(d, m); err != nil {
									return err
								}
							}
							w.buf.Reset()
							m.key(&w.buf)
							if !s.ModelOnly {
								d.deepKey(&w.buf)
							}
							key = w.buf.String()
							return nil
						}
						var m3 *Model
						var err error
						if s.Step != nil {
							m3 = m2
							m3.begin()
							o.F(m3)
							key, err = s.Step(w, ops, m3)
						} else {
							_, m3, err = c.replayOne(w, s.Cfg, ops, m2, len(ops)-1, s.What, s.Shadow, extra)
						}
						if err == errSkip {
							continue
						}
						trans++
						if err != nil && s.Step != nil {
							c.fail(Violation{Config: s.Cfg, Ops: specs(ops), What: s.Name, Error: err.Error()}, func() error {
								_, err := s.Step(nil, ops, m3)
								return err
							})
							break
						}
						if err != nil {
							c.fail(Violation{Config: s.Cfg, Ops: specs(ops), What: s.Name, Error: err.Error()}, func() error {
								_, _, err := c.replayOne(nil, s.Cfg, ops, nil, 0, s.What, s.Shadow, s.Extra)
								if err == nil {
									_, _, err = c.replayOne(nil, s.Cfg, ops, n.m.clone(), len(ops)-1, s.What, s.Shadow, s.Extra)
								}
								return err
							})
							break
						}
						if int(count.Load()) < s.States && add(hashOf(key)) {
							m3.begin()
							nn := &node{parent: n, op: int16(oi), depth: n.depth + 1, m: m3}
							local = append(local, nn)
							if s.OnState != nil {
								s.OnState(nn)
							}
						}
					}
				}
			}
			nmu.Lock()
			next = append(next, local...)
			ntrans += trans
			nmu.Unlock()
		})
		if c.stop.Load() {
			break
		}
		if c.expired() {
			cut = true
			break
		}
		frontier = next
	}
	closed = len(frontier) == 0 && int(count.Load()) < s.States
	full := !cut && int(count.Load()) < s.States
	if !closed {
		c.incomplete.Store(c.incomplete.Load() || int(count.Load()) >= s.States)
	}
	c.states.Add(count.Load())
	c.transitions.Add(ntrans)
	c.traces.Add(ntrans)
	c.bound("%s %v: %d operations, %d states, %d transitions, depth %d, every sequence to that depth: %v, closed: %v",
		s.Name, s.Cfg, len(s.Ops), count.Load(), ntrans, depth, full, closed)
	if len(frontier) > 0 {
		c.sample(map[string]any{"search": s.Name, "config": s.Cfg.String(), "ops": specs(frontier[len(frontier)/2].hist(s.Ops))})
	}
}

// scenarios runs every listed sequence, comparing after each step from the
// given one on.
type scenario struct {
	cfg  Config
	ops  []*Op
	from int
}

func (c *Check) scenarios(name string, n int, gen func(i int) scenario, what int, shadow bool, extra func(*drv, *Model) error) {
	if c.stop.Load() {
		return
	}
	var done atomic.Int64
	var steps atomic.Int64
	c.each(n, func(w *worker, i int) {
		sc := gen(i)
		if sc.cfg.Grid && !tm.VerifGrid {
			return
		}
		d, _, err := c.replayOne(w, sc.cfg, sc.ops, nil, sc.from, what, shadow, func(d *drv, m *Model) error {
			w.buf.Reset()
			fmt.Fprint(&w.buf, sc.cfg)
			m.key(&w.buf)
			c.saw(hashOf(w.buf.String()))
			if extra != nil {
				return extra(d, m)
			}
			return nil
		})
		done.Add(1)
		steps.Add(int64(len(sc.ops) - sc.from))
		if i == n/2 || i == n/7 {
			c.sample(map[string]any{"scenario": name, "config": sc.cfg.String(), "ops": specs(sc.ops)})
		}
		if err != nil {
			c.failMu.Lock()
			defer c.failMu.Unlock()
			if c.stop.Load() {
				return
			}
			ops := c.shrink(sc, d.pos, what, shadow, extra)
			c.fail(Violation{Config: sc.cfg, Ops: specs(ops), What: name, Error: err.Error()}, func() error {
				_, _, err := c.replayOne(nil, sc.cfg, ops, nil, sc.from, what, shadow, extra)
				return err
			})
		}
	})
	c.transitions.Add(steps.Load())
	c.traces.Add(done.Load())
	c.bound("%s: %d of %d scenarios, %d compared steps", name, done.Load(), n, steps.Load())
}

// shrink cuts a failing sequence after the step that failed, the pos-th.
func (c *Check) shrink(sc scenario, pos int, what int, shadow bool, extra func(*drv, *Model) error) []*Op {
	if pos >= len(sc.ops) {
		return sc.ops
	}
	if _, _, err := c.replayOne(nil, sc.cfg, sc.ops[:pos], nil, sc.from, what, shadow, extra); err != nil {
		return sc.ops[:pos]
	}
	return sc.ops
}

// ---- evidence

func (c *Check) finish() int {
	dir := os.Getenv("VERIF_DIR")
	if dir == "" {
		dir = "/verif"
	}
	ev := filepath.Join(dir, "evidence")
	_ = os.MkdirAll(ev, 0o755)
	c.mu.Lock()
	defer c.mu.Unlock()
	sort.Strings(c.bounds)
	cov := map[string]any{}
	for k, v := range c.extra {
		cov[k] = v
	}
	if c.samples == nil {
		c.samples = []any{}
	}
	cov["samples"] = c.samples
	cov["bounds"] = c.bounds
	cov["exhaustive"] = !c.incomplete.Load() && c.viol == nil
	switch c.Level {
	case "model_checking":
		for i := range c.seen {
			c.states.Add(int64(len(c.seen[i])))
		}
		cov["states"] = c.states.Load()
		cov["transitions"] = c.transitions.Load()
		cov["traces_validated_against_impl"] = c.traces.Load()
	default:
		cov["evaluations"] = c.evals.Load()
		cov["distinct_nontrivial"] = c.distinct.Load()
	}
	cov["hook"] = map[string]bool{"synchronous read loop": tm.VerifSync, "grid buffer": tm.VerifGrid, "state behind the accessors": tm.VerifState0}
	n := 0
	if c.viol != nil {
		n = 1
	}
	out := map[string]any{
		"property": c.Prop, "tier": c.Tier, "seed": c.Seed, "level": c.Level,
		"coverage": cov, "wall_s": time.Since(c.start).Seconds(), "violations": n,
		"assumptions": []string{"the reference model in src/check/model.go states the property", "bounds as listed in coverage.bounds"},
	}
	b, _ := json.MarshalIndent(out, "", " ")
	_ = os.WriteFile(filepath.Join(ev, c.Prop+".json"), append(b, '\n'), 0o644)
	if c.viol == nil {
		for _, s := range c.bounds {
			fmt.Println(s)
		}
		fmt.Printf("%s held: %.1fs\n", c.Prop, time.Since(c.start).Seconds())
		return 0
	}
	rp := filepath.Join(ev, "replay")
	_ = os.MkdirAll(rp, 0o755)
	file := filepath.Join(rp, c.Prop+".json")
	b, _ = json.MarshalIndent(c.viol, "", " ")
	_ = os.WriteFile(file, append(b, '\n'), 0o644)
	fmt.Printf("%s\nconfig %v\nops %q\n", c.viol.What, c.viol.Config, c.viol.Ops)
	for _, s := range c.viol.Chunks {
		fmt.Printf("chunk %q\n", s)
	}
	if c.viol.Note != "" {
		fmt.Println("case", c.viol.Note)
	}
	fmt.Println(c.viol.Error)
	fmt.Printf("VIOLATION property=%s replay=%s\n", c.Prop, file)
	return 1
}

type atomicCount struct{ n atomic.Int64 }

func (a *atomicCount) add(n int64) { a.n.Add(n) }
func (a *atomicCount) get() int64  { return a.n.Load() }
