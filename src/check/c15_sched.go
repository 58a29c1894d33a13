//go:build verifsched

package main

import (
	"runtime"
	"sync"
	"unsafe"
)

// A controlled scheduler. Package sync is built with hooks in Mutex and
// RWMutex, so every acquisition of a lock by a controlled thread is a
// scheduling point, and so are the calls of the backend, of the tee and,
// where wanted, of the frontend. One thread runs at a time; the others spin in
// functions the race detector does not see, so that the schedule itself adds
// no happens-before edges and the detector judges the code's own locking.

const (
	tReady = iota
	tBlocked
	tDone
	tExternal // blocked in something that is not controlled
)

type sthread struct {
	goid uint64
	st   int
	wait unsafe.Pointer
	wake bool
}

type choice struct {
	n, chosen uint8
	cost      bool // an alternative preempts a thread that could go on
}

type sowner struct {
	m unsafe.Pointer
	t int
}

type sched struct {
	thr    [4]sthread
	n      int
	cur    int
	plan   [4096]uint8
	nplan  int
	rec    [4096]choice
	nrec   int
	steps  int
	over   bool // more choices than are kept
	stray  bool // the plan did not fit
	dead   bool
	own    [16]sowner
	learn  bool // remember the next mutex
	termMu unsafe.Pointer
}

const haveSched = true

var theSched *sched

func newSched() *sched {
	s := &sched{}
	return s
}

// install makes s get the hooks. No controlled thread may exist.
func (s *sched) install() {
	theSched = s
	sync.VerifHook = &sync.VerifHooks{Acquire: schedAcquire, Release: schedRelease}
}

//go:norace
func schedAcquire(id unsafe.Pointer, try func() bool) bool {
	s := theSched
	if s.learn {
		s.termMu = id
		s.learn = false
	}
	if uintptr(id) < 0xc000000000 {
		return false // a global of the runtime library
	}
	t := s.self()
	if t < 0 {
		return false
	}
	s.point(t)
	for !try() {
		s.thr[t].st = tBlocked
		s.thr[t].wait = id
		s.thr[t].wake = false
		s.pick(t)
		s.await(t)
	}
	for i := range s.own {
		if s.own[i].m == nil || s.own[i].m == id {
			s.own[i].m = id
			s.own[i].t = t
			break
		}
	}
	return true
}

//go:norace
func schedRelease(id unsafe.Pointer) {
	s := theSched
	for i := 0; i < s.n; i++ {
		if s.thr[i].st == tBlocked && s.thr[i].wait == id {
			s.thr[i].wake = true
		}
	}
	for i := range s.own {
		if s.own[i].m == id {
			s.own[i].t = -1
		}
	}
}

// owns reports whether thread t holds the terminal's lock.
//
//go:norace
func (s *sched) owns(t int) bool {
	for i := range s.own {
		if s.own[i].m == s.termMu && s.termMu != nil {
			return s.own[i].t == t
		}
	}
	return false
}

//go:norace
func (s *sched) self() int {
	g := runtime.VerifGoid()
	for i := 0; i < s.n; i++ {
		if s.thr[i].goid == g {
			return i
		}
	}
	return -1
}

// here is a scheduling point of the calling thread.
//
//go:norace
func (s *sched) here() {
	if t := s.self(); t >= 0 {
		s.point(t)
	}
}

//go:norace
func (s *sched) point(t int) {
	s.steps++
	if s.thr[t].st == tExternal {
		// others were let run meanwhile
		s.thr[t].st = tReady
		if s.cur == -3 {
			s.cur = t
		}
		s.await(t)
		return
	}
	s.pick(t)
	s.await(t)
}

//go:norace
func (s *sched) enabled(i int) bool {
	return s.thr[i].st == tReady || s.thr[i].st == tBlocked && s.thr[i].wake
}

// pick chooses the thread that goes on; t is the one that ran.
//
//go:norace
func (s *sched) pick(t int) {
	var alt [4]int
	n := 0
	if t >= 0 && s.enabled(t) {
		alt[0] = t
		n = 1
	}
	for i := 0; i < s.n; i++ {
		if i != t && s.enabled(i) {
			alt[n] = i
			n++
		}
	}
	if n == 0 {
		done, ext := true, false
		for i := 0; i < s.n; i++ {
			done = done && s.thr[i].st == tDone
			ext = ext || s.thr[i].st == tExternal
		}
		switch {
		case done:
			s.cur = -1
		case ext:
			s.cur = -3
		default:
			s.dead = true
			s.cur = -2
		}
		return
	}
	k := 0
	if n > 1 {
		if s.nrec < s.nplan {
			k = int(s.plan[s.nrec])
			if k >= n {
				s.stray = true
				k = 0
			}
		}
		if s.nrec < len(s.rec) {
			s.rec[s.nrec] = choice{uint8(n), uint8(k), t >= 0 && s.enabled(t)}
			s.nrec++
		} else {
			s.over = true
		}
	}
	s.cur = alt[k]
}

//go:norace
func (s *sched) await(t int) {
	for s.cur != t {
		runtime.Gosched()
	}
	s.thr[t].st = tReady
}

//go:norace
func (s *sched) enter(t int) {
	s.thr[t].goid = runtime.VerifGoid()
	s.await(t)
}

//go:norace
func (s *sched) leave(t int) {
	s.steps++
	s.thr[t].st = tDone
	if s.cur == t || s.cur == -3 {
		s.pick(-1)
	}
}

//go:norace
func (s *sched) reset(n int, plan []choice) {
	s.n = n
	for i := range s.thr {
		s.thr[i] = sthread{}
	}
	for i := range s.own {
		s.own[i] = sowner{}
	}
	s.nplan = len(plan)
	for i := range plan {
		s.plan[i] = plan[i].chosen
	}
	s.nrec, s.steps = 0, 0
	s.over, s.stray, s.dead = false, false, false
	s.cur = -4
}

//go:norace
func (s *sched) begin() {
	// every thread must have told its goroutine
	for {
		ok := true
		for i := 0; i < s.n; i++ {
			ok = ok && s.thr[i].goid != 0
		}
		if ok {
			break
		}
		runtime.Gosched()
	}
	s.pick(-1)
}

// stuck tells whether a thread has made no step for a while, and lets the
// others go on.
//
//go:norace
func (s *sched) unstick() {
	c := s.cur
	if c >= 0 {
		s.thr[c].st = tExternal
		s.pick(-1)
	}
}

//go:norace
func (s *sched) progress() int { return s.steps }

//go:norace
func (s *sched) isDead() bool { return s.dead }

// retry lets blocked threads try again: whoever holds the lock may not be one
// of the controlled threads.
//
//go:norace
func (s *sched) retry() {
	s.dead = false
	for i := 0; i < s.n; i++ {
		if s.thr[i].st == tBlocked {
			s.thr[i].wake = true
		}
	}
	s.pick(-1)
}

//go:norace
func (s *sched) describe() string {
	out := ""
	for i := 0; i < s.n; i++ {
		out += "thread " + string(rune('0'+i)) + ": " + [...]string{"ready", "blocked on a lock", "finished", "blocked"}[s.thr[i].st] + "\n"
	}
	return out
}

//go:norace
func (s *sched) choices() []choice {
	out := make([]choice, s.nrec)
	for i := 0; i < s.nrec; i++ {
		out[i] = s.rec[i]
	}
	return out
}

//go:norace
func (s *sched) learnMu() { s.learn = true }

//go:norace
func (s *sched) unlearn() { s.learn = false }

//go:norace
func (s *sched) forget() { s.n = 0; s.termMu = nil }

//go:norace
func (s *sched) known() bool { return s.termMu != nil }

//go:norace
func (s *sched) strayed() bool { return s.stray || s.over }
