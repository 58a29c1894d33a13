//go:build !verifsched

package main

// C15 needs a build with hooks in package sync, see run.sh.

const haveSched = false

type choice struct {
	n, chosen uint8
	cost      bool
}

type sched struct{}

func newSched() *sched                      { return &sched{} }
func (s *sched) install()                   {}
func (s *sched) owns(t int) bool            { return true }
func (s *sched) self() int                  { return -1 }
func (s *sched) here()                      {}
func (s *sched) enter(t int)                {}
func (s *sched) leave(t int)                {}
func (s *sched) reset(n int, plan []choice) {}
func (s *sched) begin()                     {}
func (s *sched) unstick()                   {}
func (s *sched) progress() int              { return 0 }
func (s *sched) isDead() bool               { return false }
func (s *sched) retry()                     {}
func (s *sched) describe() string           { return "" }
func (s *sched) choices() []choice          { return nil }
func (s *sched) learnMu()                   {}
func (s *sched) unlearn()                   {}
func (s *sched) forget()                    {}

func (s *sched) known() bool   { return false }
func (s *sched) strayed() bool { return false }
