package termemu

import "sync"

// VerifNew and VerifRun for a tree whose private names have changed: the read
// loop waits for VerifRun.

const VerifSync = false

type verifDone struct {
	Backend
	once sync.Once
	gate chan struct{}
	done chan struct{}
}

var verifBackends sync.Map

func (d *verifDone) Read(p []byte) (int, error) {
	<-d.gate
	n, err := d.Backend.Read(p)
	if err != nil {
		d.once.Do(func() { close(d.done) })
	}
	return n, err
}

func VerifNew(f Frontend, b Backend, mode TextReadMode, _ bool) Terminal {
	d := &verifDone{Backend: b, gate: make(chan struct{}), done: make(chan struct{})}
	t := NewWithMode(f, d, mode)
	verifBackends.Store(t, d)
	return t
}

func VerifRun(t Terminal) {
	v, _ := verifBackends.LoadAndDelete(t)
	d := v.(*verifDone)
	close(d.gate)
	<-d.done
	t.WithLock(func() {})
}
