// Package vp has the scheduling points of instrumented code that is run in a
// bubble: the goroutines started by one under control are under control, too.
package vp

import (
	"sync"
	"unsafe"
)

//go:linkname getLabel runtime/pprof.runtime_getProfLabel
func getLabel() unsafe.Pointer

//go:linkname setLabel runtime/pprof.runtime_setProfLabel
func setLabel(unsafe.Pointer)

// A Ctl controls an execution: in each of its phases, the goroutine that
// comes to a given point stops there.
type Ctl struct {
	mu    sync.Mutex
	phase int
	n     map[int]int       // points passed in each phase
	stop  map[int]int       // where to stop
	gate  map[int]chan bool // who stopped
	wait  int
}

// Begin puts the calling goroutine, and those it starts, under control
func Begin() *Ctl {
	c := &Ctl{n: map[int]int{}, stop: map[int]int{}, gate: map[int]chan bool{}}
	setLabel(unsafe.Pointer(c))
	return c
}

// End ends control of the calling goroutine
func End() { setLabel(nil) }

// Controlled tells whether the caller is under control
func Controlled() bool { return getLabel() != nil }

// Phase begins a phase; whoever comes to its point number stop waits there
func (c *Ctl) Phase(p, stop int) {
	c.mu.Lock()
	c.phase = p
	c.stop[p] = stop
	c.mu.Unlock()
}

// Points is the number of points passed in a phase
func (c *Ctl) Points(p int) int {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.n[p]
}

// Resume lets the one that stopped in phase p go on
func (c *Ctl) Resume(p int) {
	c.mu.Lock()
	ch := c.gate[p]
	delete(c.gate, p)
	c.mu.Unlock()
	if ch != nil {
		close(ch)
	}
}

// Point is a scheduling point
func Point() {
	c := (*Ctl)(getLabel())
	if c == nil {
		return
	}
	c.mu.Lock()
	p := c.phase
	c.n[p]++
	if c.n[p] != c.stop[p] {
		c.mu.Unlock()
		return
	}
	ch := make(chan bool)
	c.gate[p] = ch
	c.mu.Unlock()
	<-ch
}
