// Package vs is the controlled scheduler: instrumented code calls Point
// before every statement. Of the threads of a run only one runs at a time.
package vs

import (
	"sync/atomic"
	"unsafe"
)

func getg() unsafe.Pointer

// A Thread is an operation under control
type Thread struct {
	g    unsafe.Pointer
	N    int // points passed
	Stop int // hand over before this point (0: never)
	// OnPoint observes every point (optional)
	OnPoint func(n int)
	wake    chan bool
	peer    *Thread
	done    bool
	Blocked int
	pend    []int // further stops
}

const slots = 64

var table [slots]unsafe.Pointer // of *Thread
var used int32

func register(t *Thread) {
	t.g = getg()
	for {
		for i := range table {
			if atomic.CompareAndSwapPointer(&table[i], nil, unsafe.Pointer(t)) {
				return
			}
		}
	}
}

func unregister(t *Thread) {
	for i := range table {
		if atomic.LoadPointer(&table[i]) == unsafe.Pointer(t) {
			atomic.StorePointer(&table[i], nil)
		}
	}
}

func current() *Thread {
	g := getg()
	for i := range table {
		if p := (*Thread)(atomic.LoadPointer(&table[i])); p != nil && p.g == g {
			return p
		}
	}
	return nil
}

// Point is a scheduling point.
func Point() {
	t := current()
	if t == nil {
		return
	}
	t.N++
	if t.OnPoint != nil {
		t.OnPoint(t.N)
	}
	if t.N == t.Stop {
		t.Stop = 0
		if len(t.pend) > 0 {
			t.Stop, t.pend = t.pend[0], t.pend[1:]
		}
		t.yield()
	}
}

// Wait is called when a lock is not free
func Wait() bool {
	t := current()
	if t == nil {
		return false
	}
	t.Blocked++
	if t.Blocked > 1000000 || t.peer == nil || t.peer.done {
		panic("vs: deadlock")
	}
	t.yield()
	return true
}

func (t *Thread) yield() {
	p := t.peer
	if p == nil || p.done {
		return
	}
	p.wake <- true
	<-t.wake
}

// Alone runs f with every point observed; it returns the number of points.
func Alone(f func(), on func(n int)) int {
	t := &Thread{OnPoint: on}
	register(t)
	defer unregister(t)
	f()
	return t.N
}

// Two runs a and b: a until its point stopA[0], then b until stopB[0], then a
// until stopA[1], and so on; without a further stop to the end.
func Two(a, b func(), stopA, stopB []int) (na, nb int) {
	ta, tb := &Thread{wake: make(chan bool)}, &Thread{wake: make(chan bool)}
	ta.peer, tb.peer = tb, ta
	set := func(t *Thread, s []int) {
		if len(s) > 0 {
			t.Stop, t.pend = s[0], s[1:]
		}
	}
	set(ta, stopA)
	set(tb, stopB)
	end := make(chan bool)
	run := func(t *Thread, f func()) {
		<-t.wake
		register(t)
		f()
		unregister(t)
		t.done = true
		if !t.peer.done {
			t.peer.wake <- true
		} else {
			end <- true
		}
	}
	go run(ta, a)
	go run(tb, b)
	ta.wake <- true
	<-end
	return ta.N, tb.N
}
