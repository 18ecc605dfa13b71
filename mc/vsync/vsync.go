// Package vsync replaces sync in instrumented code: a thread that waits for a
// lock lets the other one run.
package vsync

import (
	"sync"

	"ogdlmc/vs"
)

type (
	Locker    = sync.Locker
	Map       = sync.Map
	Pool      = sync.Pool
	WaitGroup = sync.WaitGroup
	Cond      = sync.Cond
)

func NewCond(l Locker) *Cond { return sync.NewCond(l) }

type Mutex struct{ m sync.Mutex }

func (m *Mutex) TryLock() bool { vs.Point(); return m.m.TryLock() }
func (m *Mutex) Lock() {
	vs.Point()
	for !m.m.TryLock() {
		if !vs.Wait() {
			m.m.Lock()
			return
		}
	}
}
func (m *Mutex) Unlock() { m.m.Unlock(); vs.Point() }

type RWMutex struct{ m sync.RWMutex }

func (m *RWMutex) TryLock() bool  { vs.Point(); return m.m.TryLock() }
func (m *RWMutex) TryRLock() bool { vs.Point(); return m.m.TryRLock() }
func (m *RWMutex) Lock() {
	vs.Point()
	for !m.m.TryLock() {
		if !vs.Wait() {
			m.m.Lock()
			return
		}
	}
}
func (m *RWMutex) RLock() {
	vs.Point()
	for !m.m.TryRLock() {
		if !vs.Wait() {
			m.m.RLock()
			return
		}
	}
}
func (m *RWMutex) Unlock()         { m.m.Unlock(); vs.Point() }
func (m *RWMutex) RUnlock()        { m.m.RUnlock(); vs.Point() }
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func()                           { return sync.OnceFunc(f) }
func OnceValue[T any](f func() T) func() T               { return sync.OnceValue(f) }
func OnceValues[T, U any](f func() (T, U)) func() (T, U) { return sync.OnceValues(f) }
