// Package vpsync replaces sync in instrumented code that is run in a bubble:
// who waits for a lock sleeps in virtual time.
package vpsync

import (
	"sync"
	"syscall"
	"time"

	"ogdlmc/vp"
)

type (
	Locker    = sync.Locker
	Map       = sync.Map
	Pool      = sync.Pool
	WaitGroup = sync.WaitGroup
	Cond      = sync.Cond
)

func NewCond(l Locker) *Cond { return sync.NewCond(l) }

func lock(try func() bool, real func()) {
	if !vp.Controlled() {
		real()
		return
	}
	vp.Point()
	for !try() {
		// (who has it may be in another bubble)
		syscall.Nanosleep(&syscall.Timespec{Nsec: 20000}, nil)
		time.Sleep(10 * time.Microsecond)
	}
}

type Mutex struct{ m sync.Mutex }

func (m *Mutex) TryLock() bool { vp.Point(); return m.m.TryLock() }
func (m *Mutex) Lock()         { lock(m.m.TryLock, m.m.Lock) }
func (m *Mutex) Unlock()       { m.m.Unlock(); vp.Point() }

type RWMutex struct{ m sync.RWMutex }

func (m *RWMutex) TryLock() bool   { vp.Point(); return m.m.TryLock() }
func (m *RWMutex) TryRLock() bool  { vp.Point(); return m.m.TryRLock() }
func (m *RWMutex) Lock()           { lock(m.m.TryLock, m.m.Lock) }
func (m *RWMutex) RLock()          { lock(m.m.TryRLock, m.m.RLock) }
func (m *RWMutex) Unlock()         { m.m.Unlock(); vp.Point() }
func (m *RWMutex) RUnlock()        { m.m.RUnlock(); vp.Point() }
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func()                           { return sync.OnceFunc(f) }
func OnceValue[T any](f func() T) func() T               { return sync.OnceValue(f) }
func OnceValues[T, U any](f func() (T, U)) func() (T, U) { return sync.OnceValues(f) }
