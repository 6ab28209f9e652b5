// Package vsync stands in for package sync in the instrumented build: the same types,
// with a scheduling point before each acquisition and after each release. The real
// lock is still taken, so the race detector sees the real synchronisation.
package vsync

import (
	"sync"

	rt "github.com/dball/destructive/internal/verifrt"
)

type Locker = sync.Locker
type Map = sync.Map
type Cond = sync.Cond

func NewCond(l Locker) *Cond { return sync.NewCond(l) }

type Mutex struct {
	real sync.Mutex
	st   rt.LockState
}

func (m *Mutex) Lock()   { m.st.Lock(); m.real.Lock() }
func (m *Mutex) Unlock() { m.real.Unlock(); m.st.Unlock(); rt.Unlocked("unlock") }
func (m *Mutex) TryLock() bool {
	if m.st.TryLock() {
		m.real.Lock()
		return true
	}
	return false
}

type RWMutex struct {
	real sync.RWMutex
	st   rt.LockState
}

func (m *RWMutex) Lock()    { m.st.Lock(); m.real.Lock() }
func (m *RWMutex) Unlock()  { m.real.Unlock(); m.st.Unlock(); rt.Unlocked("unlock") }
func (m *RWMutex) RLock()   { m.st.RLock(); m.real.RLock() }
func (m *RWMutex) RUnlock() { m.real.RUnlock(); m.st.RUnlock(); rt.Unlocked("runlock") }
func (m *RWMutex) TryLock() bool {
	if m.st.TryLock() {
		m.real.Lock()
		return true
	}
	return false
}
func (m *RWMutex) TryRLock() bool {
	if m.st.TryRLock() {
		m.real.RLock()
		return true
	}
	return false
}

type rlocker struct{ m *RWMutex }

func (r rlocker) Lock()   { r.m.RLock() }
func (r rlocker) Unlock() { r.m.RUnlock() }

func (m *RWMutex) RLocker() Locker { return rlocker{m} }

type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var v1 T1
	var v2 T2
	return func() (T1, T2) { o.Do(func() { v1, v2 = f() }); return v1, v2 }
}

type WaitGroup struct {
	real sync.WaitGroup
	st   rt.LockState
}

func (g *WaitGroup) Add(n int) {
	g.real.Add(n)
	g.st.Add(n)
	if n < 0 {
		rt.Unlocked("done")
	}
}
func (g *WaitGroup) Done() { g.Add(-1) }
func (g *WaitGroup) Wait() { g.st.Wait(); g.real.Wait() }
func (g *WaitGroup) Go(f func()) {
	g.Add(1)
	rt.Go(func() {
		defer g.Done()
		f()
	})
}

// Pool gives what was put last, so that what is used after it was put is found out.
type Pool struct {
	New  func() any
	real sync.Mutex
	free []any
}

func (p *Pool) Get() (x any) {
	p.real.Lock()
	if n := len(p.free); n > 0 {
		x = p.free[n-1]
		p.free = p.free[:n-1]
	}
	p.real.Unlock()
	if x == nil && p.New != nil {
		x = p.New()
	}
	return
}

func (p *Pool) Put(x any) {
	if x == nil {
		return
	}
	p.real.Lock()
	p.free = append(p.free, x)
	p.real.Unlock()
}
