// Package vsync mirrors the blocking parts of package sync so that managed tasks never block for real on a lock
// held by a descheduled task, and so that object pools are deterministic.
package vsync

import (
	"sync"
	"sync/atomic"

	"radixverif/shim/sched"
)

// Mutex spins through the controlled scheduler.
type Mutex struct{ v atomic.Int32 }

func (m *Mutex) Lock() {
	for !m.TryLock() {
		sched.Gosched()
	}
}
func (m *Mutex) TryLock() bool { sched.A(); return m.v.CompareAndSwap(0, 1) }
func (m *Mutex) Unlock() {
	sched.A()
	if !m.v.CompareAndSwap(1, 0) {
		panic("sync: unlock of unlocked mutex")
	}
}

// RWMutex is a simple spinning reader/writer lock.
type RWMutex struct{ v atomic.Int32 }

func (m *RWMutex) Lock() {
	for !m.TryLock() {
		sched.Gosched()
	}
}
func (m *RWMutex) TryLock() bool { sched.A(); return m.v.CompareAndSwap(0, -1) }
func (m *RWMutex) Unlock() {
	sched.A()
	if !m.v.CompareAndSwap(-1, 0) {
		panic("sync: Unlock of unlocked RWMutex")
	}
}
func (m *RWMutex) RLock() {
	for !m.TryRLock() {
		sched.Gosched()
	}
}
func (m *RWMutex) TryRLock() bool {
	sched.A()
	for {
		c := m.v.Load()
		if c < 0 {
			return false
		}
		if m.v.CompareAndSwap(c, c+1) {
			return true
		}
	}
}
func (m *RWMutex) RUnlock() {
	sched.A()
	if m.v.Add(-1) < 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
}
func (m *RWMutex) RLocker() sync.Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// Once runs f once; later callers wait until it has completed.
type Once struct {
	done atomic.Bool
	m    Mutex
}

func (o *Once) Do(f func()) {
	sched.A()
	if o.done.Load() {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done.Load() {
		defer o.done.Store(true)
		f()
	}
}

// Pool is a deterministic last-in first-out pool. A managed task sees the same objects on every replay.
type Pool struct {
	New func() interface{}

	mu   sync.Mutex
	free []interface{}
}

func (p *Pool) Get() interface{} {
	p.mu.Lock()
	if n := len(p.free); n > 0 {
		x := p.free[n-1]
		p.free = p.free[:n-1]
		p.mu.Unlock()
		return x
	}
	p.mu.Unlock()
	if p.New == nil {
		return nil
	}
	return p.New()
}

func (p *Pool) Put(x interface{}) {
	if x == nil {
		return
	}
	p.mu.Lock()
	if len(p.free) < 256 {
		p.free = append(p.free, x)
	}
	p.mu.Unlock()
}
