// Package vsync replaces package sync in the instrumented code: locks are decided by the simulator's scheduler.
// The real primitives underneath are only ever tried, never waited for, so that they still establish the
// happens-before edges the race detector needs.
package vsync

import (
	"sync"

	"verif.local/sim/vsim"
)

type (
	Locker    = sync.Locker
	WaitGroup = sync.WaitGroup
	Cond      = sync.Cond
	Map       = sync.Map
)

func NewCond(l Locker) *Cond { return sync.NewCond(l) }

// Mutex replaces sync.Mutex
type Mutex struct{ mu sync.Mutex }

func (m *Mutex) Lock() {
	if !vsim.Active() {
		m.mu.Lock()
		return
	}
	vsim.Y(0)
	for !m.mu.TryLock() {
		vsim.Block(m)
	}
}

func (m *Mutex) TryLock() bool { vsim.Y(0); return m.mu.TryLock() }

func (m *Mutex) Unlock() {
	m.mu.Unlock()
	if vsim.Active() {
		vsim.Wake(m)
		vsim.Y(0)
	}
}

// RWMutex replaces sync.RWMutex; as in the real one, a waiting writer holds back new readers
type RWMutex struct {
	mu      sync.RWMutex
	writers int
}

func (m *RWMutex) Lock() {
	if !vsim.Active() {
		m.mu.Lock()
		return
	}
	vsim.Y(0)
	m.writers++
	for !m.mu.TryLock() {
		vsim.Block(m)
	}
	m.writers--
}

func (m *RWMutex) TryLock() bool { vsim.Y(0); return m.mu.TryLock() }

func (m *RWMutex) Unlock() {
	m.mu.Unlock()
	if vsim.Active() {
		vsim.Wake(m)
		vsim.Y(0)
	}
}

func (m *RWMutex) RLock() {
	if !vsim.Active() {
		m.mu.RLock()
		return
	}
	vsim.Y(0)
	for m.writers > 0 || !m.mu.TryRLock() {
		vsim.Block(m)
	}
}

func (m *RWMutex) TryRLock() bool { vsim.Y(0); return m.writers == 0 && m.mu.TryRLock() }

func (m *RWMutex) RUnlock() {
	m.mu.RUnlock()
	if vsim.Active() {
		vsim.Wake(m)
		vsim.Y(0)
	}
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// Once replaces sync.Once
type Once struct {
	done bool
	m    Mutex
}

func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

// OnceFunc replaces sync.OnceFunc
func OnceFunc(f func()) func() {
	v := OnceValue(func() struct{} { f(); return struct{}{} })
	return func() { v() }
}

// OnceValue replaces sync.OnceValue
func OnceValue[T any](f func() T) func() T {
	var (
		once   Once
		valid  bool
		p      any
		result T
	)
	return func() T {
		once.Do(func() {
			defer func() {
				if f = nil; !valid {
					p = recover()
					panic(p)
				}
			}()
			result = f()
			valid = true
		})
		if !valid {
			panic(p)
		}
		return result
	}
}

// OnceValues replaces sync.OnceValues
func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	type pair struct {
		a T1
		b T2
	}
	v := OnceValue(func() pair { a, b := f(); return pair{a, b} })
	return func() (T1, T2) { p := v(); return p.a, p.b }
}

// Pool replaces sync.Pool: the object put last is got first, on every thread, so that what a caller leaves in a pooled
// object, or does with one it has put back, shows. Handing an object over orders the two threads as the real one does.
type Pool struct {
	New  func() any
	mu   sync.Mutex // guards objs, held for a few instructions only
	objs []pooled
}

type pooled struct {
	x    any
	edge *sync.Mutex // taken by the putter and then by the getter, to order them
}

// Put adds x to the pool
func (p *Pool) Put(x any) {
	if x == nil {
		return
	}
	vsim.Y(0)
	o := pooled{x: x, edge: &sync.Mutex{}}
	o.edge.Lock()
	o.edge.Unlock()
	p.push(o)
	vsim.Y(0)
}

// Get takes an object from the pool, or makes one
func (p *Pool) Get() any {
	vsim.Y(0)
	if o, ok := p.pop(); ok {
		o.edge.Lock()
		o.edge.Unlock()
		return o.x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

// push and pop do not order threads in the eyes of the race detector

func (p *Pool) push(o pooled) {
	vsim.RaceOff()
	defer vsim.RaceOn()
	p.mu.Lock()
	p.objs = append(p.objs, o)
	p.mu.Unlock()
}

func (p *Pool) pop() (o pooled, ok bool) {
	vsim.RaceOff()
	defer vsim.RaceOn()
	p.mu.Lock()
	if n := len(p.objs); n > 0 {
		o, ok = p.objs[n-1], true
		p.objs[n-1] = pooled{}
		p.objs = p.objs[:n-1]
	}
	p.mu.Unlock()
	return
}
