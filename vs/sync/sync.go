// Package sync stands in for the standard package inside instrumented library
// code: same semantics, but waiting is decided by the simulator's scheduler.
package sync

import (
	gosync "sync"

	"verif.local/dst/vs"
)

type (
	Locker    = gosync.Locker
	Map       = gosync.Map
	WaitGroup = gosync.WaitGroup
	Cond      = gosync.Cond
)

func NewCond(l Locker) *Cond { return gosync.NewCond(l) }

type Mutex struct{ m gosync.Mutex }

func (m *Mutex) Lock() {
	for !m.m.TryLock() {
		vs.Block()
	}
}
func (m *Mutex) TryLock() bool { return m.m.TryLock() }
func (m *Mutex) Unlock()       { m.m.Unlock() }

type RWMutex struct{ m gosync.RWMutex }

func (m *RWMutex) Lock() {
	for !m.m.TryLock() {
		vs.Block()
	}
}
func (m *RWMutex) TryLock() bool { return m.m.TryLock() }
func (m *RWMutex) Unlock()       { m.m.Unlock() }
func (m *RWMutex) RLock() {
	for !m.m.TryRLock() {
		vs.Block()
	}
}
func (m *RWMutex) TryRLock() bool { return m.m.TryRLock() }
func (m *RWMutex) RUnlock()       { m.m.RUnlock() }

type rlocker struct{ m *RWMutex }

func (r rlocker) Lock()   { r.m.RLock() }
func (r rlocker) Unlock() { r.m.RUnlock() }

func (m *RWMutex) RLocker() Locker { return rlocker{m} }

type Once struct {
	mu   Mutex
	done bool
}

func (o *Once) Do(f func()) {
	o.mu.Lock()
	defer o.mu.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var a T1
	var b T2
	return func() (T1, T2) { o.Do(func() { a, b = f() }); return a, b }
}

// Pool keeps everything it is given and returns the most recent item: the
// behaviour under which misuse of pooled objects shows.
type Pool struct {
	New func() interface{}
	mu  gosync.Mutex
	xs  []interface{}
}

func (p *Pool) Get() interface{} {
	p.mu.Lock()
	if n := len(p.xs); n > 0 {
		x := p.xs[n-1]
		p.xs = p.xs[:n-1]
		p.mu.Unlock()
		return x
	}
	p.mu.Unlock()
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(x interface{}) {
	if x == nil {
		return
	}
	p.mu.Lock()
	p.xs = append(p.xs, x)
	p.mu.Unlock()
}
