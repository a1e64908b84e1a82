// Package vsync stands in for sync in the package under test: blocking primitives pass
// scheduling points and block in the controlled scheduler instead of the runtime.
package vsync

import (
	"sync"

	"verif/vsched"
)

type (
	Locker    = sync.Locker
	Map       = sync.Map
	WaitGroup = sync.WaitGroup
	Cond      = sync.Cond
)

func NewCond(l Locker) *Cond { return sync.NewCond(l) }

// Mutex stands in for sync.Mutex.
type Mutex struct {
	mu sync.Mutex
	st vsched.LockState
}

func (m *Mutex) Lock() {
	switch vsched.Mode {
	case vsched.Ctl:
		vsched.Acquire(&m.st, true)
	case vsched.Delay:
		vsched.Point(vsched.KLock)
	}
	m.mu.Lock()
}

func (m *Mutex) TryLock() bool {
	switch vsched.Mode {
	case vsched.Ctl:
		if !vsched.TryAcquire(&m.st, true) {
			return false
		}
	case vsched.Delay:
		vsched.Point(vsched.KLock)
	}
	return m.mu.TryLock()
}

func (m *Mutex) Unlock() {
	switch vsched.Mode {
	case vsched.Ctl:
		vsched.PreRelease(&m.st, true)
		m.mu.Unlock()
		vsched.Release(&m.st, true)
		return
	case vsched.Delay:
		vsched.Point(vsched.KUnlock)
	}
	m.mu.Unlock()
}

// RWMutex stands in for sync.RWMutex.
type RWMutex struct {
	mu sync.RWMutex
	st vsched.LockState
}

func (m *RWMutex) Lock() {
	switch vsched.Mode {
	case vsched.Ctl:
		vsched.Acquire(&m.st, true)
	case vsched.Delay:
		vsched.Point(vsched.KLock)
	}
	m.mu.Lock()
}

func (m *RWMutex) TryLock() bool {
	if vsched.Mode == vsched.Ctl && !vsched.TryAcquire(&m.st, true) {
		return false
	}
	return m.mu.TryLock()
}

func (m *RWMutex) Unlock() {
	if vsched.Mode == vsched.Ctl {
		vsched.PreRelease(&m.st, true)
		m.mu.Unlock()
		vsched.Release(&m.st, true)
		return
	}
	m.mu.Unlock()
}

func (m *RWMutex) RLock() {
	switch vsched.Mode {
	case vsched.Ctl:
		vsched.Acquire(&m.st, false)
	case vsched.Delay:
		vsched.Point(vsched.KLock)
	}
	m.mu.RLock()
}

func (m *RWMutex) TryRLock() bool {
	if vsched.Mode == vsched.Ctl && !vsched.TryAcquire(&m.st, false) {
		return false
	}
	return m.mu.TryRLock()
}

func (m *RWMutex) RUnlock() {
	if vsched.Mode == vsched.Ctl {
		vsched.PreRelease(&m.st, false)
		m.mu.RUnlock()
		vsched.Release(&m.st, false)
		return
	}
	m.mu.RUnlock()
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// Once stands in for sync.Once.
type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var a T1
	var b T2
	return func() (T1, T2) { o.Do(func() { a, b = f() }); return a, b }
}

// Pool stands in for sync.Pool. It hands out the item put last, to any caller: allowed by
// sync.Pool's contract, and the most hostile choice for code that recycles too early.
type Pool struct {
	New func() any
	mu  sync.Mutex
	s   []any
}

func (p *Pool) Get() any {
	if vsched.Mode != 0 {
		vsched.Point(vsched.KRMW)
	}
	p.mu.Lock()
	if n := len(p.s); n > 0 {
		x := p.s[n-1]
		p.s = p.s[:n-1]
		p.mu.Unlock()
		return x
	}
	p.mu.Unlock()
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(x any) {
	if x == nil {
		return
	}
	if vsched.Mode != 0 {
		vsched.Point(vsched.KRMW)
	}
	p.mu.Lock()
	p.s = append(p.s, x)
	p.mu.Unlock()
	if TrackPools {
		poolMu.Lock()
		pools[p] = struct{}{}
		poolMu.Unlock()
	}
}

// TrackPools makes Put register its pool for DrainPools.
var TrackPools bool

var (
	poolMu sync.Mutex
	pools  = map[*Pool]struct{}{}
)

// DrainPools empties the registered pools, as garbage collections do with sync.Pool.
func DrainPools() {
	poolMu.Lock()
	for p := range pools {
		p.mu.Lock()
		p.s = nil
		p.mu.Unlock()
		delete(pools, p)
	}
	poolMu.Unlock()
}
