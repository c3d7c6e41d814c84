// Package vsync has the types of package sync, blocking under the scheduler's control.
// Each wraps the real one, so that the race detector sees the same synchronisation.
package vsync

import (
	"sync"

	"verif.local/mc/vsched"
)

type Locker = sync.Locker
type Cond = sync.Cond

func NewCond(l Locker) *Cond { return sync.NewCond(l) }

type Mutex struct {
	m    sync.Mutex
	held bool
}

//go:norace
func (m *Mutex) isHeld() bool { return m.held }

//go:norace
func (m *Mutex) set(b bool) { m.held = b }

func (m *Mutex) Lock() {
	if vsched.Active() {
		vsched.P(vsched.Interesting)
		vsched.Block(m.isHeld)
	}
	m.m.Lock()
	m.set(true)
}

func (m *Mutex) TryLock() bool {
	vsched.P(vsched.Interesting)
	if m.m.TryLock() {
		m.set(true)
		return true
	}
	return false
}

func (m *Mutex) Unlock() {
	m.set(false)
	m.m.Unlock()
	vsched.P(vsched.Interesting)
}

type RWMutex struct {
	m       sync.RWMutex
	readers int
	writer  bool
	waiting int
}

//go:norace
func (m *RWMutex) noRead() bool { return m.writer || m.waiting > 0 }

//go:norace
func (m *RWMutex) noWrite() bool { return m.writer || m.readers > 0 }

//go:norace
func (m *RWMutex) add(r, w int) { m.readers += r; m.waiting += w }

//go:norace
func (m *RWMutex) setW(b bool) { m.writer = b }

func (m *RWMutex) Lock() {
	if vsched.Active() {
		vsched.P(vsched.Interesting)
		m.add(0, 1)
		vsched.Block(m.noWrite)
		m.add(0, -1)
	}
	m.m.Lock()
	m.setW(true)
}

func (m *RWMutex) TryLock() bool {
	vsched.P(vsched.Interesting)
	if m.m.TryLock() {
		m.setW(true)
		return true
	}
	return false
}

func (m *RWMutex) Unlock() {
	m.setW(false)
	m.m.Unlock()
	vsched.P(vsched.Interesting)
}

func (m *RWMutex) RLock() {
	if vsched.Active() {
		vsched.P(vsched.Interesting)
		vsched.Block(m.noRead)
	}
	m.m.RLock()
	m.add(1, 0)
}

func (m *RWMutex) TryRLock() bool {
	vsched.P(vsched.Interesting)
	if m.m.TryRLock() {
		m.add(1, 0)
		return true
	}
	return false
}

func (m *RWMutex) RUnlock() {
	m.add(-1, 0)
	m.m.RUnlock()
	vsched.P(vsched.Interesting)
}

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T {
		o.Do(func() { v = f() })
		return v
	}
}

func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	var o Once
	var v T
	var u U
	return func() (T, U) {
		o.Do(func() { v, u = f() })
		return v, u
	}
}

type WaitGroup struct {
	w sync.WaitGroup
	n int
}

//go:norace
func (w *WaitGroup) busy() bool { return w.n > 0 }

//go:norace
func (w *WaitGroup) add(n int) { w.n += n }

func (w *WaitGroup) Add(n int) { w.add(n); w.w.Add(n) }
func (w *WaitGroup) Done()     { w.add(-1); w.w.Done(); vsched.P(vsched.Interesting) }
func (w *WaitGroup) Wait() {
	if vsched.Active() {
		vsched.Block(w.busy)
	}
	w.w.Wait()
}
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	vsched.Go(func() {
		defer w.Done()
		f()
	})
}

// Map is sync.Map, with a point before every operation.
type Map struct{ m sync.Map }

func (m *Map) Load(k any) (any, bool) { vsched.P(vsched.Interesting); return m.m.Load(k) }
func (m *Map) Store(k, v any)         { vsched.P(vsched.Interesting); m.m.Store(k, v) }
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	vsched.P(vsched.Interesting)
	return m.m.LoadOrStore(k, v)
}
func (m *Map) LoadAndDelete(k any) (any, bool) {
	vsched.P(vsched.Interesting)
	return m.m.LoadAndDelete(k)
}
func (m *Map) Delete(k any) { vsched.P(vsched.Interesting); m.m.Delete(k) }
func (m *Map) Range(f func(k, v any) bool) {
	vsched.P(vsched.Interesting)
	m.m.Range(f)
}
func (m *Map) Swap(k, v any) (any, bool) { vsched.P(vsched.Interesting); return m.m.Swap(k, v) }
func (m *Map) CompareAndSwap(k, o, v any) bool {
	vsched.P(vsched.Interesting)
	return m.m.CompareAndSwap(k, o, v)
}
func (m *Map) CompareAndDelete(k, o any) bool {
	vsched.P(vsched.Interesting)
	return m.m.CompareAndDelete(k, o)
}
func (m *Map) Clear() { vsched.P(vsched.Interesting); m.m.Clear() }

// Pool gives back the last value that was put: the order that reuses most.
type Pool struct {
	New  func() any
	m    sync.Mutex
	free []any
}

func (p *Pool) Get() any {
	vsched.P(vsched.Interesting)
	p.m.Lock()
	var v any
	if k := len(p.free); k > 0 {
		v = p.free[k-1]
		p.free = p.free[:k-1]
	}
	p.m.Unlock()
	if v == nil && p.New != nil {
		v = p.New()
	}
	return v
}

func (p *Pool) Put(v any) {
	vsched.P(vsched.Interesting)
	if v == nil {
		return
	}
	p.m.Lock()
	p.free = append(p.free, v)
	p.m.Unlock()
}
