// Package vsync stands in for sync in the instrumented library: waiting is
// visible to the scheduler.
package vsync

import (
	"sync"

	"verif/mc/vsched"
)

type Locker = sync.Locker

type Mutex struct{ m sync.Mutex }

func (m *Mutex) Lock() {
	vsched.Point()
	for vsched.Active() {
		if m.m.TryLock() {
			return
		}
		if !vsched.Block(m) {
			break
		}
	}
	m.m.Lock()
}
func (m *Mutex) TryLock() bool { vsched.Point(); return m.m.TryLock() }
func (m *Mutex) Unlock()       { m.m.Unlock(); vsched.Unblock(m); vsched.Point() }

type RWMutex struct{ m sync.RWMutex }

func (m *RWMutex) Lock() {
	vsched.Point()
	for vsched.Active() {
		if m.m.TryLock() {
			return
		}
		if !vsched.Block(m) {
			break
		}
	}
	m.m.Lock()
}
func (m *RWMutex) RLock() {
	vsched.Point()
	for vsched.Active() {
		if m.m.TryRLock() {
			return
		}
		if !vsched.Block(m) {
			break
		}
	}
	m.m.RLock()
}
func (m *RWMutex) TryLock() bool   { vsched.Point(); return m.m.TryLock() }
func (m *RWMutex) TryRLock() bool  { vsched.Point(); return m.m.TryRLock() }
func (m *RWMutex) Unlock()         { m.m.Unlock(); vsched.Unblock(m); vsched.Point() }
func (m *RWMutex) RUnlock()        { m.m.RUnlock(); vsched.Unblock(m); vsched.Point() }
func (m *RWMutex) RLocker() Locker { return rlocker{m} }

type rlocker struct{ m *RWMutex }

func (r rlocker) Lock()   { r.m.RLock() }
func (r rlocker) Unlock() { r.m.RUnlock() }

type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	var o Once
	var v T
	var w U
	return func() (T, U) { o.Do(func() { v, w = f() }); return v, w }
}

// Pool gives back what was put last
type Pool struct {
	m   sync.Mutex
	l   []any
	New func() any
}

func (p *Pool) Get() any {
	vsched.Point()
	p.m.Lock()
	if n := len(p.l); n > 0 {
		x := p.l[n-1]
		p.l = p.l[:n-1]
		p.m.Unlock()
		return x
	}
	p.m.Unlock()
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(x any) {
	vsched.Point()
	p.m.Lock()
	p.l = append(p.l, x)
	p.m.Unlock()
}

type Map struct{ m sync.Map }

func (m *Map) Load(k any) (any, bool)           { vsched.Point(); return m.m.Load(k) }
func (m *Map) Store(k, v any)                   { vsched.Point(); m.m.Store(k, v) }
func (m *Map) LoadOrStore(k, v any) (any, bool) { vsched.Point(); return m.m.LoadOrStore(k, v) }
func (m *Map) LoadAndDelete(k any) (any, bool)  { vsched.Point(); return m.m.LoadAndDelete(k) }
func (m *Map) Delete(k any)                     { vsched.Point(); m.m.Delete(k) }
func (m *Map) Swap(k, v any) (any, bool)        { vsched.Point(); return m.m.Swap(k, v) }
func (m *Map) CompareAndSwap(k, o, n any) bool  { vsched.Point(); return m.m.CompareAndSwap(k, o, n) }
func (m *Map) CompareAndDelete(k, o any) bool   { vsched.Point(); return m.m.CompareAndDelete(k, o) }
func (m *Map) Range(f func(k, v any) bool)      { vsched.Point(); m.m.Range(f) }
func (m *Map) Clear()                           { vsched.Point(); m.m.Clear() }

type WaitGroup = sync.WaitGroup
type Cond = sync.Cond

func NewCond(l Locker) *Cond { return sync.NewCond(l) }
