// Package sync replaces the standard package under the controlled scheduler.
package sync

import (
	rsync "sync"

	"vs"
)

// Locker is sync.Locker.
type Locker = rsync.Locker

// Mutex is a scheduled mutex.
type Mutex struct{ locked bool }

func (m *Mutex) Lock() {
	vs.Block("lock", nil, func() bool { return !m.locked })
	m.locked = true
}

func (m *Mutex) TryLock() bool {
	vs.Point("trylock")
	if m.locked {
		return false
	}
	m.locked = true
	return true
}

func (m *Mutex) Unlock() {
	vs.Rel("unlock")
	if !m.locked {
		if vs.Aborting() {
			return
		}
		panic("fatal error: sync: unlock of unlocked mutex")
	}
	m.locked = false
}

// RWMutex is a scheduled reader/writer mutex (a waiting writer blocks new readers).
type RWMutex struct {
	w       bool
	readers int
	waiting int
}

func (m *RWMutex) Lock() {
	m.waiting++
	ok := false
	defer func() {
		if !ok {
			m.waiting--
		}
	}()
	vs.Block("rwlock", nil, func() bool { return !m.w && m.readers == 0 })
	ok = true
	m.waiting--
	m.w = true
}

func (m *RWMutex) Unlock() {
	vs.Rel("rwunlock")
	if !m.w {
		if vs.Aborting() {
			return
		}
		panic("fatal error: sync: Unlock of unlocked RWMutex")
	}
	m.w = false
}

func (m *RWMutex) RLock() {
	vs.Block("rlock", nil, func() bool { return !m.w && m.waiting == 0 })
	m.readers++
}

func (m *RWMutex) RUnlock() {
	vs.Rel("runlock")
	if m.readers == 0 {
		if vs.Aborting() {
			return
		}
		panic("fatal error: sync: RUnlock of unlocked RWMutex")
	}
	m.readers--
}

func (m *RWMutex) TryLock() bool {
	vs.Point("trylock")
	if m.w || m.readers > 0 {
		return false
	}
	m.w = true
	return true
}

func (m *RWMutex) TryRLock() bool {
	vs.Point("tryrlock")
	if m.w || m.waiting > 0 {
		return false
	}
	m.readers++
	return true
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// WaitGroup is a scheduled wait group.
type WaitGroup struct{ n int }

func (wg *WaitGroup) Add(d int) {
	vs.Rel("wg.add")
	wg.n += d
	if wg.n < 0 {
		if vs.Aborting() {
			return
		}
		panic("sync: negative WaitGroup counter")
	}
}
func (wg *WaitGroup) Done() { wg.Add(-1) }
func (wg *WaitGroup) Wait() { vs.Block("wg.wait", nil, func() bool { return wg.n == 0 }) }
func (wg *WaitGroup) Go(f func()) {
	wg.Add(1)
	vs.GoNamed("wg.Go", func() {
		defer wg.Done()
		f()
	})
}

// Once is a scheduled once.
type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	vs.Point("once")
	if o.done {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var v1 T1
	var v2 T2
	return func() (T1, T2) { o.Do(func() { v1, v2 = f() }); return v1, v2 }
}

// Cond is a scheduled condition variable.
type Cond struct {
	L  Locker
	ws []*bool
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	b := new(bool)
	c.ws = append(c.ws, b)
	c.L.Unlock()
	vs.Block("cond.wait", nil, func() bool { return *b })
	c.L.Lock()
}

func (c *Cond) Signal() {
	vs.Rel("cond.signal")
	if len(c.ws) > 0 {
		*c.ws[0] = true
		c.ws = c.ws[1:]
	}
}

func (c *Cond) Broadcast() {
	vs.Rel("cond.broadcast")
	for _, b := range c.ws {
		*b = true
	}
	c.ws = nil
}

// Pool hands back what was put most recently (to expose reuse while still in use).
type Pool struct {
	New func() any
	s   []any
}

func (p *Pool) Get() any {
	vs.Point("pool.get")
	if n := len(p.s); n > 0 {
		v := p.s[n-1]
		p.s = p.s[:n-1]
		return v
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(v any) {
	vs.Rel("pool.put")
	if v != nil {
		p.s = append(p.s, v)
	}
}

// Map is a scheduled sync.Map; every operation is atomic.
type Map struct {
	m    map[any]any
	keys []any
}

func (m *Map) Load(k any) (any, bool) {
	vs.Point("map.load")
	v, ok := m.m[k]
	return v, ok
}

func (m *Map) put(k, v any) {
	if m.m == nil {
		m.m = map[any]any{}
	}
	if _, ok := m.m[k]; !ok {
		m.keys = append(m.keys, k)
	}
	m.m[k] = v
}

func (m *Map) del(k any) {
	if _, ok := m.m[k]; ok {
		delete(m.m, k)
		for i, q := range m.keys {
			if q == k {
				m.keys = append(m.keys[:i:i], m.keys[i+1:]...)
				break
			}
		}
	}
}

func (m *Map) Store(k, v any) { vs.Point("map.store"); m.put(k, v) }

func (m *Map) LoadOrStore(k, v any) (any, bool) {
	vs.Point("map.loadorstore")
	if old, ok := m.m[k]; ok {
		return old, true
	}
	m.put(k, v)
	return v, false
}

func (m *Map) LoadAndDelete(k any) (any, bool) {
	vs.Point("map.loadanddelete")
	v, ok := m.m[k]
	m.del(k)
	return v, ok
}

func (m *Map) Delete(k any) { vs.Point("map.delete"); m.del(k) }

func (m *Map) Swap(k, v any) (any, bool) {
	vs.Point("map.swap")
	old, ok := m.m[k]
	m.put(k, v)
	return old, ok
}

func (m *Map) CompareAndSwap(k, o, n any) bool {
	vs.Point("map.cas")
	if old, ok := m.m[k]; ok && old == o {
		m.put(k, n)
		return true
	}
	return false
}

func (m *Map) CompareAndDelete(k, o any) bool {
	vs.Point("map.cad")
	if old, ok := m.m[k]; ok && old == o {
		m.del(k)
		return true
	}
	return false
}

func (m *Map) Range(f func(k, v any) bool) {
	vs.Point("map.range")
	ks := append([]any(nil), m.keys...)
	for first := true; len(ks) > 0; first = false {
		i := vs.Order(len(ks))
		k := ks[i]
		ks = append(ks[:i:i], ks[i+1:]...)
		if !first {
			vs.Point("map.next")
		}
		if v, ok := m.m[k]; ok {
			if !f(k, v) {
				return
			}
		}
	}
}

func (m *Map) Clear() {
	vs.Point("map.clear")
	m.m, m.keys = nil, nil
}
