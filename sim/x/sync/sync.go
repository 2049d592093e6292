// Package sync stands in for the standard package under the simulator.
package sync

import "verif.local/sim/dst"

type (
	Mutex     = dst.Mutex
	RWMutex   = dst.RWMutex
	WaitGroup = dst.WaitGroup
	Cond      = dst.Cond
	Once      = dst.Once
	Locker    = dst.Locker
)

// NewCond is sync.NewCond.
func NewCond(l Locker) *Cond { return dst.NewCond(l) }

// OnceFunc is sync.OnceFunc.
func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

// OnceValue is sync.OnceValue.
func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

// OnceValues is sync.OnceValues.
func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var v T1
	var w T2
	return func() (T1, T2) { o.Do(func() { v, w = f() }); return v, w }
}

// Pool is sync.Pool: a deterministic stack.
type Pool struct {
	New func() interface{}
	m   Mutex
	q   []interface{}
	ep  uint32
}

// Get is sync.Pool.Get.
func (p *Pool) Get() interface{} {
	p.m.Lock()
	if p.ep != dst.Epoch() {
		p.ep, p.q = dst.Epoch(), nil
	}
	if n := len(p.q); n > 0 {
		v := p.q[n-1]
		p.q = p.q[:n-1]
		p.m.Unlock()
		return v
	}
	p.m.Unlock()
	if p.New != nil {
		return p.New()
	}
	return nil
}

// Put is sync.Pool.Put.
func (p *Pool) Put(v interface{}) {
	if v == nil {
		return
	}
	p.m.Lock()
	if p.ep != dst.Epoch() {
		p.ep, p.q = dst.Epoch(), nil
	}
	p.q = append(p.q, v)
	p.m.Unlock()
}

// Map is sync.Map: insertion ordered, each operation atomic.
type Map struct {
	mu Mutex
	m  map[interface{}]interface{}
	k  []interface{}
}

func (m *Map) Load(key interface{}) (interface{}, bool) {
	m.mu.Lock()
	defer m.mu.Unlock()
	v, ok := m.m[key]
	return v, ok
}

func (m *Map) put(key, v interface{}) {
	if m.m == nil {
		m.m = map[interface{}]interface{}{}
	}
	if _, ok := m.m[key]; !ok {
		m.k = append(m.k, key)
	}
	m.m[key] = v
}

func (m *Map) del(key interface{}) {
	if _, ok := m.m[key]; !ok {
		return
	}
	delete(m.m, key)
	for i := range m.k {
		if m.k[i] == key {
			m.k = append(m.k[:i:i], m.k[i+1:]...)
			return
		}
	}
}

func (m *Map) Store(key, v interface{}) {
	m.mu.Lock()
	defer m.mu.Unlock()
	m.put(key, v)
}

func (m *Map) Clear() {
	m.mu.Lock()
	defer m.mu.Unlock()
	m.m, m.k = nil, nil
}

func (m *Map) LoadOrStore(key, v interface{}) (interface{}, bool) {
	m.mu.Lock()
	defer m.mu.Unlock()
	if x, ok := m.m[key]; ok {
		return x, true
	}
	m.put(key, v)
	return v, false
}

func (m *Map) LoadAndDelete(key interface{}) (interface{}, bool) {
	m.mu.Lock()
	defer m.mu.Unlock()
	x, ok := m.m[key]
	m.del(key)
	return x, ok
}

func (m *Map) Delete(key interface{}) { m.LoadAndDelete(key) }

func (m *Map) Swap(key, v interface{}) (interface{}, bool) {
	m.mu.Lock()
	defer m.mu.Unlock()
	x, ok := m.m[key]
	m.put(key, v)
	return x, ok
}

func (m *Map) CompareAndSwap(key, old, v interface{}) bool {
	m.mu.Lock()
	defer m.mu.Unlock()
	if x, ok := m.m[key]; !ok || x != old {
		return false
	}
	m.put(key, v)
	return true
}

func (m *Map) CompareAndDelete(key, old interface{}) bool {
	m.mu.Lock()
	defer m.mu.Unlock()
	if x, ok := m.m[key]; !ok || x != old {
		return false
	}
	m.del(key)
	return true
}

func (m *Map) Range(f func(key, v interface{}) bool) {
	m.mu.Lock()
	keys := append([]interface{}(nil), m.k...)
	m.mu.Unlock()
	for _, k := range keys {
		if v, ok := m.Load(k); ok {
			if !f(k, v) {
				return
			}
		}
	}
}
