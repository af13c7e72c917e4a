// Package sync is the simulated sync.
package sync

import (
	"fmt"
	"sort"
	"unsafe"

	"verif.sim/simrt"
)

type Mutex = simrt.Mutex
type RWMutex = simrt.RWMutex
type Once = simrt.Once
type WaitGroup = simrt.WaitGroup
type Cond = simrt.Cond
type Locker = simrt.Locker

// NewCond makes a Cond.
func NewCond(l Locker) *Cond { return simrt.NewCond(l) }

// OnceFunc is sync.OnceFunc.
func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

// OnceValue is sync.OnceValue.
func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

// OnceValues is sync.OnceValues.
func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	var o Once
	var v T
	var u U
	return func() (T, U) { o.Do(func() { v, u = f() }); return v, u }
}

// Pool is a simulated sync.Pool: what comes back is up to the scheduler.
type Pool struct {
	New   func() any
	items []any
	epoch int64
}

// fresh drops what an earlier run left in the pool.
func (p *Pool) fresh() {
	if e := simrt.Epoch(); e != p.epoch {
		p.items, p.epoch = nil, e
	}
}

// Get takes an item.
func (p *Pool) Get() any {
	simrt.Yield()
	p.fresh()
	n := len(p.items)
	if n == 0 || simrt.Flip(4) {
		if p.New == nil {
			return nil
		}
		return p.New()
	}
	x := p.items[n-1]
	p.items = p.items[:n-1]
	simrt.Acquired(unsafe.Pointer(p))
	return x
}

// Put returns an item.
func (p *Pool) Put(x any) {
	simrt.Yield()
	if x == nil {
		return
	}
	p.fresh()
	simrt.Released(unsafe.Pointer(p))
	p.items = append(p.items, x)
}

// Map is a simulated sync.Map.
type Map struct{ m map[any]any }

func (m *Map) init() {
	simrt.Yield()
	simrt.Acquired(unsafe.Pointer(m))
	simrt.Released(unsafe.Pointer(m))
	if m.m == nil {
		m.m = map[any]any{}
	}
}

// Load gets.
func (m *Map) Load(k any) (any, bool) { m.init(); v, ok := m.m[k]; return v, ok }

// Store sets.
func (m *Map) Store(k, v any) { m.init(); m.m[k] = v }

// Delete removes.
func (m *Map) Delete(k any) { m.init(); delete(m.m, k) }

// Clear removes all.
func (m *Map) Clear() { m.init(); m.m = map[any]any{} }

// LoadOrStore gets or sets.
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	m.init()
	if o, ok := m.m[k]; ok {
		return o, true
	}
	m.m[k] = v
	return v, false
}

// LoadAndDelete gets and removes.
func (m *Map) LoadAndDelete(k any) (any, bool) {
	m.init()
	o, ok := m.m[k]
	delete(m.m, k)
	return o, ok
}

// Swap sets and returns the old value.
func (m *Map) Swap(k, v any) (any, bool) {
	m.init()
	o, ok := m.m[k]
	m.m[k] = v
	return o, ok
}

// CompareAndSwap swaps if equal.
func (m *Map) CompareAndSwap(k, o, n any) bool {
	m.init()
	if c, ok := m.m[k]; ok && c == o {
		m.m[k] = n
		return true
	}
	return false
}

// CompareAndDelete deletes if equal.
func (m *Map) CompareAndDelete(k, o any) bool {
	m.init()
	if c, ok := m.m[k]; ok && c == o {
		delete(m.m, k)
		return true
	}
	return false
}

// Range iterates in an order chosen by the scheduler.
func (m *Map) Range(f func(k, v any) bool) {
	m.init()
	keys := make([]any, 0, len(m.m))
	for k := range m.m {
		keys = append(keys, k)
	}
	sort.Slice(keys, func(i, j int) bool { return fmt.Sprint(keys[i]) < fmt.Sprint(keys[j]) })
	for _, k := range keys {
		v, ok := m.m[k]
		if ok && !f(k, v) {
			return
		}
	}
}
