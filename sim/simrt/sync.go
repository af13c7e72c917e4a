package simrt

import (
	"runtime"
	"unsafe"
)

// Acquired and Released order what is before a release of an address with what is
// after an acquisition of it.
func Acquired(p unsafe.Pointer) { raceAcquire(p) }

// Released see Acquired.
func Released(p unsafe.Pointer) { raceRelease(p) }

// Mutex is a simulated lock. Its state is discarded when a new run starts.
type Mutex struct {
	epoch  int64
	locked bool
	w      int // readers
	ww     int // waiting writers: they block new readers, as in package sync
}

// RWMutex is a simulated read-write lock.
type RWMutex = Mutex

// RLocker is sync.RWMutex.RLocker.
func (m *Mutex) RLocker() Locker { return rlocker{m} }

type rlocker struct{ m *Mutex }

func (r rlocker) Lock()   { r.m.RLock() }
func (r rlocker) Unlock() { r.m.RUnlock() }

func (m *Mutex) sync(s *Sim) {
	if m.epoch != s.epoch {
		m.epoch = s.epoch
		m.locked = false
		m.w = 0
		m.ww = 0
	}
}

// Lock locks m.
func (m *Mutex) Lock() {
	s := S
	if s == nil {
		m.locked = true
		return
	}
	Yield()
	if s.killed {
		runtime.Goexit()
	}
	m.sync(s)
	for m.locked || m.w != 0 {
		m.ww++
		waitUntil("mutex", func() bool { return !m.locked && m.w == 0 })
		m.ww--
	}
	m.locked = true
	raceAcquire(unsafe.Pointer(&m.locked))
	raceAcquire(unsafe.Pointer(&m.w))
}

// TryLock tries to lock m.
func (m *Mutex) TryLock() bool {
	s := S
	if s == nil {
		m.locked = true
		return true
	}
	Yield()
	m.sync(s)
	if m.locked || m.w != 0 {
		return false
	}
	m.locked = true
	raceAcquire(unsafe.Pointer(&m.locked))
	raceAcquire(unsafe.Pointer(&m.w))
	return true
}

// Unlock unlocks m.
func (m *Mutex) Unlock() {
	s := S
	if s == nil {
		m.locked = false
		return
	}
	if s.killed {
		return
	}
	m.sync(s)
	if !m.locked {
		panic("sync: unlock of unlocked mutex")
	}
	raceRelease(unsafe.Pointer(&m.locked))
	m.locked = false
	s.touch()
	Yield()
}

// RLock takes a read lock.
func (m *Mutex) RLock() {
	s := S
	if s == nil {
		return
	}
	Yield()
	if s.killed {
		runtime.Goexit()
	}
	m.sync(s)
	for m.locked || m.ww > 0 {
		waitUntil("rwmutex", func() bool { return !m.locked && m.ww == 0 })
	}
	m.w++
	raceAcquire(unsafe.Pointer(&m.locked))
}

// TryRLock tries to take a read lock.
func (m *Mutex) TryRLock() bool {
	s := S
	if s == nil {
		return true
	}
	m.sync(s)
	if m.locked {
		return false
	}
	m.w++
	raceAcquire(unsafe.Pointer(&m.locked))
	return true
}

// RUnlock releases a read lock.
func (m *Mutex) RUnlock() {
	s := S
	if s == nil || s.killed {
		return
	}
	m.sync(s)
	if m.w == 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	raceRelease(unsafe.Pointer(&m.w))
	m.w--
	s.touch()
	Yield()
}

// Once is a simulated sync.Once.
type Once struct {
	m    Mutex
	done bool
}

// Do calls f once. The done flag survives runs, as package state does.
func (o *Once) Do(f func()) {
	Yield()
	if o.done {
		raceAcquire(unsafe.Pointer(&o.done))
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true; raceRelease(unsafe.Pointer(&o.done)) }()
		f()
	}
}

// WaitGroup is a simulated sync.WaitGroup.
type WaitGroup struct{ n int }

// Add adds to the counter.
func (w *WaitGroup) Add(d int) {
	Yield()
	if d < 0 {
		raceRelease(unsafe.Pointer(&w.n))
	}
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
}

// Done decrements the counter.
func (w *WaitGroup) Done() { w.Add(-1) }

// Wait waits for zero.
func (w *WaitGroup) Wait() {
	if S == nil {
		return
	}
	Yield()
	for w.n != 0 {
		waitUntil("waitgroup", func() bool { return w.n == 0 })
	}
	raceAcquire(unsafe.Pointer(&w.n))
}

// Go runs f in a goroutine.
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	Go("wg", func() { defer w.Done(); f() })
}

// Locker is a lock.
type Locker interface {
	Lock()
	Unlock()
}

// Cond is a simulated sync.Cond.
type Cond struct {
	L   Locker
	gen int
	sig int
	wtn int
}

// NewCond makes a Cond.
func NewCond(l Locker) *Cond { return &Cond{L: l} }

// Wait waits for a signal.
func (c *Cond) Wait() {
	c.wtn++
	g := c.gen
	c.L.Unlock()
	waitUntil("cond", func() bool { return c.gen != g || c.sig > 0 })
	if c.gen == g {
		c.sig--
	}
	c.wtn--
	c.L.Lock()
}

// Signal wakes one waiter.
func (c *Cond) Signal() {
	Yield()
	if c.sig < c.wtn {
		c.sig++
	}
}

// Broadcast wakes all waiters.
func (c *Cond) Broadcast() {
	Yield()
	c.gen++
	c.sig = 0
}
