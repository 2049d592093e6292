package dst

import "unsafe"

// wakeOn makes every task waiting on p runnable.
func (k *sched) wakeOn(p unsafe.Pointer) {
	for i := 0; i < len(k.tasks); i++ {
		t := k.tasks[i]
		if t.waitOn == p && t.state == stBlocked {
			k.ready(t)
		}
	}
}

func (k *sched) waitFor(p unsafe.Pointer, what string) {
	cur.waitOn = p
	k.block(what)
}

func inert() bool { return cur != nil && (cur.unwinding || s.ending) }

// Mutex is the simulated sync.Mutex.
type Mutex struct {
	ep     uint32
	locked bool
	id     uint32
	nw     int32
}

func (m *Mutex) sync() {
	if m.ep != epoch {
		m.ep = epoch
		m.locked = false
		m.nw = 0
		if s != nil {
			s.objSeq++
			m.id = s.objSeq
		}
	}
}

// Lock is sync.Mutex.Lock.
func (m *Mutex) Lock() {
	if s == nil {
		m.sync()
		m.locked = true
		return
	}
	if inert() {
		return
	}
	Y(0)
	m.sync()
	for m.locked {
		m.nw++
		s.waitFor(unsafe.Pointer(m), "lock of a mutex")
		m.nw--
		if cur.unwinding {
			return
		}
	}
	m.locked = true
	s.ev(2, uint64(m.id))
	raceAcquire(unsafe.Pointer(m))
}

// TryLock is sync.Mutex.TryLock.
func (m *Mutex) TryLock() bool {
	if s == nil {
		m.sync()
		if m.locked {
			return false
		}
		m.locked = true
		return true
	}
	if inert() {
		return true
	}
	Y(0)
	m.sync()
	if m.locked {
		return false
	}
	m.locked = true
	s.ev(2, uint64(m.id))
	raceAcquire(unsafe.Pointer(m))
	return true
}

// Unlock is sync.Mutex.Unlock.
func (m *Mutex) Unlock() {
	if s == nil {
		m.locked = false
		return
	}
	if inert() {
		return
	}
	m.sync()
	if !m.locked {
		s.step = step
		Fail("panic", "fatal error: sync: unlock of unlocked mutex%s", callerText())
		return
	}
	raceReleaseMerge(unsafe.Pointer(m))
	m.locked = false
	s.progress++
	s.ev(3, uint64(m.id))
	if m.nw > 0 {
		s.wakeOn(unsafe.Pointer(m))
	}
	Y(0)
}

// RWMutex is the simulated sync.RWMutex. As in Go, an announced writer keeps
// new readers out, and readers that waited for a writer go before the next one.
type RWMutex struct {
	ep  uint32
	wm  bool // a writer holds or has announced the lock
	w   bool
	r   int32
	id  uint32
	rw  byte // wait key of readers
	ww  byte // wait key of the announced writer
	rel byte // race key: released by readers
}

func (m *RWMutex) sync() {
	if m.ep != epoch {
		*m = RWMutex{ep: epoch}
		if s != nil {
			s.objSeq++
			m.id = s.objSeq
		}
	}
}

// RLocker is sync.RWMutex.RLocker.
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (m *rlocker) Lock()   { (*RWMutex)(m).RLock() }
func (m *rlocker) Unlock() { (*RWMutex)(m).RUnlock() }

// Lock is sync.RWMutex.Lock.
func (m *RWMutex) Lock() {
	if s == nil {
		m.sync()
		m.wm, m.w = true, true
		return
	}
	if inert() {
		return
	}
	Y(0)
	m.sync()
	for m.wm {
		s.waitFor(unsafe.Pointer(m), "write lock of a rwmutex")
		if cur.unwinding {
			return
		}
	}
	m.wm = true
	for m.r > 0 {
		s.waitFor(unsafe.Pointer(&m.ww), "write lock of a rwmutex (readers active)")
		if cur.unwinding {
			return
		}
	}
	m.w = true
	s.ev(4, uint64(m.id))
	raceAcquire(unsafe.Pointer(m))
	raceAcquire(unsafe.Pointer(&m.rel))
}

// TryLock is sync.RWMutex.TryLock.
func (m *RWMutex) TryLock() bool {
	if inert() {
		return true
	}
	Y(0)
	m.sync()
	if m.wm || m.r > 0 {
		return false
	}
	m.wm, m.w = true, true
	if s != nil {
		s.ev(4, uint64(m.id))
		raceAcquire(unsafe.Pointer(m))
		raceAcquire(unsafe.Pointer(&m.rel))
	}
	return true
}

// Unlock is sync.RWMutex.Unlock.
func (m *RWMutex) Unlock() {
	if s == nil {
		m.wm, m.w = false, false
		return
	}
	if inert() {
		return
	}
	m.sync()
	if !m.w {
		s.step = step
		Fail("panic", "fatal error: sync: Unlock of unlocked RWMutex%s", callerText())
		return
	}
	raceRelease(unsafe.Pointer(m))
	m.w = false
	s.progress++
	s.ev(5, uint64(m.id))
	for i := 0; i < len(s.tasks); i++ {
		t := s.tasks[i]
		if t.waitOn == unsafe.Pointer(&m.rw) && t.state == stBlocked {
			m.r++
			t.granted = true
			s.ready(t)
		}
	}
	m.wm = false
	s.wakeOn(unsafe.Pointer(m))
	Y(0)
}

// RLock is sync.RWMutex.RLock.
func (m *RWMutex) RLock() {
	if s == nil {
		m.sync()
		m.r++
		return
	}
	if inert() {
		return
	}
	Y(0)
	m.sync()
	if m.wm {
		cur.granted = false
		for !cur.granted {
			s.waitFor(unsafe.Pointer(&m.rw), "read lock of a rwmutex")
			if cur.unwinding {
				return
			}
		}
		cur.granted = false
	} else {
		m.r++
	}
	s.ev(6, uint64(m.id))
	raceAcquire(unsafe.Pointer(m))
}

// TryRLock is sync.RWMutex.TryRLock.
func (m *RWMutex) TryRLock() bool {
	if inert() {
		return true
	}
	Y(0)
	m.sync()
	if m.wm {
		return false
	}
	m.r++
	if s != nil {
		s.ev(6, uint64(m.id))
		raceAcquire(unsafe.Pointer(m))
	}
	return true
}

// RUnlock is sync.RWMutex.RUnlock.
func (m *RWMutex) RUnlock() {
	if s == nil {
		m.r--
		return
	}
	if inert() {
		return
	}
	m.sync()
	if m.r <= 0 {
		s.step = step
		Fail("panic", "fatal error: sync: RUnlock of unlocked RWMutex%s", callerText())
		return
	}
	raceReleaseMerge(unsafe.Pointer(&m.rel))
	m.r--
	s.progress++
	s.ev(7, uint64(m.id))
	if m.r == 0 {
		s.wakeOn(unsafe.Pointer(&m.ww))
	}
	Y(0)
}

// WaitGroup is the simulated sync.WaitGroup.
type WaitGroup struct {
	ep uint32
	n  int64
	id uint32
}

func (w *WaitGroup) sync() {
	if w.ep != epoch {
		*w = WaitGroup{ep: epoch}
		if s != nil {
			s.objSeq++
			w.id = s.objSeq
		}
	}
}

// Add is sync.WaitGroup.Add.
func (w *WaitGroup) Add(d int) {
	if s == nil {
		w.sync()
		w.n += int64(d)
		return
	}
	if inert() {
		return
	}
	Y(0)
	w.sync()
	if d < 0 {
		raceReleaseMerge(unsafe.Pointer(w))
	}
	w.n += int64(d)
	s.progress++
	s.ev(8, uint64(w.id))
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if w.n == 0 {
		s.wakeOn(unsafe.Pointer(w))
	}
	Y(0)
}

// Done is sync.WaitGroup.Done.
func (w *WaitGroup) Done() { w.Add(-1) }

// Wait is sync.WaitGroup.Wait.
func (w *WaitGroup) Wait() {
	if s == nil || inert() {
		return
	}
	Y(0)
	w.sync()
	for w.n > 0 {
		s.waitFor(unsafe.Pointer(w), "wait group")
		if cur.unwinding {
			return
		}
		// as in Go, a waiter released by the counter reaching zero returns
		// even if the counter is raised again
		break
	}
	s.ev(9, uint64(w.id))
	raceAcquire(unsafe.Pointer(w))
}

// Go is sync.WaitGroup.Go.
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	Go("wg", func() {
		defer w.Done()
		f()
	})
}

// Locker is sync.Locker.
type Locker interface {
	Lock()
	Unlock()
}

// Cond is the simulated sync.Cond.
type Cond struct {
	L   Locker
	key byte
	q   []*Task
	ep  uint32
}

// NewCond is sync.NewCond.
func NewCond(l Locker) *Cond { return &Cond{L: l} }

// Wait is sync.Cond.Wait.
func (c *Cond) Wait() {
	if s == nil || inert() {
		return
	}
	if c.ep != epoch {
		c.ep = epoch
		c.q = nil
	}
	// enqueue before unlocking, as Go does
	me := cur
	nq := make([]*Task, len(c.q)+1)
	for i := range c.q {
		nq[i] = c.q[i]
	}
	nq[len(c.q)] = me
	c.q = nq
	me.granted = false
	c.L.Unlock()
	for !me.granted {
		s.waitFor(unsafe.Pointer(&c.key), "condition variable")
		if me.unwinding {
			return
		}
	}
	me.granted = false
	raceAcquire(unsafe.Pointer(c))
	c.L.Lock()
}

func (c *Cond) pop() *Task {
	for len(c.q) > 0 {
		t := c.q[0]
		c.q = c.q[1:]
		if t.state != stDead && !t.killed {
			return t
		}
	}
	return nil
}

// Signal is sync.Cond.Signal.
func (c *Cond) Signal() {
	if s == nil || inert() || c.ep != epoch {
		return
	}
	Y(0)
	raceReleaseMerge(unsafe.Pointer(c))
	if t := c.pop(); t != nil {
		t.granted = true
		s.ready(t)
	}
	s.progress++
}

// Broadcast is sync.Cond.Broadcast.
func (c *Cond) Broadcast() {
	if s == nil || inert() || c.ep != epoch {
		return
	}
	Y(0)
	raceReleaseMerge(unsafe.Pointer(c))
	for t := c.pop(); t != nil; t = c.pop() {
		t.granted = true
		s.ready(t)
	}
	s.progress++
}

// Once is the simulated sync.Once.
type Once struct {
	m    Mutex
	done bool
}

// Do is sync.Once.Do.
func (o *Once) Do(f func()) {
	Y(0)
	if o.done {
		raceAcquire(unsafe.Pointer(o))
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() {
			if !Unwinding() || s == nil {
				o.done = true
				raceRelease(unsafe.Pointer(o))
			}
		}()
		f()
	}
}

// AtomicPoint is the preemption point and history event of an atomic access.
func AtomicPoint(write bool) {
	Y(0)
	if s == nil || inert() {
		return
	}
	if write {
		s.progress++
		s.ev(10, 1)
	}
}

// AtomicRead notes the value an atomic load saw.
func AtomicRead(v uint64) {
	if s == nil || inert() {
		return
	}
}
