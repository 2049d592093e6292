package dst

import (
	"time"
	"unsafe"
)

type timer struct {
	when int64
	seq  uint64
	fn   func() // kernel context; must not block
	grp  *Group
	idx  int
	on   bool
}

func (k *sched) now() int64 { return k.baseTime + k.timeAdd + int64(step)*k.cfg.Cost }

// NowNano is the virtual time.
func NowNano() int64 {
	if s == nil {
		return BaseTime
	}
	return s.now()
}

// SinceStart is the virtual time since the start of the run.
func SinceStart() time.Duration { return time.Duration(s.now() - s.baseTime) }

// Idle is the virtual time that has passed because nothing could run: the time
// spent waiting, without execution, stalls and clock jumps.
func Idle() time.Duration { return time.Duration(s.idle) }

func (k *sched) less(i, j int) bool {
	a, b := k.timers[i], k.timers[j]
	return a.when < b.when || (a.when == b.when && a.seq < b.seq)
}

func (k *sched) swap(i, j int) {
	k.timers[i], k.timers[j] = k.timers[j], k.timers[i]
	k.timers[i].idx = i
	k.timers[j].idx = j
}

func (k *sched) up(i int) {
	for i > 0 {
		p := (i - 1) / 2
		if !k.less(i, p) {
			return
		}
		k.swap(i, p)
		i = p
	}
}

func (k *sched) down(i int) {
	n := len(k.timers)
	for {
		c := 2*i + 1
		if c >= n {
			return
		}
		if c+1 < n && k.less(c+1, c) {
			c++
		}
		if !k.less(c, i) {
			return
		}
		k.swap(i, c)
		i = c
	}
}

func (k *sched) heapInit() {
	for i := range k.timers {
		k.timers[i].idx = i
	}
	for i := len(k.timers)/2 - 1; i >= 0; i-- {
		k.down(i)
	}
}

func (k *sched) addTimer(d int64, fn func()) *timer {
	if d < 0 {
		d = 0
	}
	if m := 1<<62 - k.now(); d > m { // centuries
		d = m
	}
	k.timerSeq++
	t := &timer{when: k.now() + d, seq: k.timerSeq, fn: fn, on: true}
	t.grp = k.grpNow()
	if len(k.timers) == cap(k.timers) {
		nt := make([]*timer, len(k.timers), 2*cap(k.timers)+16)
		for i := range k.timers {
			nt[i] = k.timers[i]
		}
		k.timers = nt
	}
	k.timers = k.timers[:len(k.timers)+1]
	k.timers[len(k.timers)-1] = t
	t.idx = len(k.timers) - 1
	k.up(t.idx)
	k.step = step
	k.setNext()
	return t
}

func (k *sched) delTimer(t *timer) bool {
	if t == nil || !t.on {
		return false
	}
	t.on = false
	i := t.idx
	if i >= len(k.timers) || k.timers[i] != t {
		return false
	}
	n := len(k.timers) - 1
	if i != n {
		k.swap(i, n)
	}
	k.timers[n] = nil
	k.timers = k.timers[:n]
	if i != n {
		k.down(i)
		k.up(i)
	}
	return true
}

func (k *sched) fireDue() {
	for len(k.timers) > 0 && k.timers[0].when <= k.now() {
		t := k.timers[0]
		k.delTimer(t)
		k.st.TimerFires++
		k.progress++
		was := k.firing
		k.firing = t
		t.fn()
		k.firing = was
	}
}

// grpNow is the process that what is started now belongs to: that of the timer
// that fires, else that of the running task.
func (k *sched) grpNow() *Group {
	if k.firing != nil {
		return k.firing.grp
	}
	if cur != nil {
		return cur.grp
	}
	return nil
}

// Timer is a kernel timer.
type Timer struct{ t *timer }

// AfterKernel runs fn in kernel context (it must not block) after d.
func AfterKernel(d time.Duration, fn func()) *Timer {
	return &Timer{s.addTimer(int64(d), fn)}
}

// AfterKernelNoGroup is AfterKernel for effects that survive the death of the
// calling process.
func AfterKernelNoGroup(d time.Duration, fn func()) *Timer {
	t := s.addTimer(int64(d), fn)
	t.grp = nil
	return &Timer{t}
}

// Stop cancels the timer.
func (t *Timer) Stop() bool {
	if s == nil || t == nil {
		return false
	}
	return s.delTimer(t.t)
}

// Sleep is time.Sleep.
func Sleep(d time.Duration) {
	if s == nil || inert() {
		return
	}
	Y(0)
	if d <= 0 {
		return
	}
	me := cur
	me.sleeping = true
	var key byte
	me.waitOn = unsafe.Pointer(&key)
	s.addTimer(int64(d), func() {
		if me.sleeping {
			me.sleeping = false
			s.ready(me)
		}
	})
	s.block("sleep")
}

// Wait parks the task until wake is called on the returned function's cell.
type Cell struct {
	key  byte
	set  bool
	task *Task
}

// Wait blocks until Set was called.
func (c *Cell) Wait(what string) {
	for !c.set {
		if inert() {
			return
		}
		s.waitFor(unsafe.Pointer(&c.key), what)
	}
	raceAcquire(unsafe.Pointer(c))
}

// Set releases the waiters (kernel context allowed).
func (c *Cell) Set() {
	raceReleaseMerge(unsafe.Pointer(c))
	c.set = true
	if s != nil {
		s.progress++
		s.wakeOn(unsafe.Pointer(&c.key))
	}
}

// IsSet tells whether Set was called.
func (c *Cell) IsSet() bool { return c.set }

// GoKernel starts a task from kernel context.
func GoKernel(name string, fn func()) {
	k := s
	t := k.newTask(name, k.grpNow(), fn)
	k.progress++
	k.pushRun(t)
	go t.main(k)
}
