// Package dst is the deterministic simulation kernel. Every task is a real
// goroutine, but exactly one of them holds the run token at any time; it is
// passed on only inside this package, and every decision about who runs next,
// which ready select case fires and when virtual time advances is drawn from
// one seeded generator (or read back from a recorded decision list).
//
// Invariant used throughout: kernel state is only touched by the token holder.
// The package allocates its slices up front and uses no Go maps, so that it can
// be compiled without race instrumentation while the code under test is
// compiled with it.
package dst

import (
	"fmt"
	"os"
	"reflect"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"unsafe"
)

const (
	stRunnable = iota
	stBlocked
	stDead
)

// Task is one simulated thread.
type Task struct {
	id        int32
	name      string
	grp       *Group
	wake      chan struct{}
	state     uint8
	yielded   bool
	killed    bool
	unwinding bool
	granted   bool
	sleeping  bool
	waitOn    unsafe.Pointer
	waitWhat  string
	waitSite  int32
	site      int32
	prio      uint64
	pausedTo  uint64 // not scheduled before this step while others can run
	fn        func()
	joinDone  bool
	spawnSeq  int32 // per-parent child counter
	raceTok   byte
}

// ID returns the task's number in this run.
func (t *Task) ID() int { return int(t.id) }

// Name returns the task's name.
func (t *Task) Name() string { return t.name }

// Done tells whether the task has finished.
func (t *Task) Done() bool { return t.state == stDead }

// Group is one simulated operating-system process.
type Group struct {
	Name   string
	Dead   bool
	Exited bool // exited by itself (os.Exit, log.Fatal)
	Msg    string
	// OnExit, when not nil, is called instead of failing the run when the
	// process exits by itself.
	OnExit func(msg string)
	// OnPanic, when not nil, is called instead of failing the run when a task
	// of the process panics (the process dies either way).
	OnPanic func(msg string)
	// OnDeath functions run (in kernel context) when the process ends.
	OnDeath []func()
	id      int
}

// Decision is one recorded departure from the default schedule.
type Decision struct {
	Step uint64
	Val  int32
}

// Violation describes what a run found.
type Violation struct {
	Class string
	Msg   string
	Step  uint64
	Now   int64
}

// Config sets up one run.
type Config struct {
	Seed     uint64
	Strategy int    // 0 uniform, 1 priorities, 2 stalls, 3 pauses at chosen code points
	Pauses   uint64 // strategy 3: one code point in so many is chosen
	Mean     uint64 // mean number of yield points between preemptions
	Cost     int64  // virtual ns per yield point
	Warp     uint32 // chance (of 1000) that a preemption advances the clock to the next timer
	MaxSteps uint64 // step budget: exceeding it is a progress violation
	FairFrom uint64 // after this step the scheduler is fair (round robin)
	MapSeed  uint64 // order of map iteration; 0 is sorted order
	Replay   []Decision
	UseList  bool // follow Replay instead of the generator
	MaxTime  int64
	Trace    bool // keep a readable log
}

// Stats is what one run covered.
type Stats struct {
	Steps, Switches, Preempts uint64
	SyncEvents                uint64
	TimerFires                uint64
	VirtualNS                 int64
	Tasks                     int
	Hash                      uint64
	Diverged                  int
	Kills                     int
	SelectChoices             uint64
	Warps, Stalls             uint64
}

// Result of a run.
type Result struct {
	Viol      *Violation
	Stats     Stats
	Decisions []Decision
	Log       []string
}

type sched struct {
	cfg       Config
	rng       uint64
	data      uint64 // generator for data decisions (map orders, workload)
	step      uint64
	tasks     []*Task
	runq      []*Task
	timers    []*timer
	firing    *timer
	timerSeq  uint64
	timeAdd   int64
	idle      int64 // the part of timeAdd that passed because nothing could run
	baseTime  int64
	lastSw    uint64
	dec       []Decision
	repIdx    int
	viol      *Violation
	ending    bool
	done      chan struct{}
	reap      chan struct{}
	reaping   bool
	st        Stats
	progress  uint64
	spinMark  uint64
	spins     uint64
	stallTask *Task
	stallEnd  uint64
	nextPct   uint64
	lowPrio   uint64
	groups    int
	events    []scripted
	epoch     uint32
	log       []string
	mapCtr    uint64
	objSeq    uint32
	fired     uint64
}

type scripted struct {
	step uint64
	fn   func()
}

var (
	s     *sched
	cur   *Task
	step  uint64 // mirrors s.step for the fast path
	next  uint64 = ^uint64(0)
	epoch uint32
	// BaseTime is the virtual time at which every run starts (unix ns).
	BaseTime int64 = 1600000000 * 1e9
)

const quantum = 6000
const spinLimit = 30000

// Active tells whether the caller runs under the simulator.
func Active() bool { return s != nil }

// Epoch numbers runs; primitives reset themselves when it changes.
func Epoch() uint32 { return epoch }

func mix(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

// Mix is the kernel's integer hash, for harness use.
func Mix(x uint64) uint64 { return mix(x) }

func (k *sched) rand() uint64 {
	k.rng += 0x9e3779b97f4a7c15
	x := k.rng
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

func (k *sched) randn(n int) int {
	if n <= 1 {
		return 0
	}
	return int(k.rand() % uint64(n))
}

// Rand draws from the run's data generator (deterministic; independent of the
// schedule generator).
func Rand() uint64 {
	if s == nil {
		return 4
	}
	s.data += 0x9e3779b97f4a7c15
	return mix(s.data)
}

func (k *sched) record(v int32) {
	if len(k.dec) < cap(k.dec) {
		k.dec = append(k.dec, Decision{k.step, v})
	} else {
		nd := make([]Decision, len(k.dec), cap(k.dec)*2+1024)
		for i := range k.dec {
			nd[i] = k.dec[i]
		}
		k.dec = append(nd, Decision{k.step, v})
	}
}

// replayAt returns the recorded decision for the current step, if there is one.
func (k *sched) replayAt() (int32, bool) {
	r := k.cfg.Replay
	for k.repIdx < len(r) && r[k.repIdx].Step < k.step {
		k.repIdx++
		k.st.Diverged++
	}
	if k.repIdx < len(r) && r[k.repIdx].Step == k.step {
		v := r[k.repIdx].Val
		k.repIdx++
		return v, true
	}
	return 0, false
}

func (k *sched) ev(kind uint64, obj uint64) {
	k.st.SyncEvents++
	k.st.Hash = mix(k.st.Hash ^ uint64(cur.id)<<40 ^ kind<<32 ^ obj)
}

// Event folds an observable event of the harness into the history hash.
func Event(x uint64) {
	if s != nil {
		s.st.Hash = mix(s.st.Hash ^ x)
	}
}

func (k *sched) setNext() {
	n := k.lastSw + quantum
	if k.cfg.UseList {
		i := k.repIdx
		if i < len(k.cfg.Replay) && k.cfg.Replay[i].Step < n {
			n = k.cfg.Replay[i].Step
		}
	} else if k.nextPct < n {
		n = k.nextPct
	}
	for i := range k.events {
		if k.events[i].step < n {
			n = k.events[i].step
		}
	}
	if k.cfg.MaxSteps < n {
		n = k.cfg.MaxSteps
	}
	if k.cfg.Cost > 0 && len(k.timers) > 0 {
		d := k.timers[0].when - k.now()
		if d < 0 {
			d = 0
		}
		m := k.step + uint64(d/k.cfg.Cost) + 1
		if m < n {
			n = m
		}
	}
	if n <= k.step {
		n = k.step + 1
	}
	next = n
}

func (k *sched) drawPreempt() {
	if k.cfg.UseList {
		return
	}
	m := k.cfg.Mean
	if m == 0 {
		k.nextPct = ^uint64(0)
		return
	}
	if k.step >= k.cfg.FairFrom {
		m = 200
	}
	k.nextPct = k.step + 1 + k.rand()%(2*m)
}

// hit says which preemption points were passed, in any run, and at which of
// them tasks are paused in this one.
var hit [1 << 14]uint8

const (
	hitPassed = 1
	hitPause  = 2 // pause at the point
	hitSync   = 4 // pause at a synchronisation operation after the point
)

// lastSite is the point last passed by the running task.
var lastSite int32

// Hits returns, for every preemption point in turn, whether any run passed it.
func Hits() []byte {
	n := len(Sites)
	if n > len(hit) {
		n = len(hit)
	}
	b := make([]byte, n)
	for i := range b {
		b[i] = hit[i] & hitPassed
	}
	return b
}

// setPauses chooses where tasks are paused.
func (k *sched) setPauses() {
	for i := range hit {
		hit[i] &= hitPassed
	}
	if k.cfg.UseList || k.cfg.Strategy != 3 || k.cfg.Pauses == 0 {
		return
	}
	hit[0] |= hitPause
	for i := 1; i < len(Sites) && i < len(hit); i++ {
		h := mix(k.cfg.Seed ^ uint64(i)*0x9e3779b97f4a7c15)
		if h%k.cfg.Pauses == 0 {
			hit[i] |= hitPause
		}
		if (h>>32)%k.cfg.Pauses == 0 {
			hit[i] |= hitSync
		}
	}
}

// pause may take the processor from the running task for a while.
func pause(site int32) {
	k := s
	if k == nil || cur.unwinding || k.ending || step >= k.cfg.FairFrom {
		return
	}
	if site == 0 && hit[lastSite&(1<<14-1)]&hitSync == 0 {
		return
	}
	k.step = step
	r := k.rand()
	if r&1 == 0 {
		return
	}
	cur.site = lastSite
	cur.pausedTo = step + [...]uint64{30, 100, 300, 1000, 3000}[r>>1%5]
	c := k.pickUnpaused()
	if c == nil || c.pausedTo > step {
		cur.pausedTo = 0
		return
	}
	k.st.Stalls++
	k.st.Preempts++
	k.record(c.id + 1)
	k.preemptTo(c)
	k.setNext()
}

// pickUnpaused chooses among the runnable tasks, paused ones last.
func (k *sched) pickUnpaused() *Task {
	n := len(k.runq)
	if n == 0 {
		return nil
	}
	i := k.randn(n)
	for pass := 0; pass < 2; pass++ {
		for j := 0; j < n; j++ {
			x := k.runq[(i+j)%n]
			if x.pausedTo <= k.step && (pass == 1 || !x.yielded) {
				return x
			}
		}
	}
	return k.runq[i]
}

// Y is a preemption point.
func Y(site int32) {
	step++
	h := hit[site&(1<<14-1)]
	hit[site&(1<<14-1)] = h | hitPassed
	if site != 0 {
		lastSite = site
	}
	if step < next {
		if h&hitPause != 0 {
			pause(site)
		}
		return
	}
	yslow(site)
}

func yslow(site int32) {
	if s == nil {
		next = ^uint64(0)
		return
	}
	k := s
	k.step = step
	t := cur
	if t.unwinding || k.ending {
		next = step + 1000
		return
	}
	if site != 0 {
		t.site = site
	}
	k.checkBudget()
	k.runEvents()
	if t.killed && !t.unwinding {
		exitUnwind(t)
	}
	k.fireDue()
	if k.cfg.UseList {
		v, ok := k.replayAt()
		if ok {
			k.applyY(v)
		} else if k.step >= k.lastSw+quantum {
			k.rotate()
		}
		k.setNext()
		return
	}
	if k.step >= k.nextPct {
		k.drawPreempt()
		if k.cfg.Warp > 0 && len(k.timers) > 0 && uint32(k.rand()%1000) < k.cfg.Warp {
			k.record(-2)
			k.st.Warps++
			k.warp()
			k.setNext()
			return
		}
		if c := k.choosePreempt(); c != nil && c != t {
			k.record(c.id + 1)
			k.st.Preempts++
			k.preemptTo(c)
		} else if k.step >= k.lastSw+quantum {
			k.rotate()
		}
	} else if k.step >= k.lastSw+quantum {
		k.rotate()
	}
	k.setNext()
}

// applyY applies a recorded decision at a preemption point.
func (k *sched) applyY(v int32) {
	if v == -2 {
		k.st.Warps++
		k.warp()
		return
	}
	for _, c := range k.runq {
		if c.id+1 == v {
			k.st.Preempts++
			k.preemptTo(c)
			return
		}
	}
	k.st.Diverged++
}

func (k *sched) warp() {
	if len(k.timers) == 0 {
		return
	}
	d := k.timers[0].when - k.now()
	if d > farAway {
		return
	}
	if d > 0 {
		k.timeAdd += d
	}
	k.fireDue()
}

// farAway is when a timer may as well not be there.
const farAway = int64(365*24) * 3600 * 1e9

// rotate is the forced, default end of a quantum.
func (k *sched) rotate() {
	if len(k.runq) == 0 {
		k.lastSw = k.step
		return
	}
	c := k.runq[0]
	for _, x := range k.runq {
		if !x.yielded {
			c = x
			break
		}
	}
	k.preemptTo(c)
}

func (k *sched) preemptTo(c *Task) {
	k.removeRun(c)
	k.pushRun(cur)
	k.switchTo(c)
}

func (k *sched) choosePreempt() *Task {
	n := len(k.runq)
	if n == 0 {
		return nil
	}
	switch {
	case k.step >= k.cfg.FairFrom:
		return k.runq[0]
	case k.cfg.Strategy == 1:
		// priorities: lower the running task below everyone (a change point)
		k.lowPrio--
		cur.prio = k.lowPrio
		return k.best()
	case k.cfg.Strategy == 2:
		if k.stallTask == nil || k.step >= k.stallEnd || k.stallTask.state == stDead {
			// pick a victim (sometimes the running task) and starve it
			all := k.randn(n + 1)
			if all == n {
				k.stallTask = cur
			} else {
				k.stallTask = k.runq[all]
			}
			k.stallEnd = k.step + 1 + k.rand()%(1+20*k.cfg.Mean)
			k.st.Stalls++
		}
		return k.pickUnstalled()
	case k.cfg.Strategy == 3:
		return k.pickUnpaused()
	}
	i := k.randn(n)
	c := k.runq[i]
	if c.yielded && k.rand()%4 != 0 {
		for j := 0; j < n; j++ {
			x := k.runq[(i+j)%n]
			if !x.yielded {
				return x
			}
		}
	}
	return c
}

func (k *sched) best() *Task {
	var b *Task
	for _, x := range k.runq {
		if b == nil || (b.yielded && !x.yielded) ||
			(b.yielded == x.yielded && x.prio > b.prio) {
			b = x
		}
	}
	return b
}

func (k *sched) pickUnstalled() *Task {
	n := len(k.runq)
	if n == 0 {
		return nil
	}
	i := k.randn(n)
	for pass := 0; pass < 2; pass++ {
		for j := 0; j < n; j++ {
			x := k.runq[(i+j)%n]
			if x == k.stallTask {
				continue
			}
			if pass == 0 && x.yielded {
				continue
			}
			return x
		}
	}
	return k.runq[i]
}

func (k *sched) removeRun(t *Task) {
	q := k.runq
	for i := range q {
		if q[i] == t {
			for j := i; j+1 < len(q); j++ {
				q[j] = q[j+1]
			}
			q[len(q)-1] = nil
			k.runq = q[:len(q)-1]
			return
		}
	}
}

func (k *sched) pushRun(t *Task) {
	t.state = stRunnable
	if len(k.runq) == cap(k.runq) {
		nq := make([]*Task, len(k.runq), 2*cap(k.runq)+64)
		for i := range k.runq {
			nq[i] = k.runq[i]
		}
		k.runq = nq
	}
	k.runq = k.runq[:len(k.runq)+1]
	k.runq[len(k.runq)-1] = t
}

// ready makes a blocked task runnable.
func (k *sched) ready(t *Task) {
	if t.state != stBlocked {
		return
	}
	t.waitOn = nil
	t.yielded = false
	k.progress++
	k.pushRun(t)
}

// switchTo hands the token to c; the caller has already queued or blocked the
// current task.
func (k *sched) switchTo(c *Task) {
	me := cur
	k.lastSw = k.step
	if c == me {
		me.state = stRunnable
		return
	}
	k.st.Switches++
	k.st.Hash = mix(k.st.Hash ^ uint64(c.id)<<8 ^ 0x5)
	if k.cfg.Trace {
		k.logf("step %d: %s -> %s (was at %s%s)", k.step, me.name, c.name, SiteName(me.site), blockedText(me))
	}
	cur = c
	c.yielded = false
	k.setNext()
	at := lastSite
	handoff(c)
	await(me)
	lastSite = at
	if me.killed && !me.unwinding {
		exitUnwind(me)
	}
}

func blockedText(t *Task) string {
	if t.state == stBlocked {
		return ", waits for " + t.waitWhat
	}
	return ""
}

func handoff(t *Task) {
	raceOff()
	t.wake <- struct{}{}
	raceOn()
}

func await(t *Task) {
	raceOff()
	<-t.wake
	raceOn()
}

// block parks the current task until ready(t) is called on it.
func (k *sched) block(what string) {
	t := cur
	t.state = stBlocked
	t.waitWhat = what
	t.waitSite = t.site
	k.step = step
	c := k.pick()
	if c == nil {
		return // the run ended; never returns here for a blocked task
	}
	k.removeRun(c)
	k.switchTo(c)
}

// pick chooses the next task when the current one cannot go on. It advances
// virtual time when nothing is runnable.
func (k *sched) pick() *Task {
	step++
	k.step = step
	k.checkBudget()
	if k.ending {
		return nil
	}
	k.runEvents()
	if cur.killed && !cur.unwinding && cur.state != stDead {
		// killed by a scripted event while about to block
		k.removeRun(cur)
		cur.state = stRunnable
		exitUnwind(cur)
	}
	for {
		k.fireDue()
		if len(k.runq) > 0 {
			break
		}
		if len(k.timers) == 0 || k.timers[0].when-k.now() > farAway {
			k.deadlock()
			return nil
		}
		d := k.timers[0].when - k.now()
		if d > 0 {
			k.timeAdd += d
			k.idle += d
		}
		if k.cfg.MaxTime > 0 && k.now()-k.baseTime > k.cfg.MaxTime {
			k.fail("livelock", "virtual time budget exceeded: "+k.dump())
			k.endRun()
			return nil

		}
	}
	return k.pickFrom()
}

func (k *sched) pickFrom() *Task {
	def := k.runq[0]
	for _, x := range k.runq {
		if !x.yielded {
			def = x
			break
		}
	}
	if k.cfg.UseList {
		if v, ok := k.replayAt(); ok {
			for _, c := range k.runq {
				if c.id+1 == v {
					return c
				}
			}
			k.st.Diverged++
		}
		return def
	}
	if len(k.runq) == 1 || k.step >= k.cfg.FairFrom {
		return def
	}
	var c *Task
	switch k.cfg.Strategy {
	case 1:
		c = k.best()
	case 2:
		c = k.pickUnstalled()
	case 3:
		c = k.pickUnpaused()
	default:
		n := len(k.runq)
		i := k.randn(n)
		c = k.runq[i]
		if c.yielded {
			for j := 0; j < n; j++ {
				x := k.runq[(i+j)%n]
				if !x.yielded {
					c = x
					break
				}
			}
		}
	}
	if c != def {
		k.record(c.id + 1)
	}
	return c
}

// Gosched yields the processor.
func Gosched() {
	if s == nil || cur.unwinding {
		return
	}
	k := s
	t := cur
	step++
	k.step = step
	k.checkBudget()
	k.runEvents()
	if t.killed {
		exitUnwind(t)
	}
	k.fireDue()
	if k.progress == k.spinMark {
		k.spins++
	} else {
		k.spinMark = k.progress
		k.spins = 0
	}
	allYield := true
	for _, x := range k.runq {
		if !x.yielded {
			allYield = false
			break
		}
	}
	if allYield && k.spins > uint64(3*(len(k.runq)+1)) {
		if len(k.timers) > 0 {
			k.spins = 0
			before := k.timeAdd
			k.warp()
			k.idle += k.timeAdd - before
		} else if k.spins > spinLimit {
			k.fail("livelock", "every runnable task only spins and nothing can change: "+k.dump())
			k.endRun()
			return
		}
	}
	if len(k.runq) == 0 {
		k.lastSw = k.step
		k.setNext()
		return
	}
	t.yielded = true
	c := k.pickFrom()
	k.removeRun(c)
	k.pushRun(t)
	k.switchTo(c)
	k.setNext()
}

func (k *sched) checkBudget() {
	if k.ending {
		return
	}
	if k.step >= k.cfg.MaxSteps {
		k.fail("livelock", fmt.Sprintf("no completion within %d scheduling steps: %s", k.cfg.MaxSteps, k.dump()))
		k.endRun()
	}
}

func (k *sched) runEvents() {
	for i := 0; i < len(k.events); i++ {
		if k.events[i].step <= k.step {
			fn := k.events[i].fn
			for j := i; j+1 < len(k.events); j++ {
				k.events[j] = k.events[j+1]
			}
			k.events = k.events[:len(k.events)-1]
			i--
			fn()
		}
	}
}

// AtStep runs fn (in kernel context: it must not block) when the global step
// counter reaches n more steps.
func AtStep(n uint64, fn func()) {
	s.events = append(s.events, scripted{step + n, fn})
	s.step = step
	s.setNext()
}

// CancelEvents drops scripted events that have not fired.
func CancelEvents() { s.events = s.events[:0] }

func (k *sched) deadlock() {
	k.fail("deadlock", "all tasks are blocked and no timer is pending for a year: "+k.dump())
	k.endRun()
}

// dump describes what unfinished tasks wait for.
func (k *sched) dump() string {
	var b strings.Builder
	n := 0
	seen := 0
	for _, t := range k.tasks {
		if t.state == stDead {
			continue
		}
		n++
		if n > 40 {
			continue
		}
		switch t.state {
		case stRunnable:
			fmt.Fprintf(&b, "[%s runnable at %s] ", t.name, SiteName(t.site))
		case stBlocked:
			if strings.HasPrefix(t.waitWhat, "receive") && seen > 12 {
				continue
			}
			if strings.HasPrefix(t.waitWhat, "receive") {
				seen++
			}
			fmt.Fprintf(&b, "[%s: %s at %s] ", t.name, t.waitWhat, SiteName(t.site))
		}
	}
	return b.String()
}

func (k *sched) fail(class, msg string) {
	if k.viol != nil || k.ending {
		return
	}
	k.viol = &Violation{Class: class, Msg: msg, Step: k.step, Now: k.now() - k.baseTime}
}

// Fail records a violation and ends the run. It does not return when called on
// a task.
func Fail(class, format string, args ...interface{}) {
	if s == nil {
		panic("dst.Fail outside a run: " + fmt.Sprintf(format, args...))
	}
	if cur.unwinding || s.ending {
		return
	}
	s.step = step
	s.fail(class, fmt.Sprintf(format, args...))
	s.endRun()
}

// endRun stops the simulation from a task: it gives control to Run and parks
// until it is reaped.
func (k *sched) endRun() {
	t := cur
	k.ending = true
	raceOff()
	k.done <- struct{}{}
	if t.state == stDead {
		raceOn()
		return // called while a finished task looks for a successor
	}
	<-t.wake
	raceOn()
	exitUnwind(t)
}

func exitUnwind(t *Task) {
	t.unwinding = true
	t.killed = true
	runtime.Goexit()
}

// Unwinding tells whether the current task is being torn down (its process
// died): stand-ins must not take effect then.
func Unwinding() bool { return s != nil && (cur == nil || cur.unwinding) }

func (k *sched) newTask(name string, g *Group, fn func()) *Task {
	t := &Task{id: int32(len(k.tasks)), name: name, grp: g, fn: fn,
		wake: make(chan struct{}, 1)}
	t.prio = 1<<40 + k.prioDraw()
	if len(k.tasks) == cap(k.tasks) {
		nq := make([]*Task, len(k.tasks), 2*cap(k.tasks)+64)
		for i := range k.tasks {
			nq[i] = k.tasks[i]
		}
		k.tasks = nq
	}
	k.tasks = k.tasks[:len(k.tasks)+1]
	k.tasks[len(k.tasks)-1] = t
	return t
}

func (k *sched) prioDraw() uint64 {
	if k.cfg.UseList {
		return 0
	}
	return k.rand() >> 30
}

// Go starts a task in the current process.
func Go(name string, fn func()) *Task {
	if s == nil {
		go fn()
		return nil
	}
	if cur.unwinding {
		return nil
	}
	return goIn(cur.grp, name, fn)
}

// GoIn starts a task in process g.
func GoIn(g *Group, name string, fn func()) *Task { return goIn(g, name, fn) }

func goIn(g *Group, name string, fn func()) *Task {
	k := s
	if g != nil && g.Dead {
		return nil
	}
	t := k.newTask(name, g, fn)
	t.name = name + "#" + strconv.Itoa(int(t.id))
	k.ev(1, uint64(t.id))
	k.progress++
	k.pushRun(t)
	go t.main(k)
	Y(0)
	return t
}

func (t *Task) main(k *sched) {
	await(t)
	defer t.exit(k)
	if t.killed {
		t.unwinding = true
		return
	}
	t.fn()
	t.joinDone = true
}

func (t *Task) exit(k *sched) {
	if r := recover(); r != nil {
		if !k.ending && !t.unwinding {
			k.step = step
			msg := fmt.Sprint(r)
			if e, ok := r.(error); ok {
				msg = e.Error()
			}
			msg += "\n" + trimStack(string(debug.Stack()))
			if t.grp != nil && t.grp.OnPanic != nil {
				t.grp.Msg = msg
				f := t.grp.OnPanic
				t.unwinding = false
				f(msg)
				killGroup(t.grp, t)
			} else {
				k.fail("panic", "in task "+t.name+": "+msg)
				k.ending = true
				t.state = stDead
				raceOff()
				k.done <- struct{}{}
				raceOn()
				return
			}
		}
	}
	t.unwinding = true
	t.state = stDead
	raceRelease(unsafe.Pointer(&t.raceTok))
	if k.reaping || k.ending {
		raceOff()
		k.reap <- struct{}{}
		raceOn()
		return
	}
	for _, x := range k.tasks {
		if x.waitOn == unsafe.Pointer(t) {
			k.ready(x)
		}
	}
	k.progress++
	c := k.pick()
	if c == nil {
		return
	}
	k.removeRun(c)
	k.lastSw = k.step
	k.st.Switches++
	cur = c
	c.yielded = false
	k.setNext()
	handoff(c)
}

func trimStack(st string) string {
	lines := strings.Split(st, "\n")
	var out []string
	for i := 0; i+1 < len(lines) && len(out) < 24; i++ {
		l := lines[i]
		if strings.HasPrefix(l, "goroutine ") || strings.HasPrefix(l, "\t") {
			continue
		}
		if strings.Contains(l, "runtime/debug") || strings.Contains(l, "verif.local/sim/dst") ||
			strings.HasPrefix(l, "panic(") {
			continue
		}
		pos := strings.TrimSpace(lines[i+1])
		if j := strings.Index(pos, " +0x"); j > 0 {
			pos = pos[:j]
		}
		if j := strings.Index(l, "("); j > 0 && !strings.Contains(l, "(*") {
			l = l[:j]
		}
		out = append(out, "  "+l+" "+pos)
	}
	return strings.Join(out, "\n")
}

// Join blocks until the task has finished.
func (t *Task) Join() {
	if t == nil {
		return
	}
	for t.state != stDead {
		cur.waitOn = unsafe.Pointer(t)
		s.block("join of " + t.name)
		if cur.unwinding {
			return
		}
	}
	raceAcquire(unsafe.Pointer(&t.raceTok))
}

// Completed tells whether the task ran to its end (it was not killed).
func (t *Task) Completed() bool { return t != nil && t.joinDone }

// NewGroup makes a simulated process.
func NewGroup(name string) *Group {
	s.groups++
	raceAcquireDead(s) // what dead processes did lies before
	return &Group{Name: name, id: s.groups}
}

// CurrentGroup is the process of the running task.
func CurrentGroup() *Group {
	if s == nil || cur == nil {
		return nil
	}
	return cur.grp
}

// Tasks is the number of g's tasks that have not ended.
func (g *Group) Tasks() (n int) {
	for _, t := range s.tasks {
		if t.grp == g && t.state != stDead {
			n++
		}
	}
	return
}

// Kill ends process g at this very point: its tasks run no further (deferred
// functions run with every simulated effect disabled). If the caller belongs to
// g it does not return.
func Kill(g *Group) {
	if g.Dead || cur.unwinding {
		return
	}
	s.st.Kills++
	killGroup(g, cur)
	if cur.grp == g {
		exitUnwind(cur)
	}
}

// MarkKill is Kill for use in scripted events: the running task, if it belongs
// to g, unwinds at its next scheduling point.
func MarkKill(g *Group) {
	if g.Dead {
		return
	}
	s.st.Kills++
	killGroup(g, cur)
	if cur.grp == g {
		cur.killed = true
	}
}

func killGroup(g *Group, self *Task) {
	k := s
	g.Dead = true
	for _, f := range g.OnDeath {
		f()
	}
	for i := 0; i < len(k.tasks); i++ {
		t := k.tasks[i]
		if t.grp == g && t != self && t.state != stDead {
			k.reapOne(t, self)
		}
	}
	// timers of the group die with it
	j := 0
	for _, x := range k.timers {
		if x.grp != g {
			k.timers[j] = x
			j++
		}
	}
	k.timers = k.timers[:j]
	k.heapInit()
}

// reapOne unwinds one parked task and waits for it.
func (k *sched) reapOne(t *Task, self *Task) {
	t.killed = true
	k.removeRun(t)
	t.waitOn = nil
	save := k.reaping
	k.reaping = true
	prev := cur
	cur = t
	raceOff()
	t.wake <- struct{}{}
	<-k.reap
	raceOn()
	cur = prev
	k.reaping = save
	t.state = stDead
	for _, x := range k.tasks {
		if x.waitOn == unsafe.Pointer(t) {
			k.ready(x)
		}
	}
}

// Exit ends the current simulated process by itself.
func Exit(msg string) {
	if s == nil {
		fmt.Fprintln(os.Stderr, "process exit: "+msg)
		os.Exit(3)
	}
	if cur.unwinding {
		runtime.Goexit()
	}
	g := cur.grp
	s.step = step
	if g == nil {
		s.fail("exit", "process exit: "+msg)
		s.endRun()
	}
	g.Exited = true
	g.Msg = msg
	if g.OnExit != nil {
		g.OnExit(msg)
	} else {
		s.fail("exit", "process "+g.Name+" exited: "+msg+callerText())
		s.endRun()
	}
	killGroup(g, cur)
	exitUnwind(cur)
}

func callerText() string {
	return "\n" + trimStack(string(debug.Stack()))
}

func (k *sched) logf(f string, a ...interface{}) {
	if len(k.log) < 200000 {
		k.log = append(k.log, fmt.Sprintf(f, a...))
	}
}

// Logf adds a line to the readable trace of the run (when it is kept).
func Logf(f string, a ...interface{}) {
	if s != nil && s.cfg.Trace {
		s.step = step
		s.logf("step %d t=%dns %s: "+f, append([]interface{}{step, s.now() - s.baseTime, cur.name}, a...)...)
	}
}

// Tracing tells whether the readable trace is kept.
func Tracing() bool { return s != nil && s.cfg.Trace }

// Step is the current global step.
func Step() uint64 { return step }

// Fair makes the scheduler fair from now on: no task is paused, stalled or
// passed over any more.
func Fair() {
	if s != nil && step < s.cfg.FairFrom {
		s.cfg.FairFrom = step
	}
}

// Self is the running task.
func Self() *Task { return cur }

// Sites maps the instrumenter's preemption-point numbers to source positions.
var Sites []string

// SiteName names a preemption point.
func SiteName(i int32) string {
	if i > 0 && int(i) < len(Sites) {
		return Sites[i]
	}
	return "?"
}

// Run executes one simulation; main runs as the first task.
func Run(cfg Config, main func()) Result {
	if s != nil {
		panic("nested Run")
	}
	if cfg.MaxSteps == 0 {
		cfg.MaxSteps = 5000000
	}
	if cfg.FairFrom == 0 {
		cfg.FairFrom = cfg.MaxSteps / 2
	}
	epoch++
	k := &sched{cfg: cfg, rng: mix(cfg.Seed) ^ 0xabcdef, data: mix(cfg.Seed ^ 0x5151),
		tasks: make([]*Task, 0, 256), runq: make([]*Task, 0, 256),
		dec: make([]Decision, 0, 4096), timers: make([]*timer, 0, 64),
		done: make(chan struct{}, 1), reap: make(chan struct{}, 1),
		baseTime: BaseTime, lowPrio: 1 << 39, epoch: epoch,
		events: make([]scripted, 0, 16),
	}
	chansReset()
	step = 0
	s = k
	k.setPauses()
	lastSite = 0
	k.drawPreempt()
	k.setNext()
	t := k.newTask("main", nil, nil)
	t.fn = func() {
		main()
		if !k.ending {
			k.endRun()
		}
	}
	cur = t
	raceReleaseAll()
	go t.main(k)
	raceOff()
	t.wake <- struct{}{}
	<-k.done
	raceOn()
	// tear down
	k.ending = true
	k.reaping = true
	for i := 0; i < len(k.tasks); i++ {
		x := k.tasks[i]
		if x.state == stDead {
			continue
		}
		x.killed = true
		cur = x
		raceOff()
		x.wake <- struct{}{}
		<-k.reap
		raceOn()
		x.state = stDead
	}
	raceAcquireAll(k)
	k.st.Steps = step
	k.st.VirtualNS = k.now() - k.baseTime
	k.st.Tasks = len(k.tasks)
	if k.viol != nil {
		k.st.Hash = mix(k.st.Hash ^ hashStr(k.viol.Class))
	}
	res := Result{Viol: k.viol, Stats: k.st, Decisions: k.dec, Log: k.log}
	if cfg.UseList {
		res.Decisions = cfg.Replay
	}
	s = nil
	cur = nil
	next = ^uint64(0)
	return res
}

func hashStr(x string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(x); i++ {
		h = (h ^ uint64(x[i])) * 1099511628211
	}
	return h
}

// HashStr is a string hash for harness use.
func HashStr(x string) uint64 { return hashStr(x) }

// Package-level variables of the instrumented packages, as their initialisers
// left them.
type global struct{ v, init reflect.Value }

var (
	globals     []global
	globalsSeen bool
)

// Global registers a package-level variable; it is put back to its initial
// value when a simulated process starts afresh.
func Global[T any](p *T) {
	globals = append(globals, global{v: reflect.ValueOf(p).Elem()})
}

// ResetGlobals puts the package-level variables of the code under test back to
// the values they had after initialisation, which is what the first call sees.
// Maps and slices get their first contents back, pointers their target.
func ResetGlobals() {
	if !globalsSeen {
		globalsSeen = true
		for i := range globals {
			globals[i].init = cloneValue(globals[i].v)
		}
		return
	}
	for _, g := range globals {
		g.v.Set(cloneValue(g.init))
	}
}

func cloneValue(v reflect.Value) reflect.Value {
	c := reflect.New(v.Type()).Elem()
	c.Set(v)
	switch {
	case v.Kind() == reflect.Map && !v.IsNil():
		m := reflect.MakeMapWithSize(v.Type(), v.Len())
		for it := v.MapRange(); it.Next(); {
			m.SetMapIndex(it.Key(), it.Value())
		}
		c.Set(m)
	case v.Kind() == reflect.Slice && !v.IsNil():
		l := reflect.MakeSlice(v.Type(), v.Len(), v.Len())
		reflect.Copy(l, v)
		c.Set(l)
	}
	return c
}
