package dst

import "unsafe"

// Channels of the code under test keep their types; their contents and wait
// queues live here, keyed by the channel's address (the channel itself is
// referenced from the state, so that the address stays its own for the run).

type chanS struct {
	key    uintptr
	keep   interface{}
	cap    int
	buf    []interface{}
	head   int
	n      int
	closed bool
	recvq  []*waiter
	sendq  []*waiter
	id     uint32
	slots  []uint64  // race keys per buffer slot
	slotW  []*waiter // sender that waited with the value now in the slot
	slotP  []*waiter // receiver the slot's last value was handed to directly
	closeK uint64
}

type waiter struct {
	t   *Task
	op  *selOp
	idx int
	val interface{}
	ok  bool
	pan bool
	k   uint64 // race key: what the waiter did before it blocked
	k2  uint64 // race key: what its partner did
}

// selOp is one blocking channel operation (a select or a single op): the first
// waiter to fire wins.
type selOp struct {
	fired bool
	w     *waiter
}

var (
	tab     []*chanS
	tabUsed int
)

// preChan is what package initialisation left in a package-level channel,
// before any run began: every run starts from it.
type preChan struct {
	keep   interface{}
	cap    int
	vals   []interface{}
	closed bool
}

var (
	pre  map[uintptr]*preChan
	runs bool // a run has begun
)

func preOf(key uintptr, capn int, keep interface{}, what string) *preChan {
	if runs || key == 0 {
		panic("dst: " + what + " outside a run")
	}
	p := pre[key]
	if p == nil {
		if pre == nil {
			pre = map[uintptr]*preChan{}
		}
		p = &preChan{keep: keep, cap: capn}
		pre[key] = p
	}
	return p
}

func (p *preChan) send(v interface{}) bool {
	if p.closed {
		panic(plainError("send on closed channel"))
	}
	if len(p.vals) >= p.cap {
		return false
	}
	p.vals = append(p.vals, v)
	return true
}

func (p *preChan) recv() (v interface{}, open, ok bool) {
	if len(p.vals) == 0 {
		return nil, false, p.closed
	}
	v = p.vals[0]
	p.vals = p.vals[1:]
	return v, true, true
}

func chansReset() {
	runs = true
	if len(tab) != 1024 {
		tab = make([]*chanS, 1024)
	} else {
		for i := range tab {
			tab[i] = nil
		}
	}
	tabUsed = 0
}

func chanOf(key uintptr, capn int, keep interface{}) *chanS {
	h := int(mix(uint64(key)) & 0x7fffffff)
	n := len(tab)
	for i := 0; ; i++ {
		j := (h + i) % n
		c := tab[j]
		if c == nil {
			s.objSeq++
			c = &chanS{key: key, keep: keep, cap: capn, id: s.objSeq}
			if capn > 0 {
				c.buf = make([]interface{}, capn)
				c.slots = make([]uint64, capn)
				c.slotW = make([]*waiter, capn)
				c.slotP = make([]*waiter, capn)
			}
			if p := pre[key]; p != nil {
				c.closed = p.closed
				c.n = copy(c.buf, p.vals)
			}
			tab[j] = c
			tabUsed++
			if tabUsed > n/2 {
				old := tab
				tab = make([]*chanS, 2*n)
				for _, x := range old {
					if x == nil {
						continue
					}
					q := int(mix(uint64(x.key))&0x7fffffff) % len(tab)
					for tab[q] != nil {
						q = (q + 1) % len(tab)
					}
					tab[q] = x
				}
			}
			return c
		}
		if c.key == key {
			return c
		}
	}
}

func chanKey[T any](ch chan T) uintptr { return *(*uintptr)(unsafe.Pointer(&ch)) }

func push(q []*waiter, w *waiter) []*waiter {
	nq := make([]*waiter, len(q)+1)
	for i := range q {
		nq[i] = q[i]
	}
	nq[len(q)] = w
	return nq
}

func pop(q *[]*waiter) *waiter {
	for len(*q) > 0 {
		w := (*q)[0]
		*q = (*q)[1:]
		if w.op.fired || w.t.killed || w.t.state == stDead {
			continue
		}
		return w
	}
	return nil
}

func hasWaiter(q *[]*waiter) bool {
	for len(*q) > 0 {
		w := (*q)[0]
		if w.op.fired || w.t.killed || w.t.state == stDead {
			*q = (*q)[1:]
			continue
		}
		return true
	}
	return false
}

func (c *chanS) canSend(self *selOp) bool {
	return c.closed || c.n < c.cap || hasWaiter(&c.recvq)
}

func (c *chanS) canRecv() bool {
	return c.n > 0 || c.closed || hasWaiter(&c.sendq)
}

// doSend performs a send that canSend allowed.
func (c *chanS) doSend(v interface{}) {
	if c.closed {
		panic(plainError("send on closed channel"))
	}
	s.progress++
	s.ev(20, uint64(c.id))
	if w := pop(&c.recvq); w != nil {
		if c.cap == 0 {
			raceAcquire(unsafe.Pointer(&w.k))
		} else {
			// the value passes through the (empty) buffer
			c.slotSend()
			c.slotP[c.head] = w
			c.head = (c.head + 1) % c.cap
		}
		raceReleaseMerge(unsafe.Pointer(&w.k2))
		w.op.fired = true
		w.op.w = w
		w.val, w.ok = v, true
		s.ready(w.t)
		return
	}
	c.slotSend()
	c.buf[(c.head+c.n)%c.cap] = v
	c.n++
}

func (c *chanS) slotSend() {
	i := (c.head + c.n) % c.cap
	if w := c.slotP[i]; w != nil {
		raceAcquire(unsafe.Pointer(&w.k))
		c.slotP[i] = nil
	}
	raceAcquire(unsafe.Pointer(&c.slots[i]))
	raceRelease(unsafe.Pointer(&c.slots[i]))
}

func (c *chanS) slotRecv(i int) {
	if w := c.slotW[i]; w != nil {
		raceAcquire(unsafe.Pointer(&w.k))
		c.slotW[i] = nil
	}
	raceAcquire(unsafe.Pointer(&c.slots[i]))
	raceRelease(unsafe.Pointer(&c.slots[i]))
}

// doRecv performs a receive that canRecv allowed.
func (c *chanS) doRecv() (interface{}, bool) {
	s.progress++
	s.ev(21, uint64(c.id))
	if c.n > 0 {
		v := c.buf[c.head]
		c.buf[c.head] = nil
		c.slotRecv(c.head)
		c.head = (c.head + 1) % c.cap
		c.n--
		if w := pop(&c.sendq); w != nil {
			i := (c.head + c.n) % c.cap
			c.buf[i] = w.val
			c.slotW[i] = w
			c.n++
			raceReleaseMerge(unsafe.Pointer(&w.k2))
			w.op.fired = true
			w.op.w = w
			s.ready(w.t)
		}
		return v, true
	}
	if w := pop(&c.sendq); w != nil {
		raceAcquire(unsafe.Pointer(&w.k))
		raceReleaseMerge(unsafe.Pointer(&w.k2))
		w.op.fired = true
		w.op.w = w
		s.ready(w.t)
		return w.val, true
	}
	raceAcquire(unsafe.Pointer(&c.closeK))
	return nil, false
}

type plainError string

func (e plainError) Error() string { return string(e) }
func (e plainError) RuntimeError() {}

func sendOp(key uintptr, capn int, keep interface{}, v interface{}) {
	Y(0)
	if s == nil {
		if !preOf(key, capn, keep, "send").send(v) {
			panic("dst: a send that waits for ever during initialisation")
		}
		return
	}
	if inert() {
		return
	}
	if key == 0 {
		forever("send on a nil channel")
		return
	}
	c := chanOf(key, capn, keep)
	if c.canSend(nil) {
		c.doSend(v)
		Y(0)
		return
	}
	op := &selOp{}
	w := &waiter{t: cur, op: op, val: v}
	raceRelease(unsafe.Pointer(&w.k))
	c.sendq = push(c.sendq, w)
	for !op.fired {
		s.block("send on a channel")
		if cur.unwinding {
			return
		}
	}
	s.ev(22, uint64(c.id))
	if w.pan {
		panic(plainError("send on closed channel"))
	}
	raceAcquire(unsafe.Pointer(&w.k2))
}

func recvOp(key uintptr, capn int, keep interface{}) (interface{}, bool) {
	Y(0)
	if s == nil {
		v, open, ok := preOf(key, capn, keep, "receive").recv()
		if !ok {
			panic("dst: a receive that waits for ever during initialisation")
		}
		return v, open
	}
	if inert() {
		return nil, false
	}
	if key == 0 {
		forever("receive from a nil channel")
		return nil, false
	}
	c := chanOf(key, capn, keep)
	if c.canRecv() {
		v, ok := c.doRecv()
		Y(0)
		return v, ok
	}
	op := &selOp{}
	w := &waiter{t: cur, op: op}
	raceRelease(unsafe.Pointer(&w.k))
	c.recvq = push(c.recvq, w)
	for !op.fired {
		s.block("receive from a channel")
		if cur.unwinding {
			return nil, false
		}
	}
	c.afterRecv(w)
	return w.val, w.ok
}

func (c *chanS) afterRecv(w *waiter) {
	s.ev(23, uint64(c.id))
	if !w.ok {
		raceAcquire(unsafe.Pointer(&c.closeK))
	} else {
		raceAcquire(unsafe.Pointer(&w.k2))
	}
}

func closeOp(key uintptr, capn int, keep interface{}) {
	Y(0)
	if s == nil {
		p := preOf(key, capn, keep, "close")
		if p.closed {
			panic(plainError("close of closed channel"))
		}
		p.closed = true
		return
	}
	if inert() {
		return
	}
	if key == 0 {
		panic(plainError("close of nil channel"))
	}
	closeKey(key, capn, keep)
	Y(0)
}

func closeKey(key uintptr, capn int, keep interface{}) {
	c := chanOf(key, capn, keep)
	if c.closed {
		panic(plainError("close of closed channel"))
	}
	raceReleaseMerge(unsafe.Pointer(&c.closeK))
	c.closed = true
	s.progress++
	if cur != nil {
		s.ev(24, uint64(c.id))
	}
	for w := pop(&c.recvq); w != nil; w = pop(&c.recvq) {
		w.op.fired = true
		w.op.w = w
		w.ok = false
		s.ready(w.t)
	}
	for w := pop(&c.sendq); w != nil; w = pop(&c.sendq) {
		w.op.fired = true
		w.op.w = w
		w.pan = true
		s.ready(w.t)
	}
}

func forever(what string) {
	var k byte
	for {
		s.waitFor(unsafe.Pointer(&k), what)
		if cur.unwinding || s.ending {
			return
		}
	}
}

// BlockForever is an empty select.
func BlockForever() {
	if s != nil && !inert() {
		forever("empty select")
	}
}

// Send sends on a bidirectional or send-only channel: SendTo(ch)(v).
func SendTo[T any](ch chan<- T) func(T) {
	return func(v T) {
		sendOp(*(*uintptr)(unsafe.Pointer(&ch)), cap(ch), ch, v)
	}
}

// Recv is <-ch.
func Recv[T any](ch <-chan T) T {
	v, _ := recvOp(*(*uintptr)(unsafe.Pointer(&ch)), cap(ch), ch)
	x, _ := v.(T)
	return x
}

// Recv2 is v, ok := <-ch.
func Recv2[T any](ch <-chan T) (T, bool) {
	v, ok := recvOp(*(*uintptr)(unsafe.Pointer(&ch)), cap(ch), ch)
	x, _ := v.(T)
	return x, ok
}

// Close is close(ch).
func Close[T any](ch chan<- T) {
	closeOp(*(*uintptr)(unsafe.Pointer(&ch)), cap(ch), ch)
}

// CloseKernel closes a channel from kernel context (timers).
func CloseKernel[T any](ch chan T) {
	closeKey(chanKey(ch), cap(ch), ch)
}

// TrySendKernel is a non-blocking send from kernel context (timers).
func TrySendKernel[T any](ch chan T, v T) bool {
	c := chanOf(chanKey(ch), cap(ch), ch)
	if c.closed || !c.canSend(nil) {
		return false
	}
	c.doSend(v)
	return true
}

// DrainKernel empties a channel's buffer.
func DrainKernel[T any](ch chan T) {
	if s == nil {
		return
	}
	c := chanOf(chanKey(ch), cap(ch), ch)
	for c.n > 0 {
		c.buf[c.head] = nil
		c.head = (c.head + 1) % c.cap
		c.n--
	}
}

// ChanLen is len(ch).
func ChanLen[T any](ch <-chan T) int {
	Y(0)
	if s == nil || ch == nil {
		if p := pre[*(*uintptr)(unsafe.Pointer(&ch))]; p != nil {
			return len(p.vals)
		}
		return len(ch)
	}
	return chanOf(*(*uintptr)(unsafe.Pointer(&ch)), cap(ch), ch).n
}

// ChanLenS is len(ch) of a send-only channel.
func ChanLenS[T any](ch chan<- T) int {
	Y(0)
	if s == nil || ch == nil {
		if p := pre[*(*uintptr)(unsafe.Pointer(&ch))]; p != nil {
			return len(p.vals)
		}
		return len(ch)
	}
	return chanOf(*(*uintptr)(unsafe.Pointer(&ch)), cap(ch), ch).n
}

// Case is one case of a select.
type Case interface{ base() *caseS }

type caseS struct {
	key  uintptr
	cap  int
	keep interface{}
	send bool
	val  interface{}
	ok   bool
	c    *chanS
	w    *waiter
}

// RC is a receive case.
type RC[T any] struct{ caseS }

func (r *RC[T]) base() *caseS { return &r.caseS }

// V is the received value.
func (r *RC[T]) V() T {
	x, _ := r.val.(T)
	return x
}

// V2 is the received value and whether the channel was open.
func (r *RC[T]) V2() (T, bool) {
	x, _ := r.val.(T)
	return x, r.ok
}

// SC is a send case.
type SC struct{ caseS }

func (c *SC) base() *caseS { return &c.caseS }

// RecvCase builds a receive case.
func RecvCase[T any](ch <-chan T) *RC[T] {
	return &RC[T]{caseS{key: *(*uintptr)(unsafe.Pointer(&ch)), cap: cap(ch), keep: ch}}
}

// SendCase builds a send case.
func SendCase[T any](ch chan<- T) func(T) *SC {
	return func(v T) *SC {
		return &SC{caseS{key: *(*uintptr)(unsafe.Pointer(&ch)), cap: cap(ch), keep: ch, send: true, val: v}}
	}
}

// Select is the select statement; it returns the index of the chosen case, or
// -1 for the default.
func Select(hasDefault bool, cases ...Case) int {
	Y(0)
	if s == nil {
		return preSelect(hasDefault, cases)
	}
	if inert() {
		runtimeGoexit()
	}
	var ready [64]int
	n := 0
	for i := range cases {
		b := cases[i].base()
		if b.key == 0 {
			continue
		}
		b.c = chanOf(b.key, b.cap, b.keep)
		if (b.send && b.c.canSend(nil)) || (!b.send && b.c.canRecv()) {
			if n < len(ready) {
				ready[n] = i
				n++
			}
		}
	}
	if n > 0 {
		i := ready[s.chooseSelect(n)]
		b := cases[i].base()
		if b.send {
			b.c.doSend(b.val)
		} else {
			b.val, b.ok = b.c.doRecv()
		}
		Y(0)
		return i
	}
	if hasDefault {
		return -1
	}
	op := &selOp{}
	any := false
	for i := range cases {
		b := cases[i].base()
		if b.key == 0 {
			continue
		}
		any = true
		w := &waiter{t: cur, op: op, idx: i, val: b.val}
		raceRelease(unsafe.Pointer(&w.k))
		if b.send {
			b.c.sendq = push(b.c.sendq, w)
		} else {
			b.c.recvq = push(b.c.recvq, w)
		}
	}
	if !any {
		forever("select with only nil channels")
		return -1
	}
	for !op.fired {
		s.block("select")
		if cur.unwinding {
			runtimeGoexit()
		}
	}
	w := op.w
	b := cases[w.idx].base()
	if b.send {
		if w.pan {
			panic(plainError("send on closed channel"))
		}
		raceAcquire(unsafe.Pointer(&w.k2))
	} else {
		b.c.afterRecv(w)
		b.val, b.ok = w.val, w.ok
	}
	return w.idx
}

func preSelect(hasDefault bool, cases []Case) int {
	for i := range cases {
		b := cases[i].base()
		if b.key == 0 {
			continue
		}
		p := preOf(b.key, b.cap, b.keep, "select")
		if b.send {
			if p.send(b.val) {
				return i
			}
		} else if v, open, ok := p.recv(); ok {
			b.val, b.ok = v, open
			return i
		}
	}
	if !hasDefault {
		panic("dst: a select that waits for ever during initialisation")
	}
	return -1
}

func (k *sched) chooseSelect(n int) int {
	if n == 1 {
		return 0
	}
	step++
	k.step = step
	k.st.SelectChoices++
	if k.cfg.UseList {
		if v, ok := k.replayAt(); ok && int(v) < n && v >= 0 {
			k.setNext()
			return int(v)
		}
		return 0
	}
	i := k.randn(n)
	if i != 0 {
		k.record(int32(i))
	}
	return i
}
