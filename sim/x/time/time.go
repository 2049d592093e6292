// Package time stands in for the standard package: virtual time.
package time

import (
	real "time"

	"verif.local/sim/dst"
)

// Now is the virtual time.
func Now() real.Time {
	dst.Y(0)
	return real.Unix(0, dst.NowNano()).UTC()
}

func Since(t real.Time) real.Duration { return Now().Sub(t) }
func Until(t real.Time) real.Duration { return t.Sub(Now()) }
func Sleep(d real.Duration)           { dst.Sleep(d) }

// Timer is time.Timer.
type Timer struct {
	C <-chan real.Time
	c chan real.Time
	f func()
	t *dst.Timer
}

func (t *Timer) start(d real.Duration) {
	if !dst.Active() {
		return
	}
	t.t = dst.AfterKernel(d, func() {
		if t.f != nil {
			dst.GoKernel("timer func", t.f)
			return
		}
		dst.TrySendKernel(t.c, real.Unix(0, dst.NowNano()).UTC())
	})
}

func NewTimer(d real.Duration) *Timer {
	dst.Y(0)
	t := &Timer{c: make(chan real.Time, 1)}
	t.C = t.c
	if !dst.Unwinding() {
		t.start(d)
	}
	return t
}

func AfterFunc(d real.Duration, f func()) *Timer {
	dst.Y(0)
	t := &Timer{f: f}
	if !dst.Unwinding() {
		t.start(d)
	}
	return t
}

func After(d real.Duration) <-chan real.Time { return NewTimer(d).C }

func (t *Timer) Stop() bool {
	dst.Y(0)
	ok := t.t.Stop()
	if t.c != nil && !dst.Unwinding() {
		dst.DrainKernel(t.c)
	}
	return ok
}

func (t *Timer) Reset(d real.Duration) bool {
	ok := t.Stop()
	if !dst.Unwinding() {
		t.start(d)
	}
	return ok
}

// Ticker is time.Ticker.
type Ticker struct {
	C   <-chan real.Time
	c   chan real.Time
	d   real.Duration
	t   *dst.Timer
	off bool
}

func NewTicker(d real.Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	t := &Ticker{c: make(chan real.Time, 1), d: d}
	t.C = t.c
	if dst.Active() && !dst.Unwinding() {
		t.arm()
	}
	return t
}

func (t *Ticker) arm() {
	t.t = dst.AfterKernel(t.d, func() {
		if t.off {
			return
		}
		dst.TrySendKernel(t.c, real.Unix(0, dst.NowNano()).UTC())
		t.arm()
	})
}

func (t *Ticker) Stop() {
	dst.Y(0)
	t.off = true
	t.t.Stop()
	if !dst.Unwinding() {
		dst.DrainKernel(t.c) // since Go 1.23 nothing is received after Stop
	}
}

func (t *Ticker) Reset(d real.Duration) {
	t.t.Stop()
	if d <= 0 {
		panic("non-positive interval for Ticker.Reset")
	}
	t.d = d
	if dst.Active() && !dst.Unwinding() {
		dst.DrainKernel(t.c)
		t.off = false
		t.arm()
	}
}

func Tick(d real.Duration) <-chan real.Time {
	if d <= 0 {
		return nil
	}
	return NewTicker(d).C
}
