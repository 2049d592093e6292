// Package context stands in for the standard package: cancellation and
// deadlines run on the simulator's channels and clock.
package context

import (
	real "context"
	"time"

	"verif.local/sim/dst"
)

type ctx struct {
	parent   real.Context
	done     chan struct{}
	err      error
	cause    error
	deadline time.Time
	hasDL    bool
	children []*ctx
	timer    *dst.Timer
	stops    []func()
}

func (c *ctx) Deadline() (time.Time, bool) {
	if c.hasDL {
		return c.deadline, true
	}
	return c.parent.Deadline()
}
func (c *ctx) Done() <-chan struct{}           { return c.done }
func (c *ctx) Err() error                      { dst.Y(0); return c.err }
func (c *ctx) Value(k interface{}) interface{} { return c.parent.Value(k) }

func (c *ctx) cancel(err, cause error) {
	if c.err != nil {
		return
	}
	c.err = err
	if cause == nil {
		cause = err
	}
	c.cause = cause
	if dst.Active() {
		dst.CloseKernel(c.done)
	}
	c.timer.Stop()
	for _, f := range c.stops {
		f()
	}
	for _, x := range c.children {
		x.cancel(err, cause)
	}
}

func find(p real.Context) *ctx {
	for {
		switch x := p.(type) {
		case *ctx:
			return x
		case *val:
			p = x.Context
		default:
			return nil
		}
	}
}

type val struct {
	real.Context
	k, v interface{}
}

func (v *val) Value(k interface{}) interface{} {
	if k == v.k {
		return v.v
	}
	return v.Context.Value(k)
}

func WithValue(p real.Context, k, v interface{}) real.Context { return &val{p, k, v} }

func newCtx(p real.Context) *ctx {
	c := &ctx{parent: p, done: make(chan struct{})}
	if x := find(p); x != nil {
		if x.err != nil {
			c.cancel(x.err, x.cause)
		} else {
			x.children = append(x.children, c)
		}
	}
	return c
}

func WithCancel(p real.Context) (real.Context, real.CancelFunc) {
	dst.Y(0)
	c := newCtx(p)
	return c, func() {
		dst.Y(0)
		if !dst.Unwinding() {
			c.cancel(real.Canceled, nil)
		}
	}
}

func WithCancelCause(p real.Context) (real.Context, real.CancelCauseFunc) {
	c := newCtx(p)
	return c, func(e error) {
		dst.Y(0)
		if !dst.Unwinding() {
			c.cancel(real.Canceled, e)
		}
	}
}

func WithDeadline(p real.Context, d time.Time) (real.Context, real.CancelFunc) {
	dst.Y(0)
	c := newCtx(p)
	if pd, ok := p.Deadline(); ok && pd.Before(d) {
		d = pd
	}
	c.deadline, c.hasDL = d, true
	if c.err == nil && dst.Active() && !dst.Unwinding() {
		w := d.UnixNano() - dst.NowNano()
		if w <= 0 {
			c.cancel(real.DeadlineExceeded, nil)
		} else {
			c.timer = dst.AfterKernel(time.Duration(w), func() { c.cancel(real.DeadlineExceeded, nil) })
		}
	}
	return c, func() {
		dst.Y(0)
		if !dst.Unwinding() {
			c.cancel(real.Canceled, nil)
		}
	}
}

func WithTimeout(p real.Context, d time.Duration) (real.Context, real.CancelFunc) {
	return WithDeadline(p, time.Unix(0, dst.NowNano()).UTC().Add(d))
}

func Cause(c real.Context) error {
	if x := find(c); x != nil {
		return x.cause
	}
	return c.Err()
}

// OnCancel registers f to run (kernel context) when c is cancelled; it reports
// false when c can never be cancelled.
func OnCancel(c real.Context, f func()) (stop func()) {
	x := find(c)
	if x == nil {
		return func() {}
	}
	if x.err != nil {
		f()
		return func() {}
	}
	live := true
	x.stops = append(x.stops, func() {
		if live {
			f()
		}
	})
	return func() { live = false }
}
