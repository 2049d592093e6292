// Package signal stands in for os/signal: signals come from the simulator.
package signal

import (
	"context"
	"os"

	"verif.local/sim/dst"
	xcontext "verif.local/sim/x/context"
)

type reg struct {
	g    *dst.Group
	c    chan<- os.Signal
	sigs []os.Signal // none: all
}

var regs []reg
var ignored map[*dst.Group][]os.Signal
var ep uint32

func fresh() {
	if ep != dst.Epoch() {
		ep, regs, ignored = dst.Epoch(), nil, map[*dst.Group][]os.Signal{}
	}
}

func has(l []os.Signal, s os.Signal) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

func Notify(c chan<- os.Signal, sig ...os.Signal) {
	fresh()
	regs = append(regs, reg{dst.CurrentGroup(), c, append([]os.Signal(nil), sig...)})
}

func Stop(c chan<- os.Signal) {
	fresh()
	for i := len(regs) - 1; i >= 0; i-- {
		if regs[i].c == c {
			regs = append(regs[:i:i], regs[i+1:]...)
		}
	}
}

func Ignore(sig ...os.Signal) {
	fresh()
	g := dst.CurrentGroup()
	ignored[g] = append(ignored[g], sig...)
	Reset(sig...)
}

func Ignored(sig os.Signal) bool { fresh(); return has(ignored[dst.CurrentGroup()], sig) }

func Reset(sig ...os.Signal) {
	fresh()
	g := dst.CurrentGroup()
	for i := len(regs) - 1; i >= 0; i-- {
		r := &regs[i]
		if r.g != g {
			continue
		}
		var left []os.Signal
		for _, s := range r.sigs {
			if len(sig) > 0 && !has(sig, s) {
				left = append(left, s)
			}
		}
		if len(left) == 0 {
			regs = append(regs[:i:i], regs[i+1:]...)
		} else {
			r.sigs = left
		}
	}
}

// NotifyContext is signal.NotifyContext.
func NotifyContext(parent context.Context, sig ...os.Signal) (context.Context, context.CancelFunc) {
	ctx, cancel := xcontext.WithCancel(parent)
	c := make(chan os.Signal, 1)
	Notify(c, sig...)
	dst.GoIn(dst.CurrentGroup(), "signal", func() {
		if dst.Select(false, dst.RecvCase((<-chan os.Signal)(c)), dst.RecvCase(ctx.Done())) == 0 {
			cancel()
		}
	})
	return ctx, func() { Stop(c); cancel() }
}

// Deliver sends a signal to a process, as the operating system and the Go
// runtime would; it reports whether the process wants to hear of it.
func Deliver(g *dst.Group, sig os.Signal) bool {
	fresh()
	wanted := has(ignored[g], sig)
	for _, r := range append([]reg(nil), regs...) {
		if r.g == g && (len(r.sigs) == 0 || has(r.sigs, sig)) {
			wanted = true
			dst.Select(true, dst.SendCase(r.c)(sig))
		}
	}
	return wanted
}
