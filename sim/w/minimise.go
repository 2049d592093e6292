package w

import (
	"fmt"
	"io"
	"log"
	"time"

	"verif.local/sim/dst"
)

// Describe is a one-line summary of a run.
func Describe(sc *Scenario, o *Outcome) string {
	return fmt.Sprintf("seed %d: %d ops, %d faults, strategy %d, %d steps, %d switches, %d preemptions, %.3fs virtual, hash %016x",
		sc.Seed, len(sc.Ops), len(sc.Faults), sc.Sched.Strategy, o.Stats.Steps, o.Stats.Switches, o.Stats.Preempts, float64(o.Stats.VirtualNS)/1e9, o.Stats.Hash)
}

// Minimise shrinks a failing scenario: operations, faults, closing queries,
// then schedule decisions. The result replays by its decision list.
func Minimise(sc *Scenario, wall float64, ok func(string) bool) *Scenario {
	h := HarnessOf(sc)
	end := time.Now().Add(time.Duration(wall * float64(time.Second)))
	left := func() bool { return time.Now().Before(end) }
	cls := sc.Class
	fails := func(x *Scenario) *Outcome {
		o := h.Exec(x.Clone(), false)
		if o.Viol != nil && (o.Viol.Class == cls || cls == "" && ok(o.Viol.Class)) {
			return o
		}
		return nil
	}
	best := sc.Clone()
	o0 := fails(best)
	if o0 == nil {
		return best
	}
	// any schedule seed that still shows it counts while shrinking the workload
	try := func(x *Scenario) bool {
		if fails(x) != nil {
			*best = *x.Clone()
			return true
		}
		for i := uint64(1); i <= 12 && left(); i++ {
			y := x.Clone()
			y.Sched.Seed = dst.Mix(sc.Sched.Seed + i*7919)
			if fails(y) != nil {
				*best = *y.Clone()
				return true
			}
		}
		return false
	}
	shrink := func(ops func(*Scenario) *[]Op) {
		for n := (len(*ops(best)) + 1) / 2; n >= 1 && left(); {
			removed := false
			for i := 0; i+n <= len(*ops(best)) && left(); {
				x := best.Clone()
				was := *ops(best)
				*ops(x) = append(append([]Op(nil), was[:i]...), was[i+n:]...)
				if try(x) {
					removed = true
				} else {
					i += n
				}
			}
			if n == 1 && !removed {
				break
			}
			if n > 1 {
				n /= 2
			}
		}
	}
	if best.Also != nil {
		x := best.Clone()
		x.Also = nil
		if !try(x) {
			shrink(func(s *Scenario) *[]Op { return &s.Also.Ops })
		}
	}
	shrink(func(s *Scenario) *[]Op { return &s.Ops })
	for i := len(best.Faults) - 1; i >= 0 && left(); i-- {
		x := best.Clone()
		x.Faults = append(append([]Fault(nil), best.Faults[:i]...), best.Faults[i+1:]...)
		try(x)
	}
	if s, ok := h.(Shrinker); ok {
		for pass := 0; pass < 2 && left(); pass++ {
			for _, x := range s.Shrink(best) {
				if !left() {
					break
				}
				try(x)
			}
		}
	}
	// schedule
	o := h.Exec(best.Clone(), false)
	x := best.Clone()
	x.Sched.UseList = true
	x.Sched.Decisions = o.Decisions
	if fails(x) == nil {
		best.Sched.UseList = false
		return finish(h, best)
	}
	best = x
	for n := (len(best.Sched.Decisions) + 1) / 2; n >= 1 && left(); {
		removed := false
		for i := 0; i+n <= len(best.Sched.Decisions) && left(); {
			y := best.Clone()
			y.Sched.Decisions = append(append([]dst.Decision(nil), best.Sched.Decisions[:i]...), best.Sched.Decisions[i+n:]...)
			if fails(y) != nil {
				best = y
				removed = true
			} else {
				i += n
			}
		}
		if n == 1 && !removed {
			break
		}
		if n > 1 {
			n /= 2
		}
	}
	return finish(h, best)
}

// Shrinker proposes simpler configurations of a scenario.
type Shrinker interface {
	Shrink(sc *Scenario) []*Scenario
}

func finish(h Harness, sc *Scenario) *Scenario {
	o := h.Exec(sc.Clone(), false)
	if o.Viol != nil {
		sc.Class, sc.Msg = o.Viol.Class, o.Viol.Msg
	}
	sc.Hash = fmt.Sprintf("%016x", o.Stats.Hash)
	return sc
}

// Quiet silences what the code under test logs.
func Quiet() { log.SetOutput(io.Discard) }

func HarnessOf(sc *Scenario) Harness {
	if sc.Race {
		return All["race"]
	}
	return All[sc.Harness]
}
