package hn

import (
	"verif.local/sim/h"
	. "verif.local/sim/w"
)

// RaceH runs the network layer's scenarios under the race detector.
type RaceH struct{ h.RaceH }

func init() { All["race"] = RaceH{} }

// Gen draws a scenario of the network layer.
func (RaceH) Gen(prop string, seed uint64) *Scenario {
	r := NewRng(seed ^ 0x7ace)
	var sc *Scenario
	switch r.N(9) {
	case 0:
		sc = HeartbH{}.Gen("C21", seed)
	case 1, 2:
		sc = DistH{}.Gen("C18", seed)
	case 3, 4:
		sc = DistH{}.Gen("C19", seed)
	case 5:
		sc = DiscoH{}.Gen("C23", seed)
	default:
		sc = RemoteH{}.Gen("C20", seed)
	}
	sc.Race = true
	return sc
}
