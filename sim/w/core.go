// Package w is the part of a simulation worker that does not depend on the code
// under test: scenarios, schedules, minimisation and the command line.
package w

import (
	"encoding/json"
	"fmt"
	"sort"

	"verif.local/sim/dst"
)

// Rng is the generator's random source (splitmix64).
type Rng struct{ s uint64 }

// NewRng makes a generator.
func NewRng(seed uint64) *Rng { return &Rng{s: dst.Mix(seed ^ 0x9e3779b97f4a7c15)} }

// U64 draws a number.
func (r *Rng) U64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	return dst.Mix(r.s)
}

// N draws from [0,n).
func (r *Rng) N(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.U64() >> 11 % uint64(n))
}

// In draws from [a,b].
func (r *Rng) In(a, b int) int { return a + r.N(b-a+1) }

// P is true with probability p percent.
func (r *Rng) P(p int) bool { return r.N(100) < p }

// Pick draws one of the numbers.
func (r *Rng) Pick(xs ...int) int { return xs[r.N(len(xs))] }

// PickS draws one of the strings.
func (r *Rng) PickS(xs ...string) string { return xs[r.N(len(xs))] }

// Op is one client operation.
type Op struct {
	Life   int      `json:"life,omitempty"`
	Client int      `json:"c"`
	Kind   string   `json:"k"`
	Doc    string   `json:"d,omitempty"`
	Spec   *DocSpec `json:"spec,omitempty"`
	Q      *Query   `json:"q,omitempty"`
	Force  bool     `json:"force,omitempty"`
	N      int      `json:"n,omitempty"`
	S      string   `json:"s,omitempty"`
	Peer   int      `json:"peer,omitempty"`
}

// Fault is one injected fault.
type Fault struct {
	Kind string `json:"k"`
	Life int    `json:"life,omitempty"`
	At   int    `json:"at,omitempty"`
	N    int    `json:"n,omitempty"`
	S    string `json:"s,omitempty"`
	Peer int    `json:"peer,omitempty"`
}

// Sched is the schedule part of a scenario.
type Sched struct {
	Seed      uint64         `json:"seed"`
	Strategy  int            `json:"strategy"`
	Mean      uint64         `json:"mean"`
	Pauses    uint64         `json:"pauses,omitempty"`
	Cost      int64          `json:"cost"`
	Warp      uint32         `json:"warp,omitempty"`
	MaxSteps  uint64         `json:"max_steps"`
	FairFrom  uint64         `json:"fair_from,omitempty"`
	MapSeed   uint64         `json:"map_seed"`
	UseList   bool           `json:"use_list"`
	Decisions []dst.Decision `json:"decisions,omitempty"`
}

// Scenario is one fully determined simulated execution.
type Scenario struct {
	Harness  string          `json:"harness"`
	Property string          `json:"property"`
	Race     bool            `json:"race,omitempty"` // executed under the race detector
	Seed     uint64          `json:"seed"`
	Cfg      json.RawMessage `json:"cfg"`
	Ops      []Op            `json:"ops"`
	Faults   []Fault         `json:"faults,omitempty"`
	Sched    Sched           `json:"sched"`
	Also     *Scenario       `json:"also,omitempty"` // runs beside this one, in the same process
	// filled in by the driver for replay files
	Class string `json:"class,omitempty"`
	Msg   string `json:"message,omitempty"`
	Hash  string `json:"hash,omitempty"`
}

// Outcome is what one execution showed.
type Outcome struct {
	Viol      *dst.Violation
	Stats     dst.Stats
	Decisions []dst.Decision
	Log       []string
	Counts    map[string]int // faults fired and other tallies
	Sig       uint64         // outcome signature
	Nontriv   bool           // the run reached something worth counting
}

// Harness makes and executes scenarios.
type Harness interface {
	Gen(prop string, seed uint64) *Scenario
	Exec(sc *Scenario, trace bool) *Outcome
}

// All lists the harnesses.
var All = map[string]Harness{}

func (s *Scenario) SetCfg(v interface{}) {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	s.Cfg = b
}

func (s *Scenario) GetCfg(v interface{}) {
	if err := json.Unmarshal(s.Cfg, v); err != nil {
		panic(err)
	}
}

// Clone deep-copies a scenario.
func (s *Scenario) Clone() *Scenario {
	b, err := json.Marshal(s)
	if err != nil {
		panic(err)
	}
	o := new(Scenario)
	if err := json.Unmarshal(b, o); err != nil {
		panic(err)
	}
	return o
}

// DstConfig is the kernel configuration of the scenario.
func (s *Scenario) DstConfig(trace bool) dst.Config {
	c := s.Sched
	return dst.Config{Seed: c.Seed, Strategy: c.Strategy, Mean: c.Mean, Pauses: c.Pauses, Cost: c.Cost, Warp: c.Warp,
		MaxSteps: c.MaxSteps, FairFrom: c.FairFrom, MapSeed: c.MapSeed, Replay: c.Decisions, UseList: c.UseList, Trace: trace}
}

// GenSched draws a schedule.
func GenSched(r *Rng, maxSteps uint64) Sched {
	s := Sched{Seed: r.U64(), MaxSteps: maxSteps, MapSeed: r.U64() >> 1}
	s.Strategy = r.Pick(0, 0, 1, 1, 2, 3, 3)
	if s.Strategy == 3 {
		s.Pauses = uint64(r.Pick(10, 50, 250))
	}
	s.Mean = uint64(r.Pick(2, 4, 8, 16, 40, 100, 300))
	s.Cost = int64(r.Pick(50, 200, 1000))
	if r.P(30) {
		s.Warp = uint32(r.Pick(5, 30, 200))
	}
	return s
}

// run executes main under the kernel and fills the common parts.
func RunKernel(sc *Scenario, trace bool, counts map[string]int, main func()) *Outcome {
	res := dst.Run(sc.DstConfig(trace), main)
	return &Outcome{Viol: res.Viol, Stats: res.Stats, Decisions: res.Decisions, Log: res.Log, Counts: counts, Sig: res.Stats.Hash}
}

func SortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func JS(v interface{}) string {
	b, err := json.Marshal(v)
	if err != nil {
		return fmt.Sprintf("%+v", v)
	}
	return string(b)
}

// ClientsOf lists the clients that appear in the operations of a life.
func ClientsOf(ops []Op, life int) []int {
	seen := map[int]bool{}
	var cs []int
	for _, o := range ops {
		if o.Life == life && !seen[o.Client] {
			seen[o.Client] = true
			cs = append(cs, o.Client)
		}
	}
	sort.Ints(cs)
	return cs
}

// Scratch is this worker's private directory.
var Scratch string

// RaceLog is where the race detector writes (set by the worker).
var RaceLog string
