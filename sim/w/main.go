package w

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/signal"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"strconv"
	"strings"
	"time"

	"verif.local/sim/dst"
	xos "verif.local/sim/x/os"
)

// Report is one line of worker output.
type Report struct {
	Kind     string         `json:"kind"` // run totals "stats", or "viol"
	Seed     uint64         `json:"seed"`
	Class    string         `json:"class,omitempty"`
	Msg      string         `json:"msg,omitempty"`
	Scenario *Scenario      `json:"scenario,omitempty"`
	Hash     string         `json:"hash,omitempty"`
	Runs     int            `json:"runs"`
	Nontriv  int            `json:"nontriv"`
	Steps    uint64         `json:"steps"`
	Switches uint64         `json:"switches"`
	Preempts uint64         `json:"preempts"`
	Sync     uint64         `json:"sync_events"`
	Timers   uint64         `json:"timers"`
	Kills    int            `json:"kills"`
	Warps    uint64         `json:"warps"`
	Stalls   uint64         `json:"stalls"`
	Virtual  int64          `json:"virtual_ns"`
	Tasks    int            `json:"tasks"`
	Counts   map[string]int `json:"counts,omitempty"`
	Hashes   []uint64       `json:"hashes,omitempty"`
	Sample   []string       `json:"sample,omitempty"`
	Hits     []byte         `json:"hits,omitempty"` // code points passed
	Diverged int            `json:"diverged"`
	Full     bool           `json:"full,omitempty"` // ended because it held too much memory
	WallS    float64        `json:"wall_s"`
}

// Main is a worker process.
func Main() {
	harness := flag.String("harness", "engine", "harness")
	prop := flag.String("prop", "C01", "property")
	seed0 := flag.Uint64("seed", 1, "first seed")
	stride := flag.Uint64("stride", 1, "seed stride")
	count := flag.Int("count", 1000000000, "number of seeds")
	wall := flag.Float64("wall", 10, "seconds")
	replay := flag.String("replay", "", "scenario file to execute")
	minimise := flag.String("min", "", "scenario file to minimise")
	out := flag.String("out", "", "output file for -min")
	trace := flag.Bool("trace", false, "print the log of the run")
	scratch := flag.String("scratch", "", "private directory")
	progress := flag.String("progress", "", "file naming the seed being run")
	known := flag.String("known", "", "comma-separated signatures of known findings to skip")
	dump := flag.Bool("dump", false, "print the scenario of -seed")
	accept := flag.String("classes", "", "comma-separated violation classes that count (empty: all)")
	hashes := flag.Bool("hashes", false, "print seed and event hash of every run")
	cover := flag.String("cover", "", "file to list the code points and whether a run passed them")
	maxViol := flag.Int("maxviol", 0, "stop after this many violations")
	maxMem := flag.Int("maxmem", 0, "megabytes held after a run at which the worker ends")
	profile := flag.String("profile", "", "file for a processor profile")
	flag.Parse()
	stop := make(chan os.Signal, 1)
	signal.Notify(stop, os.Interrupt)
	runtime.GOMAXPROCS(1)
	if *scratch == "" {
		d, err := os.MkdirTemp("", "simw")
		if err != nil {
			panic(err)
		}
		*scratch = d
		defer os.RemoveAll(d)
	}
	if err := os.MkdirAll(*scratch, 0o755); err != nil {
		panic(err)
	}
	Scratch = *scratch
	go func() { // nothing needs this much: end before the machine's memory does
		for range time.Tick(200 * time.Millisecond) {
			if rss() > 6000 {
				fmt.Fprintln(os.Stderr, "fatal error: the memory limit of 6 GB is exceeded")
				os.Exit(5)
			}
		}
	}()
	for _, o := range strings.Fields(os.Getenv("GORACE")) {
		if strings.HasPrefix(o, "log_path=") {
			RaceLog = fmt.Sprintf("%s.%d", strings.TrimPrefix(o, "log_path="), os.Getpid())
		}
	}
	xos.Scratch = *scratch
	Quiet()
	_ = known
	enc := json.NewEncoder(os.Stdout)
	switch {
	case *replay != "":
		sc := load(*replay)
		o := exec(*harness, sc, *trace)
		if *trace {
			w := bufio.NewWriter(os.Stderr)
			for _, l := range o.Log {
				fmt.Fprintln(w, l)
			}
			w.Flush()
		}
		r := Report{Kind: "replay", Seed: sc.Seed, Runs: 1, Hash: fmt.Sprintf("%016x", o.Stats.Hash), Diverged: o.Stats.Diverged, Steps: o.Stats.Steps, Counts: o.Counts}
		if o.Viol != nil {
			r.Class, r.Msg = o.Viol.Class, o.Viol.Msg
		}
		enc.Encode(r)
		return
	case *minimise != "":
		sc := load(*minimise)
		m := Minimise(sc, *wall, classOK(*accept))
		b, _ := json.MarshalIndent(m, "", " ")
		if err := os.WriteFile(*out, b, 0o644); err != nil {
			panic(err)
		}
		return
	case *dump:
		sc := All[*harness].Gen(*prop, *seed0)
		b, _ := json.MarshalIndent(sc, "", " ")
		fmt.Println(string(b))
		return
	}
	if *profile != "" {
		f, err := os.Create(*profile)
		if err == nil && pprof.StartCPUProfile(f) == nil {
			defer pprof.StopCPUProfile()
		}
	}
	ok := classOK(*accept)
	start := time.Now()
	st := Report{Kind: "stats", Counts: map[string]int{}}
	seen := map[uint64]bool{}
	var pf *os.File
	if *progress != "" {
		pf, _ = os.Create(*progress)
	}
	seed := *seed0
	nv := 0
	for i := 0; i < *count; i++ {
		if time.Since(start).Seconds() > *wall || len(stop) > 0 {
			break
		}
		if pf != nil {
			pf.WriteAt([]byte(fmt.Sprintf("%20d\n", seed)), 0)
		}
		sc := All[*harness].Gen(*prop, seed)
		o := exec(*harness, sc, *trace)
		if *trace {
			fmt.Fprintf(os.Stderr, "seed %d\n%s\n", seed, strings.Join(o.Log, "\n"))
		}
		st.Runs++
		st.Steps += o.Stats.Steps
		st.Switches += o.Stats.Switches
		st.Preempts += o.Stats.Preempts
		st.Sync += o.Stats.SyncEvents
		st.Timers += o.Stats.TimerFires
		st.Kills += o.Stats.Kills
		st.Warps += o.Stats.Warps
		st.Stalls += o.Stats.Stalls
		st.Virtual += o.Stats.VirtualNS
		st.Tasks += o.Stats.Tasks
		for k, v := range o.Counts {
			st.Counts[k] += v
		}
		if o.Nontriv && !seen[o.Sig] {
			seen[o.Sig] = true
			st.Nontriv++
			st.Hashes = append(st.Hashes, o.Sig)
		}
		if *hashes {
			fmt.Printf("H %d %016x\n", seed, o.Stats.Hash)
		}
		if len(st.Sample) < 3 && o.Nontriv {
			st.Sample = append(st.Sample, Describe(sc, o))
		}
		if o.Viol != nil {
			st.Counts["class."+o.Viol.Class]++
			if ok(o.Viol.Class) {
				sc.Class, sc.Msg = o.Viol.Class, o.Viol.Msg
				sc.Hash = fmt.Sprintf("%016x", o.Stats.Hash)
				enc.Encode(Report{Kind: "viol", Seed: seed, Class: o.Viol.Class, Msg: o.Viol.Msg, Scenario: sc, Hash: sc.Hash})
				if nv++; nv == *maxViol {
					break
				}
			}
		}
		seed += *stride
		if *maxMem > 0 && st.Runs >= 10 && rss() > *maxMem {
			debug.FreeOSMemory()
			if rss() > *maxMem*2/3 {
				st.Full = true
				break
			}
		}
	}
	st.Seed = seed
	st.WallS = time.Since(start).Seconds()
	if len(st.Hashes) > 200000 {
		st.Hashes = st.Hashes[:200000]
	}
	st.Hits = dst.Hits()
	enc.Encode(st)
	if *cover != "" {
		var sb strings.Builder
		for i, h := range st.Hits {
			if i > 0 {
				fmt.Fprintf(&sb, "%d %s\n", h, dst.Sites[i])
			}
		}
		if err := os.WriteFile(*cover, []byte(sb.String()), 0o644); err != nil {
			panic(err)
		}
	}
}

// rss is the memory the process holds, in megabytes.
func rss() int {
	b, err := os.ReadFile("/proc/self/statm")
	f := strings.Fields(string(b))
	if err != nil || len(f) < 2 {
		return 0
	}
	n, _ := strconv.Atoi(f[1])
	return n * os.Getpagesize() >> 20
}

// exec runs a scenario; race runs name the harness whose scenario they execute.
func exec(harness string, sc *Scenario, trace bool) *Outcome {
	dst.Knobs = map[string]int{"defaultDocCacheSize": 1000}
	if sc.Race || harness == "race" {
		sc.Race = true
		return All["race"].Exec(sc, trace)
	}
	return All[sc.Harness].Exec(sc, trace)
}

func classOK(s string) func(string) bool {
	if s == "" {
		return func(string) bool { return true }
	}
	m := map[string]bool{}
	for _, c := range strings.Split(s, ",") {
		m[c] = true
	}
	return func(c string) bool { return m[c] }
}

func load(p string) *Scenario {
	b, err := os.ReadFile(p)
	if err != nil {
		panic(err)
	}
	sc := new(Scenario)
	if err := json.Unmarshal(b, sc); err != nil {
		panic(err)
	}
	return sc
}
