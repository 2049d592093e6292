// Command simctl runs one property's check: it instruments and builds the
// current tree of /repo, searches seeds on all cores, minimises and replays
// what it finds, and writes the evidence file.
package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

type report struct {
	Kind     string          `json:"kind"`
	Seed     uint64          `json:"seed"`
	Class    string          `json:"class,omitempty"`
	Msg      string          `json:"msg,omitempty"`
	Scenario json.RawMessage `json:"scenario,omitempty"`
	Hash     string          `json:"hash,omitempty"`
	Runs     int             `json:"runs"`
	Nontriv  int             `json:"nontriv"`
	Steps    uint64          `json:"steps"`
	Switches uint64          `json:"switches"`
	Preempts uint64          `json:"preempts"`
	Sync     uint64          `json:"sync_events"`
	Timers   uint64          `json:"timers"`
	Kills    int             `json:"kills"`
	Warps    uint64          `json:"warps"`
	Stalls   uint64          `json:"stalls"`
	Virtual  int64           `json:"virtual_ns"`
	Tasks    int             `json:"tasks"`
	Counts   map[string]int  `json:"counts,omitempty"`
	Hashes   []uint64        `json:"hashes,omitempty"`
	Sample   []string        `json:"sample,omitempty"`
	Hits     []byte          `json:"hits,omitempty"`
	Diverged int             `json:"diverged"`
	Full     bool            `json:"full"`
	WallS    float64         `json:"wall_s"`
}

var (
	verif = "/verif"
	work  string
)

func main() {
	prop := flag.String("prop", "", "property id")
	tier := flag.String("tier", "quick", "quick or thorough")
	replay := flag.String("replay", "", "replay file to execute instead")
	wallF := flag.Float64("wall", 0, "override the search time in seconds")
	procsF := flag.Int("procs", 0, "override the number of processes")
	trace := flag.Bool("trace", false, "with -replay: print the schedule")
	keep := flag.String("keep", "", "build only, leaving the workers in this directory")
	flag.Parse()
	if d := os.Getenv("VERIF_DIR"); d != "" {
		verif = d
	}
	code := 3
	func() {
		defer func() {
			if r := recover(); r != nil {
				fmt.Fprintln(os.Stderr, "simctl:", r)
				code = 3
			}
		}()
		var err error
		if *keep != "" {
			work = *keep
			os.MkdirAll(work, 0o755)
		} else {
			work, err = os.MkdirTemp("", "riotsim-")
			must(err)
			defer os.RemoveAll(work)
		}
		switch {
		case *keep != "":
			for name := range builds {
				build(name)
			}
			code = 0
		case *replay != "":
			code = doReplay(*replay, *trace)
		default:
			p, ok := props[*prop]
			if !ok {
				panic("unknown property " + *prop)
			}
			code = check(*prop, p, *tier, *wallF, *procsF)
		}
	}()
	os.Exit(code)
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

func goEnv() []string {
	var env []string
	for _, e := range os.Environ() {
		switch strings.SplitN(e, "=", 2)[0] {
		case "GOEXPERIMENT", "GOFLAGS", "GOPROXY", "GOTOOLCHAIN", "GOSUMDB", "GOWORK", "GO111MODULE", "GOMAXPROCS", "GODEBUG":
			continue
		}
		env = append(env, e)
	}
	return append(env, "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOTOOLCHAIN=local", "GOSUMDB=off", "GOWORK=off")
}

func run(dir string, env []string, name string, args ...string) {
	c := exec.Command(name, args...)
	c.Dir = dir
	c.Env = append(goEnv(), env...)
	out, err := c.CombinedOutput()
	if err != nil {
		if len(out) > 6000 {
			out = out[:6000]
		}
		panic(fmt.Sprintf("%s %s: %v\n%s", name, strings.Join(args, " "), err, out))
	}
}

var instrumentOnce sync.Once

// build makes the worker of a build variant and returns its path.
func build(name string) string {
	b := builds[name]
	sim := filepath.Join(verif, "sim")
	instrumentOnce.Do(func() {
		run(sim, nil, "go", "build", "-o", filepath.Join(work, "instrument"), "./cmd/instrument")
	})
	ov := filepath.Join(work, "ov-"+name)
	bin := filepath.Join(work, "worker-"+name)
	args := []string{"-out", ov, "-main", b.main, "-pkgs", strings.Join(b.pkgs, ",")}
	if len(b.mods) > 0 {
		args = append(args, "-mods", strings.Join(b.mods, ","))
	}
	run(sim, nil, filepath.Join(work, "instrument"), args...)
	bargs := []string{"build", "-overlay", filepath.Join(ov, "overlay.json"), "-o", bin}
	if len(b.mods) > 0 {
		bargs = append(bargs, "-modfile", filepath.Join(ov, "go.mod"))
	}
	bargs = append(bargs, b.flags...)
	bargs = append(bargs, b.main)
	run(sim, b.env, "go", bargs...)
	return bin
}

type found struct {
	part   part
	bin    string
	r      report
	file   string
	killed bool // by somebody else, as when memory runs out
}

func seedBase() (int, uint64) {
	s := 1
	if v, err := strconv.Atoi(os.Getenv("VERIF_SEED")); err == nil {
		s = v
	}
	return s, uint64(s)*1000003 - 1000002
}

// check runs one property.
func check(id string, p property, tier string, wallOver float64, procsOver int) int {
	start := time.Now()
	seed, base := seedBase()
	procs := runtime.NumCPU()
	if procs > 8 {
		procs = 8
	}
	if procsOver > 0 {
		procs = procsOver
	}
	wall := p.quick
	if tier == "thorough" {
		wall = p.thorough
	}
	if wallOver > 0 {
		wall = wallOver
	}
	bins := map[string]string{}
	for _, pt := range p.parts {
		if bins[pt.build] == "" {
			bins[pt.build] = build(pt.build)
		}
	}
	buildS := time.Since(start).Seconds()
	total := newTally()
	var viol []found
	weight := 0
	for _, pt := range p.parts {
		weight += pt.weight
	}
	searchStart := time.Now()
	for _, pt := range p.parts {
		w := wall * float64(pt.weight) / float64(weight)
		vs := search(id, pt, bins[pt.build], base, w, procs, total)
		viol = append(viol, vs...)
		if len(viol) > 0 {
			break
		}
	}
	searchS := time.Since(searchStart).Seconds()
	// the repeatability of a few seeds is part of every check
	if len(viol) == 0 {
		for _, pt := range p.parts {
			if pt.nondet {
				continue
			}
			a, b := hashes(id, pt, bins[pt.build], base, 25), hashes(id, pt, bins[pt.build], base, 25)
			if a == "" || a != b {
				fmt.Fprintln(os.Stderr, "simctl: the simulation is not repeatable; no verdict")
				return 3
			}
			total.repeat += strings.Count(a, "\n")
		}
	}
	code := 0
	reported := 0
	if len(viol) > 0 {
		for _, v := range viol {
			if !v.killed {
				code = 3
			}
		}
		sort.SliceStable(viol, func(i, j int) bool { return len(viol[i].r.Scenario) < len(viol[j].r.Scenario) })
		for i, v := range viol {
			if i >= 4 {
				break
			}
			path, class, msg, ok := confirm(id, v)
			if !ok {
				fmt.Fprintf(os.Stderr, "simctl: seed %d (%s: %s) did not reproduce in a fresh process\n", v.r.Seed, v.r.Class, v.r.Msg)
				continue
			}
			fmt.Printf("%s: %s\n", class, msg)
			fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
			reported++
			code = 1
			break
		}
	}
	if reported == 0 {
		for _, k := range knownFindings(id) {
			if total.counts["known."+k.id] > 0 {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k.what)
			}
		}
	}
	writeEvidence(id, p, tier, seed, total, buildS, searchS, time.Since(start).Seconds(), reported, procs)
	if code == 0 {
		fmt.Printf("property %s held on %d simulated runs (%d distinct), %.0f s\n", id, total.runs, len(total.seen), time.Since(start).Seconds())
	}
	return code
}

type known struct{ id, what string }

// knownFindings reads the findings listed for a property; "fixed:" lines
// suppress nothing.
func knownFindings(prop string) []known {
	b, err := os.ReadFile(filepath.Join(verif, "known-findings.txt"))
	if err != nil {
		return nil
	}
	var out []known
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "known: property="+prop+" id=") {
			continue
		}
		f := strings.SplitN(strings.TrimPrefix(l, "known: property="+prop+" id="), " ", 2)
		if len(f) == 2 {
			out = append(out, known{f[0], f[1]})
		}
	}
	return out
}

func hashes(id string, pt part, bin string, base uint64, n int) string {
	d, err := os.MkdirTemp(work, "h")
	must(err)
	defer os.RemoveAll(d)
	c := exec.Command(bin, "-harness", pt.harness, "-prop", id, "-seed", fmt.Sprint(base), "-count", fmt.Sprint(n), "-wall", "60", "-hashes", "-scratch", d)
	c.Env = workerEnv(d, false)
	out, _ := c.Output()
	var b strings.Builder
	for _, l := range strings.Split(string(out), "\n") {
		if strings.HasPrefix(l, "H ") {
			b.WriteString(l + "\n")
		}
	}
	return b.String()
}

// workerEnv is the environment of a worker with its private directory. While
// searching, a race that was reported once is not reported again.
func workerEnv(dir string, searching bool) []string {
	race := "halt_on_error=0 exitcode=0 atexit_sleep_ms=0 history_size=5 suppress_equal_addresses=0 log_path=" + filepath.Join(dir, "race")
	if !searching {
		race += " suppress_equal_stacks=0"
	}
	return append(goEnv(), "GOMAXPROCS=1", "GOGC=200", "GOMEMLIMIT=2500MiB", "GORACE="+race)
}

type tally struct {
	mu                                      sync.Mutex
	runs                                    int
	steps, switches, preempts, sync, timers uint64
	warps, stalls                           uint64
	kills, tasks, diverged, repeat          int
	virtual                                 int64
	counts                                  map[string]int
	seen                                    map[uint64]bool
	samples                                 []string
	perPart                                 map[string]int
	hits                                    map[string][]byte // by build: code points passed
}

// points counts the instrumented code points and those passed.
func (t *tally) points() (passed, all int) {
	for _, h := range t.hits {
		if len(h) == 0 {
			continue
		}
		all += len(h) - 1
		for _, x := range h[1:] {
			passed += int(x)
		}
	}
	return
}

func newTally() *tally {
	return &tally{counts: map[string]int{}, seen: map[uint64]bool{}, perPart: map[string]int{}, hits: map[string][]byte{}}
}

func (t *tally) add(pt part, r report) {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.runs += r.Runs
	t.steps += r.Steps
	t.switches += r.Switches
	t.preempts += r.Preempts
	t.sync += r.Sync
	t.timers += r.Timers
	t.warps += r.Warps
	t.stalls += r.Stalls
	t.kills += r.Kills
	t.tasks += r.Tasks
	t.diverged += r.Diverged
	t.virtual += r.Virtual
	for k, v := range r.Counts {
		t.counts[k] += v
	}
	for _, h := range r.Hashes {
		t.seen[h] = true
	}
	if len(t.samples) < 6 {
		for _, s := range r.Sample {
			if len(t.samples) < 6 {
				t.samples = append(t.samples, pt.harness+" "+s)
			}
		}
	}
	t.perPart[pt.harness] += r.Runs
	if h := t.hits[pt.build]; len(h) != len(r.Hits) {
		t.hits[pt.build] = r.Hits
	} else {
		for i, x := range r.Hits {
			h[i] |= x
		}
	}
}

// killed tells whether somebody else ended the process.
func killed(err error) bool {
	e, ok := err.(*exec.ExitError)
	if !ok {
		return false
	}
	ws, ok := e.Sys().(syscall.WaitStatus)
	return ok && ws.Signaled() && ws.Signal() == syscall.SIGKILL
}

// outOfMemory tells whether the process ended because memory ran short, which
// the runs before may have used up.
func outOfMemory(s string) bool {
	return strings.Contains(s, "memory limit") || strings.Contains(s, "out of memory") || strings.Contains(s, "cannot allocate memory")
}

// maxMem is how many megabytes a worker may hold between two runs; one that
// holds more is replaced.
const maxMem = 1500

// search runs the seeds of a part on all processes.
func search(id string, pt part, bin string, base uint64, wall float64, procs int, total *tally) []found {
	var mu sync.Mutex
	var out []found
	var cmds []*exec.Cmd
	stop := false
	stopAll := func() {
		mu.Lock()
		if !stop {
			stop = true
			for _, c := range cmds {
				c.Process.Signal(os.Interrupt)
			}
		}
		mu.Unlock()
	}
	var wg sync.WaitGroup
	for w := 0; w < procs; w++ {
		w := w
		wg.Add(1)
		go func() {
			defer wg.Done()
			first := base + uint64(w)
			end := time.Now().Add(time.Duration(wall * float64(time.Second)))
			for try := 0; try < 3; try++ {
				left := time.Until(end).Seconds()
				if left <= 0 && try > 0 {
					return
				}
				d, err := os.MkdirTemp(work, "w")
				must(err)
				pf := filepath.Join(d, "progress")
				c := exec.Command(bin, "-harness", pt.harness, "-prop", id, "-seed", fmt.Sprint(first), "-stride", fmt.Sprint(procs),
					"-wall", fmt.Sprint(left), "-progress", pf, "-scratch", filepath.Join(d, "s"), "-maxviol", "5", "-maxmem", fmt.Sprint(maxMem))
				c.Env = workerEnv(d, true)
				c.Dir = d
				so, err := c.StdoutPipe()
				must(err)
				var se tail
				c.Stderr = &se
				mu.Lock()
				if stop {
					mu.Unlock()
					return
				}
				err = c.Start()
				cmds = append(cmds, c)
				mu.Unlock()
				must(err)
				gotStats, full := false, false
				hung := false
				quit := make(chan bool)
				go func() { // watchdog: a run that makes no progress
					last, since := "", time.Now()
					for {
						select {
						case <-quit:
							return
						case <-time.After(2 * time.Second):
						}
						b, _ := os.ReadFile(pf)
						if string(b) != last {
							last, since = string(b), time.Now()
						} else if time.Since(since) > 90*time.Second {
							hung = true
							c.Process.Kill()
							return
						}
					}
				}()
				sc := bufio.NewReaderSize(so, 1<<20)
				for {
					line, err := sc.ReadBytes('\n')
					if len(line) > 2 && line[0] == '{' {
						var r report
						if json.Unmarshal(line, &r) == nil {
							switch r.Kind {
							case "viol":
								mu.Lock()
								out = append(out, found{part: pt, bin: bin, r: r})
								n := len(out)
								mu.Unlock()
								if n == 1 {
									time.AfterFunc(2*time.Second, stopAll)
								}
							case "stats":
								gotStats = true
								total.add(pt, r)
								if r.Full {
									full, first = true, r.Seed
								}
							}
						}
					}
					if err != nil {
						break
					}
				}
				werr := c.Wait()
				close(quit)
				mu.Lock()
				stopped := stop
				mu.Unlock()
				if gotStats || stopped {
					os.RemoveAll(d)
					if full && !stopped && time.Until(end) > time.Second {
						try--
						continue
					}
					return
				}
				// the process died in a run
				b, _ := os.ReadFile(pf)
				seed, perr := strconv.ParseUint(strings.TrimSpace(string(b)), 10, 64)
				os.RemoveAll(d)
				if perr != nil {
					fmt.Fprintf(os.Stderr, "simctl: worker failed: %v\n%s\n", werr, se.String())
					mu.Lock()
					out = append(out, found{part: pt, bin: bin, r: report{Kind: "broken", Msg: fmt.Sprint(werr)}})
					mu.Unlock()
					return
				}
				class := "crash"
				if hung {
					class = "hang"
				}
				mu.Lock()
				out = append(out, found{part: pt, bin: bin, r: report{Kind: "viol", Seed: seed, Class: class, Msg: crashLine(se.String())}, killed: !hung && (killed(werr) || outOfMemory(se.String()))})
				n := len(out)
				mu.Unlock()
				if n == 1 {
					time.AfterFunc(2*time.Second, stopAll)
				}
				first = seed + uint64(procs)
			}
		}()
	}
	wg.Wait()
	return out
}

// tail keeps the end of a stream.
type tail struct {
	mu sync.Mutex
	b  []byte
	h  []byte
}

func (t *tail) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if len(t.h) < 4000 {
		t.h = append(t.h, p...)
	} else {
		t.b = append(t.b, p...)
		if len(t.b) > 16000 {
			t.b = append([]byte(nil), t.b[len(t.b)-8000:]...)
		}
	}
	return len(p), nil
}

func (t *tail) String() string { t.mu.Lock(); defer t.mu.Unlock(); return string(t.h) + string(t.b) }

func crashLine(s string) string {
	for _, l := range strings.Split(s, "\n") {
		if strings.HasPrefix(l, "fatal error:") || strings.HasPrefix(l, "panic:") || strings.HasPrefix(l, "runtime:") || strings.HasPrefix(l, "SIG") {
			return l
		}
	}
	return "the process died or stopped making progress"
}

// confirm minimises a violation and replays it in fresh processes.
func confirm(id string, v found) (path, class, msg string, ok bool) {
	if v.r.Kind == "broken" {
		return
	}
	dir := filepath.Join(verif, "evidence", "replays")
	must(os.MkdirAll(dir, 0o755))
	d, err := os.MkdirTemp(work, "c")
	must(err)
	defer os.RemoveAll(d)
	raw := filepath.Join(d, "raw.json")
	crash := len(v.r.Scenario) == 0
	if crash {
		c := exec.Command(v.bin, "-harness", v.part.harness, "-prop", id, "-seed", fmt.Sprint(v.r.Seed), "-dump", "-scratch", filepath.Join(d, "s"))
		c.Env = workerEnv(d, false)
		out, err := c.Output()
		if err != nil {
			return
		}
		must(os.WriteFile(raw, out, 0o644))
	} else {
		must(os.WriteFile(raw, v.r.Scenario, 0o644))
	}
	path = filepath.Join(dir, fmt.Sprintf("%s-%s-%d.json", id, v.part.harness, v.r.Seed))
	min := filepath.Join(d, "min.json")
	if !crash {
		c := exec.Command(v.bin, "-min", raw, "-out", min, "-wall", "25", "-scratch", filepath.Join(d, "s"))
		c.Env = workerEnv(d, false)
		runFor(c, 90*time.Second)
		if a, ok1 := replayTwice(v, min, d); ok1 {
			must(stamp(min, path, id, v.part))
			return path, a.Class, a.Msg, true
		}
	}
	a, ok1 := replayTwice(v, raw, d)
	if crash && ok1 {
		a.Class, a.Msg = v.r.Class, v.r.Msg
	}
	if ok1 {
		must(stamp(raw, path, id, v.part))
		return path, a.Class, a.Msg, true
	}
	return
}

// stamp writes the replay file with the build variant it needs.
func stamp(from, to, id string, pt part) error {
	b, err := os.ReadFile(from)
	if err != nil {
		return err
	}
	var m map[string]json.RawMessage
	if err := json.Unmarshal(b, &m); err != nil {
		return err
	}
	m["check"], _ = json.Marshal(id)
	m["build"], _ = json.Marshal(pt.build)
	o, err := json.MarshalIndent(m, "", " ")
	if err != nil {
		return err
	}
	return os.WriteFile(to, o, 0o644)
}

func runFor(c *exec.Cmd, d time.Duration) error {
	if err := c.Start(); err != nil {
		return err
	}
	t := time.AfterFunc(d, func() { c.Process.Kill() })
	defer t.Stop()
	return c.Wait()
}

func replayOnce(bin, file, scratch string, extra ...string) (report, bool) {
	args := append([]string{"-replay", file, "-scratch", scratch}, extra...)
	c := exec.Command(bin, args...)
	must(os.MkdirAll(scratch, 0o755))
	c.Env = workerEnv(scratch, false)
	var out bytes.Buffer
	c.Stdout = &out
	if len(extra) > 0 {
		c.Stderr = os.Stdout
	}
	err := runFor(c, 150*time.Second)
	var r report
	for _, l := range strings.Split(out.String(), "\n") {
		if strings.HasPrefix(l, "{") && json.Unmarshal([]byte(l), &r) == nil && r.Kind == "replay" {
			return r, true
		}
	}
	if err != nil {
		return report{Kind: "replay", Class: "crash", Msg: err.Error(), Hash: "crash"}, true
	}
	return report{}, false
}

func replayTwice(v found, file, d string) (report, bool) {
	if _, err := os.Stat(file); err != nil {
		return report{}, false
	}
	a, ok1 := replayOnce(v.bin, file, filepath.Join(d, "r1"))
	b, ok2 := replayOnce(v.bin, file, filepath.Join(d, "r2"))
	if !ok1 || !ok2 || a.Class == "" || a.Class != b.Class {
		return a, false
	}
	if !v.part.nondet && a.Hash != b.Hash {
		return a, false
	}
	return a, true
}

func doReplay(file string, trace bool) int {
	b, err := os.ReadFile(file)
	must(err)
	var m struct {
		Build, Check, Property, Class, Hash, Message string
	}
	must(json.Unmarshal(b, &m))
	if m.Build == "" {
		m.Build = "engine"
	}
	if m.Check == "" {
		m.Check = m.Property
	}
	bin := build(m.Build)
	var extra []string
	if trace {
		extra = append(extra, "-trace")
	}
	r, ok := replayOnce(bin, file, filepath.Join(work, "r"), extra...)
	if !ok {
		fmt.Println("the replay gave no result")
		return 3
	}
	if r.Class == "" {
		fmt.Println("the replay shows no violation on this tree")
		return 0
	}
	fmt.Printf("%s: %s\n", r.Class, r.Msg)
	fmt.Printf("recorded hash %s, replayed hash %s\n", m.Hash, r.Hash)
	fmt.Printf("VIOLATION property=%s replay=%s\n", m.Check, file)
	return 1
}

func writeEvidence(id string, p property, tier string, seed int, t *tally, buildS, searchS, wallS float64, viol, procs int) {
	faults := map[string]int{}
	ops := map[string]int{}
	other := map[string]int{}
	for k, v := range t.counts {
		switch {
		case strings.HasPrefix(k, "fault."):
			faults[strings.TrimPrefix(k, "fault.")] = v
		case strings.HasPrefix(k, "op."):
			ops[strings.TrimPrefix(k, "op.")] = v
		default:
			other[k] = v
		}
	}
	faults["preemption"] = int(t.preempts)
	faults["stalled_task"] = int(t.stalls)
	faults["clock_jump"] = int(t.warps)
	faults["killed_task"] = t.kills
	perHour := 0.0
	if searchS > 0 {
		perHour = float64(t.runs) / searchS * 3600
	}
	passed, points := t.points()
	samples := make([]interface{}, 0)
	for _, s := range t.samples {
		samples = append(samples, s)
	}
	var stubs []string
	seen := map[string]bool{}
	for _, pt := range p.parts {
		for _, s := range builds[pt.build].stubs {
			if !seen[s] {
				seen[s] = true
				stubs = append(stubs, s)
			}
		}
	}
	var real []string
	for _, pt := range p.parts {
		for _, s := range builds[pt.build].real {
			if !seen[s] {
				seen[s] = true
				real = append(real, s)
			}
		}
	}
	ev := map[string]interface{}{
		"property": id, "tier": tier, "seed": seed, "level": "exploration", "wall_s": wallS, "violations": viol,
		"coverage": map[string]interface{}{
			"evaluations":                 t.runs,
			"distinct_nontrivial":         len(t.seen),
			"rule":                        p.rule + " Two runs are distinct when the hashes of their event sequences (every scheduling decision, synchronisation event, timer and fault, with the task and the site) differ.",
			"samples":                     samples,
			"simulated_runs":              t.runs,
			"seeds_per_hour":              perHour,
			"simulated_seconds":           float64(t.virtual) / 1e9,
			"steps":                       t.steps,
			"context_switches":            t.switches,
			"synchronisation_events":      t.sync,
			"timer_firings":               t.timers,
			"tasks":                       t.tasks,
			"code_points_reached":         passed,
			"code_points":                 points,
			"faults_injected":             faults,
			"operations":                  ops,
			"checks":                      other,
			"runs_per_harness":            t.perPart,
			"seeds_replayed_for_identity": t.repeat,
			"processes":                   procs,
			"build_seconds":               buildS,
			"search_seconds":              searchS,
			"real_components":             real,
			"stub_components":             stubs,
		},
		"assumptions": append([]string{
			"A clean batch is evidence, not proof: the simulator samples schedules and fault sequences.",
			"Tasks are preempted between statements and inside shared read-modify-writes, not inside single machine operations; weak-memory effects are covered only through the data-race check (C05).",
		}, p.assumptions...),
	}
	b, err := json.MarshalIndent(ev, "", " ")
	must(err)
	must(os.MkdirAll(filepath.Join(verif, "evidence"), 0o755))
	must(os.WriteFile(filepath.Join(verif, "evidence", id+".json"), append(b, '\n'), 0o644))
}

var _ = io.EOF
