package h

import (
	"os"
	"regexp"
	"strings"

	"verif.local/sim/dst"
	. "verif.local/sim/w"
)

// RaceH runs another harness's scenarios under the race detector; only data
// races between two accesses of the code under test count.
type RaceH struct{}

func init() { All["race"] = RaceH{} }

var raceOff int64

// Gen draws an engine or a core scenario.
func (RaceH) Gen(prop string, seed uint64) *Scenario {
	r := NewRng(seed ^ 0x7ace)
	var sc *Scenario
	switch r.N(8) {
	case 0:
		sc = CoreH{}.Gen("C15", seed)
	case 1:
		sc = CoreH{}.Gen("C16", seed)
	default:
		sc = EngineH{}.Gen(r.PickS("C05", "C01", "C02", "C03", "C06", "C07", "C09", "C10", "C13", "C14", "C22", "C24"), seed)
	}
	sc.Race = true
	return sc
}

// Exec runs the scenario and reads what the race detector reported.
func (RaceH) Exec(sc *Scenario, trace bool) *Outcome {
	o := All[sc.Harness].Exec(sc, trace)
	if o.Viol != nil {
		o.Counts["functional."+o.Viol.Class]++
		o.Viol = nil
	}
	for _, rep := range raceReports() {
		if s, ok := raceSites(rep); ok {
			o.Counts["races"]++
			if os.Getenv("RACE_DEBUG") != "" {
				os.Stderr.WriteString(rep)
			}
			if o.Viol == nil {
				o.Viol = &dst.Violation{Class: "race", Msg: s}
			}
		} else {
			o.Counts["race_reports_in_harness"]++
			if os.Getenv("RACE_DEBUG") != "" {
				os.Stderr.WriteString(rep)
			}
		}
	}
	return o
}

func raceReports() []string {
	if RaceLog == "" {
		return nil
	}
	f, err := os.Open(RaceLog)
	if err != nil {
		return nil
	}
	defer f.Close()
	st, err := f.Stat()
	if err != nil || st.Size() <= raceOff {
		return nil
	}
	b := make([]byte, st.Size()-raceOff)
	n, _ := f.ReadAt(b, raceOff)
	raceOff += int64(n)
	os.Truncate(RaceLog, 0) // the detector keeps its offset; only the space goes
	var out []string
	for _, p := range strings.Split(string(b[:n]), "==================") {
		if strings.Contains(p, "WARNING: DATA RACE") {
			out = append(out, p)
		}
	}
	return out
}

var raceHead = regexp.MustCompile(`(?m)^(Read|Write|Previous read|Previous write|Atomic|Previous atomic)[^\n]* by [^\n]*$`)

// raceSites names the two accesses when both are the code under test's.
func raceSites(rep string) (string, bool) {
	lines := strings.Split(rep, "\n")
	var sites []string
	for i := 0; i < len(lines); i++ {
		if !raceHead.MatchString(lines[i]) {
			continue
		}
		what := strings.ToLower(strings.SplitN(lines[i], " at ", 2)[0])
		site := ""
		for j := i + 1; j+1 < len(lines) && strings.HasPrefix(lines[j], "  "); j += 2 {
			fn, pos := strings.TrimSpace(lines[j]), strings.TrimSpace(lines[j+1])
			if strings.HasPrefix(fn, "verif.local/sim/x/atomic.") {
				continue // on behalf of its caller
			}
			if strings.HasPrefix(fn, "verif.local/sim/h.") || strings.HasPrefix(fn, "verif.local/sim/hn.") || strings.HasPrefix(fn, "verif.local/sim/x/") || strings.HasPrefix(fn, "main.") {
				break
			}
			if strings.HasPrefix(fn, "github.com/go-ego/riot") {
				if k := strings.Index(pos, " "); k > 0 {
					pos = pos[:k]
				}
				if k := strings.LastIndex(pos, "/riot/"); k >= 0 {
					pos = pos[k+6:]
				}
				site = what + " in " + strings.TrimPrefix(strings.TrimSuffix(fn, "()"), "github.com/go-ego/") + " (" + pos + ")"
				break
			}
		}
		if site == "" {
			return "", false
		}
		sites = append(sites, site)
	}
	if len(sites) < 2 {
		return "", false
	}
	return sites[0] + "; " + sites[1], true
}
