// Package hn holds the harnesses of the network layer: the heartbeat monitor,
// distributed search over HTTP and gRPC, and the node's remote interfaces.
package hn

import (
	"encoding/json"
	"errors"
	"fmt"
	"net/http"
	"net/url"
	"sort"
	"strings"
	"time"

	pb "github.com/go-ego/riot/net/grpc/riot-pb"
	hb "github.com/go-ego/riot/net/heartb"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"

	"verif.local/sim/dst"
	. "verif.local/sim/w"
	xexec "verif.local/sim/x/exec"
	xgrpc "verif.local/sim/x/grpc"
	xhttp "verif.local/sim/x/http"
)

// HbCfg configures a run of the heartbeat monitor.
type HbCfg struct {
	Secs int // simulated seconds
	Cmd  string
	Dir  string
	Addr string
}

// HeartbH runs the real monitor and its HTTP handlers against a simulated node.
type HeartbH struct{}

func init() { All["heartb"] = HeartbH{} }

// Gen draws a history of the node, of its restart commands and of requests.
func (HeartbH) Gen(prop string, seed uint64) *Scenario {
	r := NewRng(seed)
	c := HbCfg{Secs: r.Pick(20, 30, 60, 60, 120, 300), Cmd: r.PickS("nohup ./riot", "./start.sh; true"), Dir: r.PickS("../", "/srv/riot", ""), Addr: "localhost:50041"}
	if r.P(4) {
		c.Secs = r.Pick(3600, 7200)
	}
	sc := &Scenario{Harness: "heartb", Property: prop, Seed: seed}
	n := r.In(0, 5)
	if r.P(10) {
		n = r.In(5, 14)
	}
	for at, i := 0, 0; i < n; i++ {
		at += r.Pick(0, 1, 2, 3, 5, r.N(c.Secs+1))
		f := Fault{Kind: r.PickS("down", "down", "hang", "bad", "err", "slow", "drop"), At: at}
		switch r.N(4) {
		case 0:
			f.N = -1 // until a restart command has run
		case 1:
			f.N = r.In(1, 3)
		default:
			f.N = r.In(1, 9)
		}
		if f.Kind == "slow" {
			f.Peer = r.Pick(5, 50, 300, 900, 1500, 2900, 3100, 6000, 30000)
		}
		if f.Kind == "bad" {
			f.Peer = r.Pick(0, 2, -1, 7)
		}
		sc.Faults = append(sc.Faults, f)
		if f.N > 0 {
			at += f.N
		}
	}
	for i := 0; i < r.In(0, 4); i++ {
		sc.Faults = append(sc.Faults, Fault{Kind: "cmd", At: i, N: r.Pick(0, 0, 3, 200, 2000, 15000, 70000), S: r.PickS("", "", "exit status 1", "no such file", "useless")})
	}
	cl := r.In(0, 3)
	for k := 0; k < cl; k++ {
		for i, m := 0, r.In(1, 12); i < m; i++ {
			o := Op{Client: k, Kind: r.PickS("health", "health", "health", "kill", "restart"), N: r.Pick(0, 1, 10, 300, 1000, 1000, 1001, r.N(c.Secs*1000/m+1)), S: r.PickS("riot", "riot1", "a b", "")}
			if o.Kind != "health" && r.P(40) {
				o.Force = true // POST form
			}
			if o.Kind != "health" {
				o.Peer = r.Pick(0, 0, 1, 50, 3000) // how long killall takes
			}
			sc.Ops = append(sc.Ops, o)
		}
	}
	if r.P(30) { // many requests around every beat
		for i := 0; i < 20; i++ {
			sc.Ops = append(sc.Ops, Op{Client: 9, Kind: r.PickS("health", "health", "kill"), N: r.Pick(999, 1000, 1001, 1000), S: "riot"})
		}
	}
	sc.Sched = GenSched(r, 4000000)
	if r.P(60) {
		sc.Sched.Warp = 0
	}
	sc.SetCfg(c)
	return sc
}

type hbOp struct {
	kind     byte // i increment, d decision, r reset, h health
	inv, ret uint64
	v        int64
	prev     int // operation that must come before, or -1
	restart  bool
	desc     string
}

type hbKill struct {
	name string
	inv  uint64
	d    time.Duration
	ran  bool // its command has been run (or that of a concurrent request of the same name)
	ret  bool // answered
}

type hbRun struct {
	sc     *Scenario
	cfg    HbCfg
	counts map[string]int
	clock  uint64
	beats  int
	cmds   int
	fixed  int // heartbeats up to which open-ended failures have been ended by a restart
	ops    []hbOp
	last   int // last operation of the monitor
	open   []int
	mon    *dst.Task
	fin    bool
	ready  time.Duration // idle time since which the monitor owes a heartbeat
	inCmd  bool
	inCall bool
	called time.Duration // idle time at the start of the open call
	kills  []*hbKill
	fate   map[*xgrpc.Call]*Fault
	failed int
}

func (e *hbRun) tick() uint64 { e.clock++; return e.clock }

// Exec runs a scenario.
func (HeartbH) Exec(sc *Scenario, trace bool) *Outcome {
	e := &hbRun{sc: sc, counts: map[string]int{}, last: -1, fate: map[*xgrpc.Call]*Fault{}}
	sc.GetCfg(&e.cfg)
	dst.ResetGlobals()
	xexec.Records = nil
	out := RunKernel(sc, trace, e.counts, e.main)
	out.Nontriv = e.failed > 0
	xgrpc.Net, xgrpc.Observe, xgrpc.Up, xexec.Hook = nil, nil, nil, nil
	return out
}

// fateOf is what happens to heartbeat number n.
func (e *hbRun) fateOf(n int) *Fault {
	for i := range e.sc.Faults {
		f := &e.sc.Faults[i]
		if f.Kind == "cmd" || n < f.At {
			continue
		}
		if f.N >= 0 && n < f.At+f.N || f.N < 0 && f.At >= e.fixed {
			return f
		}
	}
	return nil
}

func (e *hbRun) net(c *xgrpc.Call) xgrpc.Answer {
	f := e.fate[c]
	if f == nil {
		return xgrpc.Answer{Delay: time.Millisecond, Reply: &pb.Reply{Result: 1}}
	}
	e.counts["fault."+f.Kind]++
	switch f.Kind {
	case "down":
		return xgrpc.Answer{Delay: time.Millisecond, Err: status.Error(codes.Unavailable, "connection refused")}
	case "hang":
		return xgrpc.Answer{Hang: true}
	case "drop":
		return xgrpc.Answer{Delay: 20 * time.Millisecond, Err: status.Error(codes.Unavailable, "transport is closing")}
	case "err":
		return xgrpc.Answer{Delay: time.Millisecond, Err: status.Error(codes.Internal, "boom")}
	case "bad":
		return xgrpc.Answer{Delay: time.Millisecond, Reply: &pb.Reply{Result: int32(f.Peer)}}
	case "slow":
		return xgrpc.Answer{Delay: time.Duration(f.Peer) * time.Millisecond, Reply: &pb.Reply{Result: 1}}
	}
	panic(f.Kind)
}

func (e *hbRun) add(o hbOp) int {
	e.ops = append(e.ops, o)
	return len(e.ops) - 1
}

// close gives the monitor's open operations their end.
func (e *hbRun) close() {
	t := e.tick()
	for _, i := range e.open {
		e.ops[i].ret = t
	}
	e.open = nil
}

func (e *hbRun) chain(o hbOp) {
	o.prev = e.last
	e.last = e.add(o)
	e.open = append(e.open, e.last)
}

// observe follows the monitor's heartbeats.
func (e *hbRun) observe(c *xgrpc.Call) {
	if e.fin {
		return
	}
	if !strings.HasSuffix(c.Method, "/HeartBeat") {
		dst.Fail("heartbeat", "the monitor called %s", c.Method)
	}
	if c.Target != e.cfg.Addr {
		dst.Fail("heartbeat", "the monitor contacts %q instead of %q", c.Target, e.cfg.Addr)
	}
	if !c.Done {
		if e.inCmd {
			dst.Fail("overlap", "a heartbeat was sent while the restart command was running")
		}
		e.close()
		e.inCall, e.called = true, dst.Idle()
		if f := e.fateOf(e.beats); f != nil {
			e.fate[c] = f
		}
		e.beats++
		e.counts["heartbeats"]++
		e.checkLate("heartbeat")
		return
	}
	e.inCall = false
	e.ready = dst.Idle()
	f := e.fate[c]
	bad := !c.OK || f != nil && f.Kind == "bad"
	if !c.OK && e.sc.Sched.Warp == 0 && (f == nil || f.Kind == "slow" && f.Peer <= 500) {
		dst.Fail("false_alarm", "a heartbeat answered within %v counts as failed: %v", c.IdleEnd-c.Idle, c.Err)
	}
	if d := c.IdleEnd - c.Idle; d > 20*time.Second {
		dst.Fail("stuck", "the monitor waited %v for an answer", d)
	}
	t := e.tick()
	if bad {
		e.failed++
		e.counts["failed_heartbeats"]++
		e.chain(hbOp{kind: 'i', inv: t, desc: fmt.Sprintf("heartbeat %d failed (%v)", e.beats, c.Err)})
	}
	e.chain(hbOp{kind: 'd', inv: t, desc: fmt.Sprintf("decision after heartbeat %d", e.beats)})
}

// checkLate fails when the monitor has been idle for too long.
func (e *hbRun) checkLate(what string) {
	if e.inCall || e.inCmd {
		if what != "heartbeat" {
			return
		}
	}
	if d := dst.Idle() - e.ready; d > 1500*time.Millisecond {
		dst.Fail("late", "%v passed before the next %s", d, what)
	}
}

// command is called in the task that starts a command.
func (e *hbRun) command(r xexec.Record) (time.Duration, error) {
	if e.fin {
		return 0, nil
	}
	line := strings.Join(r.Args, " ")
	if !strings.HasSuffix(line, e.cfg.Cmd) {
		first := ^uint64(0) // of the requests the command may belong to
		for _, k := range e.kills {
			if k.ret || !strings.HasSuffix(line, "killall -9 "+k.name) || r.Dir != "" {
				continue
			}
			if k.inv < first {
				first = k.inv
			}
			if !k.ran {
				k.ran = true
				e.add(hbOp{kind: 'r', inv: first, ret: e.tick(), prev: -1, desc: "kill"})
				e.counts["kills"]++
				return k.d, nil
			}
		}
		dst.Fail("command", "the monitor runs %q in %q; asked for were the restart command %q and %d kills", r.Args, r.Dir, e.cfg.Cmd, len(e.kills))
	}
	if r.Dir != e.cfg.Dir {
		dst.Fail("command", "the monitor runs %q in %q instead of %q", r.Args, r.Dir, e.cfg.Dir)
	}
	if e.inCmd {
		dst.Fail("overlap", "the restart command was started while it was running")
	}
	if e.last < 0 || e.ops[e.last].kind != 'd' || e.inCall {
		dst.Fail("restart", "the restart command was run without a heartbeat before it")
	}
	e.ops[e.last].restart = true
	e.chain(hbOp{kind: 'r', inv: e.ops[e.last].inv, desc: "restart"})
	e.close()
	e.counts["restarts"]++
	k := e.cmds
	e.cmds++
	var d time.Duration
	var err error
	useless := false
	for _, f := range e.sc.Faults {
		if f.Kind == "cmd" && f.At == k {
			d = time.Duration(f.N) * time.Millisecond
			if f.S == "useless" {
				useless = true
			} else if f.S != "" {
				err = errors.New(f.S)
				e.counts["fault.cmd_error"]++
			}
			if d > 0 {
				e.counts["fault.cmd_slow"]++
			}
			break
		}
	}
	if err == nil && !useless {
		e.fixed = e.beats
	}
	e.inCmd = true
	end := func() { e.inCmd = false; e.ready = dst.Idle() }
	if d > 0 {
		dst.AfterKernelNoGroup(d, end)
	} else {
		end()
	}
	return d, err
}

func (e *hbRun) request(o *Op) {
	form := url.Values{}
	if o.Kind != "health" && (o.S != "" || o.Force) {
		form.Set("name", o.S)
	}
	var req *http.Request
	if o.Force {
		req, _ = http.NewRequest("POST", "/"+o.Kind, strings.NewReader(form.Encode()))
		req.Header.Set("Content-Type", "application/x-www-form-urlencoded")
	} else {
		req, _ = http.NewRequest("GET", "/"+o.Kind+"?"+form.Encode(), nil)
	}
	w := &xhttp.Recorder{}
	inv, t0 := e.tick(), dst.NowNano()/1e9
	var k *hbKill
	switch o.Kind {
	case "health":
		hb.Health(w, req)
	default:
		k = &hbKill{name: o.S, inv: inv, d: time.Duration(o.Peer) * time.Millisecond}
		e.kills = append(e.kills, k)
		if o.Kind == "kill" {
			hb.KillSer(w, req)
		} else {
			hb.RestartSer(w, req)
		}
		for _, x := range e.kills {
			if !k.ran && x.ran && !x.ret && x.name == k.name {
				k.ran, x.ran = true, false
			}
		}
		k.ret = true
		if !k.ran {
			dst.Fail("command", "/%s?name=%s ran no command", o.Kind, o.S)
		}
	}
	ret, t1 := e.tick(), dst.NowNano()/1e9
	e.counts["op."+o.Kind]++
	if o.Kind == "restart" {
		return
	}
	var j struct {
		Code      *int64
		Timestamp int64
		Health    *int64
	}
	if err := json.Unmarshal(w.B.Bytes(), &j); err != nil || j.Code == nil || *j.Code != 0 || j.Timestamp < t0 || j.Timestamp > t1 || j.Health == nil {
		dst.Fail("reply", "/%s answered %q between second %d and %d", o.Kind, w.B.String(), t0, t1)
	}
	if o.Kind == "health" {
		e.add(hbOp{kind: 'h', inv: inv, ret: ret, v: *j.Health, prev: -1, desc: fmt.Sprintf("/health answers %d", *j.Health)})
	}
}

func (e *hbRun) main() {
	g := dst.NewGroup("monitor")
	xgrpc.Net, xgrpc.Observe, xexec.Hook = e.net, e.observe, e.command
	xgrpc.Up = func(string) bool {
		f := e.fateOf(e.beats)
		return f == nil || f.Kind != "down"
	}
	e.mon = dst.GoIn(g, "monitor", func() { hb.Grpcc(e.cfg.Addr, e.cfg.Dir, e.cfg.Cmd) })
	end := dst.SinceStart() + time.Duration(e.cfg.Secs)*time.Second
	var ts []*dst.Task
	for _, c := range ClientsOf(e.sc.Ops, 0) {
		c := c
		ts = append(ts, dst.GoIn(g, fmt.Sprintf("client%d", c), func() {
			for i := range e.sc.Ops {
				o := &e.sc.Ops[i]
				if o.Client != c {
					continue
				}
				dst.Sleep(time.Duration(o.N) * time.Millisecond)
				if dst.SinceStart() > end {
					return
				}
				e.request(o)
			}
		}))
	}
	for dst.SinceStart() < end {
		dst.Sleep(end - dst.SinceStart())
	}
	for _, t := range ts {
		t.Join()
	}
	if e.mon.Done() {
		dst.Fail("monitor", "the monitor has ended")
	}
	e.checkLate("sign of life")
	if d := dst.Idle() - e.called; e.inCall && d > 20*time.Second {
		dst.Fail("stuck", "the monitor has been waiting %v for an answer", d)
	}
	e.fin = true
	if max := int(dst.SinceStart()/time.Second) + 2; e.beats > max {
		dst.Fail("rate", "%d heartbeats in %v", e.beats, dst.SinceStart())
	}
	if e.last >= 0 && len(e.open) > 0 && e.ops[e.last].kind == 'd' {
		e.ops[e.last].kind = 'u' // not carried out yet
	}
	e.close()
	e.judge()
	dst.Kill(g)
}

// judge looks for an order of the recorded operations that a counter explains.
func (e *hbRun) judge() {
	ops := e.ops
	idx := make([]int, len(ops))
	for i := range idx {
		idx[i] = i
	}
	sort.SliceStable(idx, func(a, b int) bool { return ops[idx[a]].inv < ops[idx[b]].inv })
	pos := make([]int, len(ops))
	for p, i := range idx {
		pos[i] = p
	}
	done := make([]bool, len(ops))
	type key struct {
		lo   int
		mask uint64
		ct   int64
	}
	seen := map[key]bool{}
	best, why := -1, ""
	var rec func(lo int, ct int64) bool
	rec = func(lo int, ct int64) bool {
		for lo < len(idx) && done[lo] {
			lo++
		}
		if lo == len(idx) {
			return true
		}
		k := key{lo: lo, ct: ct}
		min := ^uint64(0)
		var cand []int
		for p := lo; p < len(idx) && ops[idx[p]].inv < min; p++ {
			if done[p] {
				if p-lo < 64 {
					k.mask |= 1 << (p - lo)
				}
				continue
			}
			if r := ops[idx[p]].ret; r < min {
				min = r
			}
			cand = append(cand, p)
		}
		if seen[k] {
			return false
		}
		seen[k] = true
		for _, p := range cand {
			o := &ops[idx[p]]
			if o.inv > min || o.prev >= 0 && !done[pos[o.prev]] {
				continue
			}
			n := ct
			switch o.kind {
			case 'i':
				n++
			case 'r':
				n = 0
			case 'd':
				if (ct > 3) != o.restart {
					if lo > best {
						verb := "no restart"
						if o.restart {
							verb = "a restart"
						}
						best, why = lo, fmt.Sprintf("%s: %s with %d failures counted", o.desc, verb, ct)
					}
					continue
				}
			case 'h':
				if o.v != ct {
					if lo > best {
						best, why = lo, fmt.Sprintf("%s with %d failures counted", o.desc, ct)
					}
					continue
				}
			}
			done[p] = true
			if rec(lo, n) {
				return true
			}
			done[p] = false
		}
		return false
	}
	if !rec(0, 0) {
		dst.Fail("count", "no order of the heartbeats and requests explains what was seen; %s", why)
	}
}
