package hn

import (
	"context"
	"errors"
	"fmt"
	"os"
	"strconv"
	"strings"
	"syscall"
	"time"

	rpc "github.com/go-ego/riot/net/grpc"
	pb "github.com/go-ego/riot/net/grpc/riot-pb"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"

	"verif.local/sim/dst"
	"verif.local/sim/h"
	. "verif.local/sim/w"
	xflag "verif.local/sim/x/flag"
	xgrpc "verif.local/sim/x/grpc"
	lb "verif.local/sim/x/grpclb"
	xnet "verif.local/sim/x/net"
	xsignal "verif.local/sim/x/signal"
)

// DiscoCfg configures a run of a discoverable node.
type DiscoCfg struct {
	Num        int      // which of the configured ports
	Ports      []int    // configured ports
	Name, Addr string   // configured service and registry
	Flags      []string // command line
	Plain      string   // port of the plain gRPC server in the same process, if any
	Busy       string   // "taken", "plain": that port is; "refused": the registry refuses
	RegMs      int      // how long the registry takes to register and to unregister
	UnMs       int
	UnErr      bool // unregistering fails
	Peers      int
	Shards     int
}

// DiscoH runs the life of one discoverable node against a simulated registry.
type DiscoH struct{}

func init() { All["disco"] = DiscoH{} }

var signals = map[string]syscall.Signal{"TERM": syscall.SIGTERM, "INT": syscall.SIGINT, "HUP": syscall.SIGHUP, "QUIT": syscall.SIGQUIT,
	"WINCH": syscall.SIGWINCH, "CHLD": syscall.SIGCHLD, "CONT": syscall.SIGCONT, "URG": syscall.SIGURG}

func ends(s string) bool { return s == "TERM" || s == "INT" || s == "HUP" || s == "QUIT" }

// Gen draws the configuration, the registry's behaviour, calls and signals.
func (DiscoH) Gen(prop string, seed uint64) *Scenario {
	r := NewRng(seed)
	c := DiscoCfg{Name: r.PickS("riot_service", "riot", "a/b"), Addr: r.PickS("http://127.0.0.1:2379", "http://10.0.0.7:2379,http://10.0.0.8:2379"), Peers: r.Pick(0, 1, 1, 2, 3), Shards: r.In(1, 2)}
	for i, n := 0, r.Pick(1, 1, 2, 3); i < n; i++ {
		c.Ports = append(c.Ports, 50051+i*r.Pick(1, 10, 1000)*(i+1))
	}
	c.Num = r.N(len(c.Ports))
	if r.P(30) {
		if r.P(50) {
			c.Flags = append(c.Flags, "-port", strconv.Itoa(r.Pick(50099, 51000)))
		}
		if r.P(50) {
			c.Flags = append(c.Flags, "-service="+r.PickS("other", "x"))
		}
		if r.P(50) {
			c.Flags = append(c.Flags, "-reg", r.PickS("http://etcd:2379", "h1,h2"))
		}
	}
	if r.P(50) {
		c.Plain = ":50041"
	}
	if r.P(15) {
		c.Busy = r.PickS("taken", "refused")
		if c.Plain != "" && r.P(30) {
			c.Busy = "plain"
		}
	}
	c.RegMs, c.UnMs, c.UnErr = r.Pick(0, 0, 1, 50, 3000, 20000), r.Pick(0, 0, 1, 20, 500, 3000, 20000), r.P(20)
	sc := &Scenario{Harness: "disco", Property: prop, Seed: seed}
	life := r.Pick(50, 500, 3000, 30000)
	for k, n := 0, r.In(1, 4); k < n; k++ {
		for i, m := 0, r.In(1, 6); i < m; i++ {
			sc.Ops = append(sc.Ops, Op{Client: k, Kind: r.PickS("search", "search", "heart", "index"), S: fmt.Sprintf("u%d_%d", k, i), N: r.Pick(0, 1, 10, r.N(life/m+1)), Force: c.Plain != "" && r.P(30)})
		}
	}
	for i := 0; i < c.Peers; i++ {
		if r.P(40) {
			sc.Faults = append(sc.Faults, Fault{Kind: r.PickS("slow", "slow", "hang", "down"), Peer: i, N: r.Pick(5, 100, 400, 900, 2000)})
		}
	}
	for i, n := 0, r.Pick(0, 0, 1, 2); i < n; i++ {
		sc.Faults = append(sc.Faults, Fault{Kind: "sig", At: r.N(life), S: r.PickS("WINCH", "CHLD", "CONT", "URG")})
	}
	at := r.Pick(life, r.N(life+1))
	for i, n := 0, r.Pick(1, 1, 1, 2, 3); i < n; i++ {
		sc.Faults = append(sc.Faults, Fault{Kind: "sig", At: at, S: r.PickS("TERM", "INT", "HUP", "QUIT")})
		at += r.Pick(0, 1, 10, 1000, 5000)
	}
	sc.Sched = GenSched(r, 2000000)
	if r.P(60) {
		sc.Sched.Warp = 0
	}
	sc.SetCfg(c)
	return sc
}

type discoRun struct {
	sc         *Scenario
	cfg        DiscoCfg
	counts     map[string]int
	g          *dst.Group
	port       string
	name, addr string
	regs, uns  int
	regOK      bool
	unStart    bool
	unDone     bool
	unAt       time.Duration
	asked      bool // told to end
	askedAt    time.Duration
	ended      string
	open       int
}

// Exec runs a scenario.
func (DiscoH) Exec(sc *Scenario, trace bool) *Outcome {
	e := &discoRun{sc: sc, counts: map[string]int{}}
	sc.GetCfg(&e.cfg)
	resetSeams()
	e.name, e.addr, e.port = e.cfg.Name, e.cfg.Addr, strconv.Itoa(e.cfg.Ports[e.cfg.Num])
	for i, f := range e.cfg.Flags {
		switch {
		case f == "-port":
			e.port = e.cfg.Flags[i+1]
		case f == "-reg":
			e.addr = e.cfg.Flags[i+1]
		case strings.HasPrefix(f, "-service="):
			e.name = f[len("-service="):]
		}
	}
	xflag.CmdArgs = e.cfg.Flags
	xgrpc.Net = e.net
	lb.OnRegister, lb.OnUnRegister = e.register, e.unregister
	out := RunKernel(sc, trace, e.counts, e.main)
	out.Nontriv = e.regs > 0
	resetSeams()
	xflag.CmdArgs = nil
	lb.OnRegister, lb.OnUnRegister = nil, nil
	return out
}

func (e *discoRun) register(o lb.Opt) error {
	e.regs++
	if e.regs > 1 {
		dst.Fail("register", "the node registers %d times", e.regs)
	}
	if o.Name != e.name || o.Host != "127.0.0.1" || strconv.Itoa(o.Port) != e.port || o.Target != e.addr {
		dst.Fail("register", "the node registers %q at %s:%d with the registry %q; it is to register %q at 127.0.0.1:%s with %q", o.Name, o.Host, o.Port, o.Target, e.name, e.port, e.addr)
	}
	if o.Interval <= 0 || time.Duration(o.Ttl)*time.Second <= o.Interval {
		dst.Fail("lease", "the registration lasts %d seconds and is renewed every %v", o.Ttl, o.Interval)
	}
	if g := xnet.Owner(e.port); g != e.g {
		dst.Fail("register", "the node registers port %s and does not listen there", e.port)
	}
	if e.asked {
		dst.Fail("register", "the node registers after it was told to end")
	}
	dst.Sleep(time.Duration(e.cfg.RegMs) * time.Millisecond)
	if e.cfg.Busy == "refused" {
		e.counts["fault.refused"]++
		return errors.New("etcdserver: request refused")
	}
	e.regOK = true
	return nil
}

func (e *discoRun) unregister() error {
	e.uns++
	if !e.asked {
		dst.Fail("unregister", "the node removes its registration although nobody told it to end")
	}
	if e.uns > 1 {
		dst.Fail("unregister", "the node removes its registration %d times", e.uns)
	}
	e.unStart = true
	dst.Sleep(time.Duration(e.cfg.UnMs) * time.Millisecond)
	if e.cfg.UnMs > 0 {
		e.counts["fault.slowregistry"]++
	}
	e.unDone, e.unAt = true, dst.Idle()
	if e.cfg.UnErr {
		e.counts["fault.unregister"]++
		return errors.New("etcdserver: request timed out")
	}
	return nil
}

func (e *discoRun) fault(peer int) *Fault {
	for i := range e.sc.Faults {
		if f := &e.sc.Faults[i]; f.Kind != "sig" && f.Peer == peer {
			return f
		}
	}
	return nil
}

func (e *discoRun) net(x *xgrpc.Call) xgrpc.Answer {
	if strings.HasPrefix(x.Target, "client->") {
		return xgrpc.Answer{Local: true}
	}
	in := new(pb.SearchReq)
	if !strings.HasSuffix(x.Method, "/Search") || unmarshal(x.Req, in) != nil {
		dst.Fail("forward", "the node calls %s of %s with %q", x.Method, x.Target, x.Req)
	}
	peer := -1
	fmt.Sscanf(x.Target, "peer%d:", &peer)
	a := xgrpc.Answer{Delay: time.Millisecond}
	if f := e.fault(peer); f != nil {
		e.counts["fault."+f.Kind]++
		switch f.Kind {
		case "hang":
			return xgrpc.Answer{Hang: true}
		case "down":
			a.Err = status.Error(codes.Unavailable, "connection refused")
			return a
		}
		a.Delay = time.Duration(f.N) * time.Millisecond
	}
	a.Reply = &pb.SearchReply{Len: 1, Docs: []*pb.Text{{Id: fmt.Sprintf("p%d-%s", peer, in.Id), Attri: &pb.Attri{Ts: int64(peer)}}}}
	return a
}

// call performs one call on the node while it is registered.
func (e *discoRun) call(o *Op) {
	to := ":" + e.port
	if o.Force && e.cfg.Plain != "" {
		to = e.cfg.Plain
	}
	conn, err := xgrpc.Dial("client->" + to)
	if err != nil {
		panic(err)
	}
	up := !e.unDone && e.ended == ""
	switch o.Kind {
	case "search":
		rep := new(pb.SearchReply)
		err = conn.Invoke(context.Background(), "/doc.Greeter/Search", &pb.SearchReq{Id: o.S, Query: words[0], MaxOutputs: 100, Time: "t"}, rep)
		if err != nil {
			break
		}
		e.counts["answered"]++
		if to == e.cfg.Plain {
			break // its own documents only
		}
		got := map[string]bool{}
		for _, d := range rep.Docs {
			got[d.Id] = true
		}
		for i := 0; i < e.cfg.Peers; i++ {
			id := fmt.Sprintf("p%d-%s", i, o.S)
			if f := e.fault(i); (f == nil || f.Kind == "slow" && f.N <= 400) && e.sc.Sched.Warp == 0 && !got[id] {
				dst.Fail("search", "the search of %s lacks what peer %d answers", o.S, i)
			}
		}
	case "heart":
		rep := new(pb.Reply)
		if err = conn.Invoke(context.Background(), "/doc.Greeter/HeartBeat", &pb.HeartReq{Msg: 7}, rep); err == nil && rep.Result != 7 {
			dst.Fail("heart", "the heartbeat answers %d", rep.Result)
		}
	case "index":
		rep := new(pb.Reply)
		err = conn.Invoke(context.Background(), "/doc.Greeter/DocInx", &pb.DocReq{DocId: o.S, Content: words[0]}, rep)
	}
	conn.Close()
	// an error is the end of the process, or it came after the registration went
	if err != nil && up && !e.unDone && e.ended == "" {
		dst.Fail("error", "%s of %s fails while the node is registered: %v", o.Kind, o.S, err)
	}
}

func (e *discoRun) end(why string) {
	e.ended = why
	switch {
	case e.cfg.Busy != "":
	case !e.asked:
		dst.Fail("end", "the node ends, and nobody told it to: %s", why)
	case !e.unStart:
		dst.Fail("end", "the node ends without removing its registration: %s", why)
	case !e.unDone:
		dst.Fail("end", "the node ends while its registration is being removed: %s", why)
	}
}

// wait polls until ok, at most for d of idle time.
func (e *discoRun) wait(d time.Duration, ok func() bool) bool {
	t0 := dst.Idle()
	for !ok() {
		if dst.Idle()-t0 > d {
			return false
		}
		dst.Sleep(time.Millisecond)
	}
	return true
}

func (e *discoRun) main() {
	cfg := NodeCfg{Shards: e.cfg.Shards, StoreShards: 1, MaxOut: 10}
	for i := 0; i < e.cfg.Peers; i++ {
		cfg.Dist = append(cfg.Dist, fmt.Sprintf("peer%d:50051", i))
	}
	conf := cfg.conf()
	conf.Etcd.Addr, conf.Etcd.SverName, conf.Etcd.Port = e.cfg.Addr, e.cfg.Name, append([]int(nil), e.cfg.Ports...)
	if e.cfg.Busy == "taken" {
		e.counts["fault.taken"]++
		xnet.ListenAs(dst.NewGroup("squatter"), e.port)
	}
	if e.cfg.Busy == "plain" {
		e.counts["fault.taken"]++
		xnet.ListenAs(dst.NewGroup("squatter"), e.cfg.Plain[1:])
	}
	e.g = dst.NewGroup("node")
	e.g.OnExit, e.g.OnPanic = e.end, func(msg string) {
		if e.cfg.Busy == "" {
			dst.Fail("panic", "the node dies: %s", msg)
		}
		e.end("panic: " + msg)
	}
	disk := h.NewDisk()
	disk.Release()
	h.SetDisk(e.g, disk)
	dst.GoIn(e.g, "boot", func() { rpc.InitEngine(conf) }).Join()
	if e.cfg.Plain != "" {
		dst.GoIn(e.g, "grpc", func() { rpc.InitGrpc(e.cfg.Plain) })
	}
	if e.cfg.Busy != "plain" {
		dst.GoIn(e.g, "erpc", func() { rpc.InitErpc(e.cfg.Num) })
	}
	if e.cfg.Busy != "" {
		if !e.wait(60*time.Second, func() bool { return e.ended != "" || e.g.Dead }) {
			dst.Fail("silent", "with %s (%s) the node goes on as if nothing had happened", map[string]string{"taken": "its port taken by another process", "plain": "its plain gRPC port taken by another process", "refused": "a registry that refuses it"}[e.cfg.Busy], e.cfg.Busy)
		}
		if e.cfg.Busy == "taken" && e.regs > 0 {
			dst.Fail("register", "the node registers a port another process has")
		}
		return
	}
	if !e.wait(60*time.Second, func() bool {
		return xgrpc.Serving(e.port) && e.regOK && (e.cfg.Plain == "" || xgrpc.Serving(e.cfg.Plain))
	}) {
		dst.Fail("boot", "60 seconds after its start the node is %slistening on %s and %sregistered", no(xgrpc.Serving(e.port)), e.port, no(e.regOK))
	}
	dst.Sleep(100 * time.Millisecond)
	var ts []*dst.Task
	for _, c := range ClientsOf(e.sc.Ops, 0) {
		c := c
		ts = append(ts, dst.GoIn(nil, fmt.Sprintf("client%d", c), func() {
			for i := range e.sc.Ops {
				o := &e.sc.Ops[i]
				if o.Client == c && e.ended == "" && !e.unDone {
					dst.Sleep(time.Duration(o.N) * time.Millisecond)
					e.call(o)
				}
			}
		}))
	}
	base := dst.Idle()
	for i := range e.sc.Faults {
		f := &e.sc.Faults[i]
		if f.Kind != "sig" {
			continue
		}
		ts = append(ts, dst.GoIn(nil, "signal", func() {
			if d := base + time.Duration(f.At)*time.Millisecond - dst.Idle(); d > 0 {
				dst.Sleep(d)
			}
			e.signal(f.S)
		}))
	}
	e.wait(time.Hour, func() bool { return e.asked })
	if !e.asked {
		return // a minimised scenario without a terminating signal
	}
	if !e.wait(10*time.Second, func() bool { return e.unStart }) {
		dst.Fail("unregister", "10 seconds after it was told to end the node has not begun to remove its registration")
	}
	if !e.wait(60*time.Second, func() bool { return e.unDone }) {
		dst.Fail("unregister", "the registration is not removed")
	}
	if !e.wait(30*time.Second, func() bool { return e.ended != "" }) {
		dst.Fail("end", "30 seconds after its registration was removed the node has not ended")
	}
	for _, t := range ts {
		t.Join()
	}
}

func no(b bool) string {
	if b {
		return ""
	}
	return "not "
}

func (e *discoRun) signal(name string) {
	if e.ended != "" || e.g.Dead {
		return
	}
	e.counts["signal."+name]++
	if ends(name) && !e.asked {
		e.asked, e.askedAt = true, dst.Idle()
	}
	var s os.Signal = signals[name]
	if !xsignal.Deliver(e.g, s) && ends(name) {
		e.end("SIG" + name + " is not handled")
		dst.Kill(e.g)
	}
}
