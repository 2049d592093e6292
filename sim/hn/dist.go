package hn

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"net/http"
	"net/url"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/go-ego/riot/net/com"
	pb "github.com/go-ego/riot/net/grpc/riot-pb"
	rhttp "github.com/go-ego/riot/net/http"
	"github.com/go-ego/riot/types"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"

	"verif.local/sim/dst"
	"verif.local/sim/h"
	. "verif.local/sim/w"
	xgrpc "verif.local/sim/x/grpc"
	xhttp "verif.local/sim/x/http"
)

// DistCfg configures a distributed search run.
type DistCfg struct {
	Node  NodeCfg
	Peers int  // simulated peers
	Self  bool // the node is one of its own peers
	Grpc  bool
	Docs  int // documents of the node itself
}

// DistH runs the node's distributed search, over HTTP (C18) or gRPC (C19),
// against simulated peers.
type DistH struct{}

func init() { All["dist"] = DistH{} }

// Gen draws peers, their failures per request, and concurrent requests.
func (DistH) Gen(prop string, seed uint64) *Scenario {
	r := NewRng(seed)
	c := DistCfg{Grpc: prop == "C19", Self: r.P(50), Peers: r.Pick(0, 1, 1, 2, 2, 3, 3, 4), Docs: r.In(0, 4)}
	if r.P(4) {
		c.Peers = r.In(5, r.Pick(9, 20, 40))
	}
	c.Node = NodeCfg{Using: 0, Shards: r.In(1, 2), StoreShards: 1, MaxOut: r.Pick(0, 1, 2, 3, 5, 10, 100), OffDef: r.Pick(0, 0, 0, 1)}
	pos := r.N(c.Peers + 1)
	for i := 0; i <= c.Peers; i++ {
		if i == pos && c.Self {
			c.Node.Urls = append(c.Node.Urls, selfURL)
			c.Node.Dist = append(c.Node.Dist, selfPort)
		}
		if i < c.Peers {
			c.Node.Urls = append(c.Node.Urls, fmt.Sprintf("http://peer%d:8081", i))
			c.Node.Dist = append(c.Node.Dist, fmt.Sprintf(":%d", 50702+i))
		}
	}
	sc := &Scenario{Harness: "dist", Property: prop, Seed: seed}
	cl := r.Pick(1, 1, 2, 2, 3, 4)
	k := 0
	var extra []int
	if r.P(15) {
		extra = []int{-1}
	}
	for _, i := range append([]int{0, 1, 2, 3}[:cl:cl], extra...) {
		for j, m := 0, r.In(1, 4); j < m; j++ {
			o := Op{Client: i, Kind: "dist", S: fmt.Sprintf(r.PickS("u%d", "u%d", "用户 %d", "u+%d&x=%%"), k), N: r.Pick(0, 0, 0, 1, 500, 990, 1000)}
			o.Q = &Query{Text: words[r.N(3)], Max: r.Pick(0, 0, 1, 2, 3, 4, 5, 8, 50, 100, 300), Off: r.Pick(0, 0, 0, 1, 2)}
			if r.P(20) {
				o.Q.Text = oddTexts[r.N(len(oddTexts))]
			}
			if r.P(4) {
				o.Q.Max, o.Q.Off = r.Pick(-1, -7, 3), r.Pick(0, -1)
			}
			if c.Grpc && r.P(40) {
				w := func() (out []string) {
					for i, n := 0, r.N(3); i < n; i++ {
						out = append(out, words[r.N(3)])
					}
					return
				}
				o.Q.API, o.Q.Must, o.Q.Should, o.Q.NotIn = 1, r.P(50), r.P(20), r.P(20)
				o.Q.EM, o.Q.ES, o.Q.EN = w(), w(), w()
			}
			if c.Grpc && r.P(25) {
				o.Q.Ids = append(o.Q.Ids, "self-0", fmt.Sprintf("self-%d", r.N(4)))
			}
			k++
			sc.Ops = append(sc.Ops, o)
		}
	}
	kinds := []string{"down", "slow", "slow", "hang", "garbage", "garbage", "error", "empty", "reset", "bodyhang", "bodyslow", "raw"}
	if c.Grpc {
		kinds = []string{"down", "slow", "slow", "hang", "error", "empty", "noattr", "lost", "reset", "garbage", "raw"}
	}
	for i, n := 0, r.Pick(0, 0, 1, 2, 3, 5, 8); i < n; i++ {
		f := Fault{Kind: kinds[r.N(len(kinds))], Peer: r.N(len(c.Node.Urls) + 1), At: r.N(k), N: r.Pick(1, 1, 2, 100), S: strconv.Itoa(r.N(12))}
		if f.Kind == "slow" || f.Kind == "bodyslow" {
			f.Life = r.Pick(1, 30, 300, 600, 950, 999, 1000, 1001, 1100, 2500, 5000, 60000)
		}
		sc.Faults = append(sc.Faults, f)
	}
	if c.Peers > 4 { // many at once
		all := r.P(30) // all the same, but for a few
		for i, n := 0, r.Pick(r.N(c.Peers), r.N(c.Peers), 2*c.Peers); i < n; i++ {
			f := Fault{Kind: r.PickS("hang", "hang", "hang", "down", "error", "slow"), Life: 1500, Peer: r.N(c.Peers), N: 100}
			if all {
				f.Kind = "hang"
			}
			sc.Faults = append(sc.Faults, f)
		}
	}
	sc.Sched = GenSched(r, 3000000+200000*uint64(c.Peers))
	if r.P(70) {
		sc.Sched.Warp = 0
	}
	sc.SetCfg(c)
	return sc
}

// hit is one document of an answer.
type hit struct {
	Id, Content string
	Ts          int64
	Time, Title string
	Score       string
}

func (a hit) before(b hit) bool {
	if a.Ts != b.Ts {
		return a.Ts > b.Ts
	}
	return a.Id > b.Id
}

// peerCall is one request to one peer.
type peerCall struct {
	peer  int
	user  string
	docs  []hit // its complete answer
	good  bool  // the answer is a proper one
	fault *Fault
	h     *xhttp.Exchange
	g     *xgrpc.Call
}

func (p *peerCall) delivered() bool {
	if p.h != nil {
		return p.h.Read
	}
	return p.g.OK
}

type distRun struct {
	sc     *Scenario
	cfg    DistCfg
	counts map[string]int
	n      *node
	calls  map[string][]*peerCall
	asked  map[string]map[int]bool
	reqNo  map[string]int
	ops    map[string]*Op
	nfault int
}

// Exec runs a scenario.
func (DistH) Exec(sc *Scenario, trace bool) *Outcome {
	e := &distRun{sc: sc, counts: map[string]int{}, calls: map[string][]*peerCall{}, asked: map[string]map[int]bool{}, reqNo: map[string]int{}, ops: map[string]*Op{}}
	sc.GetCfg(&e.cfg)
	resetSeams()
	for i := range sc.Ops {
		e.ops[sc.Ops[i].S] = &sc.Ops[i]
		e.reqNo[sc.Ops[i].S] = i
	}
	xhttp.Net, xgrpc.Net = e.netHTTP, e.netGrpc
	xgrpc.Up = func(target string) bool {
		for _, f := range sc.Faults {
			if f.Kind == "down" && f.At == 0 && f.N >= 100 && f.Peer < len(e.cfg.Node.Dist) && e.cfg.Node.Dist[f.Peer] == target {
				return false
			}
		}
		return true
	}
	xgrpc.Observe = func(x *xgrpc.Call) {
		in := new(pb.SearchReq)
		if !strings.HasPrefix(x.Target, "client->") && unmarshal(x.Req, in) == nil {
			e.ask(in.Id, e.peerOf(x.Target))
		}
	}
	out := RunKernel(sc, trace, e.counts, e.main)
	out.Nontriv = e.counts["requests"] > 0 && len(e.cfg.Node.Urls) > 0
	resetSeams()
	xhttp.Net = nil
	return out
}

// ask notes that the peer was asked on behalf of the request.
func (e *distRun) ask(user string, peer int) {
	if e.asked[user] == nil {
		e.asked[user] = map[int]bool{}
	}
	e.asked[user][peer] = true
}

// fault of the given peer for the given request.
func (e *distRun) fault(peer int, user string) *Fault {
	k := e.reqNo[user]
	for i := range e.sc.Faults {
		f := &e.sc.Faults[i]
		if (f.Peer == peer || f.Peer == len(e.cfg.Node.Urls)) && k >= f.At && k < f.At+f.N {
			e.counts["fault."+f.Kind]++
			return f
		}
	}
	return nil
}

// peerDocs is what a simulated peer knows about a query: it does not depend on
// anything else, and contains ties and ids other peers have too.
func (e *distRun) peerDocs(peer int, user string, max int) []hit {
	r := NewRng(e.sc.Seed*1000003 + uint64(peer)*7919 + dst.HashStr(user))
	n := r.Pick(0, 1, 1, 2, 3, 5, 8)
	if r.P(3) {
		n = r.In(20, r.Pick(60, 250))
	}
	var ds []hit
	for i := 0; i < n; i++ {
		id := fmt.Sprintf(r.PickS("p%d-%d", "p%d-%d", "%d0%d", "%d_%03d", "P%d.%d", "文%d档%d", "%d %d a long identifier"), peer, i)
		d := hit{Id: id, Ts: int64(r.Pick(1, 5, 5, 5, 7, 100, 0, -3, r.N(1000), math.MaxInt64-r.N(2), 1600000000000000000+r.N(2))), Content: "answer to " + user + " of " + strconv.Itoa(peer)}
		if r.P(15) {
			d.Id = fmt.Sprintf("shared-%d", r.N(2))
		}
		if r.P(1) {
			d.Content += strings.Repeat(" and more", r.In(100, r.Pick(20000, 20000, 20000, r.Pick(20000, 20000, 20000, 20000, 600000))))
		}
		d.Time = "2020-01-01 00:00:" + fmt.Sprintf("%02d", r.N(60))
		d.Title = r.PickS("", "t")
		ds = append(ds, d)
	}
	sort.SliceStable(ds, func(i, j int) bool { return ds[i].before(ds[j]) })
	if max > 0 && len(ds) > max {
		ds = ds[:max]
	}
	return ds
}

// rawDocs is the answer of a peer that neither orders it nor keeps to the page.
func (e *distRun) rawDocs(peer int, user string) []hit {
	ds := e.peerDocs(peer, user, 0)
	for i, j := 0, len(ds)-1; i < j; i, j = i+1, j-1 {
		ds[i], ds[j] = ds[j], ds[i]
	}
	return ds
}

func (e *distRun) peerOf(addr string) int {
	list := e.cfg.Node.Urls
	if e.cfg.Grpc {
		list = e.cfg.Node.Dist
	}
	for i, u := range list {
		if u == addr {
			return i
		}
	}
	dst.Fail("peer", "the node asks %q, which is not configured", addr)
	return -1
}

// want is the offset and page every peer must be asked for.
func (e *distRun) want(q *Query) (off, max int) {
	if q.Max <= 0 {
		return e.cfg.Node.OffDef, e.cfg.Node.MaxOut
	}
	return q.Off, q.Max
}

func toHTTP(ds []hit) []rhttp.Text {
	var out []rhttp.Text
	for _, d := range ds {
		out = append(out, rhttp.Text{Id: d.Id, Content: d.Content, Score: []float32{1}, Attri: types.Attri{Title: d.Title, Time: d.Time, Ts: d.Ts}})
	}
	return out
}

func fromHTTP(ts []rhttp.Text) []hit {
	var out []hit
	for _, t := range ts {
		out = append(out, hit{Id: t.Id, Content: t.Content, Ts: t.Attri.Ts, Time: t.Attri.Time, Title: t.Attri.Title, Score: fmt.Sprint(t.Score)})
	}
	return out
}

// oddTexts are queries a node has to pass on as they are.
var oddTexts = []string{"", " 中国 ", "C++ & 50% = ?#", "Hello WORLD", "人口\n搜索\t", `"a\b"<i>'`, strings.Repeat("世界+ ", 300)}

var garbage = []string{"", "no json", "[]", "null x", `{"docs":5}`, `{"docs":[{"id":"x","content":`, `{"docs":[{"id":7}]}`, "<html>502</html>", `"docs"`, `{"docs":[{"id":"evil","content":"evil","attri":{"ts":1}},3]}`, "\x00\xff", `{"code":0,"docs":{}}`}

// netHTTP is the network and the far ends.
func (e *distRun) netHTTP(x *xhttp.Exchange) xhttp.Answer {
	u := x.Req.URL
	if u.Path != "/search" {
		dst.Fail("forward", "the node asks for %s", u)
	}
	peer := e.peerOf(u.Scheme + "://" + u.Host)
	req := x.Request()
	req.ParseForm()
	user := req.Form.Get("userid")
	o := e.ops[user]
	if o == nil {
		dst.Fail("forward", "peer %d is asked on behalf of %q", peer, user)
	}
	off, max := e.want(o.Q)
	if req.Form.Get("query") != o.Q.Text || req.Form.Get("outputOffset") != strconv.Itoa(off) && o.Q.Off >= 0 || req.Form.Get("maxOutputs") != strconv.Itoa(max) || req.Form.Get("time") != "t"+user {
		dst.Fail("forward", "for userid=%s query=%s outputOffset=%d maxOutputs=%d (defaults %d, %d) the node asks peer %d: %v", user, o.Q.Text, o.Q.Off, o.Q.Max, e.cfg.Node.OffDef, e.cfg.Node.MaxOut, peer, req.Form)
	}
	f := e.fault(peer, user)
	e.ask(user, peer)
	c := &peerCall{peer: peer, user: user, h: x, fault: f}
	e.calls[user] = append(e.calls[user], c)
	a := xhttp.Answer{Delay: time.Millisecond, Status: 200}
	if f != nil && f.Kind == "down" {
		return xhttp.Answer{Delay: time.Millisecond, Err: xhttp.ErrRefused}
	}
	if e.cfg.Self && e.cfg.Node.Urls[peer] == selfURL {
		w := &xhttp.Recorder{}
		e.n.run("self", func() { rhttp.Search(w, req) })
		a.Status, a.Header, a.Body = w.Code, w.H, append([]byte(nil), w.B.Bytes()...)
		var j rhttp.JsonResponse
		if err := json.Unmarshal(a.Body, &j); err != nil {
			dst.Fail("self", "the node's own search answers %q", a.Body)
		}
		c.docs, c.good = fromHTTP(j.Docs), true
	} else {
		ds := e.peerDocs(peer, user, max)
		if f != nil && f.Kind == "raw" {
			ds = e.rawDocs(peer, user)
		}
		b, err := json.Marshal(rhttp.JsonResponse{Len: len(ds), Timestamp: dst.NowNano() / 1e9, Docs: toHTTP(ds)})
		if err != nil {
			panic(err)
		}
		a.Body, c.good = b, true
		c.docs = fromHTTP(toHTTP(ds))
	}
	if f == nil {
		return a
	}
	k, _ := strconv.Atoi(f.S)
	ms := time.Duration(f.Life) * time.Millisecond
	switch f.Kind {
	case "slow":
		a.Delay = ms
	case "hang":
		return xhttp.Answer{Hang: true}
	case "garbage":
		a.Body, c.good, c.docs = []byte(garbage[k%len(garbage)]), false, nil
	case "error":
		a.Status, c.good, c.docs = []int{500, 404, 502}[k%3], false, nil
		a.Body = []byte([]string{"internal error", `{"code":1,"docs":null}`, "<html></html>", ""}[k%4])
	case "empty":
		a.Body, c.docs = []byte(`{"code":0,"len":0,"timestamp":1,"docs":null}`), nil
	case "reset":
		a.Cut, a.BodyErr, c.good = len(a.Body)*k/12, xhttp.ErrReset, false
		if a.Cut == len(a.Body) {
			a.Cut--
		}
	case "bodyhang":
		a.Cut, a.BodyHang = len(a.Body)*k/12, true
	case "bodyslow":
		a.Cut, a.BodyDelay = len(a.Body)*k/12, ms
	}
	return a
}

func same(a, b []string) bool { return strings.Join(a, " ") == strings.Join(b, " ") }

func idSet(ids []string) map[string]bool {
	var m map[string]bool
	for i, id := range ids {
		if m == nil {
			m = map[string]bool{}
		}
		m[id] = i == 0
	}
	return m
}

func toPB(ds []hit) []*pb.Text {
	var out []*pb.Text
	for _, d := range ds {
		out = append(out, &pb.Text{Id: d.Id, Content: d.Content, Attri: &pb.Attri{Title: d.Title, Time: d.Time, Ts: d.Ts}})
	}
	return out
}

func fromPB(ts []*pb.Text) []hit {
	var out []hit
	for _, t := range ts {
		out = append(out, hit{Id: t.Id, Content: t.Content, Ts: t.GetAttri().GetTs(), Time: t.GetAttri().GetTime(), Title: t.GetAttri().GetTitle()})
	}
	return out
}

func (e *distRun) netGrpc(x *xgrpc.Call) xgrpc.Answer {
	if strings.HasPrefix(x.Target, "client->") {
		return xgrpc.Answer{Local: true}
	}
	peer := e.peerOf(x.Target)
	in := new(pb.SearchReq)
	if !strings.HasSuffix(x.Method, "/Search") || unmarshal(x.Req, in) != nil {
		dst.Fail("forward", "the node calls %s of peer %d with %q", x.Method, peer, x.Req)
	}
	o := e.ops[in.Id]
	if o == nil {
		dst.Fail("forward", "peer %d is asked on behalf of %q", peer, in.Id)
	}
	off, max := e.want(o.Q)
	lg := in.GetLogic()
	if in.Query != o.Q.Text || int(in.OutputOffset) != off && o.Q.Off >= 0 || int(in.MaxOutputs) != max || in.Time != "t"+in.Id ||
		lg.GetMust() != o.Q.Must || lg.GetShould() != o.Q.Should || lg.GetNotIn() != o.Q.NotIn || !same(lg.GetExpr().GetMust(), o.Q.EM) ||
		!same(lg.GetExpr().GetShould(), o.Q.ES) || !same(lg.GetExpr().GetNotIn(), o.Q.EN) || JS(in.DocIds) != JS(idSet(o.Q.Ids)) {
		dst.Fail("forward", "for %s (defaults %d, %d) the node asks peer %d: %v", JS(o), e.cfg.Node.OffDef, e.cfg.Node.MaxOut, peer, in)
	}
	f := e.fault(peer, in.Id)
	c := &peerCall{peer: peer, user: in.Id, g: x, fault: f}
	e.calls[in.Id] = append(e.calls[in.Id], c)
	a := xgrpc.Answer{Delay: time.Millisecond}
	if f != nil && f.Kind == "down" {
		a.Err = status.Error(codes.Unavailable, "connection refused")
		return a
	}
	c.good = true
	if e.cfg.Self && e.cfg.Node.Dist[peer] == selfPort {
		b, err, dead := xgrpc.Handle(x.Target, x.Method, x.Req, 0)
		rep := new(pb.SearchReply)
		if err != nil || dead || unmarshal(b, rep) != nil {
			dst.Fail("self", "the node's own search answers %q, %v", b, err)
		}
		a.Bytes, c.docs = b, fromPB(rep.Docs)
		if b == nil {
			a.Bytes = []byte{}
		}
	} else {
		c.docs = e.peerDocs(peer, in.Id, max)
		if f != nil && f.Kind == "raw" {
			c.docs = e.rawDocs(peer, in.Id)
		}
		a.Reply = &pb.SearchReply{Len: int32(len(c.docs)), Timestamp: dst.NowNano() / 1e9, Docs: toPB(c.docs)}
	}
	if f == nil {
		return a
	}
	k, _ := strconv.Atoi(f.S)
	switch f.Kind {
	case "slow":
		if k%2 == 0 {
			a.Delay2 = time.Duration(f.Life) * time.Millisecond
		} else {
			a.Delay = time.Duration(f.Life) * time.Millisecond
		}
	case "hang", "lost":
		a = xgrpc.Answer{Hang: true}
	case "error":
		a.Reply, a.Bytes, c.good, a.Err = nil, nil, false, status.Error([]codes.Code{codes.Internal, codes.Unimplemented, codes.ResourceExhausted}[k%3], "boom")
	case "reset":
		a.Reply, a.Bytes, c.good, a.Err = nil, nil, false, status.Error(codes.Unavailable, "transport is closing")
		a.Delay2 = time.Duration(k*20) * time.Millisecond
	case "empty":
		a.Reply, a.Bytes, c.docs = nil, []byte{}, nil
	case "garbage":
		a.Reply, a.Bytes, c.good, c.docs = nil, []byte("\xff\xff\xff\xff"), false, nil
	case "noattr":
		rep := &pb.SearchReply{Len: int32(len(c.docs)), Timestamp: dst.NowNano() / 1e9, Docs: toPB(c.docs)}
		for i := range rep.Docs {
			if i%2 == k%2 {
				rep.Docs[i].Attri = nil
				c.docs[i].Ts, c.docs[i].Time, c.docs[i].Title = 0, "", ""
			}
		}
		sort.SliceStable(rep.Docs, func(i, j int) bool { return fromPB(rep.Docs[i : i+1])[0].before(fromPB(rep.Docs[j : j+1])[0]) })
		a.Reply, a.Bytes = rep, nil
	}
	return a
}

// request performs one distributed search and checks its answer.
func (e *distRun) request(o *Op) {
	e.counts["requests"]++
	t0, i0 := dst.NowNano()/1e9, dst.Idle()
	var got []hit
	var length int
	var stamp int64
	q := o.Q
	if e.cfg.Grpc {
		in := &pb.SearchReq{Id: o.S, Query: q.Text, OutputOffset: int32(q.Off), MaxOutputs: int32(q.Max), Time: "t" + o.S}
		in.DocIds = idSet(q.Ids)
		if q.API == 1 || dst.HashStr(o.S)%3 == 0 {
			in.Logic = &pb.Logic{Must: q.Must, Should: q.Should, NotIn: q.NotIn, Expr: &pb.Expr{Must: q.EM, Should: q.ES, NotIn: q.EN}}
		} else if dst.HashStr(o.S)%3 == 1 {
			in.Logic = &pb.Logic{}
		}
		conn, err := xgrpc.Dial("client->" + fmt.Sprintf(":%d", distPort))
		if err != nil {
			panic(err)
		}
		rep := new(pb.SearchReply)
		err = conn.Invoke(context.Background(), "/doc.Greeter/Search", in, rep, xgrpc.MaxCallRecvMsgSize(math.MaxInt32))
		conn.Close()
		if err != nil {
			dst.Fail("error", "the distributed search for %s fails: %v", JS(o), err)
		}
		got, length, stamp = fromPB(rep.Docs), int(rep.Len), rep.Timestamp
	} else {
		v := url.Values{"userid": {o.S}, "query": {q.Text}, "time": {"t" + o.S}}
		if q.Off != 0 {
			v.Set("outputOffset", strconv.Itoa(q.Off))
		} else if q.Max > 0 {
			v.Set("outputOffset", "0")
		}
		if q.Max != 0 {
			v.Set("maxOutputs", strconv.Itoa(q.Max))
		}
		req, _ := http.NewRequest("GET", "/dist?"+v.Encode(), nil)
		w := &xhttp.Recorder{}
		e.n.run("dist", func() { rhttp.WgDist(w, req) })
		var j rhttp.JsonResponse
		if err := json.Unmarshal(w.B.Bytes(), &j); err != nil || w.Code != 200 {
			dst.Fail("reply", "the distributed search for %s answers %d %q", o.S, w.Code, w.B.String())
		}
		got, length, stamp = fromHTTP(j.Docs), j.Len, j.Timestamp
	}
	if d := dst.Idle() - i0; e.cfg.Grpc && d > 1500*time.Millisecond || !e.cfg.Grpc && d > 1100*time.Millisecond {
		dst.Fail("late", "the distributed search took %v", d)
	}
	_, max := e.want(q)
	// what must be there
	var all []hit
	replies, raw := 0, false
	var desc []string
	for _, c := range e.calls[o.S] {
		ds := fmt.Sprintf("peer %d", c.peer)
		if c.fault != nil {
			ds += " (" + c.fault.Kind + ")"
		}
		switch {
		case c.delivered() && c.good:
			all = append(all, c.docs...)
			replies++
			raw = raw || c.fault != nil && c.fault.Kind == "raw"
			ds += ": " + strconv.Itoa(len(c.docs)) + " documents"
		case c.good && c.inTime() && e.sc.Sched.Warp == 0:
			dst.Fail("dropped", "the answer of peer %d to %s, sent at once, was not taken", c.peer, o.S)
		default:
			ds += ": no answer"
		}
		desc = append(desc, ds)
	}
	for i := range e.cfg.Node.Urls {
		if !e.asked[o.S][i] && e.sc.Sched.Warp == 0 {
			dst.Fail("asked", "peer %d was not asked for %s", i, o.S)
		}
	}
	sort.SliceStable(all, func(i, j int) bool { return all[i].before(all[j]) })
	full := all
	if max > 0 && len(all) > max {
		all = all[:max]
		e.counts["truncated"]++
	}
	e.counts[fmt.Sprintf("replies.%d", replies)]++
	text := fmt.Sprintf("request %s (at most %d) with %s", o.S, max, strings.Join(desc, ", "))
	if length != len(got) || stamp > dst.NowNano()/1e9 || stamp < t0 && replies != 1 {
		dst.Fail("reply", "%s: len %d, timestamp %d, with %d documents", text, length, stamp, len(got))
	}
	if raw && replies == 1 && len(got) == len(full) { // passed on as it is
		all = append([]hit(nil), got...)
	}
	if len(got) != len(all) {
		dst.Fail("merge", "%s: %d documents instead of %d\n got %s\n want %s", text, len(got), len(all), JS(got), JS(all))
	}
	left := map[hit]int{}
	for _, d := range full {
		left[d]++
	}
	for i, d := range got {
		if left[d] == 0 {
			dst.Fail("merge", "%s: %s is not part of any answer, or there too often\n got %s\n want %s", text, JS(d), JS(got), JS(all))
		}
		left[d]--
		if d.Ts != all[i].Ts || d.Id != all[i].Id {
			dst.Fail("merge", "%s: position %d has %s instead of %s\n got %s\n want %s", text, i, JS(d), JS(all[i]), JS(got), JS(all))
		}
	}
}

// inTime tells whether the answer was sent without delay.
func (p *peerCall) inTime() bool {
	return p.fault == nil || p.fault.Kind == "empty" || p.fault.Kind == "raw" || p.fault.Kind == "noattr" || (p.fault.Kind == "slow" || p.fault.Kind == "bodyslow") && p.fault.Life <= 500
}

func (e *distRun) main() {
	ports := []string{grpcPort, selfPort}
	if e.cfg.Grpc {
		ports = append(ports, "etcd")
	}
	e.n = startNode("node", e.cfg.Node, h.NewDisk(), ports...)
	e.n.run("fill", func() {
		for i := 0; i < e.cfg.Docs; i++ {
			com.AddDocInx(fmt.Sprintf("self-%d", i), types.DocData{Content: words[i%3] + words[(i+1)%3], Attri: types.Attri{Ts: int64(5 + i*3), Time: "now"}}, false)
		}
		com.Flush()
	})
	var ts []*dst.Task
	for _, c := range ClientsOf(e.sc.Ops, 0) {
		c := c
		if c < 0 {
			continue
		}
		ts = append(ts, dst.GoIn(nil, fmt.Sprintf("client%d", c), func() {
			for i := range e.sc.Ops {
				o := &e.sc.Ops[i]
				if o.Client == c {
					dst.Sleep(time.Duration(o.N) * time.Millisecond)
					e.request(o)
				}
			}
		}))
	}
	for _, t := range ts {
		t.Join()
	}
	e.again()
	dst.Kill(e.n.g)
}

// again searches a few times more: nothing is left behind for each search,
// once the nodes have had their time.
func (e *distRun) again() {
	left := func() (int, int) {
		for i0 := dst.Idle(); dst.Idle()-i0 < 5*time.Minute; { // not a clock that jumps
			dst.Sleep(time.Minute)
		}
		return e.n.g.Tasks(), xgrpc.Open[e.n.g]
	}
	n, tasks, conns := 0, 0, 0
	for i := range e.sc.Ops {
		if o := &e.sc.Ops[i]; o.Client < 0 {
			if n == 0 {
				tasks, conns = left()
			}
			n++
			e.request(o)
		}
	}
	if n == 0 {
		return
	}
	t, c := left()
	if t >= tasks+n {
		dst.Fail("leak", "%d searches left %d goroutines behind", n, t-tasks)
	}
	if c >= conns+n {
		dst.Fail("leak", "%d searches left %d connections open", n, c-conns)
	}
}

func unmarshal(b []byte, m interface{ XXX_Unmarshal([]byte) error }) (err error) {
	if e := m.XXX_Unmarshal(b); e != nil {
		return errors.New("bad message: " + e.Error())
	}
	return nil
}
