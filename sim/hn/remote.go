package hn

import (
	"context"
	"encoding/json"
	"fmt"
	"math"
	"net/http"
	"net/url"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/go-ego/riot"
	"github.com/go-ego/riot/net/com"
	rpc "github.com/go-ego/riot/net/grpc"
	pb "github.com/go-ego/riot/net/grpc/riot-pb"
	rhttp "github.com/go-ego/riot/net/http"
	"github.com/go-ego/riot/types"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"

	"verif.local/sim/dst"
	"verif.local/sim/h"
	. "verif.local/sim/w"
	xgrpc "verif.local/sim/x/grpc"
	xhttp "verif.local/sim/x/http"
)

// RemoteH runs a node whose documents are indexed, removed and searched through
// its HTTP and gRPC interfaces by concurrent clients, over several lives of the
// process, and compares it with an engine used locally (C20).
type RemoteH struct{}

func init() { All["remote"] = RemoteH{} }

// RemCfg configures a run.
type RemCfg struct {
	Node  NodeCfg
	Lives int
	Fast  bool // the network takes no time
	Cache int  `json:",omitempty"` // the default size of the indexer's cache
}

const finalClient = 99

var remWords = append([]string{"hello", "World", "la"}, words...)
var remLabels = []string{"la", "lb", "世界"}

// Gen draws clients, each with documents of its own, and the searches at the end.
func (RemoteH) Gen(prop string, seed uint64) *Scenario {
	r := NewRng(seed)
	c := RemCfg{Lives: r.Pick(1, 1, 2, 3)}
	c.Node = NodeCfg{Using: r.Pick(0, 0, 1, 3), Shards: r.In(1, 3), StoreShards: r.In(1, 2), MaxOut: r.Pick(0, 1, 2, 5, 10, 100), OffDef: r.Pick(0, 0, 0, 1), Dist: []string{selfPort}}
	c.Cache = r.Pick(0, 0, 0, 1, 2, 8)
	c.Node.Stop = r.P(25)
	sc := &Scenario{Harness: "remote", Property: prop, Seed: seed}
	ver := 0
	text := func(n int) string {
		s := ""
		for i := 0; i < n; i++ {
			if i > 0 && r.P(50) {
				s += r.PickS(" ", "，", " ", "\xff", "\n")
			}
			s += remWords[r.N(len(remWords))]
		}
		return s
	}
	query := func(ids []string, grpc bool) *Query {
		q := &Query{Text: text(r.Pick(1, 1, 1, 2, 0)), Max: r.Pick(0, 0, 1, 2, 3, 10, 100, math.MaxInt32), Off: r.Pick(0, 0, 0, 1, 2, 50)}
		if !grpc && r.P(10) {
			q.Max, q.Off = r.Pick(math.MaxInt64, math.MaxInt64-1, 5), r.Pick(1, 7, math.MaxInt64)
		}
		if r.P(6) {
			q.Max, q.Off = r.Pick(-1, -5, math.MinInt32, 4), r.Pick(-1, -100, 3)
		}
		if !grpc {
			return q
		}
		if r.P(20) {
			q.UseIds = true
			for _, id := range ids {
				if r.P(50) {
					q.Ids = append(q.Ids, id)
				}
			}
		}
		if r.P(40) {
			q.API = 1 // with a Logic
			q.Must, q.Should, q.NotIn = r.P(50), r.P(30), r.P(20)
			if r.P(70) {
				q.API = 2 // with an Expr
				w := func() (out []string) {
					for i, n := 0, r.N(3); i < n; i++ {
						out = append(out, strings.ToLower(r.PickS(r.PickS(remWords...), r.PickS(remLabels...))))
					}
					return
				}
				q.EM, q.ES = w(), w()
				if len(q.EM)+len(q.ES) > 0 {
					q.EN = w()
				}
			}
		}
		return q
	}
	var all []string
	clients := r.In(1, 3)
	own := make([][]string, clients)
	for i := range own {
		for j, n := 0, r.In(1, 3); j < n; j++ {
			id := r.PickS(fmt.Sprintf("%d", 10*(i+1)+j), fmt.Sprintf("%d", 10*(i+1)+j), fmt.Sprintf("doc %d/%d", i, j), fmt.Sprintf("文%d%d", i, j), fmt.Sprintf("%s%d&%d", strings.Repeat("long+identifier%20", 6), i, j))
			own[i] = append(own[i], id)
		}
		if i == 0 && r.P(8) {
			own[i] = append(own[i], "")
		}
		if r.P(2) { // many documents: long answers and postings
			for j, n := 0, r.In(20, r.Pick(40, 120)); j < n; j++ {
				id := strconv.Itoa(1000*(i+1) + j)
				own[i] = append(own[i], id)
				ver++
				sc.Ops = append(sc.Ops, Op{Client: i, Doc: id, Peer: r.N(2), Kind: r.PickS("gadd", "hadd", "ladd"), Spec: &DocSpec{Ver: ver, Content: text(r.In(1, 4))}})
				if o := &sc.Ops[len(sc.Ops)-1]; o.Kind == "gadd" {
					o.Spec.Content = strings.ToValidUTF8(o.Spec.Content, "?")
				}
			}
		}
		all = append(all, own[i]...)
	}
	for l := 0; l < c.Lives; l++ {
		for i := 0; i < clients; i++ {
			for j, m := 0, r.In(1, 6); j < m; j++ {
				o := Op{Life: l, Client: i, N: r.Pick(0, 0, 1, 1000), Doc: own[i][r.N(len(own[i]))], Peer: r.N(2)}
				switch r.N(10) {
				case 0, 1, 2, 3:
					o.Kind = r.PickS("gadd", "gadd", "hadd", "ladd")
					ver++
					o.Spec = &DocSpec{Ver: ver, Content: text(r.In(1, 4)), Title: r.PickS("", "title", "题")}
					if r.P(5) {
						o.Spec.Content = ""
					}
					if o.Kind != "hadd" {
						for _, lb := range remLabels {
							if r.P(30) {
								o.Spec.Labels = append(o.Spec.Labels, lb)
							}
						}
						if r.P(30) {
							for _, t := range []string{"tok", "hello", "数据"} {
								if r.P(50) {
									o.Spec.Toks = append(o.Spec.Toks, Tok{T: t, L: [][]int{nil, {0}, {0, 7}, {3, 4, 1 << 30}}[r.N(4)]})
								}
							}
						}
						o.Force = r.P(30)
					}
					if o.Kind == "gadd" {
						o.S = r.PickS("", "", "", "noattr", "badattr", "helper")
						o.Spec.Content = strings.ToValidUTF8(o.Spec.Content, "?")
						if o.S == "helper" {
							if _, err := strconv.ParseUint(o.Doc, 10, 64); err != nil {
								o.S = ""
							}
						}
					}
				case 4, 5:
					o.Kind = r.PickS("gdel", "gdel", "hdel", "ldel")
					if o.Kind == "gdel" && r.P(40) {
						o.S = "helper"
					}
				case 6, 7:
					o.Kind, o.Q, o.Doc = "hsearch", query(nil, false), ""
					o.S = r.PickS("", "post", "bare", "junk")
				case 8:
					o.Kind, o.Q, o.Doc = "gsearch", query(all, true), ""
				case 9:
					o.Kind, o.Doc = r.PickS("flush", "beat", "gadd0", "gdel0", "hadd0"), ""
				}
				sc.Ops = append(sc.Ops, o)
			}
		}
		for j, m := 0, r.In(2, 6); j < m; j++ {
			o := Op{Life: l, Client: finalClient, Kind: "hsearch", S: r.PickS("", "post", "bare", "junk"), Peer: r.N(2)}
			if r.P(60) {
				o.Kind, o.S = "gsearch", ""
			}
			o.Q = query(all, o.Kind == "gsearch")
			sc.Ops = append(sc.Ops, o)
		}
	}
	for i, n := 0, r.Pick(0, 0, 1, 2, 4); i < n; i++ {
		sc.Faults = append(sc.Faults, Fault{Kind: r.PickS("lost", "lostreply", "slow", "refused"), At: r.N(20), N: r.Pick(1, 1, 2, 3)})
	}
	sc.Sched = GenSched(r, 3000000+100000*uint64(len(all)))
	sc.Sched.Warp = 0
	if c.Fast = r.P(50); c.Fast {
		for i := range sc.Ops {
			if sc.Ops[i].N == 1 {
				sc.Ops[i].N = 0
			}
		}
	}
	sc.SetCfg(c)
	return sc
}

// rver is one version of a document.
type rver struct {
	data   types.DocData
	http   bool // indexed over HTTP: attributes are the node's time
	t0, t1 int64
	bad    bool // its attributes cannot be decoded
	wire   string
}

type remRun struct {
	sc     *Scenario
	cfg    RemCfg
	counts map[string]int
	n      *node
	vers   map[string][]*rver // every version ever sent, per document
	live   map[string]*rver
	calls  int
	shadow *riot.Engine
	sg     *dst.Group
	helper *dst.Group
}

// Exec runs a scenario.
func (RemoteH) Exec(sc *Scenario, trace bool) *Outcome {
	e := &remRun{sc: sc, counts: map[string]int{}, vers: map[string][]*rver{}, live: map[string]*rver{}}
	sc.GetCfg(&e.cfg)
	// a byte that is not text survives a replay file as U+FFFD
	for i := range sc.Ops {
		o := &sc.Ops[i]
		if o.Spec != nil {
			o.Spec.Content = strings.ReplaceAll(o.Spec.Content, "\ufffd", "\xff")
		}
		if o.Q != nil {
			o.Q.Text = strings.ReplaceAll(o.Q.Text, "\ufffd", "\xff")
		}
	}
	if e.cfg.Cache > 0 {
		dst.Knobs["defaultDocCacheSize"] = e.cfg.Cache
	}
	resetSeams()
	xgrpc.Net = e.net
	xgrpc.Up = func(string) bool {
		for _, f := range sc.Faults {
			if f.Kind == "refused" && e.calls >= f.At && e.calls < f.At+f.N {
				e.calls++
				return false
			}
		}
		return true
	}
	out := RunKernel(sc, trace, e.counts, e.main)
	out.Nontriv = e.counts["added"] > 0
	resetSeams()
	return out
}

// net delivers calls to the node, or loses them.
func (e *remRun) net(x *xgrpc.Call) xgrpc.Answer {
	a := xgrpc.Answer{Local: true, Delay: time.Millisecond}
	if e.cfg.Fast {
		a.Delay = 0
	}
	if x.Target == selfPort {
		return a
	}
	k := e.calls
	e.calls++
	for _, f := range e.sc.Faults {
		if k < f.At || k >= f.At+f.N {
			continue
		}
		e.counts["fault."+f.Kind]++
		switch f.Kind {
		case "refused":
			return xgrpc.Answer{Delay: time.Millisecond, Err: status.Error(codes.Unavailable, "connection refused")}
		case "lost":
			return xgrpc.Answer{Delay: time.Millisecond, Err: status.Error(codes.Unavailable, "transport is closing")}
		case "lostreply":
			return xgrpc.Answer{Delay: time.Millisecond, Reach: true, Err: status.Error(codes.Unavailable, "transport is closing")}
		case "slow":
			a.Delay, a.Delay2 = 700*time.Millisecond, 5*time.Second
		}
	}
	return a
}

func (e *remRun) addr(o *Op) string {
	if o.Peer == 1 {
		return fmt.Sprintf(":%d", distPort)
	}
	return grpcPort
}

// call performs one gRPC call until it succeeds.
func (e *remRun) call(o *Op, method string, in, out interface{}) {
	for try := 0; ; try++ {
		conn, err := xgrpc.Dial(e.addr(o))
		if err != nil {
			panic(err)
		}
		err = conn.Invoke(context.Background(), "/doc.Greeter/"+method, in, out, xgrpc.MaxCallRecvMsgSize(math.MaxInt32))
		conn.Close()
		if err == nil {
			return
		}
		if s, _ := status.FromError(err); s.Code() != codes.Unavailable || try > 20 {
			dst.Fail("error", "%s fails: %v", JS(o), err)
		}
		e.flush()
	}
}

func (e *remRun) flush() { e.n.run("flush", com.Flush) }

func (e *remRun) http(kind string, o *Op, v url.Values, f func(http.ResponseWriter, *http.Request)) *xhttp.Recorder {
	var req *http.Request
	if o.S == "post" {
		req, _ = http.NewRequest("POST", "/"+kind, strings.NewReader(v.Encode()))
		req.Header.Set("Content-Type", "application/x-www-form-urlencoded")
	} else {
		req, _ = http.NewRequest("GET", "/"+kind+"?"+v.Encode(), nil)
	}
	w := &xhttp.Recorder{}
	e.n.run(kind, func() { f(w, req) })
	return w
}

// spec is the document of an op.
func specData(s *DocSpec) types.DocData {
	d := types.DocData{Content: s.Content, Labels: s.Labels,
		Attri: types.Attri{Title: s.Title, Author: fmt.Sprintf("a%d", s.Ver), Time: fmt.Sprintf("t%d", s.Ver), Ts: int64(s.Ver % 4)}}
	for _, t := range s.Toks {
		d.Tokens = append(d.Tokens, types.TokenData{Text: t.T, Locations: t.L})
	}
	return d
}

// sent notes a version before it is sent.
func (e *remRun) sent(o *Op, v *rver) *rver {
	v.wire = strings.ToValidUTF8(v.data.Content, "\ufffd")
	e.vers[o.Doc] = append(e.vers[o.Doc], v)
	e.counts["added"]++
	return v
}

// do performs one operation.
func (e *remRun) do(o *Op) {
	e.counts["op."+o.Kind]++
	if o.S != "" && o.S != "post" {
		e.counts["op."+o.Kind+"."+o.S]++
	}
	switch o.Kind {
	case "gadd":
		d := specData(o.Spec)
		v := &rver{data: d, bad: o.S == "badattr"}
		at := d.Attri.(types.Attri)
		raw, err := (&pb.Attri{Title: at.Title, Author: at.Author, Time: at.Time, Ts: at.Ts}).Marshal()
		if err != nil {
			panic(err)
		}
		switch o.S {
		case "noattr":
			raw, v.data.Attri = nil, types.Attri{}
		case "badattr":
			raw = []byte("\x0a\xff\xff\xff")
		}
		e.sent(o, v)
		var toks []*pb.TokenData
		for _, t := range d.Tokens {
			p := &pb.TokenData{Text: t.Text}
			for _, l := range t.Locations {
				p.Locations = append(p.Locations, int32(l))
			}
			toks = append(toks, p)
		}
		if id, err := strconv.ParseUint(o.Doc, 10, 64); o.S == "helper" && err == nil {
			doc := rpc.Doc{DocId: id, Content: d.Content, Attri: raw, Tokens: toks, Labels: d.Labels, ForceUpdate: o.Force}
			e.retry(o, func() int32 { return rpc.InitGrpcc(e.addr(o), doc) })
		} else {
			rep := new(pb.Reply)
			e.call(o, "DocInx", &pb.DocReq{DocId: o.Doc, Content: d.Content, Attri: raw, Tokens: toks, Labels: d.Labels, ForceUpdate: o.Force}, rep)
			if rep.Result != 0 {
				dst.Fail("reply", "%s answers %v", JS(o), rep)
			}
		}
		e.live[o.Doc] = v
		if o.Force && !v.bad {
			e.forced(o, v)
		}
	case "hadd":
		v := e.sent(o, &rver{data: types.DocData{Content: o.Spec.Content}, http: true, t0: dst.NowNano()})
		v.t1 = math.MaxInt64
		w := e.http("add", o, url.Values{"docid": {o.Doc}, "query": {o.Spec.Content}}, rhttp.AddIndex)
		v.t1 = dst.NowNano()
		var j rhttp.JsonResponse
		if err := json.Unmarshal(w.B.Bytes(), &j); err != nil || w.Code != 200 || j.Code != 0 || j.Timestamp < v.t0/1e9 || j.Timestamp > v.t1/1e9 || len(j.Docs) != 0 {
			dst.Fail("reply", "%s answers %d %q", JS(o), w.Code, w.B.String())
		}
		e.live[o.Doc] = v
	case "ladd":
		v := e.sent(o, &rver{data: specData(o.Spec)})
		e.n.run("local", func() { com.AddDocInx(o.Doc, specData(o.Spec), o.Force) })
		e.live[o.Doc] = v
	case "gdel":
		if o.S == "helper" {
			e.retry(o, func() int32 { return rpc.InitDelGrpcc(e.addr(o), o.Doc) })
		} else {
			rep := new(pb.Reply)
			e.call(o, "Delete", &pb.DeleteReq{DocId: o.Doc}, rep)
			if rep.Result != 0 {
				dst.Fail("reply", "%s answers %v", JS(o), rep)
			}
		}
		delete(e.live, o.Doc)
	case "hdel":
		w := e.http("del", o, url.Values{"docid": {o.Doc}}, rhttp.DelIndex)
		if w.Code != 0 && w.Code != 200 {
			dst.Fail("reply", "%s answers %d %q", JS(o), w.Code, w.B.String())
		}
		delete(e.live, o.Doc)
	case "ldel":
		e.n.run("local", func() { com.Delete(o.Doc, false) })
		delete(e.live, o.Doc)
	case "hsearch", "gsearch":
		e.search(o, false)
		return
	case "flush":
	case "beat":
		rep := new(pb.Reply)
		e.call(o, "HeartBeat", &pb.HeartReq{Msg: 1}, rep)
		if rep.Result != 1 {
			dst.Fail("reply", "a heartbeat is answered with %v", rep)
		}
		return
	case "gadd0": // the reserved id
		e.call(o, "DocInx", &pb.DocReq{DocId: "0", Content: "hello", ForceUpdate: o.Peer == 1}, new(pb.Reply))
	case "gdel0":
		e.call(o, "Delete", &pb.DeleteReq{DocId: "0"}, new(pb.Reply))
	case "hadd0":
		e.http("add", o, url.Values{"docid": {"0"}, "query": {"hello"}}, rhttp.AddIndex)
	}
	e.flush()
	if o.Spec != nil || strings.HasSuffix(o.Kind, "del") {
		e.own(o)
	}
}

// own looks, after Flush, for a document that only this client writes: it is
// there as last indexed, or it is not there.
func (e *remRun) own(o *Op) {
	v := e.live[o.Doc]
	vs := e.vers[o.Doc]
	if len(vs) == 0 || o.Doc == "" {
		return
	}
	last := vs[len(vs)-1]
	var toks []string
	e.n.run("segment", func() { toks = com.Searcher.Segment(strings.ToLower(last.data.Content)) })
	toks = e.kept(toks)
	if len(toks) == 0 || last.bad {
		return
	}
	e.counts["own"]++
	var docs types.ScoredDocs
	e.n.run("local", func() {
		res := com.Searcher.Search(types.SearchReq{DocIds: map[string]bool{o.Doc: true}, Logic: types.Logic{Expr: types.Expr{Must: toks[:1]}}, RankOpts: &types.RankOpts{MaxOutputs: 10}})
		docs, _ = res.Docs.(types.ScoredDocs)
	})
	if v == nil && len(docs) > 0 {
		dst.Fail("removed", "%s: after Flush it is still found: %s", JS(o), JS(docs))
	}
	if v == nil {
		return
	}
	for _, d := range docs {
		if d.DocId == o.Doc && v.holds(d) {
			return
		}
	}
	dst.Fail("indexed", "%s: not found by %q after Flush: %s", JS(o), toks[0], JS(docs))
}

// holds reports whether a document found locally is this version.
func (v *rver) holds(d types.ScoredDoc) bool {
	at, ok := d.Attri.(types.Attri)
	return ok && v.matches(rhit{d.DocId, d.Content, at.Title, at.Author, at.Time, at.Ts})
}

// kept are the words that are indexed.
func (e *remRun) kept(toks []string) (kept []string) {
	for _, t := range toks {
		if !strings.Contains(t, "\ufffd") && (!e.cfg.Node.Stop || t != stopWords[0] && t != stopWords[1]) {
			kept = append(kept, t)
		}
	}
	return
}

// forced waits for a forced update to become visible without Flush.
func (e *remRun) forced(o *Op, v *rver) {
	var toks []string
	e.n.run("segment", func() { toks = com.Searcher.Segment(strings.ToLower(v.data.Content)) })
	toks = e.kept(toks)
	if len(toks) == 0 || o.Doc == "" {
		return
	}
	e.counts["forced"]++
	for try := 0; ; try++ {
		rep := new(pb.SearchReply)
		e.call(&Op{Kind: "gsearch"}, "Search", &pb.SearchReq{MaxOutputs: 10, DocIds: map[string]bool{o.Doc: true}, Logic: &pb.Logic{Expr: &pb.Expr{Must: toks[:1]}}}, rep)
		for _, d := range rep.Docs {
			if a := d.GetAttri(); v.matches(rhit{d.Id, d.Content, a.GetTitle(), a.GetAuthor(), a.GetTime(), a.GetTs()}) {
				return
			}
		}
		if try > 300 {
			dst.Fail("forced", "%s: not visible, neither is its version", JS(o))
		}
		dst.Sleep(10 * time.Millisecond)
	}
}

// retry calls a helper of the client library until it reports success.
func (e *remRun) retry(o *Op, f func() int32) {
	for try := 0; ; try++ {
		var res int32
		if e.helper == nil {
			e.helper = dst.NewGroup("client")
		}
		t := dst.GoIn(e.helper, "helper", func() { res = f() })
		t.Join()
		if !t.Completed() {
			dst.Fail("exit", "%s ends the client's process", JS(o))
		}
		if res == 0 {
			return
		}
		if try > 20 {
			dst.Fail("error", "%s fails: %d", JS(o), res)
		}
		e.flush()
	}
}

// rhit is one document of an answer.
type rhit struct {
	Id, Content         string
	Title, Author, Time string
	Ts                  int64
}

func (v *rver) matches(d rhit) bool {
	if d.Content != v.data.Content && d.Content != v.wire {
		return false
	}
	if v.bad {
		return true
	}
	if v.http {
		ok := false
		for s := v.t0 / 1e9; s <= d.Ts/1e9+1; s++ {
			ok = ok || d.Time == time.Unix(s, 0).Format("2006-01-02 15:04:05")
		}
		return ok && d.Ts >= v.t0 && d.Ts <= v.t1 && d.Title == "" && d.Author == ""
	}
	return v.data.Attri == interface{}(types.Attri{Title: d.Title, Author: d.Author, Time: d.Time, Ts: d.Ts})
}

// search performs one search; final tells that nothing else is going on.
func (e *remRun) search(o *Op, final bool) {
	q := o.Q
	off, max := q.Off, q.Max
	var got []rhit
	var scores [][]float32
	var length int
	var stamp int64
	t0 := dst.NowNano() / 1e9
	sr := types.SearchReq{Text: q.Text}
	if o.Kind == "hsearch" {
		v := url.Values{"query": {q.Text}, "outputOffset": {strconv.Itoa(off)}, "maxOutputs": {strconv.Itoa(max)}, "userid": {"u"}, "time": {"x"}}
		switch o.S {
		case "bare":
			v = url.Values{"query": {q.Text}}
			off, max = 0, 0
		case "junk":
			v.Set("maxOutputs", []string{"", "abc", "99999999999999999999999", "-3", "0x10"}[o.Peer*2+len(q.Text)%2])
			if o.Peer == 0 {
				v.Set("outputOffset", "%%%")
				off = 0
			}
			max, _ = strconv.Atoi(v.Get("maxOutputs"))
		}
		w := e.http("search", o, v, rhttp.Search)
		var j rhttp.JsonResponse
		if err := json.Unmarshal(w.B.Bytes(), &j); err != nil || w.Code != 200 || j.Code != 0 {
			dst.Fail("reply", "%s answers %d %q", JS(o), w.Code, w.B.String())
		}
		for _, d := range j.Docs {
			got = append(got, rhit{d.Id, d.Content, d.Attri.Title, d.Attri.Author, d.Attri.Time, d.Attri.Ts})
			scores = append(scores, d.Score)
		}
		length, stamp = j.Len, j.Timestamp
	} else {
		in := &pb.SearchReq{Id: "u", Query: strings.ToValidUTF8(q.Text, "?"), OutputOffset: int32(off), MaxOutputs: int32(max), Time: "x"}
		sr.Text = in.Query
		if q.UseIds {
			in.DocIds, sr.DocIds = map[string]bool{}, map[string]bool{}
			for _, id := range q.Ids {
				in.DocIds[id], sr.DocIds[id] = true, true
			}
			if len(q.Ids) == 0 { // an empty map cannot be sent
				sr.DocIds = nil
			}
		}
		if q.API > 0 {
			in.Logic = &pb.Logic{Must: q.Must, Should: q.Should, NotIn: q.NotIn}
			sr.Logic = types.Logic{Must: q.Must, Should: q.Should, NotIn: q.NotIn}
		}
		if q.API > 1 {
			in.Logic.Expr = &pb.Expr{Must: q.EM, Should: q.ES, NotIn: q.EN}
			sr.Logic.Expr = types.Expr{Must: q.EM, Should: q.ES, NotIn: q.EN}
		}
		rep := new(pb.SearchReply)
		e.call(o, "Search", in, rep)
		for _, d := range rep.Docs {
			if d.Attri == nil {
				dst.Fail("attributes", "%s: document %q has none", JS(o), d.Id)
			}
			got = append(got, rhit{d.Id, d.Content, d.Attri.Title, d.Attri.Author, d.Attri.Time, d.Attri.Ts})
		}
		length, stamp = int(rep.Len), rep.Timestamp
	}
	if max <= 0 {
		off, max = e.cfg.Node.OffDef, e.cfg.Node.MaxOut
	}
	if off < 0 {
		off = 0
	}
	if length != len(got) || max > 0 && len(got) > max || stamp < t0 || stamp > dst.NowNano()/1e9 {
		dst.Fail("reply", "%s: len %d with %d documents (at most %d), timestamp %d", JS(o), length, len(got), max, stamp)
	}
	seen := map[string]bool{}
	for i, d := range got {
		// a query that only excludes is not judged, the local engine may return
		// a document once per excluded keyword
		excludes := q.API > 0 && (q.NotIn || len(q.EN) > 0) && !q.Should && len(q.ES) == 0 && len(q.EM) == 0
		if seen[d.Id] && !excludes {
			dst.Fail("duplicate", "%s: document %q appears twice", JS(o), d.Id)
		}
		seen[d.Id] = true
		if i > 0 && (got[i-1].Ts < d.Ts || got[i-1].Ts == d.Ts && got[i-1].Id < d.Id) {
			dst.Fail("order", "%s: %s comes before %s", JS(o), JS(got[i-1]), JS(d))
		}
		ok := false
		for _, v := range e.vers[d.Id] {
			ok = ok || v.matches(d)
		}
		if final {
			ok = e.live[d.Id] != nil && e.live[d.Id].matches(d)
		}
		if !ok {
			var is interface{}
			if v := e.live[d.Id]; v != nil {
				is = v.data
			}
			dst.Fail("document", "%s: %s was not indexed like this; now live: %s", JS(o), JS(d), JS(is))
		}
	}
	if !final {
		return
	}
	e.counts["compared"]++
	want, total := map[string]bool{}, 0
	local := map[string][]float32{}
	dst.GoIn(e.sg, "shadow", func() {
		sr.RankOpts = &types.RankOpts{MaxOutputs: 1000000}
		for _, d := range e.shadow.Search(sr).Docs.(types.ScoredDocs) {
			want[d.DocId] = true
			local[d.DocId] = d.Scores
			total++
		}
	}).Join()
	n := total - off
	if n < 0 {
		n = 0
	}
	if max > 0 && n > max {
		n = max
	}
	var list []string
	for id := range want {
		list = append(list, id)
	}
	sort.Strings(list)
	if len(got) != n {
		dst.Fail("result", "%s: %d documents instead of %d: %s; local: %q", JS(o), len(got), n, JS(got), list)
	}
	if n > 0 {
		e.counts["nonempty"]++
	}
	for i, d := range got {
		if !want[d.Id] {
			dst.Fail("result", "%s: %s does not match locally: %q", JS(o), JS(d), list)
		}
		if scores != nil && JS(scores[i]) != JS(local[d.Id]) {
			dst.Fail("result", "%s: %s has scores %v, locally %v", JS(o), JS(d), scores[i], local[d.Id])
		}
	}
}

// compare builds a local engine with the live documents and compares.
func (e *remRun) compare(ops []*Op) {
	if ops != nil { // after a restart the node has waited for its documents
		e.flush()
	}
	e.sg = dst.NewGroup("shadow")
	e.shadow = &riot.Engine{}
	var ids []string
	for id := range e.live {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	dst.GoIn(e.sg, "shadow", func() {
		opts := types.EngineOpts{Using: e.cfg.Node.Using, NumShards: e.cfg.Node.Shards, GseDict: dict(),
			IndexerOpts: &types.IndexerOpts{IndexType: types.DocIdsIndex}}
		if e.cfg.Node.Stop {
			opts.StopTokenFile = stopFile()
		}
		e.shadow.Init(opts)
		for _, id := range ids {
			e.shadow.Index(id, e.live[id].data)
		}
		e.shadow.Flush()
	}).Join()
	e.stored()
	for _, o := range ops {
		e.search(o, true)
	}
	// every live document, by identifier, and nothing else
	for _, wd := range remWords {
		e.search(&Op{Kind: "gsearch", Q: &Query{Text: wd, Max: 1000}}, true)
	}
	for _, lb := range remLabels {
		e.search(&Op{Kind: "gsearch", Q: &Query{Must: true, API: 2, EM: []string{lb}, Max: 1000}}, true)
	}
	dst.Kill(e.sg)
}

// stored compares what the node keeps with the live documents.
func (e *remRun) stored() {
	var ids []string
	var docs []types.DocData
	e.n.run("stored", func() { ids, docs = com.Searcher.GetDBAllDocs() })
	seen := map[string]bool{}
	for i, id := range ids {
		if id == "" {
			continue
		}
		v, d := e.live[id], docs[i]
		if v == nil || seen[id] {
			dst.Fail("stored", "the node stores %q, which was removed or never indexed, or twice", id)
		}
		seen[id] = true
		at, _ := d.Attri.(types.Attri)
		same := v.matches(rhit{id, d.Content, at.Title, at.Author, at.Time, at.Ts}) &&
			len(d.Labels) == len(v.data.Labels) && len(d.Tokens) == len(v.data.Tokens)
		for j := 0; same && j < len(d.Labels); j++ {
			same = d.Labels[j] == v.data.Labels[j]
		}
		for j := 0; same && j < len(d.Tokens); j++ {
			a, b := d.Tokens[j], v.data.Tokens[j]
			same = a.Text == b.Text && len(a.Locations) == len(b.Locations)
			for k := 0; same && k < len(a.Locations); k++ {
				same = a.Locations[k] == b.Locations[k]
			}
		}
		if !same {
			dst.Fail("stored", "the node stores %q as %s, it was indexed as %s", id, JS(d), JS(v.data))
		}
	}
	for id := range e.live {
		if id != "" && !seen[id] {
			dst.Fail("stored", "the node does not store %q", id)
		}
	}
	e.counts["stored_checks"]++
}

func (e *remRun) main() {
	disk := h.NewDisk()
	for l := 0; l < e.cfg.Lives; l++ {
		e.n = startNode(fmt.Sprintf("node%d", l), e.cfg.Node, disk, grpcPort, selfPort, "etcd")
		if l > 0 {
			e.counts["restarts"]++
			e.compare(nil)
		}
		var ts []*dst.Task
		final := []*Op{}
		for i := range e.sc.Ops {
			if o := &e.sc.Ops[i]; o.Life == l && o.Client == finalClient {
				final = append(final, o)
			}
		}
		for _, c := range ClientsOf(e.sc.Ops, l) {
			c := c
			if c == finalClient {
				continue
			}
			ts = append(ts, dst.GoIn(nil, fmt.Sprintf("client%d", c), func() {
				for i := range e.sc.Ops {
					o := &e.sc.Ops[i]
					if o.Client == c && o.Life == l {
						if o.N > 0 {
							dst.Sleep(time.Duration(o.N) * time.Millisecond)
						}
						e.do(o)
					}
				}
			}))
		}
		for _, t := range ts {
			t.Join()
		}
		e.compare(final)
		// each store of the configuration, in its folder
		stores := 0
		for name := range disk.Files {
			if !strings.HasPrefix(name, e.cfg.Node.conf().Engine.StoreFolder+"/") {
				dst.Fail("folder", "the node keeps documents in %s", name)
			}
			stores++
		}
		if stores != e.cfg.Node.StoreShards {
			dst.Fail("folder", "the node keeps its documents in %d stores instead of %d", stores, e.cfg.Node.StoreShards)
		}
		dst.Kill(e.n.g)
	}
	// the helpers may keep a connection to each address
	if n := xgrpc.Open[e.helper]; e.helper != nil && n > 2 {
		dst.Fail("leak", "the client helpers leave %d connections open", n)
	}
}
