package h

import (
	"fmt"
	"reflect"
	"sort"

	"github.com/go-ego/riot/core"
	"github.com/go-ego/riot/types"

	"verif.local/sim/dst"
	. "verif.local/sim/w"
)

// CoreH drives core.Indexer and core.Ranker directly from several tasks.
type CoreH struct{}

func init() { All["core"] = CoreH{} }

type coreRun struct {
	*engRun
	ix      *core.Indexer
	rk      *core.Ranker
	adds    []*addRec
	maxAddr int
}

// addRec tracks an addition of a document the index has never seen.
type addRec struct {
	id    string
	n     int // additions seen when it returned
	fresh bool
}

// Gen draws a scenario: ops "index", "remove", "flush", "search", "has" against
// one indexer (C15), or "radd", "rdel", "rank" against one ranker (C16).
func (CoreH) Gen(prop string, seed uint64) *Scenario {
	r := NewRng(seed ^ 0xc0de)
	sc := &Scenario{Harness: "core", Property: prop, Seed: seed}
	c := EngCfg{Lives: 1, Shards: 1, Gse: 1, K1: 2, BB: 0.75, Mode: ModeTokens}
	c.drawBM25(r)
	c.Cache = r.Pick(1, 1, 2, 2, 3, 4, 7, 50)
	c.IndexType = r.Pick(0, 1, 2, 2)
	c.IDOnly = true
	nClients := r.Pick(1, 2, 2, 3)
	nDocs := r.In(1, 9)
	opsPer := r.In(3, 22)
	if r.P(6) { // long histories over larger postings
		nDocs, opsPer = 15, r.In(40, 90)
	}
	ids := append([]string(nil), idPool...)
	for i := len(ids) - 1; i > 0; i-- {
		j := r.N(i + 1)
		ids[i], ids[j] = ids[j], ids[i]
	}
	ids = ids[:nDocs]
	small := len(ids)
	c.vocab(r)
	c.width(r)
	if r.P(4) && c.Wide == 0 {
		ids = bulk(r, ids)
	}
	ver := 0
	wForce, wRemove, wFlush, wSearch := r.Pick(0, 5, 20), r.Pick(10, 25), r.Pick(3, 10), r.Pick(15, 35)
	if prop == "C16" {
		c.IDOnly = r.P(25)
	}
	shared := nClients > 1 && r.P(35) // any client may change any document
	c.Unordered = shared
	for cl := 0; cl < nClients; cl++ {
		var mine []string
		for i, id := range ids {
			if shared || i%nClients == cl {
				mine = append(mine, id)
			}
		}
		add := func(o Op) { o.Client = cl; sc.Ops = append(sc.Ops, o) }
		pending := map[string]bool{}
		for i, id := range ids {
			if i >= small && i%nClients == cl && r.P(90) {
				ver++
				add(Op{Kind: "index", Doc: id, Spec: c.genDoc(r, ver), N: r.N(2)})
				pending[id] = true
			}
		}
		for n := 0; n < opsPer; n++ {
			w := r.N(45 + wRemove + wFlush + wSearch + 5)
			switch {
			case w < 45 && len(mine) > 0:
				d := mine[r.N(len(mine))]
				ver++
				f := r.P(wForce)
				add(Op{Kind: "index", Doc: d, Spec: c.genDoc(r, ver), Force: f, N: r.N(2)})
				pending[d] = true
				if f {
					pending = map[string]bool{}
				}
			case w < 45+wRemove && len(mine) > 0:
				d := mine[r.N(len(mine))]
				if prop == "C15" && pending[d] && r.P(85) {
					add(Op{Kind: "flush"})
					pending = map[string]bool{}
				}
				add(Op{Kind: "remove", Doc: d, Force: r.P(wForce)})
			case w < 45+wRemove+wFlush:
				add(Op{Kind: "flush"})
				pending = map[string]bool{}
			case w < 45+wRemove+wFlush+wSearch:
				q := c.genQuery(r, ids, "C04")
				q.Text = ""
				if prop == "C15" {
					q.Less = true
					q.NoOpts = true
				}
				add(Op{Kind: "search", Q: &q})
			default:
				add(Op{Kind: "has", Doc: ids[r.N(len(ids))]})
			}
		}
	}
	nq := r.In(4, 10)
	for i := 0; i < nq; i++ {
		q := c.genQuery(r, ids, "C04")
		q.Text = ""
		if prop == "C15" {
			q.Less, q.NoOpts = true, true
		}
		c.Queries = append(c.Queries, q)
	}
	sc.Sched = GenSched(r, 2000000+100000*uint64(len(ids)+c.Wide))
	sc.SetCfg(&c)
	return sc
}

// Exec runs a scenario.
func (CoreH) Exec(sc *Scenario, trace bool) *Outcome {
	e := &engRun{sc: sc, disk: NewDisk(), docs: map[string]*docHist{}, counts: map[string]int{},
		toks: map[*DocSpec]TokMap{}, lens: map[*DocSpec]int{}}
	sc.GetCfg(&e.cfg)
	x := &coreRun{engRun: e}
	main := x.indexerMain
	if sc.Property == "C16" {
		main = x.rankerMain
	}
	dst.ResetGlobals()
	out := RunKernel(sc, trace, e.counts, main)
	out.Nontriv = e.anyDoc
	return out
}

func (x *coreRun) clients(do func(o *Op)) {
	for _, o := range x.sc.Ops {
		if o.Doc != "" && x.docs[o.Doc] == nil {
			x.docs[o.Doc] = &docHist{ops: []*hop{{}}}
		}
	}
	x.flush = append(x.flush, flushRec{x.tick(), x.tick()})
	x.g = dst.NewGroup("core")
	var ts []*dst.Task
	for _, c := range ClientsOf(x.sc.Ops, 0) {
		c := c
		ts = append(ts, dst.GoIn(x.g, fmt.Sprintf("client%d", c), func() {
			for i := range x.sc.Ops {
				if o := &x.sc.Ops[i]; o.Client == c {
					x.counts["op."+o.Kind]++
					do(o)
				}
			}
		}))
	}
	for _, t := range ts {
		t.Join()
	}
}

// ---- C15: the indexer

func (x *coreRun) docIndex(id string, s *DocSpec, shuffle int) *types.DocIndex {
	m := x.tokens(s)
	d := &types.DocIndex{DocId: id, TokenLen: float32(x.lens[s])}
	ks := SortedKeys(m)
	if shuffle == 1 {
		for i, j := 0, len(ks)-1; i < j; i, j = i+1, j-1 {
			ks[i], ks[j] = ks[j], ks[i]
		}
	}
	for _, k := range ks {
		st := append([]int{}, m[k]...)
		d.Keywords = append(d.Keywords, types.KeywordIndex{Text: k, Frequency: float32(len(st)), Starts: st})
	}
	return d
}

func (x *coreRun) indexerMain() {
	x.ix = &core.Indexer{}
	x.ix.Init(types.IndexerOpts{IndexType: x.cfg.IndexType, DocCacheSize: x.cfg.Cache,
		BM25Parameters: &types.BM25Parameters{K1: x.cfg.K1, B: x.cfg.BB}})
	// calls take effect in the order they are made, except that a removal does
	// not reach an addition that is still in the cache
	x.ord = func(a, b *hop) bool { return a.ret < b.inv && !(a.spec != nil && b.spec == nil) }
	x.clients(x.indexOp)
	fin := dst.GoIn(x.g, "final", func() {
		x.forceFlush(nil)
		for i := range x.cfg.Queries {
			x.lookup(&x.cfg.Queries[i], "after the final forced update")
		}
		s := x.tick()
		for _, id := range SortedKeys(x.docs) {
			x.checkHas("HasDoc", id, x.ix.HasDoc(id), s, x.tick())
		}
		x.rebuild()
	})
	fin.Join()
}

func (x *coreRun) forceFlush(d *types.DocIndex) {
	f := flushRec{inv: x.tick(), ret: never}
	x.ix.AddDocToCache(d, true)
	f.ret = x.tick()
	x.flush = append(x.flush, f)
}

func (x *coreRun) indexOp(o *Op) {
	switch o.Kind {
	case "index":
		fresh := len(x.docs[o.Doc].ops) == 1
		d := x.docIndex(o.Doc, o.Spec, o.N)
		h := x.rec(o.Doc, o.Spec, o.Force)
		x.anyDoc = true
		x.nIdx++
		if o.Force {
			f := flushRec{inv: x.tick(), ret: never}
			x.ix.AddDocToCache(d, true)
			h.ret = x.tick()
			f.ret = h.ret
			x.flush = append(x.flush, f)
			h.own = true // the forced call carries its own document with it
		} else {
			x.ix.AddDocToCache(d, false)
			h.ret = x.tick()
		}
		if fresh && x.cfg.Cache > 0 {
			x.adds = append(x.adds, &addRec{id: o.Doc, n: x.nIdx, fresh: true})
		}
		x.bounded()
	case "remove":
		h := x.rec(o.Doc, nil, o.Force)
		x.ix.RemoveDocToCache(o.Doc, o.Force)
		h.ret = x.tick()
	case "flush":
		x.forceFlush(nil)
	case "search":
		x.lookup(o.Q, "")
	case "has":
		s := x.tick()
		got := x.ix.HasDoc(o.Doc)
		x.checkHas("HasDoc", o.Doc, got, s, x.tick())
	}
}

// bounded checks that a document the index did not know shows at the latest
// once as many further documents were added as the cache holds.
func (x *coreRun) bounded() {
	if len(ClientsOf(x.sc.Ops, 0)) > 1 {
		return
	}
	for _, a := range x.adds {
		if a.fresh && x.nIdx-a.n >= x.cfg.Cache {
			a.fresh = false
			h := x.docs[a.id]
			if len(h.ops) == 2 && !x.ix.HasDoc(a.id) {
				dst.Fail("cache", "%q is not in the index although %d documents were added after it and the cache holds %d", a.id, x.nIdx-a.n, x.cfg.Cache)
			}
			x.counts["bounded_checks"]++
		}
	}
}

func (x *coreRun) lookup(q *Query, when string) {
	req := reqOf(q)
	s := x.tick()
	var logic []types.Logic
	if isLogic(q) {
		logic = append(logic, req.Logic)
	}
	docs, n := x.ix.Lookup(req.Tokens, req.Labels, req.DocIds, q.Count, logic...)
	t := x.tick()
	var sd types.ScoredIDs
	for _, d := range docs {
		sd = append(sd, types.ScoredID{DocId: d.DocId, Scores: []float32{d.BM25}, TokenSnippetLocs: d.TokenSnippetLocs, TokenLocs: d.TokenLocs})
	}
	resp := types.SearchResp{BaseResp: types.BaseResp{Tokens: req.Tokens, NumDocs: n}, Docs: sd}
	if q.Count {
		resp.Docs = nil
		if len(docs) > 0 {
			dst.Fail("count", "a counting lookup %s returned documents", JS(q))
		}
	}
	x.checkResp(q, resp, s, t, when)
	// order, scores and proximity
	exact := true
	c := &corpus{toks: map[string]TokMap{}, lens: map[string]int{}}
	for _, id := range SortedKeys(x.docs) {
		cs := x.cands(x.docs[id], s, t)
		if len(cs) != 1 {
			exact = false
		} else if cs[0] != nil {
			c.toks[id] = x.tokens(cs[0])
			c.lens[id] = x.lens[cs[0]]
		}
	}
	for i, d := range docs {
		if isLogic(q) {
			continue
		}
		if i > 0 && docs[i-1].DocId <= d.DocId {
			dst.Fail("order", "lookup %s returned %q before %q", JS(q), docs[i-1].DocId, d.DocId)
		}
		if exact {
			if w := x.cfg.bm25(c, req.Tokens, d.DocId); !near(w, d.BM25) {
				dst.Fail("score", "lookup %s: %q has BM25 %v, expected %v", JS(q), d.DocId, d.BM25, w)
			}
		}
		if x.cfg.IndexType == types.LocsIndex && len(d.TokenSnippetLocs) == len(req.Tokens) && len(req.Tokens) > 0 {
			if p := proximity(req.Tokens, d.TokenSnippetLocs); p != int(d.TokenProximity) {
				dst.Fail("proximity", "lookup %s: %q has proximity %d, its snippet %v has %d", JS(q), d.DocId, d.TokenProximity, d.TokenSnippetLocs, p)
			}
			if best, ok := bestProximity(req.Tokens, d.TokenLocs); ok && best != int(d.TokenProximity) {
				dst.Fail("proximity", "lookup %s: %q has proximity %d, the best placement of %v has %d", JS(q), d.DocId, d.TokenProximity, d.TokenLocs, best)
			}
			x.counts["proximity_checks"]++
		}
	}
	if exact {
		x.counts["exact_checks"]++
	}
}

func proximity(toks []string, locs []int) int {
	p := 0
	for i := 1; i < len(locs); i++ {
		d := locs[i] - locs[i-1] - len(toks[i-1])
		if d < 0 {
			d = -d
		}
		p += d
	}
	return p
}

// bestProximity searches all placements; only defined for occurrences that do
// not overlap each other.
func bestProximity(toks []string, locs [][]int) (int, bool) {
	type iv struct{ a, b int }
	var all []iv
	seen := map[string]bool{}
	total := 1
	for i, ls := range locs {
		total *= len(ls)
		if seen[toks[i]] {
			return 0, false
		}
		seen[toks[i]] = true
		for _, l := range ls {
			all = append(all, iv{l, l + len(toks[i])})
		}
	}
	if total > 3000 || total == 0 {
		return 0, false
	}
	sort.Slice(all, func(i, j int) bool { return all[i].a < all[j].a })
	for i := 1; i < len(all); i++ {
		if all[i].a < all[i-1].b {
			return 0, false
		}
	}
	best := -1
	pick := make([]int, len(locs))
	var rec func(i int)
	rec = func(i int) {
		if i == len(locs) {
			if p := proximity(toks, pick); best < 0 || p < best {
				best = p
			}
			return
		}
		for _, l := range locs[i] {
			pick[i] = l
			rec(i + 1)
		}
	}
	rec(0)
	return best, true
}

// rebuild compares the index with one built from the live documents only.
func (x *coreRun) rebuild() {
	s := x.tick()
	ref := &core.Indexer{}
	ref.Init(types.IndexerOpts{IndexType: x.cfg.IndexType, DocCacheSize: 1000,
		BM25Parameters: &types.BM25Parameters{K1: x.cfg.K1, B: x.cfg.BB}})
	for _, id := range SortedKeys(x.docs) {
		cs := x.cands(x.docs[id], s, s)
		if len(cs) != 1 {
			return
		}
		if cs[0] != nil {
			ref.AddDocToCache(x.docIndex(id, cs[0], 0), false)
		}
	}
	ref.AddDocToCache(nil, true)
	for i := range x.cfg.Queries {
		q := &x.cfg.Queries[i]
		if isLogic(q) {
			continue
		}
		req := reqOf(q)
		a, n := x.ix.Lookup(req.Tokens, req.Labels, req.DocIds, q.Count)
		b, m := ref.Lookup(req.Tokens, req.Labels, req.DocIds, q.Count)
		same := n == m && len(a) == len(b)
		for i := 0; same && i < len(a); i++ {
			same = a[i].DocId == b[i].DocId && near(a[i].BM25, b[i].BM25) && a[i].TokenProximity == b[i].TokenProximity &&
				reflect.DeepEqual(a[i].TokenLocs, b[i].TokenLocs)
		}
		if !same {
			dst.Fail("history", "lookup %s gives %s (%d); an index built from the live documents only gives %s (%d)", JS(q), JS(a), n, JS(b), m)
		}
	}
	x.counts["differential"]++
}

// ---- C16: the ranker

func (x *coreRun) rankerMain() {
	x.rk = &core.Ranker{}
	x.rk.Init(x.cfg.IDOnly)
	x.ord = func(a, b *hop) bool { return a.ret < b.inv }
	x.clients(x.rankOp)
	fin := dst.GoIn(x.g, "final", func() {
		for i := range x.cfg.Queries {
			x.rank(&x.cfg.Queries[i])
		}
	})
	fin.Join()
}

func (x *coreRun) rankOp(o *Op) {
	switch o.Kind {
	case "index":
		h := x.rec(o.Doc, o.Spec, false)
		x.anyDoc = true
		d := dataOf(o.Spec)
		// what is not there need not be passed
		ops := x.docs[o.Doc].ops
		fresh := !x.cfg.Unordered && (len(ops) == 1 || ops[len(ops)-2].spec == nil)
		switch {
		case x.cfg.IDOnly, fresh && d.Attri == nil && d.Content == "":
			x.rk.AddDoc(o.Doc, d.Fields)
		case fresh && d.Attri == nil:
			x.rk.AddDoc(o.Doc, d.Fields, d.Content)
		default:
			x.rk.AddDoc(o.Doc, d.Fields, d.Content, d.Attri)
		}
		h.ret = x.tick()
	case "remove":
		h := x.rec(o.Doc, nil, false)
		x.rk.RemoveDoc(o.Doc)
		h.ret = x.tick()
	case "search":
		x.rank(o.Q)
	}
}

// lin lists the states of a document between times s and t when every call
// takes effect at one moment between its start and its end.
func lin(h *docHist, s, t uint64) []*DocSpec {
	var out []*DocSpec
	for k, o := range h.ops {
		ok := o.inv < t
		for _, p := range h.ops[k+1:] {
			if o.ret < p.inv && p.ret < s {
				ok = false
			}
		}
		if ok {
			out = append(out, o.spec)
		}
	}
	return out
}

// rank hands the ranker a list of documents, some unknown to it.
func (x *coreRun) rank(q *Query) {
	ids := SortedKeys(x.docs)
	ids = append(ids, "stranger")
	r := NewRng(uint64(len(ids)*7+q.Off*3+q.Max) ^ x.sc.Seed)
	in := []types.IndexedDoc{}
	for i := len(ids) - 1; i > 0; i-- {
		j := r.N(i + 1)
		ids[i], ids[j] = ids[j], ids[i]
	}
	for i, id := range ids {
		in = append(in, types.IndexedDoc{DocId: id, BM25: float32(i%3) / 2, TokenSnippetLocs: []int{i}, TokenLocs: [][]int{{i, i + 1}}})
	}
	kind := q.Score
	if kind == 0 {
		kind = 1
	}
	opts := types.RankOpts{ScoringCriteria: scorer{kind: kind}, ReverseOrder: q.Rev, OutputOffset: q.Off, MaxOutputs: q.Max}
	s := x.tick()
	out, n := x.rk.Rank(in, opts, q.Count)
	t := x.tick()
	docs, _ := gotDocs(types.SearchResp{Docs: out})
	if q.Count && len(docs) > 0 {
		dst.Fail("count", "a counting Rank returned documents")
	}
	lo, hi := 0, 0
	exact := true
	var all [][]float32
	cand := map[string][]*DocSpec{}
	for _, id := range ids {
		h := x.docs[id]
		if h == nil {
			continue
		}
		cs := lin(h, s, t)
		cand[id] = cs
		some, must := false, true
		for _, c := range cs {
			if c != nil && len(fieldScore(kind, dataOf(c).Fields)) > 0 {
				some = true
			} else {
				must = false
			}
		}
		if some {
			hi++
		}
		if must {
			lo++
		}
		if len(cs) != 1 {
			exact = false
		} else if must {
			all = append(all, fieldScore(kind, dataOf(cs[0]).Fields))
		}
	}
	if n < lo || n > hi {
		dst.Fail("count", "Rank counts %d documents, between %d and %d have a score", n, lo, hi)
	}
	x.counts["op.rank"]++
	if q.Count {
		return
	}
	off := q.Off
	if off < 0 {
		off = 0
	}
	pl, ph := pageLen(lo, off, q.Max), pageLen(hi, off, q.Max)
	if len(docs) < pl || len(docs) > ph {
		dst.Fail("page", "Rank returned %d documents of between %d and %d (offset %d, at most %d)", len(docs), lo, hi, q.Off, q.Max)
	}
	seen := map[string]bool{}
	pos := map[string]int{}
	for i, id := range ids {
		pos[id] = i
	}
	for i, d := range docs {
		if seen[d.id] {
			dst.Fail("duplicate", "Rank returned %q twice", d.id)
		}
		seen[d.id] = true
		ok := false
		for _, c := range cand[d.id] {
			if c == nil {
				continue
			}
			w := dataOf(c)
			if sameScores(fieldScore(kind, w.Fields), d.scores) &&
				(x.cfg.IDOnly || w.Content == d.content && reflect.DeepEqual(w.Fields, d.fields) && reflect.DeepEqual(w.Attri, d.attri)) {
				ok = true
			}
		}
		if !ok {
			dst.Fail("payload", "Rank returned %q with scores %v, content %q, fields %+v, attributes %+v: no allowed version %s has these together", d.id, d.scores, d.content, d.fields, d.attri, verNames(cand[d.id]))
		}
		k := pos[d.id]
		if !reflect.DeepEqual(d.snip, []int{k}) || !reflect.DeepEqual(d.locs, [][]int{{k, k + 1}}) {
			dst.Fail("locations", "Rank changed the locations of %q to %v %v", d.id, d.snip, d.locs)
		}
		if i > 0 {
			a, b := docs[i-1].scores, d.scores
			if q.Rev {
				a, b = b, a
			}
			if scoreLess(b, a) {
				dst.Fail("order", "Rank: results %d and %d are out of order: %v, %v", i-1, i, docs[i-1].scores, d.scores)
			}
		}
	}
	if exact {
		x.counts["exact_checks"]++
		sortScores(all, q.Rev)
		a := off
		if a > len(all) {
			a = len(all)
		}
		all = all[a:]
		if q.Max > 0 && len(all) > q.Max {
			all = all[:q.Max]
		}
		for i := range docs {
			if !sameScores(all[i], docs[i].scores) {
				dst.Fail("page", "Rank: position %d has scores %v, the ranking has %v there", i, docs[i].scores, all[i])
			}
		}
	}
}
