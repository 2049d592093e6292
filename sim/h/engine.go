package h

import (
	"bytes"
	"encoding/gob"
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/go-ego/gse"
	"github.com/go-ego/riot"
	"github.com/go-ego/riot/types"

	"verif.local/sim/dst"
	. "verif.local/sim/w"
	xos "verif.local/sim/x/os"
	xtime "verif.local/sim/x/time"
)

// Tokenisation modes of the generated engines.
const (
	ModeTokens = iota // explicit tokens only (Using 2)
	ModeWords         // no segmenter: space-separated content
	ModeGse           // segmenter with a small dictionary
)

const (
	stopWord  = "的"
	stopWord2 = "世界"
)

var stopFiles = [2]string{"stop.txt", "stop2.txt"}

var gseDict = []string{"重庆", "中国", "人口", "搜索", "引擎", "世界", "数据", "存储", "网络"}

// gseDict2 is another engine's dictionary of the same texts.
var gseDict2 = []string{"中国人口", "重", "庆", "搜索引擎", "世界", "数据存储", "国人", "网", "络"}

var gseCache [2]*gse.Segmenter

func gseSeg() *gse.Segmenter { return gseSegOf(0) }

// gseSegOf loads a dictionary.
func gseSegOf(d int) *gse.Segmenter {
	if gseCache[d] == nil {
		var b bytes.Buffer
		dict, name, stop := gseDict, "dict.txt", stopWord
		if d > 0 {
			dict, name, stop = gseDict2, "dict2.txt", stopWord2
		}
		for i, w := range dict {
			fmt.Fprintf(&b, "%s %d n\n", w, 100+i)
		}
		fmt.Fprintf(&b, "%s 50 u\n", stopWord)
		p := filepath.Join(Scratch, name)
		if err := os.WriteFile(p, b.Bytes(), 0o644); err != nil {
			panic(err)
		}
		if err := os.WriteFile(filepath.Join(Scratch, stopFiles[d]), []byte(stop+"\n"), 0o644); err != nil {
			panic(err)
		}
		s := new(gse.Segmenter)
		s.LoadDict(p)
		gseCache[d] = s
	}
	return gseCache[d]
}

// seg is the engine's segmenter.
func (c *EngCfg) seg() *gse.Segmenter { return gseSegOf(c.Dict) }

// EngCfg configures one simulated engine deployment.
type EngCfg struct {
	Shards, Gse, IdxBuf, RankBuf, IdxThr, RankThr, Cache int
	IndexType, Mode                                      int
	Meet                                                 bool   `json:",omitempty"` // its lives begin with those of the engine beside it
	Folder                                               string `json:",omitempty"` // suffix of the store folder
	Using                                                int    `json:",omitempty"`
	Hmm                                                  bool   `json:",omitempty"`
	Dict                                                 int    `json:",omitempty"` // which dictionary and stop words
	PinYin, Phrase, GseMode                              bool   `json:",omitempty"`
	IDOnly, Store                                        bool
	StoreShards                                          int
	K1, BB                                               float32
	DefScore                                             int
	Lives                                                int
	Diff                                                 bool
	Unordered                                            bool // ops on one document may follow each other without Flush
	Verify                                               int  // number of closing verification queries
	Queries                                              []Query
	StallMs                                              int
	ReShard                                              []int // shards per life, when different
	NoFinalFlush                                         bool
	NoContent                                            bool
	Backend                                              string `json:",omitempty"` // a real one
	Power                                                bool   `json:",omitempty"` // crashes are power losses
	DefOff, DefMax                                       int    `json:",omitempty"` // the default page
	DefRev, DefNil                                       bool   `json:",omitempty"`
	Def                                                  int    `json:",omitempty"` // options left to their defaults
	Wide                                                 int    `json:",omitempty"` // documents and queries of up to so many words
}

// Bits of EngCfg.Def.
const (
	DefIndexer = 1 << iota
	DefBM25
	DefGse
	DefShards
	DefIdxBuf
	DefRankBuf
	DefIdxThr
	DefRankThr
	DefStoreShards
	DefEngine // the store engine comes from the environment
	DefCache
	DefCtor // NewEngine makes the engine
	DefToml // New makes the engine from a configuration file
)

// defaults draws the options that are left to their defaults. What a default
// is, is written down here, not read from the code under test.
func (c *EngCfg) defaults(prop string, r *Rng) {
	if r.P(8) {
		for _, b := range []int{DefGse, DefIdxBuf, DefRankBuf, DefIdxThr, DefRankThr, DefBM25, DefCache, DefShards, DefStoreShards, DefEngine} {
			if r.P(30) {
				c.Def |= b
			}
		}
	}
	if r.N(50) == 0 {
		c.Def |= DefIndexer
	}
	if c.DefScore == 0 && r.P(4) {
		c.Def |= DefToml
	}
	if c.Store && c.Mode == ModeGse && r.P(6) {
		c.Def = DefCtor | DefGse | DefIdxBuf | DefRankBuf | DefIdxThr | DefRankThr | DefEngine
		c.Using, c.PinYin, c.Phrase, c.GseMode, c.Hmm, c.IDOnly = 0, false, false, false, false, false
		c.IndexType, c.StoreShards = types.DocIdsIndex, c.Shards
		c.DefScore, c.DefOff, c.DefMax, c.DefRev, c.DefNil, c.ReShard = 0, 0, 0, false, false, nil
	}
	if c.Def&DefIndexer != 0 {
		c.IndexType = types.FrequenciesIndex
	}
	if c.Def&(DefIndexer|DefBM25) != 0 {
		c.K1, c.BB = 2, 0.75
	}
	if c.Def&DefGse != 0 {
		c.Gse = 2 // processors
	}
	if prop == "C12" { // its shards are chosen with care
		c.Def &^= DefShards
	}
	if c.Def&DefShards != 0 {
		c.Shards, c.ReShard = 8, nil
	}
	if c.Def&DefStoreShards != 0 {
		c.StoreShards = 8
	}
}

// page is the page and direction of a query.
func (c *EngCfg) page(q *Query) (off, max int, rev bool) {
	off, max, rev = q.Off, q.Max, q.Rev
	if q.NoOpts {
		off, max, rev = c.DefOff, c.DefMax, c.DefRev
	}
	if off < 0 {
		off = 0
	}
	return off, max, rev
}

// Opts makes the engine options of a life.
func (c *EngCfg) Opts(life int) types.EngineOpts {
	o := types.EngineOpts{
		NotUseGse: c.Mode != ModeGse, NumGseThreads: c.Gse, NumShards: c.shards(life), IndexerBufLen: c.IdxBuf,
		NumIndexerThreads: c.IdxThr, RankerBufLen: c.RankBuf, NumRankerThreads: c.RankThr, IDOnly: c.IDOnly,
		UseStore: c.Store, StoreShards: c.StoreShards,
		IndexerOpts: &types.IndexerOpts{IndexType: c.IndexType, DocCacheSize: c.Cache,
			BM25Parameters: &types.BM25Parameters{K1: c.K1, B: c.BB}},
	}
	dst.Knobs["defaultDocCacheSize"] = c.Cache
	o.Using, o.PinYin, o.UsePhrase, o.GseMode, o.Hmm = c.Using, c.PinYin, c.Phrase, c.GseMode, c.Hmm
	switch c.Mode {
	case ModeTokens:
		o.Using = 2
	case ModeGse:
		if c.Def&DefCtor == 0 {
			o.StopTokenFile = filepath.Join(Scratch, stopFiles[c.Dict])
		}
	}
	if c.Store {
		o.StoreFolder = filepath.Join(Scratch, "db"+c.Folder)
		o.StoreEngine = "sim"
	}
	if c.DefScore > 0 || c.DefNil || c.DefOff != 0 || c.DefMax != 0 || c.DefRev {
		o.DefRankOpts = &types.RankOpts{OutputOffset: c.DefOff, MaxOutputs: c.DefMax, ReverseOrder: c.DefRev}
		if c.DefScore > 0 {
			o.DefRankOpts.ScoringCriteria = scorer{kind: c.DefScore}
		}
	}
	zero := func(b int, p *int) {
		if c.Def&b != 0 {
			*p = 0
		}
	}
	zero(DefGse, &o.NumGseThreads)
	zero(DefShards, &o.NumShards)
	zero(DefIdxBuf, &o.IndexerBufLen)
	zero(DefRankBuf, &o.RankerBufLen)
	zero(DefIdxThr, &o.NumIndexerThreads)
	zero(DefRankThr, &o.NumRankerThreads)
	zero(DefStoreShards, &o.StoreShards)
	zero(DefCache, &o.IndexerOpts.DocCacheSize)
	if c.Def&DefIndexer != 0 {
		o.IndexerOpts = nil
	} else if c.Def&DefBM25 != 0 {
		o.IndexerOpts.BM25Parameters = nil
	}
	xos.Env["Riot_Store_Engine"] = o.StoreEngine
	if c.Def&DefEngine != 0 {
		o.StoreEngine = ""
	}
	return o
}

// toml writes the options to a configuration file.
func (c *EngCfg) toml(o types.EngineOpts) string {
	var b bytes.Buffer
	w := func(k string, v interface{}) {
		switch x := v.(type) {
		case string:
			if x != "" {
				fmt.Fprintf(&b, "%s = %q\n", k, x)
			}
		case int:
			if x != 0 {
				fmt.Fprintf(&b, "%s = %d\n", k, x)
			}
		case float32:
			s := strconv.FormatFloat(float64(x), 'f', -1, 32)
			if !strings.Contains(s, ".") {
				s += ".0"
			}
			fmt.Fprintf(&b, "%s = %s\n", k, s)
		case bool:
			if x {
				fmt.Fprintf(&b, "%s = true\n", k)
			}
		}
	}
	if c.Mode == ModeGse {
		w("gse_dict", filepath.Join(Scratch, "dict.txt"))
	}
	w("not_use_gse", o.NotUseGse)
	w("using", o.Using)
	w("pin_yin", o.PinYin)
	w("use_phrase", o.UsePhrase)
	w("stop_file", o.StopTokenFile)
	w("gse_mode", o.GseMode)
	w("hmm", o.Hmm)
	w("NumGseThreads", o.NumGseThreads)
	w("NumShards", o.NumShards)
	w("IndexerBufLen", o.IndexerBufLen)
	w("NumIndexerThreads", o.NumIndexerThreads)
	w("RankerBufLen", o.RankerBufLen)
	w("NumRankerThreads", o.NumRankerThreads)
	w("use_store", o.UseStore)
	w("store_folder", o.StoreFolder)
	w("store_shards", o.StoreShards)
	w("store_engine", o.StoreEngine)
	w("id_only", o.IDOnly)
	if x := o.IndexerOpts; x != nil {
		b.WriteString("[IndexerOpts]\n")
		w("IndexType", x.IndexType)
		w("DocCacheSize", x.DocCacheSize)
		if y := x.BM25Parameters; y != nil {
			b.WriteString("[IndexerOpts.BM25Parameters]\n")
			w("K1", y.K1)
			w("B", y.B)
		}
	}
	if x := o.DefRankOpts; x != nil {
		b.WriteString("[DefRankOpts]\n")
		w("ReverseOrder", x.ReverseOrder)
		w("OutputOffset", x.OutputOffset)
		w("MaxOutputs", x.MaxOutputs)
	}
	p := filepath.Join(Scratch, "engine.toml")
	if err := os.WriteFile(p, b.Bytes(), 0o644); err != nil {
		panic(err)
	}
	return p
}

func (c *EngCfg) shards(life int) int {
	if life < len(c.ReShard) && c.ReShard[life] > 0 {
		return c.ReShard[life]
	}
	return c.Shards
}

const never = ^uint64(0)

// hop is one operation on one document in the recorded history.
type hop struct {
	spec     *DocSpec // nil: removal or absent
	inv, ret uint64
	force    bool
	own      bool // the operation itself waited until it had taken effect
}

type flushRec struct{ inv, ret uint64 }

type docHist struct{ ops []*hop }

type engRun struct {
	sc     *Scenario
	cfg    EngCfg
	disk   *Disk
	g      *dst.Group
	eng    *riot.Engine
	life   int
	docs   map[string]*docHist
	flush  []flushRec
	clock  uint64
	counts map[string]int
	owner  map[string]int
	toks   map[*DocSpec]TokMap
	lens   map[*DocSpec]int
	nIdx   int
	nRm    int
	nTok   int
	lastCt [3]uint64
	snaps  []snap
	given  []given
	shared map[string]types.SearchReq
	crash  bool
	anyDoc bool
	lastOK bool
	at     int
	beside *engRun              // another engine of the same process
	ord    func(a, b *hop) bool // further ordering between operations on a document
}

type snap struct {
	resp types.SearchResp
	text string
	desc string
}

// given is a document handed to the engine.
type given struct {
	data types.DocData
	text string
}

// give makes a document for the engine, remembering it.
func (e *engRun) give(s *DocSpec) types.DocData {
	d := dataOf(s)
	if len(e.given) < 40 {
		e.given = append(e.given, given{d, JS(d)})
	}
	return d
}

// EngineH is the whole-engine harness.
type EngineH struct{}

func init() { All["engine"] = EngineH{} }

func newEngRun(sc *Scenario) *engRun {
	e := &engRun{sc: sc, disk: NewDisk(), docs: map[string]*docHist{}, counts: map[string]int{},
		toks: map[*DocSpec]TokMap{}, lens: map[*DocSpec]int{}}
	sc.GetCfg(&e.cfg)
	if e.cfg.Mode == ModeGse {
		e.cfg.seg()
	}
	return e
}

// Exec runs a scenario.
func (EngineH) Exec(sc *Scenario, trace bool) *Outcome {
	e := newEngRun(sc)
	curDisks = map[*dst.Group]*Disk{}
	xos.Escapes = nil
	xos.MkdirFault = nil
	e.disk.StallFor = time.Duration(e.cfg.StallMs) * time.Millisecond
	if e.cfg.Backend != "" {
		e.disk.Real = NewBacking(e.cfg.Backend, e.cfg.Power, sc.Seed)
		defer e.disk.Real.Done()
	}
	main := e.main
	if sc.Also != nil {
		b := newEngRun(sc.Also)
		e.beside, b.beside = b, e
		// the phrase package has one segmenter, so the model asks it beforehand
		for _, x := range []*engRun{e, b} {
			for i := range x.sc.Ops {
				if s := x.sc.Ops[i].Spec; s != nil && x.cfg.Phrase {
					x.tokens(s)
				}
			}
		}
		main = func() {
			dst.ResetGlobals()
			t := dst.GoIn(dst.NewGroup("second"), "second", b.main)
			e.main()
			t.Join()
		}
	}
	out := RunKernel(sc, trace, e.counts, main)
	if b := e.beside; b != nil {
		for k, v := range b.counts {
			e.counts[k] += v
		}
		e.anyDoc = e.anyDoc && b.anyDoc
	}
	for k, v := range e.disk.Counts {
		e.counts[k] += v
	}
	out.Nontriv = e.anyDoc
	if out.Viol == nil && len(xos.Escapes) > 0 {
		out.Viol = &dst.Violation{Class: "escape", Msg: "the engine changed files outside its store folder: " + strings.Join(xos.Escapes, ", ")}
	}
	return out
}

func (e *engRun) tick() uint64 { e.clock++; return e.clock }

func (e *engRun) tokens(d *DocSpec) TokMap {
	if m, ok := e.toks[d]; ok {
		return m
	}
	m, n := e.cfg.DocTokens(d)
	e.toks[d], e.lens[d] = m, n
	return m
}

func (e *engRun) main() {
	if e.disk.Real != nil {
		// the libraries do not survive a crash while they create their files
		dst.ResetGlobals()
		g := dst.NewGroup("mkfs")
		dst.GoIn(g, "mkfs", func() {
			for i := 0; i < e.cfg.StoreShards; i++ {
				db, err := e.disk.Real.Open(fmt.Sprintf("riot.%d", i))
				if err == nil {
					err = db.Close()
				}
				if err != nil {
					dst.Fail("store", "a new %s store: %v", e.cfg.Backend, err)
				}
			}
		}).Join()
		dst.Kill(g)
	}
	defer func() { e.at = 1 << 30 }()
	for e.life = 0; e.life < e.cfg.Lives; e.life++ {
		e.at = e.life
		for e.cfg.Meet && e.beside != nil && e.beside.at < e.life {
			dst.Sleep(time.Millisecond)
		}
		e.runLife()
	}
}

func (e *engRun) runLife() {
	life := e.life
	g := dst.NewGroup(fmt.Sprintf("engine%d", life))
	e.g = g
	if e.beside == nil { // all of the process was new
		dst.ResetGlobals()
	}
	curDisks[g] = e.disk
	e.disk.ResetFaults()
	e.crash = false
	e.nIdx, e.nRm, e.nTok = 0, 0, 0
	e.lastCt = [3]uint64{}
	e.flush = nil
	e.snaps, e.given, e.shared = nil, nil, nil
	wantExit := false
	e.disk.Crash = func() { e.crash = true; e.stop(); dst.Kill(g) }
	for _, f := range e.sc.Faults {
		if f.Life != life {
			continue
		}
		switch f.Kind {
		case "crash":
			dst.AtStep(uint64(f.At), func() {
				if !g.Dead {
					e.crash = true
					e.counts["fault.crash"]++
					e.stop()
					dst.MarkKill(g)
				}
			})
		case "crash_set_before":
			e.disk.CrashSetBefore = f.At
		case "crash_set_after":
			e.disk.CrashSetAfter = f.At
		case "crash_del_before":
			e.disk.CrashDelBefore = f.At
		case "crash_del_after":
			e.disk.CrashDelAfter = f.At
		case "crash_scan":
			e.disk.CrashScan = f.At
		case "set_error":
			for i := 0; i < f.N+1; i++ {
				e.disk.SetErr[f.At+i] = true
			}
		case "set_error_after":
			e.disk.SetErrAfter[f.At] = true
		case "del_error":
			e.disk.DelErr[f.At] = true
		case "stall":
			e.disk.Stall[f.At] = true
		case "open_error":
			wantExit = true
			e.disk.OpenErr[filepath.Join(Scratch, "db")+"/riot."+fmt.Sprint(f.At%e.cfg.StoreShards)] = true
		case "close_error":
			e.disk.CloseErr = true
		case "garbage":
			e.garbage(f)
		}
	}
	exited := ""
	if wantExit {
		g.OnExit = func(msg string) { exited = msg; e.stop() }
	}
	// recovery
	prev := e.docs
	e.docs = map[string]*docHist{}
	if life > 0 {
		e.recoverModel(prev)
	} else {
		for d := range prev {
			e.docs[d] = &docHist{}
		}
	}
	for _, o := range e.sc.Ops {
		if o.Doc != "" && e.docs[o.Doc] == nil {
			e.docs[o.Doc] = &docHist{ops: []*hop{{}}}
		}
	}
	e.flush = append(e.flush, flushRec{e.tick(), e.tick()})
	boot := dst.GoIn(g, "boot", func() {
		o := e.cfg.Opts(life)
		if e.cfg.Def&DefCtor != 0 {
			gseSeg()
			e.eng = riot.New(filepath.Join(Scratch, "dict.txt"), o.StoreFolder, e.cfg.Shards)
			return
		}
		if e.cfg.Def&DefToml != 0 {
			gseSeg()
			e.eng = riot.New(e.cfg.toml(o))
			return
		}
		eng := &riot.Engine{}
		if e.cfg.Mode == ModeGse {
			eng.WithGse(*e.cfg.seg())
		}
		e.eng = eng
		eng.Init(o)
	})
	boot.Join()
	if wantExit {
		if !g.Dead {
			dst.Fail("init", "Init returned although a store could not be opened")
		}
		e.counts["init.exit"]++
		_ = exited
		e.reconcile()
		return
	}
	if e.crash {
		e.reconcile()
		return
	}
	if life > 0 {
		e.afterRecovery()
		if e.crash {
			e.reconcile()
			return
		}
	}
	// clients
	var ts []*dst.Task
	for _, c := range ClientsOf(e.sc.Ops, life) {
		c := c
		ts = append(ts, dst.GoIn(g, fmt.Sprintf("client%d", c), func() {
			for i := range e.sc.Ops {
				o := &e.sc.Ops[i]
				if o.Life == life && o.Client == c {
					e.op(o)
				}
			}
		}))
	}
	for _, t := range ts {
		t.Join()
	}
	if !e.crash {
		fin := dst.GoIn(g, "final", e.final)
		fin.Join()
	}
	if e.crash {
		e.reconcile()
		return
	}
	dst.CancelEvents()
	// the process goes away; its storage stays
	if e.cfg.Store {
		for _, p := range SortedKeys(e.disk.open) {
			if e.disk.open[p] != nil && !e.disk.CloseErr {
				dst.Fail("store-left-open", "Close returned but store %s is still open", filepath.Base(p))
			}
		}
	}
	dst.Kill(g)
	e.disk.Release()
}

// stop is the instant at which the process or the machine dies.
func (e *engRun) stop() {
	if e.disk.Real != nil {
		e.disk.Real.Snap()
	}
}

// reconcile ends a life that died.
func (e *engRun) reconcile() {
	dst.CancelEvents()
	if !e.g.Dead {
		e.stop()
		dst.Kill(e.g)
	}
	e.disk.Release()
	if e.disk.Real != nil {
		e.disk.Real.Reboot()
		e.disk.Fsck()
	}
}

// garbage overwrites or adds an undecodable record between lives.
func (e *engRun) garbage(f Fault) {
	if !e.cfg.Store || e.life == 0 {
		return
	}
	e.counts["fault.garbage_record"]++
	paths := SortedKeys(e.disk.Files)
	if len(paths) == 0 {
		return
	}
	p := paths[f.At%len(paths)]
	e.disk.Put(p, "zz-garbage", []byte("\x03\xff\x01garbage"))
}

// recoverModel fixes the documents' states at the start of a life from what is
// durable, after checking that the durable state is one the history allows.
func (e *engRun) recoverModel(prev map[string]*docHist) {
	if !e.cfg.Store {
		return
	}
	durable := e.disk.Keys()
	now := e.tick()
	saveDocs, saveLife := e.docs, e.life
	for _, id := range SortedKeys(prev) {
		h := prev[id]
		e.docs = prev
		cands := e.cands(h, now, now)
		e.docs = saveDocs
		val, ok := durable[id]
		var st *DocSpec
		if ok {
			var data types.DocData
			if err := gob.NewDecoder(bytes.NewReader(val)).Decode(&data); err != nil {
				dst.Fail("durable", "the stored record of %q does not decode: %v", id, err)
			}
			ver := verOf(data.Fields, data.Attri)
			for _, o := range h.ops {
				if o.spec != nil && o.spec.Ver == ver {
					st = o.spec
				}
			}
			if st == nil || !sameData(st, data) {
				dst.Fail("durable", "the stored record of %q is not what was indexed: %s", id, JS(data))
			}
		}
		legal := false
		for _, c := range cands {
			if c == st {
				legal = true
			}
		}
		if e.disk.Failed[id] {
			legal = true // a write of this key was made to fail
		}
		if !legal {
			dst.Fail("durable", "after life %d the store holds %s for %q; allowed: %s", saveLife-1, verName(st), id, verNames(cands))
		}
		e.docs[id] = &docHist{ops: []*hop{{spec: st}}}
	}
	for id := range durable {
		if prev[id] == nil && id != "zz-garbage" {
			dst.Fail("durable", "the store holds a document %q that was never indexed", id)
		}
	}
	n := 0
	for _, id := range SortedKeys(e.docs) {
		if s := e.docs[id].ops[0].spec; s != nil {
			n++
			e.nTok += len(e.tokens(s))
		}
	}
	e.nIdx = n
	e.disk.Failed = map[string]bool{}
	e.counts["recovered_docs"] += n
	e.counts["restarts"]++
}

// verOf is the version of a document's fields or attributes; every version has
// one of them.
func verOf(fields, attri interface{}) int {
	switch x := fields.(type) {
	case Fields:
		return x.Ver
	}
	a, _ := attri.(Attr)
	return a.Ver
}

func sameData(s *DocSpec, d types.DocData) bool {
	w := dataOf(s)
	if w.Content != d.Content || !reflect.DeepEqual(w.Attri, d.Attri) || !reflect.DeepEqual(w.Fields, d.Fields) {
		return false
	}
	if len(w.Labels) != len(d.Labels) || len(w.Tokens) != len(d.Tokens) {
		return false
	}
	for i := range w.Labels {
		if w.Labels[i] != d.Labels[i] {
			return false
		}
	}
	for i := range w.Tokens {
		if w.Tokens[i].Text != d.Tokens[i].Text || len(w.Tokens[i].Locations) != len(d.Tokens[i].Locations) {
			return false
		}
		for j := range w.Tokens[i].Locations {
			if w.Tokens[i].Locations[j] != d.Tokens[i].Locations[j] {
				return false
			}
		}
	}
	return true
}

func verName(s *DocSpec) string {
	if s == nil {
		return "absent"
	}
	return fmt.Sprintf("v%d", s.Ver)
}

func verNames(c []*DocSpec) string {
	var x []string
	for _, s := range c {
		x = append(x, verName(s))
	}
	return "{" + strings.Join(x, " ") + "}"
}

// afterRecovery checks what a restarted engine shows once flushed.
func (e *engRun) afterRecovery() {
	t := dst.GoIn(e.g, "recovery check", func() {
		e.doFlush()
		e.verify("after restart")
		if ct := e.eng.NumIndexed(); ct != uint64(e.nIdx) {
			dst.Fail("counter", "after restart NumIndexed is %d, %d documents were stored", ct, e.nIdx)
		}
	})
	t.Join()
}

// ordered tells whether b surely takes effect after a.
func (e *engRun) ordered(a, b *hop) bool {
	if e.ord != nil && e.ord(a, b) {
		return true
	}
	if a.own && a.ret < b.inv {
		return true
	}
	for _, f := range e.flush {
		if a.ret < f.inv && f.ret < b.inv {
			return true
		}
	}
	return e.cfg.Gse == 1 && a.spec != nil && b.spec != nil && a.ret < b.inv
}

// covered tells whether the operation surely has taken effect before time t.
func (e *engRun) covered(o *hop, t uint64) bool {
	if o.own && o.ret < t {
		return true
	}
	for _, f := range e.flush {
		if o.ret < f.inv && f.ret < t {
			return true
		}
	}
	return false
}

// cands lists the states (nil = absent) a document may be seen in between
// times s and t.
func (e *engRun) cands(h *docHist, s, t uint64) []*DocSpec {
	if len(h.ops) == 0 {
		return []*DocSpec{nil}
	}
	var out []*DocSpec
	add := func(x *DocSpec) {
		for _, y := range out {
			if x == y {
				return
			}
		}
		out = append(out, x)
	}
	cov := make([]bool, len(h.ops))
	for k, o := range h.ops {
		cov[k] = k == 0 || e.covered(o, s)
	}
	for k, o := range h.ops {
		if cov[k] {
			last := true // no operation surely takes effect after it
			for l := k + 1; l < len(h.ops) && last; l++ {
				last = !cov[l] || !e.ordered(o, h.ops[l])
			}
			if last {
				add(o.spec)
			}
		} else if o.inv < t {
			add(o.spec)
			add(nil)
		}
	}
	return out
}

func (e *engRun) rec(id string, spec *DocSpec, force bool) *hop {
	h := e.docs[id]
	o := &hop{spec: spec, inv: e.tick(), ret: never, force: force}
	h.ops = append(h.ops, o)
	return o
}

func (e *engRun) doFlush() {
	f := flushRec{inv: e.tick(), ret: never}
	if f.inv%3 == 0 {
		e.eng.FlushIndex()
	} else {
		e.eng.Flush()
	}
	f.ret = e.tick()
	e.flush = append(e.flush, f)
	e.counts["op.flush"]++
}

func (e *engRun) op(o *Op) {
	e.counts["op."+o.Kind]++
	switch o.Kind {
	case "index":
		spec := o.Spec
		h := e.rec(o.Doc, spec, o.Force)
		e.nTok += len(e.tokens(spec))
		e.nIdx++
		e.anyDoc = true
		if o.Force {
			e.eng.Index(o.Doc, e.give(spec), true)
		} else if o.N == 1 {
			e.eng.IndexDoc(o.Doc, e.give(spec), false)
		} else {
			e.eng.Index(o.Doc, e.give(spec))
		}
		h.ret = e.tick()
	case "remove":
		h := e.rec(o.Doc, nil, o.Force)
		e.nRm++
		if o.Force {
			e.eng.RemoveDoc(o.Doc, true)
		} else {
			e.eng.RemoveDoc(o.Doc)
		}
		h.ret = e.tick()
	case "flush":
		e.doFlush()
	case "search":
		e.search(o.Q, "")
	case "probe":
		e.probe(o.Doc)
	case "sleep":
		xtime.Sleep(time.Duration(o.N) * time.Millisecond)
	case "yield":
		for i := 0; i < o.N; i++ {
			dst.Gosched()
		}
	case "has":
		s := e.tick()
		got := e.eng.HasDoc(o.Doc)
		e.checkHas("HasDoc", o.Doc, got, s, e.tick())
	case "hasdb":
		if e.cfg.Store {
			s := e.tick()
			got := e.eng.HasDocDB(o.Doc)
			e.checkHas("HasDocDB", o.Doc, got, s, e.tick())
		}
	case "ids":
		if e.cfg.Store {
			s := e.tick()
			get := e.eng.GetAllDocIds
			if s%2 == 0 {
				get = e.eng.GetDBAllIds
			}
			ids := get()
			e.checkIds(ids, nil, s, e.tick())
		}
	case "alldocs":
		if e.cfg.Store {
			s := e.tick()
			ids, data := e.eng.GetDBAllDocs()
			if len(ids) != len(data) {
				dst.Fail("db", "GetDBAllDocs returned %d ids and %d documents", len(ids), len(data))
			}
			e.checkIds(ids, data, s, e.tick())
		}
	case "count":
		e.counters(false)
	case "await":
		e.await(o)
	}
}

// probe looks for one document by its newest content.
func (e *engRun) probe(id string) {
	h := e.docs[id]
	for i := len(h.ops) - 1; i >= 0; i-- {
		if sp := h.ops[i].spec; sp != nil {
			if ks := SortedKeys(e.tokens(sp)); len(ks) > 0 {
				e.search(&Query{Toks: ks[:1], Ids: []string{id}, UseIds: true, NoOpts: true}, "")
			}
			return
		}
	}
}

// await waits, without Flush, for a forced update to show.
func (e *engRun) await(o *Op) {
	h := e.docs[o.Doc]
	if len(h.ops) == 0 {
		return
	}
	last := h.ops[len(h.ops)-1]
	if !last.force || (len(h.ops) > 1 && !e.ordered(h.ops[len(h.ops)-2], last)) {
		return
	}
	want := last.spec
	step0, fair, ms := dst.Step(), false, 0
	for i := 0; ; i++ {
		if want != nil {
			m := e.tokens(want)
			ks := SortedKeys(m)
			if len(ks) == 0 {
				return
			}
			q := &Query{Toks: []string{ks[0]}, Ids: []string{o.Doc}, UseIds: true, Score: 2}
			resp := e.eng.Search(reqOf(q))
			n, ver := e.oneDoc(resp, o.Doc)
			if n == 1 && (ver == want.Ver || e.cfg.IDOnly) && e.eng.HasDoc(o.Doc) && e.countsOne(o.Doc, ks[0]) == 2 && !e.oldSeen(h, m, o.Doc) {
				break
			}
		} else {
			seen := e.eng.HasDoc(o.Doc) || e.oldSeen(h, nil, o.Doc)
			if !seen {
				break
			}
		}
		// a clock that jumps, or long pauses, may leave the workers little
		// of that time: only a fair schedule decides
		if i > 60 && dst.Step()-step0 > 30000+5000*uint64(len(e.docs)) {
			if fair {
				dst.Fail("forced", "%q: the forced update to %s is still not visible %d ms later (nothing else is being done to that document)", o.Doc, verName(want), ms)
			}
			dst.Fair()
			step0, fair, i = dst.Step(), true, 0
		}
		xtime.Sleep(20 * time.Millisecond)
		ms += 20
	}
	e.counts["forced_seen"]++
}

// countsOne counts a document with a plain and a logic search.
func (e *engRun) countsOne(id, tok string) int {
	n := 0
	for _, must := range []bool{false, true} {
		q := &Query{Toks: []string{tok}, Ids: []string{id}, UseIds: true, Must: must, Count: true}
		n += e.eng.Search(reqOf(q)).NumDocs
	}
	return n
}

// oldSeen tells whether a search still finds a document by a token of an
// earlier version that is not among those of the newest.
func (e *engRun) oldSeen(h *docHist, now map[string][]int, id string) bool {
	for k := 0; k+1 < len(h.ops); k++ {
		sp := h.ops[k].spec
		if sp == nil {
			continue
		}
		for _, t := range SortedKeys(e.tokens(sp)) {
			if _, ok := now[t]; ok {
				continue
			}
			q := &Query{Toks: []string{t}, Ids: []string{id}, UseIds: true, Score: 2}
			if n, _ := e.oneDoc(e.eng.Search(reqOf(q)), id); n > 0 || e.countsOne(id, t) > 0 {
				return true
			}
			break
		}
	}
	return false
}

func (e *engRun) oneDoc(resp types.SearchResp, id string) (int, int) {
	n, ver := 0, 0
	switch ds := resp.Docs.(type) {
	case types.ScoredDocs:
		for _, d := range ds {
			if d.DocId == id {
				n++
				ver = verOf(d.Fields, d.Attri)
			}
		}
	case types.ScoredIDs:
		for _, d := range ds {
			if d.DocId == id {
				n++
			}
		}
	}
	return n, ver
}

func (e *engRun) checkHas(what, id string, got bool, s, t uint64) {
	if what == "HasDocDB" && e.disk.Failed[id] {
		return
	}
	h := e.docs[id]
	if h == nil {
		return
	}
	yes, no := false, false
	cs := e.cands(h, s, t)
	for _, c := range cs {
		if c != nil {
			yes = true
		} else {
			no = true
		}
	}
	if got && !yes || !got && !no {
		dst.Fail("has", "%s(%q) = %v; allowed states: %s", what, id, got, verNames(cs))
	}
}

func (e *engRun) checkIds(ids []string, data []types.DocData, s, t uint64) {
	seen := map[string]bool{}
	for i, id := range ids {
		if id == "zz-garbage" {
			continue
		}
		if seen[id] {
			dst.Fail("db", "stored document ids contain %q twice", id)
		}
		seen[id] = true
		h := e.docs[id]
		if h == nil {
			dst.Fail("db", "stored document ids contain %q, never indexed", id)
		}
		if e.disk.Failed[id] {
			continue
		}
		cs := e.cands(h, s, t)
		ok := false
		for _, c := range cs {
			if c != nil && (data == nil || sameData(c, data[i])) {
				ok = true
			}
		}
		if !ok {
			dst.Fail("db", "stored document %q is not in an allowed state %s", id, verNames(cs))
		}
	}
	for _, id := range SortedKeys(e.docs) {
		if e.disk.Failed[id] {
			continue
		}
		cs := e.cands(e.docs[id], s, t)
		must := true
		for _, c := range cs {
			if c == nil {
				must = false
			}
		}
		if must && !seen[id] {
			dst.Fail("db", "stored document ids lack %q, allowed states %s", id, verNames(cs))
		}
	}
}

func (e *engRun) counters(final bool) {
	if e.sc.Race && !final {
		// one alone: reading another one first would order the accesses
		[]func() uint64{e.eng.NumDocsIndexed, e.eng.NumDocsRemoved, e.eng.NumTokenIndexAdded,
			e.eng.NumIndexed, e.eng.NumRemoved, e.eng.NumTokenAdded}[dst.Rand()%6]()
		return
	}
	c := [3]uint64{e.eng.NumDocsIndexed(), e.eng.NumDocsRemoved(), e.eng.NumTokenIndexAdded()}
	d := [3]uint64{e.eng.NumIndexed(), e.eng.NumRemoved(), e.eng.NumTokenAdded()}
	for i := range c {
		if d[i] < c[i] || c[i] < e.lastCt[i] && final {
			dst.Fail("counter", "a counter went backwards: %v then %v", c, d)
		}
	}
	lim := [3]uint64{uint64(e.nIdx), uint64(e.nRm * e.cfg.shards(e.life)), uint64(e.nTok)}
	for i, n := range []string{"NumIndexed", "NumRemoved", "NumTokenAdded"} {
		if d[i] > lim[i] || final && d[i] != lim[i] {
			dst.Fail("counter", "%s is %d; operations so far account for %d (final=%v)", n, d[i], lim[i], final)
		}
	}
	e.lastCt = d
}

func (e *engRun) search(q *Query, when string) {
	req := reqOf(q)
	if q.Share {
		if e.shared == nil {
			e.shared = map[string]types.SearchReq{}
		}
		if r, ok := e.shared[JS(q)]; ok {
			req = r
			e.counts["shared_requests"]++
		}
		e.shared[JS(q)] = req
	}
	before := JS(plainReq(q, req))
	s := e.tick()
	v0, w0 := dst.SinceStart(), dst.Idle()
	var resp types.SearchResp
	if q.API == 1 {
		if e.cfg.IDOnly {
			r := e.eng.SearchID(req)
			resp = types.SearchResp{BaseResp: r.BaseResp, Docs: types.ScoredIDs(r.Docs)}
		} else {
			r := e.eng.SearchDoc(req)
			resp = types.SearchResp{BaseResp: r.BaseResp, Docs: types.ScoredDocs(r.Docs)}
		}
	} else {
		resp = e.eng.Search(req)
	}
	t := e.tick()
	el, idle := dst.SinceStart()-v0, dst.Idle()-w0
	if after := JS(plainReq(q, req)); after != before {
		dst.Fail("isolation", "Search changed the caller's request: %s -> %s", before, after)
	}
	if !tails(req.Tokens, req.Labels, req.Logic.Expr.Must, req.Logic.Expr.Should, req.Logic.Expr.NotIn) {
		dst.Fail("isolation", "Search wrote behind the end of a slice of the caller's request %s", before)
	}
	tmo := time.Duration(q.Tmo) * time.Millisecond
	if q.Tmo > 1<<40 {
		tmo = time.Millisecond << 40
	}
	switch {
	case q.Tmo <= 0:
		if resp.Timeout {
			dst.Fail("timeout", "a search without timeout reports a timeout")
		}
	case idle > tmo+2*time.Millisecond:
		// while the whole system waits for time to pass, so does the search
		dst.Fail("timeout", "a search with a timeout of %d ms waited for %v (timeout reported: %v)", q.Tmo, idle, resp.Timeout)
	case resp.Timeout && el < tmo-time.Millisecond:
		dst.Fail("timeout", "a search with a timeout of %d ms reports a timeout after %v", q.Tmo, el)
	}
	if resp.Timeout {
		e.counts["timeouts"]++
	}
	e.checkResp(q, resp, s, t, when)
	if q.Dirty {
		e.scribble(resp)
		if after := JS(plainReq(q, req)); after != before {
			dst.Fail("isolation", "changing an answer changes the request: %s -> %s", before, after)
		}
		return
	}
	if len(e.snaps) < 40 {
		e.snaps = append(e.snaps, snap{resp: resp, text: JS(resp), desc: JS(q)})
	}
}

// scribble overwrites the lists of an answer, which are the caller's.
func (e *engRun) scribble(r types.SearchResp) {
	e.counts["overwritten_answers"]++
	for i := range r.Tokens {
		r.Tokens[i] = "overwritten"
	}
	switch ds := r.Docs.(type) {
	case types.ScoredDocs:
		for i := range ds {
			ds[i] = types.ScoredDoc{}
		}
	case types.ScoredIDs:
		for i := range ds {
			ds[i] = types.ScoredID{}
		}
	}
}

// plainReq is the part of a request that can be printed.
func plainReq(q *Query, r types.SearchReq) interface{} {
	var ro interface{}
	if r.RankOpts != nil {
		ro = []interface{}{r.RankOpts.ReverseOrder, r.RankOpts.OutputOffset, r.RankOpts.MaxOutputs, r.RankOpts.ScoringCriteria != nil}
	}
	return []interface{}{r.Text, r.Tokens, r.Labels, r.Logic, r.DocIds, ro, r.Timeout, r.CountDocsOnly, r.Orderless}
}

type gotDoc struct {
	id      string
	scores  []float32
	snip    []int
	locs    [][]int
	content string
	attri   interface{}
	fields  interface{}
	full    bool
}

func gotDocs(resp types.SearchResp) ([]gotDoc, bool) {
	var out []gotDoc
	switch ds := resp.Docs.(type) {
	case nil:
		return nil, false
	case types.ScoredDocs:
		for _, d := range ds {
			out = append(out, gotDoc{d.DocId, d.Scores, d.TokenSnippetLocs, d.TokenLocs, d.Content, d.Attri, d.Fields, true})
		}
	case types.ScoredIDs:
		for _, d := range ds {
			out = append(out, gotDoc{d.DocId, d.Scores, d.TokenSnippetLocs, d.TokenLocs, "", nil, nil, false})
		}
	default:
		dst.Fail("result", "response documents have type %T", resp.Docs)
	}
	return out, true
}

func (e *engRun) checkResp(q *Query, resp types.SearchResp, s, t uint64, when string) {
	where := func() string {
		x := JS(q)
		if when != "" {
			x += " (" + when + ")"
		}
		return x
	}
	docs, have := gotDocs(resp)
	if !q.Count {
		want := "ScoredDocs"
		if e.cfg.IDOnly {
			want = "ScoredIDs"
		}
		if have && !strings.Contains(fmt.Sprintf("%T", resp.Docs), want) {
			dst.Fail("result", "search %s returned %T", where(), resp.Docs)
		}
	}
	toks := e.cfg.QueryTokens(q)
	if len(toks) != len(resp.Tokens) || len(toks) > 0 && !reflect.DeepEqual(toks, resp.Tokens) {
		dst.Fail("result", "search %s reports tokens %q, expected %q", where(), resp.Tokens, toks)
	}
	scored := !q.Count && !q.Less
	kind := q.Score
	if q.NoOpts || kind == 0 {
		kind = e.cfg.DefScore
	}
	keep := func(sp *DocSpec) bool { // survives scoring
		if !scored || kind == 0 {
			return true
		}
		return len(fieldScore(kind, dataOf(sp).Fields)) > 0
	}
	exact := true
	cand := map[string][]*DocSpec{}
	state := map[string]*DocSpec{}
	may, must := map[string]bool{}, map[string]bool{}
	for _, id := range SortedKeys(e.docs) {
		cs := e.cands(e.docs[id], s, t)
		cand[id] = cs
		if len(cs) == 1 {
			if cs[0] != nil {
				state[id] = cs[0]
			}
		} else {
			exact = false
		}
		some, all := false, true
		kSome, kAll := false, true
		for _, c := range cs {
			if c != nil && e.cfg.Match(q, id, e.tokens(c)) {
				some = true
			} else {
				all = false
			}
			if c != nil && keep(c) {
				kSome = true
			} else {
				kAll = false
			}
		}
		if some && kSome {
			may[id] = true
		}
		if all && kAll {
			must[id] = true
		}
	}
	off, max, rev := e.cfg.page(q)
	paged := scored && (max != 0 || off != 0)
	seen := map[string]bool{}
	for _, d := range docs {
		if seen[d.id] {
			dst.Fail("duplicate", "search %s returned %q twice", where(), d.id)
		}
		seen[d.id] = true
		if !may[d.id] {
			dst.Fail("unsound", "search %s returned %q whose allowed states %s do not satisfy it", where(), d.id, verNames(cand[d.id]))
		}
		e.checkDoc(q, toks, d, cand[d.id], kind, where)
	}
	if !paged && !q.Count && !resp.Timeout {
		for _, id := range SortedKeys(must) {
			if !seen[id] {
				dst.Fail("missing", "search %s did not return %q, whose allowed states are %s; returned %s", where(), id, verNames(cand[id]), JS(idsOf(docs)))
			}
		}
	}
	if resp.NumDocs > len(may) || resp.NumDocs < len(must) && !resp.Timeout {
		dst.Fail("count", "search %s counts %d documents; between %d and %d satisfy it", where(), resp.NumDocs, len(must), len(may))
	}
	if !paged && !q.Count && resp.NumDocs != len(docs) {
		dst.Fail("count", "search %s counts %d documents and returns %d", where(), resp.NumDocs, len(docs))
	}
	if q.Count && len(docs) != 0 {
		dst.Fail("count", "a counting search %s returned documents", where())
	}
	if !scored {
		return
	}
	// order
	for i := 1; i < len(docs); i++ {
		a, b := docs[i-1].scores, docs[i].scores
		if rev {
			a, b = b, a
		}
		if scoreLess(b, a) {
			dst.Fail("order", "search %s: results %d and %d are out of order: %v, %v", where(), i-1, i, docs[i-1].scores, docs[i].scores)
		}
	}
	if max > 0 && len(docs) > max {
		dst.Fail("page", "search %s returned %d documents, at most %d were asked for", where(), len(docs), max)
	}
	if resp.Timeout {
		return
	}
	if paged {
		lo, hi := pageLen(len(must), off, max), pageLen(len(may), off, max)
		if len(docs) < lo || len(docs) > hi {
			dst.Fail("page", "search %s returned a page of %d documents, expected between %d and %d", where(), len(docs), lo, hi)
		}
	}
	if !exact {
		return
	}
	e.counts["exact_checks"]++
	// predicted scores
	var pred map[string][]float32
	if kind > 0 {
		pred = map[string][]float32{}
		for id := range must {
			pred[id] = fieldScore(kind, dataOf(state[id]).Fields)
		}
	} else if e.cfg.shards(e.life) == 1 || isLogic(q) || e.cfg.IndexType == types.DocIdsIndex {
		pred = map[string][]float32{}
		c := &corpus{toks: map[string]TokMap{}, lens: map[string]int{}}
		for id, sp := range state {
			c.toks[id] = e.tokens(sp)
			c.lens[id] = e.lens[sp]
		}
		for id := range must {
			if isLogic(q) {
				pred[id] = []float32{0}
			} else {
				pred[id] = []float32{e.cfg.bm25(c, toks, id)}
			}
		}
	}
	if pred == nil {
		return
	}
	for _, d := range docs {
		if !sameScores(pred[d.id], d.scores) {
			dst.Fail("score", "search %s: %q has scores %v, expected %v", where(), d.id, d.scores, pred[d.id])
		}
	}
	var all [][]float32
	for _, id := range SortedKeys(must) {
		all = append(all, pred[id])
	}
	sortScores(all, rev)
	a, b := off, len(all)
	if a > len(all) {
		a = len(all)
	}
	if max > 0 && max < b-a {
		b = a + max
	}
	all = all[a:b]
	if len(all) != len(docs) {
		dst.Fail("page", "search %s returned %d documents, expected %d", where(), len(docs), len(all))
	}
	for i := range all {
		if !sameScores(all[i], docs[i].scores) {
			dst.Fail("page", "search %s: position %d has scores %v, the ranking has %v there", where(), i, docs[i].scores, all[i])
		}
	}
}

func pageLen(n, off, max int) int {
	n -= off
	if n < 0 {
		n = 0
	}
	if max > 0 && n > max {
		n = max
	}
	return n
}

func idsOf(ds []gotDoc) []string {
	var x []string
	for _, d := range ds {
		x = append(x, d.id)
	}
	sort.Strings(x)
	return x
}

// checkDoc checks one returned document against its candidate states.
func (e *engRun) checkDoc(q *Query, toks []string, d gotDoc, cs []*DocSpec, kind int, where func() string) {
	if d.full && !q.Less {
		ok := false
		for _, c := range cs {
			if c == nil {
				continue
			}
			w := dataOf(c)
			if w.Content == d.content && reflect.DeepEqual(w.Fields, d.fields) && reflect.DeepEqual(w.Attri, d.attri) {
				ok = true
			}
		}
		if !ok {
			dst.Fail("payload", "search %s: %q came with content %q, attributes %+v, fields %+v, which no allowed version %s has",
				where(), d.id, d.content, d.attri, d.fields, verNames(cs))
		}
		if kind > 0 {
			if f := fieldScore(kind, d.fields); !sameScores(f, d.scores) {
				dst.Fail("score", "search %s: %q has scores %v but its fields %+v score %v", where(), d.id, d.scores, d.fields, f)
			}
		}
	}
	if e.cfg.IndexType == types.LocsIndex && !isLogic(q) {
		ok := false
		for _, c := range cs {
			if c != nil && e.cfg.Match(q, d.id, e.tokens(c)) && locsMatch(e.tokens(c), toks, d) {
				ok = true
			}
		}
		if len(d.snip) == len(toks) && len(d.locs) == len(toks) && len(toks) > 1 {
			if best, def := bestProximity(toks, d.locs); def {
				e.counts["proximity_checks"]++
				if p := proximity(toks, d.snip); p != best {
					dst.Fail("proximity", "search %s: the snippet %v of %q has proximity %d, the best placement of %v has %d", where(), d.snip, d.id, p, d.locs, best)
				}
			}
		}
		if !ok {
			dst.Fail("locations", "search %s: %q came with token locations %v and snippet %v, which no allowed version %s has", where(), d.id, d.locs, d.snip, verNames(cs))
		}
	}
}

func locsMatch(m TokMap, toks []string, d gotDoc) bool {
	full := len(toks) > 0
	for _, t := range toks {
		if len(m[t]) == 0 {
			full = false
		}
	}
	if !full {
		return len(d.locs) == 0 && len(d.snip) == 0
	}
	if len(d.locs) != len(toks) || len(d.snip) != len(toks) {
		return false
	}
	for i, t := range toks {
		if !reflect.DeepEqual(m[t], d.locs[i]) {
			return false
		}
		in := false
		for _, p := range m[t] {
			if p == d.snip[i] {
				in = true
			}
		}
		if !in {
			return false
		}
	}
	return true
}

// verify runs the scenario's closing queries in a settled state.
func (e *engRun) verify(when string) {
	for i := range e.cfg.Queries {
		e.search(&e.cfg.Queries[i], when)
	}
	s := e.tick()
	for _, id := range SortedKeys(e.docs) {
		e.checkHas("HasDoc", id, e.eng.HasDoc(id), s, e.tick())
	}
}

// final settles the engine, verifies everything and closes it.
func (e *engRun) final() {
	if !e.cfg.NoFinalFlush || e.life == e.cfg.Lives-1 { // else Close alone is to bring all to the store
		e.settled()
	}
	for _, g := range e.given {
		if t := JS(g.data); t != g.text {
			dst.Fail("isolation", "a document given to the engine changed: %s -> %s", g.text, t)
		}
		if !docTails(g.data) {
			dst.Fail("isolation", "the engine wrote behind the end of a slice of the document %s", g.text)
		}
	}
	for _, sn := range e.snaps {
		if JS(sn.resp) != sn.text {
			dst.Fail("isolation", "the response to %s changed after it was returned: %s -> %s", sn.desc, sn.text, JS(sn.resp))
		}
	}
	f := flushRec{inv: e.tick()}
	e.eng.Close()
	f.ret = e.tick()
	e.flush = append(e.flush, f)
	if e.cfg.Store {
		s := e.tick()
		dst.CancelEvents()
		durable := e.disk.Keys()
		for _, id := range SortedKeys(e.docs) {
			if e.disk.Failed[id] {
				continue
			}
			cs := e.cands(e.docs[id], s, s)
			_, has := durable[id]
			ok := false
			for _, c := range cs {
				if (c != nil) == has {
					ok = true
				}
			}
			if !ok {
				dst.Fail("durable", "after Close the store has %q: %v; allowed states %s", id, has, verNames(cs))
			}
		}
		if e.disk.UseAfterClose > 0 {
			dst.Fail("durable", "%d store operations ran after Close closed the store and were lost", e.disk.UseAfterClose)
		}
	}
}

// settled flushes and checks everything.
func (e *engRun) settled() {
	e.doFlush()
	e.verify("after Flush")
	e.counters(true)
	if e.cfg.Store {
		s := e.tick()
		ids, data := e.eng.GetDBAllDocs()
		e.checkIds(ids, data, s, e.tick())
	}
	if e.cfg.Diff && e.life == e.cfg.Lives-1 {
		e.differential()
	}
}

// differential compares the engine with a fresh one that was only given the
// documents that are live now.
func (e *engRun) differential() {
	s := e.tick()
	live := map[string]*DocSpec{}
	for _, id := range SortedKeys(e.docs) {
		cs := e.cands(e.docs[id], s, s)
		if len(cs) != 1 {
			return
		}
		if cs[0] != nil {
			live[id] = cs[0]
		}
	}
	ref := &riot.Engine{}
	if e.cfg.Mode == ModeGse {
		ref.WithGse(*e.cfg.seg())
	}
	o := e.cfg.Opts(e.life)
	o.UseStore = false
	ref.Init(o)
	ids := SortedKeys(live)
	r := NewRng(e.sc.Seed ^ 77)
	for i := len(ids) - 1; i > 0; i-- {
		j := r.N(i + 1)
		ids[i], ids[j] = ids[j], ids[i]
	}
	for _, id := range ids {
		ref.Index(id, dataOf(live[id]))
	}
	ref.Flush()
	for i := range e.cfg.Queries {
		q := &e.cfg.Queries[i]
		if q.Tmo > 0 {
			continue
		}
		a, b := e.eng.Search(reqOf(q)), ref.Search(reqOf(q))
		da, _ := gotDocs(a)
		db, _ := gotDocs(b)
		if a.NumDocs != b.NumDocs || len(da) != len(db) {
			dst.Fail("history", "search %s finds %d documents (%d returned); an engine given only the live documents finds %d (%d returned)", JS(q), a.NumDocs, len(da), b.NumDocs, len(db))
		}
		if q.Less {
			continue
		}
		sb := map[string][]float32{}
		for _, d := range db {
			sb[d.id] = d.scores
		}
		for i, d := range da {
			if !sameScores(d.scores, db[i].scores) {
				dst.Fail("history", "search %s: position %d scores %v; an engine given only the live documents has %v there", JS(q), i, d.scores, db[i].scores)
			}
			if w, ok := sb[d.id]; ok && !sameScores(w, d.scores) {
				dst.Fail("history", "search %s: %q scores %v; in an engine given only the live documents it scores %v", JS(q), d.id, d.scores, w)
			}
		}
	}
	e.counts["differential"]++
}
