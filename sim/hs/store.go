// Package hs drives the real store backends (riot/store over the real LevelDB,
// Bolt and Badger) under the simulator and compares them with an atomic map.
package hs

import (
	"bytes"
	"errors"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"

	"github.com/go-ego/riot/store"

	"verif.local/sim/dst"
	. "verif.local/sim/w"
	fos "verif.local/sim/x/fos"
	xos "verif.local/sim/x/os"
)

// StoreH is the harness.
type StoreH struct{}

func init() { All["store"] = StoreH{} }

// Cfg is a store scenario's configuration.
type Cfg struct {
	Backend string `json:"backend"` // ldb, bolt, bg
	Via     int    `json:"via"`     // how it is opened
	Lives   int    `json:"lives"`
	Power   bool   `json:"power,omitempty"` // crashes are power losses
	Snap    []int  `json:"snap"`            // per life: the change of a file at which it dies (-1: clean close)
	Seed    uint64 `json:"seed"`
}

// the keys a scenario may use
var keys = func() [][]byte {
	ks := [][]byte{[]byte("1"), []byte("10"), []byte("2"), []byte("key1"), []byte("键"), {0}, {0xff, 0xff}, []byte("a b"), bytes.Repeat([]byte("long"), 60), []byte("key10"), {0xff}, []byte("\x00\x00")}
	return ks
}()

func keyNo(k []byte) int {
	for i, x := range keys {
		if bytes.Equal(x, k) {
			return i
		}
	}
	return -1
}

// value makes the bytes of value number id.
func value(id, size int) []byte {
	b := make([]byte, size)
	x := uint64(id)*0x9e3779b97f4a7c15 + 12345
	for i := range b {
		x = x*6364136223846793005 + 1442695040888963407
		b[i] = byte(x >> 56)
	}
	if size >= 2 {
		b[0], b[1] = byte(id), byte(id>>8)
	} else if size == 1 {
		b[0] = byte(id)
	}
	return b
}

// Gen draws a scenario.
func (StoreH) Gen(prop string, seed uint64) *Scenario {
	r := NewRng(seed ^ 0x5709e)
	sc := &Scenario{Harness: "store", Property: prop, Seed: seed}
	c := Cfg{Backend: r.PickS("ldb", "ldb", "bolt", "bolt", "bolt", "bg"), Via: r.N(4), Seed: r.U64()}
	return gen(sc, c, r)
}

func gen(sc *Scenario, c Cfg, r *Rng) *Scenario {
	c.Lives = r.Pick(1, 2, 2, 3, 4)
	c.Power = c.Backend != "ldb" && r.P(40)
	nKeys := r.In(1, len(keys))
	vid := 0
	crashy, faulty := r.P(50), r.P(30)
	for l := 0; l < c.Lives; l++ {
		nClients := r.Pick(1, 1, 2, 3)
		per := r.In(2, 14)
		if nClients > 1 {
			per = r.In(2, 9)
		}
		wDel, wScan := r.Pick(10, 25), r.Pick(5, 12)
		for cl := 0; cl < nClients; cl++ {
			for n := 0; n < per; n++ {
				o := Op{Life: l, Client: cl, Doc: fmt.Sprint(r.N(nKeys))}
				x := r.N(50 + wDel + wScan + 30)
				switch {
				case x < 50:
					vid++
					o.Kind, o.N = "set", vid
					o.Peer = r.Pick(0, 0, 1, 2, 5, 20, 31, 32, 33, 64, 200)
					if r.P(4) {
						o.Peer = r.Pick(4000, 4096, 5000, 33000)
						if r.P(20) {
							o.Peer = r.Pick(65535, 65536, 70000, 300000, 1100000)
						}
					}
				case x < 50+wDel:
					o.Kind = "del"
				case x < 50+wDel+wScan:
					o.Kind = "scan"
					if r.P(25) {
						o.Kind, o.N = "scanerr", r.N(3)
					}
				case x < 50+wDel+wScan+18:
					o.Kind = "get"
				default:
					o.Kind = "has"
				}
				sc.Ops = append(sc.Ops, o)
			}
		}
		if r.P(6) {
			n := Op{Life: l, Client: -1, Kind: "bulk", N: r.Pick(20, 300, 1100), Peer: r.Pick(0, 8, 100)}
			if n.N < 1000 && r.P(25) {
				n.Peer = r.Pick(4000, 40000)
			}
			sc.Ops = append(sc.Ops, n)
			if r.P(40) {
				sc.Ops = append(sc.Ops, Op{Life: l, Client: -1, Kind: "bulkdel", N: r.In(2, 5)})
			}
		}
		at := -1
		if crashy && r.P(70) {
			at = r.N(r.Pick(10, 40, 120))
		}
		c.Snap = append(c.Snap, at)
		if faulty && r.P(60) {
			n := r.In(1, 2)
			for i := 0; i < n; i++ {
				sc.Faults = append(sc.Faults, Fault{Life: l, At: r.N(r.Pick(10, 40, 100)), Kind: r.PickS("write_error", "sync_error", "no_space", "disk_full", "short_write")})
			}
		}
		if r.P(8) {
			sc.Ops = append(sc.Ops, Op{Life: l, Client: 0, Kind: "open2"})
		}
		if l > 0 && c.Backend != "bolt" && r.P(40) { // bbolt maps its file
			for i, n := 0, r.In(1, 4); i < n; i++ {
				o := Op{Life: l, Client: -2, Kind: r.PickS("scan", "scan", "get", "has", "set", "del", "del"), N: r.N(r.Pick(2, 8, 40)), Doc: fmt.Sprint(r.N(nKeys)), Peer: r.N(3)}
				switch o.Kind {
				case "set": // S says which reads fail meanwhile
					vid++
					o.S, o.N, o.Peer = fmt.Sprint(r.N(3)), vid, r.Pick(0, 1, 5, 33, 200)
				case "del":
					o.N = r.Pick(0, 0, 1, 2)
				}
				sc.Ops = append(sc.Ops, o)
			}
		}
	}
	sc.Sched = GenSched(r, 250000000)
	sc.SetCfg(&c)
	return sc
}

type run struct {
	sc      *Scenario
	c       Cfg
	counts  map[string]int
	canon   map[string]int // bytes -> value number + 1
	vals    map[int][]byte
	states  []state
	loose   []map[int32]bool
	seq     int
	hist    []*hop
	given   []handed
	dir     string
	created bool
	n       int
	bulk    map[string][]byte // what bulk operations stored
}

type state [12]int32

// hop is one operation of the history.
type hop struct {
	kind     string
	key      int
	val      int32
	inv, ret int
	opt      bool // may or may not have taken effect, at any time after inv
	any      bool // its result says nothing
	found    int  // get/has: 0 missing, 1 found, 2 cannot tell
	scan     state
	prefix   bool // the scan was cut short
	who      int
	text     string
}

type handed struct {
	got, want []byte
	what      string
}

var errStop = errors.New("stop scanning")

// Exec runs a scenario.
func (StoreH) Exec(sc *Scenario, trace bool) *Outcome {
	x := &run{sc: sc, counts: map[string]int{}, canon: map[string]int{}, vals: map[int][]byte{}, states: []state{{}}, bulk: map[string][]byte{}}
	sc.GetCfg(&x.c)
	for _, o := range sc.Ops {
		if o.Kind == "set" {
			v := value(o.N, o.Peer)
			if _, ok := x.canon[string(v)]; !ok {
				x.canon[string(v)] = o.N
			}
			x.vals[o.N] = v
		}
	}
	x.dir = filepath.Join(Scratch, "st")
	os.RemoveAll(x.dir)
	defer os.RemoveAll(x.dir)
	o := RunKernel(sc, trace, x.counts, x.main)
	fos.Cur = nil
	o.Nontriv = x.counts["acked_sets"] > 0
	return o
}

func (x *run) newSim(files map[string][]byte) *fos.Sim {
	x.n++
	root := filepath.Join(x.dir, fmt.Sprint(x.n))
	os.MkdirAll(root, 0o755)
	fs := fos.NewSim(root)
	if err := fs.Load(files); err != nil {
		panic(err)
	}
	fos.Cur = fs
	return fs
}

func (x *run) open(fs *fos.Sim) (store.Store, error) {
	p := filepath.Join(fs.Root, "db")
	delete(xos.Env, "Riot_Store_Engine")
	switch x.c.Via {
	case 0:
		switch x.c.Backend {
		case "ldb":
			return store.OpenLeveldb(p)
		case "bolt":
			return store.OpenBolt(p)
		default:
			return store.OpenBadger(p)
		}
	case 1:
		xos.Env["Riot_Store_Engine"] = x.c.Backend
		return store.OpenStore(p)
	case 2:
		if x.c.Backend == "ldb" {
			return store.OpenStore(p)
		}
		return store.OpenStore(p, x.c.Backend)
	}
	xos.Env["Riot_Store_Engine"] = "no such engine"
	return store.OpenStore(p, x.c.Backend)
}

func (x *run) main() {
	debug.SetPanicOnFault(true)
	// bbolt makes slices that end up pointing one byte behind an allocation; a
	// collection at that instant would end the worker, so collect between runs
	debug.SetGCPercent(-1)
	debug.SetMemoryLimit(math.MaxInt64)
	var ms runtime.MemStats
	if runtime.ReadMemStats(&ms); ms.HeapAlloc > 400<<20 {
		runtime.GC()
	}
	fs := x.newSim(nil)
	rnd := NewRng(x.c.Seed)
	for l := 0; l <= x.c.Lives; l++ {
		last := l == x.c.Lives
		fs.Ops, fs.SnapAt, fs.Power = 0, -1, x.c.Power
		fs.Keep = func() bool { return rnd.P(50) }
		fs.Decide = nil
		faults := map[int]string{}
		fired := 0
		full := false
		if !last {
			fs.SnapAt = x.c.Snap[l]
			for _, f := range x.sc.Faults {
				if f.Life == l {
					faults[f.At] = f.Kind
				}
			}
			fs.Decide = func(n int, kind, path string, size int) (int, error) {
				k := faults[n]
				if dst.Tracing() {
					dst.Logf("  change %d: %s %s %d %s", n, kind, filepath.Base(path), size, k)
				}
				if x.c.Backend == "bg" && (k == "disk_full" || k == "short_write" || !strings.HasSuffix(path, ".vlog")) {
					return -1, nil // badger retries other failures for ever, in real time
				}
				if x.c.Backend == "bolt" && fired > 0 {
					// after a failure bbolt's rollback may reuse pages that the failed
					// commit's header on disk refers to: one more failure or a crash
					// then and its file is lost (a defect of the library)
					fs.SnapAt = -1
					if !full {
						return -1, nil
					}
				}
				if full && (kind == "write" || kind == "create") {
					fired++
					return -1, errNoSpace
				}
				switch {
				case k == "":
				case k == "write_error" && kind == "write", k == "sync_error" && kind == "sync":
					fired++
					x.counts["fault."+k]++
					return -1, errIO
				case k == "no_space" && kind == "write":
					fired++
					x.counts["fault."+k]++
					return -1, errNoSpace
				case k == "disk_full":
					fired++
					full = true
					x.counts["fault."+k]++
					if kind == "write" || kind == "create" {
						return -1, errNoSpace
					}
				case k == "short_write" && kind == "write" && size > 1:
					fired++
					x.counts["fault."+k]++
					return size / 2, errNoSpace
				}
				return -1, nil
			}
		}
		if !x.life(l, last, fs, &fired) {
			// the process died: the next one sees what was left on disk
			x.counts["crashes"]++
			if x.c.Power {
				x.counts["fault.power_loss"]++
			} else {
				x.counts["fault.process_kill"]++
			}
			fs.Close()
			fs = x.newSim(fs.Snap)
		}
	}
	fs.Close()
}

var errIO = errors.New("input/output error (injected)")
var errNoSpace = errors.New("no space left on device (injected)")

// life runs one process; false means it died.
func (x *run) life(l int, last bool, fs *fos.Sim, fired *int) bool {
	g := dst.NewGroup(fmt.Sprint("process", l))
	x.hist, x.given = nil, nil
	x.seq = 0
	snapSeq := -1
	fs.OnSnap = func() { snapSeq = x.seq }
	in := func(name string, fn func()) {
		dst.GoIn(g, name, func() { debug.SetPanicOnFault(true); fn() }).Join()
	}
	var db store.Store
	var err error
	var spoiled func(store.Store)
	if !last && x.created {
		in("spoiled reads", func() { spoiled = x.spoiled(l, fs) })
	}
	in("open", func() {
		if !x.created {
			// none of the three libraries survives a crash while it creates its
			// files; nothing is stored then, so the directory is made first
			at, decide := fs.SnapAt, fs.Decide
			fs.SnapAt, fs.Decide = -1, nil
			db, err = x.open(fs)
			x.created = err == nil
			fs.Ops, fs.SnapAt, fs.Decide = 0, at, decide
			return
		}
		db, err = x.open(fs)
	})
	if err != nil {
		if *fired == 0 && !fs.SnapDone {
			dst.Fail("open", "life %d: opening the %s store of an intact directory fails: %v", l, x.c.Backend, err)
		}
		x.counts["failed_open"]++
		dst.Kill(g)
		fs.TakeSnap()
		return false
	}
	if db == nil {
		dst.Fail("open", "life %d: opening the %s store returns neither a store nor an error", l, x.c.Backend)
	}
	if !fs.SnapDone {
		// what the previous life left
		in("check", func() {
			for i := range keys {
				x.do(db, fs, fired, Op{Kind: "get", Doc: fmt.Sprint(i)}, -1)
				x.do(db, fs, fired, Op{Kind: "has", Doc: fmt.Sprint(i)}, -1)
			}
			x.do(db, fs, fired, Op{Kind: "scan"}, -1)
		})
		x.judge(l, "after opening", -1)
		x.hist = nil
		if spoiled != nil {
			in("compare", func() { spoiled(db) })
		}
	}
	if !last && !fs.SnapDone {
		in("bulk", func() {
			at, decide := fs.SnapAt, fs.Decide
			fs.SnapAt, fs.Decide = -1, nil
			for _, o := range x.sc.Ops {
				if o.Life == l && o.Client < 0 {
					x.bulkOp(db, fs, fired, o)
				}
			}
			fs.Ops, fs.SnapAt, fs.Decide = 0, at, decide
		})
	}
	if !last {
		var ts []*dst.Task
		for _, cl := range ClientsOf(x.sc.Ops, l) {
			cl := cl
			if cl < 0 {
				continue
			}
			ts = append(ts, dst.GoIn(g, fmt.Sprint("client", cl), func() {
				debug.SetPanicOnFault(true)
				for _, o := range x.sc.Ops {
					if *fired > 0 && (o.Kind == "set" || o.Kind == "del") && x.c.Backend == "bolt" {
						continue
					}
					if o.Life == l && o.Client == cl && !fs.SnapDone {
						x.do(db, fs, fired, o, cl)
					}
				}
			}))
		}
		for _, t := range ts {
			t.Join()
		}
	}
	var cerr error
	in("close", func() { cerr = db.Close() })
	if cerr != nil && *fired == 0 && !fs.SnapDone {
		dst.Fail("close", "life %d: closing the %s store fails: %v", l, x.c.Backend, cerr)
	}
	for _, h := range x.given {
		if gone(h.got) {
			dst.Fail("bytes-changed", "life %d: %s: the memory was taken away (the bytes were %s)", l, h.what, show(h.want))
		}
		if !bytes.Equal(h.got, h.want) {
			dst.Fail("bytes-changed", "life %d: %s: the bytes were %s and are now %s", l, h.what, show(h.want), show(h.got))
		}
	}
	dst.Kill(g)
	x.judge(l, "at its end", snapSeq)
	if fs.SnapDone {
		return false
	}
	if *fired > 0 {
		// what a failed process left in memory is of no interest: start over from the disk
		fs.Power = false
		fs.TakeSnap()
		return false
	}
	return true
}

// spoiled opens the store, reads while the disk fails to, and closes it again.
// What it returns compares the answers with those of an undisturbed store: a
// read that reports no error has to be right.
func (x *run) spoiled(l int, fs *fos.Sim) func(store.Store) {
	var ops []Op
	for _, o := range x.sc.Ops {
		if o.Life == l && o.Client == -2 {
			ops = append(ops, o)
		}
	}
	if len(ops) == 0 {
		return nil
	}
	at, decide := fs.SnapAt, fs.Decide
	fs.SnapAt, fs.Decide = -1, nil
	defer func() { fs.Ops, fs.SnapAt, fs.Decide, fs.Reader = 0, at, decide, nil }()
	db, err := x.open(fs)
	if err != nil {
		dst.Fail("open", "life %d: opening the %s store of an intact directory fails: %v", l, x.c.Backend, err)
	}
	var checks []func(map[string]string)
	wrote := map[string]int{} // by key, the operation that last wrote it
	for i, o := range ops {
		i, o := i, o
		reads := 0
		if o.Kind == "set" {
			fmt.Sscan(o.S, &o.N)
			o.Peer = 1
		}
		if o.Kind == "del" {
			o.Peer = 1
		}
		fs.Reader = func(path string, b []byte, n int, err error) (int, error) {
			reads++
			if reads <= o.N || o.Peer != 1 && reads > o.N+1 {
				return n, err
			}
			if o.Peer == 2 {
				if n == 0 || err != nil {
					return n, err
				}
				x.counts["fault.flipped_read"]++
				b[o.N*7919%n] ^= 1 << (o.N % 8)
				return n, err
			}
			x.counts["fault.read_error"]++
			return 0, errIO
		}
		var ki int
		fmt.Sscan(o.Doc, &ki)
		k := keys[ki%len(keys)]
		x.counts["spoiled."+o.Kind]++
		switch o.Kind {
		case "get":
			v, err := db.Get(append([]byte(nil), k...))
			if dst.Tracing() {
				dst.Logf("spoiled get %s: %s %v (%d reads)", show(k), show(v), err, reads)
			}
			checks = append(checks, func(m map[string]string) {
				if wrote[string(k)] > i {
					return
				}
				if want, ok := m[string(k)]; err == nil && string(v) != want || err != nil && err.Error() == "leveldb: not found" && ok {
					dst.Fail("silent-error", "%s: with a failing disk the get of key %s returns %s, %v; it is %s (%v)", x.c.Backend, show(k), show(v), err, show([]byte(want)), ok)
				}
			})
		case "has":
			has, err := db.Has(append([]byte(nil), k...))
			if dst.Tracing() {
				dst.Logf("spoiled has %s: %v %v (%d reads)", show(k), has, err, reads)
			}
			checks = append(checks, func(m map[string]string) {
				if wrote[string(k)] > i {
					return
				}
				if _, ok := m[string(k)]; err == nil && has != ok {
					dst.Fail("silent-error", "%s: with a failing disk the has of key %s returns %v without an error; it is %v", x.c.Backend, show(k), has, ok)
				}
			})
		case "scan":
			got := map[string]string{}
			twice := ""
			err := db.ForEach(func(k, v []byte) error {
				if _, ok := got[string(k)]; ok {
					twice = string(k)
				}
				got[string(k)] = string(v)
				return nil
			})
			if dst.Tracing() {
				dst.Logf("spoiled scan: %d pairs, %v (%d reads)", len(got), err, reads)
			}
			if err != nil {
				x.counts["spoiled.scan_errors"]++
			}
			checks = append(checks, func(now map[string]string) {
				m := map[string]string{}
				for k, v := range now {
					if wrote[k] <= i {
						m[k] = v
					}
				}
				for _, k := range SortedKeys(wrote) {
					if wrote[k] > i {
						delete(got, k)
					}
				}
				if twice != "" {
					dst.Fail("silent-error", "%s: with a failing disk a scan visits key %q twice", x.c.Backend, twice)
				}
				for _, k := range SortedKeys(got) {
					if v, ok := m[k]; !ok || v != got[k] {
						dst.Fail("silent-error", "%s: with a failing disk a scan visits key %q with %s; it is %s (%v)", x.c.Backend, k, show([]byte(got[k])), show([]byte(v)), ok)
					}
				}
				if err == nil && len(got) != len(m) {
					dst.Fail("silent-error", "%s: with a failing disk a scan visits %d of %d keys and reports no error", x.c.Backend, len(got), len(m))
				}
			})
		case "set", "del":
			// what reports no error has happened; what reports one may have
			ki %= len(keys)
			var err error
			val := int32(0)
			if o.Kind == "set" {
				v := append([]byte(nil), x.vals[ops[i].N]...)
				val = int32(x.canon[string(v)]) + 1
				err = db.Set(append([]byte(nil), k...), v)
			} else {
				err = db.Delete(append([]byte(nil), k...))
			}
			wrote[string(k)] = i
			x.wrote(ki, val, err != nil)
			if dst.Tracing() {
				dst.Logf("spoiled %s %s: value %d, %v (%d reads)", o.Kind, show(k), val-1, err, reads)
			}
		}
	}
	fs.Reader = nil
	db.Close()
	return func(db store.Store) {
		m := map[string]string{}
		if err := db.ForEach(func(k, v []byte) error { m[string(k)] = string(v); return nil }); err != nil {
			dst.Fail("spurious-error", "%s: scan fails without a disk fault: %v", x.c.Backend, err)
		}
		for _, f := range checks {
			f(m)
		}
	}
}

// wrote notes a write that happened, or may have.
func (x *run) wrote(k int, val int32, may bool) {
	if x.loose != nil {
		if !may {
			x.loose[k] = map[int32]bool{}
		}
		x.loose[k][val] = true
		return
	}
	seen := map[state]bool{}
	var out []state
	add := func(s state) {
		if !seen[s] {
			seen[s] = true
			out = append(out, s)
		}
	}
	for _, s := range x.states {
		if may {
			add(s)
		}
		s[k] = val
		add(s)
	}
	x.states = out
}

// gone tells whether reading b faults.
func gone(b []byte) (bad bool) {
	defer func() {
		if recover() != nil {
			bad = true
		}
	}()
	n := 0
	for _, c := range b {
		n += int(c)
	}
	sink += n
	return false
}

var sink int

func show(b []byte) string {
	if len(b) > 24 {
		return fmt.Sprintf("%q...(%d bytes)", b[:24], len(b))
	}
	return fmt.Sprintf("%q", b)
}

// bulkOp stores or deletes many keys besides the scenario's few, so that scans
// are long and the libraries split, flush and compact.
func (x *run) bulkOp(db store.Store, fs *fos.Sim, fired *int, o Op) {
	x.counts["op."+o.Kind]++
	switch o.Kind {
	case "bulk":
		for i := 0; i < o.N; i++ {
			k := fmt.Sprintf("k%04d", i*7919%10007)
			v := value(i+o.N, o.Peer+i%3)
			if err := db.Set([]byte(k), v); err != nil {
				dst.Fail("spurious-error", "%s: set of key %q to a value of %d bytes fails without a disk fault: %v", x.c.Backend, k, len(v), err)
			}
			x.bulk[k] = v
		}
	case "bulkdel":
		for i, k := range SortedKeys(x.bulk) {
			if i%o.N == 0 {
				if err := db.Delete([]byte(k)); err != nil {
					dst.Fail("spurious-error", "%s: delete of key %q fails without a disk fault: %v", x.c.Backend, k, err)
				}
				delete(x.bulk, k)
			}
		}
	}
	for i, k := range SortedKeys(x.bulk) {
		if i%17 == 0 {
			v, err := db.Get([]byte(k))
			if err != nil || !bytes.Equal(v, x.bulk[k]) {
				dst.Fail("wrong-bytes", "%s: get of key %q returns %s, %v instead of %s", x.c.Backend, k, show(v), err, show(x.bulk[k]))
			}
		}
	}
	x.do(db, fs, fired, Op{Kind: "scan"}, -1)
}

// do performs one operation and records it.
func (x *run) do(db store.Store, fs *fos.Sim, fired *int, o Op, who int) {
	var ki int
	fmt.Sscan(o.Doc, &ki)
	if ki < 0 || ki >= len(keys) {
		ki = 0
	}
	k := append([]byte(nil), keys[ki]...)
	h := &hop{kind: o.Kind, key: ki, who: who}
	faulty := func() bool { return *fired > 0 }
	x.counts["op."+o.Kind]++
	begin := func() {
		x.seq++
		h.inv = x.seq
		x.hist = append(x.hist, h)
	}
	end := func(format string, a ...interface{}) {
		x.seq++
		h.ret = x.seq
		if fs.SnapDone {
			h.any = true
		}
		if faulty() {
			// what the libraries promise after a failed write is theirs to say
			h.any, h.opt = true, true
		}
		h.text = fmt.Sprintf(format, a...)
		dst.Event(uint64(h.ret)<<16 ^ uint64(h.val)<<8 ^ uint64(h.found)<<4 ^ uint64(h.key))
		if dst.Tracing() {
			dst.Logf("client %d %s", who, h.text)
		}
	}
	args := func() {
		if !bytes.Equal(k, keys[ki]) {
			dst.Fail("bytes-changed", "%s changed the key it was given from %s to %s", o.Kind, show(keys[ki]), show(k))
		}
	}
	switch o.Kind {
	case "set":
		v := append([]byte(nil), x.vals[o.N]...)
		h.val = int32(x.canon[string(v)]) + 1
		begin()
		err := db.Set(k, v)
		h.opt = err != nil
		end("set key%d to value %d (%d bytes): %v", ki, o.N, len(v), err)
		if fs.SnapDone {
			return
		}
		args()
		if !bytes.Equal(v, x.vals[o.N]) {
			dst.Fail("bytes-changed", "set changed the value it was given from %s to %s", show(x.vals[o.N]), show(v))
		}
		if err != nil && !faulty() {
			dst.Fail("spurious-error", "%s: set of key %s to a value of %d bytes fails without a disk fault: %v", x.c.Backend, show(keys[ki]), len(v), err)
		}
		if err == nil {
			x.counts["acked_sets"]++
		}
		// the caller may use its buffers again
		for i := range k {
			k[i] = 'Z'
		}
		for i := range v {
			v[i] = 'Z'
		}
	case "del":
		begin()
		err := db.Delete(k)
		h.opt = err != nil
		end("delete key%d: %v", ki, err)
		if fs.SnapDone {
			return
		}
		args()
		if err != nil && !faulty() {
			dst.Fail("spurious-error", "%s: delete of key %s fails without a disk fault: %v", x.c.Backend, show(keys[ki]), err)
		}
		for i := range k {
			k[i] = 'Z'
		}
	case "get":
		begin()
		v, err := db.Get(k)
		switch {
		case err != nil:
			h.found = 0
			h.any = faulty()
		case len(v) == 0:
			h.found = 2 // nothing or an empty value
			h.val = int32(x.canon[""]) + 1
			if _, ok := x.canon[""]; !ok {
				h.found = 0
			}
		default:
			h.found = 1
			id, ok := x.canon[string(v)]
			if !ok && !fs.SnapDone {
				end("get key%d", ki)
				dst.Fail("wrong-bytes", "%s: get of key %s returns bytes nobody stored: %s", x.c.Backend, show(keys[ki]), show(v))
			}
			h.val = int32(id) + 1
		}
		end("get key%d: value %d, %v", ki, h.val-1, err)
		if fs.SnapDone {
			return
		}
		args()
		if err == nil && len(v) > 0 {
			if o.N%2 == 0 {
				x.given = append(x.given, handed{v, append([]byte(nil), v...), fmt.Sprintf("value of key %s returned by %s's get", show(keys[ki]), x.c.Backend)})
			} else {
				for i := range v { // the copy is the caller's
					v[i] = 'Y'
				}
			}
		}
	case "has":
		begin()
		ok, err := db.Has(k)
		if err != nil {
			h.any = true
			end("has key%d: %v", ki, err)
			if !faulty() && !fs.SnapDone {
				dst.Fail("spurious-error", "%s: has of key %s fails without a disk fault: %v", x.c.Backend, show(keys[ki]), err)
			}
			return
		}
		if ok {
			h.found = 1
		}
		end("has key%d: %v", ki, ok)
		if !fs.SnapDone {
			args()
		}
	case "scan", "scanerr":
		begin()
		n := 0
		bad := ""
		var bulk map[string]bool
		if len(x.bulk) > 0 {
			bulk = map[string]bool{}
		}
		err := db.ForEach(func(k, v []byte) error {
			n++
			dst.Y(0)
			if o.Kind == "scanerr" && n > o.N {
				return errStop
			}
			ki := keyNo(k)
			id, ok := x.canon[string(v)]
			if want, ok := x.bulk[string(k)]; ok && ki < 0 && bad == "" {
				switch {
				case !bytes.Equal(want, v):
					bad = fmt.Sprintf("visits key %q with %s instead of %s", k, show(v), show(want))
				case bulk[string(k)]:
					bad = fmt.Sprintf("visits key %q twice", k)
				}
				bulk[string(k)] = true
				return nil
			}
			switch {
			case bad != "":
			case ki < 0:
				bad = fmt.Sprintf("visits a key nobody stored: %s", show(k))
			case !ok:
				bad = fmt.Sprintf("visits key %s with bytes nobody stored: %s", show(k), show(v))
			case h.scan[ki] != 0:
				bad = fmt.Sprintf("visits key %s twice", show(k))
			default:
				h.scan[ki] = int32(id) + 1
			}
			return nil
		})
		h.prefix = o.Kind == "scanerr" && err != nil
		h.kind = "scan"
		end("scan: %v %v", h.scan, err)
		if fs.SnapDone {
			return
		}
		if bad == "" && err == nil && !h.any && len(bulk) < len(x.bulk) {
			for _, k := range SortedKeys(x.bulk) {
				if !bulk[k] {
					bad = fmt.Sprintf("misses %d of %d stored keys, among them %q", len(x.bulk)-len(bulk), len(x.bulk), k)
					break
				}
			}
		}
		if bad != "" {
			dst.Fail("scan", "%s: scan %s", x.c.Backend, bad)
		}
		if o.Kind == "scanerr" && n > o.N && err == nil {
			dst.Fail("scan", "%s: scan succeeds although its callback failed", x.c.Backend)
		}
		if o.Kind == "scanerr" && n > o.N+1 {
			dst.Fail("scan", "%s: scan goes on after its callback failed", x.c.Backend)
		}
		if err != nil && !h.prefix {
			if !faulty() {
				dst.Fail("spurious-error", "%s: scan fails without a disk fault: %v", x.c.Backend, err)
			}
			h.any = true
		}
	case "open2":
		db2, err := x.open(fs)
		if fs.SnapDone || faulty() {
			if err == nil && db2 != nil {
				db2.Close()
			}
			return
		}
		if err == nil {
			dst.Fail("open", "%s: a second open of a store in use succeeds", x.c.Backend)
		}
	}
}

// loosen gives up the relation between keys: each may have any value it had
// or was given.
func (x *run) loosen(hs []*hop) {
	if x.loose == nil {
		x.loose = make([]map[int32]bool, len(keys))
		for k := range keys {
			x.loose[k] = map[int32]bool{}
			for _, s := range x.states {
				x.loose[k][s[k]] = true
			}
		}
	}
	for _, h := range hs {
		switch h.kind {
		case "set":
			x.loose[h.key][h.val] = true
		case "del":
			x.loose[h.key][0] = true
		}
	}
}

// pin ends that when a history holds only reads: its scan is the contents.
func (x *run) pin(l int, hs []*hop) bool {
	var s *hop
	for _, h := range hs {
		switch h.kind {
		case "set", "del":
			return false
		case "scan":
			if !h.prefix {
				s = h
			}
		}
	}
	if s == nil {
		return false
	}
	for k, v := range s.scan {
		if !x.loose[k][v] {
			dst.Fail("not-a-map", "%s, life %d: key %s has value %d (-1: none), which it cannot have", x.c.Backend, l, show(keys[k]), v-1)
		}
	}
	x.loose = nil
	x.states = []state{s.scan}
	return true
}

// judge looks for an order of the recorded operations that an atomic map
// explains; snap is the time at which the process died, or -1.
func (x *run) judge(l int, when string, snap int) {
	var hs []*hop
	for _, h := range x.hist {
		c := *h
		if snap >= 0 {
			if c.inv > snap {
				continue
			}
			if c.ret == 0 || c.ret > snap {
				c.opt = true
				if c.kind != "set" && c.kind != "del" {
					continue
				}
			}
		}
		if c.ret == 0 {
			c.opt = true
		}
		if c.any && c.kind != "set" && c.kind != "del" {
			continue
		}
		if c.opt && c.kind != "set" && c.kind != "del" {
			continue
		}
		hs = append(hs, &c)
	}
	if len(hs) > 120 {
		x.loosen(hs)
		return
	}
	x.counts["histories"]++
	if x.loose != nil && !x.pin(l, hs) {
		x.loosen(hs)
		return
	}
	final := map[state]bool{}
	type memo struct {
		m1, m2 uint64
		s      state
	}
	seen := map[memo]bool{}
	var rec func(done [2]uint64, s state)
	has := func(d [2]uint64, i int) bool { return d[i/64]>>(uint(i)%64)&1 == 1 }
	rec = func(done [2]uint64, s state) {
		m := memo{done[0], done[1], s}
		if seen[m] || len(seen) > 400000 {
			return
		}
		seen[m] = true
		minRet := 1 << 60
		left := false
		for i, h := range hs {
			if !has(done, i) && !h.opt {
				left = true
				if h.ret < minRet {
					minRet = h.ret
				}
			}
		}
		if !left {
			final[s] = true
		}
		for i, h := range hs {
			if has(done, i) || h.inv > minRet {
				continue
			}
			t := s
			switch h.kind {
			case "set":
				t[h.key] = h.val
			case "del":
				t[h.key] = 0
			case "get":
				v := s[h.key]
				if h.found == 0 && v != 0 || h.found == 1 && v != h.val || h.found == 2 && v != 0 && v != h.val {
					continue
				}
			case "has":
				if (s[h.key] != 0) != (h.found == 1) {
					continue
				}
			case "scan":
				if h.prefix {
					bad := false
					for k, v := range h.scan {
						if v != 0 && s[k] != v {
							bad = true
						}
					}
					if bad {
						continue
					}
				} else if h.scan != s {
					continue
				}
			}
			d := done
			d[i/64] |= 1 << (uint(i) % 64)
			rec(d, t)
		}
	}
	for _, s := range x.states {
		rec([2]uint64{}, s)
	}
	if len(seen) > 400000 {
		// too many orders to try: from here each key by itself
		x.counts["undecided_histories"]++
		x.loosen(hs)
		return
	}
	if len(final) == 0 {
		var b strings.Builder
		for i, h := range hs {
			if i > 60 {
				break
			}
			fmt.Fprintf(&b, "\n  [%d,%d] client %d: %s", h.inv, h.ret, h.who, h.text)
			if h.opt {
				b.WriteString(" (may not have happened)")
			}
		}
		var st []string
		for i, s := range x.states {
			if i < 4 {
				st = append(st, fmt.Sprint(s))
			}
		}
		dst.Fail("not-a-map", "%s, life %d, %s: no order of the operations is what a map would show; possible contents before: %s%s", x.c.Backend, l, when, strings.Join(st, " or "), b.String())
	}
	x.states = x.states[:0]
	for s := range final {
		x.states = append(x.states, s)
	}
	sort.Slice(x.states, func(i, j int) bool { return fmt.Sprint(x.states[i]) < fmt.Sprint(x.states[j]) })
}
