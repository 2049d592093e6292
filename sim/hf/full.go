// Package hf puts the engine on the real store backends, over a simulated
// file system.
package hf

import (
	"fmt"
	"math"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"

	"github.com/go-ego/riot/store"

	"verif.local/sim/h"
	. "verif.local/sim/w"
	fos "verif.local/sim/x/fos"
)

// FullH is the engine harness with a real backend.
type FullH struct{ h.EngineH }

func init() {
	All["full"] = FullH{}
	h.NewBacking = newBacking
}

// Gen draws an engine scenario and a backend.
func (FullH) Gen(prop string, seed uint64) *Scenario {
	sc := h.EngineH{}.Gen(prop, seed)
	sc.Harness = "full"
	var c h.EngCfg
	sc.GetCfg(&c)
	r := NewRng(seed ^ 0xf0f0)
	c.Store = true
	c.Backend = r.PickS("ldb", "bolt", "bolt", "bg")
	c.Power = c.Backend != "ldb" && r.P(30)
	for i := range sc.Faults {
		if f := &sc.Faults[i]; f.Kind == "crash" {
			f.At = r.N(r.Pick(3000, 30000, 300000, 2000000))
		}
	}
	sc.Sched = GenSched(r, 250000000)
	sc.SetCfg(&c)
	return sc
}

type backing struct {
	dir, backend string
	power        bool
	rnd          *Rng
	n            int
	fs           *fos.Sim
}

func newBacking(backend string, power bool, seed uint64) h.Backing {
	debug.SetPanicOnFault(true)
	// see hs: bbolt's pointers and the collector
	debug.SetGCPercent(-1)
	debug.SetMemoryLimit(math.MaxInt64)
	var ms runtime.MemStats
	if runtime.ReadMemStats(&ms); ms.HeapAlloc > 400<<20 {
		runtime.GC()
	}
	b := &backing{dir: filepath.Join(Scratch, "full"), backend: backend, power: power, rnd: NewRng(seed)}
	os.RemoveAll(b.dir)
	b.load(nil)
	return b
}

func (b *backing) load(files map[string][]byte) {
	b.n++
	root := filepath.Join(b.dir, fmt.Sprint(b.n))
	os.MkdirAll(root, 0o755)
	fs := fos.NewSim(root)
	if err := fs.Load(files); err != nil {
		panic(err)
	}
	fs.Power = b.power
	fs.Keep = func() bool { return b.rnd.P(50) }
	b.fs = fs
	fos.Cur = fs
}

// Open opens a store.
func (b *backing) Open(name string) (store.Store, error) {
	debug.SetPanicOnFault(true)
	return store.OpenStore(filepath.Join(b.fs.Root, filepath.Base(name)), b.backend)
}

// Snap records the disk.
func (b *backing) Snap() { b.fs.TakeSnap() }

// Reboot starts from what Snap recorded.
func (b *backing) Reboot() {
	b.fs.TakeSnap()
	b.fs.Close()
	b.load(b.fs.Snap)
}

// Inspect runs fn over a copy of the disk.
func (b *backing) Inspect(fn func()) {
	cur := b.fs
	files := map[string][]byte{}
	filepath.Walk(cur.Root, func(p string, fi os.FileInfo, err error) error {
		rel, _ := filepath.Rel(cur.Root, p)
		if err != nil || rel == "." {
			return nil
		}
		if fi.IsDir() {
			files[rel] = nil
		} else if c, err := os.ReadFile(p); err == nil {
			files[rel] = append([]byte{}, c...)
		}
		return nil
	})
	b.load(files)
	fn()
	b.fs.Close()
	b.fs = cur
	fos.Cur = cur
}

// Done removes the files.
func (b *backing) Done() {
	b.fs.Close()
	fos.Cur = nil
	os.RemoveAll(b.dir)
}
