package h

import (
	"errors"
	"sort"
	"strings"
	"time"

	"github.com/go-ego/riot/store"

	"verif.local/sim/dst"
)

// Disk is the simulated durable storage of one machine: named key-value files
// that outlive the process using them. Each Set and Delete is atomic and
// durable at its commit point (what a write-ahead log gives against a process
// crash); faults decide the rest.
type Disk struct {
	Files  map[string]map[string][]byte
	open   map[string]*simDB
	Counts map[string]int
	// fault schedules: operation numbers, counted per kind over the life
	SetErr, SetErrAfter, DelErr, Stall map[int]bool
	CrashSetBefore, CrashSetAfter      int
	CrashDelBefore, CrashDelAfter      int
	CrashScan                          int
	OpenErr                            map[string]bool
	CloseErr                           bool
	StallFor                           time.Duration
	AllStall                           bool
	nSet, nDel, nScan                  int
	Failed                             map[string]bool // keys whose last write failed
	UseAfterClose                      int
	Log                                func(kind, key string)
	Crash                              func()
	// Real, when set, keeps the data; Files then mirrors what was acknowledged.
	Real    Backing
	pending []*pend
	unsure  []*pend
}

// Backing opens real stores on a simulated file system.
type Backing interface {
	// Open opens the store of a name for the running process.
	Open(name string) (store.Store, error)
	// Snap records what would survive if the machine stopped now.
	Snap()
	// Reboot forgets everything else.
	Reboot()
	// Inspect runs fn over a copy of the disk.
	Inspect(fn func())
	// Done is called at the end of a run.
	Done()
}

// NewBacking makes the backing of a run, where the worker includes one.
var NewBacking func(backend string, power bool, seed uint64) Backing

// pend is a change that the store has not answered yet.
type pend struct {
	path, key string
	val       []byte // nil: removed
	crossed   bool   // overlaps another change of the key
}

func (d *Disk) begin(path, key string, val []byte) *pend {
	p := &pend{path: path, key: key, val: val}
	for _, q := range d.pending {
		if q.path == path && q.key == key {
			p.crossed, q.crossed = true, true
		}
	}
	d.pending = append(d.pending, p)
	return p
}

func (d *Disk) end(p *pend) {
	for i, q := range d.pending {
		if q == p {
			d.pending = append(append([]*pend(nil), d.pending[:i]...), d.pending[i+1:]...)
			return
		}
	}
}

// Fsck, after a crash, replaces the mirror of what was acknowledged by what
// the stores really hold, once it has checked that they may hold that.
func (d *Disk) Fsck() {
	if d.Real == nil {
		return
	}
	pending := append(d.pending, d.unsure...)
	d.pending, d.unsure = nil, nil
	in := func(fn func()) {
		g := dst.NewGroup("fsck")
		dst.GoIn(g, "fsck", fn).Join()
		dst.Kill(g)
	}
	d.Real.Inspect(func() {
		in(func() {
			for _, path := range sortedFiles(d.Files) {
				m := d.Files[path]
				db, err := d.Real.Open(path)
				if err != nil {
					dst.Fail("durable", "after a crash the store %s cannot be opened: %v", path, err)
				}
				keys := map[string]bool{}
				for k := range m {
					keys[k] = true
				}
				for _, p := range pending {
					if p.path == path {
						keys[p.key] = true
					}
				}
				var ks []string
				for k := range keys {
					ks = append(ks, k)
				}
				sort.Strings(ks)
				for _, k := range ks {
					ok, err := db.Has([]byte(k))
					if err != nil {
						dst.Fail("durable", "after a crash asking the store for %q fails: %v", k, err)
					}
					var v []byte
					if ok {
						if v, err = db.Get([]byte(k)); err != nil {
							dst.Fail("durable", "after a crash reading %q fails: %v", k, err)
						}
						v = append([]byte{}, v...)
					}
					w, had := m[k]
					fine := ok == had && (!ok || string(v) == string(w))
					for _, p := range pending {
						if p.path == path && p.key == k && (ok == (p.val != nil)) && (!ok || string(p.val) == string(v)) {
							fine = true
						}
					}
					if !fine {
						dst.Fail("durable", "after a crash the store holds %d bytes (%v) for %q, which is neither what it acknowledged (%d bytes, %v) nor a change under way", len(v), ok, k, len(w), had)
					}
					delete(m, k)
					if ok {
						m[k] = v
					}
				}
				db.Close()
			}
		})
	})
}

// Put stores a record between lives.
func (d *Disk) Put(path, key string, val []byte) {
	d.Files[path][key] = val
	if d.Real == nil {
		return
	}
	g := dst.NewGroup("put")
	dst.GoIn(g, "put", func() {
		db, err := d.Real.Open(path)
		if err == nil {
			err = db.Set([]byte(key), val)
			db.Close()
		}
		if err != nil {
			dst.Fail("durable", "a record cannot be put into %s: %v", path, err)
		}
	}).Join()
	dst.Kill(g)
}

func sortedFiles(m map[string]map[string][]byte) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// NewDisk makes an empty disk.
func NewDisk() *Disk {
	d := &Disk{Files: map[string]map[string][]byte{}, open: map[string]*simDB{}, Counts: map[string]int{}, Failed: map[string]bool{}}
	d.ResetFaults()
	return d
}

// ResetFaults clears fault schedules (for the next process life).
func (d *Disk) ResetFaults() {
	d.SetErr, d.SetErrAfter, d.DelErr, d.Stall = map[int]bool{}, map[int]bool{}, map[int]bool{}, map[int]bool{}
	d.CrashSetBefore, d.CrashSetAfter, d.CrashDelBefore, d.CrashDelAfter, d.CrashScan = -1, -1, -1, -1, -1
	d.OpenErr = map[string]bool{}
	d.nSet, d.nDel, d.nScan = 0, 0, 0
	d.AllStall = false
	d.Crash = nil
	d.CloseErr = false
}

// Release drops the locks of a process that died.
func (d *Disk) Release() {
	for _, db := range d.open {
		db.closed = true
	}
	d.open = map[string]*simDB{}
}

// Keys lists all keys of all files with their values.
func (d *Disk) Keys() map[string][]byte {
	if len(d.unsure) > 0 {
		d.Fsck()
	}
	out := map[string][]byte{}
	for _, f := range d.Files {
		for k, v := range f {
			out[k] = v
		}
	}
	return out
}

type simDB struct {
	d      *Disk
	path   string
	m      map[string][]byte
	closed bool
	real   store.Store
}

var errIO = errors.New("simulated I/O error")
var errClosed = errors.New("simulated store: closed")
var errLocked = errors.New("simulated store: resource temporarily unavailable")

// curDisks tells which disk a process uses.
var curDisks = map[*dst.Group]*Disk{}

// SetDisk gives a process its disk.
func SetDisk(g *dst.Group, d *Disk) { curDisks[g] = d }

// ForgetDisks is called between runs.
func ForgetDisks() { curDisks = map[*dst.Group]*Disk{} }

var _ = func() bool { store.RegisterStore("sim", openSim); return true }()

func openSim(path string) (store.Store, error) {
	dst.Y(0)
	d := curDisks[dst.CurrentGroup()]
	if d == nil {
		return nil, errors.New("no disk")
	}
	d.Counts["open"]++
	if d.OpenErr[path] {
		d.Counts["fault.open_error"]++
		return nil, errIO
	}
	for d.open[path] != nil {
		return nil, errLocked
	}
	m := d.Files[path]
	if m == nil {
		m = map[string][]byte{}
		d.Files[path] = m
	}
	db := &simDB{d: d, path: path, m: m}
	if d.Real != nil {
		r, err := d.Real.Open(path)
		if err != nil {
			dst.Fail("store", "the store %s does not open: %v", path, err)
		}
		db.real = r
	}
	d.open[path] = db
	return db, nil
}

func (b *simDB) gate(n int) {
	dst.Y(0)
	if b.d.Stall[n] || b.d.AllStall {
		b.d.Counts["fault.stall"]++
		dst.Sleep(b.d.StallFor)
	}
}

func (b *simDB) crash() {
	b.d.Counts["fault.crash_at_store"]++
	if b.d.Crash != nil {
		b.d.Crash()
	}
}

func (b *simDB) Set(k, v []byte) error {
	n := b.d.nSet
	b.d.nSet++
	key := string(k)
	val := append([]byte(nil), v...)
	b.gate(n)
	if dst.Unwinding() {
		return errClosed
	}
	if b.closed {
		b.d.UseAfterClose++
		return errClosed
	}
	if n == b.d.CrashSetBefore {
		b.crash()
	}
	if b.d.SetErr[n] {
		b.d.Counts["fault.set_error"]++
		b.d.Failed[key] = true
		return errIO
	}
	if b.real != nil {
		if err := b.change(key, val, func() error { return b.real.Set(k, v) }); err != nil {
			return err
		}
	} else {
		b.m[key] = val
	}
	dst.Event(dst.HashStr("set" + key))
	if b.d.Log != nil {
		b.d.Log("set", key)
	}
	if n == b.d.CrashSetAfter {
		b.crash()
	}
	dst.Y(0)
	if b.d.SetErrAfter[n] {
		b.d.Counts["fault.set_error_after"]++
		b.d.Failed[key] = true
		return errIO
	}
	b.d.Counts["set"]++
	return nil
}

// change performs a change of the real store.
func (b *simDB) change(key string, val []byte, f func() error) error {
	p := b.d.begin(b.path, key, val)
	err := f()
	if dst.Unwinding() {
		return errClosed
	}
	if err != nil {
		dst.Fail("store", "a change of %q in %s fails without a fault: %v", key, b.path, err)
	}
	b.d.end(p)
	if p.crossed {
		// which came last is the store's to say: ask it when it is quiet
		b.d.unsure = append(b.d.unsure, p)
	}
	if val == nil {
		delete(b.m, key)
	} else {
		b.m[key] = val
	}
	return nil
}

func (b *simDB) Get(k []byte) ([]byte, error) {
	dst.Y(0)
	if b.closed {
		return nil, errClosed
	}
	if b.real != nil {
		return b.real.Get(k)
	}
	v, ok := b.m[string(k)]
	if !ok {
		return nil, errors.New("not found")
	}
	return append([]byte(nil), v...), nil
}

func (b *simDB) Delete(k []byte) error {
	n := b.d.nDel
	b.d.nDel++
	key := string(k)
	b.gate(-1)
	if dst.Unwinding() {
		return errClosed
	}
	if b.closed {
		b.d.UseAfterClose++
		return errClosed
	}
	if n == b.d.CrashDelBefore {
		b.crash()
	}
	if b.d.DelErr[n] {
		b.d.Counts["fault.delete_error"]++
		b.d.Failed[key] = true
		return errIO
	}
	if b.real != nil {
		if err := b.change(key, nil, func() error { return b.real.Delete(k) }); err != nil {
			return err
		}
	} else {
		delete(b.m, key)
	}
	dst.Event(dst.HashStr("del" + key))
	if b.d.Log != nil {
		b.d.Log("del", key)
	}
	if n == b.d.CrashDelAfter {
		b.crash()
	}
	dst.Y(0)
	b.d.Counts["delete"]++
	return nil
}

func (b *simDB) Has(k []byte) (bool, error) {
	dst.Y(0)
	if b.closed {
		return false, errClosed
	}
	if b.real != nil {
		return b.real.Has(k)
	}
	_, ok := b.m[string(k)]
	return ok, nil
}

// ForEach walks a snapshot in key order. The slices given to fn are valid only
// during the call, as with the real engines: they are overwritten afterwards.
func (b *simDB) ForEach(fn func(k, v []byte) error) error {
	dst.Y(0)
	if b.closed {
		return errClosed
	}
	if b.real != nil {
		return b.real.ForEach(func(k, v []byte) error {
			dst.Y(0)
			n := b.d.nScan
			b.d.nScan++
			if n == b.d.CrashScan {
				b.crash()
			}
			return fn(k, v)
		})
	}
	keys := make([]string, 0, len(b.m))
	for k := range b.m {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	snap := make([][]byte, len(keys))
	for i, k := range keys {
		snap[i] = b.m[k]
	}
	var kb, vb []byte
	for i, k := range keys {
		dst.Y(0)
		n := b.d.nScan
		b.d.nScan++
		if n == b.d.CrashScan {
			b.crash()
		}
		kb = append(kb[:0], k...)
		vb = append(vb[:0], snap[i]...)
		err := fn(kb, vb)
		for j := range kb {
			kb[j] = 0xAA
		}
		for j := range vb {
			vb[j] = 0xAA
		}
		if err != nil {
			return err
		}
		if dst.Unwinding() {
			return errClosed
		}
	}
	return nil
}

func (b *simDB) Close() error {
	dst.Y(0)
	if dst.Unwinding() {
		return nil
	}
	if b.closed {
		return nil
	}
	if b.real != nil {
		err := b.real.Close()
		if dst.Unwinding() {
			return nil
		}
		if err != nil {
			dst.Fail("store", "closing %s fails without a fault: %v", b.path, err)
		}
	}
	b.closed = true
	if b.d.open[b.path] == b {
		delete(b.d.open, b.path)
	}
	if b.d.CloseErr {
		b.d.Counts["fault.close_error"]++
		return errIO
	}
	return nil
}

func (b *simDB) WALName() string { return strings.TrimSpace(b.path) }
