// Package fos is the file system seam of the database libraries: the standard
// os package with every change of a file counted, remembered for a power loss
// and subject to faults. The files themselves are real ones in the run's
// scratch directory (the libraries map them into memory).
package os

import (
	"errors"
	"io"
	real "os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"
	"unsafe"
)

// Sim is one simulated machine's file system.
type Sim struct {
	mu    sync.Mutex
	Root  string // nothing outside is ever changed
	nodes map[string]*node
	fds   map[int]*File
	maps  map[*byte][]byte
	// Ops counts changes: writes, syncs, creations, renames, removals, truncations.
	Ops int
	// Decide is asked before change number n; limit >= 0 cuts a write short.
	Decide func(n int, kind, path string, size int) (limit int, err error)
	// Snap, at change number SnapAt, receives the state of the disk: after the
	// process died (what the kernel has), or after power was lost.
	SnapAt   int
	Power    bool
	dead     bool
	Keep     func() bool // power loss: does this unsynced write survive?
	Snap     map[string][]byte
	SnapDone bool
	OnSnap   func()
	// Reader is asked after every read and may spoil it.
	Reader  func(path string, b []byte, n int, err error) (int, error)
	Escapes int
}

type node struct {
	synced  []byte
	pending []wr
}

type wr struct {
	off   int64
	data  []byte
	trunc bool
}

// Cur is the file system in use.
var Cur *Sim

// NewSim makes a file system over an empty directory.
func NewSim(root string) *Sim {
	return &Sim{Root: root, nodes: map[string]*node{}, fds: map[int]*File{}, maps: map[*byte][]byte{}, SnapAt: -1}
}

// Load fills the directory with a snapshot.
func (s *Sim) Load(files map[string][]byte) error {
	for p, b := range files {
		full := filepath.Join(s.Root, p)
		if err := real.MkdirAll(filepath.Dir(full), 0o755); err != nil {
			return err
		}
		if b == nil {
			if err := real.MkdirAll(full, 0o755); err != nil {
				return err
			}
			continue
		}
		if err := real.WriteFile(full, b, 0o644); err != nil {
			return err
		}
		s.nodes[full] = &node{synced: append([]byte(nil), b...)}
	}
	return nil
}

func (n *node) apply(w wr) {
	if w.trunc {
		if int64(len(n.synced)) > w.off {
			n.synced = n.synced[:w.off]
		}
		for int64(len(n.synced)) < w.off {
			n.synced = append(n.synced, 0)
		}
		return
	}
	for int64(len(n.synced)) < w.off+int64(len(w.data)) {
		n.synced = append(n.synced, make([]byte, w.off+int64(len(w.data))-int64(len(n.synced)))...)
	}
	copy(n.synced[w.off:], w.data)
}

func (n *node) sync() {
	for _, w := range n.pending {
		n.apply(w)
	}
	n.pending = nil
}

// TakeSnap records the state of the disk now.
func (s *Sim) TakeSnap() {
	if s.SnapDone {
		return
	}
	s.SnapDone = true
	s.Snap = map[string][]byte{}
	filepath.Walk(s.Root, func(p string, fi real.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		rel, _ := filepath.Rel(s.Root, p)
		if rel == "." {
			return nil
		}
		if fi.IsDir() {
			s.Snap[rel] = nil
			return nil
		}
		if !fi.Mode().IsRegular() {
			return nil
		}
		if !s.Power {
			b, err := real.ReadFile(p)
			if err == nil {
				if b == nil {
					b = []byte{}
				}
				s.Snap[rel] = b
			}
			return nil
		}
		n := s.nodes[p]
		if n == nil {
			s.Snap[rel] = []byte{}
			return nil
		}
		c := &node{synced: append([]byte{}, n.synced...)}
		for _, w := range n.pending {
			if s.Keep != nil && s.Keep() {
				c.apply(w)
			}
		}
		s.Snap[rel] = c.synced
		return nil
	})
	if s.OnSnap != nil {
		s.OnSnap()
	}
}

// Files lists the snapshot's files.
func (s *Sim) Files() []string {
	var fs []string
	for f := range s.Snap {
		fs = append(fs, f)
	}
	sort.Strings(fs)
	return fs
}

// Close releases what a dead process left open.
func (s *Sim) Close() {
	s.mu.Lock()
	defer s.mu.Unlock()
	for _, f := range s.fds {
		f.f.Close()
	}
	s.fds = map[int]*File{}
	// goroutines of the dead process that are real may still be reading
	now := time.Now()
	graveMu.Lock()
	defer graveMu.Unlock()
	for _, m := range s.maps {
		graves = append(graves, grave{m, now})
	}
	for len(graves) > 0 && now.Sub(graves[0].since) > 5*time.Second {
		Retire(graves[0].m)
		graves = graves[1:]
	}
	s.maps = map[*byte][]byte{}
	s.dead = true
}

// graves holds the mappings of dead processes for a while.
var (
	graveMu sync.Mutex
	graves  []grave
)

type grave struct {
	m     []byte
	since time.Time
}

// Guard is deferred, as Guard()(), by the goroutines that stay real: a failure
// after the end of the process they belong to is nobody's.
func Guard() func() {
	s := Cur
	debug.SetPanicOnFault(true)
	return func() {
		if s == nil {
			return
		}
		s.mu.Lock()
		dead := s.dead
		s.mu.Unlock()
		if dead {
			recover()
		}
	}
}

// Open files and mappings (for leak checks).
func (s *Sim) Open() int { s.mu.Lock(); defer s.mu.Unlock(); return len(s.fds) }

func in(path string) (*Sim, bool) {
	s := Cur
	if s == nil {
		return nil, false
	}
	p, err := filepath.Abs(path)
	if err != nil || !strings.HasPrefix(p, s.Root+"/") && p != s.Root {
		return s, false
	}
	return s, true
}

var errRefused = errors.New("operation not permitted (outside the scratch directory)")

// change gates one change; called with s.mu held.
func (s *Sim) change(kind, path string, size int) (int, error) {
	n := s.Ops
	s.Ops++
	if n == s.SnapAt {
		s.TakeSnap()
	}
	if s.Decide != nil && !s.SnapDone {
		return s.Decide(n, kind, path, size)
	}
	return -1, nil
}

func (s *Sim) node(p string) *node {
	p, _ = filepath.Abs(p)
	n := s.nodes[p]
	if n == nil {
		n = &node{}
		s.nodes[p] = n
	}
	return n
}

// File is an open file.
type File struct {
	f     *real.File
	s     *Sim
	n     *node
	name  string
	pos   int64
	dsync bool
	app   bool
}

func perr(op, path string, err error) error {
	return &real.PathError{Op: op, Path: path, Err: err}
}

// OpenFile opens a file below the root.
func OpenFile(name string, flag int, perm real.FileMode) (*File, error) {
	s, ok := in(name)
	mut := flag&(real.O_WRONLY|real.O_RDWR|real.O_CREATE|real.O_TRUNC|real.O_APPEND) != 0
	if s == nil || !ok {
		if mut {
			if s != nil {
				s.Escapes++
			}
			return nil, errRefused
		}
		f, err := real.OpenFile(name, flag, perm)
		if err != nil {
			return nil, err
		}
		return &File{f: f, name: name}, nil
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	_, err := real.Lstat(name)
	isNew := err != nil
	if flag&real.O_CREATE != 0 && isNew || flag&real.O_TRUNC != 0 {
		if _, err := s.change("create", name, 0); err != nil {
			return nil, perr("open", name, err)
		}
	}
	f, err := real.OpenFile(name, flag&^real.O_SYNC&^syscall.O_DSYNC, perm)
	if err != nil {
		return nil, err
	}
	x := &File{f: f, s: s, name: name, n: s.node(name), dsync: flag&(real.O_SYNC|syscall.O_DSYNC) != 0, app: flag&real.O_APPEND != 0}
	if isNew {
		x.n.synced, x.n.pending = nil, nil
	} else if flag&real.O_TRUNC != 0 {
		x.n.pending = append(x.n.pending, wr{trunc: true})
	}
	s.fds[int(f.Fd())] = x
	syscall.SetNonblock(int(f.Fd()), true)
	return x, nil
}

func Open(name string) (*File, error) { return OpenFile(name, real.O_RDONLY, 0) }
func Create(name string) (*File, error) {
	return OpenFile(name, real.O_RDWR|real.O_CREATE|real.O_TRUNC, 0o666)
}

func (f *File) Name() string { return f.name }
func (f *File) Fd() uintptr  { return f.f.Fd() }

func (f *File) lock() func() {
	if f.s == nil {
		return func() {}
	}
	f.s.mu.Lock()
	return f.s.mu.Unlock
}

func (f *File) put(b []byte, off int64) (int, error) {
	if f.s == nil {
		return 0, errRefused
	}
	lim, err := f.s.change("write", f.name, len(b))
	if err != nil && lim < 0 {
		return 0, perr("write", f.name, err)
	}
	w := b
	if lim >= 0 && lim < len(b) {
		w = b[:lim]
	}
	n, e := f.f.WriteAt(w, off)
	if e != nil {
		return n, e
	}
	f.n.pending = append(f.n.pending, wr{off: off, data: append([]byte(nil), w...)})
	if f.dsync {
		f.n.sync()
	}
	if err != nil {
		return n, perr("write", f.name, err)
	}
	return n, nil
}

func (f *File) Write(b []byte) (int, error) {
	defer f.lock()()
	if f.app {
		st, err := f.f.Stat()
		if err != nil {
			return 0, err
		}
		f.pos = st.Size()
		// WriteAt is refused on append files
		g, err := real.OpenFile(f.name, real.O_WRONLY, 0)
		if err != nil {
			return 0, err
		}
		defer g.Close()
		save := f.f
		f.f = g
		n, err := f.put(b, f.pos)
		f.f = save
		f.pos += int64(n)
		return n, err
	}
	n, err := f.put(b, f.pos)
	f.pos += int64(n)
	return n, err
}

func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

func (f *File) WriteAt(b []byte, off int64) (int, error) {
	defer f.lock()()
	return f.put(b, off)
}

func (f *File) Read(b []byte) (int, error) {
	defer f.lock()()
	if len(b) == 0 {
		return 0, nil
	}
	n, err := f.f.ReadAt(b, f.pos)
	if n > 0 && err == io.EOF {
		err = nil
	}
	n, err = f.spoil(b, n, err)
	f.pos += int64(n)
	return n, err
}

func (f *File) ReadAt(b []byte, off int64) (int, error) {
	n, err := f.f.ReadAt(b, off)
	return f.spoil(b, n, err)
}

func (f *File) spoil(b []byte, n int, err error) (int, error) {
	if s := Cur; s != nil && s.Reader != nil {
		return s.Reader(f.f.Name(), b, n, err)
	}
	return n, err
}

func (f *File) Seek(off int64, whence int) (int64, error) {
	defer f.lock()()
	switch whence {
	case io.SeekStart:
	case io.SeekCurrent:
		off += f.pos
	case io.SeekEnd:
		st, err := f.f.Stat()
		if err != nil {
			return 0, err
		}
		off += st.Size()
	}
	if off < 0 {
		return 0, perr("seek", f.name, syscall.EINVAL)
	}
	f.pos = off
	return off, nil
}

func (f *File) Truncate(size int64) error {
	defer f.lock()()
	if f.s == nil {
		return errRefused
	}
	if _, err := f.s.change("truncate", f.name, 0); err != nil {
		return perr("truncate", f.name, err)
	}
	if err := f.f.Truncate(size); err != nil {
		return err
	}
	f.n.pending = append(f.n.pending, wr{off: size, trunc: true})
	if f.dsync {
		f.n.sync()
	}
	return nil
}

// Sync makes the file's writes durable.
func (f *File) Sync() error {
	defer f.lock()()
	return f.sync()
}

func (f *File) sync() error {
	if f.s == nil {
		return nil
	}
	if _, err := f.s.change("sync", f.name, 0); err != nil {
		return perr("sync", f.name, err)
	}
	f.n.sync()
	return nil
}

// SyncFd is fdatasync.
func SyncFd(fd int) error {
	s := Cur
	if s == nil {
		return syscall.EBADF
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	f := s.fds[fd]
	if f == nil {
		return syscall.EBADF
	}
	return f.sync()
}

// Mapped and Unmapped track memory mappings.
func Mapped(b []byte) {
	if s := Cur; s != nil && len(b) > 0 {
		s.mu.Lock()
		s.maps[&b[0]] = b
		s.mu.Unlock()
	}
}

// Retire unmaps b but keeps its addresses out of use, so that a stale pointer
// into it faults every time and never points into something new.
func Retire(b []byte) error {
	_, _, e := syscall.Syscall6(syscall.SYS_MMAP, uintptr(unsafe.Pointer(&b[0])), uintptr((len(b)+4095)&^4095), syscall.PROT_NONE,
		syscall.MAP_FIXED|syscall.MAP_PRIVATE|syscall.MAP_ANON|syscall.MAP_NORESERVE, ^uintptr(0), 0)
	if e != 0 {
		return e
	}
	return nil
}

func Unmapped(b []byte) {
	if s := Cur; s != nil && len(b) > 0 {
		s.mu.Lock()
		delete(s.maps, &b[0])
		s.mu.Unlock()
	}
}

func (f *File) Close() error {
	defer f.lock()()
	if f.s != nil && f.f != nil {
		delete(f.s.fds, int(f.f.Fd()))
	}
	return f.f.Close()
}

func (f *File) Stat() (real.FileInfo, error)           { return f.f.Stat() }
func (f *File) Chmod(m real.FileMode) error            { return f.f.Chmod(m) }
func (f *File) Readdir(n int) ([]real.FileInfo, error) { return f.f.Readdir(n) }
func (f *File) Readdirnames(n int) ([]string, error) {
	ns, err := f.f.Readdirnames(n)
	sort.Strings(ns)
	return ns, err
}

func Rename(a, b string) error {
	s, ok1 := in(a)
	_, ok2 := in(b)
	if !ok1 || !ok2 {
		return errRefused
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	if _, err := s.change("rename", a, 0); err != nil {
		return &real.LinkError{Op: "rename", Old: a, New: b, Err: err}
	}
	if err := real.Rename(a, b); err != nil {
		return err
	}
	pa, _ := filepath.Abs(a)
	pb, _ := filepath.Abs(b)
	if n := s.nodes[pa]; n != nil {
		s.nodes[pb] = n
		delete(s.nodes, pa)
	}
	return nil
}

func Remove(p string) error {
	s, ok := in(p)
	if !ok {
		return errRefused
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	if _, err := real.Lstat(p); err == nil {
		if _, err := s.change("remove", p, 0); err != nil {
			return perr("remove", p, err)
		}
	}
	if err := real.Remove(p); err != nil {
		return err
	}
	pa, _ := filepath.Abs(p)
	delete(s.nodes, pa)
	return nil
}

func RemoveAll(p string) error {
	_, ok := in(p)
	if !ok {
		return errRefused
	}
	return real.RemoveAll(p)
}

func MkdirAll(p string, m real.FileMode) error {
	s, ok := in(p)
	if !ok {
		return errRefused
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	if _, err := real.Stat(p); err != nil {
		if _, err := s.change("mkdir", p, 0); err != nil {
			return perr("mkdir", p, err)
		}
	}
	return real.MkdirAll(p, m)
}

func Mkdir(p string, m real.FileMode) error {
	s, ok := in(p)
	if !ok {
		return errRefused
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	if _, err := s.change("mkdir", p, 0); err != nil {
		return perr("mkdir", p, err)
	}
	return real.Mkdir(p, m)
}

func WriteFile(p string, b []byte, m real.FileMode) error {
	f, err := OpenFile(p, real.O_WRONLY|real.O_CREATE|real.O_TRUNC, m)
	if err != nil {
		return err
	}
	n, err := f.Write(b)
	if err == nil && n < len(b) {
		err = io.ErrShortWrite
	}
	if e := f.Close(); err == nil {
		err = e
	}
	return err
}

func Truncate(p string, n int64) error {
	f, err := OpenFile(p, real.O_WRONLY, 0)
	if err != nil {
		return err
	}
	defer f.Close()
	return f.Truncate(n)
}

func Getpid() int { return 4711 }

// Stderr swallows what the libraries log.
var Stderr, _ = real.OpenFile(real.DevNull, real.O_WRONLY, 0)
