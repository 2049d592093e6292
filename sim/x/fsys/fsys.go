// Package fsys is the part of syscall and x/sys/unix that the database
// libraries use, over the simulated file system.
package syscall

import (
	real "syscall"
	"unsafe"

	fos "verif.local/sim/x/fos"
)

const (
	LOCK_NB      = real.LOCK_NB
	LOCK_EX      = real.LOCK_EX
	LOCK_SH      = real.LOCK_SH
	LOCK_UN      = real.LOCK_UN
	EWOULDBLOCK  = real.EWOULDBLOCK
	EINVAL       = real.EINVAL
	ENOSYS       = real.ENOSYS
	ENOENT       = real.ENOENT
	EAGAIN       = real.EAGAIN
	PROT_READ    = real.PROT_READ
	PROT_WRITE   = real.PROT_WRITE
	MAP_SHARED   = real.MAP_SHARED
	MADV_RANDOM  = real.MADV_RANDOM
	MADV_NORMAL  = real.MADV_NORMAL
	O_DSYNC      = real.O_DSYNC
	SYS_MADVISE  = real.SYS_MADVISE
	SYS_MSYNC    = real.SYS_MSYNC
	MS_SYNC      = real.MS_SYNC
	MAP_POPULATE = real.MAP_POPULATE
)

type Errno = real.Errno
type Stat_t = real.Stat_t

func Flock(fd, how int) error { return real.Flock(fd, how) }
func Fdatasync(fd int) error  { return fos.SyncFd(fd) }
func Fsync(fd int) error      { return fos.SyncFd(fd) }

// Mmap goes around the standard package, whose table of mappings Munmap below
// would leave behind.
func Mmap(fd int, off int64, n, prot, flags int) ([]byte, error) {
	if n <= 0 {
		return nil, real.EINVAL
	}
	p, _, e := real.Syscall6(real.SYS_MMAP, 0, uintptr(n), uintptr(prot), uintptr(flags), uintptr(fd), uintptr(off))
	if e != 0 {
		return nil, e
	}
	b := unsafe.Slice((*byte)(*(*unsafe.Pointer)(unsafe.Pointer(&p))), n)
	fos.Mapped(b)
	return b, nil
}

func Munmap(b []byte) error {
	if len(b) == 0 {
		return real.EINVAL
	}
	b = b[:cap(b)]
	fos.Unmapped(b)
	return fos.Retire(b)
}

func Madvise(b []byte, how int) error { return real.Madvise(b, how) }

func Syscall(trap, a, b, c uintptr) (uintptr, uintptr, real.Errno) {
	if trap != real.SYS_MADVISE {
		return 0, 0, real.ENOSYS
	}
	return real.Syscall(trap, a, b, c)
}
