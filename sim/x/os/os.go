// Package os stands in for the standard package: process exit is simulated,
// and what writes, renames or removes files is confined to the run's scratch
// directory (anything else is refused and recorded).
package os

import (
	"errors"
	real "os"
	"path/filepath"
	"strings"

	"verif.local/sim/dst"
)

// Scratch is the only directory the code under test may change.
var Scratch string

// MkdirFault, when set, decides the outcome of MkdirAll.
var MkdirFault func(path string) error

// Getenv values of the simulated process.
var Env = map[string]string{}

// Escapes records refused paths.
var Escapes []string

func ok(path string) bool {
	if dst.Unwinding() && dst.Active() {
		return false
	}
	p, err := filepath.Abs(path)
	if err != nil {
		return false
	}
	if Scratch != "" && strings.HasPrefix(p, Scratch+"/") {
		return true
	}
	if len(Escapes) < 100 {
		Escapes = append(Escapes, path)
	}
	return false
}

var errRefused = errors.New("operation not permitted (simulated)")

func Exit(code int) { dst.Exit("os.Exit") }

func Getenv(k string) string { return Env[k] }
func LookupEnv(k string) (string, bool) {
	v, ok := Env[k]
	return v, ok
}
func Setenv(k, v string) error { Env[k] = v; return nil }
func Unsetenv(k string) error  { delete(Env, k); return nil }

// MkdirAll succeeds without effect outside the scratch directory.
func MkdirAll(path string, perm real.FileMode) error {
	dst.Y(0)
	if MkdirFault != nil {
		if err := MkdirFault(path); err != nil {
			return err
		}
	}
	if Scratch != "" && strings.HasPrefix(path, Scratch+"/") && ok(path) {
		return real.MkdirAll(path, perm)
	}
	return nil
}

func Mkdir(path string, perm real.FileMode) error { return MkdirAll(path, perm) }

func Remove(path string) error {
	if !ok(path) {
		return errRefused
	}
	return real.Remove(path)
}
func RemoveAll(path string) error {
	if !ok(path) {
		return errRefused
	}
	return real.RemoveAll(path)
}
func Rename(a, b string) error {
	if !ok(a) || !ok(b) {
		return errRefused
	}
	return real.Rename(a, b)
}
func WriteFile(p string, d []byte, m real.FileMode) error {
	if !ok(p) {
		return errRefused
	}
	return real.WriteFile(p, d, m)
}
func Create(p string) (*real.File, error) {
	if !ok(p) {
		return nil, errRefused
	}
	return real.Create(p)
}
func OpenFile(p string, flag int, m real.FileMode) (*real.File, error) {
	if flag&(real.O_WRONLY|real.O_RDWR|real.O_CREATE|real.O_TRUNC|real.O_APPEND) != 0 && !ok(p) {
		return nil, errRefused
	}
	return real.OpenFile(p, flag, m)
}
func Truncate(p string, n int64) error {
	if !ok(p) {
		return errRefused
	}
	return real.Truncate(p, n)
}
func Chmod(p string, m real.FileMode) error {
	if !ok(p) {
		return errRefused
	}
	return real.Chmod(p, m)
}
func Chdir(p string) error           { return errRefused }
func Chown(p string, a, b int) error { return errRefused }
func Link(a, b string) error         { return errRefused }
func Symlink(a, b string) error      { return errRefused }
func StartProcess(string, []string, *real.ProcAttr) (*real.Process, error) {
	return nil, errRefused
}
func FindProcess(int) (*real.Process, error) { return nil, errRefused }
