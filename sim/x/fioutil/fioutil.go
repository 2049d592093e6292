// Package fioutil is io/ioutil over the simulated file system.
package ioutil

import (
	"io"
	real "io/ioutil"
	"os"

	fos "verif.local/sim/x/fos"
)

func ReadFile(p string) ([]byte, error)                 { return real.ReadFile(p) }
func WriteFile(p string, b []byte, m os.FileMode) error { return fos.WriteFile(p, b, m) }
func ReadDir(p string) ([]os.FileInfo, error)           { return real.ReadDir(p) }
func ReadAll(r io.Reader) ([]byte, error)               { return real.ReadAll(r) }
func TempDir(dir, pattern string) (string, error)       { return "", os.ErrPermission }

var Discard = real.Discard
