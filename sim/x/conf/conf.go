// Package conf stands in for go-vgo/gt/conf: files are read by the library, and
// never change while a run lasts.
package conf

import (
	real "github.com/go-vgo/gt/conf"

	"verif.local/sim/dst"
)

func Init(path string, config interface{}) error { dst.Y(0); return real.Init(path, config) }

// Watch waits for a change that never comes.
func Watch(path string, config interface{}) {
	var never dst.Cell
	never.Wait("config file")
}

func NewWatcher(path string, config interface{}) { Watch(path, config) }
