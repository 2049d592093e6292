// Package flag stands in for the standard package: a fresh flag set per
// simulated process, and no real command line.
package flag

import (
	real "flag"
	"io"
	"time"

	"verif.local/sim/dst"
)

// Args of the simulated process.
var CmdArgs []string

var sets = map[*dst.Group]*real.FlagSet{}
var ep uint32

func cl() *real.FlagSet {
	if ep != dst.Epoch() {
		ep, sets = dst.Epoch(), map[*dst.Group]*real.FlagSet{}
	}
	g := dst.CurrentGroup()
	f := sets[g]
	if f == nil {
		f = real.NewFlagSet("sim", real.PanicOnError)
		f.SetOutput(io.Discard)
		sets[g] = f
	}
	return f
}

func String(n, v, u string) *string                  { return cl().String(n, v, u) }
func Int(n string, v int, u string) *int             { return cl().Int(n, v, u) }
func Bool(n string, v bool, u string) *bool          { return cl().Bool(n, v, u) }
func Int64(n string, v int64, u string) *int64       { return cl().Int64(n, v, u) }
func Uint(n string, v uint, u string) *uint          { return cl().Uint(n, v, u) }
func Float64(n string, v float64, u string) *float64 { return cl().Float64(n, v, u) }
func Duration(n string, v time.Duration, u string) *time.Duration {
	return cl().Duration(n, v, u)
}
func StringVar(p *string, n, v, u string)         { cl().StringVar(p, n, v, u) }
func IntVar(p *int, n string, v int, u string)    { cl().IntVar(p, n, v, u) }
func BoolVar(p *bool, n string, v bool, u string) { cl().BoolVar(p, n, v, u) }
func Parse()                                      { cl().Parse(CmdArgs) }
func Parsed() bool                                { return cl().Parsed() }
func Args() []string                              { return cl().Args() }
func Arg(i int) string                            { return cl().Arg(i) }
func NArg() int                                   { return cl().NArg() }
func Lookup(n string) *real.Flag                  { return cl().Lookup(n) }
func Set(n, v string) error                       { return cl().Set(n, v) }
