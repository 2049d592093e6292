// Package runtime stands in for the standard package.
package runtime

import "verif.local/sim/dst"

func Gosched()             { dst.Gosched() }
func NumCPU() int          { return 2 }
func GOMAXPROCS(n int) int { return 2 }
func NumGoroutine() int    { return 1 }
func GC()                  {}

// SetFinalizer does nothing: collection is not part of the simulation.
func SetFinalizer(obj, fin interface{}) {}

// AddCleanup does nothing either.
func AddCleanup[T, S any](ptr *T, cleanup func(S), arg S) Cleanup { return Cleanup{} }
