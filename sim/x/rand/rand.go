// Package rand stands in for math/rand: the global source is the run's own.
package rand

import (
	real "math/rand"

	"verif.local/sim/dst"
)

type src struct{}

func (src) Int63() int64    { return int64(dst.Rand() >> 1) }
func (src) Uint64() uint64  { return dst.Rand() }
func (src) Seed(seed int64) {}

var g = real.New(src{})

func Seed(int64)                       {}
func Int63() int64                     { return g.Int63() }
func Uint32() uint32                   { return g.Uint32() }
func Uint64() uint64                   { return g.Uint64() }
func Int31() int32                     { return g.Int31() }
func Int() int                         { return g.Int() }
func Int63n(n int64) int64             { return g.Int63n(n) }
func Int31n(n int32) int32             { return g.Int31n(n) }
func Intn(n int) int                   { return g.Intn(n) }
func Float64() float64                 { return g.Float64() }
func Float32() float32                 { return g.Float32() }
func Perm(n int) []int                 { return g.Perm(n) }
func Shuffle(n int, f func(i, j int))  { g.Shuffle(n, f) }
func Read(p []byte) (int, error)       { return g.Read(p) }
func NormFloat64() float64             { return g.NormFloat64() }
func ExpFloat64() float64              { return g.ExpFloat64() }
func NewSource(seed int64) real.Source { return real.NewSource(seed) }
