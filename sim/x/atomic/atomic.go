// Package atomic stands in for sync/atomic: the real operation, with a
// preemption point on both sides.
package atomic

import (
	real "sync/atomic"
	"unsafe"

	"verif.local/sim/dst"
)

func LoadInt32(p *int32) int32     { dst.AtomicPoint(false); return real.LoadInt32(p) }
func StoreInt32(p *int32, v int32) { dst.AtomicPoint(true); real.StoreInt32(p, v); dst.Y(0) }
func AddInt32(p *int32, v int32) int32 {
	dst.AtomicPoint(true)
	r := real.AddInt32(p, v)
	dst.Y(0)
	return r
}
func SwapInt32(p *int32, v int32) int32 {
	dst.AtomicPoint(true)
	r := real.SwapInt32(p, v)
	dst.Y(0)
	return r
}
func CompareAndSwapInt32(p *int32, a, b int32) bool {
	dst.AtomicPoint(true)
	r := real.CompareAndSwapInt32(p, a, b)
	dst.Y(0)
	return r
}
func AndInt32(p *int32, v int32) int32 {
	dst.AtomicPoint(true)
	r := real.AndInt32(p, v)
	dst.Y(0)
	return r
}
func OrInt32(p *int32, v int32) int32 {
	dst.AtomicPoint(true)
	r := real.OrInt32(p, v)
	dst.Y(0)
	return r
}

type Int32 struct{ v real.Int32 }

func (x *Int32) Load() int32        { dst.AtomicPoint(false); return x.v.Load() }
func (x *Int32) Store(v int32)      { dst.AtomicPoint(true); x.v.Store(v); dst.Y(0) }
func (x *Int32) Add(v int32) int32  { dst.AtomicPoint(true); r := x.v.Add(v); dst.Y(0); return r }
func (x *Int32) Swap(v int32) int32 { dst.AtomicPoint(true); r := x.v.Swap(v); dst.Y(0); return r }
func (x *Int32) CompareAndSwap(a, b int32) bool {
	dst.AtomicPoint(true)
	r := x.v.CompareAndSwap(a, b)
	dst.Y(0)
	return r
}
func (x *Int32) And(v int32) int32 { dst.AtomicPoint(true); r := x.v.And(v); dst.Y(0); return r }
func (x *Int32) Or(v int32) int32  { dst.AtomicPoint(true); r := x.v.Or(v); dst.Y(0); return r }

func LoadInt64(p *int64) int64     { dst.AtomicPoint(false); return real.LoadInt64(p) }
func StoreInt64(p *int64, v int64) { dst.AtomicPoint(true); real.StoreInt64(p, v); dst.Y(0) }
func AddInt64(p *int64, v int64) int64 {
	dst.AtomicPoint(true)
	r := real.AddInt64(p, v)
	dst.Y(0)
	return r
}
func SwapInt64(p *int64, v int64) int64 {
	dst.AtomicPoint(true)
	r := real.SwapInt64(p, v)
	dst.Y(0)
	return r
}
func CompareAndSwapInt64(p *int64, a, b int64) bool {
	dst.AtomicPoint(true)
	r := real.CompareAndSwapInt64(p, a, b)
	dst.Y(0)
	return r
}
func AndInt64(p *int64, v int64) int64 {
	dst.AtomicPoint(true)
	r := real.AndInt64(p, v)
	dst.Y(0)
	return r
}
func OrInt64(p *int64, v int64) int64 {
	dst.AtomicPoint(true)
	r := real.OrInt64(p, v)
	dst.Y(0)
	return r
}

type Int64 struct{ v real.Int64 }

func (x *Int64) Load() int64        { dst.AtomicPoint(false); return x.v.Load() }
func (x *Int64) Store(v int64)      { dst.AtomicPoint(true); x.v.Store(v); dst.Y(0) }
func (x *Int64) Add(v int64) int64  { dst.AtomicPoint(true); r := x.v.Add(v); dst.Y(0); return r }
func (x *Int64) Swap(v int64) int64 { dst.AtomicPoint(true); r := x.v.Swap(v); dst.Y(0); return r }
func (x *Int64) CompareAndSwap(a, b int64) bool {
	dst.AtomicPoint(true)
	r := x.v.CompareAndSwap(a, b)
	dst.Y(0)
	return r
}
func (x *Int64) And(v int64) int64 { dst.AtomicPoint(true); r := x.v.And(v); dst.Y(0); return r }
func (x *Int64) Or(v int64) int64  { dst.AtomicPoint(true); r := x.v.Or(v); dst.Y(0); return r }

func LoadUint32(p *uint32) uint32     { dst.AtomicPoint(false); return real.LoadUint32(p) }
func StoreUint32(p *uint32, v uint32) { dst.AtomicPoint(true); real.StoreUint32(p, v); dst.Y(0) }
func AddUint32(p *uint32, v uint32) uint32 {
	dst.AtomicPoint(true)
	r := real.AddUint32(p, v)
	dst.Y(0)
	return r
}
func SwapUint32(p *uint32, v uint32) uint32 {
	dst.AtomicPoint(true)
	r := real.SwapUint32(p, v)
	dst.Y(0)
	return r
}
func CompareAndSwapUint32(p *uint32, a, b uint32) bool {
	dst.AtomicPoint(true)
	r := real.CompareAndSwapUint32(p, a, b)
	dst.Y(0)
	return r
}
func AndUint32(p *uint32, v uint32) uint32 {
	dst.AtomicPoint(true)
	r := real.AndUint32(p, v)
	dst.Y(0)
	return r
}
func OrUint32(p *uint32, v uint32) uint32 {
	dst.AtomicPoint(true)
	r := real.OrUint32(p, v)
	dst.Y(0)
	return r
}

type Uint32 struct{ v real.Uint32 }

func (x *Uint32) Load() uint32         { dst.AtomicPoint(false); return x.v.Load() }
func (x *Uint32) Store(v uint32)       { dst.AtomicPoint(true); x.v.Store(v); dst.Y(0) }
func (x *Uint32) Add(v uint32) uint32  { dst.AtomicPoint(true); r := x.v.Add(v); dst.Y(0); return r }
func (x *Uint32) Swap(v uint32) uint32 { dst.AtomicPoint(true); r := x.v.Swap(v); dst.Y(0); return r }
func (x *Uint32) CompareAndSwap(a, b uint32) bool {
	dst.AtomicPoint(true)
	r := x.v.CompareAndSwap(a, b)
	dst.Y(0)
	return r
}
func (x *Uint32) And(v uint32) uint32 { dst.AtomicPoint(true); r := x.v.And(v); dst.Y(0); return r }
func (x *Uint32) Or(v uint32) uint32  { dst.AtomicPoint(true); r := x.v.Or(v); dst.Y(0); return r }

func LoadUint64(p *uint64) uint64     { dst.AtomicPoint(false); return real.LoadUint64(p) }
func StoreUint64(p *uint64, v uint64) { dst.AtomicPoint(true); real.StoreUint64(p, v); dst.Y(0) }
func AddUint64(p *uint64, v uint64) uint64 {
	dst.AtomicPoint(true)
	r := real.AddUint64(p, v)
	dst.Y(0)
	return r
}
func SwapUint64(p *uint64, v uint64) uint64 {
	dst.AtomicPoint(true)
	r := real.SwapUint64(p, v)
	dst.Y(0)
	return r
}
func CompareAndSwapUint64(p *uint64, a, b uint64) bool {
	dst.AtomicPoint(true)
	r := real.CompareAndSwapUint64(p, a, b)
	dst.Y(0)
	return r
}
func AndUint64(p *uint64, v uint64) uint64 {
	dst.AtomicPoint(true)
	r := real.AndUint64(p, v)
	dst.Y(0)
	return r
}
func OrUint64(p *uint64, v uint64) uint64 {
	dst.AtomicPoint(true)
	r := real.OrUint64(p, v)
	dst.Y(0)
	return r
}

type Uint64 struct{ v real.Uint64 }

func (x *Uint64) Load() uint64         { dst.AtomicPoint(false); return x.v.Load() }
func (x *Uint64) Store(v uint64)       { dst.AtomicPoint(true); x.v.Store(v); dst.Y(0) }
func (x *Uint64) Add(v uint64) uint64  { dst.AtomicPoint(true); r := x.v.Add(v); dst.Y(0); return r }
func (x *Uint64) Swap(v uint64) uint64 { dst.AtomicPoint(true); r := x.v.Swap(v); dst.Y(0); return r }
func (x *Uint64) CompareAndSwap(a, b uint64) bool {
	dst.AtomicPoint(true)
	r := x.v.CompareAndSwap(a, b)
	dst.Y(0)
	return r
}
func (x *Uint64) And(v uint64) uint64 { dst.AtomicPoint(true); r := x.v.And(v); dst.Y(0); return r }
func (x *Uint64) Or(v uint64) uint64  { dst.AtomicPoint(true); r := x.v.Or(v); dst.Y(0); return r }

func LoadUintptr(p *uintptr) uintptr     { dst.AtomicPoint(false); return real.LoadUintptr(p) }
func StoreUintptr(p *uintptr, v uintptr) { dst.AtomicPoint(true); real.StoreUintptr(p, v); dst.Y(0) }
func AddUintptr(p *uintptr, v uintptr) uintptr {
	dst.AtomicPoint(true)
	r := real.AddUintptr(p, v)
	dst.Y(0)
	return r
}
func SwapUintptr(p *uintptr, v uintptr) uintptr {
	dst.AtomicPoint(true)
	r := real.SwapUintptr(p, v)
	dst.Y(0)
	return r
}
func CompareAndSwapUintptr(p *uintptr, a, b uintptr) bool {
	dst.AtomicPoint(true)
	r := real.CompareAndSwapUintptr(p, a, b)
	dst.Y(0)
	return r
}
func AndUintptr(p *uintptr, v uintptr) uintptr {
	dst.AtomicPoint(true)
	r := real.AndUintptr(p, v)
	dst.Y(0)
	return r
}
func OrUintptr(p *uintptr, v uintptr) uintptr {
	dst.AtomicPoint(true)
	r := real.OrUintptr(p, v)
	dst.Y(0)
	return r
}

type Uintptr struct{ v real.Uintptr }

func (x *Uintptr) Load() uintptr         { dst.AtomicPoint(false); return x.v.Load() }
func (x *Uintptr) Store(v uintptr)       { dst.AtomicPoint(true); x.v.Store(v); dst.Y(0) }
func (x *Uintptr) Add(v uintptr) uintptr { dst.AtomicPoint(true); r := x.v.Add(v); dst.Y(0); return r }
func (x *Uintptr) Swap(v uintptr) uintptr {
	dst.AtomicPoint(true)
	r := x.v.Swap(v)
	dst.Y(0)
	return r
}
func (x *Uintptr) CompareAndSwap(a, b uintptr) bool {
	dst.AtomicPoint(true)
	r := x.v.CompareAndSwap(a, b)
	dst.Y(0)
	return r
}
func (x *Uintptr) And(v uintptr) uintptr { dst.AtomicPoint(true); r := x.v.And(v); dst.Y(0); return r }
func (x *Uintptr) Or(v uintptr) uintptr  { dst.AtomicPoint(true); r := x.v.Or(v); dst.Y(0); return r }

func LoadPointer(p *unsafe.Pointer) unsafe.Pointer {
	dst.AtomicPoint(false)
	return real.LoadPointer(p)
}
func StorePointer(p *unsafe.Pointer, v unsafe.Pointer) {
	dst.AtomicPoint(true)
	real.StorePointer(p, v)
	dst.Y(0)
}
func SwapPointer(p *unsafe.Pointer, v unsafe.Pointer) unsafe.Pointer {
	dst.AtomicPoint(true)
	r := real.SwapPointer(p, v)
	dst.Y(0)
	return r
}
func CompareAndSwapPointer(p *unsafe.Pointer, a, b unsafe.Pointer) bool {
	dst.AtomicPoint(true)
	r := real.CompareAndSwapPointer(p, a, b)
	dst.Y(0)
	return r
}

type Bool struct{ v real.Bool }

func (x *Bool) Load() bool       { dst.AtomicPoint(false); return x.v.Load() }
func (x *Bool) Store(v bool)     { dst.AtomicPoint(true); x.v.Store(v); dst.Y(0) }
func (x *Bool) Swap(v bool) bool { dst.AtomicPoint(true); r := x.v.Swap(v); dst.Y(0); return r }
func (x *Bool) CompareAndSwap(a, b bool) bool {
	dst.AtomicPoint(true)
	r := x.v.CompareAndSwap(a, b)
	dst.Y(0)
	return r
}

type Value struct{ v real.Value }

func (x *Value) Load() interface{}   { dst.AtomicPoint(false); return x.v.Load() }
func (x *Value) Store(v interface{}) { dst.AtomicPoint(true); x.v.Store(v); dst.Y(0) }
func (x *Value) Swap(v interface{}) interface{} {
	dst.AtomicPoint(true)
	r := x.v.Swap(v)
	dst.Y(0)
	return r
}
func (x *Value) CompareAndSwap(a, b interface{}) bool {
	dst.AtomicPoint(true)
	r := x.v.CompareAndSwap(a, b)
	dst.Y(0)
	return r
}

type Pointer[T any] struct{ v real.Pointer[T] }

func (x *Pointer[T]) Load() *T     { dst.AtomicPoint(false); return x.v.Load() }
func (x *Pointer[T]) Store(v *T)   { dst.AtomicPoint(true); x.v.Store(v); dst.Y(0) }
func (x *Pointer[T]) Swap(v *T) *T { dst.AtomicPoint(true); r := x.v.Swap(v); dst.Y(0); return r }
func (x *Pointer[T]) CompareAndSwap(a, b *T) bool {
	dst.AtomicPoint(true)
	r := x.v.CompareAndSwap(a, b)
	dst.Y(0)
	return r
}
