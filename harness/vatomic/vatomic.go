// Package vatomic replaces sync/atomic in native replays of schedules: one
// goroutine runs at a time, and every operation is a scheduling point.
package vatomic

import (
	"sync/atomic"
	"unsafe"

	"github.com/bobg/fab/zzverif/nd"
)

func y() { nd.Yield("atomic") }

func LoadInt32(p *int32) int32                      { y(); return atomic.LoadInt32(p) }
func StoreInt32(p *int32, v int32)                  { y(); atomic.StoreInt32(p, v) }
func SwapInt32(p *int32, v int32) int32             { y(); return atomic.SwapInt32(p, v) }
func CompareAndSwapInt32(p *int32, a, b int32) bool { y(); return atomic.CompareAndSwapInt32(p, a, b) }
func AddInt32(p *int32, d int32) int32              { y(); return atomic.AddInt32(p, d) }
func AndInt32(p *int32, d int32) int32              { y(); old := *p; *p = old & d; return old }
func OrInt32(p *int32, d int32) int32               { y(); old := *p; *p = old | d; return old }

// Int32 is an atomic int32.
type Int32 struct{ v int32 }

func (x *Int32) Load() int32                    { return LoadInt32(&x.v) }
func (x *Int32) Store(v int32)                  { StoreInt32(&x.v, v) }
func (x *Int32) Swap(v int32) int32             { return SwapInt32(&x.v, v) }
func (x *Int32) CompareAndSwap(a, b int32) bool { return CompareAndSwapInt32(&x.v, a, b) }
func (x *Int32) Add(d int32) int32              { return AddInt32(&x.v, d) }
func (x *Int32) And(d int32) int32              { return AndInt32(&x.v, d) }
func (x *Int32) Or(d int32) int32               { return OrInt32(&x.v, d) }

func LoadInt64(p *int64) int64                      { y(); return atomic.LoadInt64(p) }
func StoreInt64(p *int64, v int64)                  { y(); atomic.StoreInt64(p, v) }
func SwapInt64(p *int64, v int64) int64             { y(); return atomic.SwapInt64(p, v) }
func CompareAndSwapInt64(p *int64, a, b int64) bool { y(); return atomic.CompareAndSwapInt64(p, a, b) }
func AddInt64(p *int64, d int64) int64              { y(); return atomic.AddInt64(p, d) }
func AndInt64(p *int64, d int64) int64              { y(); old := *p; *p = old & d; return old }
func OrInt64(p *int64, d int64) int64               { y(); old := *p; *p = old | d; return old }

// Int64 is an atomic int64.
type Int64 struct{ v int64 }

func (x *Int64) Load() int64                    { return LoadInt64(&x.v) }
func (x *Int64) Store(v int64)                  { StoreInt64(&x.v, v) }
func (x *Int64) Swap(v int64) int64             { return SwapInt64(&x.v, v) }
func (x *Int64) CompareAndSwap(a, b int64) bool { return CompareAndSwapInt64(&x.v, a, b) }
func (x *Int64) Add(d int64) int64              { return AddInt64(&x.v, d) }
func (x *Int64) And(d int64) int64              { return AndInt64(&x.v, d) }
func (x *Int64) Or(d int64) int64               { return OrInt64(&x.v, d) }

func LoadUint32(p *uint32) uint32           { y(); return atomic.LoadUint32(p) }
func StoreUint32(p *uint32, v uint32)       { y(); atomic.StoreUint32(p, v) }
func SwapUint32(p *uint32, v uint32) uint32 { y(); return atomic.SwapUint32(p, v) }
func CompareAndSwapUint32(p *uint32, a, b uint32) bool {
	y()
	return atomic.CompareAndSwapUint32(p, a, b)
}
func AddUint32(p *uint32, d uint32) uint32 { y(); return atomic.AddUint32(p, d) }
func AndUint32(p *uint32, d uint32) uint32 { y(); old := *p; *p = old & d; return old }
func OrUint32(p *uint32, d uint32) uint32  { y(); old := *p; *p = old | d; return old }

// Uint32 is an atomic uint32.
type Uint32 struct{ v uint32 }

func (x *Uint32) Load() uint32                    { return LoadUint32(&x.v) }
func (x *Uint32) Store(v uint32)                  { StoreUint32(&x.v, v) }
func (x *Uint32) Swap(v uint32) uint32            { return SwapUint32(&x.v, v) }
func (x *Uint32) CompareAndSwap(a, b uint32) bool { return CompareAndSwapUint32(&x.v, a, b) }
func (x *Uint32) Add(d uint32) uint32             { return AddUint32(&x.v, d) }
func (x *Uint32) And(d uint32) uint32             { return AndUint32(&x.v, d) }
func (x *Uint32) Or(d uint32) uint32              { return OrUint32(&x.v, d) }

func LoadUint64(p *uint64) uint64           { y(); return atomic.LoadUint64(p) }
func StoreUint64(p *uint64, v uint64)       { y(); atomic.StoreUint64(p, v) }
func SwapUint64(p *uint64, v uint64) uint64 { y(); return atomic.SwapUint64(p, v) }
func CompareAndSwapUint64(p *uint64, a, b uint64) bool {
	y()
	return atomic.CompareAndSwapUint64(p, a, b)
}
func AddUint64(p *uint64, d uint64) uint64 { y(); return atomic.AddUint64(p, d) }
func AndUint64(p *uint64, d uint64) uint64 { y(); old := *p; *p = old & d; return old }
func OrUint64(p *uint64, d uint64) uint64  { y(); old := *p; *p = old | d; return old }

// Uint64 is an atomic uint64.
type Uint64 struct{ v uint64 }

func (x *Uint64) Load() uint64                    { return LoadUint64(&x.v) }
func (x *Uint64) Store(v uint64)                  { StoreUint64(&x.v, v) }
func (x *Uint64) Swap(v uint64) uint64            { return SwapUint64(&x.v, v) }
func (x *Uint64) CompareAndSwap(a, b uint64) bool { return CompareAndSwapUint64(&x.v, a, b) }
func (x *Uint64) Add(d uint64) uint64             { return AddUint64(&x.v, d) }
func (x *Uint64) And(d uint64) uint64             { return AndUint64(&x.v, d) }
func (x *Uint64) Or(d uint64) uint64              { return OrUint64(&x.v, d) }

func LoadUintptr(p *uintptr) uintptr            { y(); return atomic.LoadUintptr(p) }
func StoreUintptr(p *uintptr, v uintptr)        { y(); atomic.StoreUintptr(p, v) }
func SwapUintptr(p *uintptr, v uintptr) uintptr { y(); return atomic.SwapUintptr(p, v) }
func CompareAndSwapUintptr(p *uintptr, a, b uintptr) bool {
	y()
	return atomic.CompareAndSwapUintptr(p, a, b)
}
func AddUintptr(p *uintptr, d uintptr) uintptr { y(); return atomic.AddUintptr(p, d) }
func AndUintptr(p *uintptr, d uintptr) uintptr { y(); old := *p; *p = old & d; return old }
func OrUintptr(p *uintptr, d uintptr) uintptr  { y(); old := *p; *p = old | d; return old }

// Uintptr is an atomic uintptr.
type Uintptr struct{ v uintptr }

func (x *Uintptr) Load() uintptr                    { return LoadUintptr(&x.v) }
func (x *Uintptr) Store(v uintptr)                  { StoreUintptr(&x.v, v) }
func (x *Uintptr) Swap(v uintptr) uintptr           { return SwapUintptr(&x.v, v) }
func (x *Uintptr) CompareAndSwap(a, b uintptr) bool { return CompareAndSwapUintptr(&x.v, a, b) }
func (x *Uintptr) Add(d uintptr) uintptr            { return AddUintptr(&x.v, d) }
func (x *Uintptr) And(d uintptr) uintptr            { return AndUintptr(&x.v, d) }
func (x *Uintptr) Or(d uintptr) uintptr             { return OrUintptr(&x.v, d) }

func LoadPointer(p *unsafe.Pointer) unsafe.Pointer     { y(); return atomic.LoadPointer(p) }
func StorePointer(p *unsafe.Pointer, v unsafe.Pointer) { y(); atomic.StorePointer(p, v) }
func SwapPointer(p *unsafe.Pointer, v unsafe.Pointer) unsafe.Pointer {
	y()
	return atomic.SwapPointer(p, v)
}
func CompareAndSwapPointer(p *unsafe.Pointer, a, b unsafe.Pointer) bool {
	y()
	return atomic.CompareAndSwapPointer(p, a, b)
}

// Bool is an atomic bool.
type Bool struct{ v bool }

func (x *Bool) Load() bool       { y(); return x.v }
func (x *Bool) Store(v bool)     { y(); x.v = v }
func (x *Bool) Swap(v bool) bool { y(); old := x.v; x.v = v; return old }
func (x *Bool) CompareAndSwap(a, b bool) bool {
	y()
	if x.v != a {
		return false
	}
	x.v = b
	return true
}

// Pointer is an atomic *T.
type Pointer[T any] struct{ v *T }

func (x *Pointer[T]) Load() *T     { y(); return x.v }
func (x *Pointer[T]) Store(v *T)   { y(); x.v = v }
func (x *Pointer[T]) Swap(v *T) *T { y(); old := x.v; x.v = v; return old }
func (x *Pointer[T]) CompareAndSwap(a, b *T) bool {
	y()
	if x.v != a {
		return false
	}
	x.v = b
	return true
}

// Value is an atomic any.
type Value struct{ v atomic.Value }

func (x *Value) Load() any                    { y(); return x.v.Load() }
func (x *Value) Store(v any)                  { y(); x.v.Store(v) }
func (x *Value) Swap(v any) any               { y(); return x.v.Swap(v) }
func (x *Value) CompareAndSwap(a, b any) bool { y(); return x.v.CompareAndSwap(a, b) }
