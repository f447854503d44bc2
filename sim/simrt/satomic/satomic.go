// Package satomic replaces sync/atomic: the same operations, ordered for the
// detection of unsynchronised accesses.
package satomic

import (
	"sync/atomic"
	"unsafe"

	"verif.local/sim/simrt"
)

// The task may be preempted before the operation, never inside it.
func hb(p unsafe.Pointer) { simrt.Sync(); simrt.AtomicHB(uintptr(p)) }

func AddInt32(a *int32, d int32) int32  { hb(unsafe.Pointer(a)); return atomic.AddInt32(a, d) }
func LoadInt32(a *int32) int32          { hb(unsafe.Pointer(a)); return atomic.LoadInt32(a) }
func StoreInt32(a *int32, v int32)      { hb(unsafe.Pointer(a)); atomic.StoreInt32(a, v) }
func SwapInt32(a *int32, v int32) int32 { hb(unsafe.Pointer(a)); return atomic.SwapInt32(a, v) }
func CompareAndSwapInt32(a *int32, o, n int32) bool {
	hb(unsafe.Pointer(a))
	return atomic.CompareAndSwapInt32(a, o, n)
}

// Int32 replaces atomic.Int32.
type Int32 struct{ v int32 }

func (x *Int32) Load() int32                    { return LoadInt32(&x.v) }
func (x *Int32) Store(v int32)                  { StoreInt32(&x.v, v) }
func (x *Int32) Swap(v int32) int32             { return SwapInt32(&x.v, v) }
func (x *Int32) Add(d int32) int32              { return AddInt32(&x.v, d) }
func (x *Int32) CompareAndSwap(o, n int32) bool { return CompareAndSwapInt32(&x.v, o, n) }

func AndInt32(a *int32, m int32) int32 { hb(unsafe.Pointer(a)); o := *a; *a = o & m; return o }
func OrInt32(a *int32, m int32) int32  { hb(unsafe.Pointer(a)); o := *a; *a = o | m; return o }
func (x *Int32) And(m int32) int32     { return AndInt32(&x.v, m) }
func (x *Int32) Or(m int32) int32      { return OrInt32(&x.v, m) }

func AddInt64(a *int64, d int64) int64  { hb(unsafe.Pointer(a)); return atomic.AddInt64(a, d) }
func LoadInt64(a *int64) int64          { hb(unsafe.Pointer(a)); return atomic.LoadInt64(a) }
func StoreInt64(a *int64, v int64)      { hb(unsafe.Pointer(a)); atomic.StoreInt64(a, v) }
func SwapInt64(a *int64, v int64) int64 { hb(unsafe.Pointer(a)); return atomic.SwapInt64(a, v) }
func CompareAndSwapInt64(a *int64, o, n int64) bool {
	hb(unsafe.Pointer(a))
	return atomic.CompareAndSwapInt64(a, o, n)
}

// Int64 replaces atomic.Int64.
type Int64 struct{ v int64 }

func (x *Int64) Load() int64                    { return LoadInt64(&x.v) }
func (x *Int64) Store(v int64)                  { StoreInt64(&x.v, v) }
func (x *Int64) Swap(v int64) int64             { return SwapInt64(&x.v, v) }
func (x *Int64) Add(d int64) int64              { return AddInt64(&x.v, d) }
func (x *Int64) CompareAndSwap(o, n int64) bool { return CompareAndSwapInt64(&x.v, o, n) }

func AndInt64(a *int64, m int64) int64 { hb(unsafe.Pointer(a)); o := *a; *a = o & m; return o }
func OrInt64(a *int64, m int64) int64  { hb(unsafe.Pointer(a)); o := *a; *a = o | m; return o }
func (x *Int64) And(m int64) int64     { return AndInt64(&x.v, m) }
func (x *Int64) Or(m int64) int64      { return OrInt64(&x.v, m) }

func AddUint32(a *uint32, d uint32) uint32  { hb(unsafe.Pointer(a)); return atomic.AddUint32(a, d) }
func LoadUint32(a *uint32) uint32           { hb(unsafe.Pointer(a)); return atomic.LoadUint32(a) }
func StoreUint32(a *uint32, v uint32)       { hb(unsafe.Pointer(a)); atomic.StoreUint32(a, v) }
func SwapUint32(a *uint32, v uint32) uint32 { hb(unsafe.Pointer(a)); return atomic.SwapUint32(a, v) }
func CompareAndSwapUint32(a *uint32, o, n uint32) bool {
	hb(unsafe.Pointer(a))
	return atomic.CompareAndSwapUint32(a, o, n)
}

// Uint32 replaces atomic.Uint32.
type Uint32 struct{ v uint32 }

func (x *Uint32) Load() uint32                    { return LoadUint32(&x.v) }
func (x *Uint32) Store(v uint32)                  { StoreUint32(&x.v, v) }
func (x *Uint32) Swap(v uint32) uint32            { return SwapUint32(&x.v, v) }
func (x *Uint32) Add(d uint32) uint32             { return AddUint32(&x.v, d) }
func (x *Uint32) CompareAndSwap(o, n uint32) bool { return CompareAndSwapUint32(&x.v, o, n) }

func AndUint32(a *uint32, m uint32) uint32 { hb(unsafe.Pointer(a)); o := *a; *a = o & m; return o }
func OrUint32(a *uint32, m uint32) uint32  { hb(unsafe.Pointer(a)); o := *a; *a = o | m; return o }
func (x *Uint32) And(m uint32) uint32      { return AndUint32(&x.v, m) }
func (x *Uint32) Or(m uint32) uint32       { return OrUint32(&x.v, m) }

func AddUint64(a *uint64, d uint64) uint64  { hb(unsafe.Pointer(a)); return atomic.AddUint64(a, d) }
func LoadUint64(a *uint64) uint64           { hb(unsafe.Pointer(a)); return atomic.LoadUint64(a) }
func StoreUint64(a *uint64, v uint64)       { hb(unsafe.Pointer(a)); atomic.StoreUint64(a, v) }
func SwapUint64(a *uint64, v uint64) uint64 { hb(unsafe.Pointer(a)); return atomic.SwapUint64(a, v) }
func CompareAndSwapUint64(a *uint64, o, n uint64) bool {
	hb(unsafe.Pointer(a))
	return atomic.CompareAndSwapUint64(a, o, n)
}

// Uint64 replaces atomic.Uint64.
type Uint64 struct{ v uint64 }

func (x *Uint64) Load() uint64                    { return LoadUint64(&x.v) }
func (x *Uint64) Store(v uint64)                  { StoreUint64(&x.v, v) }
func (x *Uint64) Swap(v uint64) uint64            { return SwapUint64(&x.v, v) }
func (x *Uint64) Add(d uint64) uint64             { return AddUint64(&x.v, d) }
func (x *Uint64) CompareAndSwap(o, n uint64) bool { return CompareAndSwapUint64(&x.v, o, n) }

func AndUint64(a *uint64, m uint64) uint64 { hb(unsafe.Pointer(a)); o := *a; *a = o & m; return o }
func OrUint64(a *uint64, m uint64) uint64  { hb(unsafe.Pointer(a)); o := *a; *a = o | m; return o }
func (x *Uint64) And(m uint64) uint64      { return AndUint64(&x.v, m) }
func (x *Uint64) Or(m uint64) uint64       { return OrUint64(&x.v, m) }

func AddUintptr(a *uintptr, d uintptr) uintptr { hb(unsafe.Pointer(a)); return atomic.AddUintptr(a, d) }
func LoadUintptr(a *uintptr) uintptr           { hb(unsafe.Pointer(a)); return atomic.LoadUintptr(a) }
func StoreUintptr(a *uintptr, v uintptr)       { hb(unsafe.Pointer(a)); atomic.StoreUintptr(a, v) }
func SwapUintptr(a *uintptr, v uintptr) uintptr {
	hb(unsafe.Pointer(a))
	return atomic.SwapUintptr(a, v)
}
func CompareAndSwapUintptr(a *uintptr, o, n uintptr) bool {
	hb(unsafe.Pointer(a))
	return atomic.CompareAndSwapUintptr(a, o, n)
}

// Uintptr replaces atomic.Uintptr.
type Uintptr struct{ v uintptr }

func (x *Uintptr) Load() uintptr                    { return LoadUintptr(&x.v) }
func (x *Uintptr) Store(v uintptr)                  { StoreUintptr(&x.v, v) }
func (x *Uintptr) Swap(v uintptr) uintptr           { return SwapUintptr(&x.v, v) }
func (x *Uintptr) Add(d uintptr) uintptr            { return AddUintptr(&x.v, d) }
func (x *Uintptr) CompareAndSwap(o, n uintptr) bool { return CompareAndSwapUintptr(&x.v, o, n) }

func AndUintptr(a *uintptr, m uintptr) uintptr { hb(unsafe.Pointer(a)); o := *a; *a = o & m; return o }
func OrUintptr(a *uintptr, m uintptr) uintptr  { hb(unsafe.Pointer(a)); o := *a; *a = o | m; return o }
func (x *Uintptr) And(m uintptr) uintptr       { return AndUintptr(&x.v, m) }
func (x *Uintptr) Or(m uintptr) uintptr        { return OrUintptr(&x.v, m) }

func LoadPointer(a *unsafe.Pointer) unsafe.Pointer     { hb(unsafe.Pointer(a)); return *a }
func StorePointer(a *unsafe.Pointer, v unsafe.Pointer) { hb(unsafe.Pointer(a)); *a = v }
func SwapPointer(a *unsafe.Pointer, v unsafe.Pointer) unsafe.Pointer {
	hb(unsafe.Pointer(a))
	o := *a
	*a = v
	return o
}
func CompareAndSwapPointer(a *unsafe.Pointer, o, n unsafe.Pointer) bool {
	hb(unsafe.Pointer(a))
	if *a != o {
		return false
	}
	*a = n
	return true
}

// Bool replaces atomic.Bool.
type Bool struct{ v uint32 }

func b32(b bool) uint32 {
	if b {
		return 1
	}
	return 0
}
func (x *Bool) Load() bool                    { return LoadUint32(&x.v) != 0 }
func (x *Bool) Store(v bool)                  { StoreUint32(&x.v, b32(v)) }
func (x *Bool) Swap(v bool) bool              { return SwapUint32(&x.v, b32(v)) != 0 }
func (x *Bool) CompareAndSwap(o, n bool) bool { return CompareAndSwapUint32(&x.v, b32(o), b32(n)) }

// Pointer replaces atomic.Pointer.
type Pointer[T any] struct{ v *T }

func (x *Pointer[T]) Load() *T     { hb(unsafe.Pointer(x)); return x.v }
func (x *Pointer[T]) Store(v *T)   { hb(unsafe.Pointer(x)); x.v = v }
func (x *Pointer[T]) Swap(v *T) *T { hb(unsafe.Pointer(x)); o := x.v; x.v = v; return o }
func (x *Pointer[T]) CompareAndSwap(o, n *T) bool {
	hb(unsafe.Pointer(x))
	if x.v != o {
		return false
	}
	x.v = n
	return true
}

// Value replaces atomic.Value.
type Value struct{ v any }

func (x *Value) Load() any { hb(unsafe.Pointer(x)); return x.v }
func (x *Value) Store(v any) {
	if v == nil {
		panic("sync/atomic: store of nil value into Value")
	}
	hb(unsafe.Pointer(x))
	x.v = v
}
func (x *Value) Swap(v any) any { hb(unsafe.Pointer(x)); o := x.v; x.v = v; return o }
func (x *Value) CompareAndSwap(o, n any) bool {
	hb(unsafe.Pointer(x))
	if x.v != o {
		return false
	}
	x.v = n
	return true
}
