// Package atomic is the simulated stand-in for the standard package: every
// operation is a scheduling point followed by the real operation. The real
// operations are reached through variables so that the race detector's
// versions are called even from this uninstrumented package.
package atomic

import (
	"simrt"
	std "sync/atomic"
	"unsafe"
)

var (
	addInt32     = std.AddInt32
	loadInt32    = std.LoadInt32
	storeInt32   = std.StoreInt32
	swapInt32    = std.SwapInt32
	casInt32     = std.CompareAndSwapInt32
	andInt32     = std.AndInt32
	orInt32      = std.OrInt32
	addInt64     = std.AddInt64
	loadInt64    = std.LoadInt64
	storeInt64   = std.StoreInt64
	swapInt64    = std.SwapInt64
	casInt64     = std.CompareAndSwapInt64
	andInt64     = std.AndInt64
	orInt64      = std.OrInt64
	addUint32    = std.AddUint32
	loadUint32   = std.LoadUint32
	storeUint32  = std.StoreUint32
	swapUint32   = std.SwapUint32
	casUint32    = std.CompareAndSwapUint32
	andUint32    = std.AndUint32
	orUint32     = std.OrUint32
	addUint64    = std.AddUint64
	loadUint64   = std.LoadUint64
	storeUint64  = std.StoreUint64
	swapUint64   = std.SwapUint64
	casUint64    = std.CompareAndSwapUint64
	andUint64    = std.AndUint64
	orUint64     = std.OrUint64
	addUintptr   = std.AddUintptr
	loadUintptr  = std.LoadUintptr
	storeUintptr = std.StoreUintptr
	swapUintptr  = std.SwapUintptr
	casUintptr   = std.CompareAndSwapUintptr
	andUintptr   = std.AndUintptr
	orUintptr    = std.OrUintptr
	loadPointer  = std.LoadPointer
	storePointer = std.StorePointer
	swapPointer  = std.SwapPointer
	casPointer   = std.CompareAndSwapPointer
	vLoad        = (*std.Value).Load
	vStore       = (*std.Value).Store
	vSwap        = (*std.Value).Swap
	vCAS         = (*std.Value).CompareAndSwap
)

//go:noinline
func AddInt32(p *int32, d int32) int32 { simrt.YS(); return addInt32(p, d) }

//go:noinline
func LoadInt32(p *int32) int32 { simrt.YS(); return loadInt32(p) }

//go:noinline
func StoreInt32(p *int32, v int32) { simrt.YS(); storeInt32(p, v) }

//go:noinline
func SwapInt32(p *int32, v int32) int32 { simrt.YS(); return swapInt32(p, v) }

//go:noinline
func CompareAndSwapInt32(p *int32, old, new int32) bool { simrt.YS(); return casInt32(p, old, new) }

//go:noinline
func AndInt32(p *int32, m int32) int32 { simrt.YS(); return andInt32(p, m) }

//go:noinline
func OrInt32(p *int32, m int32) int32 { simrt.YS(); return orInt32(p, m) }

// Int32 is the simulated atomic.Int32.
type Int32 struct{ v int32 }

//go:noinline
func (x *Int32) Load() int32 { simrt.YS(); return loadInt32(&x.v) }

//go:noinline
func (x *Int32) Store(v int32) { simrt.YS(); storeInt32(&x.v, v) }

//go:noinline
func (x *Int32) Swap(v int32) int32 { simrt.YS(); return swapInt32(&x.v, v) }

//go:noinline
func (x *Int32) CompareAndSwap(old, new int32) bool { simrt.YS(); return casInt32(&x.v, old, new) }

//go:noinline
func (x *Int32) Add(d int32) int32 { simrt.YS(); return addInt32(&x.v, d) }

//go:noinline
func (x *Int32) And(m int32) int32 { simrt.YS(); return andInt32(&x.v, m) }

//go:noinline
func (x *Int32) Or(m int32) int32 { simrt.YS(); return orInt32(&x.v, m) }

//go:noinline
func AddInt64(p *int64, d int64) int64 { simrt.YS(); return addInt64(p, d) }

//go:noinline
func LoadInt64(p *int64) int64 { simrt.YS(); return loadInt64(p) }

//go:noinline
func StoreInt64(p *int64, v int64) { simrt.YS(); storeInt64(p, v) }

//go:noinline
func SwapInt64(p *int64, v int64) int64 { simrt.YS(); return swapInt64(p, v) }

//go:noinline
func CompareAndSwapInt64(p *int64, old, new int64) bool { simrt.YS(); return casInt64(p, old, new) }

//go:noinline
func AndInt64(p *int64, m int64) int64 { simrt.YS(); return andInt64(p, m) }

//go:noinline
func OrInt64(p *int64, m int64) int64 { simrt.YS(); return orInt64(p, m) }

// Int64 is the simulated atomic.Int64.
type Int64 struct{ v int64 }

//go:noinline
func (x *Int64) Load() int64 { simrt.YS(); return loadInt64(&x.v) }

//go:noinline
func (x *Int64) Store(v int64) { simrt.YS(); storeInt64(&x.v, v) }

//go:noinline
func (x *Int64) Swap(v int64) int64 { simrt.YS(); return swapInt64(&x.v, v) }

//go:noinline
func (x *Int64) CompareAndSwap(old, new int64) bool { simrt.YS(); return casInt64(&x.v, old, new) }

//go:noinline
func (x *Int64) Add(d int64) int64 { simrt.YS(); return addInt64(&x.v, d) }

//go:noinline
func (x *Int64) And(m int64) int64 { simrt.YS(); return andInt64(&x.v, m) }

//go:noinline
func (x *Int64) Or(m int64) int64 { simrt.YS(); return orInt64(&x.v, m) }

//go:noinline
func AddUint32(p *uint32, d uint32) uint32 { simrt.YS(); return addUint32(p, d) }

//go:noinline
func LoadUint32(p *uint32) uint32 { simrt.YS(); return loadUint32(p) }

//go:noinline
func StoreUint32(p *uint32, v uint32) { simrt.YS(); storeUint32(p, v) }

//go:noinline
func SwapUint32(p *uint32, v uint32) uint32 { simrt.YS(); return swapUint32(p, v) }

//go:noinline
func CompareAndSwapUint32(p *uint32, old, new uint32) bool { simrt.YS(); return casUint32(p, old, new) }

//go:noinline
func AndUint32(p *uint32, m uint32) uint32 { simrt.YS(); return andUint32(p, m) }

//go:noinline
func OrUint32(p *uint32, m uint32) uint32 { simrt.YS(); return orUint32(p, m) }

// Uint32 is the simulated atomic.Uint32.
type Uint32 struct{ v uint32 }

//go:noinline
func (x *Uint32) Load() uint32 { simrt.YS(); return loadUint32(&x.v) }

//go:noinline
func (x *Uint32) Store(v uint32) { simrt.YS(); storeUint32(&x.v, v) }

//go:noinline
func (x *Uint32) Swap(v uint32) uint32 { simrt.YS(); return swapUint32(&x.v, v) }

//go:noinline
func (x *Uint32) CompareAndSwap(old, new uint32) bool { simrt.YS(); return casUint32(&x.v, old, new) }

//go:noinline
func (x *Uint32) Add(d uint32) uint32 { simrt.YS(); return addUint32(&x.v, d) }

//go:noinline
func (x *Uint32) And(m uint32) uint32 { simrt.YS(); return andUint32(&x.v, m) }

//go:noinline
func (x *Uint32) Or(m uint32) uint32 { simrt.YS(); return orUint32(&x.v, m) }

//go:noinline
func AddUint64(p *uint64, d uint64) uint64 { simrt.YS(); return addUint64(p, d) }

//go:noinline
func LoadUint64(p *uint64) uint64 { simrt.YS(); return loadUint64(p) }

//go:noinline
func StoreUint64(p *uint64, v uint64) { simrt.YS(); storeUint64(p, v) }

//go:noinline
func SwapUint64(p *uint64, v uint64) uint64 { simrt.YS(); return swapUint64(p, v) }

//go:noinline
func CompareAndSwapUint64(p *uint64, old, new uint64) bool { simrt.YS(); return casUint64(p, old, new) }

//go:noinline
func AndUint64(p *uint64, m uint64) uint64 { simrt.YS(); return andUint64(p, m) }

//go:noinline
func OrUint64(p *uint64, m uint64) uint64 { simrt.YS(); return orUint64(p, m) }

// Uint64 is the simulated atomic.Uint64.
type Uint64 struct{ v uint64 }

//go:noinline
func (x *Uint64) Load() uint64 { simrt.YS(); return loadUint64(&x.v) }

//go:noinline
func (x *Uint64) Store(v uint64) { simrt.YS(); storeUint64(&x.v, v) }

//go:noinline
func (x *Uint64) Swap(v uint64) uint64 { simrt.YS(); return swapUint64(&x.v, v) }

//go:noinline
func (x *Uint64) CompareAndSwap(old, new uint64) bool { simrt.YS(); return casUint64(&x.v, old, new) }

//go:noinline
func (x *Uint64) Add(d uint64) uint64 { simrt.YS(); return addUint64(&x.v, d) }

//go:noinline
func (x *Uint64) And(m uint64) uint64 { simrt.YS(); return andUint64(&x.v, m) }

//go:noinline
func (x *Uint64) Or(m uint64) uint64 { simrt.YS(); return orUint64(&x.v, m) }

//go:noinline
func AddUintptr(p *uintptr, d uintptr) uintptr { simrt.YS(); return addUintptr(p, d) }

//go:noinline
func LoadUintptr(p *uintptr) uintptr { simrt.YS(); return loadUintptr(p) }

//go:noinline
func StoreUintptr(p *uintptr, v uintptr) { simrt.YS(); storeUintptr(p, v) }

//go:noinline
func SwapUintptr(p *uintptr, v uintptr) uintptr { simrt.YS(); return swapUintptr(p, v) }

//go:noinline
func CompareAndSwapUintptr(p *uintptr, old, new uintptr) bool {
	simrt.YS()
	return casUintptr(p, old, new)
}

//go:noinline
func AndUintptr(p *uintptr, m uintptr) uintptr { simrt.YS(); return andUintptr(p, m) }

//go:noinline
func OrUintptr(p *uintptr, m uintptr) uintptr { simrt.YS(); return orUintptr(p, m) }

// Uintptr is the simulated atomic.Uintptr.
type Uintptr struct{ v uintptr }

//go:noinline
func (x *Uintptr) Load() uintptr { simrt.YS(); return loadUintptr(&x.v) }

//go:noinline
func (x *Uintptr) Store(v uintptr) { simrt.YS(); storeUintptr(&x.v, v) }

//go:noinline
func (x *Uintptr) Swap(v uintptr) uintptr { simrt.YS(); return swapUintptr(&x.v, v) }

//go:noinline
func (x *Uintptr) CompareAndSwap(old, new uintptr) bool {
	simrt.YS()
	return casUintptr(&x.v, old, new)
}

//go:noinline
func (x *Uintptr) Add(d uintptr) uintptr { simrt.YS(); return addUintptr(&x.v, d) }

//go:noinline
func (x *Uintptr) And(m uintptr) uintptr { simrt.YS(); return andUintptr(&x.v, m) }

//go:noinline
func (x *Uintptr) Or(m uintptr) uintptr { simrt.YS(); return orUintptr(&x.v, m) }

//go:noinline
func LoadPointer(p *unsafe.Pointer) unsafe.Pointer { simrt.YS(); return loadPointer(p) }

//go:noinline
func StorePointer(p *unsafe.Pointer, v unsafe.Pointer) { simrt.YS(); storePointer(p, v) }

//go:noinline
func SwapPointer(p *unsafe.Pointer, v unsafe.Pointer) unsafe.Pointer {
	simrt.YS()
	return swapPointer(p, v)
}

//go:noinline
func CompareAndSwapPointer(p *unsafe.Pointer, old, new unsafe.Pointer) bool {
	simrt.YS()
	return casPointer(p, old, new)
}

// Pointer is the simulated atomic.Pointer.
type Pointer[T any] struct {
	_ [0]*T
	v unsafe.Pointer
}

//go:norace
//go:noinline
func (x *Pointer[T]) Load() *T { return (*T)(LoadPointer(&x.v)) }

//go:norace
//go:noinline
func (x *Pointer[T]) Store(v *T) { StorePointer(&x.v, unsafe.Pointer(v)) }

//go:norace
//go:noinline
func (x *Pointer[T]) Swap(v *T) *T { return (*T)(SwapPointer(&x.v, unsafe.Pointer(v))) }

//go:norace
//go:noinline
func (x *Pointer[T]) CompareAndSwap(old, new *T) bool {
	return CompareAndSwapPointer(&x.v, unsafe.Pointer(old), unsafe.Pointer(new))
}

// Bool is the simulated atomic.Bool.
type Bool struct{ v uint32 }

func b32(b bool) uint32 {
	if b {
		return 1
	}
	return 0
}

//go:noinline
func (x *Bool) Load() bool { simrt.YS(); return loadUint32(&x.v) != 0 }

//go:noinline
func (x *Bool) Store(v bool) { simrt.YS(); storeUint32(&x.v, b32(v)) }

//go:noinline
func (x *Bool) Swap(v bool) bool { simrt.YS(); return swapUint32(&x.v, b32(v)) != 0 }

//go:noinline
func (x *Bool) CompareAndSwap(old, new bool) bool {
	simrt.YS()
	return casUint32(&x.v, b32(old), b32(new))
}

// Value is the simulated atomic.Value.
type Value struct{ v std.Value }

//go:noinline
func (x *Value) Load() any { simrt.YS(); return vLoad(&x.v) }

//go:noinline
func (x *Value) Store(v any) { simrt.YS(); vStore(&x.v, v) }

//go:noinline
func (x *Value) Swap(v any) any { simrt.YS(); return vSwap(&x.v, v) }

//go:noinline
func (x *Value) CompareAndSwap(old, new any) bool { simrt.YS(); return vCAS(&x.v, old, new) }
