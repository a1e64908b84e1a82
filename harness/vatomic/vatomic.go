// Package vatomic stands in for sync/atomic in the package under test: every operation passes
// a scheduling point and then performs the real operation.
package vatomic

import (
	"sync/atomic"
	"unsafe"

	"verif/vsched"
)

func p(k uint64) {
	if vsched.Mode != 0 {
		vsched.Point(k)
	}
}

func LoadInt32(addr *int32) int32          { p(vsched.KLoad); return atomic.LoadInt32(addr) }
func StoreInt32(addr *int32, v int32)      { p(vsched.KStore); atomic.StoreInt32(addr, v) }
func SwapInt32(addr *int32, v int32) int32 { p(vsched.KRMW); return atomic.SwapInt32(addr, v) }
func CompareAndSwapInt32(addr *int32, a, b int32) bool {
	p(vsched.KRMW)
	return atomic.CompareAndSwapInt32(addr, a, b)
}
func AddInt32(addr *int32, d int32) int32  { p(vsched.KRMW); return atomic.AddInt32(addr, d) }
func AndInt32(addr *int32, m int32) int32  { p(vsched.KRMW); return atomic.AndInt32(addr, m) }
func OrInt32(addr *int32, m int32) int32   { p(vsched.KRMW); return atomic.OrInt32(addr, m) }
func LoadInt64(addr *int64) int64          { p(vsched.KLoad); return atomic.LoadInt64(addr) }
func StoreInt64(addr *int64, v int64)      { p(vsched.KStore); atomic.StoreInt64(addr, v) }
func SwapInt64(addr *int64, v int64) int64 { p(vsched.KRMW); return atomic.SwapInt64(addr, v) }
func CompareAndSwapInt64(addr *int64, a, b int64) bool {
	p(vsched.KRMW)
	return atomic.CompareAndSwapInt64(addr, a, b)
}
func AddInt64(addr *int64, d int64) int64      { p(vsched.KRMW); return atomic.AddInt64(addr, d) }
func AndInt64(addr *int64, m int64) int64      { p(vsched.KRMW); return atomic.AndInt64(addr, m) }
func OrInt64(addr *int64, m int64) int64       { p(vsched.KRMW); return atomic.OrInt64(addr, m) }
func LoadUint32(addr *uint32) uint32           { p(vsched.KLoad); return atomic.LoadUint32(addr) }
func StoreUint32(addr *uint32, v uint32)       { p(vsched.KStore); atomic.StoreUint32(addr, v) }
func SwapUint32(addr *uint32, v uint32) uint32 { p(vsched.KRMW); return atomic.SwapUint32(addr, v) }
func CompareAndSwapUint32(addr *uint32, a, b uint32) bool {
	p(vsched.KRMW)
	return atomic.CompareAndSwapUint32(addr, a, b)
}
func AddUint32(addr *uint32, d uint32) uint32  { p(vsched.KRMW); return atomic.AddUint32(addr, d) }
func AndUint32(addr *uint32, m uint32) uint32  { p(vsched.KRMW); return atomic.AndUint32(addr, m) }
func OrUint32(addr *uint32, m uint32) uint32   { p(vsched.KRMW); return atomic.OrUint32(addr, m) }
func LoadUint64(addr *uint64) uint64           { p(vsched.KLoad); return atomic.LoadUint64(addr) }
func StoreUint64(addr *uint64, v uint64)       { p(vsched.KStore); atomic.StoreUint64(addr, v) }
func SwapUint64(addr *uint64, v uint64) uint64 { p(vsched.KRMW); return atomic.SwapUint64(addr, v) }
func CompareAndSwapUint64(addr *uint64, a, b uint64) bool {
	p(vsched.KRMW)
	return atomic.CompareAndSwapUint64(addr, a, b)
}
func AddUint64(addr *uint64, d uint64) uint64 { p(vsched.KRMW); return atomic.AddUint64(addr, d) }
func AndUint64(addr *uint64, m uint64) uint64 { p(vsched.KRMW); return atomic.AndUint64(addr, m) }
func OrUint64(addr *uint64, m uint64) uint64  { p(vsched.KRMW); return atomic.OrUint64(addr, m) }
func LoadUintptr(addr *uintptr) uintptr       { p(vsched.KLoad); return atomic.LoadUintptr(addr) }
func StoreUintptr(addr *uintptr, v uintptr)   { p(vsched.KStore); atomic.StoreUintptr(addr, v) }
func SwapUintptr(addr *uintptr, v uintptr) uintptr {
	p(vsched.KRMW)
	return atomic.SwapUintptr(addr, v)
}
func CompareAndSwapUintptr(addr *uintptr, a, b uintptr) bool {
	p(vsched.KRMW)
	return atomic.CompareAndSwapUintptr(addr, a, b)
}
func AddUintptr(addr *uintptr, d uintptr) uintptr { p(vsched.KRMW); return atomic.AddUintptr(addr, d) }
func AndUintptr(addr *uintptr, m uintptr) uintptr { p(vsched.KRMW); return atomic.AndUintptr(addr, m) }
func OrUintptr(addr *uintptr, m uintptr) uintptr  { p(vsched.KRMW); return atomic.OrUintptr(addr, m) }
func LoadPointer(addr *unsafe.Pointer) unsafe.Pointer {
	p(vsched.KLoad)
	return atomic.LoadPointer(addr)
}
func StorePointer(addr *unsafe.Pointer, v unsafe.Pointer) {
	p(vsched.KStore)
	atomic.StorePointer(addr, v)
}
func SwapPointer(addr *unsafe.Pointer, v unsafe.Pointer) unsafe.Pointer {
	p(vsched.KRMW)
	return atomic.SwapPointer(addr, v)
}
func CompareAndSwapPointer(addr *unsafe.Pointer, a, b unsafe.Pointer) bool {
	p(vsched.KRMW)
	return atomic.CompareAndSwapPointer(addr, a, b)
}

// Bool stands in for atomic.Bool.
type Bool struct{ v atomic.Bool }

func (x *Bool) Load() bool                    { p(vsched.KLoad); return x.v.Load() }
func (x *Bool) Store(v bool)                  { p(vsched.KStore); x.v.Store(v) }
func (x *Bool) Swap(v bool) bool              { p(vsched.KRMW); return x.v.Swap(v) }
func (x *Bool) CompareAndSwap(a, b bool) bool { p(vsched.KRMW); return x.v.CompareAndSwap(a, b) }

// Int32 stands in for atomic.Int32.
type Int32 struct{ v atomic.Int32 }

func (x *Int32) Load() int32                    { p(vsched.KLoad); return x.v.Load() }
func (x *Int32) Store(v int32)                  { p(vsched.KStore); x.v.Store(v) }
func (x *Int32) Swap(v int32) int32             { p(vsched.KRMW); return x.v.Swap(v) }
func (x *Int32) CompareAndSwap(a, b int32) bool { p(vsched.KRMW); return x.v.CompareAndSwap(a, b) }
func (x *Int32) Add(d int32) int32              { p(vsched.KRMW); return x.v.Add(d) }
func (x *Int32) And(m int32) int32              { p(vsched.KRMW); return x.v.And(m) }
func (x *Int32) Or(m int32) int32               { p(vsched.KRMW); return x.v.Or(m) }

// Int64 stands in for atomic.Int64.
type Int64 struct{ v atomic.Int64 }

func (x *Int64) Load() int64                    { p(vsched.KLoad); return x.v.Load() }
func (x *Int64) Store(v int64)                  { p(vsched.KStore); x.v.Store(v) }
func (x *Int64) Swap(v int64) int64             { p(vsched.KRMW); return x.v.Swap(v) }
func (x *Int64) CompareAndSwap(a, b int64) bool { p(vsched.KRMW); return x.v.CompareAndSwap(a, b) }
func (x *Int64) Add(d int64) int64              { p(vsched.KRMW); return x.v.Add(d) }
func (x *Int64) And(m int64) int64              { p(vsched.KRMW); return x.v.And(m) }
func (x *Int64) Or(m int64) int64               { p(vsched.KRMW); return x.v.Or(m) }

// Uint32 stands in for atomic.Uint32.
type Uint32 struct{ v atomic.Uint32 }

func (x *Uint32) Load() uint32                    { p(vsched.KLoad); return x.v.Load() }
func (x *Uint32) Store(v uint32)                  { p(vsched.KStore); x.v.Store(v) }
func (x *Uint32) Swap(v uint32) uint32            { p(vsched.KRMW); return x.v.Swap(v) }
func (x *Uint32) CompareAndSwap(a, b uint32) bool { p(vsched.KRMW); return x.v.CompareAndSwap(a, b) }
func (x *Uint32) Add(d uint32) uint32             { p(vsched.KRMW); return x.v.Add(d) }
func (x *Uint32) And(m uint32) uint32             { p(vsched.KRMW); return x.v.And(m) }
func (x *Uint32) Or(m uint32) uint32              { p(vsched.KRMW); return x.v.Or(m) }

// Uint64 stands in for atomic.Uint64.
type Uint64 struct{ v atomic.Uint64 }

func (x *Uint64) Load() uint64                    { p(vsched.KLoad); return x.v.Load() }
func (x *Uint64) Store(v uint64)                  { p(vsched.KStore); x.v.Store(v) }
func (x *Uint64) Swap(v uint64) uint64            { p(vsched.KRMW); return x.v.Swap(v) }
func (x *Uint64) CompareAndSwap(a, b uint64) bool { p(vsched.KRMW); return x.v.CompareAndSwap(a, b) }
func (x *Uint64) Add(d uint64) uint64             { p(vsched.KRMW); return x.v.Add(d) }
func (x *Uint64) And(m uint64) uint64             { p(vsched.KRMW); return x.v.And(m) }
func (x *Uint64) Or(m uint64) uint64              { p(vsched.KRMW); return x.v.Or(m) }

// Uintptr stands in for atomic.Uintptr.
type Uintptr struct{ v atomic.Uintptr }

func (x *Uintptr) Load() uintptr                    { p(vsched.KLoad); return x.v.Load() }
func (x *Uintptr) Store(v uintptr)                  { p(vsched.KStore); x.v.Store(v) }
func (x *Uintptr) Swap(v uintptr) uintptr           { p(vsched.KRMW); return x.v.Swap(v) }
func (x *Uintptr) CompareAndSwap(a, b uintptr) bool { p(vsched.KRMW); return x.v.CompareAndSwap(a, b) }
func (x *Uintptr) Add(d uintptr) uintptr            { p(vsched.KRMW); return x.v.Add(d) }
func (x *Uintptr) And(m uintptr) uintptr            { p(vsched.KRMW); return x.v.And(m) }
func (x *Uintptr) Or(m uintptr) uintptr             { p(vsched.KRMW); return x.v.Or(m) }

// Pointer stands in for atomic.Pointer.
type Pointer[T any] struct{ v atomic.Pointer[T] }

func (x *Pointer[T]) Load() *T                    { p(vsched.KLoad); return x.v.Load() }
func (x *Pointer[T]) Store(v *T)                  { p(vsched.KStore); x.v.Store(v) }
func (x *Pointer[T]) Swap(v *T) *T                { p(vsched.KRMW); return x.v.Swap(v) }
func (x *Pointer[T]) CompareAndSwap(a, b *T) bool { p(vsched.KRMW); return x.v.CompareAndSwap(a, b) }

// Value stands in for atomic.Value.
type Value struct{ v atomic.Value }

func (x *Value) Load() any                    { p(vsched.KLoad); return x.v.Load() }
func (x *Value) Store(v any)                  { p(vsched.KStore); x.v.Store(v) }
func (x *Value) Swap(v any) any               { p(vsched.KRMW); return x.v.Swap(v) }
func (x *Value) CompareAndSwap(a, b any) bool { p(vsched.KRMW); return x.v.CompareAndSwap(a, b) }
