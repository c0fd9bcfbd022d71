// Package mcatomic is a drop-in for sync/atomic whose operations are
// scheduling points of the controlled scheduler.
package mcatomic

import (
	"sync/atomic"
	"unsafe"

	"verif/mc/mcsync"
)

func y() { mcsync.Yield() }

type Value struct{ v atomic.Value }

func (v *Value) Load() any                    { y(); return v.v.Load() }
func (v *Value) Store(x any)                  { y(); v.v.Store(x); y() }
func (v *Value) Swap(x any) any               { y(); r := v.v.Swap(x); y(); return r }
func (v *Value) CompareAndSwap(o, n any) bool { y(); r := v.v.CompareAndSwap(o, n); y(); return r }

type Bool struct{ v atomic.Bool }

func (v *Bool) Load() bool                    { y(); return v.v.Load() }
func (v *Bool) Store(x bool)                  { y(); v.v.Store(x); y() }
func (v *Bool) Swap(x bool) bool              { y(); r := v.v.Swap(x); y(); return r }
func (v *Bool) CompareAndSwap(o, n bool) bool { y(); r := v.v.CompareAndSwap(o, n); y(); return r }

type Pointer[T any] struct{ v atomic.Pointer[T] }

func (v *Pointer[T]) Load() *T                    { y(); return v.v.Load() }
func (v *Pointer[T]) Store(x *T)                  { y(); v.v.Store(x); y() }
func (v *Pointer[T]) Swap(x *T) *T                { y(); r := v.v.Swap(x); y(); return r }
func (v *Pointer[T]) CompareAndSwap(o, n *T) bool { y(); r := v.v.CompareAndSwap(o, n); y(); return r }

func LoadPointer(a *unsafe.Pointer) unsafe.Pointer     { y(); return atomic.LoadPointer(a) }
func StorePointer(a *unsafe.Pointer, v unsafe.Pointer) { y(); atomic.StorePointer(a, v); y() }
func SwapPointer(a *unsafe.Pointer, v unsafe.Pointer) unsafe.Pointer {
	y()
	r := atomic.SwapPointer(a, v)
	y()
	return r
}
func CompareAndSwapPointer(a *unsafe.Pointer, o, n unsafe.Pointer) bool {
	y()
	r := atomic.CompareAndSwapPointer(a, o, n)
	y()
	return r
}

type Int32 struct{ v atomic.Int32 }

func (v *Int32) Load() int32                    { y(); return v.v.Load() }
func (v *Int32) Store(x int32)                  { y(); v.v.Store(x); y() }
func (v *Int32) Add(x int32) int32              { y(); r := v.v.Add(x); y(); return r }
func (v *Int32) And(x int32) int32              { y(); r := v.v.And(x); y(); return r }
func (v *Int32) Or(x int32) int32               { y(); r := v.v.Or(x); y(); return r }
func (v *Int32) Swap(x int32) int32             { y(); r := v.v.Swap(x); y(); return r }
func (v *Int32) CompareAndSwap(o, n int32) bool { y(); r := v.v.CompareAndSwap(o, n); y(); return r }

func LoadInt32(a *int32) int32          { y(); return atomic.LoadInt32(a) }
func StoreInt32(a *int32, v int32)      { y(); atomic.StoreInt32(a, v); y() }
func AddInt32(a *int32, v int32) int32  { y(); r := atomic.AddInt32(a, v); y(); return r }
func AndInt32(a *int32, v int32) int32  { y(); r := atomic.AndInt32(a, v); y(); return r }
func OrInt32(a *int32, v int32) int32   { y(); r := atomic.OrInt32(a, v); y(); return r }
func SwapInt32(a *int32, v int32) int32 { y(); r := atomic.SwapInt32(a, v); y(); return r }
func CompareAndSwapInt32(a *int32, o, n int32) bool {
	y()
	r := atomic.CompareAndSwapInt32(a, o, n)
	y()
	return r
}

type Int64 struct{ v atomic.Int64 }

func (v *Int64) Load() int64                    { y(); return v.v.Load() }
func (v *Int64) Store(x int64)                  { y(); v.v.Store(x); y() }
func (v *Int64) Add(x int64) int64              { y(); r := v.v.Add(x); y(); return r }
func (v *Int64) And(x int64) int64              { y(); r := v.v.And(x); y(); return r }
func (v *Int64) Or(x int64) int64               { y(); r := v.v.Or(x); y(); return r }
func (v *Int64) Swap(x int64) int64             { y(); r := v.v.Swap(x); y(); return r }
func (v *Int64) CompareAndSwap(o, n int64) bool { y(); r := v.v.CompareAndSwap(o, n); y(); return r }

func LoadInt64(a *int64) int64          { y(); return atomic.LoadInt64(a) }
func StoreInt64(a *int64, v int64)      { y(); atomic.StoreInt64(a, v); y() }
func AddInt64(a *int64, v int64) int64  { y(); r := atomic.AddInt64(a, v); y(); return r }
func AndInt64(a *int64, v int64) int64  { y(); r := atomic.AndInt64(a, v); y(); return r }
func OrInt64(a *int64, v int64) int64   { y(); r := atomic.OrInt64(a, v); y(); return r }
func SwapInt64(a *int64, v int64) int64 { y(); r := atomic.SwapInt64(a, v); y(); return r }
func CompareAndSwapInt64(a *int64, o, n int64) bool {
	y()
	r := atomic.CompareAndSwapInt64(a, o, n)
	y()
	return r
}

type Uint32 struct{ v atomic.Uint32 }

func (v *Uint32) Load() uint32                    { y(); return v.v.Load() }
func (v *Uint32) Store(x uint32)                  { y(); v.v.Store(x); y() }
func (v *Uint32) Add(x uint32) uint32             { y(); r := v.v.Add(x); y(); return r }
func (v *Uint32) And(x uint32) uint32             { y(); r := v.v.And(x); y(); return r }
func (v *Uint32) Or(x uint32) uint32              { y(); r := v.v.Or(x); y(); return r }
func (v *Uint32) Swap(x uint32) uint32            { y(); r := v.v.Swap(x); y(); return r }
func (v *Uint32) CompareAndSwap(o, n uint32) bool { y(); r := v.v.CompareAndSwap(o, n); y(); return r }

func LoadUint32(a *uint32) uint32           { y(); return atomic.LoadUint32(a) }
func StoreUint32(a *uint32, v uint32)       { y(); atomic.StoreUint32(a, v); y() }
func AddUint32(a *uint32, v uint32) uint32  { y(); r := atomic.AddUint32(a, v); y(); return r }
func AndUint32(a *uint32, v uint32) uint32  { y(); r := atomic.AndUint32(a, v); y(); return r }
func OrUint32(a *uint32, v uint32) uint32   { y(); r := atomic.OrUint32(a, v); y(); return r }
func SwapUint32(a *uint32, v uint32) uint32 { y(); r := atomic.SwapUint32(a, v); y(); return r }
func CompareAndSwapUint32(a *uint32, o, n uint32) bool {
	y()
	r := atomic.CompareAndSwapUint32(a, o, n)
	y()
	return r
}

type Uint64 struct{ v atomic.Uint64 }

func (v *Uint64) Load() uint64                    { y(); return v.v.Load() }
func (v *Uint64) Store(x uint64)                  { y(); v.v.Store(x); y() }
func (v *Uint64) Add(x uint64) uint64             { y(); r := v.v.Add(x); y(); return r }
func (v *Uint64) And(x uint64) uint64             { y(); r := v.v.And(x); y(); return r }
func (v *Uint64) Or(x uint64) uint64              { y(); r := v.v.Or(x); y(); return r }
func (v *Uint64) Swap(x uint64) uint64            { y(); r := v.v.Swap(x); y(); return r }
func (v *Uint64) CompareAndSwap(o, n uint64) bool { y(); r := v.v.CompareAndSwap(o, n); y(); return r }

func LoadUint64(a *uint64) uint64           { y(); return atomic.LoadUint64(a) }
func StoreUint64(a *uint64, v uint64)       { y(); atomic.StoreUint64(a, v); y() }
func AddUint64(a *uint64, v uint64) uint64  { y(); r := atomic.AddUint64(a, v); y(); return r }
func AndUint64(a *uint64, v uint64) uint64  { y(); r := atomic.AndUint64(a, v); y(); return r }
func OrUint64(a *uint64, v uint64) uint64   { y(); r := atomic.OrUint64(a, v); y(); return r }
func SwapUint64(a *uint64, v uint64) uint64 { y(); r := atomic.SwapUint64(a, v); y(); return r }
func CompareAndSwapUint64(a *uint64, o, n uint64) bool {
	y()
	r := atomic.CompareAndSwapUint64(a, o, n)
	y()
	return r
}

type Uintptr struct{ v atomic.Uintptr }

func (v *Uintptr) Load() uintptr          { y(); return v.v.Load() }
func (v *Uintptr) Store(x uintptr)        { y(); v.v.Store(x); y() }
func (v *Uintptr) Add(x uintptr) uintptr  { y(); r := v.v.Add(x); y(); return r }
func (v *Uintptr) And(x uintptr) uintptr  { y(); r := v.v.And(x); y(); return r }
func (v *Uintptr) Or(x uintptr) uintptr   { y(); r := v.v.Or(x); y(); return r }
func (v *Uintptr) Swap(x uintptr) uintptr { y(); r := v.v.Swap(x); y(); return r }
func (v *Uintptr) CompareAndSwap(o, n uintptr) bool {
	y()
	r := v.v.CompareAndSwap(o, n)
	y()
	return r
}

func LoadUintptr(a *uintptr) uintptr            { y(); return atomic.LoadUintptr(a) }
func StoreUintptr(a *uintptr, v uintptr)        { y(); atomic.StoreUintptr(a, v); y() }
func AddUintptr(a *uintptr, v uintptr) uintptr  { y(); r := atomic.AddUintptr(a, v); y(); return r }
func AndUintptr(a *uintptr, v uintptr) uintptr  { y(); r := atomic.AndUintptr(a, v); y(); return r }
func OrUintptr(a *uintptr, v uintptr) uintptr   { y(); r := atomic.OrUintptr(a, v); y(); return r }
func SwapUintptr(a *uintptr, v uintptr) uintptr { y(); r := atomic.SwapUintptr(a, v); y(); return r }
func CompareAndSwapUintptr(a *uintptr, o, n uintptr) bool {
	y()
	r := atomic.CompareAndSwapUintptr(a, o, n)
	y()
	return r
}
