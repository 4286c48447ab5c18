// Package zzatomic replaces sync/atomic in the instrumented build.
package zzatomic

import (
	"sync/atomic"
	"unsafe"

	"zzs.local/zzsched"
)

func pre(p unsafe.Pointer, w bool) {
	zzsched.Op(2, p, w, nil)
	zzsched.Acquire(p)
	if w {
		zzsched.Release(p)
	}
}
func post(p unsafe.Pointer) { zzsched.Op(3, p, false, nil) }

func LoadInt32(a *int32) int32 {
	pre(unsafe.Pointer(a), false)
	v := atomic.LoadInt32(a)
	post(unsafe.Pointer(a))
	return v
}
func StoreInt32(a *int32, v int32) {
	pre(unsafe.Pointer(a), true)
	atomic.StoreInt32(a, v)
	post(unsafe.Pointer(a))
}
func SwapInt32(a *int32, v int32) int32 {
	pre(unsafe.Pointer(a), true)
	o := atomic.SwapInt32(a, v)
	post(unsafe.Pointer(a))
	return o
}
func CompareAndSwapInt32(a *int32, o, v int32) bool {
	pre(unsafe.Pointer(a), true)
	ok := atomic.CompareAndSwapInt32(a, o, v)
	post(unsafe.Pointer(a))
	return ok
}

func AddInt32(a *int32, d int32) int32 {
	pre(unsafe.Pointer(a), true)
	v := atomic.AddInt32(a, d)
	post(unsafe.Pointer(a))
	return v
}

func AndInt32(a *int32, d int32) int32 {
	pre(unsafe.Pointer(a), true)
	v := atomic.AndInt32(a, d)
	post(unsafe.Pointer(a))
	return v
}

func OrInt32(a *int32, d int32) int32 {
	pre(unsafe.Pointer(a), true)
	v := atomic.OrInt32(a, d)
	post(unsafe.Pointer(a))
	return v
}

type Int32 struct{ v atomic.Int32 }

func (x *Int32) Load() int32 {
	pre(unsafe.Pointer(x), false)
	v := x.v.Load()
	post(unsafe.Pointer(x))
	return v
}
func (x *Int32) Store(v int32) { pre(unsafe.Pointer(x), true); x.v.Store(v); post(unsafe.Pointer(x)) }
func (x *Int32) Swap(v int32) int32 {
	pre(unsafe.Pointer(x), true)
	o := x.v.Swap(v)
	post(unsafe.Pointer(x))
	return o
}
func (x *Int32) CompareAndSwap(o, v int32) bool {
	pre(unsafe.Pointer(x), true)
	ok := x.v.CompareAndSwap(o, v)
	post(unsafe.Pointer(x))
	return ok
}
func (x *Int32) Add(d int32) int32 {
	pre(unsafe.Pointer(x), true)
	v := x.v.Add(d)
	post(unsafe.Pointer(x))
	return v
}

func LoadInt64(a *int64) int64 {
	pre(unsafe.Pointer(a), false)
	v := atomic.LoadInt64(a)
	post(unsafe.Pointer(a))
	return v
}
func StoreInt64(a *int64, v int64) {
	pre(unsafe.Pointer(a), true)
	atomic.StoreInt64(a, v)
	post(unsafe.Pointer(a))
}
func SwapInt64(a *int64, v int64) int64 {
	pre(unsafe.Pointer(a), true)
	o := atomic.SwapInt64(a, v)
	post(unsafe.Pointer(a))
	return o
}
func CompareAndSwapInt64(a *int64, o, v int64) bool {
	pre(unsafe.Pointer(a), true)
	ok := atomic.CompareAndSwapInt64(a, o, v)
	post(unsafe.Pointer(a))
	return ok
}

func AddInt64(a *int64, d int64) int64 {
	pre(unsafe.Pointer(a), true)
	v := atomic.AddInt64(a, d)
	post(unsafe.Pointer(a))
	return v
}

func AndInt64(a *int64, d int64) int64 {
	pre(unsafe.Pointer(a), true)
	v := atomic.AndInt64(a, d)
	post(unsafe.Pointer(a))
	return v
}

func OrInt64(a *int64, d int64) int64 {
	pre(unsafe.Pointer(a), true)
	v := atomic.OrInt64(a, d)
	post(unsafe.Pointer(a))
	return v
}

type Int64 struct{ v atomic.Int64 }

func (x *Int64) Load() int64 {
	pre(unsafe.Pointer(x), false)
	v := x.v.Load()
	post(unsafe.Pointer(x))
	return v
}
func (x *Int64) Store(v int64) { pre(unsafe.Pointer(x), true); x.v.Store(v); post(unsafe.Pointer(x)) }
func (x *Int64) Swap(v int64) int64 {
	pre(unsafe.Pointer(x), true)
	o := x.v.Swap(v)
	post(unsafe.Pointer(x))
	return o
}
func (x *Int64) CompareAndSwap(o, v int64) bool {
	pre(unsafe.Pointer(x), true)
	ok := x.v.CompareAndSwap(o, v)
	post(unsafe.Pointer(x))
	return ok
}
func (x *Int64) Add(d int64) int64 {
	pre(unsafe.Pointer(x), true)
	v := x.v.Add(d)
	post(unsafe.Pointer(x))
	return v
}

func LoadUint32(a *uint32) uint32 {
	pre(unsafe.Pointer(a), false)
	v := atomic.LoadUint32(a)
	post(unsafe.Pointer(a))
	return v
}
func StoreUint32(a *uint32, v uint32) {
	pre(unsafe.Pointer(a), true)
	atomic.StoreUint32(a, v)
	post(unsafe.Pointer(a))
}
func SwapUint32(a *uint32, v uint32) uint32 {
	pre(unsafe.Pointer(a), true)
	o := atomic.SwapUint32(a, v)
	post(unsafe.Pointer(a))
	return o
}
func CompareAndSwapUint32(a *uint32, o, v uint32) bool {
	pre(unsafe.Pointer(a), true)
	ok := atomic.CompareAndSwapUint32(a, o, v)
	post(unsafe.Pointer(a))
	return ok
}

func AddUint32(a *uint32, d uint32) uint32 {
	pre(unsafe.Pointer(a), true)
	v := atomic.AddUint32(a, d)
	post(unsafe.Pointer(a))
	return v
}

func AndUint32(a *uint32, d uint32) uint32 {
	pre(unsafe.Pointer(a), true)
	v := atomic.AndUint32(a, d)
	post(unsafe.Pointer(a))
	return v
}

func OrUint32(a *uint32, d uint32) uint32 {
	pre(unsafe.Pointer(a), true)
	v := atomic.OrUint32(a, d)
	post(unsafe.Pointer(a))
	return v
}

type Uint32 struct{ v atomic.Uint32 }

func (x *Uint32) Load() uint32 {
	pre(unsafe.Pointer(x), false)
	v := x.v.Load()
	post(unsafe.Pointer(x))
	return v
}
func (x *Uint32) Store(v uint32) { pre(unsafe.Pointer(x), true); x.v.Store(v); post(unsafe.Pointer(x)) }
func (x *Uint32) Swap(v uint32) uint32 {
	pre(unsafe.Pointer(x), true)
	o := x.v.Swap(v)
	post(unsafe.Pointer(x))
	return o
}
func (x *Uint32) CompareAndSwap(o, v uint32) bool {
	pre(unsafe.Pointer(x), true)
	ok := x.v.CompareAndSwap(o, v)
	post(unsafe.Pointer(x))
	return ok
}
func (x *Uint32) Add(d uint32) uint32 {
	pre(unsafe.Pointer(x), true)
	v := x.v.Add(d)
	post(unsafe.Pointer(x))
	return v
}

func LoadUint64(a *uint64) uint64 {
	pre(unsafe.Pointer(a), false)
	v := atomic.LoadUint64(a)
	post(unsafe.Pointer(a))
	return v
}
func StoreUint64(a *uint64, v uint64) {
	pre(unsafe.Pointer(a), true)
	atomic.StoreUint64(a, v)
	post(unsafe.Pointer(a))
}
func SwapUint64(a *uint64, v uint64) uint64 {
	pre(unsafe.Pointer(a), true)
	o := atomic.SwapUint64(a, v)
	post(unsafe.Pointer(a))
	return o
}
func CompareAndSwapUint64(a *uint64, o, v uint64) bool {
	pre(unsafe.Pointer(a), true)
	ok := atomic.CompareAndSwapUint64(a, o, v)
	post(unsafe.Pointer(a))
	return ok
}

func AddUint64(a *uint64, d uint64) uint64 {
	pre(unsafe.Pointer(a), true)
	v := atomic.AddUint64(a, d)
	post(unsafe.Pointer(a))
	return v
}

func AndUint64(a *uint64, d uint64) uint64 {
	pre(unsafe.Pointer(a), true)
	v := atomic.AndUint64(a, d)
	post(unsafe.Pointer(a))
	return v
}

func OrUint64(a *uint64, d uint64) uint64 {
	pre(unsafe.Pointer(a), true)
	v := atomic.OrUint64(a, d)
	post(unsafe.Pointer(a))
	return v
}

type Uint64 struct{ v atomic.Uint64 }

func (x *Uint64) Load() uint64 {
	pre(unsafe.Pointer(x), false)
	v := x.v.Load()
	post(unsafe.Pointer(x))
	return v
}
func (x *Uint64) Store(v uint64) { pre(unsafe.Pointer(x), true); x.v.Store(v); post(unsafe.Pointer(x)) }
func (x *Uint64) Swap(v uint64) uint64 {
	pre(unsafe.Pointer(x), true)
	o := x.v.Swap(v)
	post(unsafe.Pointer(x))
	return o
}
func (x *Uint64) CompareAndSwap(o, v uint64) bool {
	pre(unsafe.Pointer(x), true)
	ok := x.v.CompareAndSwap(o, v)
	post(unsafe.Pointer(x))
	return ok
}
func (x *Uint64) Add(d uint64) uint64 {
	pre(unsafe.Pointer(x), true)
	v := x.v.Add(d)
	post(unsafe.Pointer(x))
	return v
}

func LoadUintptr(a *uintptr) uintptr {
	pre(unsafe.Pointer(a), false)
	v := atomic.LoadUintptr(a)
	post(unsafe.Pointer(a))
	return v
}
func StoreUintptr(a *uintptr, v uintptr) {
	pre(unsafe.Pointer(a), true)
	atomic.StoreUintptr(a, v)
	post(unsafe.Pointer(a))
}
func SwapUintptr(a *uintptr, v uintptr) uintptr {
	pre(unsafe.Pointer(a), true)
	o := atomic.SwapUintptr(a, v)
	post(unsafe.Pointer(a))
	return o
}
func CompareAndSwapUintptr(a *uintptr, o, v uintptr) bool {
	pre(unsafe.Pointer(a), true)
	ok := atomic.CompareAndSwapUintptr(a, o, v)
	post(unsafe.Pointer(a))
	return ok
}

func AddUintptr(a *uintptr, d uintptr) uintptr {
	pre(unsafe.Pointer(a), true)
	v := atomic.AddUintptr(a, d)
	post(unsafe.Pointer(a))
	return v
}

func AndUintptr(a *uintptr, d uintptr) uintptr {
	pre(unsafe.Pointer(a), true)
	v := atomic.AndUintptr(a, d)
	post(unsafe.Pointer(a))
	return v
}

func OrUintptr(a *uintptr, d uintptr) uintptr {
	pre(unsafe.Pointer(a), true)
	v := atomic.OrUintptr(a, d)
	post(unsafe.Pointer(a))
	return v
}

type Uintptr struct{ v atomic.Uintptr }

func (x *Uintptr) Load() uintptr {
	pre(unsafe.Pointer(x), false)
	v := x.v.Load()
	post(unsafe.Pointer(x))
	return v
}
func (x *Uintptr) Store(v uintptr) {
	pre(unsafe.Pointer(x), true)
	x.v.Store(v)
	post(unsafe.Pointer(x))
}
func (x *Uintptr) Swap(v uintptr) uintptr {
	pre(unsafe.Pointer(x), true)
	o := x.v.Swap(v)
	post(unsafe.Pointer(x))
	return o
}
func (x *Uintptr) CompareAndSwap(o, v uintptr) bool {
	pre(unsafe.Pointer(x), true)
	ok := x.v.CompareAndSwap(o, v)
	post(unsafe.Pointer(x))
	return ok
}
func (x *Uintptr) Add(d uintptr) uintptr {
	pre(unsafe.Pointer(x), true)
	v := x.v.Add(d)
	post(unsafe.Pointer(x))
	return v
}

func LoadPointer(a *unsafe.Pointer) unsafe.Pointer {
	pre(unsafe.Pointer(a), false)
	v := atomic.LoadPointer(a)
	post(unsafe.Pointer(a))
	return v
}
func StorePointer(a *unsafe.Pointer, v unsafe.Pointer) {
	pre(unsafe.Pointer(a), true)
	atomic.StorePointer(a, v)
	post(unsafe.Pointer(a))
}
func SwapPointer(a *unsafe.Pointer, v unsafe.Pointer) unsafe.Pointer {
	pre(unsafe.Pointer(a), true)
	o := atomic.SwapPointer(a, v)
	post(unsafe.Pointer(a))
	return o
}
func CompareAndSwapPointer(a *unsafe.Pointer, o, v unsafe.Pointer) bool {
	pre(unsafe.Pointer(a), true)
	ok := atomic.CompareAndSwapPointer(a, o, v)
	post(unsafe.Pointer(a))
	return ok
}

type Bool struct{ v atomic.Bool }

func (x *Bool) Load() bool {
	pre(unsafe.Pointer(x), false)
	v := x.v.Load()
	post(unsafe.Pointer(x))
	return v
}
func (x *Bool) Store(v bool) { pre(unsafe.Pointer(x), true); x.v.Store(v); post(unsafe.Pointer(x)) }
func (x *Bool) Swap(v bool) bool {
	pre(unsafe.Pointer(x), true)
	o := x.v.Swap(v)
	post(unsafe.Pointer(x))
	return o
}
func (x *Bool) CompareAndSwap(o, v bool) bool {
	pre(unsafe.Pointer(x), true)
	ok := x.v.CompareAndSwap(o, v)
	post(unsafe.Pointer(x))
	return ok
}

type Value struct{ v atomic.Value }

func (x *Value) Load() any {
	pre(unsafe.Pointer(x), false)
	v := x.v.Load()
	post(unsafe.Pointer(x))
	return v
}
func (x *Value) Store(v any) { pre(unsafe.Pointer(x), true); x.v.Store(v); post(unsafe.Pointer(x)) }
func (x *Value) Swap(v any) any {
	pre(unsafe.Pointer(x), true)
	o := x.v.Swap(v)
	post(unsafe.Pointer(x))
	return o
}
func (x *Value) CompareAndSwap(o, v any) bool {
	pre(unsafe.Pointer(x), true)
	ok := x.v.CompareAndSwap(o, v)
	post(unsafe.Pointer(x))
	return ok
}

type Pointer[T any] struct{ v atomic.Pointer[T] }

func (x *Pointer[T]) Load() *T {
	pre(unsafe.Pointer(x), false)
	v := x.v.Load()
	post(unsafe.Pointer(x))
	return v
}
func (x *Pointer[T]) Store(v *T) { pre(unsafe.Pointer(x), true); x.v.Store(v); post(unsafe.Pointer(x)) }
func (x *Pointer[T]) Swap(v *T) *T {
	pre(unsafe.Pointer(x), true)
	o := x.v.Swap(v)
	post(unsafe.Pointer(x))
	return o
}
func (x *Pointer[T]) CompareAndSwap(o, v *T) bool {
	pre(unsafe.Pointer(x), true)
	ok := x.v.CompareAndSwap(o, v)
	post(unsafe.Pointer(x))
	return ok
}
