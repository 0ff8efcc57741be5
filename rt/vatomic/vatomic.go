// Package atomic replaces sync/atomic in the instrumented copy.
package atomic

import (
	"sync/atomic"
	"unsafe"

	"github.com/jfcg/sorty/v2/vrt"
)

func AddInt32(p *int32, d int32) int32 {
	vrt.AtomicPoint(unsafe.Pointer(p), "add", true, true)
	return atomic.AddInt32(p, d)
}

func LoadInt32(p *int32) int32 {
	vrt.AtomicPoint(unsafe.Pointer(p), "load", true, false)
	return atomic.LoadInt32(p)
}

func StoreInt32(p *int32, v int32) {
	vrt.AtomicPoint(unsafe.Pointer(p), "store", false, true)
	atomic.StoreInt32(p, v)
}

func SwapInt32(p *int32, v int32) int32 {
	vrt.AtomicPoint(unsafe.Pointer(p), "swap", true, true)
	return atomic.SwapInt32(p, v)
}

func CompareAndSwapInt32(p *int32, o, n int32) bool {
	vrt.AtomicPoint(unsafe.Pointer(p), "cas", true, true)
	return atomic.CompareAndSwapInt32(p, o, n)
}

type Int32 struct {
	v int32
}

func (x *Int32) Add(d int32) int32              { return AddInt32(&x.v, d) }
func (x *Int32) Load() int32                    { return LoadInt32(&x.v) }
func (x *Int32) Store(v int32)                  { StoreInt32(&x.v, v) }
func (x *Int32) Swap(v int32) int32             { return SwapInt32(&x.v, v) }
func (x *Int32) CompareAndSwap(o, n int32) bool { return CompareAndSwapInt32(&x.v, o, n) }

func AddInt64(p *int64, d int64) int64 {
	vrt.AtomicPoint(unsafe.Pointer(p), "add", true, true)
	return atomic.AddInt64(p, d)
}

func LoadInt64(p *int64) int64 {
	vrt.AtomicPoint(unsafe.Pointer(p), "load", true, false)
	return atomic.LoadInt64(p)
}

func StoreInt64(p *int64, v int64) {
	vrt.AtomicPoint(unsafe.Pointer(p), "store", false, true)
	atomic.StoreInt64(p, v)
}

func SwapInt64(p *int64, v int64) int64 {
	vrt.AtomicPoint(unsafe.Pointer(p), "swap", true, true)
	return atomic.SwapInt64(p, v)
}

func CompareAndSwapInt64(p *int64, o, n int64) bool {
	vrt.AtomicPoint(unsafe.Pointer(p), "cas", true, true)
	return atomic.CompareAndSwapInt64(p, o, n)
}

type Int64 struct {
	_ [0]atomic.Int64
	v int64
}

func (x *Int64) Add(d int64) int64              { return AddInt64(&x.v, d) }
func (x *Int64) Load() int64                    { return LoadInt64(&x.v) }
func (x *Int64) Store(v int64)                  { StoreInt64(&x.v, v) }
func (x *Int64) Swap(v int64) int64             { return SwapInt64(&x.v, v) }
func (x *Int64) CompareAndSwap(o, n int64) bool { return CompareAndSwapInt64(&x.v, o, n) }

func AddUint32(p *uint32, d uint32) uint32 {
	vrt.AtomicPoint(unsafe.Pointer(p), "add", true, true)
	return atomic.AddUint32(p, d)
}

func LoadUint32(p *uint32) uint32 {
	vrt.AtomicPoint(unsafe.Pointer(p), "load", true, false)
	return atomic.LoadUint32(p)
}

func StoreUint32(p *uint32, v uint32) {
	vrt.AtomicPoint(unsafe.Pointer(p), "store", false, true)
	atomic.StoreUint32(p, v)
}

func SwapUint32(p *uint32, v uint32) uint32 {
	vrt.AtomicPoint(unsafe.Pointer(p), "swap", true, true)
	return atomic.SwapUint32(p, v)
}

func CompareAndSwapUint32(p *uint32, o, n uint32) bool {
	vrt.AtomicPoint(unsafe.Pointer(p), "cas", true, true)
	return atomic.CompareAndSwapUint32(p, o, n)
}

type Uint32 struct {
	v uint32
}

func (x *Uint32) Add(d uint32) uint32             { return AddUint32(&x.v, d) }
func (x *Uint32) Load() uint32                    { return LoadUint32(&x.v) }
func (x *Uint32) Store(v uint32)                  { StoreUint32(&x.v, v) }
func (x *Uint32) Swap(v uint32) uint32            { return SwapUint32(&x.v, v) }
func (x *Uint32) CompareAndSwap(o, n uint32) bool { return CompareAndSwapUint32(&x.v, o, n) }

func AddUint64(p *uint64, d uint64) uint64 {
	vrt.AtomicPoint(unsafe.Pointer(p), "add", true, true)
	return atomic.AddUint64(p, d)
}

func LoadUint64(p *uint64) uint64 {
	vrt.AtomicPoint(unsafe.Pointer(p), "load", true, false)
	return atomic.LoadUint64(p)
}

func StoreUint64(p *uint64, v uint64) {
	vrt.AtomicPoint(unsafe.Pointer(p), "store", false, true)
	atomic.StoreUint64(p, v)
}

func SwapUint64(p *uint64, v uint64) uint64 {
	vrt.AtomicPoint(unsafe.Pointer(p), "swap", true, true)
	return atomic.SwapUint64(p, v)
}

func CompareAndSwapUint64(p *uint64, o, n uint64) bool {
	vrt.AtomicPoint(unsafe.Pointer(p), "cas", true, true)
	return atomic.CompareAndSwapUint64(p, o, n)
}

type Uint64 struct {
	_ [0]atomic.Int64
	v uint64
}

func (x *Uint64) Add(d uint64) uint64             { return AddUint64(&x.v, d) }
func (x *Uint64) Load() uint64                    { return LoadUint64(&x.v) }
func (x *Uint64) Store(v uint64)                  { StoreUint64(&x.v, v) }
func (x *Uint64) Swap(v uint64) uint64            { return SwapUint64(&x.v, v) }
func (x *Uint64) CompareAndSwap(o, n uint64) bool { return CompareAndSwapUint64(&x.v, o, n) }

func AddUintptr(p *uintptr, d uintptr) uintptr {
	vrt.AtomicPoint(unsafe.Pointer(p), "add", true, true)
	return atomic.AddUintptr(p, d)
}

func LoadUintptr(p *uintptr) uintptr {
	vrt.AtomicPoint(unsafe.Pointer(p), "load", true, false)
	return atomic.LoadUintptr(p)
}

func StoreUintptr(p *uintptr, v uintptr) {
	vrt.AtomicPoint(unsafe.Pointer(p), "store", false, true)
	atomic.StoreUintptr(p, v)
}

func SwapUintptr(p *uintptr, v uintptr) uintptr {
	vrt.AtomicPoint(unsafe.Pointer(p), "swap", true, true)
	return atomic.SwapUintptr(p, v)
}

func CompareAndSwapUintptr(p *uintptr, o, n uintptr) bool {
	vrt.AtomicPoint(unsafe.Pointer(p), "cas", true, true)
	return atomic.CompareAndSwapUintptr(p, o, n)
}

type Uintptr struct {
	v uintptr
}

func (x *Uintptr) Add(d uintptr) uintptr            { return AddUintptr(&x.v, d) }
func (x *Uintptr) Load() uintptr                    { return LoadUintptr(&x.v) }
func (x *Uintptr) Store(v uintptr)                  { StoreUintptr(&x.v, v) }
func (x *Uintptr) Swap(v uintptr) uintptr           { return SwapUintptr(&x.v, v) }
func (x *Uintptr) CompareAndSwap(o, n uintptr) bool { return CompareAndSwapUintptr(&x.v, o, n) }

func LoadPointer(p *unsafe.Pointer) unsafe.Pointer {
	vrt.AtomicPoint(unsafe.Pointer(p), "load", true, false)
	return atomic.LoadPointer(p)
}

func StorePointer(p *unsafe.Pointer, v unsafe.Pointer) {
	vrt.AtomicPoint(unsafe.Pointer(p), "store", false, true)
	atomic.StorePointer(p, v)
}

func SwapPointer(p *unsafe.Pointer, v unsafe.Pointer) unsafe.Pointer {
	vrt.AtomicPoint(unsafe.Pointer(p), "swap", true, true)
	return atomic.SwapPointer(p, v)
}

func CompareAndSwapPointer(p *unsafe.Pointer, o, n unsafe.Pointer) bool {
	vrt.AtomicPoint(unsafe.Pointer(p), "cas", true, true)
	return atomic.CompareAndSwapPointer(p, o, n)
}

type Bool struct{ v uint32 }

func b(x bool) uint32 {
	if x {
		return 1
	}
	return 0
}
func (x *Bool) Load() bool                    { return LoadUint32(&x.v) != 0 }
func (x *Bool) Store(v bool)                  { StoreUint32(&x.v, b(v)) }
func (x *Bool) Swap(v bool) bool              { return SwapUint32(&x.v, b(v)) != 0 }
func (x *Bool) CompareAndSwap(o, n bool) bool { return CompareAndSwapUint32(&x.v, b(o), b(n)) }

type Pointer[T any] struct{ v unsafe.Pointer }

func (x *Pointer[T]) Load() *T     { return (*T)(LoadPointer(&x.v)) }
func (x *Pointer[T]) Store(v *T)   { StorePointer(&x.v, unsafe.Pointer(v)) }
func (x *Pointer[T]) Swap(v *T) *T { return (*T)(SwapPointer(&x.v, unsafe.Pointer(v))) }
func (x *Pointer[T]) CompareAndSwap(o, n *T) bool {
	return CompareAndSwapPointer(&x.v, unsafe.Pointer(o), unsafe.Pointer(n))
}

type Value struct{ v atomic.Value }

func (x *Value) Load() any {
	vrt.AtomicPoint(unsafe.Pointer(x), "load", true, false)
	return x.v.Load()
}
func (x *Value) Store(v any) {
	vrt.AtomicPoint(unsafe.Pointer(x), "store", false, true)
	x.v.Store(v)
}
func (x *Value) Swap(v any) any {
	vrt.AtomicPoint(unsafe.Pointer(x), "swap", true, true)
	return x.v.Swap(v)
}
func (x *Value) CompareAndSwap(o, n any) bool {
	vrt.AtomicPoint(unsafe.Pointer(x), "cas", true, true)
	return x.v.CompareAndSwap(o, n)
}
