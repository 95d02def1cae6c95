// Package rtatomic replaces sync/atomic: every operation is a scheduling point with acquire/release semantics.
package rtatomic

import (
	"unsafe"

	"github.com/henderiw/idxtable/verifmc/rt"
)

type Int32 struct{ v int32 }

func (x *Int32) Load() int32                    { return LoadInt32(&x.v) }
func (x *Int32) Store(v int32)                  { StoreInt32(&x.v, v) }
func (x *Int32) Swap(v int32) int32             { return SwapInt32(&x.v, v) }
func (x *Int32) CompareAndSwap(o, n int32) bool { return CompareAndSwapInt32(&x.v, o, n) }
func (x *Int32) Add(d int32) int32              { return AddInt32(&x.v, d) }
func (x *Int32) And(m int32) int32              { return AndInt32(&x.v, m) }
func (x *Int32) Or(m int32) int32               { return OrInt32(&x.v, m) }

//go:norace
func LoadInt32(p *int32) int32 {
	rt.TouchPoint()
	rt.Acq(unsafe.Pointer(p))
	return *p
}

//go:norace
func StoreInt32(p *int32, v int32) {
	rt.TouchPoint()
	rt.RelAcq(unsafe.Pointer(p))
	*p = v
}

//go:norace
func SwapInt32(p *int32, v int32) int32 {
	rt.TouchPoint()
	rt.RelAcq(unsafe.Pointer(p))
	o := *p
	*p = v
	return o
}

//go:norace
func CompareAndSwapInt32(p *int32, o, n int32) bool {
	rt.TouchPoint()
	rt.RelAcq(unsafe.Pointer(p))
	if *p != o {
		return false
	}
	*p = n
	return true
}

//go:norace
func AddInt32(p *int32, d int32) int32 {
	rt.TouchPoint()
	rt.RelAcq(unsafe.Pointer(p))
	*p += d
	return *p
}

//go:norace
func AndInt32(p *int32, m int32) int32 {
	rt.TouchPoint()
	rt.RelAcq(unsafe.Pointer(p))
	o := *p
	*p &= m
	return o
}

//go:norace
func OrInt32(p *int32, m int32) int32 {
	rt.TouchPoint()
	rt.RelAcq(unsafe.Pointer(p))
	o := *p
	*p |= m
	return o
}

type Int64 struct{ v int64 }

func (x *Int64) Load() int64                    { return LoadInt64(&x.v) }
func (x *Int64) Store(v int64)                  { StoreInt64(&x.v, v) }
func (x *Int64) Swap(v int64) int64             { return SwapInt64(&x.v, v) }
func (x *Int64) CompareAndSwap(o, n int64) bool { return CompareAndSwapInt64(&x.v, o, n) }
func (x *Int64) Add(d int64) int64              { return AddInt64(&x.v, d) }
func (x *Int64) And(m int64) int64              { return AndInt64(&x.v, m) }
func (x *Int64) Or(m int64) int64               { return OrInt64(&x.v, m) }

//go:norace
func LoadInt64(p *int64) int64 {
	rt.TouchPoint()
	rt.Acq(unsafe.Pointer(p))
	return *p
}

//go:norace
func StoreInt64(p *int64, v int64) {
	rt.TouchPoint()
	rt.RelAcq(unsafe.Pointer(p))
	*p = v
}

//go:norace
func SwapInt64(p *int64, v int64) int64 {
	rt.TouchPoint()
	rt.RelAcq(unsafe.Pointer(p))
	o := *p
	*p = v
	return o
}

//go:norace
func CompareAndSwapInt64(p *int64, o, n int64) bool {
	rt.TouchPoint()
	rt.RelAcq(unsafe.Pointer(p))
	if *p != o {
		return false
	}
	*p = n
	return true
}

//go:norace
func AddInt64(p *int64, d int64) int64 {
	rt.TouchPoint()
	rt.RelAcq(unsafe.Pointer(p))
	*p += d
	return *p
}

//go:norace
func AndInt64(p *int64, m int64) int64 {
	rt.TouchPoint()
	rt.RelAcq(unsafe.Pointer(p))
	o := *p
	*p &= m
	return o
}

//go:norace
func OrInt64(p *int64, m int64) int64 {
	rt.TouchPoint()
	rt.RelAcq(unsafe.Pointer(p))
	o := *p
	*p |= m
	return o
}

type Uint32 struct{ v uint32 }

func (x *Uint32) Load() uint32                    { return LoadUint32(&x.v) }
func (x *Uint32) Store(v uint32)                  { StoreUint32(&x.v, v) }
func (x *Uint32) Swap(v uint32) uint32            { return SwapUint32(&x.v, v) }
func (x *Uint32) CompareAndSwap(o, n uint32) bool { return CompareAndSwapUint32(&x.v, o, n) }
func (x *Uint32) Add(d uint32) uint32             { return AddUint32(&x.v, d) }
func (x *Uint32) And(m uint32) uint32             { return AndUint32(&x.v, m) }
func (x *Uint32) Or(m uint32) uint32              { return OrUint32(&x.v, m) }

//go:norace
func LoadUint32(p *uint32) uint32 {
	rt.TouchPoint()
	rt.Acq(unsafe.Pointer(p))
	return *p
}

//go:norace
func StoreUint32(p *uint32, v uint32) {
	rt.TouchPoint()
	rt.RelAcq(unsafe.Pointer(p))
	*p = v
}

//go:norace
func SwapUint32(p *uint32, v uint32) uint32 {
	rt.TouchPoint()
	rt.RelAcq(unsafe.Pointer(p))
	o := *p
	*p = v
	return o
}

//go:norace
func CompareAndSwapUint32(p *uint32, o, n uint32) bool {
	rt.TouchPoint()
	rt.RelAcq(unsafe.Pointer(p))
	if *p != o {
		return false
	}
	*p = n
	return true
}

//go:norace
func AddUint32(p *uint32, d uint32) uint32 {
	rt.TouchPoint()
	rt.RelAcq(unsafe.Pointer(p))
	*p += d
	return *p
}

//go:norace
func AndUint32(p *uint32, m uint32) uint32 {
	rt.TouchPoint()
	rt.RelAcq(unsafe.Pointer(p))
	o := *p
	*p &= m
	return o
}

//go:norace
func OrUint32(p *uint32, m uint32) uint32 {
	rt.TouchPoint()
	rt.RelAcq(unsafe.Pointer(p))
	o := *p
	*p |= m
	return o
}

type Uint64 struct{ v uint64 }

func (x *Uint64) Load() uint64                    { return LoadUint64(&x.v) }
func (x *Uint64) Store(v uint64)                  { StoreUint64(&x.v, v) }
func (x *Uint64) Swap(v uint64) uint64            { return SwapUint64(&x.v, v) }
func (x *Uint64) CompareAndSwap(o, n uint64) bool { return CompareAndSwapUint64(&x.v, o, n) }
func (x *Uint64) Add(d uint64) uint64             { return AddUint64(&x.v, d) }
func (x *Uint64) And(m uint64) uint64             { return AndUint64(&x.v, m) }
func (x *Uint64) Or(m uint64) uint64              { return OrUint64(&x.v, m) }

//go:norace
func LoadUint64(p *uint64) uint64 {
	rt.TouchPoint()
	rt.Acq(unsafe.Pointer(p))
	return *p
}

//go:norace
func StoreUint64(p *uint64, v uint64) {
	rt.TouchPoint()
	rt.RelAcq(unsafe.Pointer(p))
	*p = v
}

//go:norace
func SwapUint64(p *uint64, v uint64) uint64 {
	rt.TouchPoint()
	rt.RelAcq(unsafe.Pointer(p))
	o := *p
	*p = v
	return o
}

//go:norace
func CompareAndSwapUint64(p *uint64, o, n uint64) bool {
	rt.TouchPoint()
	rt.RelAcq(unsafe.Pointer(p))
	if *p != o {
		return false
	}
	*p = n
	return true
}

//go:norace
func AddUint64(p *uint64, d uint64) uint64 {
	rt.TouchPoint()
	rt.RelAcq(unsafe.Pointer(p))
	*p += d
	return *p
}

//go:norace
func AndUint64(p *uint64, m uint64) uint64 {
	rt.TouchPoint()
	rt.RelAcq(unsafe.Pointer(p))
	o := *p
	*p &= m
	return o
}

//go:norace
func OrUint64(p *uint64, m uint64) uint64 {
	rt.TouchPoint()
	rt.RelAcq(unsafe.Pointer(p))
	o := *p
	*p |= m
	return o
}

type Uintptr struct{ v uintptr }

func (x *Uintptr) Load() uintptr                    { return LoadUintptr(&x.v) }
func (x *Uintptr) Store(v uintptr)                  { StoreUintptr(&x.v, v) }
func (x *Uintptr) Swap(v uintptr) uintptr           { return SwapUintptr(&x.v, v) }
func (x *Uintptr) CompareAndSwap(o, n uintptr) bool { return CompareAndSwapUintptr(&x.v, o, n) }
func (x *Uintptr) Add(d uintptr) uintptr            { return AddUintptr(&x.v, d) }
func (x *Uintptr) And(m uintptr) uintptr            { return AndUintptr(&x.v, m) }
func (x *Uintptr) Or(m uintptr) uintptr             { return OrUintptr(&x.v, m) }

//go:norace
func LoadUintptr(p *uintptr) uintptr {
	rt.TouchPoint()
	rt.Acq(unsafe.Pointer(p))
	return *p
}

//go:norace
func StoreUintptr(p *uintptr, v uintptr) {
	rt.TouchPoint()
	rt.RelAcq(unsafe.Pointer(p))
	*p = v
}

//go:norace
func SwapUintptr(p *uintptr, v uintptr) uintptr {
	rt.TouchPoint()
	rt.RelAcq(unsafe.Pointer(p))
	o := *p
	*p = v
	return o
}

//go:norace
func CompareAndSwapUintptr(p *uintptr, o, n uintptr) bool {
	rt.TouchPoint()
	rt.RelAcq(unsafe.Pointer(p))
	if *p != o {
		return false
	}
	*p = n
	return true
}

//go:norace
func AddUintptr(p *uintptr, d uintptr) uintptr {
	rt.TouchPoint()
	rt.RelAcq(unsafe.Pointer(p))
	*p += d
	return *p
}

//go:norace
func AndUintptr(p *uintptr, m uintptr) uintptr {
	rt.TouchPoint()
	rt.RelAcq(unsafe.Pointer(p))
	o := *p
	*p &= m
	return o
}

//go:norace
func OrUintptr(p *uintptr, m uintptr) uintptr {
	rt.TouchPoint()
	rt.RelAcq(unsafe.Pointer(p))
	o := *p
	*p |= m
	return o
}

// Bool replaces atomic.Bool.
type Bool struct{ v uint32 }

func b2u(b bool) uint32 {
	if b {
		return 1
	}
	return 0
}

func (x *Bool) Load() bool                    { return LoadUint32(&x.v) != 0 }
func (x *Bool) Store(v bool)                  { StoreUint32(&x.v, b2u(v)) }
func (x *Bool) Swap(v bool) bool              { return SwapUint32(&x.v, b2u(v)) != 0 }
func (x *Bool) CompareAndSwap(o, n bool) bool { return CompareAndSwapUint32(&x.v, b2u(o), b2u(n)) }

// Pointer replaces atomic.Pointer.
type Pointer[T any] struct{ p *T }

//go:norace
func (x *Pointer[T]) Load() *T {
	rt.TouchPoint()
	rt.Acq(unsafe.Pointer(x))
	return x.p
}

//go:norace
func (x *Pointer[T]) Store(v *T) {
	rt.TouchPoint()
	rt.RelAcq(unsafe.Pointer(x))
	x.p = v
}

//go:norace
func (x *Pointer[T]) Swap(v *T) *T {
	rt.TouchPoint()
	rt.RelAcq(unsafe.Pointer(x))
	o := x.p
	x.p = v
	return o
}

//go:norace
func (x *Pointer[T]) CompareAndSwap(o, n *T) bool {
	rt.TouchPoint()
	rt.RelAcq(unsafe.Pointer(x))
	if x.p != o {
		return false
	}
	x.p = n
	return true
}

// Value replaces atomic.Value.
type Value struct{ v any }

//go:norace
func (x *Value) Load() any {
	rt.TouchPoint()
	rt.Acq(unsafe.Pointer(x))
	return x.v
}

//go:norace
func (x *Value) Store(v any) {
	if v == nil {
		panic("sync/atomic: store of nil value into Value")
	}
	rt.TouchPoint()
	rt.RelAcq(unsafe.Pointer(x))
	x.v = v
}

//go:norace
func (x *Value) Swap(v any) any {
	rt.TouchPoint()
	rt.RelAcq(unsafe.Pointer(x))
	o := x.v
	x.v = v
	return o
}

//go:norace
func (x *Value) CompareAndSwap(o, n any) bool {
	rt.TouchPoint()
	rt.RelAcq(unsafe.Pointer(x))
	if x.v != o {
		return false
	}
	x.v = n
	return true
}
