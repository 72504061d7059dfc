// Package atomic is the simulated sync/atomic package: every operation is a scheduling point and
// orders what happens before and after it.
package atomic

import (
	real "sync/atomic"

	"sim/rt"
)

func y(k any) {
	if rt.Active() {
		rt.Yield("atomic")
		rt.RaceSync(k)
	}
}

type Value struct{ v real.Value }

func (x *Value) Load() any                    { y(x); return x.v.Load() }
func (x *Value) Store(v any)                  { y(x); x.v.Store(v) }
func (x *Value) Swap(v any) any               { y(x); return x.v.Swap(v) }
func (x *Value) CompareAndSwap(o, n any) bool { y(x); return x.v.CompareAndSwap(o, n) }

type Bool struct{ v bool }

func (x *Bool) Load() bool       { y(x); return x.v }
func (x *Bool) Store(v bool)     { y(x); x.v = v }
func (x *Bool) Swap(v bool) bool { y(x); o := x.v; x.v = v; return o }
func (x *Bool) CompareAndSwap(o, n bool) bool {
	y(x)
	if x.v != o {
		return false
	}
	x.v = n
	return true
}

type Pointer[T any] struct{ v *T }

func (x *Pointer[T]) Load() *T     { y(x); return x.v }
func (x *Pointer[T]) Store(v *T)   { y(x); x.v = v }
func (x *Pointer[T]) Swap(v *T) *T { y(x); o := x.v; x.v = v; return o }
func (x *Pointer[T]) CompareAndSwap(o, n *T) bool {
	y(x)
	if x.v != o {
		return false
	}
	x.v = n
	return true
}

type Int32 struct{ v int32 }

func (x *Int32) Load() int32                    { return LoadInt32(&x.v) }
func (x *Int32) Store(v int32)                  { StoreInt32(&x.v, v) }
func (x *Int32) Swap(v int32) int32             { return SwapInt32(&x.v, v) }
func (x *Int32) Add(d int32) int32              { return AddInt32(&x.v, d) }
func (x *Int32) And(m int32) int32              { y(&x.v); o := x.v; x.v &= m; return o }
func (x *Int32) Or(m int32) int32               { y(&x.v); o := x.v; x.v |= m; return o }
func (x *Int32) CompareAndSwap(o, n int32) bool { return CompareAndSwapInt32(&x.v, o, n) }

func LoadInt32(p *int32) int32          { y(p); return *p }
func StoreInt32(p *int32, v int32)      { y(p); *p = v }
func SwapInt32(p *int32, v int32) int32 { y(p); o := *p; *p = v; return o }
func AddInt32(p *int32, d int32) int32  { y(p); *p += d; return *p }
func CompareAndSwapInt32(p *int32, o, n int32) bool {
	y(p)
	if *p != o {
		return false
	}
	*p = n
	return true
}

type Int64 struct{ v int64 }

func (x *Int64) Load() int64                    { return LoadInt64(&x.v) }
func (x *Int64) Store(v int64)                  { StoreInt64(&x.v, v) }
func (x *Int64) Swap(v int64) int64             { return SwapInt64(&x.v, v) }
func (x *Int64) Add(d int64) int64              { return AddInt64(&x.v, d) }
func (x *Int64) And(m int64) int64              { y(&x.v); o := x.v; x.v &= m; return o }
func (x *Int64) Or(m int64) int64               { y(&x.v); o := x.v; x.v |= m; return o }
func (x *Int64) CompareAndSwap(o, n int64) bool { return CompareAndSwapInt64(&x.v, o, n) }

func LoadInt64(p *int64) int64          { y(p); return *p }
func StoreInt64(p *int64, v int64)      { y(p); *p = v }
func SwapInt64(p *int64, v int64) int64 { y(p); o := *p; *p = v; return o }
func AddInt64(p *int64, d int64) int64  { y(p); *p += d; return *p }
func CompareAndSwapInt64(p *int64, o, n int64) bool {
	y(p)
	if *p != o {
		return false
	}
	*p = n
	return true
}

type Uint32 struct{ v uint32 }

func (x *Uint32) Load() uint32                    { return LoadUint32(&x.v) }
func (x *Uint32) Store(v uint32)                  { StoreUint32(&x.v, v) }
func (x *Uint32) Swap(v uint32) uint32            { return SwapUint32(&x.v, v) }
func (x *Uint32) Add(d uint32) uint32             { return AddUint32(&x.v, d) }
func (x *Uint32) And(m uint32) uint32             { y(&x.v); o := x.v; x.v &= m; return o }
func (x *Uint32) Or(m uint32) uint32              { y(&x.v); o := x.v; x.v |= m; return o }
func (x *Uint32) CompareAndSwap(o, n uint32) bool { return CompareAndSwapUint32(&x.v, o, n) }

func LoadUint32(p *uint32) uint32           { y(p); return *p }
func StoreUint32(p *uint32, v uint32)       { y(p); *p = v }
func SwapUint32(p *uint32, v uint32) uint32 { y(p); o := *p; *p = v; return o }
func AddUint32(p *uint32, d uint32) uint32  { y(p); *p += d; return *p }
func CompareAndSwapUint32(p *uint32, o, n uint32) bool {
	y(p)
	if *p != o {
		return false
	}
	*p = n
	return true
}

type Uint64 struct{ v uint64 }

func (x *Uint64) Load() uint64                    { return LoadUint64(&x.v) }
func (x *Uint64) Store(v uint64)                  { StoreUint64(&x.v, v) }
func (x *Uint64) Swap(v uint64) uint64            { return SwapUint64(&x.v, v) }
func (x *Uint64) Add(d uint64) uint64             { return AddUint64(&x.v, d) }
func (x *Uint64) And(m uint64) uint64             { y(&x.v); o := x.v; x.v &= m; return o }
func (x *Uint64) Or(m uint64) uint64              { y(&x.v); o := x.v; x.v |= m; return o }
func (x *Uint64) CompareAndSwap(o, n uint64) bool { return CompareAndSwapUint64(&x.v, o, n) }

func LoadUint64(p *uint64) uint64           { y(p); return *p }
func StoreUint64(p *uint64, v uint64)       { y(p); *p = v }
func SwapUint64(p *uint64, v uint64) uint64 { y(p); o := *p; *p = v; return o }
func AddUint64(p *uint64, d uint64) uint64  { y(p); *p += d; return *p }
func CompareAndSwapUint64(p *uint64, o, n uint64) bool {
	y(p)
	if *p != o {
		return false
	}
	*p = n
	return true
}

type Uintptr struct{ v uintptr }

func (x *Uintptr) Load() uintptr                    { return LoadUintptr(&x.v) }
func (x *Uintptr) Store(v uintptr)                  { StoreUintptr(&x.v, v) }
func (x *Uintptr) Swap(v uintptr) uintptr           { return SwapUintptr(&x.v, v) }
func (x *Uintptr) Add(d uintptr) uintptr            { return AddUintptr(&x.v, d) }
func (x *Uintptr) And(m uintptr) uintptr            { y(&x.v); o := x.v; x.v &= m; return o }
func (x *Uintptr) Or(m uintptr) uintptr             { y(&x.v); o := x.v; x.v |= m; return o }
func (x *Uintptr) CompareAndSwap(o, n uintptr) bool { return CompareAndSwapUintptr(&x.v, o, n) }

func LoadUintptr(p *uintptr) uintptr            { y(p); return *p }
func StoreUintptr(p *uintptr, v uintptr)        { y(p); *p = v }
func SwapUintptr(p *uintptr, v uintptr) uintptr { y(p); o := *p; *p = v; return o }
func AddUintptr(p *uintptr, d uintptr) uintptr  { y(p); *p += d; return *p }
func CompareAndSwapUintptr(p *uintptr, o, n uintptr) bool {
	y(p)
	if *p != o {
		return false
	}
	*p = n
	return true
}
