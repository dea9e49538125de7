// Package atomic replaces sync/atomic inside the simulator. Generated by gen.py.
package atomic

import (
	"unsafe"

	"verif/simrt"
)

func acqrel(vc *simrt.VC) { simrt.Acq(vc); simrt.Rel(vc) }

type Bool struct {
	v  bool
	vc simrt.VC
}

func (x *Bool) Load() bool       { simrt.Point(); simrt.Acq(&x.vc); return x.v }
func (x *Bool) Store(v bool)     { simrt.Point(); acqrel(&x.vc); x.v = v }
func (x *Bool) Swap(v bool) bool { simrt.Point(); acqrel(&x.vc); o := x.v; x.v = v; return o }
func (x *Bool) CompareAndSwap(o, n bool) bool {
	simrt.Point()
	acqrel(&x.vc)
	if x.v == o {
		x.v = n
		return true
	}
	return false
}

type Pointer[T any] struct {
	v  *T
	vc simrt.VC
}

func (x *Pointer[T]) Load() *T     { simrt.Point(); simrt.Acq(&x.vc); return x.v }
func (x *Pointer[T]) Store(v *T)   { simrt.Point(); acqrel(&x.vc); x.v = v }
func (x *Pointer[T]) Swap(v *T) *T { simrt.Point(); acqrel(&x.vc); o := x.v; x.v = v; return o }
func (x *Pointer[T]) CompareAndSwap(o, n *T) bool {
	simrt.Point()
	acqrel(&x.vc)
	if x.v == o {
		x.v = n
		return true
	}
	return false
}

type Value struct {
	v  any
	vc simrt.VC
}

func (x *Value) Load() any      { simrt.Point(); simrt.Acq(&x.vc); return x.v }
func (x *Value) Store(v any)    { simrt.Point(); acqrel(&x.vc); x.v = v }
func (x *Value) Swap(v any) any { simrt.Point(); acqrel(&x.vc); o := x.v; x.v = v; return o }
func (x *Value) CompareAndSwap(o, n any) bool {
	simrt.Point()
	acqrel(&x.vc)
	if x.v == o {
		x.v = n
		return true
	}
	return false
}

func LoadPointer(p *unsafe.Pointer) unsafe.Pointer {
	simrt.Point()
	acqrel(simrt.AddrVC(unsafe.Pointer(p)))
	return *p
}
func StorePointer(p *unsafe.Pointer, v unsafe.Pointer) {
	simrt.Point()
	acqrel(simrt.AddrVC(unsafe.Pointer(p)))
	*p = v
}
func CompareAndSwapPointer(p *unsafe.Pointer, o, n unsafe.Pointer) bool {
	simrt.Point()
	acqrel(simrt.AddrVC(unsafe.Pointer(p)))
	if *p == o {
		*p = n
		return true
	}
	return false
}

type Int32 struct {
	v  int32
	vc simrt.VC
}

func (x *Int32) Load() int32        { simrt.Point(); simrt.Acq(&x.vc); return x.v }
func (x *Int32) Store(v int32)      { simrt.Point(); acqrel(&x.vc); x.v = v }
func (x *Int32) Swap(v int32) int32 { simrt.Point(); acqrel(&x.vc); o := x.v; x.v = v; return o }
func (x *Int32) Add(d int32) int32  { simrt.Point(); acqrel(&x.vc); x.v += d; return x.v }
func (x *Int32) And(m int32) int32  { simrt.Point(); acqrel(&x.vc); o := x.v; x.v &= m; return o }
func (x *Int32) Or(m int32) int32   { simrt.Point(); acqrel(&x.vc); o := x.v; x.v |= m; return o }
func (x *Int32) CompareAndSwap(o, n int32) bool {
	simrt.Point()
	acqrel(&x.vc)
	if x.v == o {
		x.v = n
		return true
	}
	return false
}

func LoadInt32(p *int32) int32     { simrt.Point(); simrt.Acq(simrt.AddrVC(unsafe.Pointer(p))); return *p }
func StoreInt32(p *int32, v int32) { simrt.Point(); acqrel(simrt.AddrVC(unsafe.Pointer(p))); *p = v }
func SwapInt32(p *int32, v int32) int32 {
	simrt.Point()
	acqrel(simrt.AddrVC(unsafe.Pointer(p)))
	o := *p
	*p = v
	return o
}
func AddInt32(p *int32, d int32) int32 {
	simrt.Point()
	acqrel(simrt.AddrVC(unsafe.Pointer(p)))
	*p += d
	return *p
}
func AndInt32(p *int32, m int32) int32 {
	simrt.Point()
	acqrel(simrt.AddrVC(unsafe.Pointer(p)))
	o := *p
	*p &= m
	return o
}
func OrInt32(p *int32, m int32) int32 {
	simrt.Point()
	acqrel(simrt.AddrVC(unsafe.Pointer(p)))
	o := *p
	*p |= m
	return o
}
func CompareAndSwapInt32(p *int32, o, n int32) bool {
	simrt.Point()
	acqrel(simrt.AddrVC(unsafe.Pointer(p)))
	if *p == o {
		*p = n
		return true
	}
	return false
}

type Int64 struct {
	v  int64
	vc simrt.VC
}

func (x *Int64) Load() int64        { simrt.Point(); simrt.Acq(&x.vc); return x.v }
func (x *Int64) Store(v int64)      { simrt.Point(); acqrel(&x.vc); x.v = v }
func (x *Int64) Swap(v int64) int64 { simrt.Point(); acqrel(&x.vc); o := x.v; x.v = v; return o }
func (x *Int64) Add(d int64) int64  { simrt.Point(); acqrel(&x.vc); x.v += d; return x.v }
func (x *Int64) And(m int64) int64  { simrt.Point(); acqrel(&x.vc); o := x.v; x.v &= m; return o }
func (x *Int64) Or(m int64) int64   { simrt.Point(); acqrel(&x.vc); o := x.v; x.v |= m; return o }
func (x *Int64) CompareAndSwap(o, n int64) bool {
	simrt.Point()
	acqrel(&x.vc)
	if x.v == o {
		x.v = n
		return true
	}
	return false
}

func LoadInt64(p *int64) int64     { simrt.Point(); simrt.Acq(simrt.AddrVC(unsafe.Pointer(p))); return *p }
func StoreInt64(p *int64, v int64) { simrt.Point(); acqrel(simrt.AddrVC(unsafe.Pointer(p))); *p = v }
func SwapInt64(p *int64, v int64) int64 {
	simrt.Point()
	acqrel(simrt.AddrVC(unsafe.Pointer(p)))
	o := *p
	*p = v
	return o
}
func AddInt64(p *int64, d int64) int64 {
	simrt.Point()
	acqrel(simrt.AddrVC(unsafe.Pointer(p)))
	*p += d
	return *p
}
func AndInt64(p *int64, m int64) int64 {
	simrt.Point()
	acqrel(simrt.AddrVC(unsafe.Pointer(p)))
	o := *p
	*p &= m
	return o
}
func OrInt64(p *int64, m int64) int64 {
	simrt.Point()
	acqrel(simrt.AddrVC(unsafe.Pointer(p)))
	o := *p
	*p |= m
	return o
}
func CompareAndSwapInt64(p *int64, o, n int64) bool {
	simrt.Point()
	acqrel(simrt.AddrVC(unsafe.Pointer(p)))
	if *p == o {
		*p = n
		return true
	}
	return false
}

type Uint32 struct {
	v  uint32
	vc simrt.VC
}

func (x *Uint32) Load() uint32         { simrt.Point(); simrt.Acq(&x.vc); return x.v }
func (x *Uint32) Store(v uint32)       { simrt.Point(); acqrel(&x.vc); x.v = v }
func (x *Uint32) Swap(v uint32) uint32 { simrt.Point(); acqrel(&x.vc); o := x.v; x.v = v; return o }
func (x *Uint32) Add(d uint32) uint32  { simrt.Point(); acqrel(&x.vc); x.v += d; return x.v }
func (x *Uint32) And(m uint32) uint32  { simrt.Point(); acqrel(&x.vc); o := x.v; x.v &= m; return o }
func (x *Uint32) Or(m uint32) uint32   { simrt.Point(); acqrel(&x.vc); o := x.v; x.v |= m; return o }
func (x *Uint32) CompareAndSwap(o, n uint32) bool {
	simrt.Point()
	acqrel(&x.vc)
	if x.v == o {
		x.v = n
		return true
	}
	return false
}

func LoadUint32(p *uint32) uint32 {
	simrt.Point()
	simrt.Acq(simrt.AddrVC(unsafe.Pointer(p)))
	return *p
}
func StoreUint32(p *uint32, v uint32) { simrt.Point(); acqrel(simrt.AddrVC(unsafe.Pointer(p))); *p = v }
func SwapUint32(p *uint32, v uint32) uint32 {
	simrt.Point()
	acqrel(simrt.AddrVC(unsafe.Pointer(p)))
	o := *p
	*p = v
	return o
}
func AddUint32(p *uint32, d uint32) uint32 {
	simrt.Point()
	acqrel(simrt.AddrVC(unsafe.Pointer(p)))
	*p += d
	return *p
}
func AndUint32(p *uint32, m uint32) uint32 {
	simrt.Point()
	acqrel(simrt.AddrVC(unsafe.Pointer(p)))
	o := *p
	*p &= m
	return o
}
func OrUint32(p *uint32, m uint32) uint32 {
	simrt.Point()
	acqrel(simrt.AddrVC(unsafe.Pointer(p)))
	o := *p
	*p |= m
	return o
}
func CompareAndSwapUint32(p *uint32, o, n uint32) bool {
	simrt.Point()
	acqrel(simrt.AddrVC(unsafe.Pointer(p)))
	if *p == o {
		*p = n
		return true
	}
	return false
}

type Uint64 struct {
	v  uint64
	vc simrt.VC
}

func (x *Uint64) Load() uint64         { simrt.Point(); simrt.Acq(&x.vc); return x.v }
func (x *Uint64) Store(v uint64)       { simrt.Point(); acqrel(&x.vc); x.v = v }
func (x *Uint64) Swap(v uint64) uint64 { simrt.Point(); acqrel(&x.vc); o := x.v; x.v = v; return o }
func (x *Uint64) Add(d uint64) uint64  { simrt.Point(); acqrel(&x.vc); x.v += d; return x.v }
func (x *Uint64) And(m uint64) uint64  { simrt.Point(); acqrel(&x.vc); o := x.v; x.v &= m; return o }
func (x *Uint64) Or(m uint64) uint64   { simrt.Point(); acqrel(&x.vc); o := x.v; x.v |= m; return o }
func (x *Uint64) CompareAndSwap(o, n uint64) bool {
	simrt.Point()
	acqrel(&x.vc)
	if x.v == o {
		x.v = n
		return true
	}
	return false
}

func LoadUint64(p *uint64) uint64 {
	simrt.Point()
	simrt.Acq(simrt.AddrVC(unsafe.Pointer(p)))
	return *p
}
func StoreUint64(p *uint64, v uint64) { simrt.Point(); acqrel(simrt.AddrVC(unsafe.Pointer(p))); *p = v }
func SwapUint64(p *uint64, v uint64) uint64 {
	simrt.Point()
	acqrel(simrt.AddrVC(unsafe.Pointer(p)))
	o := *p
	*p = v
	return o
}
func AddUint64(p *uint64, d uint64) uint64 {
	simrt.Point()
	acqrel(simrt.AddrVC(unsafe.Pointer(p)))
	*p += d
	return *p
}
func AndUint64(p *uint64, m uint64) uint64 {
	simrt.Point()
	acqrel(simrt.AddrVC(unsafe.Pointer(p)))
	o := *p
	*p &= m
	return o
}
func OrUint64(p *uint64, m uint64) uint64 {
	simrt.Point()
	acqrel(simrt.AddrVC(unsafe.Pointer(p)))
	o := *p
	*p |= m
	return o
}
func CompareAndSwapUint64(p *uint64, o, n uint64) bool {
	simrt.Point()
	acqrel(simrt.AddrVC(unsafe.Pointer(p)))
	if *p == o {
		*p = n
		return true
	}
	return false
}

type Uintptr struct {
	v  uintptr
	vc simrt.VC
}

func (x *Uintptr) Load() uintptr          { simrt.Point(); simrt.Acq(&x.vc); return x.v }
func (x *Uintptr) Store(v uintptr)        { simrt.Point(); acqrel(&x.vc); x.v = v }
func (x *Uintptr) Swap(v uintptr) uintptr { simrt.Point(); acqrel(&x.vc); o := x.v; x.v = v; return o }
func (x *Uintptr) Add(d uintptr) uintptr  { simrt.Point(); acqrel(&x.vc); x.v += d; return x.v }
func (x *Uintptr) And(m uintptr) uintptr  { simrt.Point(); acqrel(&x.vc); o := x.v; x.v &= m; return o }
func (x *Uintptr) Or(m uintptr) uintptr   { simrt.Point(); acqrel(&x.vc); o := x.v; x.v |= m; return o }
func (x *Uintptr) CompareAndSwap(o, n uintptr) bool {
	simrt.Point()
	acqrel(&x.vc)
	if x.v == o {
		x.v = n
		return true
	}
	return false
}

func LoadUintptr(p *uintptr) uintptr {
	simrt.Point()
	simrt.Acq(simrt.AddrVC(unsafe.Pointer(p)))
	return *p
}
func StoreUintptr(p *uintptr, v uintptr) {
	simrt.Point()
	acqrel(simrt.AddrVC(unsafe.Pointer(p)))
	*p = v
}
func SwapUintptr(p *uintptr, v uintptr) uintptr {
	simrt.Point()
	acqrel(simrt.AddrVC(unsafe.Pointer(p)))
	o := *p
	*p = v
	return o
}
func AddUintptr(p *uintptr, d uintptr) uintptr {
	simrt.Point()
	acqrel(simrt.AddrVC(unsafe.Pointer(p)))
	*p += d
	return *p
}
func AndUintptr(p *uintptr, m uintptr) uintptr {
	simrt.Point()
	acqrel(simrt.AddrVC(unsafe.Pointer(p)))
	o := *p
	*p &= m
	return o
}
func OrUintptr(p *uintptr, m uintptr) uintptr {
	simrt.Point()
	acqrel(simrt.AddrVC(unsafe.Pointer(p)))
	o := *p
	*p |= m
	return o
}
func CompareAndSwapUintptr(p *uintptr, o, n uintptr) bool {
	simrt.Point()
	acqrel(simrt.AddrVC(unsafe.Pointer(p)))
	if *p == o {
		*p = n
		return true
	}
	return false
}
