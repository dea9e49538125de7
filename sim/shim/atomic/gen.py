ints=[('Int32','int32'),('Int64','int64'),('Uint32','uint32'),('Uint64','uint64'),('Uintptr','uintptr')]
o=['''// Package atomic replaces sync/atomic inside the simulator. Generated by gen.py.
package atomic

import (
	"unsafe"

	"verif/simrt"
)

func acqrel(vc *simrt.VC) { simrt.Acq(vc); simrt.Rel(vc) }

type Bool struct {
	v  bool
	vc simrt.VC
}

func (x *Bool) Load() bool  { simrt.Point(); simrt.Acq(&x.vc); return x.v }
func (x *Bool) Store(v bool) { simrt.Point(); acqrel(&x.vc); x.v = v }
func (x *Bool) Swap(v bool) bool { simrt.Point(); acqrel(&x.vc); o := x.v; x.v = v; return o }
func (x *Bool) CompareAndSwap(o, n bool) bool {
	simrt.Point()
	acqrel(&x.vc)
	if x.v == o {
		x.v = n
		return true
	}
	return false
}

type Pointer[T any] struct {
	v  *T
	vc simrt.VC
}

func (x *Pointer[T]) Load() *T  { simrt.Point(); simrt.Acq(&x.vc); return x.v }
func (x *Pointer[T]) Store(v *T) { simrt.Point(); acqrel(&x.vc); x.v = v }
func (x *Pointer[T]) Swap(v *T) *T { simrt.Point(); acqrel(&x.vc); o := x.v; x.v = v; return o }
func (x *Pointer[T]) CompareAndSwap(o, n *T) bool {
	simrt.Point()
	acqrel(&x.vc)
	if x.v == o {
		x.v = n
		return true
	}
	return false
}

type Value struct {
	v  any
	vc simrt.VC
}

func (x *Value) Load() any  { simrt.Point(); simrt.Acq(&x.vc); return x.v }
func (x *Value) Store(v any) { simrt.Point(); acqrel(&x.vc); x.v = v }
func (x *Value) Swap(v any) any { simrt.Point(); acqrel(&x.vc); o := x.v; x.v = v; return o }
func (x *Value) CompareAndSwap(o, n any) bool {
	simrt.Point()
	acqrel(&x.vc)
	if x.v == o {
		x.v = n
		return true
	}
	return false
}

func LoadPointer(p *unsafe.Pointer) unsafe.Pointer { simrt.Point(); acqrel(simrt.AddrVC(unsafe.Pointer(p))); return *p }
func StorePointer(p *unsafe.Pointer, v unsafe.Pointer) { simrt.Point(); acqrel(simrt.AddrVC(unsafe.Pointer(p))); *p = v }
func CompareAndSwapPointer(p *unsafe.Pointer, o, n unsafe.Pointer) bool {
	simrt.Point()
	acqrel(simrt.AddrVC(unsafe.Pointer(p)))
	if *p == o {
		*p = n
		return true
	}
	return false
}
''']
for N,t in ints:
    o.append(f'''
type {N} struct {{
	v  {t}
	vc simrt.VC
}}

func (x *{N}) Load() {t}  {{ simrt.Point(); simrt.Acq(&x.vc); return x.v }}
func (x *{N}) Store(v {t}) {{ simrt.Point(); acqrel(&x.vc); x.v = v }}
func (x *{N}) Swap(v {t}) {t} {{ simrt.Point(); acqrel(&x.vc); o := x.v; x.v = v; return o }}
func (x *{N}) Add(d {t}) {t} {{ simrt.Point(); acqrel(&x.vc); x.v += d; return x.v }}
func (x *{N}) And(m {t}) {t} {{ simrt.Point(); acqrel(&x.vc); o := x.v; x.v &= m; return o }}
func (x *{N}) Or(m {t}) {t} {{ simrt.Point(); acqrel(&x.vc); o := x.v; x.v |= m; return o }}
func (x *{N}) CompareAndSwap(o, n {t}) bool {{
	simrt.Point()
	acqrel(&x.vc)
	if x.v == o {{
		x.v = n
		return true
	}}
	return false
}}

func Load{N}(p *{t}) {t} {{ simrt.Point(); simrt.Acq(simrt.AddrVC(unsafe.Pointer(p))); return *p }}
func Store{N}(p *{t}, v {t}) {{ simrt.Point(); acqrel(simrt.AddrVC(unsafe.Pointer(p))); *p = v }}
func Swap{N}(p *{t}, v {t}) {t} {{ simrt.Point(); acqrel(simrt.AddrVC(unsafe.Pointer(p))); o := *p; *p = v; return o }}
func Add{N}(p *{t}, d {t}) {t} {{ simrt.Point(); acqrel(simrt.AddrVC(unsafe.Pointer(p))); *p += d; return *p }}
func And{N}(p *{t}, m {t}) {t} {{ simrt.Point(); acqrel(simrt.AddrVC(unsafe.Pointer(p))); o := *p; *p &= m; return o }}
func Or{N}(p *{t}, m {t}) {t} {{ simrt.Point(); acqrel(simrt.AddrVC(unsafe.Pointer(p))); o := *p; *p |= m; return o }}
func CompareAndSwap{N}(p *{t}, o, n {t}) bool {{
	simrt.Point()
	acqrel(simrt.AddrVC(unsafe.Pointer(p)))
	if *p == o {{
		*p = n
		return true
	}}
	return false
}}
''')
open('atomic.go','w').write(''.join(o))
