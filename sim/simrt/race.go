package simrt

import (
	"fmt"
	"unsafe"
)

// RaceOn enables the happens-before detector (set by the C20 build).
var RaceOn bool

// VC is a vector clock indexed by goroutine index.
type VC []uint32

func (v VC) clone() VC { return append(VC(nil), v...) }
func (v *VC) grow(n int) {
	for len(*v) <= n {
		*v = append(*v, 0)
	}
}
func (v *VC) inc(i int) { v.grow(i); (*v)[i]++ }
func (v *VC) join(o VC) {
	if len(o) > len(*v) {
		v.grow(len(o) - 1)
	}
	for i, x := range o {
		if x > (*v)[i] {
			(*v)[i] = x
		}
	}
}
func (v VC) at(i int) uint32 {
	if i < len(v) {
		return v[i]
	}
	return 0
}

// Acq joins a synchronisation object's clock into the current goroutine.
func Acq(v *VC) {
	if RaceOn && S != nil && S.cur != nil {
		S.cur.vc.join(*v)
	}
}

// Rel publishes the current goroutine's clock to a synchronisation object.
func Rel(v *VC) {
	if RaceOn && S != nil && S.cur != nil {
		v.join(S.cur.vc)
		S.cur.vc.inc(S.cur.idx)
	}
}

// CurVC returns a copy of the current clock (and advances it).
func CurVC() VC {
	if RaceOn && S != nil && S.cur != nil {
		c := S.cur.vc.clone()
		S.cur.vc.inc(S.cur.idx)
		return c
	}
	return nil
}

// Join merges a clock into the current goroutine.
func Join(c VC) {
	if RaceOn && S != nil && S.cur != nil {
		S.cur.vc.join(c)
	}
}

type epoch struct {
	g    int
	c    uint32
	site int32
}

type shadow struct {
	w     epoch
	hasW  bool
	reads []epoch
}

// Race is one detected conflict.
type Race struct {
	What   string // field or map
	A, B   int32  // sites
	AW, BW bool
	GA, GB string
	T      int64
}

func (r Race) Key() string { return r.What }

// SiteName resolves instrumentation sites; set by the generated code.
var SiteName = func(i int32) string { return fmt.Sprint("site#", i) }

// FieldName resolves field ids; set by the generated code.
var FieldName = func(i int32) string { return fmt.Sprint("field#", i) }

func (s *Sim) Races() []Race { return s.races }

// access checks and records one access. The shadow map holds the pointer, which keeps the
// object alive: an address is not reused within a run.
func (s *Sim) access(p unsafe.Pointer, write bool, site, field int32) {
	g := s.cur
	sh := s.shadow[p]
	if sh == nil {
		sh = &shadow{}
		s.shadow[p] = sh
	}
	me := epoch{g.idx, g.vc.at(g.idx), site}
	if sh.hasW && sh.w.g != g.idx && sh.w.c > g.vc.at(sh.w.g) {
		s.race(sh.w, true, me, write, field)
	}
	if write {
		for _, r := range sh.reads {
			if r.g != g.idx && r.c > g.vc.at(r.g) {
				s.race(r, false, me, true, field)
			}
		}
		sh.w, sh.hasW = me, true
		sh.reads = sh.reads[:0]
		return
	}
	for i := range sh.reads {
		if sh.reads[i].g == g.idx {
			sh.reads[i] = me
			return
		}
	}
	sh.reads = append(sh.reads, me)
}

func (s *Sim) race(a epoch, aw bool, b epoch, bw bool, field int32) {
	r := Race{What: FieldName(field), A: a.site, B: b.site, AW: aw, BW: bw, GA: s.gs[a.g].Name, GB: s.gs[b.g].Name, T: s.Now}
	k := r.What + fmt.Sprint(r.A, r.B, aw, bw)
	if s.raceKeys[k] {
		return
	}
	s.raceKeys[k] = true
	s.races = append(s.races, r)
}

// Rd records a read of *p and returns p.
func Rd[T any](p *T, site, field int32) *T {
	if S != nil && S.cur != nil && !S.killing && unsafe.Sizeof(*p) > 0 {
		S.access(unsafe.Pointer(p), false, site, field)
	}
	return p
}

// Wr records a write of *p (called after the store).
func Wr[T any](p *T, site, field int32) {
	if S != nil && S.cur != nil && !S.killing && unsafe.Sizeof(*p) > 0 {
		S.access(unsafe.Pointer(p), true, site, field)
	}
}

// MRd records a read of a map's contents and returns it.
func MRd[M ~map[K]V, K comparable, V any](m M, site, field int32) M {
	if S != nil && S.cur != nil && !S.killing && m != nil {
		S.access(*(*unsafe.Pointer)(unsafe.Pointer(&m)), false, site, field)
	}
	return m
}

// MWr records a write to a map's contents and returns it.
func MWr[M ~map[K]V, K comparable, V any](m M, site, field int32) M {
	if S != nil && S.cur != nil && !S.killing && m != nil {
		S.access(*(*unsafe.Pointer)(unsafe.Pointer(&m)), true, site, field)
	}
	return m
}

func (r Race) String() string {
	k := func(w bool) string {
		if w {
			return "write"
		}
		return "read"
	}
	return fmt.Sprintf("data race on %s: %s at %s (%s) and %s at %s (%s) without happens-before", r.What, k(r.AW), SiteName(r.A), r.GA, k(r.BW), SiteName(r.B), r.GB)
}
