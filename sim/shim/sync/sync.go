// Package sync replaces the standard sync package inside the simulator: same API, blocking decided by simrt.
package sync

import (
	realsync "sync"

	"verif/simrt"
)

type Locker = realsync.Locker

type Mutex struct {
	locked bool
	q      simrt.WaitQ
	vc     simrt.VC
}

func (m *Mutex) Lock() {
	if simrt.Killing() {
		return
	}
	simrt.Point()
	for m.locked {
		m.q.Wait("sync.Mutex.Lock", 0)
	}
	m.locked = true
	simrt.Acq(&m.vc)
}

func (m *Mutex) TryLock() bool {
	if simrt.Killing() {
		return true
	}
	simrt.Point()
	if m.locked {
		return false
	}
	m.locked = true
	simrt.Acq(&m.vc)
	return true
}

func (m *Mutex) Unlock() {
	if simrt.Killing() {
		return
	}
	simrt.Point()
	if !m.locked {
		panic("fatal error: sync: unlock of unlocked mutex")
	}
	simrt.Rel(&m.vc)
	m.locked = false
	m.q.WakeOne()
}

// RWMutex prefers writers, like the standard one.
type RWMutex struct {
	w       Mutex
	writing bool
	pending bool
	readers int
	rq, wq  simrt.WaitQ
	wvc     simrt.VC
	rvc     simrt.VC
}

func (m *RWMutex) RLock() {
	if simrt.Killing() {
		return
	}
	simrt.Point()
	for m.pending || m.writing {
		m.rq.Wait("sync.RWMutex.RLock", 0)
	}
	m.readers++
	simrt.Acq(&m.wvc)
}

func (m *RWMutex) TryRLock() bool {
	if simrt.Killing() {
		return true
	}
	simrt.Point()
	if m.pending || m.writing {
		return false
	}
	m.readers++
	simrt.Acq(&m.wvc)
	return true
}

func (m *RWMutex) RUnlock() {
	if simrt.Killing() {
		return
	}
	simrt.Point()
	if m.readers <= 0 {
		panic("fatal error: sync: RUnlock of unlocked RWMutex")
	}
	simrt.Rel(&m.rvc)
	m.readers--
	if m.readers == 0 {
		m.wq.WakeAll()
	}
}

func (m *RWMutex) Lock() {
	if simrt.Killing() {
		return
	}
	m.w.Lock()
	m.pending = true
	for m.readers > 0 {
		m.wq.Wait("sync.RWMutex.Lock", 0)
	}
	m.writing = true
	simrt.Acq(&m.wvc)
	simrt.Acq(&m.rvc)
}

func (m *RWMutex) TryLock() bool {
	if simrt.Killing() {
		return true
	}
	simrt.Point()
	if m.w.locked || m.readers > 0 {
		return false
	}
	m.w.locked = true
	m.pending, m.writing = true, true
	simrt.Acq(&m.w.vc)
	simrt.Acq(&m.wvc)
	simrt.Acq(&m.rvc)
	return true
}

func (m *RWMutex) Unlock() {
	if simrt.Killing() {
		return
	}
	simrt.Point()
	if !m.writing {
		panic("fatal error: sync: Unlock of unlocked RWMutex")
	}
	simrt.Rel(&m.wvc)
	m.writing, m.pending = false, false
	m.rq.WakeAll()
	m.w.Unlock()
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type Once struct {
	done bool
	m    Mutex
	vc   simrt.VC
}

func (o *Once) Do(f func()) {
	simrt.Point()
	if o.done {
		simrt.Acq(&o.vc)
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true; simrt.Rel(&o.vc) }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var a T1
	var b T2
	return func() (T1, T2) { o.Do(func() { a, b = f() }); return a, b }
}

type WaitGroup struct {
	n  int
	q  simrt.WaitQ
	vc simrt.VC
}

func (w *WaitGroup) Add(d int) {
	if simrt.Killing() {
		return
	}
	simrt.Point()
	if d < 0 {
		simrt.Rel(&w.vc)
	}
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if w.n == 0 {
		w.q.WakeAll()
	}
}

func (w *WaitGroup) Done() { w.Add(-1) }

func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	simrt.Go(0, func() {
		defer w.Done()
		f()
	})
}

func (w *WaitGroup) Wait() {
	if simrt.Killing() {
		return
	}
	simrt.Point()
	for w.n > 0 {
		w.q.Wait("sync.WaitGroup.Wait", 0)
	}
	simrt.Acq(&w.vc)
}

type Cond struct {
	L  Locker
	q  simrt.WaitQ
	vc simrt.VC
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	if simrt.Killing() {
		return
	}
	c.L.Unlock()
	c.q.Wait("sync.Cond.Wait", 0)
	simrt.Acq(&c.vc)
	c.L.Lock()
}

func (c *Cond) Signal()    { simrt.Point(); simrt.Rel(&c.vc); c.q.WakeOne() }
func (c *Cond) Broadcast() { simrt.Point(); simrt.Rel(&c.vc); c.q.WakeAll() }

// Pool reuses adversarially: usually the most recently returned object, sometimes any other or a new one.
type Pool struct {
	New   func() any
	items []any
	vc    simrt.VC
}

// PoolGets counts Get calls, PoolReuses those served by a returned object.
var PoolGets, PoolReuses int64

func (p *Pool) Get() any {
	simrt.Point()
	simrt.Acq(&p.vc)
	PoolGets++
	n := len(p.items)
	if n > 0 {
		k := simrt.ChooseW(n+1, 0.1)
		if k < n {
			i := n - 1 - k
			x := p.items[i]
			copy(p.items[i:], p.items[i+1:])
			p.items[n-1] = nil
			p.items = p.items[:n-1]
			PoolReuses++
			return x
		}
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(x any) {
	simrt.Point()
	if x == nil || simrt.Killing() {
		return
	}
	simrt.Rel(&p.vc)
	if len(p.items) == 0 {
		simrt.OnRelease(func() { p.items = nil }) // as the garbage collector empties a pool
	}
	p.items = append(p.items, x)
}

// Map keeps insertion order so that Range is deterministic.
type Map struct {
	m    map[any]any
	keys []any
	vc   simrt.VC
}

func (m *Map) pt() {
	simrt.Point()
	simrt.Acq(&m.vc)
}

func (m *Map) set(k, v any) {
	if m.m == nil {
		m.m = map[any]any{}
	}
	if _, ok := m.m[k]; !ok {
		m.keys = append(m.keys, k)
	}
	m.m[k] = v
	simrt.Rel(&m.vc)
}

func (m *Map) del(k any) {
	if _, ok := m.m[k]; !ok {
		return
	}
	delete(m.m, k)
	for i, x := range m.keys {
		if x == k {
			ks := make([]any, 0, len(m.keys)-1)
			m.keys = append(append(ks, m.keys[:i]...), m.keys[i+1:]...)
			break
		}
	}
	simrt.Rel(&m.vc)
}

func (m *Map) Load(k any) (any, bool) { m.pt(); v, ok := m.m[k]; return v, ok }
func (m *Map) Store(k, v any)         { m.pt(); m.set(k, v) }
func (m *Map) Delete(k any)           { m.pt(); m.del(k) }
func (m *Map) Clear()                 { m.pt(); m.m, m.keys = nil, nil }
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	m.pt()
	if o, ok := m.m[k]; ok {
		return o, true
	}
	m.set(k, v)
	return v, false
}
func (m *Map) LoadAndDelete(k any) (any, bool) {
	m.pt()
	v, ok := m.m[k]
	m.del(k)
	return v, ok
}
func (m *Map) Swap(k, v any) (any, bool) {
	m.pt()
	o, ok := m.m[k]
	m.set(k, v)
	return o, ok
}
func (m *Map) CompareAndSwap(k, o, n any) bool {
	m.pt()
	if c, ok := m.m[k]; ok && c == o {
		m.set(k, n)
		return true
	}
	return false
}
func (m *Map) CompareAndDelete(k, o any) bool {
	m.pt()
	if c, ok := m.m[k]; ok && c == o {
		m.del(k)
		return true
	}
	return false
}
func (m *Map) Range(f func(k, v any) bool) {
	m.pt()
	ks := append([]any(nil), m.keys...)
	for _, k := range ks {
		simrt.Point()
		v, ok := m.m[k]
		if ok && !f(k, v) {
			return
		}
	}
}
