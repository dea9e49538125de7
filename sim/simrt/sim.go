// Package simrt is the simulator runtime: a seeded cooperative scheduler over coroutines, a discrete-event clock,
// Go channel/select semantics, recorded choices for exact replay, and a happens-before race detector.
//
// Exactly one simulated goroutine runs at any time; which one is decided only here.
package simrt

import (
	"container/heap"
	"fmt"
	"iter"
	"math"
	"runtime/debug"
	"sort"
	"strconv"
	"unsafe"
)

type gstate uint8

const (
	gRunnable gstate = iota
	gRunning
	gBlocked
	gDone
)

// G is a simulated goroutine.
type G struct {
	ID     uint64
	Name   string
	Lib    bool // started by a go statement of the code under test
	Tag    any  // harness annotation
	nchild int
	idx    int

	next  func() (struct{}, bool)
	stop  func()
	yield func(struct{}) bool
	fn    func()

	state gstate
	steps int64
	nch   uint32
	site  int32
	why   string
	prio  int64
	wtok  uint64

	rp     []Preempt // replay: remaining preemptions of this goroutine
	vc     VC
	GoSite int32
}

func (g *G) Done() bool     { return g.state == gDone }
func (g *G) Blocked() bool  { return g.state == gBlocked }
func (g *G) Why() string    { return g.why }
func (g *G) Site() int32    { return g.site }
func (g *G) String() string { return g.Name }

// Strategy parameterises the random scheduler of one run.
type Strategy struct {
	Mean     float64 `json:"mean"`      // mean yield weight between pre-emptions, 0: never pre-empt
	SyncW    int64   `json:"sync_w"`    // weight of a synchronisation point relative to a statement
	PickRand float64 `json:"pick"`      // probability that the next goroutine is picked at random (else FIFO)
	Prio     bool    `json:"prio"`      // priority based (PCT-like)
	Changes  int     `json:"changes"`   // number of priority change points
	StallP   float64 `json:"stall_p"`   // probability that a pre-emption is a stall in simulated time
	StallMax int64   `json:"stall_max"` // max stall, ns
	StallTot int64   `json:"stall_tot"` // total stall budget, ns
	SelRand  bool    `json:"sel_rand"`  // random choice among ready select cases
}

// Preempt is one recorded deviation from "keep running".
type Preempt struct {
	G     uint64 `json:"g"`
	Step  int64  `json:"s"`
	To    uint64 `json:"to,omitempty"`
	Stall int64  `json:"stall,omitempty"`
}

// Choice is one recorded non-default choice.
type Choice struct {
	G uint64 `json:"g"`
	N uint32 `json:"n"`
	V int    `json:"v"`
}

// Sched is the complete recorded schedule of a run.
type Sched struct {
	Preempts []Preempt `json:"preempts"`
	Choices  []Choice  `json:"choices"`
}

type ckey struct {
	g uint64
	n uint32
}

// Sim is one simulated execution.
type Sim struct {
	Now         int64
	Horizon     int64
	MaxStep     int64 // total yield-weight cap without the clock advancing
	cur         *G
	last        *G
	gs          []*G
	ids         map[uint64]bool
	runq        []*G
	forced      *G
	timers      timerHeap
	tseq        uint64
	rng         *RNG
	st          Strategy
	replay      bool
	rep         map[ckey]int
	repPre      map[uint64][]Preempt
	Rec         Sched
	ycStart     int64
	remain      int64 // record mode: countdown shared by all goroutines
	total       int64
	totalAt     int64 // total when the clock last advanced
	stalled     int64
	killing     bool
	halt        bool
	Reason      string
	Panics      []PanicInfo
	chans       map[uintptr]*hchan
	ords        map[any]int
	Hash        uint64
	Switch      int
	NPre        int
	NStall      int
	NSelMulti   int
	changes     []int64
	ptok        uint64
	nprio       int64
	races       []Race
	aux         uint64
	addrVC      map[unsafe.Pointer]*VC
	shadow      map[unsafe.Pointer]*shadow
	onRel       []func()
	raceKeys    map[string]bool
	Trace       []TraceEv
	TraceOn     bool
	QuiesceHook func() bool // called when nothing is runnable and no timer is pending; true: continue
}

type PanicInfo struct {
	G     string
	Lib   bool
	Val   string
	Stack string
	Site  int32
}

// TraceEv is a scheduling trace entry for replay files.
type TraceEv struct {
	T    int64
	From string
	Site int32
	Why  string
	To   string
}

// S is the active simulation (nil outside of a run).
var S *Sim

var yc int64 = math.MaxInt64
var curSite int32

const heartbeat = 1 << 17

type killT struct{}

var killSentinel = &killT{}

// IsKill reports whether a recovered value is the simulator tearing a goroutine down; it must be re-panicked.
func IsKill(v any) bool { return v == any(killSentinel) }

// New prepares a simulation in record mode.
func New(seed uint64, st Strategy) *Sim {
	s := &Sim{rng: NewRNG(seed), st: st, chans: map[uintptr]*hchan{}, ords: map[any]int{}, addrVC: map[unsafe.Pointer]*VC{}, aux: 0x1234567, MaxStep: 40_000_000, Horizon: math.MaxInt64}
	s.Hash = 14695981039346656037
	if s.st.SyncW < 1 {
		s.st.SyncW = 1
	}
	if st.Prio {
		for i := 0; i < st.Changes; i++ {
			s.changes = append(s.changes, int64(s.rng.N(60000)))
		}
		sort.Slice(s.changes, func(i, j int) bool { return s.changes[i] < s.changes[j] })
	}
	s.remain = s.drawCountdown()
	if RaceOn {
		s.shadow = map[unsafe.Pointer]*shadow{}
		s.raceKeys = map[string]bool{}
	}
	return s
}

// NewReplay prepares a simulation that follows a recorded schedule.
func NewReplay(rec Sched, st Strategy) *Sim {
	s := New(0, st)
	s.replay = true
	s.rep = map[ckey]int{}
	s.repPre = map[uint64][]Preempt{}
	for _, c := range rec.Choices {
		s.rep[ckey{c.G, c.N}] = c.V
	}
	for _, p := range rec.Preempts {
		s.repPre[p.G] = append(s.repPre[p.G], p)
	}
	for _, l := range s.repPre {
		sort.SliceStable(l, func(i, j int) bool { return l[i].Step < l[j].Step })
	}
	return s
}

func (s *Sim) drawCountdown() int64 {
	if s.st.Prio {
		// next change point
		for len(s.changes) > 0 && s.changes[0] <= s.total {
			s.changes = s.changes[1:]
		}
		if len(s.changes) > 0 {
			return min(s.changes[0]-s.total, heartbeat)
		}
		return heartbeat
	}
	if s.st.Mean <= 0 {
		return heartbeat
	}
	u := s.rng.F()
	d := int64(-math.Log(1-u) * s.st.Mean)
	return min(d, heartbeat)
}

func (s *Sim) mix(v uint64) {
	s.Hash ^= v
	s.Hash *= 1099511628211
}

// Mix folds a value into the run's trace hash.
func (s *Sim) Mix(v uint64) { s.mix(v) }

func (s *Sim) MixStr(v string) {
	for i := 0; i < len(v); i++ {
		s.Hash ^= uint64(v[i])
		s.Hash *= 1099511628211
	}
}

func fnvName(n string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(n); i++ {
		h ^= uint64(n[i])
		h *= 1099511628211
	}
	return h >> 11 // 53 bits: exact in JSON
}

// Y is the statement-level yield point inserted by the rewriter.
func Y(site int32) {
	curSite = site
	yc--
	if yc < 0 {
		yslow()
	}
}

// Point is a synchronisation-level yield point (shims, simulated I/O).
func Point() {
	s := S
	if s == nil || s.cur == nil {
		return
	}
	if s.killing {
		panic(killSentinel)
	}
	yc -= s.st.SyncW
	if yc < 0 {
		yslow()
	}
}

// InSim reports whether the caller runs as a simulated goroutine.
func InSim() bool { return S != nil && S.cur != nil }

// Killing reports whether the run is being torn down.
func Killing() bool { return S != nil && S.killing }

func yslow() {
	s := S
	if s == nil || s.cur == nil {
		yc = math.MaxInt64
		return
	}
	if s.killing {
		panic(killSentinel)
	}
	g := s.cur
	g.site = curSite
	consumed := s.ycStart - yc
	g.steps += consumed
	s.total += consumed
	if s.total-s.totalAt > s.MaxStep {
		s.halt = true
		s.Reason = "livelock"
		g.why = "running"
		s.switchOut(g)
		return
	}
	if s.replay {
		for len(g.rp) > 0 && g.rp[0].Step <= g.steps {
			p := g.rp[0]
			g.rp = g.rp[1:]
			if p.Step == g.steps {
				s.arm(g)
				s.doPreempt(g, p)
				return
			}
		}
		s.arm(g)
		return
	}
	// record mode
	var p Preempt
	if s.st.Prio {
		for len(s.changes) > 0 && s.changes[0] <= s.total {
			s.changes = s.changes[1:]
			s.nprio--
			g.prio = s.nprio
		}
		s.remain = s.drawCountdown()
		var best *G
		for _, o := range s.runq {
			if best == nil || o.prio > best.prio {
				best = o
			}
		}
		if best == nil || best.prio < g.prio {
			s.arm(g)
			return
		}
		p = Preempt{G: g.ID, Step: g.steps, To: best.ID}
	} else {
		s.remain = s.drawCountdown()
		if s.st.Mean <= 0 {
			s.arm(g)
			return
		}
		if s.st.StallMax > 0 && s.stalled < s.st.StallTot && s.rng.P(s.st.StallP) {
			d := int64(math.Exp(s.rng.F() * math.Log(float64(s.st.StallMax))))
			if d > s.st.StallTot-s.stalled {
				d = s.st.StallTot - s.stalled
			}
			p = Preempt{G: g.ID, Step: g.steps, Stall: d}
		} else {
			if len(s.runq) == 0 {
				s.arm(g)
				return
			}
			p = Preempt{G: g.ID, Step: g.steps, To: s.runq[s.rng.N(len(s.runq))].ID}
		}
	}
	s.Rec.Preempts = append(s.Rec.Preempts, p)
	s.arm(g)
	s.doPreempt(g, p)
}

// arm sets the countdown for g about to (continue to) run.
func (s *Sim) arm(g *G) {
	if s.replay {
		if len(g.rp) > 0 {
			yc = min(max(g.rp[0].Step-g.steps-1, 0), heartbeat)
		} else {
			yc = heartbeat
		}
	} else {
		yc = s.remain
	}
	yc = min(yc, max(s.totalAt+s.MaxStep-s.total, 0)) // the livelock cap is met at the same step in every mode
	s.ycStart = yc
}

func (s *Sim) disarm(g *G) {
	consumed := s.ycStart - yc
	g.steps += consumed
	s.total += consumed
	if !s.replay {
		s.remain = max(yc, 0)
	}
	s.ycStart = yc
}

func (s *Sim) doPreempt(g *G, p Preempt) {
	if p.Stall > 0 {
		s.NStall++
		s.stalled += p.Stall
		g.why = "stalled"
		s.After(p.Stall, func() { s.ready(g) })
		g.state = gBlocked
		s.switchOut(g)
		return
	}
	for _, o := range s.runq {
		if o.ID == p.To {
			s.NPre++
			s.forced = o
			g.state = gRunnable
			g.why = "preempted"
			s.runq = append(s.runq, g)
			s.switchOut(g)
			return
		}
	}
}

func (s *Sim) switchOut(g *G) {
	g.site = curSite
	s.disarm(g)
	if !g.yield(struct{}{}) {
		panic(killSentinel)
	}
}

// Block parks the current goroutine until Ready is called for it.
func Block(why string) {
	s := S
	g := s.cur
	if s.killing {
		panic(killSentinel)
	}
	g.state = gBlocked
	g.why = why
	s.switchOut(g)
}

// Ready makes a blocked goroutine runnable.
func Ready(g *G) { S.ready(g) }

func (s *Sim) ready(g *G) {
	if g.state != gBlocked || s.killing {
		return
	}
	g.state = gRunnable
	s.runq = append(s.runq, g)
	if s.st.Prio && !s.replay && s.cur != nil && g.prio > s.cur.prio {
		// let the higher priority goroutine run at the next yield point
		s.remain = 0
		c := s.ycStart - yc
		s.cur.steps += c
		s.total += c
		yc = 0
		s.ycStart = 0
	}
}

// Cur is the running simulated goroutine (nil outside).
func Cur() *G {
	if S == nil {
		return nil
	}
	return S.cur
}

// Go starts a goroutine on behalf of the code under test.
func Go(site int32, fn func()) {
	s := S
	if s == nil {
		panic("simrt: go statement outside a simulation")
	}
	Point()
	g := s.spawn("", fn)
	g.Lib = true
	g.GoSite = site
	if s.cur != nil && s.cur.Tag != nil {
		g.Tag = s.cur.Tag
	}
}

// Spawn starts a harness goroutine.
func Spawn(name string, fn func()) *G {
	return S.spawn(name, fn)
}

func (s *Sim) spawn(name string, fn func()) *G {
	g := &G{fn: fn, idx: len(s.gs)}
	if name == "" {
		p := s.cur
		if p != nil {
			p.nchild++
			name = p.Name + "/" + strconv.Itoa(p.nchild)
		} else {
			name = "t" + strconv.Itoa(len(s.gs))
		}
	}
	g.Name = name
	g.ID = fnvName(name)
	if s.ids[g.ID] {
		g.Name = name + "'" + strconv.Itoa(len(s.gs))
		g.ID = fnvName(g.Name)
	}
	if s.ids == nil {
		s.ids = map[uint64]bool{}
	}
	s.ids[g.ID] = true
	if s.replay {
		g.rp = s.repPre[g.ID]
	}
	if s.st.Prio && !s.replay {
		g.prio = int64(s.rng.U64() >> 2)
	}
	if RaceOn {
		if s.cur != nil {
			g.vc = s.cur.vc.clone()
			s.cur.vc.inc(s.cur.idx)
		}
		g.vc.inc(g.idx)
	}
	s.gs = append(s.gs, g)
	g.next, g.stop = iter.Pull(func(y func(struct{}) bool) {
		g.yield = y
		defer func() {
			if r := recover(); r != nil && !IsKill(r) {
				s.Panics = append(s.Panics, PanicInfo{G: g.Name, Lib: g.Lib, Val: fmt.Sprint(r), Stack: string(debug.Stack()), Site: curSite})
				s.halt = true
				s.Reason = "panic"
			}
			g.site = curSite
			if !s.killing {
				s.disarm(g)
			}
			g.state = gDone
		}()
		g.fn()
	})
	g.state = gRunnable
	s.runq = append(s.runq, g)
	return g
}

// Choose makes a recorded choice in [0,n); 0 is the default.
func (s *Sim) Choose(n int) int {
	if n <= 1 {
		return 0
	}
	g := s.cur
	if g == nil {
		g = s.last
	}
	var k ckey
	if g != nil {
		k = ckey{g.ID, g.nch}
		g.nch++
	}
	if s.replay {
		v := s.rep[k]
		if v >= n {
			v %= n
		}
		return v
	}
	v := s.rng.N(n)
	s.record(k, v)
	return v
}

func (s *Sim) record(k ckey, v int) {
	if v != 0 {
		s.Rec.Choices = append(s.Rec.Choices, Choice{k.g, k.n, v})
	}
}

// ChooseW makes a recorded choice in [0,n), 0 with probability 1-p and otherwise uniform in [1,n).
func (s *Sim) ChooseW(n int, p float64) int {
	if n <= 1 {
		return 0
	}
	g := s.cur
	if g == nil {
		g = s.last
	}
	var k ckey
	if g != nil {
		k = ckey{g.ID, g.nch}
		g.nch++
	}
	if s.replay {
		v := s.rep[k]
		if v >= n {
			v %= n
		}
		return v
	}
	v := 0
	if s.rng.P(p) {
		v = 1 + s.rng.N(n-1)
	}
	s.record(k, v)
	return v
}

// Choose is the package-level form of Sim.Choose; outside a simulation it returns 0.
func Choose(n int) int {
	if S == nil {
		return 0
	}
	return S.Choose(n)
}

func ChooseW(n int, p float64) int {
	if S == nil {
		return 0
	}
	return S.ChooseW(n, p)
}

func (s *Sim) pick() int {
	n := len(s.runq)
	if s.forced != nil {
		f := s.forced
		s.forced = nil
		for i, g := range s.runq {
			if g == f {
				return i
			}
		}
	}
	if n == 1 {
		return 0
	}
	if s.replay {
		return s.Choose(n)
	}
	if s.st.Prio {
		best := 0
		for i, g := range s.runq {
			if g.prio > s.runq[best].prio {
				best = i
			}
		}
		var k ckey
		if s.last != nil {
			k = ckey{s.last.ID, s.last.nch}
			s.last.nch++
		}
		s.record(k, best)
		return best
	}
	return s.ChooseW(n, s.st.PickRand)
}

// Run executes main and everything it starts until quiescence, halt or horizon.
func (s *Sim) Run(main func()) {
	S = s
	defer func() {
		s.teardown()
		S = nil
		yc = math.MaxInt64
	}()
	s.spawn("main", main)
	for !s.halt {
		s.fireDue()
		if len(s.runq) == 0 {
			if len(s.timers) == 0 {
				if s.QuiesceHook != nil && s.QuiesceHook() {
					continue
				}
				s.Reason = "quiescent"
				return
			}
			t := s.timers[0]
			if t.at > s.Horizon {
				s.Reason = "horizon"
				return
			}
			if t.at > s.Now {
				s.Now = t.at
				s.totalAt = s.total
			}
			continue
		}
		i := s.pick()
		g := s.runq[i]
		copy(s.runq[i:], s.runq[i+1:])
		s.runq = s.runq[:len(s.runq)-1]
		if s.last != g {
			s.Switch++
			if s.last != nil {
				s.mix(s.last.ID ^ uint64(s.last.site))
				if Pairs != nil {
					Pairs[uint64(s.last.site)<<32|uint64(uint32(g.site))] = struct{}{}
				}
				if s.TraceOn {
					s.Trace = append(s.Trace, TraceEv{s.Now, s.last.Name, s.last.site, s.last.why, g.Name})
				}
			}
			s.mix(g.ID)
		}
		g.state = gRunning
		s.cur = g
		s.arm(g)
		curSite = g.site
		g.next()
		s.cur = nil
		s.last = g
		yc = math.MaxInt64
		s.ycStart = yc
	}
	if s.Reason == "" {
		s.Reason = "halt"
	}
}

// Pairs, if set, collects the distinct (switched out at, switched in at) site pairs.
var Pairs map[uint64]struct{}

// Release drops what the simulator itself references, so that only the code under test keeps objects alive.
func (s *Sim) Release() {
	s.ords, s.chans, s.addrVC, s.shadow, s.timers, s.runq, s.gs, s.ids, s.last, s.forced = nil, nil, nil, nil, nil, nil, nil, nil, nil, nil
	for _, f := range s.onRel {
		f()
	}
	s.onRel = nil
}

// OnRelease registers f to run when the simulator lets go of the code under test.
func OnRelease(f func()) {
	if S != nil {
		S.onRel = append(S.onRel, f)
	}
}

// Halt stops the run at the next scheduling point.
func (s *Sim) Halt(reason string) {
	s.halt = true
	if s.Reason == "" {
		s.Reason = reason
	}
}

func (s *Sim) teardown() {
	s.killing = true
	for _, g := range s.gs {
		if g.state != gDone {
			s.cur = g
			g.stop()
			g.state = gDone
		}
	}
	s.cur = nil
}

// Goroutines lists all goroutines ever started.
func (s *Sim) Goroutines() []*G { return s.gs }

// Runnable reports the number of runnable goroutines other than the current one.
func (s *Sim) Runnable() int { return len(s.runq) }

// Total is the number of yield-weight units executed.
func (s *Sim) Total() int64 { return s.total }

// ---- timers ----

type Timer struct {
	at  int64
	seq uint64
	f   func()
	pos int
}

type timerHeap []*Timer

func (h timerHeap) Len() int { return len(h) }
func (h timerHeap) Less(i, j int) bool {
	if h[i].at != h[j].at {
		return h[i].at < h[j].at
	}
	return h[i].seq < h[j].seq
}
func (h timerHeap) Swap(i, j int) { h[i], h[j] = h[j], h[i]; h[i].pos = i; h[j].pos = j }
func (h *timerHeap) Push(x any)   { t := x.(*Timer); t.pos = len(*h); *h = append(*h, t) }
func (h *timerHeap) Pop() any {
	o := *h
	t := o[len(o)-1]
	o[len(o)-1] = nil
	*h = o[:len(o)-1]
	t.pos = -1
	return t
}

// After schedules f (which must not block) d ns from now.
func (s *Sim) After(d int64, f func()) *Timer {
	if d < 0 {
		d = 0
	}
	at := s.Now + d
	if at < s.Now {
		at = math.MaxInt64
	}
	s.tseq++
	t := &Timer{at: at, seq: s.tseq, f: f}
	heap.Push(&s.timers, t)
	return t
}

// Stop cancels a timer; reports whether it was pending.
func (s *Sim) Stop(t *Timer) bool {
	if t == nil || t.pos < 0 {
		return false
	}
	heap.Remove(&s.timers, t.pos)
	t.pos = -1
	return true
}

func (s *Sim) fireDue() {
	for len(s.timers) > 0 && s.timers[0].at <= s.Now {
		t := heap.Pop(&s.timers).(*Timer)
		t.f()
	}
}

// PendingTimers is the number of scheduled timers.
func (s *Sim) PendingTimers() int { return len(s.timers) }

// Sleep parks the current goroutine for d ns of simulated time.
func Sleep(d int64) {
	s := S
	Point()
	if d <= 0 {
		Yield()
		return
	}
	g := s.cur
	s.After(d, func() { s.ready(g) })
	Block("sleep")
}

// Yield lets other runnable goroutines run.
func Yield() {
	s := S
	if s == nil || s.cur == nil {
		return
	}
	if s.killing {
		panic(killSentinel)
	}
	g := s.cur
	g.state = gRunnable
	g.why = "yield"
	s.runq = append(s.runq, g)
	s.switchOut(g)
}

// WaitQ is a FIFO wait queue for simulated resources.
type WaitQ struct{ ws []*qwait }

type qwait struct {
	g    *G
	done bool
	to   bool
}

// Wait parks the caller until woken or until the absolute time at (0: none); reports a timeout.
func (q *WaitQ) Wait(why string, at int64) bool {
	s := S
	w := &qwait{g: s.cur}
	q.ws = append(q.ws, w)
	var t *Timer
	if at > 0 {
		t = s.After(at-s.Now, func() {
			if !w.done {
				w.done, w.to = true, true
				s.ready(w.g)
			}
		})
	}
	Block(why)
	if t != nil {
		s.Stop(t)
	}
	return w.to
}

// WakeAll wakes all waiters.
func (q *WaitQ) WakeAll() {
	if S == nil {
		return
	}
	for _, w := range q.ws {
		if !w.done {
			w.done = true
			S.ready(w.g)
		}
	}
	clear(q.ws)
	q.ws = q.ws[:0]
}

// WakeOne wakes the oldest waiter.
func (q *WaitQ) WakeOne() {
	for len(q.ws) > 0 {
		w := q.ws[0]
		q.ws = q.ws[1:]
		if !w.done {
			w.done = true
			S.ready(w.g)
			return
		}
	}
}

// Empty reports whether nobody waits.
func (q *WaitQ) Empty() bool {
	for _, w := range q.ws {
		if !w.done {
			return false
		}
	}
	return true
}

// ---- stable ordering of map keys ----

// KM registers an inserted map key so that later iteration over it can be ordered deterministically.
func KM[M ~map[K]V, K comparable, V any](m M) func(K) K {
	return func(k K) K {
		Reg(k)
		return k
	}
}

// Reg registers a value that may be used as a map key.
func Reg(k any) {
	if S == nil {
		return
	}
	if _, ok := S.ords[k]; !ok {
		S.ords[k] = len(S.ords) + 1
	}
}

// MapKeys returns the keys of m in a deterministic base order, permuted by a recorded choice.
func MapKeys[M ~map[K]V, K comparable, V any](m M) []K {
	ks := make([]K, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	return OrderKeys(ks)
}

// OrderKeys puts keys into a simulator-chosen order that does not depend on Go's map iteration.
func OrderKeys[K comparable](ks []K) []K {
	if len(ks) < 2 {
		return ks
	}
	type kv struct {
		k K
		o int
		s string
	}
	kvs := make([]kv, len(ks))
	for i, k := range ks {
		kvs[i].k = k
		if S != nil {
			kvs[i].o = S.ords[k]
		}
		if kvs[i].o == 0 {
			kvs[i].s = fmt.Sprintf("%v", k)
		}
	}
	sort.SliceStable(kvs, func(i, j int) bool {
		if kvs[i].o != kvs[j].o {
			return kvs[i].o < kvs[j].o
		}
		return kvs[i].s < kvs[j].s
	})
	for i := range kvs {
		ks[i] = kvs[i].k
	}
	if S != nil {
		for i := 0; i < len(ks)-1; i++ {
			j := i + S.ChooseW(len(ks)-i, 0.5)
			ks[i], ks[j] = ks[j], ks[i]
		}
	}
	return ks
}

// AuxU64 is the per-run random stream behind the rand packages.
func AuxU64() uint64 {
	if S == nil {
		return 0x9E3779B97F4A7C15
	}
	Point()
	S.aux = S.aux*6364136223846793005 + 1442695040888963407
	x := S.aux
	x ^= x >> 33
	x *= 0xff51afd7ed558ccd
	x ^= x >> 33
	return x
}

// AddrVC is the clock of a raw atomic variable.
func AddrVC(p unsafe.Pointer) *VC {
	if !RaceOn || S == nil {
		return &VC{}
	}
	v := S.addrVC[p]
	if v == nil {
		v = &VC{}
		S.addrVC[p] = v
	}
	return v
}

// SetVC gives a goroutine started from a timer callback its creator's clock.
func SetVC(g *G, vc VC) {
	if RaceOn {
		g.vc = vc.clone()
		g.vc.inc(g.idx)
	}
}

// CloseNB closes a channel from a context that must not yield (timer callbacks).
func CloseNB[T any](ch chan T) {
	if S == nil {
		close(ch)
		return
	}
	if S.killing {
		return
	}
	closeNow((chan<- T)(ch))
}

// Recover filters the simulator's teardown panic out of a recovered value.
func Recover(v any) any {
	if v != nil && IsKill(v) {
		panic(v)
	}
	return v
}

// MapRange iterates over a map in the simulator's order; entries deleted meanwhile are skipped.
func MapRange[M ~map[K]V, K comparable, V any](m M) iter.Seq2[K, V] {
	return func(y func(K, V) bool) {
		for _, k := range MapKeys(m) {
			v, ok := m[k]
			if ok && !y(k, v) {
				return
			}
		}
	}
}

var resets []func()

// OnReset registers a function that re-initialises a package's variables.
func OnReset(f func()) { resets = append(resets, f) }

// ResetGlobals gives every simulated package its initial package-level state.
func ResetGlobals() {
	for _, f := range resets {
		f()
	}
}

// Zero clears a variable.
func Zero[T any](p *T) {
	var z T
	*p = z
}

// Drop releases what a finished goroutine references.
func (g *G) Drop() { g.fn, g.next, g.stop, g.yield, g.Tag = nil, nil, nil, nil, nil }
