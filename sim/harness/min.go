package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"time"

	"verif/simrt"
)

type minim struct {
	prop, kind string
	deadline   time.Time
	runs       int
	best       *Plan
	rec        simrt.Sched
	viol       Viol
	others     []Viol
	hash       uint64
}

func (m *minim) check(p *Plan, rec *simrt.Sched) bool {
	m.runs++
	r := runPlan(p, rec)
	if harnessFault(r.viols) {
		return false
	}
	vs := matching(m.prop, r.viols)
	for _, v := range vs {
		if v.Kind == m.kind {
			m.best, m.viol, m.others, m.hash = p, v, vs, r.hash
			if rec == nil {
				m.rec = cloneRec(r.s.Rec)
			} else {
				m.rec = cloneRec(*rec)
			}
			return true
		}
	}
	return false
}

func (m *minim) late() bool { return time.Now().After(m.deadline) }

func clonePlan(p *Plan) *Plan {
	b, _ := json.Marshal(p)
	q := &Plan{}
	json.Unmarshal(b, q)
	return q
}

// try looks for the same violation with a smaller plan: first under the recorded schedule, then under fresh ones.
func (m *minim) try(edit func(*Plan) bool, fresh int) bool {
	if m.late() {
		return false
	}
	q := clonePlan(m.best)
	if !edit(q) {
		return false
	}
	rec := m.rec
	if m.check(q, &rec) {
		return true
	}
	for k := 0; k < fresh && !m.late(); k++ {
		x := clonePlan(q)
		x.SSeed = simrt.NewRNG(uint64(k)*977+uint64(m.runs)).U64() >> 11
		if m.check(x, nil) {
			return true
		}
	}
	return false
}

func del[T any](s []T, i int) []T {
	out := append([]T(nil), s[:i]...)
	return append(out, s[i+1:]...)
}

func dropConn(p *Plan, ci int) {
	p.Conns = del(p.Conns, ci)
	fix := func(ops []Op) []Op {
		var out []Op
		for _, o := range ops {
			if o.C == ci {
				continue
			}
			if o.C > ci {
				o.C--
			}
			var ex []int
			for _, e := range o.Ex {
				if e < ci {
					ex = append(ex, e)
				} else if e > ci {
					ex = append(ex, e-1)
				}
			}
			o.Ex = ex
			out = append(out, o)
		}
		return out
	}
	for i := range p.Acts {
		p.Acts[i].Ops = fix(p.Acts[i].Ops)
	}
	for k, v := range p.Hooks {
		p.Hooks[k] = fix(v)
	}
	for i := range p.MW {
		if p.MW[i].Conn >= ci && p.MW[i].Conn > 0 {
			p.MW[i].Conn--
		}
	}
}

func (m *minim) structure() {
	const F = 12
	for changed := true; changed && !m.late(); {
		changed = m.try(func(p *Plan) bool { x := p.NoHook != ""; p.NoHook = ""; return x }, F)
		for i := len(m.best.Conns) - 1; i >= 0 && len(m.best.Conns) > 1; i-- {
			changed = m.try(func(p *Plan) bool { dropConn(p, i); return true }, F) || changed
		}
		for i := len(m.best.Acts) - 1; i >= 0; i-- {
			changed = m.try(func(p *Plan) bool { p.Acts = del(p.Acts, i); return true }, F) || changed
		}
		for i := len(m.best.Acts) - 1; i >= 0; i-- {
			for k := len(m.best.Acts[i].Ops) - 1; k >= 0; k-- {
				changed = m.try(func(p *Plan) bool { p.Acts[i].Ops = del(p.Acts[i].Ops, k); return len(p.Acts[i].Ops) > 0 }, F) || changed
			}
		}
		for i := range m.best.Conns {
			for k := len(m.best.Conns[i].Client) - 1; k >= 0; k-- {
				changed = m.try(func(p *Plan) bool {
					c := &p.Conns[i]
					c.Client = del(c.Client, k)
					if c.Early > k {
						c.Early--
					}
					return true
				}, F) || changed
			}
		}
		for k := range m.best.Hooks {
			changed = m.try(func(p *Plan) bool { delete(p.Hooks, k); return true }, F) || changed
			for i := len(m.best.Hooks[k]) - 1; i >= 0 && len(m.best.Hooks[k]) > 1; i-- {
				changed = m.try(func(p *Plan) bool { p.Hooks[k] = del(p.Hooks[k], i); return true }, F) || changed
			}
		}
		for i := len(m.best.MW) - 1; i >= 0; i-- {
			changed = m.try(func(p *Plan) bool { p.MW = del(p.MW, i); return true }, F) || changed
		}
	}
	simp := []func(*Plan) bool{
		func(p *Plan) bool { x := p.Batch != nil; p.Batch = nil; return x },
		func(p *Plan) bool { x := p.Lim != nil; p.Lim = nil; return x },
		func(p *Plan) bool { x := p.RBuf != 0; p.RBuf = 0; return x },
		func(p *Plan) bool { x := p.WBuf != 0; p.WBuf = 0; return x },
		func(p *Plan) bool { x := p.NoPool; p.NoPool = false; return x },
		func(p *Plan) bool { x := p.MaxFrag != 0; p.MaxFrag = 0; return x },
		func(p *Plan) bool { x := p.MaxMsg != 0; p.MaxMsg = 0; return x },
		func(p *Plan) bool {
			x := p.Sched.StallTot > 0
			p.Sched.StallTot, p.Sched.StallP = 0, 0
			return x
		},
	}
	for _, f := range simp {
		m.try(f, 6)
	}
	for i := range m.best.Conns {
		link := []func(*LinkPlan) bool{
			func(l *LinkPlan) bool { x := l.Lat > 0 || l.Jitter > 0; l.Lat, l.Jitter = 0, 0; return x },
			func(l *LinkPlan) bool { x := l.RChunk > 0 || l.RShort; l.RChunk, l.RShort = 0, false; return x },
			func(l *LinkPlan) bool { x := l.WChunk > 0; l.WChunk = 0; return x },
			func(l *LinkPlan) bool { x := l.CChunk > 0; l.CChunk = 0; return x },
			func(l *LinkPlan) bool { x := l.CSeg > 0; l.CSeg, l.CSegD = 0, 0; return x },
			func(l *LinkPlan) bool { x := l.SndBuf != 65536; l.SndBuf = 65536; return x },
			func(l *LinkPlan) bool { x := l.WErrAt != 0; l.WErrAt = 0; return x },
			func(l *LinkPlan) bool { x := l.RErrAt != 0; l.RErrAt = 0; return x },
			func(l *LinkPlan) bool { x := l.RdlErrAt != 0; l.RdlErrAt = 0; return x },
			func(l *LinkPlan) bool { x := l.WdlErrAt != 0; l.WdlErrAt = 0; return x },
		}
		for _, f := range link {
			m.try(func(p *Plan) bool { return f(&p.Conns[i].Link) }, 6)
		}
		m.try(func(p *Plan) bool {
			c := &p.Conns[i]
			x := c.At > 0 || c.RDelay > 0 || c.RStart > 0 || c.HBuf != 4096 || c.HWBuf != 4096
			c.At, c.RDelay, c.RStart, c.HBuf, c.HWBuf = 0, 0, 0, 4096, 4096
			return x
		}, 6)
		for k := range m.best.Conns[i].Client {
			m.try(func(p *Plan) bool {
				o := &p.Conns[i].Client[k]
				x := len(o.Frags) > 0
				o.Frags, o.Ctl = nil, nil
				return x && o.Cut == 0
			}, 4)
			m.try(func(p *Plan) bool {
				o := &p.Conns[i].Client[k]
				x := o.Sz > 16 && len(o.Frags) == 0 && o.Cut == 0 && o.At == 0
				o.Sz = 16
				return x
			}, 4)
		}
	}
	for i := range m.best.Acts {
		for k := range m.best.Acts[i].Ops {
			m.try(func(p *Plan) bool {
				o := &p.Acts[i].Ops[k]
				x := o.Sz > 16
				o.Sz = 16
				return x
			}, 4)
			m.try(func(p *Plan) bool {
				o := &p.Acts[i].Ops[k]
				x := o.Ctx != ""
				o.Ctx, o.CtxD = "", 0
				return x
			}, 4)
			for n := len(m.best.Acts[i].Ops[k].Pieces) - 1; n > 0; n-- {
				m.try(func(p *Plan) bool {
					o := &p.Acts[i].Ops[k]
					if n >= len(o.Pieces) || n >= len(o.Flush) || n >= len(o.Wait) {
						return false
					}
					o.Pieces, o.Flush, o.Wait = del(o.Pieces, n), del(o.Flush, n), del(o.Wait, n)
					return true
				}, 4)
			}
		}
		m.try(func(p *Plan) bool { x := p.Acts[i].At > 0; p.Acts[i].At = 0; return x }, 4)
	}
}

// ddmin removes recorded deviations that the violation does not need.
func ddmin[T any](m *minim, get func(*simrt.Sched) *[]T) {
	n := 2
	for {
		cur := append([]T(nil), *get(&m.rec)...)
		if len(cur) == 0 || m.late() {
			return
		}
		if n > len(cur) {
			n = len(cur)
		}
		done := false
		size := (len(cur) + n - 1) / n
		for at := 0; at < len(cur) && !m.late(); at += size {
			rec := cloneRec(m.rec)
			*get(&rec) = append(append([]T(nil), cur[:at]...), cur[min(at+size, len(cur)):]...)
			if m.check(m.best, &rec) {
				done = true
				break
			}
		}
		if done {
			n = max(n-1, 2)
			continue
		}
		if size == 1 {
			return
		}
		n = min(n*2, len(cur))
	}
}

func (m *minim) schedule() {
	e := simrt.Sched{}
	if m.check(m.best, &e) {
		return
	}
	e = cloneRec(m.rec)
	e.Choices = nil
	m.check(m.best, &e)
	ddmin(m, func(s *simrt.Sched) *[]simrt.Preempt { return &s.Preempts })
	ddmin(m, func(s *simrt.Sched) *[]simrt.Choice { return &s.Choices })
}

func cmdMin(args []string, out *os.File) {
	fs := flag.NewFlagSet("min", flag.ExitOnError)
	dst := fs.String("o", "", "")
	maxsec := fs.Float64("maxsec", 40, "")
	fs.Parse(args)
	rp := readReplay(fs.Arg(0))
	m := &minim{prop: rp.Property, kind: rp.Viol.Kind, deadline: time.Now().Add(time.Duration(*maxsec * float64(time.Second)))}
	rec := rp.Sched
	if !m.check(rp.Plan, &rec) {
		if !m.check(genPlan(rp.Plan.Prop, rp.Plan.Seed), nil) {
			fmt.Fprintln(out, "NOT REPRODUCED")
			os.Exit(4)
		}
		fmt.Fprintln(out, "reproduced only from the seed")
	}
	size0 := fmt.Sprintf("%d connections, %d actors, %d preemptions, %d choices", len(m.best.Conns), len(m.best.Acts), len(m.rec.Preempts), len(m.rec.Choices))
	full := m.deadline
	m.deadline = time.Now().Add(time.Until(full) * 6 / 10)
	m.structure()
	m.deadline = full
	m.schedule()
	traceOn = true
	best := m.rec
	r := runPlan(m.best, &best)
	traceOn = false
	o := &Replay{Property: rp.Property, Viol: m.viol, Others: m.others, Index: rp.Index, Hash: fmt.Sprintf("%x", r.hash), Race: rp.Race, Plan: m.best, Sched: m.rec,
		Minim: fmt.Sprintf("%s -> %d connections, %d actors, %d preemptions, %d choices in %d runs", size0, len(m.best.Conns), len(m.best.Acts), len(m.rec.Preempts), len(m.rec.Choices), m.runs)}
	o.Trace = describe(r)
	writeJSON(*dst, o)
	fmt.Fprintf(out, "V %v %s: %s\n%s\n", m.viol.Props, m.viol.Kind, m.viol.Msg, o.Minim)
}
