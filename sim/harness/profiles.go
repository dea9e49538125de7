package main

import (
	"fmt"
	"strings"

	"verif/simrt"
)

const sec = 1000 * ms

// genPlan draws the plan of one run of property prop.
func genPlan(prop string, seed uint64) *Plan {
	g := &gen{RNG: simrt.NewRNG(seed), p: &Plan{Prop: prop, Seed: seed}}
	g.U64()
	g.base()
	profiles[prop](g)
	p := g.p
	if p.Grace == 0 {
		p.Grace = g.grace()
	}
	if p.Final == "" {
		p.Final = g.str("server", "server", "server", "client", "fin")
	}
	if p.Sched == (simrt.Strategy{}) {
		p.Sched = g.strat(false)
	}
	// a profile may have replaced the waits
	for i, x := range [][2]int64{{p.WW, 5 * sec}, {p.RW, 60 * sec}, {p.PE, 50 * sec}} {
		if x[0] != x[1] {
			p.Dflt &^= 1 << i
		}
	}
	if g.P(0.06) {
		p.NoHook = g.str("c", "d", "r", "j", "j", "cdrj", "dr")
		p.OwnHook = p.OwnHook && !strings.Contains(p.NoHook, "j")
	}
	p.bound()
	p.boundIn()
	p.SSeed = g.U64() >> 11
	return p
}

var profiles = map[string]func(*gen){
	"C01": (*gen).c01, "C02": (*gen).c02, "C03": (*gen).c03, "C04": (*gen).c04, "C05": (*gen).c05, "C06": (*gen).c06, "C07": (*gen).c07,
	"C08": (*gen).c08, "C09": (*gen).c09, "C10": (*gen).c10, "C11": (*gen).c11, "C12": (*gen).c12, "C13": (*gen).c13, "C14": (*gen).c14,
	"C15": (*gen).c15, "C16": (*gen).c16, "C17": (*gen).c17, "C18": (*gen).c18, "C19": (*gen).c19, "C20": (*gen).c20, "C21": (*gen).c21,
}

func (g *gen) base() {
	p := g.p
	p.WW = g.one64(200, 300, 500, 1000) * ms
	p.RW = g.one64(3, 5, 10, 30) * sec
	p.PE = p.RW * int64(g.Range(40, 85)) / 100
	p.RBuf = g.one(0, 0, 128, 256, 512, 4096)
	if g.P(0.15) {
		p.RBuf = g.one(1, 16, 17, 64, 124, 125, 126)
	}
	p.WBuf = g.one(0, 0, 125, 128, 200, 256, 512, 1024)
	if g.P(0.03) {
		p.WBuf = g.one(65536, 65549, 65550, 66000, 70000)
	}
	if g.P(0.2) {
		p.WBuf = g.one(15, 16, 17, 20, 32, 64)
	}
	if g.P(0.05) {
		p.WBuf = g.Range(1, 14)
	}
	p.NoPool = g.P(0.15)
	p.SameAddr = g.P(0.25)
	p.BQ = g.one(0, 1, 2, 4)
	g.dflt(0.04)
}

// dflt leaves waits unset, so that the documented defaults apply.
func (g *gen) dflt(pr float64) {
	p := g.p
	if !g.P(pr) {
		return
	}
	p.Dflt = g.Range(1, 7)
	if p.Dflt&1 != 0 {
		p.WW = 5 * sec
	}
	if p.Dflt&6 != 0 {
		p.RW = 60 * sec
		p.PE = 50 * sec
		switch {
		case p.Dflt&4 == 0:
			p.PE = g.dur(20*sec, 50*sec)
		case p.Dflt&2 == 0:
			p.RW = g.dur(60*sec, 100*sec)
		}
	}
}

func (g *gen) grace() int64 {
	p := g.p
	gr := 40*p.WW + p.RW + 2*p.PE + sec
	for i := range p.Conns {
		c := &p.Conns[i]
		gr += c.RStart + 4*c.RDelay
		for _, o := range c.Client {
			gr += o.D + o.R
		}
	}
	for _, a := range p.Acts {
		for _, o := range a.Ops {
			gr += o.D
			for _, x := range o.Wait {
				gr += x
			}
		}
	}
	return gr
}

func (g *gen) strat(noStall bool) simrt.Strategy {
	var s simrt.Strategy
	switch g.N(8) {
	case 0: // switch only where a goroutine waits
		s.PickRand = 0.5
		s.SyncW = 1
	case 1, 2: // switch mostly around synchronisation
		s.Mean = float64(g.one(20, 60, 200, 600))
		s.SyncW = int64(g.one(5, 10, 20))
		s.PickRand = 0.7
	case 3, 4, 5: // switch anywhere
		s.Mean = float64(g.one(3, 8, 20, 60, 200, 800))
		s.SyncW = int64(g.one(1, 2, 4))
		s.PickRand = 0.6
	default: // priorities with change points
		s.Prio = true
		s.Changes = g.Range(1, 8)
		s.SyncW = 1
	}
	s.SelRand = g.P(0.75)
	if !noStall && g.P(0.2) && !s.Prio && s.Mean > 0 {
		s.StallP = 0.05
		s.StallMax = int64(g.one(1, 3, 10)) * ms
		s.StallTot = int64(g.one(10, 30)) * ms
	}
	return s
}

func (g *gen) link(quick bool) LinkPlan {
	l := LinkPlan{SndBuf: g.one(256, 1024, 4096, 65536)}
	if g.P(0.5) {
		l.Lat = g.one64(1, 5, 20) * ms
	}
	if g.P(0.3) {
		l.Jitter = g.one64(1, 10) * ms
	}
	if g.P(0.3) {
		l.RChunk = g.one(1, 2, 3, 7, 64, 500)
	}
	l.RShort = g.P(0.2)
	if g.P(0.3) {
		l.WChunk = g.one(1, 7, 64, 100)
	}
	if g.P(0.2) {
		l.CChunk = g.one(16, 100, 1000)
	}
	if !quick && g.P(0.3) {
		l.SndBuf = g.one(16, 64, 128)
	}
	return l
}

// wfaults adds transport faults on the server's side of a link.
func (g *gen) wfaults(l *LinkPlan, p float64) {
	if g.P(p) {
		switch g.N(8) {
		case 0, 1, 2, 3:
			l.WErrAt = 129 + 40*g.N(2) + g.logn(3000)
			l.WErrPipe = g.P(0.5)
		case 4:
			l.RErrAt = 1 + g.N(12)
		case 5:
			l.RdlErrAt = 1 + g.N(6)
		case 6:
			l.WdlErrAt = 1 + g.N(6)
		case 7:
			l.WErrAt = 1 + g.N(200)
		}
	}
}

func (g *gen) size() int {
	wb := g.p.WBuf
	if wb == 0 {
		wb = 4096
	}
	switch g.N(10) {
	case 0, 1, 2, 3:
		return 8 + g.N(60)
	case 4:
		return g.one(124, 125, 126, 127, 128)
	case 5, 6:
		return max(8, wb*g.Range(1, 3)-g.N(24)+6)
	case 7:
		return 8 + g.N(2000)
	case 8:
		if g.P(0.15) {
			return g.one(65535, 65536, 65536, 65540, 9000)
		}
		return 8 + g.N(400)
	}
	return 8 + g.logn(1500)
}

func (g *gen) csize() int { // client payload
	rb := g.p.RBuf
	if rb == 0 {
		rb = 4096
	}
	switch g.N(10) {
	case 0, 1, 2, 3:
		return 8 + g.N(60)
	case 4:
		return g.one(124, 125, 126, 127, 128)
	case 5, 6:
		return max(8, rb*g.Range(1, 3)-g.N(24)+6)
	case 7:
		if g.P(0.1) {
			return g.one(65535, 65536, 65540)
		}
		return 8 + g.N(2000)
	case 8:
		if g.P(0.4) {
			return 0
		}
		return 8
	}
	return 8 + g.logn(1500)
}

func (g *gen) ctx(op *Op, p float64) {
	if !g.P(p) {
		return
	}
	op.Ctx = g.str("to", "to", "cancel", "tc", "pre", "nil")
	op.CtxD = g.one64(1, 5, 20, 100, 400) * ms
	if (op.Ctx == "to" || op.Ctx == "tc") && g.P(0.3) {
		op.CtxD = g.dur(1000, 3*ms)
	}
	if op.Ctx == "to" && g.P(0.12) {
		op.CtxD = g.p.WW * int64(g.Range(2, 8)) // beyond every wait for the network
	}
}

func (g *gen) send(c int) Op {
	op := Op{K: "send", C: c, ID: g.nid(), Sz: g.size(), API: g.str("msg", "bytes", "string", "json"), Ty: g.one(1, 2)}
	if g.P(0.06) {
		op.Sz = g.one(0, 0, 1, 2, 7)
	}
	if op.API == "json" {
		op.Sz = max(op.Sz, 8)
	}
	return op
}

func (g *gen) stream(c int) Op {
	op := Op{K: "stream", C: c, ID: g.nid(), Ty: g.one(1, 2)}
	n := g.Range(0, 5)
	tot := 0
	for i := 0; i < n; i++ {
		x := g.size() / max(n, 1)
		if g.P(0.1) {
			x = 0
		}
		if i == 0 {
			x = max(x, 8)
		}
		tot += x
		op.Pieces = append(op.Pieces, x)
		op.Flush = append(op.Flush, g.P(0.4))
		w := int64(0)
		if g.P(0.35) {
			w = g.one64(1, 2, 10, 50) * ms
		}
		op.Wait = append(op.Wait, w)
	}
	if sp := g.p.WBuf - 14; sp >= 8 && sp <= 2000 && g.P(0.1) {
		// pieces that end exactly where the buffer ends
		for i := range op.Pieces {
			op.Pieces[i] = sp * g.one(0, 1, 1, 2)
			if i == 0 {
				op.Pieces[i] = sp
			}
		}
	}
	if g.P(0.08) {
		op.Stale = g.str("c", "c", "c", "w", "f", "wfc")
		op.Wait = append(op.Wait, g.one64(0, 0, 1, 5)*ms)
	}
	return op
}

func (g *gen) bc(k string) Op {
	op := Op{K: k, C: -1, ID: g.nid(), Sz: 8 + g.logn(300), Ty: g.one(1, 2)}
	if g.P(0.2) {
		op.Sz = g.size()
	}
	if g.P(0.3) {
		op.API = "json"
	}
	return op
}

// bbc: a batch broadcast.
func (g *gen) bbc(k string) Op {
	op := Op{K: k, C: -1, ID: g.nid(), Sz: 8 + g.logn(60), Ty: 1}
	if g.p.Batch.Strat != "prefix" || g.P(0.5) {
		op.API = "json"
	}
	return op
}

func (g *gen) clientMsg() COp {
	o := COp{K: "msg", ID: g.nid(), Ty: g.one(1, 2), Sz: g.csize(), Key: uint32(g.U64())}
	if g.P(0.1) {
		o.Key = 0
	}
	if g.P(0.4) {
		o.Frags = g.split(o.Sz, 5)
		if g.P(0.5) {
			for range o.Frags {
				o.Ctl = append(o.Ctl, g.one(-1, -1, 0, 1, 30, 125, -2-g.pongSz()))
			}
		}
		if g.P(0.2) {
			o.D = g.one64(1, 10) * ms
		}
	}
	return o
}

// pongSz is the payload size of an unsolicited pong: one with a payload only comes while no ping is outstanding.
func (g *gen) pongSz() int {
	if g.quiet {
		return g.one(0, 1, 4, 30, 125)
	}
	return 0
}

func (g *gen) clientPong() COp {
	return COp{K: "pong", ID: g.nid(), Sz: g.pongSz(), Key: uint32(g.U64())}
}

func (g *gen) clientPing() COp {
	return COp{K: "ping", ID: g.nid(), Sz: g.one(0, 1, 8, 30, 124, 125, g.N(126)), Key: uint32(g.U64())}
}

func (g *gen) csleep() COp { return COp{K: "sleep", D: g.one64(1, 5, 30, 200) * ms} }
func (g *gen) sleep() Op   { return Op{K: "sleep", D: g.one64(1, 5, 30, 200) * ms} }

func (g *gen) reads() []RSpec {
	var out []RSpec
	for i := g.Range(1, 4); i > 0; i-- {
		r := RSpec{API: g.str("msg", "msg", "stream", "bin", "str")}
		if r.API == "stream" {
			for k := g.N(4); k > 0; k-- {
				r.Buf = append(r.Buf, g.one(1, 2, 7, 8, 64, 125, 500, 4096))
			}
		}
		out = append(out, r)
	}
	return out
}

func fullRead() []RSpec { return []RSpec{{API: "msg"}} }

func (g *gen) conn(via string) ConnPlan {
	c := ConnPlan{Via: via, Link: g.link(true), Read: fullRead(), HBuf: 4096, HWBuf: 4096}
	switch via {
	case "mgr":
		c.Key = fmt.Sprint("k", len(g.p.Conns))
		if g.P(0.12) {
			c.Reg = g.one(1, 1, int(ms), int(15*ms))
		}
	case "room":
		c.Key = "r0"
	}
	if g.P(0.3) {
		c.HBuf = g.one(64, 512, 1024)
	}
	if g.P(0.3) {
		c.HWBuf = g.one(64, 512, 1024)
	}
	if g.P(0.2) {
		c.At = g.one64(1, 3, 20) * ms
	}
	return c
}

func (g *gen) via() string { return g.str("up", "up", "mgr", "room") }

// slowClient makes a client that does not keep up.
func (g *gen) slowClient(c *ConnPlan) {
	switch g.N(4) {
	case 0:
		c.Client = append(c.Client, g.csleep(), COp{K: "stopread"})
	case 1:
		c.Client = append(c.Client, g.csleep(), COp{K: "stopread"}, COp{K: "sleep", D: g.dur(50*ms, 2*sec)}, COp{K: "startread"})
	case 2:
		c.Client = append(c.Client, COp{K: "rate", R: g.one64(50, 500, 5000, 20000, 100000)})
	case 3:
		c.Client = append(c.Client, g.csleep(), COp{K: "reset"})
	}
	c.Link.SndBuf = g.one(1, 16, 64, 256, 1024)
}

// wire traffic shared by C01, C02, C10, C11, C20 and C21
type traffic struct {
	conns, acts, ops int
	faults, ctx      float64
	slow, closes     float64
	bc, batch        float64
	client           float64
	reset            float64
}

func (g *gen) traffic(t traffic) {
	p := g.p
	p.End = 2 * sec
	n := g.Range(1, t.conns)
	useBC := g.P(t.bc)
	for i := 0; i < n; i++ {
		via := g.via()
		if useBC && g.P(0.7) {
			via = g.str("room", "room", "mgr")
		}
		c := g.conn(via)
		if g.P(0.25) {
			c.Link = g.link(false)
		}
		if g.P(0.2) {
			c.Read = nil
			if g.P(0.5) {
				c.Read = g.reads()
				c.RDelay = g.one64(1, 20) * ms
			}
		}
		g.wfaults(&c.Link, t.faults)
		if g.P(t.slow) {
			g.slowClient(&c)
		} else if g.P(t.client) {
			for k := g.N(6); k > 0; k-- {
				switch g.N(5) {
				case 0, 1:
					c.Client = append(c.Client, g.clientMsg())
				case 2, 3:
					c.Client = append(c.Client, g.clientPing())
				default:
					c.Client = append(c.Client, g.csleep())
				}
			}
			if g.P(t.closes) {
				c.Client = append(c.Client, g.csleep(), g.clientClose())
			} else if g.P(t.reset) {
				c.Client = append(c.Client, g.csleep(), COp{K: g.str("reset", "fin")})
			}
		}
		p.Conns = append(p.Conns, c)
	}
	if g.P(t.batch) {
		g.batching()
	}
	if useBC {
		p.BP = g.one(0, 1, 2)
		p.BQ = g.one(0, 1, 2, 8)
	}
	for a := g.Range(1, t.acts); a > 0; a-- {
		var act Actor
		act.At = g.one64(0, 0, 0, 1, 5) * ms
		for k := g.Range(1, t.ops); k > 0; k-- {
			ci := g.N(n)
			var op Op
			switch x := g.N(20); {
			case x < 7:
				op = g.send(ci)
				g.ctx(&op, t.ctx)
			case x < 12:
				op = g.stream(ci)
				g.ctx(&op, t.ctx)
			case x < 14:
				op = Op{K: "ping", C: ci}
			case x < 15:
				op = g.sleep()
			case x < 16:
				op = Op{K: "jsonbad", C: ci, Sz: g.N(3)}
				g.ctx(&op, t.ctx/2)
			case x < 18 && useBC:
				op = g.bc(g.str("rbc", "rbc", "mbc"))
				op.Room = "r0"
				g.ctx(&op, t.ctx/2)
			case x < 19 && p.Batch != nil:
				op = g.batchOp(ci)
				if g.P(0.3) {
					op = Op{K: g.str("rbb", "mbb"), C: -1, ID: g.nid(), Sz: 8 + g.logn(60), Ty: 1, Room: "r0"}
					if p.Batch.Strat != "prefix" || g.P(0.5) {
						op.API = "json"
					}
					g.ctx(&op, t.ctx)
				}
			case x < 19 && g.P(0.15):
				// batching is not enabled
				op = Op{K: g.str("batch", "batchjson", "rbb", "mbb"), C: ci, ID: g.nid(), Sz: 8 + g.N(60), Ty: 1, API: "json", Room: "r0"}
				if op.K == "rbb" || op.K == "mbb" {
					op.C = -1
					g.ctx(&op, t.ctx)
				}
			default:
				op = g.send(ci)
			}
			act.Ops = append(act.Ops, op)
		}
		p.Acts = append(p.Acts, act)
	}
	if p.Batch != nil {
		g.plain()
	}
	g.drag()
	if g.P(t.closes) {
		g.closer(g.N(n))
	}
}

// crawl: clients that take every frame just within the write wait while several calls compete for the connection. Waiting for
// a turn then lasts longer than a write wait, although nobody is stuck; without pings nothing may fail.
func (g *gen) crawl() {
	p := g.p
	p.WW = g.one64(200, 300, 500) * ms
	p.RW, p.PE, p.Dflt = 60*sec, 50*sec, 0
	f := g.one(40, 100, 180, 400)
	p.WBuf = f + 14 + g.N(40)
	if g.P(0.3) {
		p.WBuf = 16 + g.N(f)
	}
	c := g.conn(g.via())
	c.Link = LinkPlan{SndBuf: g.one(1, 8, 16, 40)}
	if g.P(0.3) {
		c.Link.WChunk = g.one(1, 7, 64)
	}
	rate := p.WW * int64(g.Range(30, 72)) / 100 / int64(min(f+14, p.WBuf)+c.Link.SndBuf)
	c.Client = append(c.Client, COp{K: "rate", R: rate})
	pings := g.P(0.6)
	for k := g.N(5); k > 0; k-- {
		switch {
		case g.P(0.4):
			c.Client = append(c.Client, g.csleep())
		case pings && g.P(0.6):
			o := g.clientPing()
			o.D = 0
			c.Client = append(c.Client, o)
		default:
			m := g.clientMsg()
			m.D = 0
			if !pings {
				for i, x := range m.Ctl {
					m.Ctl[i] = min(x, -1)
				}
			}
			c.Client = append(c.Client, m)
		}
	}
	p.Conns = append(p.Conns, c)
	for a := g.Range(3, 5); a > 0; a-- {
		var act Actor
		if g.P(0.4) {
			act.At = g.one64(1, 5, 30, 100) * ms
		}
		for k := g.Range(1, 4); k > 0; k-- {
			op := g.send(0)
			if g.P(0.3) {
				op = g.stream(0)
				op.Pieces = append(op.Pieces[:0:0], g.Range(8, f))
				op.Flush, op.Wait = []bool{g.P(0.3)}, []int64{0}
			}
			op.Sz = min(op.Sz, f)
			if g.P(0.6) {
				op.Sz = f
			}
			if op.K == "stream" {
				op.Sz = 0
			}
			g.ctx(&op, 0.15)
			if pings && g.P(0.25) {
				op = Op{K: "ping"}
			}
			act.Ops = append(act.Ops, op)
		}
		p.Acts = append(p.Acts, act)
	}
	if g.P(0.2) {
		p.Acts = append(p.Acts, Actor{At: g.dur(0, 3*p.WW), Ops: []Op{g.closeOp(0)}})
	}
	p.End = sec
}

// drag: contexts that end while their message is being handed to a client that takes it slowly.
func (g *gen) drag() {
	for i := range g.p.Conns {
		c := &g.p.Conns[i]
		rate := int64(0)
		for k := range c.Client {
			if c.Client[k].K == "rate" {
				rate = max(rate, c.Client[k].R)
			}
		}
		if rate < 2000 || !g.P(0.7) {
			continue
		}
		for a := range g.p.Acts {
			for k := range g.p.Acts[a].Ops {
				o := &g.p.Acts[a].Ops[k]
				if o.C != i || o.K != "send" && o.K != "stream" {
					continue
				}
				n := o.Sz
				for _, x := range o.Pieces {
					n += x
				}
				if o.Ctx == "" && g.P(0.3) || o.Ctx == "to" || o.Ctx == "cancel" || o.Ctx == "tc" {
					o.Ctx = g.str("to", "cancel", "tc")
					o.CtxD = g.dur(1000, min(max(int64(n)*rate*5/4, 2*ms), 400*ms))
				}
			}
		}
	}
}

func (g *gen) clientClose() COp {
	o := COp{K: "close", Key: uint32(g.U64()), ID: g.nid(), Sz: g.one(0, 0, 5, 60, 122, 123), Code: g.one(1000, 1001, 1002, 1003, 1007, 1008, 1009, 1010, 1011, 3000, 3999, 4000, 4999)}
	if g.P(0.15) {
		o.Kind = "empty"
	}
	return o
}

func (g *gen) closeOp(ci int) Op {
	op := Op{K: "close", C: ci, ID: g.nid(), API: g.str("close", "code", "code")}
	if op.API == "code" {
		op.Code = g.one(1000, 1001, 1002, 1003, 1007, 1008, 1009, 1010, 1011, 3000, 4000, 4999)
		if g.P(0.2) {
			op.Code = g.one(0, 1, 999, 1004, 1005, 1006, 1015, 1016, 2000, 2999, 5000, 65535)
		}
		op.RLen = g.one(0, 3, 20, 122, 123, 124, 125, 300)
	}
	return op
}

func (g *gen) closer(ci int) {
	var a Actor
	a.At = g.one64(0, 1, 3, 10, 100, 500) * ms
	if g.P(0.3) {
		a.At += g.dur(0, 3*ms)
	}
	a.Ops = append(a.Ops, g.closeOp(ci))
	if g.P(0.3) {
		a.Ops = append(a.Ops, g.send(ci), Op{K: "ping", C: ci}, g.closeOp(ci))
	}
	g.p.Acts = append(g.p.Acts, a)
}

// plain: with batching on, direct binary sends carry text content so that they cannot be mistaken for batches.
func (g *gen) plain() {
	for i := range g.p.Acts {
		for k := range g.p.Acts[i].Ops {
			o := &g.p.Acts[i].Ops[k]
			switch o.K {
			case "send", "stream":
				if o.API != "json" && o.API != "string" {
					o.API = "t"
				}
			case "rbc", "mbc":
				if o.API != "json" {
					o.API = "t"
				}
			}
		}
	}
}

func (g *gen) batching() {
	b := &BatchPlan{Strat: g.str("json", "prefix", "custom"), Every: g.one64(5, 20, 50, 100) * ms}
	b.Prefix, b.Suffix = g.P(0.3), g.P(0.3)
	if g.P(0.3) {
		b.Pad = g.one(1, 120, 250, 251, 260, 500, 70000)
		b.Some = g.P(0.5)
	}
	if b.Strat == "custom" && g.P(0.4) {
		b.Fail = g.Range(2, 5)
	}
	g.p.Batch = b
	if g.P(0.1) {
		b.Again = g.Range(1, 3)
	}
	b.NilCtx = g.P(0.05)
	if b.Every == 50*ms && g.P(0.2) {
		b.Dflt = true
	}
	if g.P(0.5) {
		g.p.MaxBatch = g.one(64, 100, 300, 1000)
	}
}

func (g *gen) batchOp(ci int) Op {
	op := Op{K: g.str("batch", "batchjson"), C: ci, ID: g.nid(), Sz: 8 + g.logn(100), Ty: 1}
	if g.p.Batch.Strat != "prefix" || op.K == "batchjson" {
		op.API = "json"
	}
	if g.P(0.1) {
		op.Sz = 8 + g.N(600)
	}
	if g.P(0.008) {
		op.Sz = g.one(65535, 65536, 65537, 70000)
	}
	return op
}

func (g *gen) c01() {
	if g.P(0.03) {
		g.crawl()
		return
	}
	g.traffic(traffic{conns: 2, acts: 5, ops: 5, faults: 0.2, ctx: 0.25, slow: 0.15, closes: 0.3, bc: 0.4, batch: 0.15, client: 0.5, reset: 0.15})
}

func (g *gen) c02() {
	if g.P(0.06) {
		g.crawl()
		return
	}
	t := traffic{conns: 2, acts: 5, ops: 6, bc: 0.3, batch: 0.1, client: 0.4}
	if g.P(0.5) {
		t.faults, t.ctx, t.slow, t.closes = 0.2, 0.25, 0.15, 0.2
	}
	g.traffic(t)
}

// c03: failing calls and what comes after them.
func (g *gen) c03() {
	if g.P(0.08) {
		g.crawl()
		return
	}
	p := g.p
	p.End = 2 * sec
	if g.P(0.25) {
		p.Lim = &LimPlan{MPS: g.one(1, 5, 20), Burst: g.Range(1, 4), Hook: g.str("none", "ok", "ok", "close", "err")}
	}
	if g.P(0.2) {
		p.MaxMsg = g.one(64, 200, 1000)
	}
	healthy := g.P(0.5)
	n := g.Range(1, 2)
	for i := 0; i < n; i++ {
		c := g.conn(g.via())
		c.Read = nil
		for k := g.Range(1, 4); k > 0; k-- {
			r := RSpec{API: g.str("msg", "bin", "str", "json", "jsonT", "stream")}
			if r.API == "stream" && g.P(0.4) {
				r.Abandon = 1 + g.N(40)
			}
			c.Read = append(c.Read, r)
		}
		for k := g.Range(1, 8); k > 0; k-- {
			m := g.clientMsg()
			switch g.N(4) {
			case 0, 1:
				m.Ty, m.Kind, m.Sz = 1, g.str("j", "p"), max(m.Sz, 2)
				if m.Kind == "p" {
					m.Code = g.Range(1, 30)
					m.Frags, m.Ctl = nil, nil
				}
				for i := range m.Frags {
					m.Frags[i] = min(m.Frags[i], m.Sz)
				}
			}
			if p.MaxMsg > 0 && healthy && m.Sz+8+m.Code > p.MaxMsg {
				m.Sz = 10
				m.Frags, m.Ctl, m.Code = nil, nil, 0
				if m.Kind == "p" {
					m.Kind = "j"
				}
			}
			c.Client = append(c.Client, m)
			if g.P(0.3) {
				c.Client = append(c.Client, g.csleep())
			}
		}
		if !healthy {
			g.wfaults(&c.Link, 0.4)
			switch g.N(6) {
			case 0:
				c.Client = append(c.Client, g.badFrame())
			case 1:
				c.Client = append(c.Client, COp{K: g.str("reset", "fin")})
			case 2:
				c.Client = append(c.Client, g.clientClose())
			case 3:
				g.slowClient(&c)
			}
		}
		p.Conns = append(p.Conns, c)
	}
	for a := g.Range(1, 4); a > 0; a-- {
		var act Actor
		for k := g.Range(1, 6); k > 0; k-- {
			ci := g.N(n)
			var op Op
			switch g.N(9) {
			case 0, 1:
				op = g.send(ci)
				g.ctx(&op, 0.5)
			case 2, 3:
				op = g.stream(ci)
				g.ctx(&op, 0.4)
			case 4, 5:
				op = Op{K: "jsonbad", C: ci, Sz: g.N(3)}
				g.ctx(&op, 0.2)
			case 6:
				op = Op{K: "sendbad", C: ci, Ty: g.one(0, 3, 8, 9, 10, 15), Sz: 10, ID: g.nid()}
			case 7:
				op = Op{K: "ping", C: ci}
			case 8:
				op = g.sleep()
			}
			act.Ops = append(act.Ops, op)
		}
		p.Acts = append(p.Acts, act)
	}
	g.drag()
	if !healthy && g.P(0.3) {
		g.closer(g.N(n))
	}
}

// segs lets the client hand its bytes over in odd pieces.
func (g *gen) segs(l *LinkPlan) {
	if g.P(0.5) {
		l.CSeg = g.one(1, 2, 3, 5, 17, 100)
		if g.P(0.3) {
			l.CSegD = g.one64(1, 2, 5) * ms
		}
	}
}

func (g *gen) c04() {
	p := g.p
	p.End = 4 * sec
	if g.P(0.2) {
		p.MaxFrag = g.Range(1, 8)
	}
	if g.P(0.3) {
		p.RW, p.PE = 30*sec, g.dur(12*sec, 25*sec)
		g.quiet = true
	}
	n := g.Range(1, 2)
	for i := 0; i < n; i++ {
		c := g.conn(g.via())
		g.segs(&c.Link)
		c.Read = nil
		for k := g.Range(1, 4); k > 0; k-- {
			r := RSpec{API: g.str("msg", "bin", "str", "stream", "stream", "json")}
			if r.API == "stream" {
				for k := g.N(4); k > 0; k-- {
					r.Buf = append(r.Buf, g.one(1, 2, 7, 8, 64, 125, 500, 4096))
				}
				if g.P(0.4) {
					r.Abandon = 1 + g.one(0, 0, 1, 5, g.N(60), g.N(600))
				}
			}
			c.Read = append(c.Read, r)
		}
		for k := g.Range(1, 9); k > 0; k-- {
			if g.P(0.15) {
				c.Client = append(c.Client, g.clientPing())
				continue
			}
			if g.P(0.1) {
				c.Client = append(c.Client, g.clientPong())
				continue
			}
			m := g.clientMsg()
			if m.Ty == 1 && g.P(0.4) {
				m.Kind = g.str("u", "j", "p")
				if m.Kind == "p" {
					m.Code = g.Range(1, 300)
					m.Sz = max(m.Sz, 8)
				}
				if m.Kind == "j" {
					m.Sz = max(m.Sz, 2)
				}
			}
			if p.MaxFrag > 0 && len(m.Frags)+1 > p.MaxFrag {
				m.Frags, m.Ctl = m.Frags[:p.MaxFrag-1], nil
			}
			if c.Link.CSegD > 0 && m.Sz > 600 {
				m.Sz = 600
				m.Frags = g.split(m.Sz, 3)
				if p.MaxFrag > 0 && len(m.Frags)+1 > p.MaxFrag {
					m.Frags = m.Frags[:p.MaxFrag-1]
				}
				m.Ctl = nil
			}
			c.Client = append(c.Client, m)
			if g.P(0.2) {
				c.Client = append(c.Client, g.csleep())
			}
		}
		if g.P(0.4) {
			// sent with the handshake request: must fit the buffer of the HTTP server
			tot := 0
			for k := range c.Client {
				o := &c.Client[k]
				tot += o.Sz + 14*(len(o.Frags)+1) + o.Code + 8
				for _, x := range o.Ctl {
					tot += max(x, -2-x) + 8
				}
				if o.K == "sleep" || tot > c.HBuf-16 {
					break
				}
				c.Early = k + 1
			}
			if g.P(0.3) {
				c.Early = g.N(c.Early + 1)
			}
		}
		if g.P(0.2) {
			c.RStart = g.one64(5, 50) * ms
		}
		p.Conns = append(p.Conns, c)
	}
	if g.P(0.4) {
		for a := g.Range(1, 2); a > 0; a-- {
			var act Actor
			for k := g.Range(1, 4); k > 0; k-- {
				act.Ops = append(act.Ops, g.send(g.N(n)))
			}
			p.Acts = append(p.Acts, act)
		}
	}
}

func (g *gen) badFrame() COp {
	o := COp{K: "bad", ID: g.nid(), Ty: g.one(1, 2), Sz: g.one(0, 1, 10, 100, 125, 126, 300), Key: uint32(g.U64()), Code: g.N(60)}
	o.Kind = g.str("rsv1", "rsv2", "rsv3", "rsvctl", "rsvcont", "unmasked", "unmaskedctl", "unmaskedcont", "opcode", "opcodefrag", "fragctl", "bigctl", "orphan", "nested", "len63")
	return o
}

func (g *gen) badClose() COp {
	o := g.clientClose()
	switch g.N(3) {
	case 0:
		o.Kind = "one"
	case 1:
		o.Kind = "utf8"
		o.Sz = g.one(0, 0, 1, 5, 20, 100, 115)
	default:
		o.Kind = ""
		o.Code = g.one(0, 1, 999, 1004, 1005, 1006, 1015, 1016, 1100, 2000, 2999, 5000, 65535)
	}
	return o
}

func (g *gen) c05() {
	p := g.p
	p.End = 4 * sec
	utf8 := g.P(0.35)
	if utf8 {
		p.SkipUTF8 = g.P(0.2)
	}
	n := g.Range(1, 2)
	for i := 0; i < n; i++ {
		c := g.conn(g.via())
		g.segs(&c.Link)
		c.Read = nil
		for k := g.Range(1, 3); k > 0; k-- {
			r := RSpec{API: g.str("msg", "str", "stream", "bin")}
			if utf8 {
				r.API = "str"
			}
			if r.API == "stream" {
				for k := g.N(3); k > 0; k-- {
					r.Buf = append(r.Buf, g.one(1, 7, 64, 500))
				}
				if g.P(0.25) {
					r.Abandon = 1 + g.logn(200)
				}
			}
			if !utf8 && g.P(0.1) {
				r = RSpec{API: g.str("json", "jsonT")}
			}
			c.Read = append(c.Read, r)
		}
		msgs := g.N(5)
		for k := 0; k < msgs; k++ {
			switch g.N(6) {
			case 0:
				c.Client = append(c.Client, g.clientPing())
			case 1:
				c.Client = append(c.Client, g.csleep())
			default:
				m := g.clientMsg()
				if utf8 {
					m.Ty = 1
					m.Kind = "u"
				}
				if m.Sz > 600 {
					m.Sz, m.Frags, m.Ctl = g.N(600), nil, nil
				}
				if g.P(0.06) {
					m.Sz, m.Ctl = g.Range(1000, 70000), nil
					m.Frags = nil
					if g.P(0.4) {
						m.Frags = g.split(m.Sz, g.one(4, 4, 12))
					}
				}
				c.Client = append(c.Client, m)
			}
		}
		// the offence
		switch x := g.N(10); {
		case x == 0:
		case utf8 && x < 7:
			m := g.clientMsg()
			m.Ty, m.Kind, m.Code, m.R = 1, "x", g.N(5), int64(g.N(100))
			if m.Sz > 600 {
				m.Sz = 100
			}
			if g.P(0.1) {
				m.Sz = g.Range(1000, 70000)
			}
			m.Frags = g.split(m.Sz, g.one(4, 4, 8, 14))
			if g.P(0.4) {
				m.Frags = nil
			}
			m.Ctl = nil
			c.Client = append(c.Client, m)
		case x < 3:
			c.Client = append(c.Client, g.badClose())
		default:
			c.Client = append(c.Client, g.badFrame())
		}
		if g.P(0.5) {
			c.Client = append(c.Client, g.clientMsg(), g.clientPing())
		}
		p.Conns = append(p.Conns, c)
	}
	if g.P(0.4) {
		var act Actor
		for k := g.Range(1, 4); k > 0; k-- {
			if g.P(0.25) {
				act.Ops = append(act.Ops, Op{K: "ping", C: g.N(n)})
				continue
			}
			act.Ops = append(act.Ops, g.send(g.N(n)))
		}
		p.Acts = append(p.Acts, act)
	}
}

func (g *gen) c06() {
	p := g.p
	p.End = 3 * sec
	mode := g.N(4)
	if mode != 0 {
		p.MaxMsg = g.one(1, 10, 100, 125, 126, 127, 500, 1000, 5000, 0, -1)
	}
	if mode != 1 {
		p.MaxFrag = g.one(1, 2, 3, 5, 10, 0)
		if g.P(0.02) {
			p.MaxFrag = g.one(127, 128, 255, 256, 257, 300)
		}
	}
	lim := p.MaxMsg
	if lim <= 0 {
		lim = 1000
	}
	c := g.conn(g.via())
	if g.P(0.3) {
		g.segs(&c.Link)
		c.Link.CSegD = 0
	}
	c.Read = g.reads()
	for k := g.Range(1, 6); k > 0; k-- {
		switch g.N(8) {
		case 0:
			c.Client = append(c.Client, g.clientPing())
			continue
		case 1:
			c.Client = append(c.Client, g.csleep())
			continue
		}
		m := COp{K: "msg", ID: g.nid(), Ty: g.one(1, 2), Key: uint32(g.U64())}
		switch g.N(4) {
		case 0:
			m.Sz = g.N(lim + 1)
		case 1:
			m.Sz = max(0, lim-g.N(16))
		case 2:
			m.Sz = lim
		case 3:
			m.Sz = lim + 1 + g.one(0, 0, 1, 8, 14, 100)
		}
		if p.MaxMsg == 0 && g.P(0.03) {
			m.Sz = 1<<20 + g.one(-1, 0, 1)
		}
		mf := p.MaxFrag
		if mf == 0 {
			mf = 4
		}
		nf := g.one(0, 0, g.N(mf+2), mf-1, mf, mf+1)
		if mf > 100 && g.P(0.3) {
			nf = mf + g.one(2, 44, 200)
		}
		left := m.Sz
		for i := 0; i < nf; i++ {
			x := left / (nf + 1)
			if g.P(0.3) {
				x = g.N(left + 1)
			}
			m.Frags = append(m.Frags, x)
			left -= x
		}
		if g.P(0.5) {
			for range m.Frags {
				m.Ctl = append(m.Ctl, g.one(-1, 0, 1, 125, -2))
			}
		}
		c.Client = append(c.Client, m)
	}
	p.Conns = append(p.Conns, c)
}

func (g *gen) c07() {
	p := g.p
	p.End = p.RW + 3*p.WW + 3*sec
	n := g.Range(1, 2)
	for i := 0; i < n; i++ {
		c := g.conn(g.via())
		g.segs(&c.Link)
		c.Link.CSegD = 0
		c.Read = g.reads()
		if g.P(0.2) {
			c.RDelay = g.one64(1, 20) * ms
		}
		for k := g.N(5); k > 0; k-- {
			switch g.N(6) {
			case 0:
				c.Client = append(c.Client, g.clientPing())
			case 1:
				c.Client = append(c.Client, g.csleep())
			default:
				c.Client = append(c.Client, g.clientMsg())
			}
		}
		// the cut
		var o COp
		switch g.N(8) {
		case 0:
			o = COp{K: g.str("fin", "reset", "silent")}
		case 1:
			o = g.clientPing()
			o.Cut = 1 + g.N(o.Sz+6)
		default:
			o = g.clientMsg()
			if o.Sz > 1500 {
				o.Sz = 1500
				o.Frags = g.split(o.Sz, 4)
				o.Ctl = nil
			}
			tot := o.Sz + 6
			for _, f := range o.Frags {
				tot += 6
				if f > 125 {
					tot += 2
				}
			}
			if o.Sz > 125 {
				tot += 2
			}
			for _, x := range o.Ctl {
				if x != -1 {
					tot += max(x, -2-x) + 6
				}
			}
			o.Cut = 1 + g.N(tot)
			if g.P(0.3) {
				o.Cut = max(1, min(tot, o.Sz+g.N(14)))
			}
			if g.P(0.03) {
				// inside of a header with a 64-bit length
				o.Sz, o.Frags, o.Ctl = 65536+g.N(3), nil, nil
				o.Cut = 1 + g.N(14)
			}
		}
		if o.Cut > 0 {
			o.CutK = g.str("fin", "fin", "reset", "stall")
		}
		c.Client = append(c.Client, o)
		g.wfaults(&c.Link, 0.05)
		p.Conns = append(p.Conns, c)
	}
	if g.P(0.4) {
		var act Actor
		for k := g.Range(1, 4); k > 0; k-- {
			act.Ops = append(act.Ops, g.send(g.N(n)))
		}
		p.Acts = append(p.Acts, act)
	}
}

func (g *gen) c08() {
	p := g.p
	p.WW = g.one64(200, 300) * ms
	p.RW = g.one64(1, 2, 4) * sec
	p.PE = p.RW * int64(g.Range(30, 80)) / 100
	p.Dflt = 0
	g.dflt(0.1)
	n := g.Range(1, 2)
	dead := g.P(0.4)
	p.Mode = "live"
	if dead {
		p.Mode = "dead"
	}
	p.Sched = g.strat(false)
	cyc := int64(g.Range(2, 8))
	p.End = cyc*p.PE + p.RW + 3*sec
	slack := min(p.PE, p.RW-p.PE) - 3*p.Sched.StallTot
	for i := 0; i < n; i++ {
		c := g.conn(g.via())
		c.Link.Jitter = 0
		c.Link.Lat = g.one64(0, 1, 5) * ms
		if g.P(0.5) {
			c.PongD = max(0, slack*int64(g.Range(0, 80))/100-2*c.Link.Lat-60*ms)
		}
		for k := g.N(8); k > 0; k-- {
			switch g.N(5) {
			case 0:
				m := g.clientMsg()
				if m.Sz > 1500 {
					m.Sz, m.Frags, m.Ctl = 200, nil, nil
				}
				c.Client = append(c.Client, m)
			case 1:
				c.Client = append(c.Client, g.clientPing())
			case 2:
				c.Client = append(c.Client, COp{K: "pong", ID: g.nid(), Sz: 0, Key: uint32(g.U64())})
			default:
				c.Client = append(c.Client, COp{K: "sleep", D: g.dur(ms, p.PE)})
			}
		}
		if dead && i == 0 {
			switch g.N(4) {
			case 0:
				c.PongStop = g.Range(1, int(cyc))
				c.Client = append(c.Client, COp{K: "silent"})
				// the client goes silent at once
			case 1:
				c.Client = append(c.Client, COp{K: "sleep", D: g.dur(ms, 2*p.PE)}, COp{K: "silent"})
			case 2:
				c.Client = append(c.Client, COp{K: "sleep", D: g.dur(ms, 2*p.PE)}, COp{K: "stopread"}, COp{K: "silent"})
				c.Link.SndBuf = g.one(1, 16, 64)
			case 3:
				m := g.clientMsg()
				if m.Sz > 1500 {
					m.Sz, m.Frags, m.Ctl = 200, nil, nil
				}
				m.Cut, m.CutK = 1+g.N(m.Sz+6), "stall"
				c.Client = append(c.Client, m)
			}
		}
		p.Conns = append(p.Conns, c)
	}
	if g.P(0.5) {
		for a := g.Range(1, 2); a > 0; a-- {
			var act Actor
			for k := g.Range(1, 5); k > 0; k-- {
				switch g.N(5) {
				case 4:
					op := g.bc(g.str("rbc", "mbc"))
					op.Room = "r0"
					for q := g.one(1, 1, 3); q > 0; q-- {
						act.Ops = append(act.Ops, op)
						op.ID = g.nid()
					}
				case 0:
					act.Ops = append(act.Ops, Op{K: "ping", C: g.N(n)})
				case 1:
					act.Ops = append(act.Ops, Op{K: "sleep", D: g.dur(ms, p.PE)})
				case 2:
					act.Ops = append(act.Ops, g.send(g.N(n)))
				case 3:
					act.Ops = append(act.Ops, g.stream(g.N(n)))
				}
			}
			p.Acts = append(p.Acts, act)
		}
	}
}

func (g *gen) c09() {
	if g.P(0.05) {
		g.crawl()
		return
	}
	p := g.p
	p.End = 4 * sec
	n := g.Range(1, 2)
	for i := 0; i < n; i++ {
		c := g.conn(g.str("up", "room", "mgr"))
		g.segs(&c.Link)
		if c.Link.CSegD > 0 {
			c.Link.CSeg = max(c.Link.CSeg, 17)
		}
		c.Read = g.reads()
		if g.P(0.2) {
			c.Read[0] = RSpec{API: "stream", Abandon: 1 + g.N(30)}
		}
		for k := g.Range(1, 9); k > 0; k-- {
			switch g.N(10) {
			case 0, 1, 2, 3:
				c.Client = append(c.Client, g.clientPing())
			case 4, 5, 6:
				m := g.clientMsg()
				if m.Sz > 700 {
					m.Sz = 700
					m.Frags, m.Ctl = g.split(700, 4), nil
				}
				for range m.Frags {
					m.Ctl = append(m.Ctl, g.one(-1, 0, 5, 125, -2))
				}
				c.Client = append(c.Client, m)
			case 7: // a ping that arrives slowly
				o := g.clientPing()
				o.Sz = max(o.Sz, 4)
				o.At = g.Range(1, o.Sz+5)
				o.R = min(g.one64(10, 100, 500, 900, 1500)*ms, p.RW*2/5)
				c.Client = append(c.Client, o)
			case 8:
				c.Client = append(c.Client, g.csleep())
			case 9:
				c.Client = append(c.Client, COp{K: "pong", ID: g.nid(), Key: uint32(g.U64())})
			}
		}
		if g.P(0.25) {
			c.Client = append(c.Client, g.clientClose())
		}
		p.Conns = append(p.Conns, c)
	}
	for a := g.N(4); a > 0; a-- {
		var act Actor
		for k := g.Range(1, 5); k > 0; k-- {
			ci := g.N(n)
			switch g.N(5) {
			case 0, 1:
				act.Ops = append(act.Ops, g.send(ci))
			case 2:
				act.Ops = append(act.Ops, g.stream(ci))
			case 3:
				op := g.bc(g.str("rbc", "mbc"))
				op.Room = "r0"
				act.Ops = append(act.Ops, op)
			case 4:
				act.Ops = append(act.Ops, g.sleep())
			}
		}
		p.Acts = append(p.Acts, act)
	}
}

func (g *gen) hooks(p float64, names ...string) {
	if g.p.Hooks == nil {
		g.p.Hooks = map[string][]Op{}
	}
	for _, h := range names {
		if !g.P(p) {
			continue
		}
		for k := g.Range(1, 2); k > 0; k-- {
			var op Op
			switch g.N(10) {
			case 0, 1:
				op = g.send(-1)
			case 2, 3:
				op = g.closeOp(-1)
			case 4:
				op = Op{K: "mlist", C: -1}
			case 5:
				op = Op{K: "rmkeys", C: -1}
			case 6:
				op = g.bc(g.str("mbc", "rbc"))
				op.Room = "r0"
			case 7:
				op = Op{K: g.str("radd", "rremove", "rlist", "rmget"), C: -1, Room: g.str("r0", "r1")}
			case 8:
				op = Op{K: "ping", C: -1}
			case 9:
				op = Op{K: "mget", C: -1, Room: "k0"}
			}
			g.p.Hooks[h] = append(g.p.Hooks[h], op)
		}
	}
}

func (g *gen) c10() {
	if g.P(0.05) {
		g.crawl()
		return
	}
	p := g.p
	t := traffic{conns: 2, acts: 3, ops: 3, faults: 0.15, ctx: 0.1, slow: 0.12, closes: 0.5, bc: 0.2, client: 0.8, reset: 0.2}
	g.traffic(t)
	n := len(p.Conns)
	for k := g.N(4); k > 0; k-- {
		g.closer(g.N(n))
	}
	if g.P(0.3) {
		c := &p.Conns[g.N(n)]
		if g.P(0.5) {
			c.Client = append(c.Client, g.badFrame())
		} else {
			c.Client = append(c.Client, g.badClose())
		}
	}
	if g.P(0.2) {
		p.Acts = append(p.Acts, Actor{At: g.one64(0, 1, 10, 100) * ms, Ops: []Op{{K: g.str("mshutdown", "rmshutdown"), C: -1}}})
	}
	if g.P(0.25) {
		c := &p.Conns[g.N(n)]
		c.NoEcho = true
	}
	if g.P(0.2) {
		g.hooks(0.4, "disconnect", "unregister", "leave", "connect", "join", "register")
	}
}

func (g *gen) c11() {
	if g.P(0.05) {
		g.crawl()
		return
	}
	t := traffic{conns: 3, acts: 5, ops: 5, faults: 0.25, ctx: 0.35, slow: 0.4, closes: 0.3, bc: 0.5, batch: 0.2, client: 0.5, reset: 0.3}
	g.traffic(t)
	p := g.p
	n := len(p.Conns)
	if g.P(0.35) {
		g.hooks(0.35, "disconnect", "unregister", "leave", "connect", "join", "register")
	}
	if g.P(0.15) {
		p.Acts = append(p.Acts, Actor{At: g.one64(0, 1, 10, 100) * ms, Ops: []Op{{K: g.str("mshutdown", "rmshutdown", "rclose", "rremoveall"), C: -1, Room: "r0"}}})
	}
	if g.P(0.2) {
		c := &p.Conns[g.N(n)]
		c.Client = append(c.Client, g.badFrame())
	}
	for i := range p.Conns {
		if g.P(0.15) {
			p.Conns[i].Pong = "no"
		}
		if g.P(0.1) {
			p.Conns[i].Client = append(p.Conns[i].Client, COp{K: "silent"})
		}
	}
	p.End = 3 * sec
}

func (g *gen) c12() {
	p := g.p
	t := traffic{conns: 3, acts: 3, ops: 3, faults: 0.3, ctx: 0.15, slow: 0.2, closes: 0.5, bc: 0.3, batch: 0.4, client: 0.6, reset: 0.4}
	g.traffic(t)
	n := len(p.Conns)
	if g.P(0.3) {
		p.Lim = &LimPlan{MPS: g.one(1, 100), Burst: g.Range(1, 3), Hook: g.str("none", "ok", "close", "err")}
	}
	for k := g.N(4); k > 0; k-- {
		p.Acts = append(p.Acts, Actor{At: g.one64(0, 1, 10) * ms, Ops: []Op{{K: "radd", C: g.N(n), Room: g.str("r0", "r1")}}})
	}
	for i := range p.Conns {
		c := &p.Conns[i]
		if g.P(0.1) {
			c.HijackErr = true
		}
		if g.P(0.1) {
			c.Link.WErrAt = 1 + g.N(150)
		}
		if g.P(0.1) {
			c.Link.RdlErrAt = 1
		}
		if g.P(0.1) {
			c.Link.WdlErrAt = 1
		}
	}
	if g.P(0.2) {
		g.hooks(0.5, "connect", "register", "join")
	}
	if p.Batch != nil && g.P(0.4) {
		p.Acts = append(p.Acts, Actor{At: g.one64(0, 1, 20, 100) * ms, Ops: []Op{{K: g.str("flclose", "flclose", "flcancel"), C: -1}}})
	}
	if g.P(0.12) {
		p.Acts = append(p.Acts, Actor{At: g.one64(0, 1, 3, 30, 300) * ms, Ops: []Op{{K: g.str("rclose", "rremoveall", "rmshutdown"), C: -1, Room: "r0"}, {K: "rmadd", C: -1, Room: "r0"}}})
	}
	p.End = 2 * sec
	if g.P(0.08) {
		g.two()
	}
}

func (g *gen) c13() {
	p := g.p
	p.Sched = g.strat(true)
	r := g.one(1, 2, 5, 10, 50)
	p.Lim = &LimPlan{MPS: r, Burst: g.one(1, 1, 2, 3, 5, 10), Hook: g.str("none", "ok", "ok", "ok", "err", "close")}
	n := g.Range(1, 3)
	p.End = 6 * sec
	for i := 0; i < n; i++ {
		c := g.conn(g.via())
		c.Link.Jitter = 0
		c.Read = g.reads()
		if g.P(0.3) {
			c.Read = append(c.Read, RSpec{API: "stream", Buf: []int{g.one(1, 8, 64)}, Abandon: 1 + g.logn(100)})
		}
		if g.P(0.2) {
			c.RDelay = g.one64(1, 20, 200) * ms
		}
		for k := g.Range(2, 16); k > 0; k-- {
			switch g.N(8) {
			case 0:
				c.Client = append(c.Client, g.clientPing())
			case 1, 2:
				c.Client = append(c.Client, COp{K: "sleep", D: g.dur(0, int64(2*sec)/int64(r)/2)})
			case 3:
				c.Client = append(c.Client, COp{K: "sleep", D: sec / int64(r)})
			default:
				m := g.clientMsg()
				if m.Sz > 500 {
					m.Sz = 300
					m.Frags = nil
					m.Ctl = nil
				}
				m.D = 0
				c.Client = append(c.Client, m)
			}
		}
		p.Conns = append(p.Conns, c)
	}
	if g.P(0.3) {
		p.Acts = append(p.Acts, Actor{Ops: []Op{g.send(g.N(n)), g.send(g.N(n))}})
	}
}

// some is now and then a list of a few connections.
func (g *gen) some(n int) (l []int) {
	if g.P(0.35) {
		for i := range n {
			if g.P(0.4) {
				l = append(l, i)
			}
		}
	}
	return
}

func (g *gen) joins(n, acts, ops int, rooms ...string) {
	p := g.p
	for a := 0; a < acts; a++ {
		var act Actor
		for k := g.Range(1, ops); k > 0; k-- {
			ci := g.N(n)
			rm := rooms[g.N(len(rooms))]
			switch g.N(12) {
			case 0, 1, 2, 3:
				act.Ops = append(act.Ops, Op{K: "radd", C: ci, Room: rm, Sz: g.one(0, g.nid())})
			case 4, 5:
				act.Ops = append(act.Ops, Op{K: "rremove", C: ci, Room: rm, Sz: g.one(0, g.nid())})
			case 6:
				act.Ops = append(act.Ops, Op{K: "rmove", C: ci, Room: rm, Room2: rooms[g.N(len(rooms))]})
			case 7:
				act.Ops = append(act.Ops, g.sleep())
			case 8:
				act.Ops = append(act.Ops, Op{K: "rlist", C: -1, Room: rm, Ex: g.some(n)})
			case 9:
				act.Ops = append(act.Ops, Op{K: g.str("rmget", "rmkeys", "rmadd"), C: -1, Room: rm})
			case 10:
				act.Ops = append(act.Ops, Op{K: g.str("mlist", "mget"), C: -1, Room: fmt.Sprint("k", g.N(3)), API: g.str("", "conns"), Ex: g.some(n)})
			case 11:
				act.Ops = append(act.Ops, Op{K: "radd", C: ci, Room: rm})
			}
		}
		p.Acts = append(p.Acts, act)
	}
}

// two puts some of the rooms into a second room manager, and some connections into a second manager too.
func (g *gen) two() {
	p := g.p
	p.Two = true
	in2 := func(ops []Op) {
		for i := range ops {
			o := &ops[i]
			if strings.HasPrefix(o.Room, "r") && g.P(0.4) {
				o.Room = "2:" + o.Room
				if o.Room2 != "" {
					o.Room2 = "2:" + o.Room2
				}
			}
		}
	}
	for i := range p.Acts {
		in2(p.Acts[i].Ops)
	}
	for i := range p.Conns {
		if c := &p.Conns[i]; c.Via == "room" && g.P(0.4) {
			c.Key = "2:" + c.Key
		}
	}
	for k := g.N(3); k > 0; k-- {
		a := Actor{At: g.one64(0, 1, 3, 30) * ms}
		for q := g.Range(1, 3); q > 0; q-- {
			a.Ops = append(a.Ops, Op{K: "m2reg", C: g.N(len(p.Conns))})
			if g.P(0.5) {
				a.Ops = append(a.Ops, Op{K: "m2list", C: -1})
			}
		}
		p.Acts = append(p.Acts, a)
	}
}

func (g *gen) c14() {
	p := g.p
	p.End = 3 * sec
	p.BP = g.one(0, 1, 2, 2)
	p.BQ = g.one(0, 1, 2, 8, 16)
	n := g.Range(1, 4)
	healthy := g.P(0.6)
	pause := int64(0)
	if !healthy && g.P(0.35) {
		// a client stops reading, its queue fills up, and it recovers before the server gives up on it
		p.BP, p.BQ = g.one(0, 0, 1), g.one(1, 2)
		p.WW = g.one64(100, 200, 500) * ms
		pause = g.dur(p.WW/4, p.WW*3/4)
		p.End += 8 * p.WW
	}
	if g.P(0.06) {
		n = g.Range(5, 12)
		if g.P(0.08) {
			n = g.Range(13, 40)
		}
	}
	for i := 0; i < n; i++ {
		c := g.conn(g.str("room", "room", "mgr", "up"))
		if !healthy {
			g.wfaults(&c.Link, 0.15)
			if pause > 0 && i == 0 {
				c.Link.SndBuf = g.one(1, 16, 64)
				c.Client = append(c.Client, COp{K: "sleep", D: g.dur(0, 5*ms)}, COp{K: "stopread"}, COp{K: "sleep", D: pause}, COp{K: "startread"})
			} else if g.P(0.2) {
				g.slowClient(&c)
			}
			if pause == 0 && g.P(0.1) {
				c.Client = append(c.Client, g.csleep(), COp{K: g.str("fin", "reset")})
			}
		} else if g.P(0.3) {
			for k := g.N(4); k > 0; k-- {
				c.Client = append(c.Client, g.clientPing(), g.clientMsg())
			}
		}
		p.Conns = append(p.Conns, c)
	}
	if p.BP != 2 && pause == 0 && g.P(0.7) {
		p.BQ = g.one(8, 16)
	}
	if g.P(0.2) {
		g.batching()
	}
	maxB := 100
	if p.BP != 2 && p.BQ >= 8 || p.BQ == 0 {
		maxB = 8
	}
	if g.P(0.7) {
		g.joins(n, g.N(3), 4, "r0", "r0", "r1")
	}
	nb := 0
	for a := g.Range(1, 3); a > 0; a-- {
		var act Actor
		act.At = g.one64(0, 0, 2, 20) * ms
		for k := g.Range(1, 5); k > 0; k-- {
			if nb < maxB {
				nb++
				op := g.bc(g.str("rbc", "rbc", "mbc"))
				if p.Batch != nil && g.P(0.6) {
					op = g.bbc(g.str("rbb", "rbb", "mbb"))
				}
				op.Room = g.str("r0", "r0", "r0", "r1")
				for i := 0; i < n; i++ {
					if g.P(0.2) {
						op.Ex = append(op.Ex, i)
					}
				}
				g.ctx(&op, 0.1)
				act.Ops = append(act.Ops, op)
			}
			switch g.N(6) {
			case 0:
				act.Ops = append(act.Ops, g.send(g.N(n)))
			case 1:
				act.Ops = append(act.Ops, g.stream(g.N(n)))
			case 2:
				act.Ops = append(act.Ops, g.sleep())
			case 3: // join, then broadcast at once
				ci := g.N(n)
				act.Ops = append(act.Ops, Op{K: "radd", C: ci, Room: "r0"})
				if nb < maxB {
					nb++
					op := g.bc("rbc")
					if p.Batch != nil && g.P(0.5) {
						op = g.bbc("rbb")
					}
					op.Room = "r0"
					act.Ops = append(act.Ops, op)
				}
			case 4:
				if p.Batch != nil {
					act.Ops = append(act.Ops, g.batchOp(g.N(n)))
				}
			case 5: // empty or close the room, some come back
				if !g.P(0.15) {
					break
				}
				rm := g.str("r0", "r0", "r1")
				act.Ops = append(act.Ops, Op{K: g.str("rremoveall", "rremoveall", "rclose"), C: -1, Room: rm})
				for k := g.N(3); k > 0; k-- {
					act.Ops = append(act.Ops, Op{K: "radd", C: g.N(n), Room: rm})
				}
				if nb < maxB && g.P(0.7) {
					nb++
					op := g.bc("rbc")
					op.Room = rm
					act.Ops = append(act.Ops, op)
				}
			}
		}
		p.Acts = append(p.Acts, act)
	}
	if p.Batch != nil {
		g.plain()
		p.End += 4 * p.Batch.Every
	}
	if g.P(0.15) {
		g.closer(g.N(n))
	}
	if g.P(0.08) {
		g.two()
	}
}

func (g *gen) c15() {
	p := g.p
	p.Sched = g.strat(true)
	p.Paced = true
	p.BP = g.one(0, 1, 1, 2, 2)
	p.BQ = g.one(1, 2, 4, 8)
	n := g.Range(2, 4)
	slow := g.Range(1, max(1, n-1))
	if g.P(0.06) {
		n = g.Range(5, 12)
	}
	via := g.str("room", "room", "mgr")
	nb := g.Range(3, 14)
	gap := g.one64(5, 20, 60) * ms
	for i := 0; i < n; i++ {
		c := g.conn(via)
		c.Link.Lat = g.one64(0, 1) * ms
		c.Link.Jitter = 0
		c.Link.SndBuf = g.one(1024, 4096, 65536)
		if i < slow {
			c.Link.SndBuf = g.one(1, 16, 64, 256)
			switch g.N(6) {
			case 0, 1:
				c.Client = append(c.Client, COp{K: "sleep", D: g.dur(0, 100*ms)}, COp{K: "stopread"})
			case 2:
				c.Client = append(c.Client, COp{K: "sleep", D: g.dur(0, 100*ms)}, COp{K: "stopread"}, COp{K: "sleep", D: g.dur(10*ms, p.WW*3/2)}, COp{K: "startread"})
			case 3:
				c.Client = append(c.Client, COp{K: "rate", R: g.one64(50, 500, 5000)})
			case 4:
				c.Client = append(c.Client, COp{K: "stopread"}, COp{K: "sleep", D: g.dur(0, 500*ms)}, COp{K: "reset"})
			case 5:
				c.Link.WErrAt = 129 + g.logn(500)
			}
		}
		p.Conns = append(p.Conns, c)
	}
	if g.P(0.2) {
		g.batching()
		p.Batch.Every *= 20 // these runs last long
	}
	var act Actor
	act.At = 60 * ms
	// a broadcast may wait for slow clients: the gaps only have to let the others catch up
	for k := 0; k < nb; k++ {
		op := g.bc("rbc")
		if via == "mgr" {
			op.K = "mbc"
		}
		if p.Batch != nil && g.P(0.6) {
			op = g.bbc(map[bool]string{true: "mbb", false: "rbb"}[via == "mgr"])
		}
		op.Room = "r0"
		op.Sz = 8 + g.N(120)
		g.ctx(&op, 0.15)
		if op.Ctx == "nil" {
			op.Ctx = ""
		}
		act.Ops = append(act.Ops, op, Op{K: "sleep", D: gap})
	}
	p.Acts = append(p.Acts, act)
	p.End = 60*ms + int64(nb)*(gap+p.WW)*3 + 20*p.WW + 2*sec
	if p.Batch != nil {
		g.plain()
	}
	if g.P(0.3) {
		p.Acts = append(p.Acts, Actor{At: 100 * ms, Ops: []Op{g.send(n - 1), g.send(n - 1), g.send(g.N(n))}})
		if p.Batch != nil {
			g.plain()
		}
	}
	if g.P(0.2) {
		p.Acts = append(p.Acts, Actor{At: g.dur(60*ms, 300*ms), Ops: []Op{{K: "close", C: g.N(slow), API: "close"}}})
	}
}

func (g *gen) c16() {
	p := g.p
	p.End = 2 * sec
	p.BP = g.one(0, 1, 2)
	n := g.Range(1, 4)
	if g.P(0.04) {
		n = g.Range(5, 9)
	}
	for i := 0; i < n; i++ {
		c := g.conn(g.str("room", "mgr", "mgr", "up"))
		if c.Via == "mgr" && g.P(0.6) {
			c.Key = g.str("k0", "k0", "k1")
		}
		if c.Via == "room" {
			c.Key = g.str("r0", "r0", "r1")
		}
		switch g.N(6) {
		case 0:
			c.Client = append(c.Client, g.csleep(), COp{K: g.str("fin", "reset")})
		case 1:
			c.Client = append(c.Client, g.clientClose())
		case 2:
			c.Client = append(c.Client, g.badFrame())
		}
		if g.P(0.1) {
			g.slowClient(&c)
		}
		g.wfaults(&c.Link, 0.05)
		p.Conns = append(p.Conns, c)
	}
	g.joins(n, g.Range(1, 4), 5, "r0", "r0", "r1")
	for k := g.N(3); k > 0; k-- {
		g.closer(g.N(n))
	}
	if g.P(0.15) {
		p.Acts = append(p.Acts, Actor{At: g.one64(0, 1, 3, 30) * ms, Ops: []Op{{K: "rereg", C: g.N(n)}, {K: "mlist", C: -1}}})
	}
	for k := g.N(3); k > 0; k-- {
		p.Acts = append(p.Acts, Actor{At: g.one64(0, 1, 3, 30) * ms, Ops: []Op{{K: g.str("rclose", "rremoveall", "rclose"), C: -1, Room: g.str("r0", "r0", "r1")}, {K: "rmadd", C: -1, Room: "r0"}}})
	}
	if g.P(0.12) {
		p.NoHook = "j"
	} else {
		p.OwnHook = g.P(0.15)
	}
	if g.P(0.2) {
		g.two()
	}
	if g.P(0.1) {
		p.Acts = append(p.Acts, Actor{At: g.one64(1, 10, 100) * ms, Ops: []Op{{K: g.str("mshutdown", "rmshutdown"), C: -1}}})
	}
	if g.P(0.2) {
		g.hooks(0.4, "connect", "disconnect", "register", "unregister", "join", "leave")
	}
}

func (g *gen) c17() {
	p := g.p
	p.End = 4 * sec
	p.BP = g.one(0, 1, 2)
	n := g.Range(1, 4)
	few := n
	if g.P(0.15) {
		n = g.Range(5, 16)
		if g.P(0.08) {
			n = g.Range(17, 45)
		}
	}
	kind := g.str("mgr", "room", "both")
	for i := 0; i < n; i++ {
		via := kind
		if kind == "both" {
			via = g.str("mgr", "room")
		}
		c := g.conn(via)
		if via == "room" {
			c.Key = g.str("r0", "r1", "r0")
		}
		if via == "mgr" && g.P(0.1) {
			c.Key = "k0"
		}
		if i >= few { // a crowd
			c.Link.RChunk, c.Link.RShort, c.Link.CChunk = 0, false, 0
			if g.P(0.05) {
				g.slowClient(&c)
			}
			p.Conns = append(p.Conns, c)
			continue
		}
		if g.P(0.25) {
			g.slowClient(&c)
		}
		if g.P(0.1) {
			c.NoEcho = true
		}
		g.wfaults(&c.Link, 0.06)
		p.Conns = append(p.Conns, c)
	}
	if g.P(0.4) {
		g.joins(n, g.Range(1, 2), 4, "r0", "r1")
	}
	for k := g.Range(1, 2); k > 0; k-- {
		ks := g.str("mshutdown", "rmshutdown")
		if kind == "mgr" {
			ks = "mshutdown"
		}
		if kind == "room" {
			ks = "rmshutdown"
		}
		a := Actor{At: g.one64(1, 30, 100, 100, 300) * ms, Ops: []Op{{K: ks, C: -1}}}
		if g.P(0.5) {
			// what is left of the registry; somebody else is closing a connection meanwhile
			a.Ops = append(a.Ops, Op{K: "mlist", C: -1, API: g.str("", "conns")}, Op{K: "rmkeys", C: -1})
			if g.P(0.5) {
				p.Acts = append(p.Acts, Actor{At: a.At, Ops: []Op{g.closeOp(g.N(n))}})
			}
		}
		p.Acts = append(p.Acts, a)
	}
	if g.P(0.3) {
		g.closer(g.N(n))
	}
	for a := g.N(3); a > 0; a-- {
		var act Actor
		act.At = g.one64(0, 90, 100) * ms
		for k := g.Range(1, 3); k > 0; k-- {
			switch g.N(4) {
			case 0:
				act.Ops = append(act.Ops, g.send(g.N(n)))
			case 1:
				op := g.bc(g.str("rbc", "mbc"))
				op.Room = "r0"
				act.Ops = append(act.Ops, op)
			case 2:
				act.Ops = append(act.Ops, g.stream(g.N(n)))
			case 3:
				act.Ops = append(act.Ops, Op{K: "radd", C: g.N(n), Room: g.str("r0", "r1")})
			}
		}
		p.Acts = append(p.Acts, act)
	}
	if g.P(0.4) {
		g.hooks(0.4, "disconnect", "unregister", "leave")
		if g.P(0.3) {
			h := g.str("disconnect", "unregister", "leave")
			p.Hooks[h] = append(p.Hooks[h], Op{K: g.str("mshutdown", "rmshutdown"), C: -1})
		}
	}
	if g.P(0.08) {
		g.two()
	}
}

func (g *gen) c18() {
	p := g.p
	g.batching()
	b := p.Batch
	n := g.Range(1, 3)
	healthy := g.P(0.7)
	for i := 0; i < n; i++ {
		c := g.conn(g.via())
		if !healthy {
			g.wfaults(&c.Link, 0.15)
			if g.P(0.2) {
				g.slowClient(&c)
			}
		}
		p.Conns = append(p.Conns, c)
	}
	p.BP = g.one(0, 2, 2)
	p.BQ = g.one(0, 8, 16)
	nb := 0
	for a := g.Range(1, 4); a > 0; a-- {
		var act Actor
		act.At = g.one64(0, 0, 3, 20) * ms
		for k := g.Range(1, 8); k > 0; k-- {
			ci := g.N(n)
			switch x := g.N(12); {
			case x < 7:
				act.Ops = append(act.Ops, g.batchOp(ci))
			case x < 8:
				act.Ops = append(act.Ops, Op{K: "sleep", D: g.dur(ms, 2*b.Every)})
			case x < 9:
				act.Ops = append(act.Ops, g.send(ci))
			case x < 10:
				act.Ops = append(act.Ops, g.stream(ci))
			case nb < 8:
				nb++
				op := Op{K: g.str("rbb", "mbb"), C: -1, ID: g.nid(), Sz: 8 + g.logn(60), Ty: 1, Room: "r0"}
				if b.Strat != "prefix" || g.P(0.5) {
					op.API = "json"
				}
				g.ctx(&op, 0.15)
				op.Ex = g.some(n)
				act.Ops = append(act.Ops, op)
			}
		}
		p.Acts = append(p.Acts, act)
	}
	if p.MaxBatch == 0 && g.P(0.004) {
		var act Actor
		for k := g.Range(16, 20); k > 0; k-- {
			op := g.batchOp(0)
			op.Sz = g.one(65535, 65536, 70000, 100000)
			act.Ops = append(act.Ops, op)
		}
		p.Acts = append(p.Acts, act)
	}
	g.plain()
	p.End = 2*sec + 4*b.Every
	if g.P(0.35) {
		at := g.one64(0, 1, 5, 50, 100) * ms
		if g.P(0.4) {
			at += g.dur(0, 2*ms)
		}
		p.Acts = append(p.Acts, Actor{At: at, Ops: []Op{{K: g.str("flclose", "flclose", "flcancel"), C: -1}}})
		if g.P(0.3) {
			p.Acts = append(p.Acts, Actor{At: at, Ops: []Op{{K: g.str("flclose", "flcancel"), C: -1}}})
		}
	}
	if g.P(0.12) {
		// batching at the very moment the flusher ends
		at := g.one64(1, 5, 50)*ms + g.dur(0, ms)
		for k := g.Range(1, 3); k > 0; k-- {
			var act Actor
			act.At = at
			for i := g.Range(1, 2); i > 0; i-- {
				act.Ops = append(act.Ops, g.batchOp(g.N(n)))
			}
			p.Acts = append(p.Acts, act)
		}
		p.Acts = append(p.Acts, Actor{At: at, Ops: []Op{{K: g.str("flclose", "flclose", "flclose", "flcancel"), C: -1}}})
	}
	if g.P(0.15) {
		g.closer(g.N(n))
	}
}

func (g *gen) c19() {
	p := g.p
	p.End = sec
	nm := g.N(4)
	if g.P(0.1) {
		nm = g.Range(4, 7)
	}
	for k := nm; k > 0; k-- {
		m := MWPlan{Kind: g.str("ok", "ok", "err", "code"), Code: g.one(400, 401, 403, 429, 500, 503), Conn: g.one(-1, 0, 1)}
		if g.P(0.2) {
			m.Delay = g.one64(1, 20) * ms
		}
		if g.P(0.5) {
			m.Kind = "ok"
		}
		p.MW = append(p.MW, m)
	}
	if g.P(0.4) {
		p.Subs = [][]string{{"chat"}, {"chat", "v2"}, {"v1", "v2", "v3"}}[g.N(3)]
		p.RejectRaw = g.P(0.5)
	} else if g.P(0.05) { // nothing is supported
		p.RejectRaw = true
	}
	if g.P(0.3) {
		g.batching()
	}
	if g.P(0.3) {
		p.Lim = &LimPlan{MPS: 10, Burst: 2, Hook: "ok"}
	}
	n := g.Range(1, 3)
	for i := 0; i < n; i++ {
		c := g.conn(g.str("up", "mgr", "room"))
		if g.P(0.3) {
			c.BadReq = g.str("method", "upgrade", "noupgrade", "connection", "noconnection", "version", "noversion", "key", "nokey")
		}
		if g.P(0.4) {
			c.Proto = g.str("chat", "v2, chat", "other", "v3,v2", "x, y , v1", "CHAT")
		}
		if g.P(0.5) {
			c.Hdr = g.Range(1, 15)
		}
		if g.P(0.5) {
			c.Nonce = g.U64() >> 11
		}
		if g.P(0.12) {
			c.HijackErr = true
		}
		switch g.N(8) {
		case 0:
			c.Link.WErrAt = 1 + g.N(200)
			c.Link.WErrPipe = g.P(0.5)
		case 1:
			c.Link.WdlErrAt = 1 + g.N(2)
		case 2:
			c.Link.RdlErrAt = 1
		}
		if g.P(0.15) {
			c.Link.SndBuf = g.one(16, 64, 100)
		}
		if g.P(0.4) {
			c.Early = g.N(3)
			c.Client = append(c.Client, COp{K: "msg", ID: g.nid(), Ty: 1, Sz: 10, Key: 5}, COp{K: "ping", ID: g.nid(), Sz: 3, Key: 9})
		}
		if g.P(0.1) {
			c.Client = append(c.Client, COp{K: "stopread"})
		}
		p.Conns = append(p.Conns, c)
	}
	if g.P(0.4) {
		op := g.bc(g.str("mbc", "rbc"))
		op.Room = "r0"
		p.Acts = append(p.Acts, Actor{Ops: []Op{op}})
	}
	if g.P(0.3) {
		g.p.Hooks = map[string][]Op{"connect": {g.send(-1)}}
		if g.P(0.5) {
			g.hooks(0.7, "connect", "register", "join")
		}
		if p.Batch != nil {
			for i := range g.p.Hooks["connect"] {
				if o := &g.p.Hooks["connect"][i]; o.K == "send" || o.K == "rbc" || o.K == "mbc" {
					o.API = "json"
					o.Sz = max(o.Sz, 8)
				}
			}
		}
	}
}

func (g *gen) c20() {
	if g.P(0.03) {
		g.crawl()
		return
	}
	p := g.p
	switch g.N(6) {
	case 0:
		g.c16()
	case 1:
		g.c17()
	case 2:
		g.c18()
	case 3:
		g.c13()
		p.Sched = g.strat(true)
	default:
		g.traffic(traffic{conns: 3, acts: 5, ops: 5, faults: 0.2, ctx: 0.25, slow: 0.2, closes: 0.5, bc: 0.5, batch: 0.3, client: 0.7, reset: 0.25})
		n := len(p.Conns)
		g.joins(n, g.N(2), 3, "r0", "r1")
		if g.P(0.3) {
			p.Lim = &LimPlan{MPS: g.one(1, 100), Burst: g.Range(1, 3), Hook: g.str("none", "ok", "close", "err")}
		}
		if g.P(0.2) {
			p.Acts = append(p.Acts, Actor{At: g.one64(0, 1, 10, 100) * ms, Ops: []Op{{K: g.str("mshutdown", "rmshutdown", "rclose", "rremoveall"), C: -1, Room: "r0"}}})
		}
	}
	if g.P(0.1) {
		g.two()
	}
}

func (g *gen) c21() {
	p := g.p
	g.traffic(traffic{conns: 4, acts: 5, ops: 6, faults: 0.25, ctx: 0.35, slow: 0.25, closes: 0.5, bc: 0.3, batch: 0.1, client: 0.6, reset: 0.3})
	p.NoPool = g.P(0.05)
	// later connections reuse what earlier ones returned
	for i := range p.Conns {
		p.Conns[i].At = int64(i) * g.one64(0, 1, 20, 100, 300) * ms
	}
	n := len(p.Conns)
	for i := 0; i < n; i++ {
		if g.P(0.6) {
			g.closer(i)
			g.p.Acts[len(g.p.Acts)-1].At += p.Conns[i].At
		}
	}
	for i := range p.Acts {
		if g.P(0.5) {
			p.Acts[i].At += g.one64(0, 20, 100, 300) * ms
		}
	}
	p.End = 3 * sec
}
