package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"slices"
	"sort"
	"strings"

	"verif/simrt"
)

// Viol is one violated expectation; Props lists the properties it contradicts ("*": any).
type Viol struct {
	Props []string `json:"props"`
	Kind  string   `json:"kind"`
	Msg   string   `json:"msg"`
}

type judge struct {
	w    *World
	p    *Plan
	wire []*Wire
	out  []Viol
	ids  []map[string]*Want // per connection: content -> want
	ct   int                // checks evaluated
	slk  int64
}

// Want is a message content the application asked to send on a connection.
type Want struct {
	ty    byte
	data  []byte
	calls []*Call
	pos   []int // indices of wire messages with this content
}

func (j *judge) v(props, kind, f string, a ...any) {
	j.out = append(j.out, Viol{Props: strings.Fields(props), Kind: kind, Msg: fmt.Sprintf(f, a...)})
}

func wkey(ty byte, d []byte) string {
	return string(rune('0'+ty)) + string(bytes.TrimSuffix(d, []byte("\n")))
}

func wantsOn(c *Call, ci int) bool {
	switch c.K {
	case "send", "stream":
		return c.C == ci && c.Began
	case "rbc", "mbc":
		return true
	}
	return false
}

func opType(op *Op) byte {
	if op.K == "send" {
		switch op.API {
		case "bytes":
			return 2
		case "string", "json":
			return 1
		}
	}
	if op.API == "json" {
		return 1
	}
	if op.Ty == 2 {
		return 2
	}
	return 1
}

func judgeRun(w *World) []Viol {
	j := &judge{w: w, p: w.p}
	j.slk = w.p.Sched.StallTot + 5*ms
	s := w.s
	for _, p := range s.Panics {
		if strings.Contains(p.Stack, "harness.(*") && !strings.Contains(p.Stack, "gen/snapws.") {
			j.v("!", "harness-panic", "harness panic in %s: %s\n%s", p.G, p.Val, p.Stack)
			continue
		}
		j.v("*", "panic", "panic in %s at %s: %s\n%s", p.G, simrt.SiteName(p.Site), p.Val, libFrames(p.Stack))
	}
	if s.Reason == "livelock" {
		j.v("*", "livelock", "the library keeps running without simulated time advancing")
	}
	if len(j.out) > 0 {
		return j.out
	}
	if s.Reason != "end" {
		j.v("!", "harness", "run ended with %q", s.Reason)
		return j.out
	}
	if w.badArg != "" {
		j.v("C16", "get-arg", "%s", w.badArg)
	}
	for _, cs := range w.C {
		if cs.weird != "" {
			j.v("*", "weird", "conn %d: %s", cs.id, cs.weird)
		}
		j.wire = append(j.wire, decodeWire(cs.link))
	}
	j.index()
	j.outbound()
	j.controls()
	j.errors()
	j.inbound()
	j.keepalive()
	j.pongs()
	j.closing()
	j.bounded()
	j.leaks()
	j.ratelimit()
	j.broadcasts()
	j.membership()
	j.shutdown()
	j.batches()
	j.upgrades()
	for _, r := range s.Races() {
		j.v("C20", "race", "%s", r)
	}
	w.Checks = j.ct
	return j.out
}

func libFrames(st string) string {
	var out []string
	ls := strings.Split(st, "\n")
	for i := 0; i+1 < len(ls); i++ {
		if strings.Contains(ls[i], "gen/snapws.") {
			f := strings.TrimSpace(ls[i+1])
			if k := strings.LastIndex(f, "/"); k >= 0 {
				f = f[k+1:]
			}
			out = append(out, f)
		}
	}
	if len(out) > 8 {
		out = out[:8]
	}
	return strings.Join(out, " < ")
}

func short(b []byte) string {
	if len(b) > 24 {
		return fmt.Sprintf("%q...(%d bytes)", b[:24], len(b))
	}
	return fmt.Sprintf("%q", b)
}

// index relates the wire messages to what the application asked for.
func (j *judge) index() {
	for ci := range j.w.C {
		m := map[string]*Want{}
		for _, c := range j.w.Calls {
			if !wantsOn(c, ci) {
				continue
			}
			ty := opType(c.Op)
			d := c.content()
			k := wkey(ty, d)
			if m[k] == nil {
				m[k] = &Want{ty: ty, data: d}
			}
			m[k].calls = append(m[k].calls, c)
		}
		for i, x := range j.wire[ci].Msgs {
			if t := m[wkey(x.Type, x.Payload)]; t != nil {
				t.pos = append(t.pos, i)
			}
		}
		j.ids = append(j.ids, m)
	}
}

// accepted batch contents of a connection (superset: anything the application may have put into its batches)
func (j *judge) batchable(ci int) map[string]int {
	m := map[string]int{}
	for _, c := range j.w.Calls {
		switch c.K {
		case "batch", "batchjson":
			if c.C == ci {
				m[string(opData(c.Op))]++
			}
		case "rbb", "mbb":
			m[string(opData(c.Op))]++
		}
	}
	return m
}

// splitBatch parses a complete batch message; ok is false if it does not have the configured format.
func (j *judge) splitBatch(b []byte, partial bool) (els [][]byte, rest []byte, ok bool) {
	bp := j.p.Batch
	if bp.Strat == "prefix" {
		for len(b) > 0 {
			if len(b) < 4 {
				return els, b, partial
			}
			n := int(binary.BigEndian.Uint32(b))
			b = b[4:]
			if len(b) < n {
				return els, b, partial
			}
			els = append(els, b[:n])
			b = b[n:]
		}
		return els, nil, true
	}
	if len(b) == 0 {
		return nil, nil, partial
	}
	if b[0] != '[' {
		return nil, nil, false
	}
	b = b[1:]
	if len(b) == 0 {
		return nil, nil, partial
	}
	for {
		i := bytes.IndexAny(b, ",]")
		if i < 0 {
			return els, b, partial
		}
		els = append(els, b[:i])
		if b[i] == ']' {
			return els, nil, i == len(b)-1
		}
		b = b[i+1:]
	}
}

func (j *judge) otherConn(ci int, k string) int {
	for o, m := range j.ids {
		if o == ci {
			continue
		}
		if t := m[k]; t != nil {
			return o
		}
	}
	return -1
}

// outbound: C01, C02 and C21 over the bytes accepted by each transport.
func (j *judge) outbound() {
	for ci, cs := range j.w.C {
		wr := j.wire[ci]
		props := "C01"
		switch wr.BadOp {
		case 8:
			props = "C01 C10"
		case 9:
			props = "C01 C08"
		case 10:
			props = "C01 C09"
		default:
			props = j.own("C01", "C02", "C14", "C15", "C18", "C21")
		}
		for _, b := range wr.Bad {
			j.v(props, "frame", "conn %d: %s", ci, b)
		}
		if len(wr.Bad) > 0 {
			continue
		}
		bat := map[string]int{}
		if j.p.Batch != nil {
			bat = j.batchable(ci)
		}
		for _, x := range wr.Msgs {
			j.ct++
			k := wkey(x.Type, x.Payload)
			if j.ids[ci][k] != nil {
				continue
			}
			if j.p.Batch != nil && x.Type == 2 {
				if els, _, ok := j.splitBatch(x.Payload, false); ok {
					bad := ""
					for i, e := range els {
						if bat[string(e)] == 0 && !(j.p.Batch.Prefix && i == 0 && isPfx(e)) && !(j.p.Batch.Suffix && i == len(els)-1 && isSfx(e)) {
							bad = short(e)
						}
					}
					if bad == "" {
						continue
					}
					j.v("C01 C18 C21", "batch-content", "conn %d: batch element %s was never batched for this connection", ci, bad)
					continue
				}
			}
			if o := j.otherConn(ci, k); o >= 0 {
				j.v("C01 C21", "cross", "conn %d: message %s was sent to connection %d", ci, short(x.Payload), o)
				continue
			}
			props := "C01"
			if o := j.foreignBytes(ci, x.Payload); o >= 0 {
				props = "C01 C21"
			}
			j.v(props, "content", "conn %d: complete message (type %d) %s is not one the application asked to send", ci, x.Type, short(x.Payload))
		}
		if wr.OpenType != 0 && len(wr.Open) > 0 {
			j.ct++
			ok := false
			for _, t := range j.ids[ci] {
				if t.ty == wr.OpenType && (bytes.HasPrefix(t.data, wr.Open) || bytes.HasPrefix(append(append([]byte(nil), t.data...), '\n'), wr.Open)) {
					ok = true
					break
				}
			}
			if !ok && j.p.Batch != nil && wr.OpenType == 2 {
				els, rest, pok := j.splitBatch(wr.Open, true)
				ok = pok
				for _, e := range els {
					if bat[string(e)] == 0 && !isPfx(e) && !isSfx(e) {
						ok = false
					}
				}
				if ok && len(rest) > 0 && j.p.Batch.Strat != "prefix" {
					ok = false
					for e := range bat {
						ok = ok || strings.HasPrefix(e, string(rest))
					}
					ok = ok || bytes.HasPrefix(j.p.Batch.pfx(ci, 1), rest) || bytes.HasPrefix(j.p.Batch.sfx(ci, 2), rest)
				}
			}
			if !ok {
				props := "C01"
				if o := j.foreignBytes(ci, wr.Open); o >= 0 {
					props = "C01 C21"
				}
				j.v(props, "partial", "conn %d: the unfinished message on the wire (type %d) %s is not a prefix of anything sent", ci, wr.OpenType, short(wr.Open))
			}
		}
		// multiplicity and real-time order
		type placed struct {
			c   *Call
			pos int
		}
		var pl []placed
		for _, t := range j.ids[ci] {
			nd, nack, bc := 0, 0, 0
			for _, c := range t.calls {
				switch {
				case c.K == "rbc" || c.K == "mbc":
					bc++
				default:
					nd++
					if c.EK == 0 && c.Ret > 0 {
						nack++
					}
				}
			}
			j.ct++
			if bc == 0 && len(t.pos) > nd {
				j.v("C02", "duplicate", "conn %d: message %s sent %d times appears %d times on the wire", ci, short(t.data), nd, len(t.pos))
			}
			if len(t.pos) < nack {
				j.v("C02", "lost", "conn %d: %d sends of %s returned nil but only %d complete copies were handed to the transport", ci, nack, short(t.data), len(t.pos))
			}
			if len(t.calls) == 1 && nack == 1 && len(t.pos) == 1 {
				c := t.calls[0]
				x := wr.Msgs[t.pos[0]]
				if x.EndSeq > c.Ret {
					j.v("C02", "early-ack", "conn %d: send of %s returned nil before the message was handed to the transport", ci, short(t.data))
				}
				if x.Seq < c.Inv {
					j.v("C02", "early", "conn %d: message %s on the wire before it was sent", ci, short(t.data))
				}
				pl = append(pl, placed{c, t.pos[0]})
			}
		}
		sort.Slice(pl, func(a, b int) bool { return pl[a].pos < pl[b].pos })
		maxInv := int64(0)
		var maxC *Call
		for _, x := range pl {
			if maxC != nil && x.c.Ret < maxInv {
				j.v("C02", "order", "conn %d: send %s completed before send %s was started but the client receives it later", ci, short(opData(x.c.Op)), short(opData(maxC.Op)))
				break
			}
			if x.c.Inv > maxInv {
				maxInv, maxC = x.c.Inv, x.c
			}
		}
		_ = cs
	}
}

// foreignBytes reports a connection one of whose own contents b starts with.
func (j *judge) foreignBytes(ci int, b []byte) int {
	if len(b) < 6 {
		return -1
	}
	for o, m := range j.ids {
		if o == ci {
			continue
		}
		for _, t := range m {
			for _, c := range t.calls {
				if c.C == o && len(t.data) >= 12 {
					for i := 0; i+12 <= len(t.data); i += 4 {
						if bytes.Contains(b, t.data[i:i+12]) {
							return o
						}
					}
				}
			}
		}
	}
	return -1
}

// controls: pongs correspond to pings (also part of C01).
func (j *judge) controls() {
	for ci, cs := range j.w.C {
		var pings [][]byte
		for _, m := range cs.Sent {
			if m.K == "ping" {
				pings = append(pings, m.Payload)
			}
		}
		k := 0
		for _, c := range j.wire[ci].Ctls {
			if c.Op != 10 {
				continue
			}
			j.ct++
			if k >= len(pings) || !bytes.Equal(pings[k], c.Payload) {
				if k < len(pings) {
					j.v("C01 C09", "pong", "conn %d: pong number %d carries %s, the client's ping carried %s", ci, k+1, short(c.Payload), short(pings[k]))
				} else {
					j.v("C01 C09", "pong-extra", "conn %d: pong %s without a ping", ci, short(c.Payload))
				}
				break
			}
			k++
		}
	}
}

func (j *judge) arrival(cs *CS, off int) (int64, int64, bool) { // seq/time at which byte off-1 had arrived
	if off <= 0 {
		return 0, 0, true
	}
	for _, s := range cs.link.RSeqs {
		if s.Off+s.N >= off {
			return s.Seq, s.T, true
		}
	}
	return 0, 0, false
}

// app waits on a connection (streams that pause while holding the writer)
func (j *judge) appWaits(ci int) int64 {
	var n int64
	for i := range j.p.Acts {
		for k := range j.p.Acts[i].Ops {
			n += opWait(&j.p.Acts[i].Ops[k], ci)
		}
	}
	for _, ops := range j.p.Hooks {
		for k := range ops {
			n += 24 * opWait(&ops[k], -1)
		}
	}
	// a client that pauses within a message does not answer pings, and then does not read, meanwhile
	if ci >= 0 && ci < len(j.p.Conns) {
		n += clientPauses(&j.p.Conns[ci])
	}
	return n
}

// clientPauses bounds the time for which a client is in the middle of a frame sequence.
func clientPauses(c *ConnPlan) (n int64) {
	for i := range c.Client {
		o := &c.Client[i]
		if o.K != "sleep" {
			n += o.D*int64(len(o.Frags)+len(o.Ctl)+2) + o.R
		}
	}
	return n
}

func opWait(op *Op, ci int) int64 {
	var n int64
	if ci < 0 || op.C == ci || op.C < 0 {
		for _, x := range op.Wait {
			n += x
		}
	}
	return n
}

// closeCallsOn lists application closes that hit a connection.
func (j *judge) closeCallsOn(ci int) (out []*Call) {
	for _, c := range j.w.Calls {
		if c.K == "close" && c.C == ci {
			out = append(out, c)
		}
	}
	return
}

// disturbed reports why connection ci may legitimately end or fail before the final phase ("" = it must stay healthy).
func (j *judge) disturbed(ci int) string { return j.disturb(ci, true) }

func (j *judge) multiFrame(op *Op) bool {
	for _, f := range op.Flush {
		if f {
			return true
		}
	}
	wb := j.p.WBuf
	if wb == 0 {
		wb = 4096
	}
	return opSize(op)+18 >= wb
}

// disturb: with client false only causes outside the client's byte stream count.
func (j *judge) disturb(ci int, client bool) string {
	cs := j.w.C[ci]
	l := cs.p.Link
	switch {
	case l.WErrAt > 0:
		return "write error"
	case l.RErrAt > 0:
		return "read error"
	case l.RdlErrAt > 0 || l.WdlErrAt > 0:
		return "deadline error"
	case cs.p.Pong == "no" || cs.p.PongStop > 0:
		return "no pongs"
	case len(cs.p.Read) == 0 || cs.p.RMax > 0:
		return "not reading"
	case cs.conn == nil:
		return "not connected"
	}
	if client && clientPauses(cs.p) > (j.p.RW-j.p.PE)/2 {
		return "client slow"
	}
	for i := range cs.p.Client {
		op := &cs.p.Client[i]
		switch op.K {
		case "rate":
			if !j.crawls(ci) {
				return "client rate"
			}
		case "reset", "stopread", "pongoff":
			return "client " + op.K
		case "fin", "silent", "bad", "close":
			if client {
				return "client " + op.K
			}
		}
		if op.Cut > 0 && (client || op.CutK == "reset") {
			return "client cut"
		}
		if !client {
			continue
		}
		if op.K == "msg" && op.Kind == "x" {
			return "client utf8"
		}
		if op.K == "msg" {
			if lim := j.p.sizeLimit(); lim >= 0 && len(clientPayload(op)) > lim {
				return "client size"
			}
			if j.p.MaxFrag > 0 && len(op.Frags)+1 > j.p.MaxFrag {
				return "client frags"
			}
		}
	}
	for _, c := range j.w.Calls {
		if c.Inv >= j.w.FinalSeq {
			continue
		}
		switch c.K {
		case "close":
			if c.C == ci {
				return "app close"
			}
		case "mshutdown":
			if cs.p.Via == "mgr" {
				return "shutdown"
			}
		case "rmshutdown":
			return "shutdown"
		case "send", "stream":
			// a context ending mid-message legitimately ends the connection
			if c.C == ci && c.CtxEnd >= 0 && c.EK == 'f' && c.TRet >= c.CtxEnd && j.multiFrame(c.Op) {
				return "context ended during a send"
			}
		}
	}
	if j.p.BP == 1 && j.hasBroadcast() && !j.queueSpace() {
		return "backpressure close"
	}
	if l := j.p.Lim; l != nil && (l.Hook == "err" || l.Hook == "close") {
		return "limit hook"
	}
	if cs.p.Via == "mgr" {
		for o := range j.w.C {
			if o != ci && j.w.C[o].p.Via == "mgr" && j.w.C[o].p.Key == cs.p.Key {
				return "replaced"
			}
		}
	}
	return ""
}

// crawls: a slow client that nevertheless takes every frame well within the write wait, with no frame whose turn must come
// within a bounded time (pings and pongs).
func (j *judge) crawls(ci int) bool {
	cs := j.w.C[ci]
	if j.hasBroadcast() || j.p.Batch != nil || j.w.FinalT-cs.upInvT >= j.p.PE || cs.p.Link.CChunk > 0 {
		return false
	}
	big := 0
	for _, c := range j.w.Calls {
		if c.C != ci || c.Op == nil {
			continue
		}
		if c.K == "ping" || c.Hook != "" {
			return false
		}
		big = max(big, opSize(c.Op)+14)
	}
	if j.p.WBuf > 0 {
		big = min(big, j.p.WBuf+14)
	}
	rate := int64(0)
	for i := range cs.p.Client {
		o := &cs.p.Client[i]
		if o.K == "ping" || slices.ContainsFunc(o.Ctl, func(x int) bool { return x >= 0 }) {
			return false
		}
		rate = max(rate, o.R)
	}
	return rate*int64(big+cs.p.Link.SndBuf+cs.p.Link.WChunk)+j.slk/2 < j.p.WW*9/10
}

func (j *judge) hasBroadcast() bool {
	for _, c := range j.w.Calls {
		switch c.K {
		case "rbc", "mbc", "rbb", "mbb":
			return true
		}
	}
	return false
}

func (j *judge) evs(k string, ci int) (out []*Ev) {
	for _, e := range j.w.Evs {
		if e.K == k && e.C == ci {
			out = append(out, e)
		}
	}
	return
}

// errors: the error contract (C03).
func (j *judge) errors() {
	ww := j.p.WW
	for ci, cs := range j.w.C {
		if cs.conn == nil {
			continue
		}
		if cs.FatalS > 0 {
			j.ct++
			lim := cs.FatalT + 4*ww + j.appWaits(ci) + j.slk
			over := j.w.s.Now >= lim
			if over && (!cs.link.Closed || cs.link.ClosedT > lim) {
				j.v("C03 C12", "fatal-open", "conn %d: a call failed with a fatal error at %dms but the transport is not closed %dms later", ci, cs.FatalT/ms, (lim-cs.FatalT)/ms)
			}
			if over && len(j.evs("disconnect", ci)) == 0 && !j.p.noHook("d") {
				j.v("C03 C10 C12 C07", "fatal-nohook", "conn %d: a call failed with a fatal error but the disconnect hook did not run", ci)
			}
		}
		for _, c := range j.w.Calls {
			if c.C != ci || c.Ret == 0 {
				continue
			}
			j.ct++
			switch c.K {
			case "send", "stream":
				if c.EK == 'n' {
					j.v("C03", "odd-error", "conn %d: %s failed with the unexpected non-fatal error %q", ci, c.K, c.Err)
				}
				fallthrough
			case "jsonbad", "sendbad":
				if c.EK == 'c' && (c.CtxEnd < 0 || c.TRet < c.CtxEnd) {
					j.v("C03", "ctx-error", "conn %d: %s returned %q although its context had not ended", ci, c.K, c.Err)
				}
				if (c.K == "jsonbad" || c.K == "sendbad") && c.EK == 0 {
					j.v("C03", "bad-accepted", "conn %d: %s returned nil", ci, c.K)
				}
			case "ping":
				if c.EK == 'n' && c.Err != "ping already sent" {
					j.v("C03", "odd-error", "conn %d: ping failed with %q", ci, c.Err)
				}
			}
			if cs.FatalS > 0 && c.Inv > cs.FatalS {
				switch c.K {
				case "send", "stream", "ping":
					if c.EK == 0 || (c.EK == 'n' && c.K == "ping") {
						j.v("C03", "after-fatal", "conn %d: %s returned %q after a fatal error", ci, c.K, c.Err)
					}
					if c.TRet-c.TInv > j.slk {
						j.v("C03 C11", "after-fatal-slow", "conn %d: %s started after a fatal error took %dms", ci, c.K, (c.TRet-c.TInv)/ms)
					}
				}
			}
		}
		for _, r := range cs.Recv {
			if r.Ret == 0 {
				if cs.FatalS > 0 && r.Inv > cs.FatalS && j.w.s.Now-r.TInv > j.slk {
					j.v("C03 C11", "read-after-fatal-blocks", "conn %d: a read started after a fatal error does not return", ci)
				}
				continue
			}
			if r.EK != 0 && r.EK != 'f' && !r.Limited && !r.Mismatch && (r.API != "json" && r.API != "jsonT" || !jsonErr(r.Err)) {
				j.v("C03 C07", "odd-read-error", "conn %d: a read (%s) failed with the unexpected non-fatal error %q", ci, r.API, r.Err)
			}
			if cs.FatalS > 0 && r.Inv > cs.FatalS {
				j.ct++
				if r.EK != 'f' {
					j.v("C03", "read-after-fatal", "conn %d: a read after a fatal error returned %q", ci, r.Err)
				}
				if r.TRet-r.TInv > j.slk {
					j.v("C03 C11", "read-after-fatal-slow", "conn %d: a read after a fatal error took %dms", ci, (r.TRet-r.TInv)/ms)
				}
			}
		}
		if d := j.disturbed(ci); d == "" {
			j.ct++
			if cs.FatalS > 0 && cs.FatalS < j.w.FinalSeq {
				j.v("C03 "+j.aliveProps(), "healthy-fatal", "conn %d: a call failed with a fatal error although nothing disturbs the connection: %s", ci, j.firstFatal(ci))
			} else if cs.link.Closed && cs.link.ClosedSeq < j.w.FinalSeq {
				j.v("C03 "+j.aliveProps(), "healthy-closed", "conn %d: closed at %dms although nothing disturbs it (%s)", ci, cs.link.ClosedT/ms, j.closeInfo(ci))
			}
			for _, c := range j.w.Calls {
				if c.C == ci && c.Ret > 0 && c.Inv < j.w.FinalSeq && (c.K == "send" || c.K == "stream") && c.CtxEnd < 0 && c.EK != 0 && c.Ret < j.w.FinalSeq {
					j.v("C03", "healthy-error", "conn %d: %s failed with %q although nothing disturbs the connection", ci, c.K, c.Err)
				}
			}
		}
	}
}

// jsonErr: an error of the JSON decoder about the content of a message.
func jsonErr(e string) bool {
	for _, p := range []string{"json: ", "invalid character", "EOF", "unexpected EOF", "unexpected end of JSON"} {
		if strings.HasPrefix(e, p) {
			return true
		}
	}
	return false
}

// aliveProps lists the checked property if "a conforming peer stays connected" is part of its statement.
func (j *judge) aliveProps() string {
	switch j.p.Prop {
	case "C04", "C05", "C06", "C08", "C09", "C13", "C14", "C15", "C16":
		return j.p.Prop
	}
	return ""
}

func (j *judge) closeInfo(ci int) string {
	if c := j.wire[ci].Close; c != nil && len(c.Payload) >= 2 {
		return fmt.Sprintf("close code %d %q", binary.BigEndian.Uint16(c.Payload), c.Payload[2:])
	}
	return "no close frame"
}

func (j *judge) firstFatal(ci int) string {
	var s string
	seq := int64(1 << 62)
	for _, c := range j.w.Calls {
		if c.C == ci && c.EK == 'f' && c.Ret < seq {
			seq, s = c.Ret, fmt.Sprintf("%s by %s: %s at %dms", c.K, c.Who, c.Err, c.TRet/ms)
		}
	}
	for _, r := range j.w.C[ci].Recv {
		if r.EK == 'f' && r.Ret < seq {
			seq, s = r.Ret, fmt.Sprintf("read (%s): %s at %dms", r.API, r.Err, r.TRet/ms)
		}
	}
	return s + " (" + j.closeInfo(ci) + ")"
}

// content is what the application asked to send with a call.
func (c *Call) content() []byte {
	d := opData(c.Op)
	if c.Cut > 0 {
		d = d[:c.Cut-1]
	}
	return d
}
