package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"slices"
	"strings"
)

func (j *judge) own(props string, more ...string) string {
	if slices.Contains(more, j.p.Prop) {
		return props + " " + j.p.Prop
	}
	return props
}

// offence reports the close codes with which a complete client message must be refused (nil: acceptable).
func (j *judge) offence(m *CMsg, api string) (codes []int, neutral bool) {
	lim := j.p.sizeLimit()
	if lim >= 0 && len(m.Payload) > lim {
		codes = append(codes, 1009)
	}
	if j.p.MaxFrag > 0 && m.Frags > j.p.MaxFrag {
		codes = append(codes, 1008)
	}
	return codes, false
}

func (j *judge) fullRead(api string, r *Recv) bool {
	switch api {
	case "msg", "bin", "str":
		return true
	case "stream":
		return !r.Abandoned
	}
	return false
}

// inbound relates what the application read to what the client sent (C04, C05, C06, C07, part of C13 and C21).
func (j *judge) inbound() {
	for ci, cs := range j.w.C {
		if cs.conn == nil || len(cs.p.Read) == 0 {
			continue
		}
		foreign := j.disturb(ci, false)
		ri := 0
		next := func() *Recv {
			for ri < len(cs.Recv) {
				r := cs.Recv[ri]
				if r.Post || r.Ret == 0 {
					return nil
				}
				return r
			}
			return nil
		}
		props := j.own("C04", "C05", "C06", "C07", "C13", "C21")
		var term *CMsg
		var codes []int
		idx := 0
		ended := false
		lag := cs.p.RStart + 2*cs.link.p.Lat
	items:
		for _, m := range cs.Sent {
			switch m.K {
			case "ping", "pong":
				if m.End < 0 {
					break items
				}
				continue
			case "close":
				if m.End >= 0 {
					term, codes = m, m.Codes
				}
				break items
			case "bad":
				if m.End >= 0 {
					term, codes = m, m.Codes
				}
				break items
			}
			// a data message
			r := next()
			if m.End < 0 {
				if r != nil && (r.Complete || r.EK != 'f' && !r.Abandoned && j.fullRead(r.API, r)) && r.EK != 'n' {
					j.v("C07 C04", "truncated-delivered", "conn %d: a message cut off on the wire after the client sent only part of %s was delivered as complete: %s", ci, short(m.Payload), short(r.Data))
				}
				break items
			}
			aseq, at, arrived := j.arrival(cs, m.End)
			lag += cs.p.RDelay
			if r == nil {
				if foreign == "" && !ended && arrived && at+lag+j.slk+j.p.WW < j.w.FinalT && cs.upRetT+lag+j.slk+j.p.WW < j.w.FinalT && cs.p.RMax == 0 {
					j.v(props, "undelivered", "conn %d: message %d of the client, %s, arrived at %dms and was not delivered by %dms", ci, idx, short(m.Payload), at/ms, j.w.FinalT/ms)
				}
				break items
			}
			j.ct++
			off, _ := j.offence(m, r.API)
			if m.K == "msg" && len(off) == 0 && j.badUTF8(m) && (r.API == "msg" || r.API == "str") && !j.p.SkipUTF8 {
				off = []int{1007}
			}
			if len(off) > 0 {
				if r.EK == 'f' {
					term, codes = m, off
					break items
				}
				if r.EK == 0 && j.fullRead(r.API, r) {
					p := "C06"
					if off[0] == 1007 {
						p = "C05"
					}
					j.v(p, "limit-missed", "conn %d: message of %d bytes in %d fragments (limits %d/%d, utf8 %v) was delivered although it must be refused with %v", ci, len(m.Payload), m.Frags, j.p.MaxMsg, j.p.MaxFrag, !j.badUTF8(m), off)
					break items
				}
				// abandoned, skipped or partially decoded: not judged
				if r.Abandoned || r.EK == 'n' || r.JSONOK {
					ri++
					idx++
					continue
				}
				break items
			}
			if r.EK == 'f' {
				if arrived && aseq < r.Inv && foreign == "" && r.Ret < j.w.FinalSeq {
					j.v(props, "refused", "conn %d: message %d of the client (%s, %d bytes, %d fragments) had arrived completely but the read failed: %s (%s)", ci, idx, short(m.Payload), len(m.Payload), m.Frags, r.Err, j.closeInfo(ci))
				} else if arrived && aseq < r.Ret && foreign == "" && r.Ret < j.w.FinalSeq && !j.timedOutBefore(cs, r, m) {
					j.v(props, "refused", "conn %d: message %d of the client (%s, %d bytes, %d fragments) arrived but the pending read failed: %s (%s)", ci, idx, short(m.Payload), len(m.Payload), m.Frags, r.Err, j.closeInfo(ci))
				}
				ended = true
				break items
			}
			j.matchRecv(ci, idx, m, r, props)
			ri++
			idx++
		}
		// the application may have turned away from a message whose later frame is the offending one
		if r := next(); r != nil && term != nil && term.FirstPart && r.EK != 'f' {
			if r.Abandoned && bytes.HasPrefix(term.Payload, r.Data) || r.Mismatch || (r.API == "json" || r.API == "jsonT") && (r.EK == 'n' || r.JSONOK) {
				ri++
				lag += cs.p.RDelay
			}
		}
		// anything after the last item?
		if r := next(); r != nil {
			if r.EK != 'f' && term == nil && !ended {
				if ri >= 0 && j.unaccounted(cs, idx) {
					j.v(props, "extra", "conn %d: the application received a message the client never sent: type %d %s (%s)", ci, r.Type, short(r.Data), r.Err)
				}
			}
			if term != nil {
				if r.EK != 'f' {
					j.v(j.own("C05", "C06", "C10"), "bad-accepted", "conn %d: after the client's %s %s the read returned %q data %s instead of a fatal error", ci, term.K, term.BadK, r.Err, short(r.Data))
				}
			}
		}
		if term != nil && foreign == "" {
			_, at, arrived := j.arrival(cs, term.End)
			j.ct++
			lim := max(at, cs.upRetT) + lag + cs.p.RDelay + 4*j.p.WW + j.slk
			if arrived && lim < j.w.FinalT && cs.p.RMax == 0 {
				if !cs.link.Closed || cs.link.ClosedT > lim {
					j.v(j.own("C05", "C06", "C10"), "bad-open", "conn %d: the client's %s %s arrived at %dms but the connection is still open at %dms", ci, term.K, term.BadK, at/ms, lim/ms)
				} else if len(codes) > 0 {
					c := j.wire[ci].Close
					p := "C05"
					switch {
					case term.K == "close" && malformedClose(term.Payload):
						p = "C05 C10"
					case term.K == "close":
						p = "C10"
					case term.K == "msg" && (slices.Contains(codes, 1008) || slices.Contains(codes, 1009)):
						p = "C06"
					}
					if c == nil {
						if len(j.wire[ci].Bad) == 0 {
							j.v(p+" C10", "no-close-frame", "conn %d: no close frame after the client's %s %s (expected code %v)", ci, term.K, term.BadK, codes)
						}
					} else {
						code := -1
						reason := ""
						if len(c.Payload) >= 2 {
							code = int(binary.BigEndian.Uint16(c.Payload))
							reason = string(c.Payload[2:])
						}
						if !slices.Contains(codes, code) {
							j.v(p, "close-code", "conn %d: close code %d %q after the client's %s %s, expected %v", ci, code, reason, term.K, term.BadK, codes)
						} else if term.K == "close" && reason != "" && reason != term.Reason && len(codes) == 1 && len(term.Payload) >= 2 && codes[0] == int(binary.BigEndian.Uint16(term.Payload)) {
							j.v("C10", "close-reason", "conn %d: close reason %q, the client's was %q", ci, reason, term.Reason)
						}
					}
				}
			}
		}
		j.cutoff(ci, cs, foreign)
	}
}

// unaccounted reports that the client sent no further message the result could stem from.
func (j *judge) unaccounted(cs *CS, idx int) bool {
	n := 0
	for _, m := range cs.Sent {
		if m.K == "msg" || m.K == "bad" || m.K == "close" {
			n++
		}
	}
	return idx >= n
}

// timedOutBefore: the pending read may have failed for a deadline before the message was complete.
func (j *judge) timedOutBefore(cs *CS, r *Recv, m *CMsg) bool {
	return r.TRet-r.TInv >= j.p.RW-j.slk || cs.SilentT > 0
}

func (j *judge) badUTF8(m *CMsg) bool { return m.Ty == 1 && m.BadK == "utf8" }

func (j *judge) matchRecv(ci, idx int, m *CMsg, r *Recv, props string) {
	fail := func(f string, a ...any) {
		if o := j.foreignIn(ci, r.Data); o >= 0 {
			props += " C21"
		}
		j.v(props, "inbound", "conn %d: message %d of the client (type %d, %d bytes %s, %d fragments) read with %s: %s", ci, idx, m.Ty, len(m.Payload), short(m.Payload), m.Frags, r.API, fmt.Sprintf(f, a...))
	}
	if r.Limited {
		if j.p.Lim == nil {
			fail("reported as rate limited without a limiter")
		}
		return
	}
	switch r.API {
	case "msg":
		if r.EK != 0 {
			fail("failed with %q", r.Err)
		} else if r.Type != m.Ty || !bytes.Equal(r.Data, m.Payload) {
			fail("got type %d, %d bytes %s", r.Type, len(r.Data), short(r.Data))
		}
	case "bin", "str":
		want := byte(2)
		if r.API == "str" {
			want = 1
		}
		if m.Ty != want {
			if !r.Mismatch {
				fail("expected a type mismatch, got %q", r.Err)
			}
		} else if r.EK != 0 {
			fail("failed with %q", r.Err)
		} else if !bytes.Equal(r.Data, m.Payload) {
			fail("got %d bytes %s", len(r.Data), short(r.Data))
		}
	case "json", "jsonT":
		if m.Ty == 2 {
			if !r.Mismatch {
				fail("expected a type mismatch, got %q", r.Err)
			}
			return
		}
		if r.Mismatch {
			fail("type mismatch for a text message")
		}
		if len(m.Payload) > 0 && m.Payload[0] == '"' {
			want := m.Payload
			if i := bytes.IndexByte(want, ' '); i > 0 {
				want = want[:i]
			}
			if r.API == "json" {
				if r.EK != 0 {
					fail("failed with %q", r.Err)
				} else if !bytes.Equal(r.Data, want) {
					fail("decoded %s", short(r.Data))
				}
			} else if r.EK != 'n' {
				fail("decoding into the wrong type returned %q", r.Err)
			}
		}
	case "stream":
		if r.EK != 0 {
			fail("failed with %q", r.Err)
		} else if r.Type != m.Ty {
			fail("type %d", r.Type)
		} else if r.Complete && !bytes.Equal(r.Data, m.Payload) {
			fail("got %d bytes %s", len(r.Data), short(r.Data))
		} else if !bytes.HasPrefix(m.Payload, r.Data) {
			fail("got %s, not a prefix", short(r.Data))
		}
	}
}

func (j *judge) foreignIn(ci int, d []byte) int {
	if len(d) < 12 {
		return -1
	}
	for o, cs := range j.w.C {
		if o == ci {
			continue
		}
		for _, m := range cs.Sent {
			if m.K == "msg" && len(m.Payload) >= 12 {
				for i := 0; i+12 <= len(d) && i < 400; i++ {
					if bytes.Contains(m.Payload, d[i:i+12]) {
						return o
					}
				}
			}
		}
	}
	return -1
}

// cutoff: after the client's stream ended, the application gets a fatal error, the connection closes, the hook runs once (C07).
func (j *judge) cutoff(ci int, cs *CS, foreign string) {
	l := cs.link
	if !l.rfin && !l.rrst && cs.SilentT == 0 || cs.p.RMax > 0 {
		return
	}
	if foreign != "" && !strings.HasPrefix(foreign, "client") {
		return
	}
	for i := range cs.p.Client {
		switch cs.p.Client[i].K {
		case "stopread", "rate":
			return
		}
	}
	end := l.finT
	if cs.SilentT > 0 && !l.rfin && !l.rrst {
		last := max(l.LastArr, cs.upRetT)
		for _, r := range cs.Recv {
			if !r.Post && r.EK != 'f' {
				last = max(last, r.TRet)
			}
			last = max(last, r.TInv)
			if r.Ret == 0 || r.EK == 'f' {
				break
			}
		}
		end = last + j.p.RW
	}
	n := int64(0)
	for _, m := range cs.Sent {
		if m.K == "msg" {
			n++
		}
	}
	lim := max(end, cs.upRetT) + cs.p.RStart + n*cs.p.RDelay + 4*j.p.WW + j.slk
	if lim >= j.w.FinalT {
		return
	}
	j.ct++
	props := j.own("C07", "C08")
	if l.rfin || l.rrst {
		props = "C07"
	}
	if !cs.RdEnd || cs.FatalT > lim {
		j.v(props, "no-end", "conn %d: the client's stream ended (or went silent) but no read failed with a fatal error by %dms", ci, lim/ms)
		return
	}
	if !l.Closed || l.ClosedT > lim {
		j.v(props, "not-closed", "conn %d: the client's stream ended (or went silent) but the transport is still open at %dms", ci, lim/ms)
	}
	if n := len(j.evs("disconnect", ci)); n != 1 && !j.p.noHook("d") {
		j.v(props, "hook", "conn %d: the disconnect hook ran %d times", ci, n)
	}
}

// keepalive: pings are sent about once per period for as long as the connection lives (C08).
func (j *judge) keepalive() {
	for ci, cs := range j.w.C {
		if cs.conn == nil || j.disturbed(ci) != "" {
			continue
		}
		end := j.w.FinalT
		if cs.link.Closed {
			end = min(end, cs.link.ClosedT)
		}
		rtt := cs.p.PongD + 2*cs.link.p.Lat + cs.link.p.Jitter + cs.p.RDelay + cs.p.RStart + 2*cs.link.p.CSegD*10
		maxGap := 2*j.p.PE + rtt + 2*j.p.WW + j.slk
		if j.p.Sched.StallTot == 0 && j.p.Mode == "live" {
			maxGap = 2*j.p.PE + rtt + j.slk
		}
		for i := range cs.p.Client {
			op := &cs.p.Client[i]
			maxGap += op.R*b2i(op.At > 0) + op.D*int64(len(op.Frags))
			if op.K == "msg" || op.K == "ping" {
				maxGap += 200 * cs.link.p.CSegD
			}
		}
		last := cs.upRetT
		n := int64(0)
		manual := int64(0)
		for _, c := range j.w.Calls {
			if c.K == "ping" && c.C == ci {
				manual++
			}
		}
		for _, c := range j.wire[ci].Ctls {
			if c.Op != 9 || c.T > end {
				continue
			}
			n++
			if c.T-last > maxGap {
				j.v("C08", "ping-gap", "conn %d: no ping for %dms (from %dms), the period is %dms", ci, (c.T-last)/ms, last/ms, j.p.PE/ms)
				break
			}
			last = c.T
		}
		j.ct++
		if end-last > maxGap {
			j.v("C08", "ping-stop", "conn %d: no ping since %dms although the connection is open at %dms, the period is %dms", ci, last/ms, end/ms, j.p.PE/ms)
		}
		if most := (end-cs.upInvT+j.p.Sched.StallTot)/j.p.PE + 2 + manual; n > most {
			j.v("C08", "ping-flood", "conn %d: %d pings in %dms with a period of %dms", ci, n, (end-cs.upInvT)/ms, j.p.PE/ms)
		}
	}
}

func b2i(b bool) int64 {
	if b {
		return 1
	}
	return 0
}

// pongs: every ping is answered (C09); order and payload are checked in controls.
func (j *judge) pongs() {
	for ci, cs := range j.w.C {
		if cs.conn == nil || j.disturbed(ci) != "" {
			continue
		}
		answered := 0
		for _, c := range j.wire[ci].Ctls {
			if c.Op == 10 && c.Seq < j.w.FinalSeq {
				answered++
			}
		}
		need := 0
		nm := int64(0)
		for _, m := range cs.Sent {
			if m.K == "msg" {
				nm++
			}
			if m.K != "ping" || m.End < 0 {
				continue
			}
			_, at, ok := j.arrival(cs, m.End)
			if ok && max(at, cs.upRetT)+cs.p.RStart+(nm+1)*cs.p.RDelay+2*j.p.WW+j.slk < j.w.FinalT {
				need++
			}
		}
		j.ct++
		if answered < need && len(j.wire[ci].Bad) == 0 {
			j.v("C09", "pong-missing", "conn %d: %d pings of the client had arrived but only %d pongs were sent", ci, need, answered)
		}
	}
}

type cause struct {
	not      []int // with codes nil: the codes it cannot explain
	inv, ret int64
	codes    []int // nil: any
	reason   string
	anyR     bool
	noFrame  bool
	desc     string
	bc       *Call // only if this broadcast was not queued for every member
}

// causes lists everything that may have closed connection ci before seq.
func (j *judge) causes(ci int) (out []cause) {
	cs := j.w.C[ci]
	for _, c := range j.w.Calls {
		r := c.Ret
		if r == 0 {
			r = 1 << 62
		}
		switch c.K {
		case "close":
			if c.C != ci {
				continue
			}
			if c.Op.API == "close" {
				out = append(out, cause{inv: c.Inv, ret: r, codes: []int{1000}, anyR: true, desc: "Close by " + c.Who})
				continue
			}
			code := c.Op.Code
			if !validCode(code) {
				if code >= 1012 && code <= 1014 {
					out = append(out, cause{inv: c.Inv, ret: r, codes: []int{1001, code}, anyR: true, desc: "CloseWithCode"})
					continue
				}
				code = 1001
			}
			reason := string(payload(c.Op.ID, c.Op.RLen, 't'))
			if len(reason) > 123 {
				reason = ""
			}
			out = append(out, cause{inv: c.Inv, ret: r, codes: []int{code}, reason: reason, desc: fmt.Sprintf("CloseWithCode(%d) by %s", c.Op.Code, c.Who)})
		case "mshutdown":
			if cs.p.Via == "mgr" {
				out = append(out, cause{inv: c.Inv, ret: 1 << 62, codes: []int{1000}, anyR: true, desc: "manager shutdown"})
			}
		case "rmshutdown":
			out = append(out, cause{inv: c.Inv, ret: 1 << 62, codes: []int{1001}, anyR: true, desc: "room manager shutdown"})
		case "rbc", "mbc", "rbb", "mbb":
			if j.p.BP == 1 {
				out = append(out, cause{inv: c.Inv, ret: 1 << 62, codes: []int{1008}, anyR: true, desc: "backpressure", bc: c})
			}
		case "send", "stream", "jsonbad":
			if c.C == ci && c.EK == 'f' {
				out = append(out, cause{inv: c.Inv, ret: 1 << 62, codes: nil, anyR: true, noFrame: true, desc: c.K + " failed"})
			}
		}
	}
	for _, m := range cs.Sent {
		if m.End < 0 {
			continue
		}
		seq, _, ok := j.arrival(cs, m.End)
		if !ok {
			continue
		}
		switch m.K {
		case "close":
			out = append(out, cause{inv: seq, ret: 1 << 62, codes: m.Codes, anyR: true, desc: "client close"})
		case "bad":
			out = append(out, cause{inv: 0, ret: 1 << 62, codes: m.Codes, anyR: true, desc: "client " + m.BadK})
		case "msg":
			if o, _ := j.offence(m, ""); len(o) > 0 {
				out = append(out, cause{inv: 0, ret: 1 << 62, codes: o, anyR: true, desc: "limits"})
			} else if j.badUTF8(m) {
				out = append(out, cause{inv: 0, ret: 1 << 62, codes: []int{1007}, anyR: true, desc: "utf8"})
			}
		}
	}
	wild := cs.link.rfin || cs.link.rrst || cs.SilentT > 0
	for k := range cs.link.Faulty {
		switch k {
		case "write-timeout", "write-error", "read-timeout", "read-error", "read-reset", "set-read-deadline-error", "set-write-deadline-error":
			wild = true
		}
	}
	if j.p.Lim != nil && j.p.Lim.Hook != "none" && j.p.Lim.Hook != "ok" {
		wild = true
	}
	for i := range cs.p.Client {
		if op := &cs.p.Client[i]; op.K == "stopread" || op.K == "rate" || op.K == "pongoff" {
			wild = true
		}
	}
	if cs.p.Pong == "no" || cs.p.PongStop > 0 {
		wild = true
	}
	if wild {
		// a broken or silent client is never accused of bad content, of breaking limits or of being too slow, and never told that the server goes away
		not := []int{1001, 1002, 1003, 1007, 1008, 1009}
		if cs.link.p.RdlErrAt > 0 || cs.link.p.WdlErrAt > 0 {
			not = nil
		}
		if slices.ContainsFunc(cs.p.Client, func(o COp) bool { return o.K == "rate" }) && len(not) > 0 {
			// a ping may wait too long for its turn
			not = []int{1001, 1002, 1003, 1007, 1009}
		}
		out = append(out, cause{anyR: true, noFrame: true, ret: 1 << 62, not: not, desc: "network"})
	}
	if cs.p.Via == "mgr" {
		for o, x := range j.w.C {
			if o != ci && x.p.Via == "mgr" && x.p.Key == cs.p.Key {
				out = append(out, cause{anyR: true, noFrame: true, ret: 1 << 62, desc: "replaced"})
			}
		}
	}
	return
}

// closing: C10.
func (j *judge) closing() {
	for ci, cs := range j.w.C {
		if cs.conn == nil {
			if n := len(j.evs("disconnect", ci)); n > 1 {
				j.v("C10", "hook-count", "conn %d: the disconnect hook ran %d times", ci, n)
			}
			continue
		}
		nd := len(j.evs("disconnect", ci))
		j.ct++
		if nd > 1 {
			j.v("C10 C03 C07 C17", "hook-count", "conn %d: the disconnect hook ran %d times", ci, nd)
		}
		cau := j.causes(ci)
		done := int64(0)
		for _, c := range cau {
			if c.ret < 1<<62 {
				done = max(done, c.ret)
			}
		}
		if done > 0 && j.p.Final != "none" {
			if nd == 0 && !j.p.noHook("d") {
				j.v("C10 C12", "hook-missing", "conn %d: closed by the application but the disconnect hook never ran", ci)
			}
			if !cs.link.Closed {
				j.v("C10 C12", "transport-open", "conn %d: closed by the application but the transport was never closed", ci)
			}
		}
		c := j.wire[ci].Close
		if c == nil {
			need := len(j.wire[ci].Bad) == 0
			for _, x := range cau {
				if x.noFrame {
					need = false
				}
			}
			if need && cs.link.Closed && len(cau) > 0 {
				j.v("C10", "close-frame-missing", "conn %d: the connection was closed over a healthy transport but no complete close frame was sent", ci)
			}
			continue
		}
		if len(c.Payload) < 2 {
			ok := false
			for _, x := range cau {
				ok = ok || x.codes == nil || slices.Contains(x.codes, -1)
			}
			if !ok {
				j.v("C10", "close-empty", "conn %d: close frame without a code", ci)
			}
			continue
		}
		code := int(binary.BigEndian.Uint16(c.Payload))
		reason := string(c.Payload[2:])
		ok := false
		var cand []string
		for _, x := range cau {
			if x.inv > c.Seq {
				continue
			}
			late := false
			for _, y := range cau {
				if y.ret < x.inv {
					late = true
				}
			}
			if late {
				continue
			}
			if x.bc != nil && !j.missedSome(x.bc) {
				cand = append(cand, fmt.Sprintf("none (broadcast %s reached every member)", short(opData(x.bc.Op))))
				continue
			}
			cand = append(cand, fmt.Sprintf("%s %v", x.desc, x.codes))
			if x.codes == nil && !slices.Contains(x.not, code) || slices.Contains(x.codes, code) && (x.anyR || reason == x.reason) {
				ok = true
				break
			}
		}
		if !ok {
			if len(cand) == 0 && j.disturbed(ci) == "" {
				continue // judged by errors(): nothing explains the close
			}
			j.v(j.own("C10", "C15"), "close-cause", "conn %d: close frame with code %d, reason %s, but the possible causes are %v", ci, code, short([]byte(reason)), cand)
		}
	}
}

// erredBefore: some call on the connection failed before c started.
func (j *judge) erredBefore(c *Call) bool {
	return slices.ContainsFunc(j.w.Calls, func(x *Call) bool {
		return x.C == c.C && x.Ret > 0 && x.Ret < c.Inv && x.EK != 0
	})
}

// bounded: every call ends within the configured waits (C11); waiting calls obey their context.
func (j *judge) bounded() {
	w := j.w
	now := w.s.Now
	totalW := int64(0)
	for ci := range w.C {
		totalW += j.appWaits(ci)
	}
	nw := func(l *Link, a, b int64) (n int64) {
		for i := range l.WCalls {
			if l.WCalls[i].T >= a && l.WCalls[i].T <= b {
				n++
			}
		}
		return
	}
	slow := func(ci int) bool {
		return slices.ContainsFunc(w.C[ci].p.Client, func(o COp) bool { return o.K == "rate" })
	}
	for _, c := range w.Calls {
		end := c.TRet
		if c.Ret == 0 {
			end = now
		}
		j.ct++
		dur := end - c.TInv
		var n int64
		if c.C >= 0 && (c.K == "send" || c.K == "stream" || c.K == "ping" || c.K == "jsonbad") {
			n = nw(w.C[c.C].link, c.TInv, end)
		} else {
			for _, cs := range w.C {
				n += nw(cs.link, c.TInv, end)
			}
		}
		bound := (8+n)*j.p.WW + totalW + j.slk
		if c.K == "mshutdown" || c.K == "rmshutdown" || c.Hook != "" {
			bound += 6 * int64(len(w.C)) * j.p.WW
		}
		if dur > bound {
			st := "took"
			if c.Ret == 0 {
				st = "has not returned after"
			}
			props := "C11"
			switch c.K {
			case "mshutdown", "rmshutdown":
				props = "C11 C17"
			case "rbc", "mbc", "rbb", "mbb":
				props = "C11 C15"
			case "close":
				props = "C11 C10"
			case "send", "stream", "ping", "jsonbad":
				if j.erredBefore(c) {
					props = "C11 C03" // the failed call did not leave the connection usable, or refusing at once
				}
			}
			j.v(props, "hang", "%s on conn %d (by %s) %s %dms (write wait %dms)", c.K, c.C, c.Who, st, dur/ms, j.p.WW/ms)
			continue
		}
		// prompt context cancellation
		if c.CtxEnd >= 0 && c.C >= 0 && (c.K == "send" || c.K == "stream" || c.K == "jsonbad") {
			cs := w.C[c.C]
			lim := max(c.CtxEnd, c.TInv)
			own := int64(0)
			fail := false
			late := int64(-1) // a write that starts long after the context has ended: the wait for it did not
			for i := range cs.link.WCalls {
				x := &cs.link.WCalls[i]
				if x.G == c.G && x.Seq > c.Inv && (c.Ret == 0 || x.Seq < c.Ret) {
					if x.T > max(lim, own)+opWait(c.Op, c.C)+j.slk {
						late = x.T
					}
					own = max(own, x.EndT)
					fail = fail || x.Err != "" || x.EndT == 0
				}
			}
			if own > lim {
				lim = own
			}
			lim += opWait(c.Op, c.C) + j.slk
			if !fail && c.EK != 'f' && late >= 0 {
				j.v("C11", "ctx-slow", "%s on conn %d: the context ended at %dms but the call went on waiting and began to write at %dms", c.K, c.C, c.CtxEnd/ms, late/ms)
			}
			if !fail && c.EK != 'f' && end > lim {
				j.v("C11", "ctx-slow", "%s on conn %d: the context ended at %dms but the waiting call returned at %dms", c.K, c.C, c.CtxEnd/ms, end/ms)
			}
			if !fail && c.EK == 'f' && end > lim+3*j.p.WW {
				j.v("C11", "ctx-slow", "%s on conn %d: the context ended at %dms but the waiting call returned at %dms", c.K, c.C, c.CtxEnd/ms, end/ms)
			}
		}
		// with prompt clients nothing waits
		if c.C >= 0 && (c.K == "send" || c.K == "ping") && c.Ret > 0 && c.Hook == "" && j.disturbed(c.C) == "" && !slow(c.C) && dur > j.appWaits(c.C)+j.slk {
			j.v(j.own("C11", "C09", "C15"), "blocked", "%s on conn %d took %dms although its client reads promptly", c.K, c.C, dur/ms)
		}
	}
	// every write of the library to a transport runs under a deadline of one write wait
	for ci, cs := range w.C {
		for i := range cs.link.WCalls {
			x := &cs.link.WCalls[i]
			end := x.EndT
			if x.EndSeq == 0 {
				end = now
			}
			if end-x.T > 2*j.p.WW+j.slk {
				j.v(j.own("C11", "C15"), "write-hang", "conn %d: a write to the transport at %dms (by %s) lasts %dms (write wait %dms)", ci, x.T/ms, x.G, (end-x.T)/ms, j.p.WW/ms)
				break
			}
		}
	}
	for ci, cs := range w.C {
		if cs.upInv > 0 && !cs.upDone && now-cs.upInvT > 8*j.p.WW*int64(1+len(w.C))+totalW+j.slk+j.mwDelay() {
			j.v("C11 C19", "hang", "the upgrade of conn %d has not returned after %dms", ci, (now-cs.upInvT)/ms)
		}
		for _, r := range cs.Recv {
			end := r.TRet
			if r.Ret == 0 {
				end = now
			}
			last := max(r.TInv, cs.link.LastArr)
			if r.Ret > 0 {
				last = r.TInv
				for _, s := range cs.link.RSeqs {
					if s.T <= end {
						last = max(last, s.T)
					}
				}
			}
			n := nw(cs.link, r.TInv, end)
			if end-last > j.p.RW+(8+n)*j.p.WW+totalW+j.slk {
				j.v(j.own("C11", "C08", "C07"), "read-hang", "a read on conn %d lasts %dms, %dms after the client's last byte (read wait %dms)", ci, (end-r.TInv)/ms, (end-last)/ms, j.p.RW/ms)
			}
		}
	}
}

func (j *judge) mwDelay() (n int64) {
	for i := range j.p.MW {
		n += j.p.MW[i].Delay
	}
	return
}

// leaks: C12.
func (j *judge) leaks() {
	if j.p.Final == "none" || j.w.Post == nil {
		return
	}
	j.ct++
	for _, l := range j.w.Live {
		j.v("C12", "goroutine", "a library goroutine survives although every connection is closed: %s", l)
		break
	}
	for ci, cs := range j.w.C {
		if cs.rw == nil {
			continue
		}
		if cs.rw.Hij > 0 && !cs.link.Closed {
			props := "C12 C10"
			if cs.conn == nil {
				props = "C12 C19"
			}
			j.v(props, "transport", "conn %d: the transport is still open at the end (upgrade error %q)", ci, cs.upErr)
		}
		if cs.conn != nil && cs.upDone && len(j.evs("disconnect", ci)) == 0 && !j.p.noHook("d") {
			j.v("C12 C10", "no-disconnect", "conn %d: the disconnect hook never ran", ci)
		}
	}
	if !j.w.Post.Done {
		j.v("C11 C12 C16", "registry-hang", "listing the managers blocks after every connection is closed")
		return
	}
	if len(j.w.Post.Mgr) > 0 {
		j.v("C12 C16", "mgr-stale", "the manager still lists connections %v under %v although all are closed", j.w.Post.Mgr, j.w.Post.Keys)
	}
	if len(j.w.Post.Mgr2) > 0 {
		j.v("C12 C16", "mgr-stale", "the second manager still lists connections %v although all are closed", j.w.Post.Mgr2)
	}
	for r, m := range j.w.Post.Rooms {
		if len(m) > 0 {
			j.v("C12 C16", "room-stale", "room %d (%s) still lists connections %v although all are closed", r, j.w.roomK[r], m)
		}
	}
	for _, c := range j.w.MemLeft {
		j.v("C12", "memory", "the library still references connection %d after it was closed (its memory is not reclaimed)", c)
	}
}
