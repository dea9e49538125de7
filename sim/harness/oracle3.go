package main

import (
	"bytes"
	"crypto/sha1"
	"encoding/base64"
	"encoding/binary"
	"fmt"
	"slices"
	"sort"
	"strings"
)

const inf = int64(1) << 62

// ratelimit: an exact token bucket per connection (C13).
func (j *judge) ratelimit() {
	l := j.p.Lim
	if l == nil || j.p.Sched.StallTot > 0 {
		return
	}
	for ci, cs := range j.w.C {
		if cs.conn == nil {
			continue
		}
		if d := j.disturbed(ci); d != "" && d != "limit hook" {
			continue
		}
		var msgs []*CMsg
		for _, m := range cs.Sent {
			if m.K == "msg" && m.End >= 0 {
				msgs = append(msgs, m)
			}
		}
		tokens := float64(l.Burst)
		last := int64(-1)
		rej := 0
		for i, r := range cs.Recv {
			if r.Post || r.Ret == 0 || i >= len(msgs) {
				break
			}
			_, at, ok := j.arrival(cs, msgs[i].HdrEnd)
			if !ok {
				break
			}
			t := max(r.TInv, at)
			if last >= 0 {
				tokens = min(float64(l.Burst), tokens+float64(t-last)*float64(l.MPS)/1e9)
			}
			last = t
			limited := r.Limited || r.EK == 'f' && strings.HasPrefix(r.Err, "limit:")
			if r.EK == 'f' && !limited {
				break // closed meanwhile: the message may never have been looked at
			}
			j.ct++
			near := tokens > 1-1e-5 && tokens < 1+1e-5
			if !near && limited && tokens >= 1 {
				j.v("C13", "over-limited", "conn %d: message %d rejected at %dms although %.3f tokens are available (rate %d/s, burst %d)", ci, i, t/ms, tokens, l.MPS, l.Burst)
				break
			}
			if !near && !limited && tokens < 1 {
				j.v("C13", "under-limited", "conn %d: message %d accepted at %dms although only %.3f tokens are available (rate %d/s, burst %d)", ci, i, t/ms, tokens, l.MPS, l.Burst)
				break
			}
			if r.Limited && (l.Hook == "err" || l.Hook == "close") {
				j.v("C13", "limit-err", "conn %d: message %d was rejected and the limit hook returned an error, but the read returned the non-fatal error %q", ci, i, r.Err)
				break
			}
			if limited {
				rej++
			} else {
				tokens -= 1
			}
			if r.EK == 'f' {
				break
			}
		}
		if l.Hook != "none" {
			n := 0
			for _, e := range j.w.LimHits {
				if e.C == ci {
					n++
				}
			}
			if n != rej && n != rej+1 || n == rej+1 && !j.pendingRead(cs) {
				j.v("C13", "limit-hook", "conn %d: the limit hook ran %d times for %d rejected messages", ci, n, rej)
			}
		}
	}
}

func (j *judge) pendingRead(cs *CS) bool {
	for _, r := range cs.Recv {
		if r.Ret == 0 {
			return true
		}
		if r.EK == 'f' {
			return true
		}
	}
	return false
}

// ---- membership timelines ----

type mop struct {
	k        string // add remove close obs maybe
	inv, ret int64
	present  bool
	desc     string
}

// endOf is the interval in which connection ci may have stopped being a live member (inv inf: it stays until the end).
func (j *judge) endOf(ci int) (inv, ret int64) {
	cs := j.w.C[ci]
	inv, ret = inf, inf
	if cs.conn == nil {
		return 0, inf
	}
	cau := j.causes(ci)
	closers := 0
	for _, c := range cau {
		if c.noFrame {
			inv = min(inv, cs.upInv)
		}
		inv = min(inv, c.inv)
		if c.ret < inf {
			closers++
			ret = c.ret
		}
	}
	if len(cau) != 1 || closers != 1 {
		ret = inf
	}
	if j.disturbed(ci) != "" && len(cau) == 0 {
		inv = cs.upInv
	}
	if inv < inf && j.w.Pre != nil && j.w.Pre.Done && cs.link.Closed && cs.link.ClosedT+4*j.p.WW+j.slk < j.w.FinalT {
		ret = min(ret, j.w.Pre.From-1)
	}
	if inv == inf && cs.link.Closed {
		inv = cs.upInv
	}
	return
}

func (j *judge) roomOps(room, ci int) (ops []mop) {
	cs := j.w.C[ci]
	key := j.w.roomK[room]
	ninst := 0
	for _, k := range j.w.roomK {
		if k == key {
			ninst++
		}
	}
	if cs.p.Via == "room" && cs.upInv > 0 && cs.upErr == "" {
		r := cs.upRet
		if cs.upDone {
			if cs.room == room {
				ops = append(ops, mop{k: "connect", inv: cs.upInv, ret: r, desc: "Connect"})
			}
		} else if cs.p.Key == key {
			ops = append(ops, mop{k: "maybe", inv: cs.upInv, ret: inf, desc: "Connect"})
		}
	}
	for _, c := range j.w.Calls {
		r := c.Ret
		if r == 0 {
			r = inf
		}
		switch c.K {
		case "radd":
			if c.C == ci && c.Obj == room {
				ops = append(ops, mop{k: "add", inv: c.Inv, ret: r, desc: "Add"})
			}
		case "rremove":
			if c.C == ci && c.Obj == room {
				ops = append(ops, mop{k: "remove", inv: c.Inv, ret: r, desc: "Remove"})
			}
		case "rremoveall":
			if c.Obj == room {
				ops = append(ops, mop{k: "remove", inv: c.Inv, ret: r, desc: c.K})
			}
		case "rclose":
			if c.Obj == room {
				ops = append(ops, mop{k: "rclose", inv: c.Inv, ret: r, desc: c.K})
			}
		case "rmove":
			if c.C != ci {
				continue
			}
			if c.Op.Room2 == key && c.Obj == room {
				ops = append(ops, mop{k: "remove", inv: c.Inv, ret: r, desc: "Move away"})
				ops = append(ops, mop{k: "maybe", inv: c.Inv, ret: r, desc: "Move back"})
			} else if c.Obj == room {
				ops = append(ops, mop{k: "remove", inv: c.Inv, ret: r, desc: "Move away"})
			} else if c.Op.Room2 == key {
				k := "maybe"
				if ninst == 1 && j.roomStable(room, c.Inv, r) {
					k = "add"
				}
				ops = append(ops, mop{k: k, inv: c.Inv, ret: r, desc: "Move"})
			}
		case "rlist":
			if c.Obj == room && c.Ret > 0 && !slices.Contains(c.ExUsed, ci) {
				ops = append(ops, mop{k: "obs", inv: c.Inv, ret: c.Ret, present: slices.Contains(c.List, ci), desc: "GetAllConns"})
			}
		}
	}
	if inv, ret := j.endOf(ci); inv < inf {
		ops = append(ops, mop{k: "close", inv: inv, ret: ret, desc: "close"})
	}
	for _, sn := range []*Snapshot{j.w.Pre, j.w.Post} {
		if sn != nil && sn.Done {
			ops = append(ops, mop{k: "obs", inv: sn.Seq, ret: sn.Seq, present: slices.Contains(sn.Rooms[room], ci), desc: "final listing"})
			break // the later one is judged by leaks()
		}
	}
	return
}

// memberOps: roomOps as additions and removals only.
func (j *judge) memberOps(room, ci int) (ops []mop) {
	shut := inf
	for _, o := range j.roomOps(room, ci) {
		switch o.k {
		case "rclose":
			shut = min(shut, o.inv)
			o.k = "remove"
		case "connect":
			o.k = "add"
		}
		ops = append(ops, o)
	}
	for i := range ops {
		if o := &ops[i]; o.k == "add" && o.desc != "Connect" && o.ret > shut {
			o.k = "maybe" // to a closed room
		}
	}
	return
}

// busy: until when application calls before the final phase kept the connection to themselves.
func (j *judge) busy(ci int) (t int64) {
	for _, c := range j.w.Calls {
		if c.C == ci && c.Inv < j.w.FinalSeq && (c.K == "send" || c.K == "stream") {
			if c.Ret == 0 {
				return j.w.s.Now
			}
			t = max(t, c.TRet)
		}
	}
	return
}

// roomStable: the room instance certainly existed before inv and was not closed before ret.
func (j *judge) roomStable(room int, inv, ret int64) bool {
	ok := slices.Contains(j.w.own, room)
	for _, c := range j.w.Calls {
		if c.Obj == room && (c.K == "rmadd" || c.K == "rmget") && c.Ret > 0 && c.Ret < inv {
			ok = true
		}
		if (c.K == "rclose" && c.Obj == room || c.K == "rmshutdown") && c.Inv < ret {
			return false
		}
	}
	for _, cs := range j.w.C {
		if cs.room == room && cs.upDone && cs.upRet < inv {
			ok = true
		}
	}
	return ok
}

// linBool decides whether the operations on one (room, connection) pair have a linearisation.
func linBool(ops []mop) bool {
	n := len(ops)
	if n > 22 {
		return true
	}
	seen := map[uint64]bool{}
	var rec func(done uint32, st int) bool
	rec = func(done uint32, st int) bool {
		all := true
		for i := range ops {
			if done&(1<<i) == 0 && ops[i].ret < inf {
				all = false
			}
		}
		if all {
			return true
		}
		key := uint64(done)<<3 | uint64(st)
		if seen[key] {
			return false
		}
		seen[key] = true
		lim := inf
		for i := range ops {
			if done&(1<<i) == 0 && ops[i].ret < lim {
				lim = ops[i].ret
			}
		}
		for i := range ops {
			if done&(1<<i) != 0 || ops[i].inv > lim {
				continue
			}
			member, closed, dead := st&1, st&2, st&4
			o := &ops[i]
			d := done | 1<<i
			switch o.k {
			case "connect":
				// connecting is one step: never to a room that is closed and cannot be found anymore
				if dead != 0 {
					continue
				}
				if closed == 0 {
					member = 1
				}
			case "add", "maybe":
				// what adding to a closed room does is left open
				if (o.k == "maybe" || dead != 0) && rec(d, st) {
					return true
				}
				if closed == 0 {
					member = 1
				}
			case "remove":
				member = 0
			case "rclose":
				member, dead = 0, 4
			case "close":
				member, closed = 0, 2
			case "obs":
				if o.present != (member == 1) {
					continue
				}
			}
			if rec(d, member|closed|dead) {
				return true
			}
		}
		return false
	}
	return rec(0, 0)
}

func descOps(ops []mop) string {
	sort.Slice(ops, func(a, b int) bool { return ops[a].inv < ops[b].inv })
	var s []string
	for _, o := range ops {
		r := fmt.Sprint(o.ret)
		if o.ret == inf {
			r = "-"
		}
		x := o.desc
		if o.k == "obs" {
			x += fmt.Sprintf("=%v", o.present)
		}
		s = append(s, fmt.Sprintf("%s[%d,%s]", x, o.inv, r))
	}
	return strings.Join(s, " ")
}

// membership: rooms and managers track the live membership (C16).
func (j *judge) membership() {
	w := j.w
	for room := range w.roomK {
		for ci, cs := range w.C {
			if cs.upInv == 0 {
				continue
			}
			ops := j.roomOps(room, ci)
			rel := false
			adds, maybes, overlap := 0, 0, false
			for i, o := range ops {
				if o.k != "obs" && o.k != "close" {
					rel = true
				}
				if o.k == "add" || o.k == "connect" {
					adds++
				}
				if o.k == "maybe" {
					maybes++
				}
				for k := range ops[:i] {
					if ops[k].k != "obs" && o.k != "obs" && ops[k].inv <= o.ret && o.inv <= ops[k].ret {
						overlap = true
					}
				}
			}
			listed := false
			for _, o := range ops {
				listed = listed || o.k == "obs" && o.present
			}
			if !rel && !listed {
				continue
			}
			j.ct++
			if !linBool(ops) {
				j.v("C16", "room-member", "room %d (%s), conn %d: no order of the operations explains what was observed: %s", room, w.roomK[room], ci, descOps(ops))
				continue
			}
			if j.p.noHook("j") {
				continue
			}
			jn, lv := 0, 0
			for _, e := range w.Evs {
				if e.C == ci && e.Obj == room {
					if e.K == "join" {
						jn++
					} else if e.K == "leave" {
						lv++
					}
				}
			}
			fin := 0
			if w.Post != nil && w.Post.Done {
				if slices.Contains(w.Post.Rooms[room], ci) {
					fin = 1
				}
			} else if w.Pre.Done && slices.Contains(w.Pre.Rooms[room], ci) {
				fin = 1
			}
			if w.Post != nil && jn-lv != fin {
				j.v(j.own("C16", "C17"), "room-hooks", "room %d (%s), conn %d: join hook ran %d times, leave hook %d times, member at the end: %v (%s)", room, w.roomK[room], ci, jn, lv, fin == 1, descOps(ops))
			}
			j.hookArgs(room, ci)
			if jn > adds+maybes {
				j.v("C16", "room-hooks", "room %d (%s), conn %d: join hook ran %d times for %d additions", room, w.roomK[room], ci, jn, adds+maybes)
			}
			if !overlap && maybes == 0 && w.Post != nil {
				// the operations are totally ordered: exact counts
				m, dead, gone, ej := false, false, false, 0
				cl := false
				sort.Slice(ops, func(a, b int) bool { return ops[a].inv < ops[b].inv })
				for _, o := range ops {
					switch o.k {
					case "add", "connect":
						gone = gone || dead
						if !m && !cl {
							ej++
							m = true
						}
					case "remove", "rclose":
						m = false
						dead = dead || o.k == "rclose"
					case "close":
						m, cl = false, true
					}
				}
				if jn != ej && !gone {
					j.v("C16", "room-hooks", "room %d (%s), conn %d: join hook ran %d times, exactly %d joins happened (%s)", room, w.roomK[room], ci, jn, ej, descOps(ops))
				}
			}
		}
	}
	for _, c := range w.Calls {
		if c.K == "rlist" || c.K == "mlist" {
			seen := map[int]bool{}
			for _, x := range c.List {
				if seen[x] || x < 0 {
					j.v("C16", "listing", "%s returned connection %d twice or an unknown one: %v", c.K, x, c.List)
					break
				}
				if slices.Contains(c.ExUsed, x) {
					j.v("C16", "listing", "%s returned connection %d although it was to be left out: %v", c.K, x, c.List)
					break
				}
				seen[x] = true
			}
		}
	}
	j.roomKeys()
	j.managerKeys()
	j.manager2()
}

// hookArgs: the join and leave hooks get the arguments of the call that caused them;
// a connection that leaves because it was closed gets those it was added with.
func (j *judge) hookArgs(room, ci int) {
	w := j.w
	cs := w.C[ci]
	for _, e := range w.Evs {
		if e.C != ci || e.Obj != room || e.K != "join" && e.K != "leave" {
			continue
		}
		if own := slices.Contains(w.own, room); own != (e.Key == "own") {
			j.v(j.own("C16", "C17"), "hook-own", "room %d (%s), conn %d: the %s hook that ran is not that of the room", room, w.roomK[room], ci, e.K)
		}
		ok := false
		var could []string
		from := func(args string, inv, ret int64) {
			if inv > e.Seq || e.K == "join" && ret > 0 && ret < e.Seq {
				return
			}
			could = append(could, args)
			ok = ok || args == e.Arg
		}
		if cs.p.Via == "room" && (!cs.upDone || cs.room == room) && cs.p.Key == w.roomK[room] {
			r := cs.upRet
			if !cs.upDone {
				r = 0
			}
			from(connArg(ci), cs.upInv, r)
		}
		for _, c := range w.Calls {
			switch c.K {
			case "radd":
				if c.C == ci && c.Obj == room {
					from(c.Args, c.Inv, c.Ret)
				}
			case "rmove":
				if c.C == ci && (c.Obj == room || c.Op.Room2 == w.roomK[room]) {
					from("", c.Inv, c.Ret)
				}
			case "rremove":
				if c.C == ci && c.Obj == room && e.K == "leave" {
					from(c.Args, c.Inv, 0)
				}
			case "rremoveall", "rclose":
				if c.Obj == room && e.K == "leave" {
					from("", c.Inv, 0)
				}
			}
		}
		if !ok {
			j.v(j.own("C16", "C17"), "hook-args", "room %d (%s), conn %d: the %s hook got the arguments %q, possible are %q", room, w.roomK[room], ci, e.K, e.Arg, could)
		}
	}
}

type kop struct {
	k        string // add get closeroom clear / reg close mget shut
	inv, ret int64
	o        int
}

// roomKeys: a room stays reachable under its key until that very room is closed.
func (j *judge) roomKeys() {
	w := j.w
	keys := map[string][]kop{}
	all := func(f func(k string)) {
		for k := range keys {
			f(k)
		}
	}
	for _, k := range w.roomK {
		keys[k] = nil
	}
	for _, c := range w.Calls {
		r := c.Ret
		if r == 0 {
			r = inf
		}
		switch c.K {
		case "rmadd", "rmget":
			if c.Ret > 0 {
				keys[c.Op.Room] = append(keys[c.Op.Room], kop{c.K, c.Inv, r, c.Obj})
			}
		case "rclose":
			keys[c.Op.Room] = append(keys[c.Op.Room], kop{"rclose", c.Inv, r, c.Obj})
		case "rmshutdown":
			all(func(k string) {
				if !strings.HasPrefix(k, "2:") {
					keys[k] = append(keys[k], kop{"clear", c.Inv, r, 0})
				}
			})
		case "rmkeys":
			if c.Ret > 0 {
				all(func(k string) {
					if strings.HasPrefix(k, "2:") {
						return
					}
					o := -1
					if slices.Contains(c.Keys, k) {
						o = 1
					}
					keys[k] = append(keys[k], kop{"has", c.Inv, r, o})
				})
			}
		}
	}
	for _, cs := range w.C {
		if cs.p.Via == "room" && cs.upDone && cs.conn != nil {
			keys[cs.p.Key] = append(keys[cs.p.Key], kop{"rmadd", cs.upInv, cs.upRet, cs.room})
			for _, c := range w.Calls {
				if c.K == "rclose" && c.Obj != cs.room && c.Op.Room == cs.p.Key && c.Inv < cs.upRet && (c.Ret == 0 || c.Ret > cs.upInv) {
					// it may have made that room first and found it closed when it was about to join
					keys[cs.p.Key] = append(keys[cs.p.Key], kop{"make", cs.upInv, cs.upRet, c.Obj})
				}
			}
		}
	}
	for _, r := range w.own {
		if k := w.roomK[r]; len(keys[k]) > 0 || w.Pre.Done {
			keys[k] = append(keys[k], kop{"rmadd", 0, 0, r})
		}
	}
	for k, ops := range keys {
		if len(ops) == 0 || len(ops) > 22 {
			continue
		}
		if w.Pre.Done {
			o := -1
			if slices.Contains(w.Pre.RKeys, k) {
				o = 1
			}
			ops = append(ops, kop{"has", w.Pre.From, w.Pre.Seq, o})
		}
		j.ct++
		if !linKeyN(ops, func(st int, o kop) []int {
			if o.k == "make" && st == -1 {
				return []int{-1, o.o}
			}
			if ns, ok := func() (int, bool) {
				switch o.k {
				case "rmadd":
					if st == -1 {
						return o.o, true
					}
					return st, st == o.o
				case "rmget":
					return st, st == o.o
				case "rclose":
					if st == o.o {
						return -1, true
					}
					return st, true
				case "clear":
					return -1, true
				case "has":
					return st, (st >= 0) == (o.o >= 0)
				}
				return st, true
			}(); ok {
				return []int{ns}
			}
			return nil
		}) {
			j.v(j.own("C16", "C17"), "room-key", "rooms under key %s: no order of the operations explains what was observed: %s", k, descK(ops))
		}
	}
}

func descK(ops []kop) string {
	sort.Slice(ops, func(a, b int) bool { return ops[a].inv < ops[b].inv })
	var s []string
	for _, o := range ops {
		r := fmt.Sprint(o.ret)
		if o.ret == inf {
			r = "-"
		}
		s = append(s, fmt.Sprintf("%s(%d)[%d,%s]", o.k, o.o, o.inv, r))
	}
	return strings.Join(s, " ")
}

// linKeyN: is there an order of the operations that a nondeterministic model accepts?
func linKeyN(ops []kop, step func(st int, o kop) []int) bool {
	if len(ops) > 24 {
		return true
	}
	type sk struct {
		d  uint32
		st int
	}
	seen := map[sk]bool{}
	var rec func(done uint32, st int) bool
	rec = func(done uint32, st int) bool {
		lim := inf
		for i := range ops {
			if done&(1<<i) == 0 && ops[i].ret < lim {
				lim = ops[i].ret
			}
		}
		if lim == inf {
			return true
		}
		if seen[sk{done, st}] {
			return false
		}
		seen[sk{done, st}] = true
		for i := range ops {
			if done&(1<<i) != 0 || ops[i].inv > lim {
				continue
			}
			for _, ns := range step(st, ops[i]) {
				if rec(done|1<<i, ns) {
					return true
				}
			}
		}
		return false
	}
	return rec(0, -1)
}

// managerKeys: the manager maps each key to the last live connection registered under it.
// manager2: connections that are in a second manager too, each under its own key.
func (j *judge) manager2() {
	w := j.w
	if !j.p.Two {
		return
	}
	for ci := range w.C {
		var ops []mop
		n := 0
		for _, c := range w.Calls {
			r := c.Ret
			if r == 0 {
				r = inf
			}
			switch c.K {
			case "m2reg":
				if c.C == ci {
					n++
					ops = append(ops, mop{k: "add", inv: c.Inv, ret: r, desc: "Register"})
				}
			case "m2list":
				if c.Ret > 0 {
					ops = append(ops, mop{k: "obs", inv: c.Inv, ret: c.Ret, present: slices.Contains(c.List, ci), desc: "GetAllConns"})
				}
			}
		}
		if n == 0 {
			continue
		}
		if inv, ret := j.endOf(ci); inv < inf {
			ops = append(ops, mop{k: "close", inv: inv, ret: ret, desc: "close"})
		}
		if w.Pre.Done {
			ops = append(ops, mop{k: "obs", inv: w.Pre.From, ret: w.Pre.Seq, present: slices.Contains(w.Pre.Mgr2, ci), desc: "final listing"})
		}
		j.ct++
		if !linBool(ops) {
			j.v("C16", "mgr-member", "conn %d in the second manager: no order of the operations explains what was observed: %s", ci, descOps(ops))
		}
		reg, unreg := len(j.evs("register2", ci)), len(j.evs("unregister2", ci))
		if reg > n || unreg > 1 || unreg > 0 && reg == 0 || reg > 0 && unreg == 0 && w.Post != nil && w.Post.Done && w.C[ci].link.Closed {
			j.v("C16", "mgr-hooks", "conn %d in the second manager: register hook ran %d times, unregister hook %d times (%s)", ci, reg, unreg, descOps(ops))
		}
	}
}

func (j *judge) managerKeys() {
	w := j.w
	keys := map[string][]int{}
	for ci, cs := range w.C {
		if cs.p.Via == "mgr" && cs.upInv > 0 {
			keys[cs.p.Key] = append(keys[cs.p.Key], ci)
		}
	}
	for k, cis := range keys {
		var ops []kop
		for _, ci := range cis {
			cs := w.C[ci]
			if cs.upDone && cs.conn == nil {
				continue
			}
			r := cs.upRet
			if !cs.upDone {
				r = inf
			}
			ops = append(ops, kop{"reg", cs.upInv, r, ci})
			inv, ret := j.mgrEnd(ci, cis)
			if inv < inf {
				ops = append(ops, kop{"close", inv, ret, ci})
			}
		}
		if len(ops) == 0 {
			continue
		}
		for _, c := range w.Calls {
			if c.Ret == 0 {
				continue
			}
			switch c.K {
			case "rereg":
				if c.C == cis[0] {
					ops = append(ops, kop{"reg", c.Inv, c.Ret, c.C})
				}
			case "mget":
				if c.Op.Room == k {
					ops = append(ops, kop{"get", c.Inv, c.Ret, c.Obj})
				}
			case "mlist":
				if slices.Contains(c.ExUsed, cis[0]) {
					continue
				}
				o := -1
				for i, x := range c.Keys {
					if x == k {
						o = c.List[i]
					}
				}
				ops = append(ops, kop{"get", c.Inv, c.Ret, o})
			}
		}
		if w.Pre.Done {
			o := -1
			for i, x := range w.Pre.Keys {
				if x == k {
					o = w.Pre.Mgr[i]
				}
			}
			ops = append(ops, kop{"get", w.Pre.From, w.Pre.Seq, o})
		}
		j.ct++
		// state: current connection + 1000*... closed set kept as bitmask
		idx := map[int]int{}
		for i, ci := range cis {
			idx[ci] = i
		}
		enc := func(cur, closed int) int { return (cur+2)<<16 | closed }
		if !linKeyN(ops, func(st int, o kop) []int {
			cur, closed := -1, 0
			if st != -1 {
				cur, closed = st>>16-2, st&0xffff
			}
			switch o.k {
			case "reg":
				if closed&(1<<idx[o.o]) != 0 {
					// a connection that is closed already: the old one may stay
					return []int{enc(cur, closed), enc(-1, closed)}
				}
				return []int{enc(o.o, closed)}
			case "close":
				if cur == o.o {
					cur = -1
				}
				return []int{enc(cur, closed|1<<idx[o.o])}
			case "get":
				if cur == o.o {
					return []int{enc(cur, closed)}
				}
				return nil
			}
			return []int{st}
		}) {
			j.v(j.own("C16", "C17"), "mgr-key", "manager key %s: no order of the operations explains what was observed: %s", k, descK(ops))
		}
		// hooks
		for _, ci := range cis {
			cs := w.C[ci]
			if cs.conn == nil || !cs.upDone {
				continue
			}
			if j.p.noHook("r") {
				break
			}
			reg, unreg := len(j.evs("register", ci)), len(j.evs("unregister", ci))
			inv, _ := j.mgrEnd(ci, cis)
			again := j.reregs(ci)
			if (reg < 1 || reg > 1+again) && !(reg == 0 && inv <= cs.upRet) {
				j.v("C16", "mgr-hooks", "conn %d: register hook ran %d times", ci, reg)
			}
			if unreg > 1 || unreg > reg {
				j.v(j.own("C16", "C17"), "mgr-hooks", "conn %d: unregister hook ran %d times (register hook %d)", ci, unreg, reg)
			}
			if len(cis) == 1 && reg >= 1 && (unreg < 1 || unreg > 1+again) && w.Post != nil {
				j.v(j.own("C16", "C17"), "mgr-hooks", "conn %d: closed, but the unregister hook ran %d times", ci, unreg)
			}
		}
		// replacement closes the old connection
		if len(cis) > 1 {
			for _, a := range cis {
				for _, b := range cis {
					A, B := w.C[a], w.C[b]
					if a == b || A.conn == nil || B.conn == nil || !A.upDone || !B.upDone || A.upRet >= B.upInv {
						continue
					}
					if inv, _ := j.mgrEnd(b, cis); inv <= B.upRet && (len(j.evs("register", b)) == 0 || j.p.noHook("r")) {
						continue // closed before it was registered: it need not take the key
					}
					if (!A.link.Closed || A.link.ClosedT > B.upRetT+4*j.p.WW+j.slk) && B.upRetT+4*j.p.WW+j.slk < w.s.Now {
						j.v("C16", "replaced-open", "conn %d: still open %dms after conn %d replaced it under key %s", a, 4*j.p.WW/ms, b, k)
					}
				}
			}
		}
	}
}

// mgrEnd is like endOf but does not treat replacement as an end: the key then simply maps to the newer connection.
func (j *judge) mgrEnd(ci int, cis []int) (int64, int64) {
	inv, ret := j.mgrEnd1(ci, cis)
	for _, s := range j.w.Calls {
		// a shutdown leaves none of the connections that were registered before it
		if s.K == "mshutdown" && s.Ret > 0 && j.w.C[ci].upDone && j.w.C[ci].upRet < s.Inv {
			inv, ret = min(inv, s.Inv), min(ret, s.Ret)
		}
	}
	return inv, ret
}

func (j *judge) mgrEnd1(ci int, cis []int) (int64, int64) {
	cs := j.w.C[ci]
	if len(cis) == 1 {
		return j.endOf(ci)
	}
	inv, ret := inf, inf
	n := 0
	late := false
	for _, o := range cis {
		// may this connection have been replaced by o?
		if o != ci && j.w.C[o].upInv > 0 && j.w.C[o].upErr == "" && !(j.w.C[o].upDone && j.w.C[o].upRet < cs.upInv) {
			late = true
		}
	}
	for _, c := range j.causes(ci) {
		if c.desc == "replaced" {
			continue
		}
		if c.noFrame && c.desc != "network" {
			inv = min(inv, cs.upInv)
		}
		if c.desc == "network" {
			if late && j.disturb(ci, true) == "replaced" {
				continue
			}
			inv = min(inv, cs.upInv)
		}
		inv = min(inv, c.inv)
		n++
		if c.ret < inf {
			ret = c.ret
		}
	}
	if n != 1 {
		ret = inf
	}
	if late {
		// a replaced connection ends some time after it was replaced
		inv, ret = min(inv, cs.upInv), inf
	}
	if inv < inf && j.w.Pre != nil && j.w.Pre.Done && cs.link.Closed && cs.link.ClosedT+4*j.p.WW+j.slk < j.w.FinalT {
		ret = min(ret, j.w.Pre.From-1)
	}
	return inv, ret
}

// ---- broadcasts (C14, C15) ----

func (j *judge) nBroadcasts() (n int) {
	for _, c := range j.w.Calls {
		switch c.K {
		case "rbc", "mbc", "rbb", "mbb":
			n++
		}
	}
	return
}

func (j *judge) queueLen() int {
	if j.p.BQ == 0 {
		return 8
	}
	return j.p.BQ
}

// queueSpace: the plan guarantees room in the queue of every client that keeps up.
func (j *judge) queueSpace() bool {
	bq := j.p.BQ
	if bq == 0 {
		bq = 8
	}
	return j.nBroadcasts() <= bq || j.p.Paced && j.p.Sched.StallTot == 0
}

// member classifies connection ci's membership during call c: 1 throughout, -1 never, 0 unclear.
func (j *judge) member(c *Call, ci int) int {
	var ops []mop
	cs := j.w.C[ci]
	if c.K == "mbc" || c.K == "mbb" {
		if cs.p.Via != "mgr" || cs.conn == nil && cs.upDone {
			return -1
		}
		if cs.upInv > 0 {
			r := cs.upRet
			if !cs.upDone {
				r = inf
			}
			ops = append(ops, mop{k: "add", inv: cs.upInv, ret: r})
		}
		for o, x := range j.w.C {
			if o != ci && x.p.Via == "mgr" && x.p.Key == cs.p.Key && x.upInv > 0 {
				ops = append(ops, mop{k: "remove", inv: x.upInv, ret: inf})
			}
		}
		for _, x := range j.w.Calls {
			if x.K == "mshutdown" {
				ops = append(ops, mop{k: "remove", inv: x.Inv, ret: inf})
			}
		}
		if inv, ret := j.endOf(ci); inv < inf {
			ops = append(ops, mop{k: "remove", inv: inv, ret: ret})
		}
	} else {
		for _, o := range j.memberOps(c.Obj, ci) {
			if o.k == "close" {
				o.k = "remove"
			}
			if o.k != "obs" {
				ops = append(ops, o)
			}
		}
	}
	ret := c.Ret
	if ret == 0 {
		ret = inf
	}
	possible := false
	for _, a := range ops {
		if (a.k == "add" || a.k == "maybe") && a.inv < ret {
			gone := false
			for _, r := range ops {
				if r.k == "remove" && r.ret < c.Inv && a.ret < r.inv {
					gone = true
				}
			}
			if !gone {
				possible = true
			}
		}
	}
	if !possible {
		return -1
	}
	for _, a := range ops {
		if a.k != "add" || a.ret >= c.Inv {
			continue
		}
		ok := true
		for _, r := range ops {
			if r.k == "remove" && r.inv < ret && r.ret > a.inv {
				ok = false
			}
		}
		if ok {
			return 1
		}
	}
	return 0
}

func (j *judge) broadcasts() {
	w := j.w
	type bc struct {
		c   *Call
		pos []int // per connection, -1: not delivered
	}
	var bs []bc
	space := j.queueSpace()
	batched := j.batched()
	for _, c := range w.Calls {
		isB := c.K == "rbb" || c.K == "mbb"
		if c.K != "rbc" && c.K != "mbc" && !isB {
			continue
		}
		if isB && (j.p.Batch == nil || w.FlCloseInv > 0 || w.FlCtxT >= 0) {
			continue // judged with the batches (C18)
		}
		j.ct++
		b := bc{c: c}
		d := opData(c.Op)
		k := wkey(opType(c.Op), d)
		delivered, others := 0, 0
		allFine := true
		wait := 2*j.p.WW + j.slk
		if isB {
			wait += 2 * j.p.Batch.Every
		}
		for ci, cs := range w.C {
			b.pos = append(b.pos, -1)
			mem := j.member(c, ci)
			excl := j.excluded(c, ci)
			t := j.ids[ci][k]
			uniq := t != nil && len(t.calls) == 1
			var at []int
			if t != nil {
				at = t.pos
			}
			if isB {
				at, uniq = batched[ci][string(d)], true
				if len(at) == 0 && mem >= 0 && j.refused(ci)[string(d)] {
					allFine = false
					others++
					continue
				}
			}
			got := len(at) > 0
			if mem >= 0 && (!excl || j.exclLate(c, ci)) && j.disturbed(ci) != "" {
				allFine = false
			}
			if mem >= 0 && (!excl || j.exclLate(c, ci)) && (len(at) == 0 || !uniq) {
				// a connection that stays open until the end has sent everything it was handed
				if !(uniq && cs.link.Closed && cs.link.ClosedSeq > w.FinalSeq && c.CtxEnd < 0 && max(c.TRet, j.busy(ci))+wait+j.appWaits(ci)+int64(j.queueLen()+2)*j.p.WW < w.FinalT && len(j.wire[ci].Bad) == 0) {
					others++
				}
			}
			if !uniq {
				allFine = false
				continue
			}
			if len(at) > 1 {
				j.v("C14", "bc-duplicate", "broadcast %s reaches conn %d %d times", short(d), ci, len(at))
			}
			if got {
				delivered++
				b.pos[ci] = at[0]
			}
			if got && excl && !j.exclLate(c, ci) {
				j.v("C14", "bc-excluded", "broadcast %s reaches the excluded conn %d", short(d), ci)
			}
			if got && mem < 0 {
				j.v("C14", "bc-nonmember", "broadcast %s (room %d) reaches conn %d, which is not a member", short(d), c.Obj, ci)
			}
			if !got && j.p.BP == 2 && !excl && c.Ret > 0 && c.EK == 0 && c.CtxEnd < 0 && j.memberIfAlive(c, ci) && cs.link.Closed && cs.link.ClosedSeq > w.FinalSeq && c.Inv < w.FinalSeq &&
				max(c.TRet, j.busy(ci))+wait+j.appWaits(ci)+int64(j.queueLen()+2)*j.p.WW < w.FinalT && len(j.wire[ci].Bad) == 0 {
				j.v(j.own("C14", "C15"), "bc-lost", "broadcast %s (returned %d, %q) waits for slow clients but never reaches conn %d, which stays open", short(d), c.N, c.Err, ci)
			}
			if !got && mem == 1 && !excl && c.Ret > 0 && c.CtxEnd < 0 && j.disturbed(ci) == "" && (space || j.p.BP == 2) && c.Inv < w.FinalSeq && c.TRet+wait+j.appWaits(ci) < w.FinalT && len(j.wire[ci].Bad) == 0 {
				j.v(j.own("C14", "C15"), "bc-lost", "broadcast %s (returned %d, %q) never reaches the healthy member conn %d", short(d), c.N, c.Err, ci)
			}
		}
		if c.Ret > 0 {
			if delivered > c.N {
				j.v("C14", "bc-count", "broadcast %s returned %d but reaches %d connections", short(d), c.N, delivered)
			}
			if c.N > delivered+others && c.Inv < w.FinalSeq {
				j.v("C14", "bc-count", "broadcast %s returned %d but reaches only %d connections, and at most %d others could have got it", short(d), c.N, delivered, others)
			}
			if allFine && c.CtxEnd < 0 && delivered < c.N && c.TRet+wait < w.FinalT {
				j.v("C14", "bc-count", "broadcast %s returned %d but reaches only %d connections, all of them healthy", short(d), c.N, delivered)
			}
			if c.CtxEnd < 0 && c.EK != 0 {
				j.v("C14", "bc-error", "broadcast %s failed with %q", short(d), c.Err)
			}
			if c.CtxEnd >= 0 && c.EK != 0 && (c.EK != 'c' || c.TRet < c.CtxEnd) {
				j.v("C14", "bc-error", "broadcast %s failed with %q at %dms, its context ends at %dms", short(d), c.Err, c.TRet/ms, c.CtxEnd/ms)
			}
			if c.CtxEnd >= 0 && c.Hook == "" && c.TRet > max(c.CtxEnd, c.TInv)+j.slk {
				j.v("C15 C11", "bc-ctx", "broadcast %s returns at %dms although its context ended at %dms", short(d), c.TRet/ms, c.CtxEnd/ms)
			}
		}
		if j.p.BP != 2 && c.Hook == "" {
			end := c.TRet
			if c.Ret == 0 {
				end = w.s.Now
			}
			if end-c.TInv > j.slk {
				j.v("C15 C11", "bc-waits", "broadcast %s takes %dms with a strategy that must not wait", short(d), (end-c.TInv)/ms)
			}
		}
		bs = append(bs, b)
	}
	for i := range bs {
		for k := range bs {
			if bs[i].c.Ret == 0 || bs[i].c.Ret >= bs[k].c.Inv || isBatchBC(bs[i].c) != isBatchBC(bs[k].c) {
				continue
			}
			for ci := range w.C {
				if bs[i].pos[ci] >= 0 && bs[k].pos[ci] >= 0 && bs[i].pos[ci] > bs[k].pos[ci] {
					j.v("C14", "bc-order", "conn %d: broadcast %s was made before %s but is received after it", ci, short(opData(bs[i].c.Op)), short(opData(bs[k].c.Op)))
				}
			}
		}
	}
	j.slowOnes()
}

// excluded: the exclusion list of the broadcast names the connection (managers: its key).
func (j *judge) excluded(c *Call, ci int) bool {
	if slices.Contains(c.Op.Ex, ci) {
		return true
	}
	if c.K == "mbc" || c.K == "mbb" {
		for _, e := range c.Op.Ex {
			if e >= 0 && e < len(j.w.C) && j.w.C[e].p.Key == j.w.C[ci].p.Key {
				return true
			}
		}
	}
	return false
}

func isBatchBC(c *Call) bool { return c.K == "rbb" || c.K == "mbb" }

// batched: per connection, where every batch element is in the stream of batch elements the client receives.
func (j *judge) batched() (out []map[string][]int) {
	for ci := range j.w.C {
		m := map[string][]int{}
		out = append(out, m)
		if j.p.Batch == nil {
			continue
		}
		n := 0
		for _, x := range j.wire[ci].Msgs {
			if j.ids[ci][wkey(x.Type, x.Payload)] != nil || x.Type != 2 {
				continue
			}
			els, _, ok := j.splitBatch(x.Payload, false)
			for _, e := range els {
				if ok {
					m[string(e)] = append(m[string(e)], n)
					n++
				}
			}
		}
	}
	return
}

// exclLate: the exclusion list was resolved before the connection existed.
func (j *judge) exclLate(c *Call, ci int) bool {
	cs := j.w.C[ci]
	return (c.K == "rbc" || c.K == "rbb") && (cs.conn == nil || cs.upRet > c.Inv)
}

// slowOnes: with the close strategy a client that does not keep up is closed and leaves (C15).
func (j *judge) slowOnes() {
	if j.p.BP != 1 {
		return
	}
	w := j.w
	bq := j.queueLen()
	for _, c := range w.Calls {
		switch c.K {
		case "rbb", "mbb":
			if j.p.Batch == nil || w.FlCloseInv > 0 || w.FlCtxT >= 0 {
				continue
			}
		case "rbc", "mbc":
		default:
			continue
		}
		lim := c.TRet + 4*j.p.WW + j.slk
		if c.Ret == 0 || c.EK != 0 || c.CtxEnd >= 0 || c.Inv >= w.FinalSeq || lim >= w.FinalT {
			continue
		}
		// members that are there for sure and did not all get the message: the others must be closed
		sure, gone, open := 0, 0, []int{}
		for ci, cs := range w.C {
			if cs.conn == nil || !j.memberIfAlive(c, ci) || j.excluded(c, ci) || cs.link.Closed && cs.link.ClosedSeq < c.Inv {
				continue
			}
			sure++
			if cs.link.Closed && cs.link.ClosedT <= lim {
				gone++
			} else {
				open = append(open, ci)
			}
		}
		j.ct++
		if sure-c.N > gone {
			j.v("C15", "slow-kept", "broadcast %s was queued for %d of at least %d members, but only %d of them are closed in time (open: %v)", short(opData(c.Op)), c.N, sure, gone, open)
		}
	}
	for ci, cs := range w.C {
		if cs.conn == nil || cs.StopT == 0 || !cs.StopForever {
			continue
		}
		// The broadcast at i cannot have been written when the client has no room for all of them up to it,
		// so at most bq may follow it.
		var cum []int
		n, full := 0, -1
		lastT, maxT := int64(0), int64(0)
		for _, c := range w.Calls {
			// batch broadcasts are taken from the queue without being written, unless a frame is stuck before them
			if (c.K == "rbc" || c.K == "mbc" || full >= 0 && j.p.Batch != nil && isBatchBC(c)) && c.Ret > 0 && c.TInv > cs.StopT && !j.excluded(c, ci) && c.CtxEnd < 0 && c.Inv < w.FinalSeq && j.memberIfAlive(c, ci) {
				maxT = max(maxT, c.TRet)
				n += len(opData(c.Op)) + 2
				cum = append(cum, n)
				if full < 0 && n > cs.link.p.SndBuf {
					full = len(cum) - 1
				}
				if full >= 0 && len(cum)-1 == full+bq+1 {
					lastT = maxT
				}
			}
		}
		if lastT == 0 {
			continue
		}
		j.ct++
		lim := lastT + 4*j.p.WW + j.slk
		if lim >= w.FinalT {
			continue
		}
		if !cs.link.Closed || cs.link.ClosedT > lim {
			j.v("C15", "slow-open", "conn %d: stopped reading at %dms and its queue overflowed by %dms, but it is still open at %dms", ci, cs.StopT/ms, lastT/ms, lim/ms)
			continue
		}
		if w.Pre.Done {
			for r, m := range w.Pre.Rooms {
				if slices.Contains(m, ci) && cs.link.ClosedT+4*j.p.WW+j.slk < w.FinalT {
					j.v("C15 C16", "slow-member", "conn %d: closed for being too slow but still listed in room %d", ci, r)
				}
			}
		}
	}
}

// memberIfAlive: joined before the call and never removed by the application.
func (j *judge) memberIfAlive(c *Call, ci int) bool {
	cs := j.w.C[ci]
	if c.K == "mbc" || c.K == "mbb" {
		return cs.p.Via == "mgr" && cs.upDone && cs.upRet < c.Inv
	}
	joined := false
	for _, o := range j.memberOps(c.Obj, ci) {
		switch o.k {
		case "add":
			joined = joined || o.ret < c.Inv
		case "remove":
			return false
		}
	}
	return joined
}

// ---- shutdown (C17) ----

func (j *judge) shutdown() {
	w := j.w
	for _, s := range w.Calls {
		if s.K != "mshutdown" && s.K != "rmshutdown" {
			continue
		}
		if s.Ret == 0 {
			continue // judged by bounded()
		}
		for ci, cs := range w.C {
			if cs.conn == nil || !cs.upDone || cs.upRet >= s.Inv {
				continue
			}
			member := false
			if s.K == "mshutdown" {
				member = cs.p.Via == "mgr"
				for o, x := range w.C {
					if o != ci && x.p.Via == "mgr" && x.p.Key == cs.p.Key && x.upInv > 0 {
						member = false
					}
				}
			} else {
				for room, k := range w.roomK {
					if strings.HasPrefix(k, "2:") {
						continue
					}
					ops := j.memberOps(room, ci)
					in, out := false, false
					for _, o := range ops {
						if o.k == "add" && o.ret < s.Inv {
							in = true
						}
						if o.k == "remove" && o.inv < s.Ret {
							out = true
						}
					}
					// the room must be the one registered when the shutdown starts
					if in && !out && j.roomStable(room, s.Inv, s.Inv) {
						member = true
					}
				}
			}
			if !member {
				continue
			}
			j.ct++
			lim := s.TRet + 4*j.p.WW + j.slk
			if lim < w.s.Now && (!cs.link.Closed || cs.link.ClosedT > lim) {
				j.v("C17", "shutdown-open", "conn %d: was registered before %s but is still open %dms after it returned", ci, s.K, 4*j.p.WW/ms)
				continue
			}
			if n := len(j.evs("disconnect", ci)); n != 1 && lim < w.s.Now && !j.p.noHook("d") {
				j.v("C17", "shutdown-hook", "conn %d: disconnect hook ran %d times", ci, n)
			}
			only := true
			for _, c := range j.causes(ci) {
				if c.desc != "manager shutdown" && c.desc != "room manager shutdown" && !(c.ret < inf && c.inv > s.Ret) {
					only = false
				}
			}
			if only && s.Hook == "" && !j.otherShutdown(s) {
				if !cs.link.Closed || cs.link.ClosedSeq > s.Ret {
					j.v("C17", "shutdown-late", "conn %d: %s returned before the connection was closed", ci, s.K)
				}
				want := 1000
				if s.K == "rmshutdown" {
					want = 1001
				}
				if c := j.wire[ci].Close; c == nil {
					j.v("C17 C10", "shutdown-frame", "conn %d: closed by %s without a close frame", ci, s.K)
				} else if len(c.Payload) < 2 || int(binary.BigEndian.Uint16(c.Payload)) != want {
					j.v("C17 C10", "shutdown-code", "conn %d: closed by %s with %s", ci, s.K, j.closeInfo(ci))
				}
			}
		}
	}
}

func (j *judge) otherShutdown(s *Call) bool {
	for _, c := range j.w.Calls {
		if c != s && (c.K == "mshutdown" || c.K == "rmshutdown") {
			return true
		}
	}
	return false
}

// ---- batches (C18) ----

// refused are the batched messages of a connection that the application's own sender did not take.
func (j *judge) refused(ci int) map[string]bool {
	out := map[string]bool{}
	for _, e := range j.w.Custom {
		if e.C == ci && e.Failed {
			for _, m := range e.Msgs {
				out[string(m)] = true
			}
		}
	}
	return out
}

// reregs counts the calls that register a connection again under its key.
func (j *judge) reregs(ci int) (n int) {
	for _, c := range j.w.Calls {
		if c.K == "rereg" && c.C == ci {
			n++
		}
	}
	return
}

func (j *judge) batches() {
	b := j.p.Batch
	if b == nil {
		return
	}
	w := j.w
	if w.OldOpen {
		j.v("C18", "old-flusher-open", "batching was enabled again but the previous flusher is not closed")
	}
	stop := w.FinalSeq
	stopT := w.FinalT
	for ci, cs := range w.C {
		if cs.conn == nil {
			continue
		}
		type el struct {
			data string
			t    int64
			bi   int
			seq  int64
		}
		var els []el
		where := map[string][]int{}
		bad := false
		nb := 0
		add := func(parts [][]byte, t, seq int64, wrapped bool) {
			if wrapped {
				pf := len(parts) > 0 && b.Prefix && isPfx(parts[0])
				rest := parts
				if pf {
					rest = rest[1:]
				}
				sf := len(rest) > 0 && b.Suffix && isSfx(rest[len(rest)-1])
				if sf {
					rest = rest[:len(rest)-1]
				}
				if x := b.pfx(ci, len(rest)); pf != (x != nil) || pf && !bytes.Equal(x, parts[0]) {
					j.v("C18", "batch-prefix", "conn %d: a batch of %d messages starts with %s instead of the prefix element %s", ci, len(rest), short(append([]byte(nil), bytes.Join(parts, []byte(","))...)), short(x))
					bad = true
					return
				}
				if x := b.sfx(ci, len(rest)); sf != (x != nil) || sf && !bytes.Equal(x, parts[len(parts)-1]) {
					j.v("C18", "batch-suffix", "conn %d: a batch of %d messages does not end with the suffix element %s", ci, len(rest), short(x))
					bad = true
					return
				}
				parts = rest
			}
			if len(parts) == 0 {
				j.v("C18", "batch-empty", "conn %d: an empty batch was sent", ci)
			}
			size := 0
			for _, p := range parts {
				size += len(p)
				where[string(p)] = append(where[string(p)], len(els))
				els = append(els, el{string(p), t, nb, seq})
			}
			mb := j.p.MaxBatch
			if mb == 0 {
				mb = 1 << 20
			}
			if size > mb && len(parts) > 1 {
				j.v("C18", "batch-size", "conn %d: a batch of %d messages holds %d bytes, the maximum is %d", ci, len(parts), size, mb)
			}
			nb++
		}
		for _, x := range j.wire[ci].Msgs {
			if j.ids[ci][wkey(x.Type, x.Payload)] != nil || x.Type != 2 {
				continue
			}
			parts, _, ok := j.splitBatch(x.Payload, false)
			if !ok {
				j.v("C18", "batch-format", "conn %d: batch %s does not have the configured format", ci, short(x.Payload))
				bad = true
				continue
			}
			add(parts, x.EndT, x.EndSeq, b.Strat != "custom")
		}
		if bad || len(j.wire[ci].Bad) > 0 {
			continue
		}
		refused := j.refused(ci)
		healthy := j.disturbed(ci) == ""
		hold := j.appWaits(ci)
		type acc struct {
			c *Call
			i int
		}
		var seqs []acc
		for _, c := range w.Calls {
			direct := (c.K == "batch" || c.K == "batchjson") && c.C == ci
			bc := c.K == "rbb" || c.K == "mbb"
			if !direct && !bc || c.Ret == 0 {
				continue
			}
			d := string(opData(c.Op))
			pos := where[d]
			j.ct++
			if len(pos) > 1 {
				j.v("C18", "batch-duplicate", "conn %d: batched message %s is sent %d times", ci, short([]byte(d)), len(pos))
			}
			flAlive := (w.FlCloseInv == 0 || c.Ret < w.FlCloseInv) && (w.FlCtxT < 0 || c.TRet+2*b.Every+hold+j.slk < w.FlCtxT)
			if direct {
				if c.EK == 0 && len(pos) == 1 {
					seqs = append(seqs, acc{c, pos[0]})
				}
				if c.EK != 0 && len(pos) > 0 {
					j.v("C18", "batch-refused-sent", "conn %d: Batch of %s failed with %q but the message is sent", ci, short([]byte(d)), c.Err)
				}
				if c.EK != 0 && healthy && c.Ret < stop && flAlive && c.TInv >= 0 {
					j.v("C18", "batch-error", "conn %d: Batch failed with %q on a healthy connection", ci, c.Err)
				}
			}
			must := false
			if direct {
				must = c.EK == 0
			} else {
				must = c.EK == 0 && c.CtxEnd < 0 && j.member(c, ci) == 1 && !j.excluded(c, ci) && (j.queueSpace() || j.p.BP == 2)
			}
			if bc && len(pos) > 0 && (j.member(c, ci) < 0 || j.excluded(c, ci) && !j.exclLate(c, ci)) {
				j.v("C18 C14", "batch-nonmember", "conn %d: batch broadcast %s reaches a connection that is not addressed", ci, short([]byte(d)))
			}
			if !must || !healthy || c.Ret >= stop || refused[d] {
				continue
			}
			lim := c.TRet + 2*b.Every + hold + j.slk
			if !flAlive && direct && w.FlCloseInv > 0 && c.Ret >= w.FlCloseInv {
				// accepted while the flusher was being closed: it was accepted, so it must be delivered
				lim = max(lim, w.FlCloseT+hold+j.slk)
			}
			if w.FlCloseInv > 0 && c.Ret < w.FlCloseInv && !bc {
				lim = min(lim, w.FlCloseT+hold+j.slk) // closing flushes what is pending
			}
			if w.FlCloseInv > 0 && bc && c.TRet+hold+j.slk >= w.FlCloseT {
				continue // still in the broadcast queue when the flusher was closed
			}
			if w.FlCtxT >= 0 && lim >= w.FlCtxT {
				continue
			}
			if lim >= stopT {
				continue
			}
			if len(pos) == 0 {
				j.v("C18", "batch-lost", "conn %d: message %s was accepted for batching at %dms but is not delivered by %dms (flush interval %dms)", ci, short([]byte(d)), c.TRet/ms, lim/ms, b.Every/ms)
			} else if els[pos[0]].t > lim {
				j.v("C18", "batch-late", "conn %d: message %s was accepted for batching at %dms and delivered at %dms (flush interval %dms)", ci, short([]byte(d)), c.TRet/ms, els[pos[0]].t/ms, b.Every/ms)
			}
		}
		// messages are collected for the flush interval unless the batch is full
		total := 0
		for _, e := range els {
			total += len(e.data)
		}
		if mb := j.p.MaxBatch; b.Fail == 0 && healthy && j.p.Sched.StallP == 0 && w.FlCloseInv == 0 && (mb == 0 && total <= 1<<20 || mb > 0 && total <= mb) {
		split:
			for _, x := range seqs {
				for _, y := range seqs {
					if els[y.i].bi >= els[x.i].bi+2 && y.c.TRet-x.c.TInv < b.Every {
						j.v("C18", "batch-split", "conn %d: messages %s and %s, accepted at %dms and %dms, are two batches apart although the flush interval is %dms and the batches hold %d bytes in all", ci, short(opData(x.c.Op)), short(opData(y.c.Op)), x.c.TInv/ms, y.c.TRet/ms, b.Every/ms, total)
						break split
					}
				}
			}
		}
		sort.Slice(seqs, func(a, b int) bool { return seqs[a].i < seqs[b].i })
		mi := int64(0)
		for _, x := range seqs {
			if x.c.Ret < mi {
				j.v("C18", "batch-order", "conn %d: message %s was accepted before a message that is delivered earlier", ci, short(opData(x.c.Op)))
				break
			}
			mi = max(mi, x.c.Inv)
		}
		_ = cs
	}
	for _, e := range w.Custom {
		if len(e.Msgs) == 0 {
			j.v("C18", "batch-empty", "conn %d: the custom sender was called without messages", e.C)
		}
	}
}

// ---- upgrades (C19) ----

func (j *judge) upgrades() {
	w := j.w
	for ci, cs := range w.C {
		rw := cs.rw
		if rw == nil || cs.upInv == 0 {
			continue
		}
		j.ct++
		ncon := len(j.evs("connect", ci))
		if len(rw.Status) > 1 {
			j.v("C19", "two-responses", "conn %d: %d HTTP responses were written: %v", ci, len(rw.Status), rw.Status)
		}
		if rw.Post > 0 {
			j.v("C19", "after-takeover", "conn %d: the response writer was used after the connection was taken over", ci)
		}
		if !cs.upDone {
			continue
		}
		proto, protoBad := j.expectProto(cs)
		var mws []int
		for _, e := range w.mwRuns {
			if e.C == ci {
				mws = append(mws, e.Obj)
			}
		}
		for i, n := range mws {
			if i != n {
				j.v("C19", "mw-order", "conn %d: middlewares ran in the order %v", ci, mws)
				break
			}
		}
		want := 0
		failAt := -1
		why := ""
		switch {
		case cs.p.BadReq != "":
			want, why = -1, "bad request "+cs.p.BadReq
		case protoBad:
			want, why = -1, "no common subprotocol"
		default:
			for i, m := range w.p.MW {
				if (m.Conn == -1 || m.Conn == ci) && m.Kind != "ok" {
					failAt = i
					want, why = -1, "middleware"
					if m.Kind == "code" {
						want = m.Code
					}
					break
				}
			}
			if want == 0 && cs.p.HijackErr {
				want, why = -1, "takeover failure"
			}
		}
		if want != 0 {
			if cs.upErr == "" {
				j.v("C19", "accepted", "conn %d: the upgrade succeeded despite: %s", ci, why)
				continue
			}
			if len(rw.Status) != 1 || rw.Status[0] < 400 || want > 0 && rw.Status[0] != want {
				j.v("C19", "status", "conn %d: refused (%s) with the HTTP responses %v (expected %d)", ci, why, rw.Status, want)
			}
			if rw.Hij > 0 {
				j.v("C19", "takeover", "conn %d: the connection was taken over although the request was refused (%s)", ci, why)
			}
			if ncon > 0 {
				j.v("C19", "connect-hook", "conn %d: the connect hook ran although the request was refused (%s)", ci, why)
			}
			if len(cs.link.Accepted) > 0 {
				j.v("C19", "bytes", "conn %d: bytes were written to the transport of a refused request", ci)
			}
			if failAt >= 0 && len(mws) != failAt+1 || failAt < 0 && why != "takeover failure" && len(mws) > 0 {
				j.v("C19", "mw-count", "conn %d: refused (%s at %d) after running the middlewares %v", ci, why, failAt, mws)
			}
			continue
		}
		if len(rw.Status) > 0 {
			j.v("C19", "status", "conn %d: an acceptable request got the HTTP response %v", ci, rw.Status)
			continue
		}
		if cs.upErr != "" {
			// only a transport failure may explain it
			fault := len(cs.link.Faulty) > 0 || cs.link.rrst
			if !fault {
				j.v("C19", "refused", "conn %d: an acceptable request was refused: %s", ci, cs.upErr)
			}
			if ncon > 0 {
				j.v("C19", "connect-hook", "conn %d: the connect hook ran although the upgrade failed: %s", ci, cs.upErr)
			}
			if !cs.link.Closed || cs.link.ClosedT > cs.upRetT+j.p.WW+j.slk {
				j.v("C19 C12", "failed-open", "conn %d: the upgrade failed after the takeover (%s) but the transport was still open afterwards", ci, cs.upErr)
			}
			for _, e := range w.Evs {
				if e.C == ci && (e.K == "register" || e.K == "join") {
					j.v("C19", "failed-registered", "conn %d: registered although the upgrade failed", ci)
				}
			}
			continue
		}
		if ncon != 1 && !j.p.noHook("c") {
			j.v("C19", "connect-hook", "conn %d: the connect hook ran %d times", ci, ncon)
		}
		if len(mws) != len(w.p.MW) {
			j.v("C19", "mw-skipped", "conn %d: accepted after running only the middlewares %v of %d", ci, mws, len(w.p.MW))
		}
		for _, e := range w.mwRuns {
			if e.C == ci && e.Seq > rw.HijSeq {
				j.v("C19", "mw-late", "conn %d: middleware %d ran after the takeover", ci, e.Obj)
			}
		}
		wr := j.wire[ci]
		if wr.RespEnd < 0 {
			j.v("C19", "response", "conn %d: the upgrade succeeded but the response is incomplete: %s", ci, short(wr.Resp))
			continue
		}
		j.response(ci, string(wr.Resp), proto)
		if ncon == 1 && j.evs("connect", ci)[0].N < wr.RespEnd {
			j.v("C19", "hook-early", "conn %d: the connect hook ran before the complete response was written", ci)
		}
		if cs.conn != nil && cs.conn.SubProtocol != proto {
			j.v("C19", "subprotocol", "conn %d: subprotocol %q, expected %q", ci, cs.conn.SubProtocol, proto)
		}
	}
}

func (j *judge) expectProto(cs *CS) (string, bool) {
	for _, p := range strings.Split(cs.p.Proto, ",") {
		p = strings.TrimSpace(p)
		if p != "" && slices.Contains(j.p.Subs, p) {
			return p, false
		}
	}
	return "", j.p.RejectRaw
}

func (j *judge) response(ci int, resp, proto string) {
	ls := strings.Split(strings.TrimSuffix(resp, "\r\n\r\n"), "\r\n")
	h := map[string][]string{}
	for _, l := range ls[1:] {
		k, v, ok := strings.Cut(l, ":")
		if !ok {
			j.v("C19", "response", "conn %d: malformed response line %q", ci, l)
			return
		}
		k = strings.ToLower(k)
		h[k] = append(h[k], strings.TrimSpace(v))
	}
	sum := sha1.Sum([]byte(j.w.C[ci].p.key() + "258EAFA5-E914-47DA-95CA-C5AB0DC85B11"))
	acc := base64.StdEncoding.EncodeToString(sum[:])
	f := strings.Fields(ls[0])
	one := func(k string) string {
		if len(h[k]) != 1 {
			return fmt.Sprint(h[k])
		}
		return h[k][0]
	}
	switch {
	case len(f) < 2 || f[0] != "HTTP/1.1" || f[1] != "101":
		j.v("C19", "response", "conn %d: status line %q", ci, ls[0])
	case !strings.EqualFold(one("upgrade"), "websocket") || !strings.EqualFold(one("connection"), "upgrade"):
		j.v("C19", "response", "conn %d: response headers %v", ci, h)
	case one("sec-websocket-accept") != acc:
		j.v("C19", "response", "conn %d: accept key %v, expected %s", ci, h["sec-websocket-accept"], acc)
	case proto == "" && len(h["sec-websocket-protocol"]) > 0, proto != "" && one("sec-websocket-protocol") != proto:
		j.v("C19", "response", "conn %d: subprotocol header %v, expected %q", ci, h["sec-websocket-protocol"], proto)
	}
}

// missedSome: there may have been a member for which broadcast c was not queued.
func (j *judge) missedSome(c *Call) bool {
	if c.Ret == 0 {
		return true
	}
	n := 0
	for ci := range j.w.C {
		if j.member(c, ci) >= 0 && (!j.excluded(c, ci) || j.exclLate(c, ci)) {
			n++
		}
	}
	return c.N < n
}
