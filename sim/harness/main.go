package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strings"
	"time"

	"verif/simrt"

	_ "verif/gen/sites"
)

// Replay is a violation (or any run) in reproducible form.
type Replay struct {
	Property string      `json:"property"`
	Viol     Viol        `json:"violation"`
	Others   []Viol      `json:"also,omitempty"`
	Index    int64       `json:"index"`
	Hash     string      `json:"hash"`
	Race     bool        `json:"race,omitempty"`
	Plan     *Plan       `json:"plan"`
	Sched    simrt.Sched `json:"sched"`
	Minim    string      `json:"minimised,omitempty"`
	Trace    []string    `json:"trace,omitempty"`
}

type result struct {
	w     *World
	s     *simrt.Sim
	viols []Viol
	hash  uint64
}

var traceOn bool

func runPlan(p *Plan, rec *simrt.Sched) *result {
	var s *simrt.Sim
	if rec != nil {
		s = simrt.NewReplay(*rec, p.Sched)
	} else {
		s = simrt.New(p.SSeed, p.Sched)
	}
	s.TraceOn = traceOn
	w := newWorld(p)
	w.s = s
	s.Run(w.main)
	r := &result{w: w, s: s}
	if p.Prop == "C12" && s.Reason == "end" && len(s.Panics) == 0 && p.Final != "none" && len(w.Live) == 0 {
		w.memory()
	}
	r.viols = judgeRun(w)
	r.hash = s.Hash
	return r
}

// memory finds connections the library still references although they are closed and the application let go of them.
func (w *World) memory() {
	var chk []int
	for _, cs := range w.C {
		closed := cs.hasWP && cs.link.Closed && cs.upDone
		cs.conn, cs.mc, cs.mc2 = nil, nil, nil
		cs.rw.br = nil
		if closed {
			chk = append(chk, cs.id)
		}
	}
	if len(chk) == 0 {
		return
	}
	gs := w.s.Goroutines()
	w.s.Release()
	for _, g := range gs {
		g.Drop()
	}
	w.ctx, w.hookD = nil, nil
	left := func() (out []int) {
		for _, i := range chk {
			if w.C[i].wp.Value() != nil {
				out = append(out, i)
			}
		}
		return
	}
	for k := 0; k < 3; k++ {
		runtime.GC()
		if len(left()) == 0 {
			return
		}
	}
	w.MemLeft = left()
	runtime.KeepAlive(w.Up)
	runtime.KeepAlive(w.Mgr)
	runtime.KeepAlive(w.RM)
	runtime.KeepAlive(w.Mgr2)
	runtime.KeepAlive(w.RM2)
}

func matching(prop string, vs []Viol) (out []Viol) {
	for _, v := range vs {
		for _, p := range v.Props {
			if p == prop || p == "*" || p == "!" {
				out = append(out, v)
				break
			}
		}
	}
	return
}

func harnessFault(vs []Viol) bool {
	for _, v := range vs {
		if len(v.Props) > 0 && v.Props[0] == "!" {
			return true
		}
	}
	return false
}

type known struct{ prop, kind, match, what string }

func loadKnown(f string) (out []known) {
	b, err := os.ReadFile(f)
	if err != nil {
		return nil
	}
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		k := known{what: l}
		for _, t := range strings.Fields(l) {
			if s, ok := strings.CutPrefix(t, "property="); ok {
				k.prop = s
			}
			if s, ok := strings.CutPrefix(t, "kind="); ok {
				k.kind = s
			}
			if s, ok := strings.CutPrefix(t, "match="); ok {
				k.match = strings.ReplaceAll(s, "~", " ")
			}
		}
		if k.prop != "" && k.kind != "" {
			out = append(out, k)
		}
	}
	return
}

func runSeed(prop string, base uint64, i int64) uint64 {
	h := fnv.New64a()
	fmt.Fprintf(h, "%s/%d/%d", prop, base, i)
	return h.Sum64() >> 11
}

// Stats is what a worker reports.
type Stats struct {
	Runs     int64            `json:"runs"`
	Next     int64            `json:"next"`
	SimNs    int64            `json:"sim_ns"`
	Switch   int64            `json:"switches"`
	Pre      int64            `json:"preemptions"`
	Stall    int64            `json:"stalls"`
	Steps    int64            `json:"steps"`
	Checks   int64            `json:"checks"`
	Calls    int64            `json:"calls"`
	Reads    int64            `json:"reads"`
	Frames   int64            `json:"frames"`
	Bytes    int64            `json:"bytes"`
	Gor      int64            `json:"goroutines"`
	Faults   map[string]int64 `json:"faults"`
	FRuns    map[string]int64 `json:"fault_runs"`
	Viols    []string         `json:"viols"`
	Known    map[string]int64 `json:"known"`
	Fault    string           `json:"fault,omitempty"`
	WallMs   int64            `json:"wall_ms"`
	Hashes   []uint64         `json:"hashes"`
	Pairs    []uint64         `json:"pairs"`
	VirtJump int64            `json:"-"`
}

func fatal(f string, a ...any) {
	fmt.Fprintf(os.Stderr, f+"\n", a...)
	os.Exit(3)
}

func writeJSON(f string, v any) {
	b, err := json.MarshalIndent(v, "", " ")
	if err == nil {
		err = os.WriteFile(f, b, 0o644)
	}
	if err != nil {
		fatal("%v", err)
	}
}

func readReplay(f string) *Replay {
	b, err := os.ReadFile(f)
	if err != nil {
		fatal("%v", err)
	}
	r := &Replay{}
	if err := json.Unmarshal(b, r); err != nil {
		fatal("%s: %v", f, err)
	}
	return r
}

func cloneRec(r simrt.Sched) simrt.Sched {
	return simrt.Sched{Preempts: append([]simrt.Preempt(nil), r.Preempts...), Choices: append([]simrt.Choice(nil), r.Choices...)}
}

func cmdRun(args []string, out *os.File) {
	fs := flag.NewFlagSet("run", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	base := fs.Uint64("seed", 1, "")
	from := fs.Int64("from", 0, "")
	step := fs.Int64("step", 1, "")
	n := fs.Int64("n", 1000, "")
	maxsec := fs.Float64("maxsec", 1e9, "")
	dir := fs.String("dir", ".", "")
	kf := fs.String("known", "", "")
	keep := fs.Int("keep", 1, "stop after so many violations")
	hashes := fs.Bool("hashes", false, "")
	fs.Parse(args)
	if f := os.Getenv("VERIF_PROFILE"); f != "" {
		pf, _ := os.Create(f)
		pprof.StartCPUProfile(pf)
		defer pprof.StopCPUProfile()
	}
	ks := loadKnown(*kf)
	st := &Stats{Faults: map[string]int64{}, FRuns: map[string]int64{}, Known: map[string]int64{}}
	simrt.Pairs = map[uint64]struct{}{}
	t0 := time.Now()
	seen := map[uint64]bool{}
	i := *from
	for ; st.Runs < *n; i += *step {
		if time.Since(t0).Seconds() > *maxsec {
			break
		}
		p := genPlan(*prop, runSeed(*prop, *base, i))
		r := runPlan(p, nil)
		st.Runs++
		st.SimNs += r.s.Now
		st.Switch += int64(r.s.Switch)
		st.Pre += int64(r.s.NPre)
		st.Stall += int64(r.s.NStall)
		st.Steps += r.s.Total()
		st.Checks += int64(r.w.Checks)
		st.Calls += int64(len(r.w.Calls))
		for _, cs := range r.w.C {
			st.Reads += int64(len(cs.Recv))
			st.Frames += int64(len(cs.link.WCalls))
			st.Bytes += int64(cs.link.Sent)
		}
		for k, v := range r.w.Faults {
			st.Faults[k] += int64(v)
			st.FRuns[k]++
		}
		if r.s.NStall > 0 {
			st.Faults["stalled-goroutine"] += int64(r.s.NStall)
			st.FRuns["stalled-goroutine"]++
		}
		if r.w.Checks > 0 {
			seen[r.hash] = true
		}
		if *hashes {
			fmt.Fprintf(out, "H %d %x\n", i, r.hash)
		}
		vs := matching(*prop, r.viols)
		if len(vs) == 0 {
			continue
		}
		if harnessFault(vs) {
			st.Fault = fmt.Sprintf("run %d: %s", i, vs[0].Msg)
			f := fmt.Sprintf("%s/fault-%d.json", *dir, i)
			writeJSON(f, &Replay{Property: *prop, Viol: vs[0], Index: i, Hash: fmt.Sprintf("%x", r.hash), Race: simrt.RaceOn, Plan: p, Sched: cloneRec(r.s.Rec)})
			break
		}
		var v *Viol
		for x := range vs {
			isK := false
			for _, k := range ks {
				if k.prop == *prop && k.kind == vs[x].Kind && strings.Contains(vs[x].Msg, k.match) {
					isK = true
					st.Known[k.what]++
				}
			}
			if !isK && v == nil {
				v = &vs[x]
			}
		}
		if v == nil {
			continue
		}
		f := fmt.Sprintf("%s/viol-%s-%d.json", *dir, *prop, i)
		writeJSON(f, &Replay{Property: *prop, Viol: *v, Others: vs, Index: i, Hash: fmt.Sprintf("%x", r.hash), Race: simrt.RaceOn, Plan: p, Sched: cloneRec(r.s.Rec)})
		st.Viols = append(st.Viols, f)
		if len(st.Viols) >= *keep {
			i += *step
			break
		}
	}
	st.Next = i
	st.WallMs = time.Since(t0).Milliseconds()
	for h := range seen {
		st.Hashes = append(st.Hashes, h>>11)
	}
	for h := range simrt.Pairs {
		st.Pairs = append(st.Pairs, h)
	}
	b, _ := json.Marshal(st)
	fmt.Fprintf(out, "S %s\n", b)
}

func cmdReplay(args []string, out *os.File) {
	fs := flag.NewFlagSet("replay", flag.ExitOnError)
	tr := fs.Bool("trace", false, "")
	gen := fs.Bool("gen", false, "regenerate the plan from its seed instead of replaying")
	fs.Parse(args)
	rp := readReplay(fs.Arg(0))
	traceOn = *tr
	var r *result
	if *gen {
		r = runPlan(genPlan(rp.Plan.Prop, rp.Plan.Seed), nil)
	} else {
		r = runPlan(rp.Plan, &rp.Sched)
	}
	if *tr {
		for _, l := range describe(r) {
			fmt.Fprintln(out, l)
		}
	}
	vs := matching(rp.Property, r.viols)
	same := false
	for _, v := range vs {
		fmt.Fprintf(out, "V %v %s: %s\n", v.Props, v.Kind, v.Msg)
		same = same || v.Kind == rp.Viol.Kind
	}
	for _, v := range r.viols {
		if *tr && len(matching(rp.Property, []Viol{v})) == 0 {
			fmt.Fprintf(out, "(other) %v %s: %s\n", v.Props, v.Kind, v.Msg)
		}
	}
	fmt.Fprintf(out, "hash %x expected %s\n", r.hash, rp.Hash)
	if same && fmt.Sprintf("%x", r.hash) == rp.Hash {
		fmt.Fprintln(out, "REPRODUCED exactly")
		os.Exit(1)
	}
	if same {
		fmt.Fprintln(out, "REPRODUCED with a different trace")
		os.Exit(4)
	}
	fmt.Fprintln(out, "NOT REPRODUCED")
}

// cmdDet runs each index three times (fresh, fresh, recorded schedule) and compares the trace hashes.
func cmdDet(args []string, out *os.File) {
	fs := flag.NewFlagSet("det", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	base := fs.Uint64("seed", 1, "")
	n := fs.Int64("n", 20, "")
	from := fs.Int64("from", 0, "")
	fs.Parse(args)
	bad := 0
	for i := *from; i < *from+*n; i++ {
		seed := runSeed(*prop, *base, i)
		a := runPlan(genPlan(*prop, seed), nil)
		rec := cloneRec(a.s.Rec)
		b := runPlan(genPlan(*prop, seed), nil)
		c := runPlan(genPlan(*prop, seed), &rec)
		if a.hash != b.hash || a.hash != c.hash {
			bad++
			fmt.Fprintf(out, "D %d differs: %x %x %x\n", i, a.hash, b.hash, c.hash)
		}
		fmt.Fprintf(out, "H %d %x\n", i, a.hash)
	}
	fmt.Fprintf(out, "DET runs=%d differing=%d\n", *n, bad)
	if bad > 0 {
		os.Exit(4)
	}
}

func describe(r *result) []string {
	type line struct {
		seq, t int64
		s      string
	}
	var ls []line
	w := r.w
	for _, c := range w.Calls {
		ls = append(ls, line{c.Inv, c.TInv, fmt.Sprintf("%s calls %s conn=%d obj=%d %s", c.Who, c.K, c.C, c.Obj, opBrief(c.Op))})
		if c.Ret > 0 {
			ls = append(ls, line{c.Ret, c.TRet, fmt.Sprintf("%s: %s conn=%d obj=%d returns n=%d err=%q %v %v", c.Who, c.K, c.C, c.Obj, c.N, c.Err, c.List, c.Keys)})
		} else {
			ls = append(ls, line{1 << 60, w.s.Now, fmt.Sprintf("%s: %s conn=%d never returned", c.Who, c.K, c.C)})
		}
	}
	for _, e := range w.Evs {
		ls = append(ls, line{e.Seq, e.T, fmt.Sprintf("hook %s conn=%d obj=%d key=%s n=%d %s", e.K, e.C, e.Obj, e.Key, e.N, e.Arg)})
	}
	for ci, cs := range w.C {
		ls = append(ls, line{cs.upInv, cs.upInvT, fmt.Sprintf("conn %d (%s %s) upgrade starts", ci, cs.p.Via, cs.p.Key)})
		if cs.upRet > 0 {
			ls = append(ls, line{cs.upRet, cs.upRetT, fmt.Sprintf("conn %d upgrade returns room=%d err=%q", ci, cs.room, cs.upErr)})
		}
		for _, x := range cs.Recv {
			ls = append(ls, line{x.Inv, x.TInv, fmt.Sprintf("conn %d read (%s)", ci, x.API)})
			if x.Ret > 0 {
				ls = append(ls, line{x.Ret, x.TRet, fmt.Sprintf("conn %d read (%s) returns %d bytes complete=%v err=%q %s", ci, x.API, len(x.Data), x.Complete, x.Err, short(x.Data))})
			}
		}
		for i := range cs.link.WCalls {
			x := &cs.link.WCalls[i]
			ls = append(ls, line{x.Seq, x.T, fmt.Sprintf("conn %d transport write by %s of %d at %d: wrote %d err=%q (ended %dms)", ci, x.G, x.Want, x.Off, x.N, x.Err, x.EndT/ms)})
		}
		if cs.link.Closed {
			ls = append(ls, line{cs.link.ClosedSeq, cs.link.ClosedT, fmt.Sprintf("conn %d transport closed", ci)})
		}
		for _, m := range cs.Sent {
			ls = append(ls, line{-1, m.T, fmt.Sprintf("conn %d client sends %s %s bytes %d..%d %s", ci, m.K, m.BadK, m.Off, m.End, short(m.Payload))})
		}
		for _, x := range cs.link.RSeqs {
			ls = append(ls, line{x.Seq, x.T, fmt.Sprintf("conn %d client bytes %d..%d arrive", ci, x.Off, x.Off+x.N)})
		}
	}
	ls = append(ls, line{w.FinalSeq, w.FinalT, "final phase"})
	sort.SliceStable(ls, func(a, b int) bool {
		if ls[a].t != ls[b].t {
			return ls[a].t < ls[b].t
		}
		return ls[a].seq < ls[b].seq
	})
	var out []string
	for _, l := range ls {
		out = append(out, fmt.Sprintf("%10.3fms #%d %s", float64(l.t)/1e6, l.seq, l.s))
	}
	return out
}

func opBrief(o *Op) string {
	if o == nil {
		return ""
	}
	b, _ := json.Marshal(o)
	return string(b)
}

func main() {
	out := os.Stdout
	if null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		os.Stdout = null
	}
	debug.SetGCPercent(300)
	if len(os.Args) < 2 {
		fatal("usage: run|replay|min|det ...")
	}
	switch os.Args[1] {
	case "run":
		cmdRun(os.Args[2:], out)
	case "replay":
		cmdReplay(os.Args[2:], out)
	case "min":
		cmdMin(os.Args[2:], out)
	case "det":
		cmdDet(os.Args[2:], out)
	case "plan":
		fs := flag.NewFlagSet("plan", flag.ExitOnError)
		prop := fs.String("prop", "", "")
		base := fs.Uint64("seed", 1, "")
		i := fs.Int64("i", 0, "")
		fs.Parse(os.Args[2:])
		b, _ := json.MarshalIndent(genPlan(*prop, runSeed(*prop, *base, *i)), "", " ")
		fmt.Fprintln(out, string(b))
	default:
		fatal("unknown command %s", os.Args[1])
	}
}
