package main

import (
	"bufio"
	"encoding/base64"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net/http"
	"net/textproto"
	"slices"
	"strings"
	"weak"

	snapws "verif/gen/snapws"
	"verif/shim/context"
	"verif/shim/time"
	"verif/simrt"
)

// Call is one application call into the library.
type Call struct {
	K, Who, Hook string
	C            int
	Op           *Op
	Inv, Ret     int64 // event numbers; Ret 0: never returned
	TInv, TRet   int64
	Err          string
	EK           byte // 0 nil, 'f' fatal, 'c' context, 'n' other
	N            int
	CtxEnd       int64 // simulated time at which the context was done, -1: never
	List         []int
	Keys         []string
	ExUsed       []int  // connections a listing was told to leave out
	Args         string // arguments for the room hooks
	Obj          int    // conn or room instance (-1 none)
	Began        bool
	WErr         bool // a Write or Flush of a stream failed
	Cut          int  // >0: the application gave up after a failed Flush and ended the message after Cut-1 bytes
	G            string
	Skip         bool
	WS, WE       int // write call index range (on C's link) during the call
}

// Ev is a hook invocation or another harness event.
type Ev struct {
	K   string
	C   int
	Obj int
	Key string
	Seq int64
	T   int64
	N   int
	Arg string
}

// Recv is one read call of the application.
type Recv struct {
	Inv, Ret   int64
	TInv, TRet int64
	API        string
	Type       byte
	Data       []byte
	Complete   bool
	Abandoned  bool
	Err        string
	EK         byte
	Mismatch   bool
	Limited    bool
	Post       bool // performed after a fatal error
	JSONOK     bool
}

// CMsg is one item the client put on the wire.
type CMsg struct {
	K       string // msg ping pong close bad
	ID      int
	Ty      byte
	Payload []byte
	Off     int
	End     int // offset after the last byte, -1: not completely sent
	HdrEnd  int // offset after the first frame's header (before key)
	Frags   int
	T       int64
	Codes   []int // expected close codes (close, bad)
	Reason  string
	BadK    string
	// a bad sequence that starts with a valid first fragment, whose content is Payload
	FirstPart bool
	First     int // offset where the offence becomes visible
}

type CS struct {
	w    *World
	id   int
	p    *ConnPlan
	link *Link
	rw   *respWriter
	vc   simrt.VC

	conn  *snapws.Conn
	mc    *snapws.ManagedConn[string]
	mc2   *snapws.ManagedConn[string] // in the second manager
	wp    weak.Pointer[snapws.Conn]
	hasWP bool
	upErr string

	upInv, upRet, upInvT, upRetT int64
	upDone                       bool
	upQ                          simrt.WaitQ
	room                         int

	Recv         []*Recv
	RdEnd        bool
	Sent         []*CMsg
	cmu          cliMutex
	cliDone      bool // script finished
	pongs        bool
	nPinged      int
	gotResp      bool
	respQ        simrt.WaitQ
	Closing      bool // client sent a close frame
	SilentT      int64
	cliCloseSeen bool
	FatalT       int64 // first fatal result on this connection
	FatalS       int64
	weird        string
	StopT        int64
	StopForever  bool
}

type cliMutex struct {
	held bool
	q    simrt.WaitQ
}

func (m *cliMutex) lock() {
	for m.held {
		m.q.Wait("client frame lock", 0)
	}
	m.held = true
}
func (m *cliMutex) unlock() { m.held = false; m.q.WakeOne() }

type World struct {
	badArg                           string
	p                                *Plan
	s                                *simrt.Sim
	seq                              int64
	Faults                           map[string]int
	Up                               *snapws.Upgrader
	Mgr                              *snapws.Manager[string]
	RM                               *snapws.RoomManager[string]
	Mgr2                             *snapws.Manager[string]
	RM2                              *snapws.RoomManager[string]
	own                              []int // rooms with their own hooks
	C                                []*CS
	Calls                            []*Call
	Evs                              []*Ev
	rooms                            map[*snapws.Room[string]]int
	roomK                            []string
	roomP                            []*snapws.Room[string]
	ctx                              map[*simrt.G]string // hook a goroutine currently runs in
	hookN                            int
	hookD                            map[*simrt.G]int
	flCtx                            context.Context
	flStop                           func()
	FlCloseInv, FlCloseRet, FlCloseT int64
	OldOpen                          bool // the flusher that was replaced is not closed
	FlCtxT                           int64
	Custom                           []*Ev2
	actsLeft                         int
	doneQ                            simrt.WaitQ
	baseG                            int
	EndT                             int64
	FinalSeq                         int64
	FinalT                           int64
	Live                             []string // library goroutines still alive at the end
	Snap                             map[string][]int
	SnapDone                         bool
	Pre                              *Snapshot
	Post                             *Snapshot
	SawReason                        string
	MemLeft                          []int
	mwRuns                           []*Ev
	LimHits                          []*Ev
	PoolReuse                        int
	Checks                           int
}

type Ev2 struct {
	C    int
	Seq  int64
	T    int64
	Msgs [][]byte

	Failed bool // refused by the application's sender
}

type Snapshot struct {
	Done  bool
	Mgr   []int
	Mgr2  []int
	Keys  []string
	Rooms map[int][]int // room instance -> members
	RKeys []string
	From  int64 // the listings are taken one after the other in this window
	Seq   int64
}

func (w *World) tick() int64 { w.seq++; return w.seq }
func (w *World) fault(k string) {
	w.Faults[k]++
}

func (w *World) ev(k string, c, obj int, key string) *Ev {
	e := &Ev{K: k, C: c, Obj: obj, Key: key, Seq: w.tick(), T: simrt.S.Now}
	w.Evs = append(w.Evs, e)
	simrt.S.MixStr(k)
	simrt.S.Mix(uint64(c)<<8 ^ uint64(obj) ^ uint64(e.T))
	return e
}

func (w *World) idOf(c *snapws.Conn) int {
	if c == nil {
		return -1
	}
	if l, ok := c.NetConn().(*Link); ok {
		return l.id
	}
	return -2
}

// rm returns the room manager and the key in it that a key of the plan stands for.
func (w *World) rm(key string) (*snapws.RoomManager[string], string) {
	if k, ok := strings.CutPrefix(key, "2:"); ok {
		return w.RM2, k
	}
	return w.RM, key
}

func (w *World) roomID(r *snapws.Room[string], m *snapws.RoomManager[string]) int {
	if r == nil {
		return -1
	}
	if id, ok := w.rooms[r]; ok {
		return id
	}
	id := len(w.roomP)
	w.rooms[r] = id
	w.roomP = append(w.roomP, r)
	k := r.Key
	if m == w.RM2 && m != nil {
		k = "2:" + k
	}
	w.roomK = append(w.roomK, k)
	return id
}

func newWorld(p *Plan) *World {
	return &World{p: p, Faults: map[string]int{}, rooms: map[*snapws.Room[string]]int{}, ctx: map[*simrt.G]string{}, hookD: map[*simrt.G]int{}, FlCtxT: -1, FlCloseT: -1, Snap: map[string][]int{}}
}

// hook runs the plan's re-entrant calls of a hook.
func (w *World) hook(name string, c *snapws.Conn) {
	ops := w.p.Hooks[name]
	if len(ops) == 0 {
		return
	}
	g := simrt.Cur()
	if w.hookD[g] >= 2 || w.hookN >= 24 {
		return
	}
	w.hookN++
	w.hookD[g]++
	old := w.ctx[g]
	w.ctx[g] = name
	for i := range ops {
		op := ops[i]
		if op.C < 0 {
			op.C = w.idOf(c)
		}
		w.exec(&op, "hook:"+name)
	}
	w.ctx[g] = old
	w.hookD[g]--
}

func (w *World) setup() {
	p := w.p
	o := &snapws.Options{
		WriteWait: time.Duration(p.WW), ReadWait: time.Duration(p.RW), PingEvery: time.Duration(p.PE),
		MaxMessageSize: p.MaxMsg, ReaderMaxFragments: p.MaxFrag, ReadBufferSize: p.RBuf, WriteBufferSize: p.WBuf,
		DisableWriteBuffersPooling: p.NoPool, BroadcastChannelsSize: p.BQ, BroadcastBackpressure: snapws.BackpressureStrategy(p.BP),
		SkipUTF8Validation: p.SkipUTF8, MaxBatchSize: p.MaxBatch, SubProtocols: p.Subs, RejectRaw: p.RejectRaw,
	}
	if p.Dflt&1 != 0 {
		o.WriteWait = 0
	}
	if p.Dflt&2 != 0 {
		o.ReadWait = 0
	}
	if p.Dflt&4 != 0 {
		o.PingEvery = 0
	}
	o.OnConnect = func(c *snapws.Conn) {
		id := w.idOf(c)
		e := w.ev("connect", id, 0, "")
		if id >= 0 {
			cs := w.C[id]
			e.N = len(cs.link.Accepted)
			if cs.conn == nil {
				cs.conn = c
				simrt.Rel(&cs.vc)
			}
		}
		w.hook("connect", c)
		w.ev("connect-end", id, 0, "")
	}
	o.OnDisconnect = func(c *snapws.Conn) {
		w.ev("disconnect", w.idOf(c), 0, "")
		w.hook("disconnect", c)
		w.ev("disconnect-end", w.idOf(c), 0, "")
	}
	if p.noHook("c") {
		o.OnConnect = nil
	}
	if p.noHook("d") {
		o.OnDisconnect = nil
	}
	w.Up = snapws.NewUpgrader(o)
	for i := range p.MW {
		m := p.MW[i]
		n := i
		w.Up.Use(func(rw http.ResponseWriter, r *http.Request) error {
			id := reqConn(r)
			e := w.ev("mw", id, n, "")
			w.mwRuns = append(w.mwRuns, e)
			if m.Delay > 0 {
				simrt.Sleep(m.Delay)
			}
			if m.Conn >= 0 && m.Conn != id {
				return nil
			}
			switch m.Kind {
			case "err":
				e.Arg = "err"
				return errors.New("middleware says no")
			case "code":
				e.Arg = "code"
				return snapws.NewMiddlewareErr(m.Code, "refused")
			}
			return nil
		})
	}
	if l := p.Lim; l != nil {
		w.Up.Limiter = snapws.NewRateLimiter(l.MPS, l.Burst)
		if l.Hook != "none" {
			w.Up.Limiter.OnRateLimitHit = func(c *snapws.Conn) error {
				e := w.ev("limit", w.idOf(c), 0, "")
				w.LimHits = append(w.LimHits, e)
				w.hook("limit", c)
				switch l.Hook {
				case "close":
					c.CloseWithCode(snapws.ClosePolicyViolation, "rate limit")
					return errors.New("limit: closed")
				case "err":
					return errors.New("limit: refused")
				}
				return nil
			}
		}
	}
	if b := p.Batch; b != nil {
		switch b.Again {
		case 1:
			w.Up.EnableJSONBatching(nil, time.Duration(b.Every)) //nolint
		case 2:
			w.Up.EnablePrefixBatching(context.Background(), time.Duration(b.Every))
		case 3:
			w.Up.EnableBatching(context.Background(), time.Duration(b.Every), nil)
		}
		old := w.Up.Flusher
		every := time.Duration(b.Every)
		if b.Dflt {
			every = 0
		}
		w.flCtx, w.flStop = context.WithCancel(context.Background())
		ctx := w.flCtx
		if b.NilCtx {
			ctx, w.flStop = nil, nil
		}
		switch b.Strat {
		case "json":
			w.Up.EnableJSONBatching(ctx, every)
		case "prefix":
			w.Up.EnablePrefixBatching(ctx, every)
		default:
			w.Up.EnableBatching(ctx, every, func(ctx context.Context, c *snapws.Conn, ms [][]byte) error {
				e := &Ev2{C: w.idOf(c), Seq: w.tick(), T: simrt.S.Now}
				out := []byte{'['}
				for i, m := range ms {
					e.Msgs = append(e.Msgs, append([]byte(nil), m...))
					if i > 0 {
						out = append(out, ',')
					}
					out = append(out, m...)
				}
				w.Custom = append(w.Custom, e)
				if b.Fail > 0 && len(w.Custom)%b.Fail == 0 {
					e.Failed = true
					w.fault("batch-refused")
					return errors.New("custom sender: refused")
				}
				return c.SendBytes(ctx, append(out, ']'))
			})
		}
		w.OldOpen = old != nil && !old.IsClosed()
		if b.Prefix {
			w.Up.Flusher.BatchPrefixFunc = func(c *snapws.Conn, l [][]byte) []byte { return p.Batch.pfx(w.idOf(c), len(l)) }
		}
		if b.Suffix {
			w.Up.Flusher.BatchSuffixFunc = func(c *snapws.Conn, l [][]byte) []byte { return p.Batch.sfx(w.idOf(c), len(l)) }
		}
	}
	w.Mgr = snapws.NewManager[string](w.Up)
	w.Mgr.OnRegister = func(c *snapws.ManagedConn[string]) {
		w.ev("register", w.idOf(c.Conn), 0, c.Key)
		w.hook("register", c.Conn)
	}
	w.Mgr.OnUnregister = func(c *snapws.ManagedConn[string]) {
		id := -1
		key := ""
		if c != nil {
			id, key = w.idOf(c.Conn), c.Key
		}
		w.ev("unregister", id, 0, key)
		if c != nil {
			w.hook("unregister", c.Conn)
		}
	}
	if p.noHook("r") {
		w.Mgr.OnRegister, w.Mgr.OnUnregister = nil, nil
	}
	w.RM = w.newRM()
	if p.Two {
		w.RM2 = w.newRM()
		w.Mgr2 = snapws.NewManager[string](w.Up)
		w.Mgr2.OnRegister = func(c *snapws.ManagedConn[string]) {
			w.ev("register2", w.idOf(c.Conn), 0, c.Key)
		}
		w.Mgr2.OnUnregister = func(c *snapws.ManagedConn[string]) {
			w.ev("unregister2", w.idOf(c.Conn), 0, c.Key)
		}
	}
	if p.OwnHook {
		// a room with hooks of its own
		for _, m := range []*snapws.RoomManager[string]{w.RM, w.RM2} {
			if m != nil {
				r := m.Add("r0")
				r.OnJoin, r.OnLeave = w.roomHooks(m, "own")
				w.own = append(w.own, w.roomID(r, m))
			}
		}
	}
}

func (w *World) roomHooks(m *snapws.RoomManager[string], key string) (join, leave func(r *snapws.Room[string], c *snapws.Conn, a ...any)) {
	mk := func(k string) func(r *snapws.Room[string], c *snapws.Conn, a ...any) {
		return func(r *snapws.Room[string], c *snapws.Conn, a ...any) {
			e := w.ev(k, w.idOf(c), w.roomID(r, m), key)
			e.N, e.Arg = len(a), fmt.Sprint(a...)
			for i := range a {
				v, ok := snapws.GetArg[string](a, i)
				if x, is := a[i].(string); ok != is || v != x {
					w.badArg = fmt.Sprintf("GetArg(%v, %d) returned %q, %v", a, i, v, ok)
				}
			}
			if _, ok := snapws.GetArg[string](a, len(a)); ok {
				w.badArg = fmt.Sprintf("GetArg(%v, %d) found an argument", a, len(a))
			}
			if _, ok := snapws.GetArg[chan int](a, 0); ok {
				w.badArg = fmt.Sprintf("GetArg[chan int](%v, 0) found an argument", a)
			}
			w.hook(k, c)
		}
	}
	return mk("join"), mk("leave")
}

func (w *World) newRM() *snapws.RoomManager[string] {
	m := snapws.NewRoomManager[string](w.Up)
	if !w.p.noHook("j") {
		m.DefaultOnJoin, m.DefaultOnLeave = w.roomHooks(m, "")
	}
	return m
}

func reqConn(r *http.Request) int {
	var id int
	fmt.Sscan(r.Header.Get("X-Conn"), &id)
	return id
}

// key is the Sec-WebSocket-Key of the request.
func (p *ConnPlan) key() string {
	if p.Nonce == 0 {
		return "dGhlIHNhbXBsZSBub25jZQ=="
	}
	r := simrt.NewRNG(p.Nonce)
	var b [16]byte
	for i := range b {
		b[i] = byte(r.U64())
	}
	return base64.StdEncoding.EncodeToString(b[:])
}

func (w *World) request(cs *CS) *http.Request {
	h := http.Header{}
	set := func(k, v string) { h[textproto.CanonicalMIMEHeaderKey(k)] = []string{v} }
	set("X-Conn", fmt.Sprint(cs.id))
	// header names and these tokens are case-insensitive, list elements may be surrounded by spaces
	set("Upgrade", []string{"websocket", "WebSocket", "WEBSOCKET", "h2c, websocket"}[cs.p.Hdr%4])
	set("Connection", []string{"keep-alive, Upgrade", "Upgrade", "upgrade", "keep-alive,Upgrade", "Upgrade , keep-alive", "close,keep-alive,\tUPGRADE", "Upgrade,x", "keep-alive, Upgrade"}[cs.p.Hdr%8])
	set("Sec-WebSocket-Version", "13")
	set("Sec-WebSocket-Key", cs.p.key())
	if cs.p.Proto != "" {
		set("Sec-WebSocket-Protocol", cs.p.Proto)
	}
	if cs.p.Hdr >= 8 {
		// a list may be spread over several header lines
		for _, k := range []string{"Connection", "Upgrade", "Sec-Websocket-Protocol"} {
			if len(h[k]) > 0 {
				h[k] = strings.Split(h[k][0], ",")
			}
		}
	}
	r := &http.Request{Method: "GET", Header: h, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1}
	switch cs.p.BadReq {
	case "method":
		r.Method = "POST"
	case "upgrade":
		set("Upgrade", "h2c")
	case "noupgrade":
		delete(h, "Upgrade")
	case "connection":
		set("Connection", "keep-alive")
	case "noconnection":
		delete(h, "Connection")
	case "version":
		set("Sec-WebSocket-Version", "8")
	case "noversion":
		h.Del("Sec-WebSocket-Version")
	case "key":
		set("Sec-WebSocket-Key", "c2hvcnQ=")
	case "nokey":
		h.Del("Sec-WebSocket-Key")
	}
	return r
}

func errKind(err error) (byte, string) {
	switch {
	case err == nil:
		return 0, ""
	case snapws.IsFatalErr(err):
		return 'f', err.Error()
	case errors.Is(err, context.Canceled) || errors.Is(err, context.DeadlineExceeded):
		return 'c', err.Error()
	}
	return 'n', err.Error()
}

// connArg is the argument for the room hooks given when connection id is added to its first room.
func connArg(id int) string { return fmt.Sprint("c", id) }

func (w *World) accept(cs *CS) {
	p := cs.p
	if p.At > 0 {
		simrt.Sleep(p.At)
	}
	cs.link.OpenT = simrt.S.Now
	for i := 0; i < p.Early && i < len(p.Client); i++ {
		w.cop(cs, &p.Client[i], true)
	}
	br := bufio.NewReaderSize(cs.link, max(p.HBuf, 16))
	if cs.link.Deliv > 0 {
		br.Peek(1)
		w.fault("early-data")
	}
	cs.rw = &respWriter{w: w, ci: cs.id, link: cs.link, hdr: http.Header{}, br: br, p: p}
	req := w.request(cs)
	simrt.Spawn(fmt.Sprintf("cli%d", cs.id), func() { w.client(cs) })
	simrt.Spawn(fmt.Sprintf("crx%d", cs.id), func() { w.clientRecv(cs) })
	cs.upInv, cs.upInvT = w.tick(), simrt.S.Now
	var c *snapws.Conn
	var mc *snapws.ManagedConn[string]
	var err error
	cs.room = -1
	simrt.Point()
	switch p.Via {
	case "mgr":
		if p.Reg > 0 {
			// the same in two steps
			if c, err = w.Up.Upgrade(cs.rw, req); err == nil {
				if p.Reg > 1 {
					simrt.Sleep(int64(p.Reg))
				}
				mc = &snapws.ManagedConn[string]{Conn: c, Key: p.Key, Manager: w.Mgr}
				w.Mgr.Register(p.Key, mc)
			}
			break
		}
		mc, err = w.Mgr.Connect(p.Key, cs.rw, req)
		if mc != nil {
			c = mc.Conn
		}
	case "room":
		var rm *snapws.Room[string]
		m, k := w.rm(p.Key)
		c, rm, err = m.Connect(cs.rw, req, k, connArg(cs.id))
		if rm != nil {
			cs.room = w.roomID(rm, m)
		}
	default:
		c, err = w.Up.Upgrade(cs.rw, req)
	}
	cs.upRet, cs.upRetT = w.tick(), simrt.S.Now
	if err != nil {
		cs.upErr = err.Error()
		if c != nil {
			cs.weird = "upgrade returned both a connection and an error"
		}
		cs.conn = nil
	} else if c == nil {
		cs.weird = "upgrade returned neither a connection nor an error"
	} else {
		cs.conn = c
		cs.mc = mc
		cs.wp = weak.Make(c)
		cs.hasWP = true
	}
	simrt.Rel(&cs.vc)
	cs.upDone = true
	cs.upQ.WakeAll()
	w.doneQ.WakeAll()
	simrt.S.MixStr(cs.upErr)
	if cs.conn == nil {
		return
	}
	w.reader(cs)
}

// ---- server-side reader ----

func (w *World) reader(cs *CS) {
	p := cs.p
	if len(p.Read) == 0 {
		return
	}
	if p.RStart > 0 {
		simrt.Sleep(p.RStart)
	}
	for i := 0; ; i++ {
		if p.RMax > 0 && i >= p.RMax {
			return
		}
		if i > 4000 {
			cs.weird = "reader got thousands of results without the connection ending"
			return
		}
		r := w.readOne(cs, &p.Read[i%len(p.Read)])
		if r.EK == 'f' {
			break
		}
		if p.RDelay > 0 {
			simrt.Sleep(p.RDelay)
		}
	}
	cs.RdEnd = true
	for i := 0; i < 2; i++ {
		r := w.readOne(cs, &p.Read[i%len(p.Read)])
		r.Post = true
	}
}

func (w *World) noteFatal(cs *CS) {
	if cs.FatalS == 0 {
		cs.FatalS, cs.FatalT = w.seq, simrt.S.Now
	}
}

func (w *World) readOne(cs *CS, sp *RSpec) *Recv {
	r := &Recv{API: sp.API, Inv: w.tick(), TInv: simrt.S.Now}
	cs.Recv = append(cs.Recv, r)
	simrt.Point()
	c := cs.conn
	var err error
	switch sp.API {
	case "msg":
		var ty uint8
		var d []byte
		ty, d, err = c.ReadMessage()
		if err == nil {
			r.Type, r.Data, r.Complete = ty, d, true
		}
	case "bin", "str":
		var d []byte
		if sp.API == "bin" {
			d, err = c.ReadBinary()
			r.Type = 2
		} else {
			d, err = c.ReadString()
			r.Type = 1
		}
		if err == nil {
			r.Data, r.Complete = d, true
		} else if errors.Is(err, snapws.ErrMessageTypeMismatch) {
			r.Mismatch = true
		}
	case "json", "jsonT":
		if sp.API == "json" {
			var v any
			err = c.ReadJSON(&v)
			if err == nil {
				r.JSONOK = true
				r.Data, _ = json.Marshal(v)
			}
		} else {
			var v struct{ A int }
			err = c.ReadJSON(&v)
			r.JSONOK = err == nil
		}
		if errors.Is(err, snapws.ErrMessageTypeMismatch) {
			r.Mismatch = true
		}
	case "stream":
		var rd io.Reader
		var ty uint8
		rd, ty, err = c.NextReader()
		if err == nil {
			r.Type = ty
			limit := -1
			if sp.Abandon > 0 {
				limit = sp.Abandon - 1
			}
			zero := 0
			for i := 0; ; i++ {
				if limit >= 0 && len(r.Data) >= limit {
					r.Abandoned = true
					break
				}
				n := 4096
				if len(sp.Buf) > 0 {
					n = sp.Buf[i%len(sp.Buf)]
				}
				if limit >= 0 {
					n = min(n, limit-len(r.Data))
				}
				b := make([]byte, n)
				var k int
				k, err = rd.Read(b)
				if k < 0 || k > n {
					cs.weird = fmt.Sprintf("Read returned %d for a buffer of %d", k, n)
					break
				}
				r.Data = append(r.Data, b[:k]...)
				if err == io.EOF {
					r.Complete = true
					err = nil
					break
				}
				if err != nil {
					break
				}
				if k == 0 {
					if zero++; zero > 3000 {
						cs.weird = "Read keeps returning 0, nil"
						break
					}
				} else {
					zero = 0
				}
			}
		}
	}
	r.EK, r.Err = errKind(err)
	r.Ret, r.TRet = w.tick(), simrt.S.Now
	r.Limited = r.EK == 'n' && r.Err == "rate limited"
	if r.EK == 'f' {
		w.noteFatal(cs)
	}
	simrt.S.MixStr(r.Err)
	simrt.S.Mix(uint64(r.TRet)<<8 + uint64(len(r.Data)))
	return r
}

// ---- client ----

func (w *World) client(cs *CS) {
	if cs.p.CStart > 0 {
		simrt.Sleep(cs.p.CStart)
	}
	for !cs.gotResp && !cs.cliCloseSeen {
		cs.respQ.Wait("client waits for the response", 0)
	}
	if cs.gotResp {
		for i := cs.p.Early; i < len(cs.p.Client); i++ {
			if !w.cop(cs, &cs.p.Client[i], false) {
				break
			}
		}
	}
	cs.cliDone = true
}

// put sends bytes in pieces; cut limits the total (-1: no limit); reports the number sent.
func (cs *CS) put(b []byte, early bool) {
	l := cs.link
	seg, d := l.p.CSeg, l.p.CSegD
	if early || seg <= 0 {
		if early {
			l.Sent += len(b)
			l.rbuf = append(l.rbuf, b...)
			l.Deliv += len(b)
			l.LastArr = simrt.S.Now
			l.RSeqs = append(l.RSeqs, Seg{Seq: cs.w.tick(), T: simrt.S.Now, Off: l.Deliv - len(b), N: len(b)})
			l.rQ.WakeAll()
			return
		}
		l.cliSend(b)
		return
	}
	// keep the number of pieces bounded
	if len(b)/seg > 200 {
		seg = len(b)/200 + 1
	}
	for len(b) > 0 {
		k := min(seg, len(b))
		l.cliSend(b[:k])
		b = b[k:]
		if len(b) > 0 {
			if d > 0 {
				simrt.Sleep(d)
			} else {
				simrt.Yield()
			}
		}
	}
}

// cop performs one client script step; false ends the script.
func (w *World) cop(cs *CS, op *COp, early bool) bool {
	l := cs.link
	if cs.Closing && op.K != "sleep" {
		return true
	}
	switch op.K {
	case "sleep":
		if !early {
			simrt.Sleep(op.D)
		}
		return true
	case "stopread":
		l.CliRead = false
		cs.StopT, cs.StopForever = simrt.S.Now, true
		w.fault("client-stops-reading")
		return true
	case "startread":
		l.CliRead = true
		cs.StopForever = false
		l.dataQ.WakeAll()
		return true
	case "rate":
		l.cliRate = op.R
		return true
	case "pongoff":
		cs.pongs = false
		w.fault("client-stops-answering")
		return true
	case "pongon":
		cs.pongs = true
		return true
	case "silent":
		cs.pongs = false
		cs.SilentT = simrt.S.Now
		w.fault("client-silent")
		return false
	case "fin":
		l.cliFin()
		cs.Closing = true
		return true
	case "reset":
		l.cliReset()
		cs.Closing = true
		return true
	}
	key := op.Key
	var chunks [][]byte // frames and the pauses between them
	m := &CMsg{K: op.K, ID: op.ID, Ty: byte(op.Ty), End: -1, T: simrt.S.Now}
	switch op.K {
	case "msg":
		m.Payload = clientPayload(op)
		rest := m.Payload
		o := byte(op.Ty)
		for i, n := range op.Frags {
			n = min(n, len(rest))
			chunks = append(chunks, encFrame(false, o, rest[:n], mixKey(key, i)))
			rest = rest[n:]
			o = 0
		}
		chunks = append(chunks, encFrame(true, o, rest, mixKey(key, 99)))
		m.Frags = len(chunks)
	case "ping", "pong":
		o := byte(9)
		if op.K == "pong" {
			o = 10
		}
		m.Payload = payload(op.ID, op.Sz, 'b')
		chunks = append(chunks, encFrame(true, o, m.Payload, key))
	case "close":
		m.Payload, m.Codes, m.Reason = closePayload(op)
		chunks = append(chunks, encFrame(true, 8, m.Payload, key))
	case "bad":
		var pre [][]byte
		pre, m.Codes, _ = badFrames(op)
		m.BadK = op.Kind
		if m.FirstPart = len(pre) > 1; m.FirstPart {
			m.Payload = payload(op.ID, op.Sz, 't')
		}
		chunks = pre
	}
	cs.cmu.lock()
	defer cs.cmu.unlock()
	if cs.Closing {
		return true
	}
	m.Off = l.Sent
	cs.Sent = append(cs.Sent, m)
	if op.Kind == "x" {
		m.BadK = "utf8"
	}
	sent := 0
	for i, b := range chunks {
		if i < len(op.Ctl) && op.Ctl[i] != -1 && op.K == "msg" {
			kind, opc, n := "ping", byte(9), op.Ctl[i]
			if n < 0 {
				kind, opc, n = "pong", 10, -2-n
			}
			pm := &CMsg{K: kind, Payload: payload(op.ID*64+i+7000000, n, 'b'), Off: l.Sent, End: -1, T: simrt.S.Now}
			pb := encFrame(true, opc, pm.Payload, mixKey(key, i+200))
			cs.Sent = append(cs.Sent, pm)
			if op.Cut > 0 && sent+len(pb) >= op.Cut {
				cs.put(pb[:op.Cut-1-sent], early)
				return w.cut(cs, op)
			}
			cs.put(pb, early)
			sent += len(pb)
			if l.Sent-pm.Off == len(pb) {
				pm.End = l.Sent
			}
		}
		if i == 0 {
			m.First = l.Sent
			_, _, h := parseFrame(b)
			m.HdrEnd = l.Sent + h
		}
		if op.Cut > 0 && sent+len(b) >= op.Cut {
			cs.put(b[:op.Cut-1-sent], early)
			return w.cut(cs, op)
		}
		if op.At > 0 && op.At < len(b) && i == 0 && !early {
			// slow frame: pause in the middle
			cs.put(b[:op.At], early)
			w.fault("slow-frame")
			simrt.Sleep(op.R)
			cs.put(b[op.At:], early)
		} else {
			cs.put(b, early)
		}
		sent += len(b)
		if op.D > 0 && i < len(chunks)-1 && !early {
			simrt.Sleep(op.D)
		}
	}
	// the stream may have ended during a pause
	if l.Sent-m.Off == sent {
		m.End = l.Sent
	}
	if op.K == "close" {
		cs.Closing = true
	}
	return true
}

func (w *World) cut(cs *CS, op *COp) bool {
	w.fault("truncated-frame")
	cs.Closing = true
	switch op.CutK {
	case "reset":
		cs.link.cliReset()
	case "stall":
		cs.pongs = false
		cs.SilentT = simrt.S.Now
		w.fault("client-silent")
	default:
		cs.link.cliFin()
	}
	return false
}

func mixKey(k uint32, i int) uint32 {
	if k == 0 {
		return 0
	}
	return uint32(mix64(uint64(k)<<20 + uint64(i)))
}

func (w *World) clientRecv(cs *CS) {
	l := cs.link
	var buf []byte
	cs.pongs = cs.p.Pong != "no"
	for {
		b, ok := l.cliTake()
		if !ok {
			break
		}
		buf = append(buf, b...)
		if !cs.gotResp {
			i := strings.Index(string(buf), "\r\n\r\n")
			if i < 0 {
				continue
			}
			buf = buf[i+4:]
			cs.gotResp = true
			cs.respQ.WakeAll()
		}
		for {
			f, n, _ := parseFrame(buf)
			if n == 0 {
				break
			}
			buf = buf[n:]
			switch f.Op {
			case 9:
				cs.nPinged++
				if !cs.pongs || (cs.p.PongStop > 0 && cs.nPinged > cs.p.PongStop) {
					w.fault("ping-unanswered")
					continue
				}
				pl := f.Payload
				if cs.p.PongD > 0 {
					simrt.Spawn(fmt.Sprintf("pong%d.%d", cs.id, cs.nPinged), func() {
						simrt.Sleep(cs.p.PongD)
						cs.sendPong(pl)
					})
				} else {
					cs.sendPong(pl)
				}
			case 8:
				if !cs.p.NoEcho {
					cs.cmu.lock()
					if !cs.Closing {
						cs.Closing = true
						l.cliSend(encFrame(true, 8, f.Payload, 0x1234))
					}
					cs.cmu.unlock()
				}
			}
		}
	}
	cs.cliCloseSeen = true
	cs.respQ.WakeAll()
}

func (cs *CS) sendPong(p []byte) {
	cs.cmu.lock()
	defer cs.cmu.unlock()
	if cs.Closing || !cs.pongs {
		return
	}
	m := &CMsg{K: "pong", Payload: p, Off: cs.link.Sent, End: -1, T: simrt.S.Now}
	cs.Sent = append(cs.Sent, m)
	cs.link.cliSend(encFrame(true, 10, p, mixKey(77, cs.nPinged)))
	m.End = cs.link.Sent
}

// ---- application operations ----

func (w *World) waitConn(op *Op) *CS {
	if op.C < 0 || op.C >= len(w.C) {
		return nil
	}
	cs := w.C[op.C]
	inHook := w.ctx[simrt.Cur()] != ""
	for cs.conn == nil || (!cs.upDone && !inHook) {
		if cs.upDone || op.Nowait || inHook {
			break
		}
		cs.upQ.Wait("waits for the connection", 0)
	}
	simrt.Acq(&cs.vc)
	if cs.conn == nil {
		return nil
	}
	return cs
}

type badMarshal struct{ mode int }

func (b badMarshal) MarshalJSON() ([]byte, error) {
	if b.mode == 1 {
		return []byte("{broken"), nil
	}
	return nil, errors.New("cannot encode")
}

func (w *World) mkctx(op *Op, cl *Call) (context.Context, func()) {
	cl.CtxEnd = -1
	switch op.Ctx {
	case "nil":
		return nil, func() {}
	case "to":
		cl.CtxEnd = simrt.S.Now + op.CtxD
		c, f := context.WithTimeout(context.Background(), time.Duration(op.CtxD))
		return c, func() { f() }
	case "cancel":
		c, f := context.WithCancel(context.Background())
		cl.CtxEnd = simrt.S.Now + op.CtxD
		w.fault("context-cancel")
		simrt.Spawn("", func() { simrt.Sleep(op.CtxD); f() })
		return c, func() {}
	case "tc": // has a deadline, but is cancelled earlier
		c, f := context.WithTimeout(context.Background(), time.Duration(op.CtxD*8+int64(time.Second)))
		cl.CtxEnd = simrt.S.Now + op.CtxD
		w.fault("context-cancel")
		simrt.Spawn("", func() { simrt.Sleep(op.CtxD); f() })
		return c, func() {}
	case "pre":
		c, f := context.WithCancel(context.Background())
		cl.CtxEnd = simrt.S.Now
		f()
		return c, func() {}
	}
	return context.Background(), func() {}
}

func opData(op *Op) []byte {
	kind := byte('t')
	if op.API == "json" {
		kind = 'j'
	} else if op.Ty == 2 && op.API != "t" {
		kind = 'b'
	}
	return payload(op.ID, opSize(op), kind)
}

func opSize(op *Op) int {
	if op.K == "stream" {
		n := 0
		for _, x := range op.Pieces {
			n += x
		}
		return n
	}
	return op.Sz
}

func (w *World) exec(op *Op, who string) {
	s := simrt.S
	g := simrt.Cur()
	switch op.K {
	case "sleep":
		simrt.Sleep(op.D)
		return
	}
	var cs *CS
	needsConn := false
	switch op.K {
	case "send", "sendbad", "jsonbad", "stream", "ping", "close", "batch", "batchjson", "radd", "rremove", "rmove", "rereg", "m2reg":
		needsConn = true
	}
	if needsConn {
		cs = w.waitConn(op)
		if cs == nil {
			return
		}
	}
	if op.K == "rereg" {
		if cs.mc == nil {
			return
		}
		for _, o := range w.C {
			if o != cs && o.p.Via == "mgr" && o.p.Key == cs.p.Key {
				return
			}
		}
	}
	if (op.K == "m2reg" || op.K == "m2list") && w.Mgr2 == nil {
		return
	}
	var room *snapws.Room[string]
	rm, rkey := w.rm(op.Room)
	if rm == nil {
		return
	}
	switch op.K {
	case "rbc", "rbb", "rremove", "rmove", "rremoveall", "rclose", "rlist":
		// use the room instance last seen under the key so that stale handles are exercised too
		room = rm.Get(rkey)
		if room == nil {
			for i := len(w.roomK) - 1; i >= 0; i-- {
				if w.roomK[i] == op.Room {
					room = w.roomP[i]
					break
				}
			}
		}
		if room == nil {
			return
		}
	case "radd":
		a := &Call{K: "rmadd", Who: who, Hook: w.ctx[g], C: -1, Op: op, CtxEnd: -1, G: g.Name, Inv: w.tick(), TInv: s.Now, Obj: -1}
		w.Calls = append(w.Calls, a)
		simrt.Point()
		room = rm.Add(rkey)
		a.Ret, a.TRet, a.Obj = w.tick(), s.Now, w.roomID(room, rm)
	}
	cl := &Call{K: op.K, Who: who, Hook: w.ctx[g], C: op.C, Op: op, Obj: -1, CtxEnd: -1, G: g.Name}
	if !needsConn {
		cl.C = -1
	}
	if room != nil {
		cl.Obj = w.roomID(room, rm)
	}
	cctx, done := w.mkctx(op, cl)
	defer done()
	cl.Inv, cl.TInv = w.tick(), s.Now
	if cs != nil {
		cl.WS = len(cs.link.WCalls)
	}
	w.Calls = append(w.Calls, cl)
	simrt.Point()
	var err error
	switch op.K {
	case "send":
		d := opData(op)
		cl.Began = true
		switch op.API {
		case "bytes":
			err = cs.conn.SendBytes(cctx, d)
		case "string":
			err = cs.conn.SendString(cctx, d)
		case "json":
			err = cs.conn.SendJSON(cctx, json.RawMessage(d))
		default:
			err = cs.conn.SendMessage(cctx, uint8(op.Ty), d)
		}
	case "sendbad":
		err = cs.conn.SendMessage(cctx, uint8(op.Ty), opData(op))
	case "jsonbad":
		switch op.Sz % 3 {
		case 0:
			err = cs.conn.SendJSON(cctx, make(chan int))
		case 1:
			err = cs.conn.SendJSON(cctx, badMarshal{0})
		default:
			err = cs.conn.SendJSON(cctx, badMarshal{1})
		}
	case "stream":
		var wr *snapws.ConnWriter
		wr, err = cs.conn.NextWriter(cctx, uint8(op.Ty))
		if err == nil {
			cl.Began = true
			d := opData(op)
			got, flushFailed := 0, false
			for i, n := range op.Pieces {
				if i < len(op.Wait) && op.Wait[i] > 0 {
					simrt.Sleep(op.Wait[i])
				}
				var k int
				k, err = wr.Write(d[:n])
				if err == nil && k != n {
					cs.weird = "Write returned a short count without an error"
				}
				d = d[n:]
				got += k
				if err == nil && i < len(op.Flush) && op.Flush[i] {
					err = wr.Flush()
					flushFailed = err != nil
				}
				if err != nil {
					cl.WErr = true
					break
				}
			}
			err2 := wr.Close()
			if flushFailed && err2 == nil {
				cl.Cut = got + 1
			}
			if flushFailed && err2 != nil && !snapws.IsFatalErr(err2) && !errors.Is(err2, context.Canceled) && !errors.Is(err2, context.DeadlineExceeded) {
				cs.weird = fmt.Sprintf("a Flush failed (%v) and Close then failed with %q", err, err2)
			}
			if err == nil {
				err = err2
			} else if snapws.IsFatalErr(err2) {
				err = err2
			}
			for i, x := range op.Stale {
				if k := len(op.Pieces); i == 0 && k < len(op.Wait) {
					simrt.Sleep(op.Wait[k])
				}
				var err3 error
				switch x {
				case 'w':
					_, err3 = wr.Write([]byte("stale"))
				case 'f':
					err3 = wr.Flush()
				default:
					wr.Close()
					continue
				}
				if err3 == nil {
					cs.weird = "a closed writer accepted another call"
				}
			}
		}
	case "ping":
		err = cs.conn.Ping()
	case "close":
		if op.API == "close" {
			cs.conn.Close()
		} else {
			cs.conn.CloseWithCode(uint16(op.Code), string(payload(op.ID, op.RLen, 't')))
		}
	case "batch":
		err = cs.conn.Batch(opData(op))
	case "batchjson":
		err = cs.conn.BatchJSON(json.RawMessage(opData(op)))
	case "rbc", "rbb":
		var ex []*snapws.Conn
		for _, i := range op.Ex {
			if i >= 0 && i < len(w.C) && w.C[i].conn != nil {
				simrt.Acq(&w.C[i].vc)
				ex = append(ex, w.C[i].conn)
			}
		}
		d := opData(op)
		if op.K == "rbb" {
			if op.API == "json" {
				cl.N, err = room.BatchBroadcastJSON(cctx, json.RawMessage(d), ex...)
			} else {
				cl.N, err = room.BatchBroadcast(cctx, d, ex...)
			}
		} else {
			switch {
			case op.API == "json":
				cl.N, err = room.BroadcastJSON(cctx, json.RawMessage(d), ex...)
			case op.Ty == 2:
				cl.N, err = room.BroadcastBytes(cctx, d, ex...)
			default:
				cl.N, err = room.BroadcastString(cctx, d, ex...)
			}
		}
	case "mbc", "mbb":
		var ex []string
		for _, i := range op.Ex {
			if i >= 0 && i < len(w.C) {
				ex = append(ex, w.C[i].p.Key)
			}
		}
		d := opData(op)
		if op.K == "mbb" {
			if op.API == "json" {
				cl.N, err = w.Mgr.BatchBroadcastJSON(cctx, json.RawMessage(d), ex...)
			} else {
				cl.N, err = w.Mgr.BatchBroadcast(cctx, d, ex...)
			}
		} else {
			switch {
			case op.API == "json":
				cl.N, err = w.Mgr.BroadcastJSON(cctx, json.RawMessage(d), ex...)
			case op.Ty == 2:
				cl.N, err = w.Mgr.BroadcastBytes(cctx, d, ex...)
			default:
				cl.N, err = w.Mgr.BroadcastString(cctx, d, ex...)
			}
		}
	case "radd":
		if op.Sz > 0 {
			cl.Args = fmt.Sprint("a", op.Sz)
			room.Add(cs.conn, cl.Args)
		} else {
			room.Add(cs.conn)
		}
	case "rremove":
		if op.Sz > 0 {
			cl.Args = fmt.Sprint("r", op.Sz)
			room.Remove(cs.conn, cl.Args)
		} else {
			room.Remove(cs.conn)
		}
	case "rmove":
		_, k := w.rm(op.Room2)
		room.Move(cs.conn, k)
	case "rremoveall":
		room.RemoveAll()
	case "rclose":
		room.Close()
	case "rlist":
		var ex []*snapws.Conn
		for _, i := range op.Ex {
			if i >= 0 && i < len(w.C) && w.C[i].conn != nil {
				simrt.Acq(&w.C[i].vc)
				ex = append(ex, w.C[i].conn)
				cl.ExUsed = append(cl.ExUsed, i)
			}
		}
		for _, c := range room.GetAllConns(ex...) {
			cl.List = append(cl.List, w.idOf(c))
		}
	case "rmadd":
		cl.Obj = w.roomID(rm.Add(rkey), rm)
	case "rmget":
		cl.Obj = w.roomID(rm.Get(rkey), rm)
	case "rmkeys":
		cl.Keys = w.RM.GetRoomKeys()
	case "rereg":
		w.Mgr.Register(cs.p.Key, cs.mc)
	case "m2reg":
		if cs.mc2 == nil {
			cs.mc2 = &snapws.ManagedConn[string]{Conn: cs.conn, Key: fmt.Sprint("m", cs.id), Manager: w.Mgr2}
		}
		w.Mgr2.Register(cs.mc2.Key, cs.mc2)
	case "m2list":
		for _, c := range w.Mgr2.GetAllConnsAsConn() {
			cl.List = append(cl.List, w.idOf(c))
		}
	case "mget":
		if c := w.Mgr.Get(op.Room); c != nil {
			cl.Obj = w.idOf(c.Conn)
		}
	case "mlist":
		var ex []string
		for _, i := range op.Ex {
			if i >= 0 && i < len(w.C) {
				ex = append(ex, w.C[i].p.Key)
			}
		}
		for i, cs := range w.C {
			if slices.Contains(ex, cs.p.Key) {
				cl.ExUsed = append(cl.ExUsed, i)
			}
		}
		if op.API == "conns" {
			for _, c := range w.Mgr.GetAllConnsAsConn(ex...) {
				id := w.idOf(c)
				cl.List = append(cl.List, id)
				if id >= 0 {
					cl.Keys = append(cl.Keys, w.C[id].p.Key)
				}
			}
			break
		}
		for _, c := range w.Mgr.GetAllConns(ex...) {
			if c == nil {
				cl.List = append(cl.List, -9)
				continue
			}
			cl.List = append(cl.List, w.idOf(c.Conn))
			cl.Keys = append(cl.Keys, c.Key)
		}
	case "mshutdown":
		w.Mgr.Shutdown()
	case "rmshutdown":
		w.RM.Shutdown()
	case "flclose":
		if w.Up.Flusher != nil {
			if w.FlCloseInv == 0 {
				w.FlCloseInv, w.FlCloseT = w.seq, s.Now
			}
			w.Up.Flusher.Close()
			if w.FlCloseRet == 0 {
				w.FlCloseRet = w.tick()
			}
		}
	case "flcancel":
		if w.flStop != nil {
			if w.FlCtxT < 0 {
				w.FlCtxT = s.Now
			}
			w.flStop()
		}
	default:
		panic("unknown op " + op.K)
	}
	cl.EK, cl.Err = errKind(err)
	cl.Ret, cl.TRet = w.tick(), s.Now
	if cs != nil {
		cl.WE = len(cs.link.WCalls)
		if cl.EK == 'f' {
			w.noteFatal(cs)
		}
	}
	s.MixStr(op.K)
	s.MixStr(cl.Err)
	s.Mix(uint64(cl.TRet)<<4 + uint64(cl.N))
}

func (w *World) snapshot() *Snapshot {
	sn := &Snapshot{Rooms: map[int][]int{}}
	q := &simrt.WaitQ{}
	sn.From = w.tick()
	simrt.Spawn("", func() {
		for _, c := range w.Mgr.GetAllConns() {
			if c == nil {
				sn.Mgr = append(sn.Mgr, -9)
				continue
			}
			sn.Mgr = append(sn.Mgr, w.idOf(c.Conn))
			sn.Keys = append(sn.Keys, c.Key)
		}
		if w.Mgr2 != nil {
			for _, c := range w.Mgr2.GetAllConnsAsConn() {
				sn.Mgr2 = append(sn.Mgr2, w.idOf(c))
			}
		}
		for _, m := range []*snapws.RoomManager[string]{w.RM, w.RM2} {
			if m == nil {
				continue
			}
			for _, k := range m.GetRoomKeys() {
				if r := m.Get(k); r != nil {
					w.roomID(r, m)
				}
				if m == w.RM2 {
					k = "2:" + k
				}
				sn.RKeys = append(sn.RKeys, k)
			}
		}
		for i := 0; i < len(w.roomP); i++ {
			for _, c := range w.roomP[i].GetAllConns() {
				sn.Rooms[i] = append(sn.Rooms[i], w.idOf(c))
			}
		}
		sn.Done = true
		sn.Seq = w.tick()
		q.WakeAll()
	})
	if !sn.Done {
		q.Wait("snapshot", simrt.S.Now+w.p.Grace)
	}
	return sn
}

func (w *World) othersAlive() bool {
	for _, g := range simrt.S.Goroutines()[w.baseG:] {
		if !g.Done() {
			return true
		}
	}
	return false
}

func (w *World) main() {
	p := w.p
	s := simrt.S
	simrt.ResetGlobals()
	w.setup()
	for i := range p.Conns {
		cs := &CS{w: w, id: i, p: &p.Conns[i], room: -1}
		cs.link = newLink(w, i, &p.Conns[i].Link)
		w.C = append(w.C, cs)
	}
	w.baseG = len(s.Goroutines())
	for _, cs := range w.C {
		simrt.Spawn(fmt.Sprintf("srv%d", cs.id), func() { w.accept(cs) })
	}
	w.actsLeft = len(p.Acts)
	for i := range p.Acts {
		a := &p.Acts[i]
		name := fmt.Sprintf("act%d", i)
		simrt.Spawn(name, func() {
			if a.At > 0 {
				simrt.Sleep(a.At)
			}
			for j := range a.Ops {
				w.exec(&a.Ops[j], name)
			}
			w.actsLeft--
			w.doneQ.WakeAll()
		})
	}
	simrt.Sleep(max(p.End-s.Now, 1))
	// let the application calls finish
	lim := s.Now + p.Grace
	upgrading := func() bool {
		for _, cs := range w.C {
			if cs.conn != nil && !cs.upDone {
				return true
			}
		}
		return false
	}
	for (w.actsLeft > 0 || upgrading()) && s.Now < lim {
		w.doneQ.Wait("main waits for the actors", lim)
	}
	w.EndT = s.Now
	w.Pre = w.snapshot()
	w.FinalSeq, w.FinalT = w.tick(), s.Now
	if p.Final != "none" {
		for _, cs := range w.C {
			if cs.conn == nil || !cs.upDone {
				continue
			}
			fin := p.Final
			if len(cs.p.Read) == 0 || cs.p.RMax > 0 {
				fin = "server" // nothing would notice the client's close
			}
			switch fin {
			case "client":
				simrt.Spawn("", func() { w.cop(cs, &COp{K: "close", Code: 1000, Key: 5}, false) })
			case "fin":
				simrt.Spawn("", func() { w.cop(cs, &COp{K: "fin"}, false) })
			default:
				op := &Op{K: "close", C: cs.id, API: "close"}
				simrt.Spawn(fmt.Sprintf("fin%d", cs.id), func() { w.exec(op, "final") })
			}
		}
		if p.Batch == nil {
			simrt.Sleep(p.Grace)
		} else {
			// a flusher would tick on for the whole grace period: stop waiting when
			// nothing but it is left
			for end := s.Now + p.Grace; s.Now < end && w.othersAlive(); {
				simrt.Sleep(min(500*ms, end-s.Now))
			}
		}
		w.Post = w.snapshot()
	}
	if p.Batch != nil && p.Final != "none" {
		if w.FlCloseInv == 0 && w.flStop != nil {
			w.flStop()
		} else if w.FlCtxT < 0 {
			w.Up.Flusher.Close()
		}
		simrt.Sleep(10 * ms)
	}
	for _, g := range s.Goroutines()[w.baseG:] {
		if g.Lib && !g.Done() {
			w.Live = append(w.Live, fmt.Sprintf("%s started at %s, %s at %s", g.Name, simrt.SiteName(g.GoSite), g.Why(), simrt.SiteName(g.Site())))
		}
	}
	s.Halt("end")
}
