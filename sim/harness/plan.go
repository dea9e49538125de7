package main

import (
	"bytes"
	"fmt"
	"strings"

	"verif/simrt"
)

// Plan is everything that determines a run besides the recorded schedule.
type Plan struct {
	Prop string `json:"prop"`
	Seed uint64 `json:"seed"`
	Mode string `json:"mode,omitempty"` // sub-profile chosen by the generator

	WW        int64    `json:"ww"`
	RW        int64    `json:"rw"`
	PE        int64    `json:"pe"`
	Dflt      int      `json:"dflt,omitempty"` // options left unset (the values above are the documented defaults): 1 WriteWait, 2 ReadWait, 4 PingEvery
	MaxMsg    int      `json:"max_msg,omitempty"`
	MaxFrag   int      `json:"max_frag,omitempty"`
	RBuf      int      `json:"rbuf,omitempty"`
	WBuf      int      `json:"wbuf,omitempty"`
	Two       bool     `json:"two,omitempty"`      // a second manager and room manager on the same upgrader (room keys that begin with 2:)
	NoHook    string   `json:"no_hook,omitempty"`  // hooks left unset: c connect, d disconnect, r register/unregister, j join/leave
	OwnHook   bool     `json:"own_hook,omitempty"` // the rooms r0 exist from the start and have their own hooks
	SameAddr  bool     `json:"sameaddr,omitempty"` // all clients come from one address (proxy, pipe)
	NoPool    bool     `json:"no_pool,omitempty"`
	BQ        int      `json:"bq,omitempty"`
	BP        int      `json:"bp,omitempty"`
	SkipUTF8  bool     `json:"skip_utf8,omitempty"`
	MaxBatch  int      `json:"max_batch,omitempty"`
	Subs      []string `json:"subs,omitempty"`
	RejectRaw bool     `json:"reject_raw,omitempty"`

	Lim   *LimPlan        `json:"lim,omitempty"`
	Batch *BatchPlan      `json:"batch,omitempty"`
	MW    []MWPlan        `json:"mw,omitempty"`
	Hooks map[string][]Op `json:"hooks,omitempty"`
	Conns []ConnPlan      `json:"conns"`
	Acts  []Actor         `json:"acts"`
	End   int64           `json:"end"`
	Grace int64           `json:"grace,omitempty"`
	Final string          `json:"final,omitempty"` // how remaining connections are ended: server, client, none
	Sched simrt.Strategy  `json:"sched"`
	SSeed uint64          `json:"sseed"`
	Paced bool            `json:"paced,omitempty"` // one broadcaster that pauses between broadcasts
}

type LimPlan struct {
	MPS   int    `json:"mps"`
	Burst int    `json:"burst"`
	Hook  string `json:"hook,omitempty"` // none, ok, close, err
}

type BatchPlan struct {
	Strat  string `json:"strat"` // json, prefix, custom
	Every  int64  `json:"every"`
	Prefix bool   `json:"prefix,omitempty"`
	Suffix bool   `json:"suffix,omitempty"`
	Pad    int    `json:"pad,omitempty"`    // length added to the prefix and suffix elements
	Some   bool   `json:"some,omitempty"`   // batches of an even number of messages get no prefix, of one message no suffix
	Fail   int    `json:"fail,omitempty"`   // the custom sender refuses every such call
	Again  int    `json:"again,omitempty"`  // batching was enabled before with another strategy (1 JSON, 2 prefix, 3 custom)
	NilCtx bool   `json:"nilctx,omitempty"` // enabled without a context
	Dflt   bool   `json:"dflt,omitempty"`   // enabled with the default interval
}

// pfx and sfx are the elements around a batch of n messages (nil: none).
func (b *BatchPlan) pfx(c, n int) []byte {
	if !b.Prefix || b.Some && n%2 == 0 {
		return nil
	}
	return []byte(`"PFX` + fmt.Sprint(c) + strings.Repeat("p", b.Pad) + `"`)
}

func (b *BatchPlan) sfx(c, n int) []byte {
	if !b.Suffix || b.Some && n == 1 {
		return nil
	}
	return []byte(`"SFX` + fmt.Sprint(c) + strings.Repeat("s", b.Pad) + `"`)
}

func isPfx(e []byte) bool { return bytes.HasPrefix(e, []byte(`"PFX`)) }
func isSfx(e []byte) bool { return bytes.HasPrefix(e, []byte(`"SFX`)) }

type MWPlan struct {
	Kind  string `json:"kind"` // ok, err, code
	Code  int    `json:"code,omitempty"`
	Delay int64  `json:"delay,omitempty"`
	Conn  int    `json:"conn"` // -1: all connections
}

type LinkPlan struct {
	SndBuf   int   `json:"sndbuf"`
	Lat      int64 `json:"lat,omitempty"`
	Jitter   int64 `json:"jitter,omitempty"`
	RChunk   int   `json:"rchunk,omitempty"`
	RShort   bool  `json:"rshort,omitempty"`
	WChunk   int   `json:"wchunk,omitempty"`
	CChunk   int   `json:"cchunk,omitempty"` // client takes at most this much at a time
	CSeg     int   `json:"cseg,omitempty"`   // client hands frames to the network in pieces of this size
	CSegD    int64 `json:"csegd,omitempty"`  // pause between pieces
	WErrAt   int   `json:"werr_at,omitempty"`
	WErrPipe bool  `json:"werr_pipe,omitempty"`
	RErrAt   int   `json:"rerr_at,omitempty"`
	RdlErrAt int   `json:"rdl_err_at,omitempty"`
	WdlErrAt int   `json:"wdl_err_at,omitempty"`
}

type ConnPlan struct {
	At        int64    `json:"at,omitempty"`
	Via       string   `json:"via"` // up, mgr, room
	Key       string   `json:"key,omitempty"`
	Reg       int      `json:"reg,omitempty"` // via mgr: upgrade and register in two steps, with this pause if >1
	Link      LinkPlan `json:"link"`
	HBuf      int      `json:"hbuf,omitempty"`  // size of the hijacked bufio.Reader
	HWBuf     int      `json:"hwbuf,omitempty"` // size of the hijacked bufio.Writer
	Early     int      `json:"early,omitempty"` // number of client ops sent together with the request
	HijackErr bool     `json:"hijack_err,omitempty"`
	BadReq    string   `json:"bad_req,omitempty"`
	Hdr       int      `json:"hdr,omitempty"`   // which of the equivalent spellings of the request headers the client uses
	Nonce     uint64   `json:"nonce,omitempty"` // Sec-WebSocket-Key (0: the one of the RFC)
	Proto     string   `json:"proto,omitempty"`
	Read      []RSpec  `json:"read,omitempty"`
	RStart    int64    `json:"rstart,omitempty"`
	RDelay    int64    `json:"rdelay,omitempty"`
	RMax      int      `json:"rmax,omitempty"` // stop reading after so many messages (0: never)
	Pong      string   `json:"pong,omitempty"` // auto (default), no, or a delay is taken from PongD
	PongD     int64    `json:"pongd,omitempty"`
	PongStop  int      `json:"pongstop,omitempty"` // stop answering after so many pings
	CStart    int64    `json:"cstart,omitempty"`
	Client    []COp    `json:"client,omitempty"`
	NoEcho    bool     `json:"noecho,omitempty"`
}

// RSpec is one way of reading a message.
type RSpec struct {
	API     string `json:"api"` // msg, bin, str, json, jsonT, stream
	Buf     []int  `json:"buf,omitempty"`
	Abandon int    `json:"abandon,omitempty"` // >0: stop after abandon-1 bytes
}

// COp is one client script step.
type COp struct {
	K     string `json:"k"` // msg ping pong close bad raw sleep stopread startread rate fin reset pongoff pongon
	ID    int    `json:"id,omitempty"`
	Ty    int    `json:"ty,omitempty"`
	Kind  string `json:"kind,omitempty"` // payload kind / bad kind
	Sz    int    `json:"sz,omitempty"`
	Frags []int  `json:"frags,omitempty"` // sizes of all fragments but the last
	Ctl   []int  `json:"ctl,omitempty"`   // ping payload size before fragment i (-1: none; n < -1: pong with -2-n bytes)
	D     int64  `json:"d,omitempty"`     // pause between fragments / sleep / slow
	Cut   int    `json:"cut,omitempty"`   // >0: send only the first cut-1 bytes of this op, then end the stream
	CutK  string `json:"cutk,omitempty"`  // fin, reset, stall
	Code  int    `json:"code,omitempty"`
	At    int    `json:"at,omitempty"` // slow ping: bytes before the pause
	Key   uint32 `json:"key,omitempty"`
	R     int64  `json:"r,omitempty"`
}

type Actor struct {
	At  int64 `json:"at,omitempty"`
	Ops []Op  `json:"ops"`
}

// Op is one server-side application step.
type Op struct {
	K      string  `json:"k"`
	C      int     `json:"c"`
	ID     int     `json:"id,omitempty"`
	Sz     int     `json:"sz,omitempty"`
	Ty     int     `json:"ty,omitempty"`
	API    string  `json:"api,omitempty"`
	Pieces []int   `json:"pieces,omitempty"`
	Flush  []bool  `json:"flush,omitempty"`
	Wait   []int64 `json:"wait,omitempty"`
	Stale  string  `json:"stale,omitempty"` // calls on the writer after it was closed: c(lose), w(rite), f(lush)
	Ctx    string  `json:"ctx,omitempty"`   // bg, to (deadline), cancel, pre
	CtxD   int64   `json:"ctxd,omitempty"`
	Code   int     `json:"code,omitempty"`
	RLen   int     `json:"rlen,omitempty"`
	Room   string  `json:"room,omitempty"`
	Room2  string  `json:"room2,omitempty"`
	Ex     []int   `json:"ex,omitempty"`
	D      int64   `json:"d,omitempty"`
	Nowait bool    `json:"nowait,omitempty"` // skip instead of waiting when the connection is not up yet
}

type gen struct {
	*simrt.RNG
	p     *Plan
	id    int
	quiet bool // the library sends no pings before the end
}

func (g *gen) nid() int { g.id++; return g.id }

func (g *gen) one(v ...int) int       { return v[g.N(len(v))] }
func (g *gen) one64(v ...int64) int64 { return v[g.N(len(v))] }
func (g *gen) str(v ...string) string { return v[g.N(len(v))] }
func (g *gen) dur(a, b int64) int64   { return a + int64(g.U64()%uint64(b-a+1)) }
func (g *gen) logn(maxv int) int { // log-uniform in [0,maxv]
	b := 0
	for 1<<b <= maxv {
		b++
	}
	k := g.N(b + 1)
	if k == 0 {
		return 0
	}
	return min(g.Range(1<<(k-1), 1<<k), maxv)
}

// split cuts n into pieces.
func (g *gen) split(n, maxParts int) []int {
	k := g.N(maxParts + 1)
	var out []int
	left := n
	for i := 0; i < k && left >= 0; i++ {
		x := 0
		if !g.P(0.15) && left > 0 {
			x = g.N(left + 1)
		}
		out = append(out, x)
		left -= x
	}
	return out
}

// sizeLimit is the configured limit of an incoming message (-1: none).
func (p *Plan) sizeLimit() int {
	switch {
	case p.MaxMsg == 0:
		return 1 << 20
	case p.MaxMsg < 0:
		return -1
	}
	return p.MaxMsg
}

// maxFrames bounds the frames a single outgoing message is cut into.
const maxFrames = 1500

// bound keeps messages from being cut into so many frames that a run does nothing else.
func (p *Plan) bound() {
	sp := p.WBuf - 14
	if p.WBuf == 0 {
		sp = 4096 - 14
	} else if sp <= 0 {
		sp = p.WBuf
	}
	lim := sp * maxFrames
	clip := func(ops []Op) {
		for i := range ops {
			o := &ops[i]
			o.Sz = min(o.Sz, lim)
			for k := range o.Pieces {
				o.Pieces[k] = min(o.Pieces[k], lim)
			}
		}
	}
	for i := range p.Acts {
		clip(p.Acts[i].Ops)
	}
	if p.Batch != nil {
		p.Batch.Pad = min(p.Batch.Pad, lim/8)
	}
	for _, ops := range p.Hooks {
		clip(ops)
	}
}

// boundIn keeps large messages from being moved in so many pieces that a run does nothing else.
func (p *Plan) boundIn() {
	for i := range p.Conns {
		c := &p.Conns[i]
		in, out := 0, 0
		for k := range c.Client {
			in += c.Client[k].Sz
			for _, f := range c.Client[k].Frags {
				in += f
			}
		}
		for k := range p.Acts {
			for _, o := range p.Acts[k].Ops {
				out += o.Sz
				if p.Batch != nil && p.Batch.Pad > 0 {
					switch o.K {
					case "batch", "batchjson", "rbb", "mbb":
						out += 2 * p.Batch.Pad // every item may make a batch
					}
				}
				for _, n := range o.Pieces {
					out += n
				}
			}
		}
		small := func(x *int, n int) {
			if *x > 0 && n / *x > 20000 {
				*x = 0
			}
		}
		for k := range c.Read {
			b := c.Read[k].Buf
			n := 0
			for _, x := range b {
				n += x
			}
			if len(b) > 0 && in/max(n/len(b), 1) > 20000 {
				c.Read[k].Buf = nil
			}
		}
		small(&c.Link.RChunk, in)
		small(&c.Link.CSeg, in)
		// a client that hands over one message or ping for too long cannot answer pings meanwhile
		if c.Link.CSeg > 0 && c.Link.CSegD > 0 {
			worst := 0
			for k := range c.Client {
				o := &c.Client[k]
				n := o.Sz + 14*(len(o.Frags)+1) + 64
				for _, x := range o.Ctl {
					n += max(x, -2-x) + 14
				}
				// put bounds the number of pieces per frame
				worst = max(worst, min(n/c.Link.CSeg+1, 201*(len(o.Frags)+len(o.Ctl)+1)))
			}
			// (nor take what is sent to it)
			if lim := min((p.RW-p.PE)/4, p.WW/8); int64(worst)*c.Link.CSegD > lim {
				c.Link.CSegD = lim / int64(worst)
			}
		}
		if c.Link.SndBuf > 0 && out/c.Link.SndBuf > 20000 {
			c.Link.SndBuf = out/20000 + 1
		}
		small(&c.Link.WChunk, out)
		small(&c.Link.CChunk, out)
	}
}

func (p *Plan) noHook(k string) bool { return strings.Contains(p.NoHook, k) }
