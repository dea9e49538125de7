package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
)

// Independent WebSocket framing: nothing here comes from the code under test.

type Frame struct {
	Fin     bool
	Rsv     byte
	Op      byte
	Masked  bool
	Payload []byte
	Off     int // stream offset of the first header byte
	End     int // offset after the last payload byte
	Len     uint64
	Minimal bool
}

// parseFrame decodes one frame; n==0: incomplete. On an incomplete frame the header fields known so far are set.
func parseFrame(b []byte) (f Frame, n int, hdr int) {
	if len(b) < 2 {
		return
	}
	f.Fin = b[0]&0x80 != 0
	f.Rsv = b[0] & 0x70
	f.Op = b[0] & 0x0f
	f.Masked = b[1]&0x80 != 0
	l := uint64(b[1] & 0x7f)
	h := 2
	f.Minimal = true
	switch l {
	case 126:
		if len(b) < 4 {
			return
		}
		l = uint64(binary.BigEndian.Uint16(b[2:]))
		h = 4
		f.Minimal = l > 125
	case 127:
		if len(b) < 10 {
			return
		}
		l = binary.BigEndian.Uint64(b[2:])
		h = 10
		f.Minimal = l > 65535
	}
	f.Len = l
	var key []byte
	if f.Masked {
		if len(b) < h+4 {
			return
		}
		key = b[h : h+4]
		h += 4
	}
	hdr = h
	have := uint64(len(b) - h)
	take := min(have, l)
	f.Payload = append([]byte(nil), b[h:h+int(take)]...)
	for i := range f.Payload {
		if key != nil {
			f.Payload[i] ^= key[i&3]
		}
	}
	if have < l {
		return
	}
	return f, h + int(l), h
}

// encFrame builds a masked client frame.
func encFrame(fin bool, op byte, payload []byte, key uint32) []byte {
	var b []byte
	c := op
	if fin {
		c |= 0x80
	}
	b = append(b, c)
	n := len(payload)
	switch {
	case n < 126:
		b = append(b, 0x80|byte(n))
	case n < 65536:
		b = append(b, 0x80|126)
		b = binary.BigEndian.AppendUint16(b, uint16(n))
	default:
		b = append(b, 0x80|127)
		b = binary.BigEndian.AppendUint64(b, uint64(n))
	}
	var k [4]byte
	binary.LittleEndian.PutUint32(k[:], key)
	b = append(b, k[:]...)
	for i, x := range payload {
		b = append(b, x^k[i&3])
	}
	return b
}

type WireMsg struct {
	Type    byte
	Payload []byte
	Frames  int
	Off     int
	End     int
	EndSeq  int64
	EndT    int64
	Seq     int64 // first byte
}

type WireCtl struct {
	Op      byte
	Payload []byte
	Off     int
	End     int
	Seq     int64 // first byte
	EndSeq  int64
	T       int64
}

// Wire is the decoded server->client stream of one connection.
type Wire struct {
	Resp    []byte
	RespEnd int
	Msgs    []WireMsg
	Ctls    []WireCtl
	Close   *WireCtl
	Bad     []string
	BadOp   int // opcode of the first malformed frame (8 also for bytes after the close frame)
	// incomplete tail
	OpenType byte   // 0: no data message open
	Open     []byte // payload so far of the open message (complete frames and the torn one)
	TornOp   byte   // opcode of the torn frame (255: none)
	Torn     []byte
	TornLen  uint64
	TornHdr  bool // header complete
}

func (l *Link) seqAt(off int) (int64, int64) { // seq and time at which byte off was accepted
	lo, hi := 0, len(l.Segs)
	for lo < hi {
		m := (lo + hi) / 2
		if l.Segs[m].Off+l.Segs[m].N <= off {
			lo = m + 1
		} else {
			hi = m
		}
	}
	if lo < len(l.Segs) {
		return l.Segs[lo].Seq, l.Segs[lo].T
	}
	return 0, 0
}

func decodeWire(l *Link) *Wire {
	w := &Wire{TornOp: 255}
	b := l.Accepted
	i := bytes.Index(b, []byte("\r\n\r\n"))
	if i < 0 {
		w.Resp = b
		w.RespEnd = -1
		return w
	}
	w.RespEnd = i + 4
	w.Resp = b[:w.RespEnd]
	p := w.RespEnd
	var cur WireMsg
	open := false
	bad := func(f string, a ...any) {
		if len(w.Bad) == 0 {
			w.BadOp = 8
			if w.Close == nil && p < len(b) {
				w.BadOp = int(b[p] & 0x0f)
			}
		}
		if len(w.Bad) < 4 {
			w.Bad = append(w.Bad, fmt.Sprintf(f, a...))
		}
	}
	for p < len(b) {
		if w.Close != nil {
			bad("%d bytes follow the close frame", len(b)-p)
			return w
		}
		f, n, hdr := parseFrame(b[p:])
		if len(b)-p >= 2 {
			if f.Rsv != 0 {
				bad("frame at %d has reserved bits set (%#x)", p, b[p])
				return w
			}
			if f.Masked {
				bad("frame at %d is masked", p)
				return w
			}
			switch f.Op {
			case 8, 9, 10:
				if !f.Fin {
					bad("fragmented control frame at %d", p)
					return w
				}
				if b[p+1]&0x7f > 125 {
					bad("control frame at %d announces more than 125 bytes", p)
					return w
				}
			case 0:
				if !open {
					bad("continuation frame at %d without a started message", p)
					return w
				}
			case 1, 2:
				if open {
					bad("data frame (opcode %d) at %d inside a fragmented message", f.Op, p)
					return w
				}
			default:
				bad("unknown opcode %d at %d", f.Op, p)
				return w
			}
		}
		if n == 0 {
			// torn frame at the end of the stream
			if hdr > 0 {
				w.TornHdr = true
				w.TornLen = f.Len
			}
			if len(b)-p >= 1 {
				w.TornOp = b[p] & 0x0f
			}
			w.Torn = f.Payload
			if w.TornOp < 8 {
				if open {
					w.OpenType = cur.Type
					w.Open = append(cur.Payload, f.Payload...)
				} else if w.TornOp == 1 || w.TornOp == 2 {
					w.OpenType = w.TornOp
					w.Open = f.Payload
				}
			} else if open {
				w.OpenType = cur.Type
				w.Open = cur.Payload
			}
			return w
		}
		if !f.Minimal {
			bad("frame at %d does not use the minimal length encoding", p)
			return w
		}
		s0, _ := l.seqAt(p)
		s1, t1 := l.seqAt(p + n - 1)
		switch f.Op {
		case 8, 9, 10:
			c := WireCtl{Op: f.Op, Payload: f.Payload, Off: p, End: p + n, Seq: s0, EndSeq: s1, T: t1}
			w.Ctls = append(w.Ctls, c)
			if f.Op == 8 {
				if len(f.Payload) == 1 {
					bad("close frame with a one-byte payload")
				}
				w.Close = &c
			}
		default:
			if f.Op != 0 {
				cur = WireMsg{Type: f.Op, Off: p, Seq: s0}
				open = true
			}
			cur.Payload = append(cur.Payload, f.Payload...)
			cur.Frames++
			if f.Fin {
				cur.End, cur.EndSeq, cur.EndT = p+n, s1, t1
				w.Msgs = append(w.Msgs, cur)
				cur = WireMsg{}
				open = false
			}
		}
		p += n
	}
	if open {
		w.OpenType = cur.Type
		w.Open = cur.Payload
	}
	return w
}

// ---- deterministic payloads ----

func mix64(x uint64) uint64 {
	x += 0x9E3779B97F4A7C15
	x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9
	x = (x ^ (x >> 27)) * 0x94D049BB133111EB
	return x ^ (x >> 31)
}

// payload is the unique content of message id: kind 't' printable text, 'b' bytes, 'j' a JSON string.
func payload(id, size int, kind byte) []byte {
	b := make([]byte, size)
	var x uint64
	for i := range b {
		if i&7 == 0 {
			x = mix64(uint64(id)*0x1000193 + uint64(i>>3)*0x10001 + uint64(kind))
		}
		c := byte(x)
		x >>= 8
		if kind == 'b' {
			b[i] = c
		} else {
			b[i] = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_"[c&63]
		}
	}
	if kind == 'j' {
		if size < 2 {
			return []byte("0")
		}
		b[0], b[size-1] = '"', '"'
	}
	return b
}
