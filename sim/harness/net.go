package main

import (
	"bufio"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"os"
	"syscall"

	"verif/shim/time"
	"verif/simrt"
)

const ms = int64(1e6)

// ioVC mirrors the happens-before edges the Go runtime's race detector gives reads and writes of descriptors.
var ioVC simrt.VC

// Seg is one run of bytes accepted by the transport.
type Seg struct {
	Seq, T int64
	Off    int
	N      int
	G      string
}

// WCall is one Write call of the library on the transport.
type WCall struct {
	Seq, T int64
	EndSeq int64
	EndT   int64
	G      string
	Off    int
	Want   int
	N      int
	Err    string
}

// Link is a simulated TCP connection; the server side implements net.Conn.
type Link struct {
	w   *World
	id  int
	p   *LinkPlan
	now func() int64

	// server -> client
	fdw      fdMutex
	Accepted []byte
	Segs     []Seg
	WCalls   []WCall
	inflight int // accepted, not yet taken by the client
	taken    int
	spaceQ   simrt.WaitQ
	dataQ    simrt.WaitQ // client waits for data
	wdl      int64
	wdlT     *simrt.Timer
	nWdl     int
	werr     error
	CliRead  bool
	cliRate  int64

	// client -> server
	Sent    int // bytes handed to the network by the client
	rbuf    []byte
	Deliv   int // bytes delivered into rbuf so far
	RSeqs   []Seg
	cliBusy int64 // time the previous chunk arrives (keeps order)
	rfin    bool
	rrst    bool
	finT    int64
	rQ      simrt.WaitQ
	rdl     int64
	rdlT    *simrt.Timer
	nRdl    int
	nRead   int
	LastArr int64 // time of the last delivery to the server

	// life
	Closed    bool
	ClosedT   int64
	ClosedSeq int64
	NClose    int
	OpenT     int64
	Faulty    map[string]int
	WriteHold int // concurrent writes waiting for the descriptor
}

type fdMutex struct {
	held bool
	q    simrt.WaitQ
}

func (m *fdMutex) lock(closed *bool) bool {
	for m.held {
		if *closed {
			return false
		}
		m.q.Wait("fd write lock", 0)
	}
	if *closed {
		return false
	}
	m.held = true
	return true
}
func (m *fdMutex) unlock() { m.held = false; m.q.WakeOne() }

func newLink(w *World, id int, p *LinkPlan) *Link {
	return &Link{w: w, id: id, p: p, CliRead: true, Faulty: map[string]int{}, OpenT: simrt.S.Now}
}

type simAddr string

func (a simAddr) Network() string { return "sim" }
func (a simAddr) String() string  { return string(a) }

func (l *Link) LocalAddr() net.Addr { return simAddr("server") }
func (l *Link) RemoteAddr() net.Addr {
	if l.w.p.SameAddr {
		return simAddr("client")
	}
	return simAddr(fmt.Sprintf("client-%d", l.id))
}

func opErr(op string, err error) error { return &net.OpError{Op: op, Net: "sim", Err: err} }

func (l *Link) fault(k string) { l.Faulty[k]++; l.w.fault(k) }

// Write accepts bytes into the bounded send buffer, with the semantics of a stream socket.
func (l *Link) Write(p []byte) (n int, err error) {
	simrt.Point()
	l.WriteHold++
	ok := l.fdw.lock(&l.Closed)
	l.WriteHold--
	if !ok {
		return 0, opErr("write", net.ErrClosed)
	}
	defer l.fdw.unlock()
	wi := len(l.WCalls)
	l.WCalls = append(l.WCalls, WCall{Seq: l.w.tick(), T: simrt.S.Now, G: simrt.Cur().Name, Off: len(l.Accepted), Want: len(p)})
	defer func() {
		if simrt.Killing() {
			return
		}
		c := &l.WCalls[wi]
		c.N, c.EndSeq, c.EndT = n, l.w.tick(), simrt.S.Now
		if err != nil {
			c.Err = err.Error()
		}
	}()
	simrt.Rel(&ioVC)
	g := simrt.Cur().Name
	for {
		if l.Closed {
			return n, opErr("write", net.ErrClosed)
		}
		if l.wdl != 0 && simrt.S.Now >= l.wdl {
			l.fault("write-timeout")
			if n > 0 {
				l.fault("partial-write-timeout")
			}
			return n, opErr("write", os.ErrDeadlineExceeded)
		}
		if l.werr != nil {
			return n, opErr("write", l.werr)
		}
		if n == len(p) {
			return n, nil
		}
		space := l.p.SndBuf - l.inflight
		k := min(len(p)-n, space)
		if l.p.WErrAt > 0 {
			left := l.p.WErrAt - len(l.Accepted)
			if left <= 0 {
				l.fault("write-error")
				l.werr = syscall.ECONNRESET
				if l.p.WErrPipe {
					l.werr = syscall.EPIPE
				}
				return n, opErr("write", l.werr)
			}
			k = min(k, left)
		}
		if k > 0 && l.p.WChunk > 0 {
			k = min(k, max(l.p.WChunk, len(p)/2000)) // a bounded number of pieces per call
		}
		if k > 0 {
			l.Segs = append(l.Segs, Seg{l.w.tick(), simrt.S.Now, len(l.Accepted), k, g})
			l.Accepted = append(l.Accepted, p[n:n+k]...)
			l.inflight += k
			n += k
			l.dataQ.WakeAll()
			simrt.Point()
			continue
		}
		l.fault("send-buffer-full")
		l.spaceQ.Wait("transport write (send buffer full)", l.wdl)
	}
}

// Read returns bytes that have arrived, at most RChunk and possibly fewer.
func (l *Link) Read(p []byte) (int, error) {
	simrt.Point()
	for {
		if l.Closed {
			return 0, opErr("read", net.ErrClosed)
		}
		if l.rdl != 0 && simrt.S.Now >= l.rdl {
			l.fault("read-timeout")
			return 0, opErr("read", os.ErrDeadlineExceeded)
		}
		if len(p) == 0 {
			return 0, nil
		}
		if l.p.RErrAt > 0 && l.nRead >= l.p.RErrAt {
			l.fault("read-error")
			return 0, opErr("read", syscall.ECONNRESET)
		}
		if len(l.rbuf) > 0 {
			k := min(len(p), len(l.rbuf))
			if l.p.RChunk > 0 && k > l.p.RChunk {
				k = l.p.RChunk
			}
			if l.p.RErrAt > 0 {
				k = min(k, l.p.RErrAt-l.nRead)
			}
			if l.p.RShort && k > 1 {
				if c := simrt.ChooseW(k, 0.3); c > 0 {
					k = c
					l.fault("short-read")
				}
			}
			copy(p, l.rbuf[:k])
			l.rbuf = l.rbuf[k:]
			l.nRead += k
			simrt.Acq(&ioVC)
			return k, nil
		}
		if l.rrst {
			l.fault("read-reset")
			return 0, opErr("read", syscall.ECONNRESET)
		}
		if l.rfin {
			return 0, io.EOF
		}
		l.rQ.Wait("transport read", l.rdl)
	}
}

func (l *Link) Close() error {
	simrt.Point()
	l.NClose++
	if l.Closed {
		return opErr("close", net.ErrClosed)
	}
	l.Closed, l.ClosedT, l.ClosedSeq = true, simrt.S.Now, l.w.tick()
	simrt.S.Stop(l.rdlT)
	simrt.S.Stop(l.wdlT)
	l.rQ.WakeAll()
	l.spaceQ.WakeAll()
	l.dataQ.WakeAll()
	l.fdw.q.WakeAll()
	return nil
}

func (l *Link) SetDeadline(t time.Time) error {
	if err := l.SetReadDeadline(t); err != nil {
		return err
	}
	return l.SetWriteDeadline(t)
}

func (l *Link) SetReadDeadline(t time.Time) error {
	simrt.Point()
	if l.Closed {
		return opErr("set", net.ErrClosed)
	}
	l.nRdl++
	if l.p.RdlErrAt > 0 && l.nRdl == l.p.RdlErrAt {
		l.fault("set-read-deadline-error")
		return opErr("set", syscall.EINVAL)
	}
	simrt.S.Stop(l.rdlT)
	l.rdlT, l.rdl = nil, 0
	if !t.IsZero() {
		l.rdl = max(time.Sim(t), 1)
		l.rdlT = simrt.S.After(l.rdl-simrt.S.Now, l.rQ.WakeAll)
	}
	l.rQ.WakeAll()
	return nil
}

func (l *Link) SetWriteDeadline(t time.Time) error {
	simrt.Point()
	if l.Closed {
		return opErr("set", net.ErrClosed)
	}
	l.nWdl++
	if l.p.WdlErrAt > 0 && l.nWdl == l.p.WdlErrAt {
		l.fault("set-write-deadline-error")
		return opErr("set", syscall.EINVAL)
	}
	simrt.S.Stop(l.wdlT)
	l.wdlT, l.wdl = nil, 0
	if !t.IsZero() {
		l.wdl = max(time.Sim(t), 1)
		l.wdlT = simrt.S.After(l.wdl-simrt.S.Now, l.spaceQ.WakeAll)
	}
	l.spaceQ.WakeAll()
	return nil
}

// ---- client side ----

// cliSend hands bytes to the network; they arrive in order after the link latency.
func (l *Link) cliSend(b []byte) {
	if l.rrst || l.rfin {
		return
	}
	l.Sent += len(b)
	s := simrt.S
	d := l.p.Lat
	if l.p.Jitter > 0 {
		d += int64(simrt.ChooseW(8, 0.4)) * l.p.Jitter / 8
	}
	at := max(s.Now+d, l.cliBusy)
	l.cliBusy = at
	data := append([]byte(nil), b...)
	arrive := func() {
		l.rbuf = append(l.rbuf, data...)
		l.Deliv += len(data)
		l.LastArr = s.Now
		l.RSeqs = append(l.RSeqs, Seg{Seq: l.w.tick(), T: s.Now, Off: l.Deliv - len(data), N: len(data)})
		l.rQ.WakeAll()
	}
	if at <= s.Now {
		arrive()
		return
	}
	s.After(at-s.Now, arrive)
}

// cliFin half-closes the client's direction.
func (l *Link) cliFin() {
	at := max(simrt.S.Now+l.p.Lat, l.cliBusy)
	l.cliBusy = at
	simrt.S.After(at-simrt.S.Now, func() {
		if !l.rfin {
			l.rfin = true
			l.finT = simrt.S.Now
			l.fault("client-eof")
		}
		l.rQ.WakeAll()
	})
}

// cliReset aborts the connection: bytes already arrived stay readable, then both directions fail.
func (l *Link) cliReset() {
	at := max(simrt.S.Now+l.p.Lat, l.cliBusy)
	l.cliBusy = at
	simrt.S.After(at-simrt.S.Now, func() {
		if !l.rrst {
			l.rrst = true
			l.finT = simrt.S.Now
			l.fault("client-reset")
		}
		if l.werr == nil {
			l.werr = syscall.ECONNRESET
		}
		l.rQ.WakeAll()
		l.spaceQ.WakeAll()
		l.dataQ.WakeAll()
	})
}

// cliTake blocks the client until server bytes are available and takes some of them; false at end of stream.
func (l *Link) cliTake() ([]byte, bool) {
	for {
		if l.CliRead && l.inflight > 0 && !l.rrst {
			k := l.inflight
			if l.p.CChunk > 0 {
				k = min(k, max(l.p.CChunk, k/2000))
			}
			b := l.Accepted[l.taken : l.taken+k]
			if l.cliRate > 0 {
				l.fault("slow-client")
				simrt.Sleep(max(int64(k)*l.cliRate, 1))
				if l.rrst {
					return nil, false
				}
			}
			l.taken += k
			l.inflight -= k
			l.spaceQ.WakeAll()
			return b, true
		}
		if l.rrst || (l.Closed && l.inflight == 0) {
			return nil, false
		}
		if l.Closed && !l.CliRead {
			return nil, false
		}
		l.dataQ.Wait("client waits for data", 0)
	}
}

// ---- hijackable response writer ----

type respWriter struct {
	w      *World
	ci     int
	link   *Link
	hdr    http.Header
	Status []int
	Seqs   []int64
	Body   []byte
	Hij    int
	HijSeq int64
	br     *bufio.Reader
	p      *ConnPlan
	Post   int // writes after a successful takeover
}

var errHijack = errors.New("hijack refused")

func (r *respWriter) Header() http.Header { return r.hdr }
func (r *respWriter) WriteHeader(c int) {
	simrt.Point()
	if r.Hij > 0 {
		r.Post++
		return
	}
	r.Status = append(r.Status, c)
	r.Seqs = append(r.Seqs, r.w.tick())
}
func (r *respWriter) Write(b []byte) (int, error) {
	simrt.Point()
	if r.Hij > 0 {
		r.Post++
		return 0, http.ErrHijacked
	}
	if len(r.Status) == 0 {
		r.WriteHeader(200)
	}
	r.Body = append(r.Body, b...)
	return len(b), nil
}
func (r *respWriter) Flush() {}

func (r *respWriter) Hijack() (net.Conn, *bufio.ReadWriter, error) {
	simrt.Point()
	if r.p.HijackErr {
		r.w.fault("hijack-error")
		return nil, nil, errHijack
	}
	if r.Hij > 0 {
		return nil, nil, http.ErrHijacked
	}
	r.Hij++
	r.HijSeq = r.w.tick()
	return r.link, bufio.NewReadWriter(r.br, bufio.NewWriterSize(r.link, max(r.p.HWBuf, 16))), nil
}
