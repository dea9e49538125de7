package main

import (
	"encoding/binary"
	"fmt"
	"unicode/utf8"
)

// clientPayload is the content of a client message.
func clientPayload(op *COp) []byte {
	switch op.Kind {
	case "u":
		return utf8Payload(op.ID, op.Sz)
	case "x": // text that is not UTF-8
		b := utf8Payload(op.ID, max(op.Sz, 1))
		bad := [][]byte{{0xff}, {0xc0, 0xaf}, {0xed, 0xa0, 0x80}, {0xf4, 0x90, 0x80, 0x80}, {0xe2, 0x82}}[op.Code%5]
		at := op.At2() % (len(b) + 1)
		for at < len(b) && b[at]&0xc0 == 0x80 {
			at--
		}
		if len(bad) == 2 && bad[0] == 0xe2 { // truncated at the very end
			at = len(b)
		}
		out := append([]byte(nil), b[:at]...)
		out = append(out, bad...)
		return append(out, b[at:]...)
	case "p": // a JSON value followed by more text
		b := payload(op.ID, max(op.Sz, 2), 'j')
		return append(append(b, ' '), payload(op.ID+1, op.Code, 't')...)
	case "":
		if op.Ty == 2 {
			return payload(op.ID, op.Sz, 'b')
		}
		return payload(op.ID, op.Sz, 't')
	}
	return payload(op.ID, op.Sz, op.Kind[0])
}

func (op *COp) At2() int { return int(op.R) }

func utf8Payload(id, size int) []byte {
	rs := []rune("aé€😀bÿ中\u07ff\uffff\U0010ffff z")
	var b []byte
	x := uint64(id) * 77
	for len(b) < size {
		x = mix64(x)
		r := string(rs[x%uint64(len(rs))])
		if len(b)+len(r) > size {
			b = append(b, '.')
			continue
		}
		b = append(b, r...)
	}
	return b
}

func closePayload(op *COp) (p []byte, codes []int, reason string) {
	switch op.Kind {
	case "empty":
		return nil, []int{-1, 1000}, ""
	case "one":
		return []byte{3}, []int{1002}, ""
	}
	p = binary.BigEndian.AppendUint16(nil, uint16(op.Code))
	switch op.Kind {
	case "utf8":
		// somewhere in a valid reason: a bare continuation, an invalid byte, overlong forms, a surrogate, beyond the last
		// code point, and sequences that are cut off by the end
		bad := [][]byte{{0xff}, {0x80}, {0xc0, 0xaf}, {0xe0, 0x80, 0xaf}, {0xed, 0xa0, 0x80}, {0xf4, 0x90, 0x80, 0x80}, {0xc3}, {0xe2, 0x82}, {0xf0, 0x9f, 0x98}}[op.ID%9]
		p = append(p, utf8Payload(op.ID, op.Sz)...)
		p = append(p, bad...)
		if op.ID%9 < 6 && op.ID%2 == 0 {
			p = append(p, 'b')
		}
		return p, []int{1002, 1007}, ""
	}
	r := utf8Payload(op.ID, op.Sz)
	p = append(p, r...)
	if !validCode(op.Code) {
		return p, []int{1002}, ""
	}
	return p, []int{op.Code}, string(r)
}

// malformedClose: the payload of a close frame that a conforming peer does not send.
func malformedClose(p []byte) bool {
	return len(p) == 1 || len(p) >= 2 && (!validCode(int(binary.BigEndian.Uint16(p))) || !utf8.Valid(p[2:]))
}

// validCode: close codes that may appear on the wire (RFC 6455 7.4 without the neutral 1012-1014).
func validCode(c int) bool {
	switch c {
	case 1000, 1001, 1002, 1003, 1007, 1008, 1009, 1010, 1011:
		return true
	}
	return c >= 3000 && c <= 4999
}

// badFrames builds an offending sequence; codes are the acceptable close codes, first the offset of the offending frame.
func badFrames(op *COp) (out [][]byte, codes []int, first int) {
	k := op.Key
	pl := payload(op.ID, op.Sz, 't')
	proto := []int{1002}
	small := pl[:min(len(pl), 125)]
	setb := func(b []byte, mask byte) []byte { b[0] |= mask; return b }
	unmask := func(o byte, p []byte) []byte {
		b := []byte{0x80 | o}
		switch {
		case len(p) < 126:
			b = append(b, byte(len(p)))
		case len(p) < 65536:
			b = append(b, 126, byte(len(p)>>8), byte(len(p)))
		default:
			b = append(b, 127)
			b = binary.BigEndian.AppendUint64(b, uint64(len(p)))
		}
		return append(b, p...)
	}
	switch op.Kind {
	case "rsv1", "rsv2", "rsv3":
		m := map[string]byte{"rsv1": 0x40, "rsv2": 0x20, "rsv3": 0x10}[op.Kind]
		return [][]byte{setb(encFrame(true, byte(op.Ty), pl, k), m)}, proto, 0
	case "rsvctl":
		return [][]byte{setb(encFrame(true, byte(8+op.Code%3), nil, k), []byte{0x40, 0x20, 0x10, 0x70}[op.Code%4])}, proto, 0
	case "rsvcont":
		a := encFrame(false, byte(op.Ty), pl, k)
		return [][]byte{a, setb(encFrame(true, 0, pl, k), 0x40)}, proto, len(a)
	case "unmasked":
		return [][]byte{unmask(byte(op.Ty), pl)}, proto, 0
	case "unmaskedctl":
		o := []byte{9, 10, 8}[op.Code%3]
		p := small
		if o == 8 {
			p = []byte{3, 0xe8}
		}
		return [][]byte{unmask(o, p)}, proto, 0
	case "unmaskedcont":
		a := encFrame(false, byte(op.Ty), pl, k)
		return [][]byte{a, unmask(0, pl)}, proto, len(a)
	case "opcode":
		o := []byte{3, 4, 5, 6, 7, 11, 12, 13, 14, 15}[op.Code%10]
		return [][]byte{encFrame(op.Sz%2 == 0, o, pl, k)}, proto, 0
	case "opcodefrag":
		a := encFrame(false, byte(op.Ty), pl, k)
		o := []byte{3, 4, 5, 6, 7, 11, 12, 13, 14, 15}[op.Code%10]
		return [][]byte{a, encFrame(true, o, pl, k)}, proto, len(a)
	case "fragctl":
		o := []byte{9, 10, 8}[op.Code%3]
		p := small
		if o == 8 {
			p = []byte{3, 0xe8}
		}
		return [][]byte{encFrame(false, o, p, k)}, proto, 0
	case "bigctl":
		o := []byte{9, 10, 8}[op.Code%3]
		p := payload(op.ID, 126+op.Sz, 't')
		if o == 8 {
			p[0], p[1] = 3, 0xe8
		}
		return [][]byte{encFrame(true, o, p, k)}, proto, 0
	case "orphan":
		return [][]byte{encFrame(op.Code%2 == 0, 0, pl, k)}, proto, 0
	case "nested":
		a := encFrame(false, byte(op.Ty), pl, k)
		return [][]byte{a, encFrame(true, byte(1+op.Code%2), payload(op.ID+1, op.Sz, 't'), k)}, proto, len(a)
	case "len63":
		b := []byte{0x80 | byte(op.Ty), 0x80 | 127, 0x80, 0, 0, 0, 0, 0, 0, byte(op.Sz), 1, 2, 3, 4}
		return [][]byte{append(b, pl...)}, []int{1002, 1009}, 0
	}
	panic(fmt.Sprint("unknown bad kind ", op.Kind))
}
