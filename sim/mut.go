package main

import "encoding/binary"

// Mut damages a structure before it is signed, so that malformed content
// arrives under a valid signature.
type Mut struct {
	Kind string `json:"kind"`
	Pos  int    `json:"pos"`
	Len  int    `json:"len,omitempty"`
	Val  uint64 `json:"val,omitempty"`
}

func mutBytes(b []byte, ms []Mut) []byte {
	if len(ms) == 0 {
		return b
	}
	b = append([]byte(nil), b...)
	for _, m := range ms {
		if len(b) == 0 {
			return b
		}
		p := m.Pos % len(b)
		if p < 0 {
			p += len(b)
		}
		n := m.Len
		if n < 1 {
			n = 1
		}
		if p+n > len(b) {
			n = len(b) - p
		}
		switch m.Kind {
		case "set1":
			b[p] = byte(m.Val)
		case "set4":
			if p+4 <= len(b) {
				binary.LittleEndian.PutUint32(b[p:], uint32(m.Val))
			}
		case "add4":
			if p+4 <= len(b) {
				binary.LittleEndian.PutUint32(b[p:], binary.LittleEndian.Uint32(b[p:])+uint32(m.Val))
			}
		case "del":
			b = append(b[:p:p], b[p+n:]...)
		case "ins":
			b = append(b[:p:p], append(filler(m.Val, n), b[p:]...)...)
		case "dup":
			b = append(b[:p+n:p+n], b[p:]...)
		case "zero":
			for i := 0; i < n; i++ {
				b[p+i] = 0
			}
		case "trunc":
			b = b[:p]
		case "rep":
			b = append(b[:p:p], append(repeat(byte(m.Val), n), b[p:]...)...)
		case "nest": // the tail wrapped n times in the same kind of element
			t := byte(m.Val)
			if t == 0 {
				t = 0x30
			}
			tail := append([]byte(nil), b[p:]...)
			var pre []byte
			for i := 0; i < n && i < 3000; i++ {
				pre = append(pre, t, 0x80)
			}
			b = append(append(b[:p:p], pre...), tail...)
		}
	}
	return b
}

func repeat(c byte, n int) []byte {
	out := make([]byte, n)
	for i := range out {
		out[i] = c
	}
	return out
}

var specials = []uint64{0, 1, 2, 3, 4, 7, 8, 0x30, 0x7f, 0x80, 0x81, 0x84, 0xff, 0x7fffffff, 0x80000000, 0xffffffff, 0xfffffff8, 0xfffffffc, 0xffff, 0x10000}

func genMuts(r *Rng, n int) []Mut {
	var out []Mut
	for i := 0; i < n; i++ {
		m := Mut{Kind: pick(r, "set1", "set1", "set1", "set4", "set4", "add4", "del", "ins", "dup", "zero", "trunc", "rep", "nest"), Pos: r.N(1 << 14), Len: 1 + r.N(8), Val: specials[r.N(len(specials))]}
		if r.P(40) {
			m.Pos = r.N(64)
		}
		if r.P(30) {
			m.Val = r.U64()
		}
		if m.Kind == "add4" {
			m.Val = uint64(r.Range(-8, 8))
		}
		if m.Kind == "rep" {
			m.Len = 1 + r.N(64)
		}
		if m.Kind == "nest" {
			m.Len = 1 + r.N(3000)
			if r.P(60) {
				m.Len = 1 + r.N(4)
			}
			m.Val = uint64(pick(r, 0x30, 0x24, 0xa0, 0x31, 0x1f))
		}
		out = append(out, m)
	}
	return out
}
