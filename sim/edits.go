package main

import "encoding/binary"

// Edit is one corruption or manipulation of the bytes on the simulated disk:
// what torn, lost, misdirected or Byzantine writes leave behind.
type Edit struct {
	Kind   string `json:"kind"`
	Region string `json:"region,omitempty"` // "", data, block, cd, eocd, pair
	ID     uint32 `json:"id,omitempty"`     // pair id for region pair and pair edits
	Pos    int    `json:"pos,omitempty"`    // offset inside the region; negative counts from its end
	Len    int    `json:"len,omitempty"`
	Val    uint64 `json:"val,omitempty"`
	From   int    `json:"from,omitempty"` // source APK for splices
}

// regionOf resolves a symbolic region of an APK image.
func regionOf(b []byte, e *Edit) (int, int) {
	l, ok := refLayout(b)
	if !ok || e.Region == "" {
		return 0, len(b)
	}
	switch e.Region {
	case "data":
		return 0, l.SigOff
	case "block":
		return l.SigOff, l.CdOff
	case "cd":
		return l.CdOff, l.EocdOff
	case "eocd":
		return l.EocdOff, len(b)
	case "pair":
		if !l.HasBlock || l.BlockBad {
			return l.SigOff, l.CdOff
		}
		off := l.SigOff + 8
		for _, p := range l.Pairs {
			if p.ID == e.ID {
				return off + 12, off + 12 + len(p.Data)
			}
			off += 12 + len(p.Data)
		}
		return l.SigOff, l.CdOff
	}
	return 0, len(b)
}

func withPairs(b []byte, f func([]Pair) []Pair) []byte {
	l, ok := refLayout(b)
	if !ok || !l.HasBlock || l.BlockBad {
		return b
	}
	ps := f(append([]Pair(nil), l.Pairs...))
	s := sectionsOf(b, l)
	return assemble(s, encodeSigBlock(ps, false))
}

func applyEdits(base []byte, edits []Edit, apks []*Built) []byte {
	b := append([]byte(nil), base...)
	for i := range edits {
		b = applyEdit(b, &edits[i], apks)
	}
	return b
}

func applyEdit(b []byte, e *Edit, apks []*Built) []byte {
	lo, hi := regionOf(b, e)
	at := lo + e.Pos
	if e.Pos < 0 {
		at = hi + e.Pos
	}
	n := e.Len
	inside := func() bool {
		if at < lo || at >= hi || lo >= hi {
			return false
		}
		if n < 1 {
			n = 1
		}
		if at+n > hi {
			n = hi - at
		}
		return true
	}
	switch e.Kind {
	case "flip":
		if inside() {
			b[at] ^= 1 << (e.Val % 8)
		}
	case "set":
		if inside() {
			v := e.Val
			for i := 0; i < n && i < 8; i++ {
				b[at+i] = byte(v)
				v >>= 8
			}
		}
	case "zero":
		if inside() {
			for i := 0; i < n; i++ {
				b[at+i] = 0
			}
		}
	case "rand":
		if inside() {
			copy(b[at:at+n], filler(e.Val, n))
		}
	case "torn": // a write that stopped: old bytes of another artefact remain
		if inside() && e.From >= 0 && e.From < len(apks) {
			o := apks[e.From].Bytes
			if at < len(o) {
				copy(b[at:at+n], o[at:])
			}
		}
	case "trunc":
		if inside() {
			b = b[:at]
		}
	case "insert":
		if at >= lo && at <= hi {
			b = append(b[:at:at], append(filler(e.Val, n), b[at:]...)...)
		}
	case "delete":
		if inside() {
			b = append(b[:at:at], b[at+n:]...)
		}
	case "swap": // two sectors exchanged
		if inside() {
			q := lo + int(e.Val%uint64(hi-lo))
			for i := 0; i < n && at+i < hi && q+i < hi; i++ {
				b[at+i], b[q+i] = b[q+i], b[at+i]
			}
		}
	case "copy": // misdirected write
		if inside() {
			q := lo + int(e.Val%uint64(hi-lo))
			m := n
			if q+m > hi {
				m = hi - q
			}
			copy(b[at:at+n], append([]byte(nil), b[q:q+m]...))
		}
	case "append":
		b = append(b, filler(e.Val, n)...)
	case "prefix":
		b = append(filler(e.Val, n), b...)
	case "drop-pair":
		b = withPairs(b, func(ps []Pair) []Pair {
			var out []Pair
			for _, p := range ps {
				if p.ID != e.ID {
					out = append(out, p)
				}
			}
			return out
		})
	case "rename-pair":
		b = withPairs(b, func(ps []Pair) []Pair {
			for i := range ps {
				if ps[i].ID == e.ID {
					ps[i].ID = uint32(e.Val)
				}
			}
			return ps
		})
	case "empty-pair":
		b = withPairs(b, func(ps []Pair) []Pair {
			for i := range ps {
				if ps[i].ID == e.ID {
					ps[i].Data = nil
				}
			}
			return ps
		})
	case "no-signers":
		b = withPairs(b, func(ps []Pair) []Pair {
			for i := range ps {
				if ps[i].ID == e.ID {
					ps[i].Data = lp()
				}
			}
			return ps
		})
	case "add-pair":
		b = withPairs(b, func(ps []Pair) []Pair { return append(ps, Pair{e.ID, filler(e.Val, e.Len)}) })
	case "graft-pair": // another artefact's signature under these contents
		if e.From >= 0 && e.From < len(apks) {
			src := apks[e.From].Pairs[e.ID]
			l, ok := refLayout(b)
			if src == nil || !ok || l.BlockBad {
				return b
			}
			if !l.HasBlock {
				return assemble(sectionsOf(b, l), encodeSigBlock([]Pair{{e.ID, src}}, false))
			}
			b = withPairs(b, func(ps []Pair) []Pair {
				for i := range ps {
					if ps[i].ID == e.ID {
						ps[i].Data = src
						return ps
					}
				}
				return append(ps, Pair{e.ID, src})
			})
		}
	case "graft-block": // the whole signing block of another artefact
		if e.From >= 0 && e.From < len(apks) {
			o := apks[e.From].Bytes
			l, ok := refLayout(b)
			l2, ok2 := refLayout(o)
			if ok && ok2 && l2.HasBlock {
				return assemble(sectionsOf(b, l), o[l2.SigOff:l2.CdOff])
			}
		}
	case "graft-cd", "graft-data", "graft-eocd":
		if e.From >= 0 && e.From < len(apks) {
			o := apks[e.From].Bytes
			l, ok := refLayout(b)
			l2, ok2 := refLayout(o)
			if ok && ok2 {
				s, s2 := sectionsOf(b, l), sectionsOf(o, l2)
				switch e.Kind {
				case "graft-cd":
					s.CD = s2.CD
					binary.LittleEndian.PutUint32(s.EOCD[12:], uint32(len(s.CD)))
				case "graft-data":
					s.Data = s2.Data
				default:
					s.EOCD = append([]byte(nil), s2.EOCD...)
					binary.LittleEndian.PutUint32(s.EOCD[12:], uint32(len(s.CD)))
				}
				return assemble(s, b[l.SigOff:l.CdOff])
			}
		}
	case "gap": // bytes between the sections, with or without matching offsets
		l, ok := refLayout(b)
		if !ok {
			return b
		}
		at := map[string]int{"data": l.SigOff, "block": l.CdOff, "cd": l.EocdOff}[e.Region]
		fixed := e.Val&1 != 0
		g := filler(e.Val, n)
		if e.Val&2 != 0 {
			g = make([]byte, n)
		}
		b = append(b[:at:at], append(g, b[at:]...)...)
		eo := l.EocdOff + n
		if fixed {
			switch e.Region {
			case "data", "block":
				binary.LittleEndian.PutUint32(b[eo+16:], uint32(l.CdOff+n))
			case "cd":
				binary.LittleEndian.PutUint32(b[eo+12:], uint32(l.EocdOff-l.CdOff+n))
			}
		}
	case "comment": // the archive comment replaced, with a matching length
		if l, ok := refLayout(b); ok {
			c := filler(e.Val, n)
			if e.Val&1 != 0 && len(b)-l.EocdOff-22 > 0 { // extended or cut
				c = append([]byte(nil), b[l.EocdOff+22:]...)
				if n < len(c) && e.Val&2 != 0 {
					c = c[:n]
				} else if len(c) < 65000 {
					c = append(c, filler(e.Val, n)...)
				}
			}
			b = append(b[:l.EocdOff+20:l.EocdOff+20], append(le16(len(c)), c...)...)
		}
	case "tiny": // hardly more than a piece of an end record is left
		if l, ok := refLayout(b); ok {
			t := b[l.EocdOff:]
			if n < len(t) {
				t = t[:n]
			}
			b = append(filler(e.Val, int(e.Val%5)), t...)
			if e.Val&32 != 0 { // cut in front
				b = t[len(t)-int(e.Val%uint64(len(t)+1)):]
			}
			b = append([]byte(nil), b...)
		}
	case "strip-block":
		if l, ok := refLayout(b); ok {
			return assemble(sectionsOf(b, l), nil)
		}
	case "dup-pair": // the same id twice, the second damaged or foreign
		b = withPairs(b, func(ps []Pair) []Pair {
			for _, p := range ps {
				if p.ID == e.ID {
					d := append([]byte(nil), p.Data...)
					if e.From > 0 && e.From <= len(apks) && apks[e.From-1].Pairs[e.ID] != nil {
						d = append([]byte(nil), apks[e.From-1].Pairs[e.ID]...)
					} else if len(d) > 0 {
						d[int(e.Val%uint64(len(d)))] ^= 1
					}
					if e.Len%2 == 0 {
						return append(ps, Pair{e.ID, d})
					}
					return append([]Pair{{e.ID, d}}, ps...)
				}
			}
			return ps
		})
	}
	return b
}
