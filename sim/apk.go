package main

import (
	"crypto"
	"crypto/sha256"
	"encoding/binary"
	"sort"
)

type EntrySpec struct {
	Name    string `json:"name"`
	Size    int    `json:"size"`
	Ver     int    `json:"ver,omitempty"`
	Deflate bool   `json:"deflate,omitempty"`
	DD      bool   `json:"dd,omitempty"`
	Extra   int    `json:"extra,omitempty"`
	Dir     bool   `json:"dir,omitempty"`
}

type ExtraSpec struct {
	ID   uint32 `json:"id"`
	Len  int    `json:"len"`
	Zero bool   `json:"zero,omitempty"`
}

type StampSpec struct {
	Key      string       `json:"key"`
	Algos    []uint32     `json:"algos,omitempty"`
	Schemes  []int32      `json:"schemes,omitempty"` // which scheme digests are stamped; empty = all present
	Time     int64        `json:"time,omitempty"`
	Lineage  *LineageSpec `json:"lineage,omitempty"`
	NoAttrs  bool         `json:"noattrs,omitempty"`
	NoEntry  bool         `json:"noentry,omitempty"`
	EntryOf  string       `json:"entryof,omitempty"` // hash of whose certificate is in the zip entry
	Byz      string       `json:"byz,omitempty"`
	ByzKey   string       `json:"byzkey,omitempty"`
	ByzAt    int          `json:"byzat,omitempty"`
	AttrMut  []Mut        `json:"attrmut,omitempty"`
	LinFirst bool         `json:"linfirst,omitempty"` // the lineage comes before the time
	Unknown  int          `json:"unknown,omitempty"`  // attribute of an unknown kind at this position, from 1
}

type FrostSpec struct {
	Key  string `json:"key"`
	Info int    `json:"info"`
	Pre  int    `json:"pre,omitempty"` // disabled metadata entries in front
	Dis  int    `json:"dis,omitempty"` // how they say so, default 1
	Byz  string `json:"byz,omitempty"`
	Mut  []Mut  `json:"mut,omitempty"`
	// faults in the list of signatures
	SigMut []Mut `json:"sigmut,omitempty"`
}

// ApkSpec is one published APK: what a build pipeline assembles and signs.
type ApkSpec struct {
	Fill     uint64        `json:"fill"`
	Entries  []EntrySpec   `json:"entries"`
	Manifest *ManifestSpec `json:"manifest,omitempty"`
	Target   int           `json:"target,omitempty"` // exact length of the data section
	Align    bool          `json:"align,omitempty"`  // zero padding so the signing block starts 4096-aligned
	Comment  int           `json:"comment,omitempty"`
	CDTarget int           `json:"cdtarget,omitempty"` // exact length of the central directory
	Tail     int           `json:"tail,omitempty"`     // 1+length of the signed contents modulo 4096, met by a longer comment
	ComMagic int           `json:"commagic,omitempty"` // 1+position of an end record marker inside the comment
	V1       *V1Spec       `json:"v1,omitempty"`
	V2       *BlkSpec      `json:"v2,omitempty"`
	V3       *BlkSpec      `json:"v3,omitempty"`
	V31      *BlkSpec      `json:"v31,omitempty"`
	Stamp    *StampSpec    `json:"stamp,omitempty"`
	Frost    *FrostSpec    `json:"frost,omitempty"`
	Extra    []ExtraSpec   `json:"extra,omitempty"`
	Order    uint64        `json:"order,omitempty"`
	PadBlock bool          `json:"padblock,omitempty"`
	Prefix   string        `json:"prefix,omitempty"`   // "dex": prepended DEX header; "junk"
	MetaFrom int           `json:"metafrom,omitempty"` // 1+index of the APK whose META-INF is copied verbatim
	MFEdit   string        `json:"mfedit,omitempty"`   // how the copied META-INF was doctored
	Bundle   bool          `json:"bundle,omitempty"`
}

// Built is a published artefact.
type Built struct {
	Bytes   []byte
	Entries []ZEntry
	Secs    *Sections
	Pairs   map[uint32][]byte
}

func entryData(fill uint64, e *EntrySpec) []byte {
	return filler(hashSeed(fill, strSeed(e.Name), uint64(e.Ver)), e.Size)
}

func buildApk(idx int, sp *ApkSpec, prev []*Built, log *[]SignEvent) *Built {
	var ents []ZEntry
	if sp.Manifest != nil {
		ents = append(ents, ZEntry{Name: "AndroidManifest.xml", Data: mutBytes(axmlBytes(sp.Manifest), sp.Manifest.Mut), Deflate: sp.Manifest.Deflate})
	}
	if sp.Bundle {
		ents = append(ents, ZEntry{Name: "BundleConfig.pb", Data: []byte{1, 2, 3}})
	}
	for i := range sp.Entries {
		e := &sp.Entries[i]
		ents = append(ents, ZEntry{Name: e.Name, Data: entryData(sp.Fill, e), Deflate: e.Deflate, DD: e.DD, Extra: e.Extra, IsDir: e.Dir})
	}
	if sp.Stamp != nil && !sp.Stamp.NoEntry {
		who := sp.Stamp.Key
		if sp.Stamp.EntryOf != "" {
			who = sp.Stamp.EntryOf
		}
		h := sha256.Sum256(mustKey(who).CertDER)
		ze := ZEntry{Name: "stamp-cert-sha256", Data: h[:]}
		switch sp.Stamp.Byz {
		case "entry-short":
			ze.Data = ze.Data[:4]
		case "entry-long":
			ze.Data = append(ze.Data, 0)
		case "entry-empty":
			ze.Data = nil
		case "entry-tail":
			ze.Data[31] ^= 1
		}
		ents = append(ents, ze)
	}
	var prefix []byte
	switch sp.Prefix {
	case "dex":
		prefix = append([]byte("dex\n035\x00"), filler(3, 120)...)
	case "junk":
		prefix = filler(4, 64)
	}
	base := len(prefix)
	finish := func(ents []ZEntry) ([]ZEntry, []byte, []byte, []byte) {
		all := ents
		var mf []byte
		if sp.V1 != nil {
			meta := v1Sign(sp.V1, ents, idx, nil)
			for _, m := range meta {
				if m.Name == "META-INF/MANIFEST.MF" {
					mf = m.Data
				}
			}
			all = append(append([]ZEntry(nil), ents...), meta...)
		}
		if sp.MetaFrom > 0 && sp.MetaFrom <= len(prev) {
			for _, e := range doctorMeta(sp.MFEdit, prev[sp.MetaFrom-1].Entries, ents) {
				{
					all = append(append([]ZEntry(nil), all...), e)
					if e.Name == "META-INF/MANIFEST.MF" {
						mf = e.Data
					}
				}
			}
		}
		d, c := zipSections(all, base)
		if left := sp.CDTarget - len(c); left >= 4 {
			all = append([]ZEntry(nil), all...)
			for i := range all {
				n := left
				if n > 60000 {
					n = 60000
				}
				if left-n > 0 && left-n < 4 {
					n -= 4
				}
				if n < 4 {
					break
				}
				all[i].CExtra = n
				left -= n
			}
			d, c = zipSections(all, base)
		}
		return all, append(append([]byte(nil), prefix...), d...), c, mf
	}
	all, data, cd, mf := finish(ents)
	if sp.Target > len(data)+64 {
		// a filler entry in front brings the data section to the exact length;
		// its v1 manifest record changes the compressed META-INF sizes, so iterate
		padSize := sp.Target - len(data) - 46
		for try := 0; try < 12; try++ {
			e2 := append([]ZEntry{{Name: "assets/filler.bin", Data: filler(hashSeed(sp.Fill, 99), padSize)}}, ents...)
			all, data, cd, mf = finish(e2)
			if len(data) == sp.Target {
				break
			}
			padSize += sp.Target - len(data)
			if padSize < 0 {
				padSize = 0
			}
		}
		ents = nil
		for _, e := range all {
			ents = append(ents, e)
		}
	}
	if sp.V1 != nil {
		// sign once more with the log on, now that the members are final
		var plain []ZEntry
		for _, e := range all {
			if len(e.Name) <= 9 || e.Name[:9] != "META-INF/" {
				plain = append(plain, e)
			}
		}
		v1Sign(sp.V1, plain, idx, log)
	}
	if sp.Align {
		if r := len(data) % 4096; r != 0 {
			data = append(data, make([]byte, 4096-r)...)
		}
	}
	comLen := sp.Comment
	if sp.Tail > 0 {
		for (len(data)+len(cd)+22+comLen)%4096 != sp.Tail-1 {
			comLen++
		}
	}
	comment := filler(hashSeed(sp.Fill, 7), comLen)
	for i := range comment {
		comment[i] = 'a' + comment[i]%26
	}
	if sp.ComMagic > 0 && sp.ComMagic+3 <= len(comment) {
		copy(comment[sp.ComMagic-1:], le32(0x06054b50))
	}
	sec := &Sections{Data: data, CD: cd, EOCD: eocdRec(len(all), len(cd), len(data), comment)}
	b := &Built{Entries: all, Secs: sec, Pairs: map[uint32][]byte{}}

	var pairs []Pair
	digests := map[int][]byte{}
	block := func(scheme int, id uint32, bs *BlkSpec) {
		if bs == nil {
			return
		}
		var body []byte
		for i := range bs.Signers {
			body = append(body, signerBlock(scheme, &bs.Signers[i], sec, digests, idx, log)...)
		}
		pairs = append(pairs, Pair{id, lp(body)})
	}
	block(2, idV2, sp.V2)
	block(3, idV3, sp.V3)
	block(31, idV31, sp.V31)
	if sp.Stamp != nil {
		pairs = append(pairs, Pair{idStamp, stampBlock(sp, sec, digests, mf, idx, log)})
	}
	for i, x := range sp.Extra {
		b := filler(hashSeed(sp.Fill, uint64(i), 5), x.Len)
		if x.Zero {
			b = make([]byte, x.Len)
		}
		pairs = append(pairs, Pair{x.ID, b})
	}
	if sp.Frost != nil {
		var v2 []byte
		for _, p := range pairs {
			if p.ID == idV2 {
				v2 = p.Data
			}
		}
		pairs = append(pairs, Pair{idFrost, frostBlock(sp.Frost, sec, v2, idx, log)})
	}
	if sp.Order != 0 {
		r := NewRng(sp.Order)
		for i := len(pairs) - 1; i > 0; i-- {
			j := r.N(i + 1)
			pairs[i], pairs[j] = pairs[j], pairs[i]
		}
	}
	for _, p := range pairs {
		b.Pairs[p.ID] = p.Data
	}
	if len(pairs) > 0 {
		b.Bytes = assemble(sec, encodeSigBlock(pairs, sp.PadBlock))
	} else {
		b.Bytes = assemble(sec, nil)
	}
	return b
}

// assemble lays out sections around a signing block.
func assemble(s *Sections, block []byte) []byte {
	out := make([]byte, 0, len(s.Data)+len(block)+len(s.CD)+len(s.EOCD))
	out = append(out, s.Data...)
	out = append(out, block...)
	out = append(out, s.CD...)
	e := append([]byte(nil), s.EOCD...)
	binary.LittleEndian.PutUint32(e[16:], uint32(len(s.Data)+len(block)))
	return append(out, e...)
}

// stampDigestBytes is the encoding a source stamp signs for one scheme.
func stampDigestBytes(m map[int][]byte) []byte {
	var kinds []int
	for k := range m {
		kinds = append(kinds, k)
	}
	sort.Ints(kinds)
	var out []byte
	for _, k := range kinds {
		out = append(out, le32(uint32(8+len(m[k])))...)
		out = append(out, le32(uint32(k))...)
		out = append(out, le32(uint32(len(m[k])))...)
		out = append(out, m[k]...)
	}
	return out
}

func bestKind(algos []uint32, k *Key) int {
	if len(algos) == 0 {
		return algoDigest(defaultAlgo(k))
	}
	rank := map[int]int{1: 1, 3: 2, 2: 3}
	best := algoDigest(algos[0])
	for _, a := range algos {
		if rank[algoDigest(a)] > rank[best] {
			best = algoDigest(a)
		}
	}
	return best
}

func stampBlock(sp *ApkSpec, sec *Sections, digests map[int][]byte, mf []byte, idx int, log *[]SignEvent) []byte {
	st := sp.Stamp
	k := mustKey(st.Key)
	honest := st.Byz == ""
	switch st.Byz {
	case "scheme-shift", "sig-first-garbage", "sig-last-garbage":
		honest = true // contents and attributes really were stamped by this key
	}
	cert := k.CertDER
	if st.Byz == "cert-swap" {
		cert = otherKey(st.ByzKey, st.Key).CertDER
	}
	algos := st.Algos
	if len(algos) == 0 {
		algos = []uint32{defaultAlgo(k)}
	}
	sigs := func(data []byte, bad bool) []byte {
		var out []byte
		for i, a := range algos {
			d := data
			if bad {
				d = append([]byte{9}, data...)
			}
			sig := signAlgo(k, a, d)
			if st.Byz == "sig-garbage" || st.Byz == "sig-last-garbage" && i == len(algos)-1 || st.Byz == "sig-first-garbage" && i == 0 {
				sig = filler(uint64(a), len(sig))
			}
			if st.Byz == "sig-empty" {
				sig = nil
			}
			if st.Byz == "sig-wrongkey" {
				ok := mustKey("att.rsa")
				if k.Kind == "ec" {
					ok = mustKey("att.ec256")
				}
				sig = signAlgo(ok, a, d)
			}
			if st.Byz == "sig-unknown" {
				a = 0x999
			}
			out = append(out, lp(le32(a), lp(sig))...)
		}
		return out
	}
	want := map[int32]bool{}
	for _, s := range st.Schemes {
		want[s] = true
	}
	var schemes []byte
	add := func(id int32, m map[int][]byte) {
		if len(want) > 0 && !want[id] {
			return
		}
		sg := sigs(stampDigestBytes(m), st.Byz == "digest-other")
		switch st.Byz {
		case "sig-none":
			sg = nil
		case "scheme-shift": // a signature over another scheme's digests
			id ^= 1
		case "digest-wrong": // the right signature over a wrong digest
			w := map[int][]byte{}
			for k, d := range m {
				w[k] = append([]byte(nil), d...)
				w[k][0] ^= 0x80
			}
			sg = sigs(stampDigestBytes(w), false)
		}
		schemes = append(schemes, lp(le32(uint32(id)), lp(sg))...)
	}
	dset := func(bs *BlkSpec) map[int][]byte {
		m := map[int][]byte{}
		for _, s := range bs.Signers {
			kind := bestKind(s.Algos, mustKey(s.Key))
			if digests[kind] == nil {
				digests[kind] = contentDigestOf(sec, kind)
			}
			m[kind] = digests[kind]
		}
		return m
	}
	if st.Byz == "scheme-none" {
		want[77] = true
	}
	if mf != nil {
		h := sha256.Sum256(mf)
		add(1, map[int][]byte{4: h[:]})
	}
	if sp.V2 != nil {
		add(2, dset(sp.V2))
	}
	if sp.V3 != nil {
		add(3, dset(sp.V3))
	}
	out := append(lp(cert), lp(schemes)...)
	bare := len(out)
	if !st.NoAttrs {
		var list [][]byte
		if st.Time != 0 {
			list = append(list, lp(le32(0xe43c5946), le64(uint64(st.Time))))
		}
		if st.Lineage != nil {
			list = append(list, lp(le32(0x9d6303f7), encodeLineage(st.Lineage)))
			if b := st.Lineage.Bad(); b != "" && b != "empty" {
				honest = false
			}
			if st.LinFirst && len(list) == 2 {
				list[0], list[1] = list[1], list[0]
			}
		}
		if st.Unknown > 0 {
			at := (st.Unknown - 1) % (len(list) + 1)
			list = append(list[:at:at], append([][]byte{lp(le32(0x4711+uint32(st.Unknown)), filler(uint64(st.Unknown), st.Unknown*3))}, list[at:]...)...)
		}
		var attrs []byte
		for _, a := range list {
			attrs = append(attrs, a...)
		}
		ad := lp(attrs)
		if len(st.AttrMut) > 0 {
			ad = mutBytes(ad, st.AttrMut)
			honest = false
		}
		if out = append(out, lp(ad)...); st.Byz == "attr-len" { // more than there is
			copy(out[bare:], le32(uint32(len(ad)+1<<(st.ByzAt%24))))
		}
		as := sigs(ad, st.Byz == "attr-bad")
		switch st.Byz {
		case "attr-nosig":
			as = nil
		case "attr-garbage":
			as = lp(le32(algos[0]), lp(filler(3, 64)))
		}
		if out = append(out, lp(as)...); st.Byz == "attr-cut" {
			out = out[:len(out)-len(as)-4]
		}
	}
	if st.Byz == "block-cut" {
		at := st.ByzAt % len(out)
		if len(out) > bare && st.ByzAt&(1<<20) != 0 {
			at = bare + st.ByzAt%(len(out)-bare)
		}
		if at == bare { // without its attributes it is a stamp of its own
			at--
		}
		out = out[:at]
	}
	if honest && log != nil {
		mh := sha256.Sum256(mf)
		*log = append(*log, SignEvent{Scheme: 100, MF: string(mh[:]), Key: st.Key, Content: contentKey(sec), Chain: [][]byte{k.CertDER}, Time: st.Time, Lineage: st.Lineage, Apk: idx})
	}
	return lp(out)
}

func varint(n int) []byte {
	var out []byte
	for n >= 0x80 {
		out = append(out, byte(n)|0x80)
		n >>= 7
	}
	return append(out, byte(n))
}

// frostKey is what the Play frosting signs.
func frostFileHash(sec *Sections, v2 []byte) []byte {
	h := sha256.New()
	h.Write(sec.Data)
	if len(v2) > 0 {
		h.Write(le32(idV2))
		h.Write(v2)
	}
	h.Write(sec.CD)
	e := append([]byte(nil), sec.EOCD...)
	binary.LittleEndian.PutUint32(e[16:], uint32(len(sec.Data)))
	h.Write(e)
	return h.Sum(nil)
}

func frostBlock(f *FrostSpec, sec *Sections, v2 []byte, idx int, log *[]SignEvent) []byte {
	k := mustKey(f.Key)
	fh := frostFileHash(sec, v2)
	honest := f.Byz == "" && k.Owner == "play"
	signedFH := append([]byte(nil), fh...)
	if f.Byz == "digest-other" {
		signedFH[31] ^= 1
	}
	info := filler(hashSeed(uint64(f.Info), 11), f.Info)
	if f.Info < 1 {
		info = []byte{1}
	}
	var meta []byte
	dis := f.Dis
	if dis == 0 {
		dis = 1
	}
	for i := 0; i < f.Pre; i++ {
		body := append(append(varint(dis), varint(0)...), filler(uint64(i), 32)...)
		meta = append(append(meta, varint(len(body))...), body...)
	}
	keyIdx := varint(0)
	switch f.Byz {
	case "keyidx-neg":
		keyIdx = []byte{0xff, 0xff, 0xff, 0xff, 0x0f}
	case "keyidx-big":
		keyIdx = varint(5)
	}
	first := varint(0)
	if f.Byz == "disabled" { // the entry which names this file does not count
		first = varint(dis)
		honest = false
	}
	if f.Byz == "digest-short" {
		signedFH = signedFH[:8]
	}
	body := append(append(first, keyIdx...), signedFH...)
	meta = append(append(meta, varint(len(body))...), body...)
	if f.Byz == "disabled" {
		body := append(append(varint(0), varint(0)...), filler(1, 32)...)
		if f.Info%2 == 0 {
			meta = append(append(meta, varint(len(body))...), body...)
		}
	}
	signedPart := append(varint(len(info)), info...)
	signedPart = append(append(signedPart, varint(len(meta))...), meta...)
	if len(f.Mut) > 0 {
		signedPart = mutBytes(signedPart, f.Mut)
		honest = false
	}
	data := signedPart
	if f.Byz == "sig-other" {
		data = append([]byte{1}, data...)
	}
	sig := k.Sign("", crypto.SHA256, data)
	if f.Byz == "sig-garbage" {
		sig = derSeq(derSmall(44), derSmall(55))
	}
	var sigs []byte
	for i := 0; i < f.Pre; i++ {
		sigs = append(append(sigs, varint(4)...), 1, 2, 3, 4)
	}
	neg := []byte{0xff, 0xff, 0xff, 0xff, 0x0f}
	switch f.Byz {
	case "sigsize-neg":
		sigs = append(append(sigs, neg...), sig...)
	case "sigsize-big":
		sigs = append(append(sigs, varint(len(sig)+40)...), sig...)
	case "sig-none":
	case "sig-short":
		sigs = append(append(sigs, varint(len(sig)/2)...), sig[:len(sig)/2]...)
	case "sig-zero":
		sig = derSeq(derSmall(0), derSmall(0))
		sigs = append(append(sigs, varint(len(sig))...), sig...)
	default:
		sigs = append(append(sigs, varint(len(sig))...), sig...)
	}
	if f.Byz == "sigskip-neg" {
		sigs = append(append([]byte(nil), neg...), sigs...)
	}
	if len(f.SigMut) > 0 {
		sigs = mutBytes(sigs, f.SigMut)
		honest = false
	}
	out := append(varint(len(signedPart)), signedPart...)
	switch sz := varint(len(sigs)); f.Byz {
	case "sigs-neg":
		out = append(append(out, neg...), sigs...)
	case "sigs-cut":
		out = append(out, sz...)
	default:
		out = append(append(out, sz...), sigs...)
	}
	if honest && log != nil {
		*log = append(*log, SignEvent{Scheme: 101, Key: f.Key, Content: string(fh), Apk: idx})
	}
	return out
}
