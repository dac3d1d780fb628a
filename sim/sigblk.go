package main

import (
	"bytes"
	"crypto"
	"encoding/binary"
)

// Independent implementation of the APK Signing Block writer and of the content
// digests, used by the simulated signers and by the reference oracle.

const (
	idV2       = 0x7109871a
	idV3       = 0xf05368c0
	idV31      = 0x1b93ad61
	idStamp    = 0x6dff800d
	idFrost    = 0x2146444e
	idPad      = 0x42726577
	idDepMeta  = 0x504b4453
	idStampV1  = 0x2b09189e
	attrStrip  = 0xbeeff00d
	attrRot    = 0x3ba06f8c
	attrMinSdk = 0x559f8b02
	attrDev    = 0xc2a6b3ba
)

const (
	aPSS256 = 0x0101
	aPSS512 = 0x0102
	aRSA256 = 0x0103
	aRSA512 = 0x0104
	aEC256  = 0x0201
	aEC512  = 0x0202
	aDSA    = 0x0301
	aVRSA   = 0x0421
	aVEC    = 0x0423
	aVDSA   = 0x0425
)

func algosFor(k *Key) []uint32 {
	switch k.Kind {
	case "rsa":
		if k.Rsa.Size() < 130 { // PSS with SHA-512 does not fit 1024 bits
			return []uint32{aPSS256, aRSA256, aVRSA}
		}
		return []uint32{aPSS256, aPSS512, aRSA256, aRSA512, aVRSA}
	case "ec":
		return []uint32{aEC256, aEC512, aVEC}
	}
	return []uint32{aDSA, aVDSA}
}

func algoHash(a uint32) crypto.Hash {
	switch a {
	case aPSS512, aRSA512, aEC512:
		return crypto.SHA512
	}
	return crypto.SHA256
}

// digest kinds: 1 chunked sha256, 2 chunked sha512, 3 verity
func algoDigest(a uint32) int {
	switch a {
	case aPSS512, aRSA512, aEC512:
		return 2
	case aVRSA, aVEC, aVDSA:
		return 3
	}
	return 1
}

// otherFamily is an algorithm with the digest of a which does not fit the key.
func otherFamily(a uint32, k *Key, kind string) uint32 {
	all := map[string][]uint32{"rsa": {aRSA256, aRSA512, aVRSA}, "ec": {aEC256, aEC512, aVEC}, "dsa": {aDSA, aEC512, aVDSA}}
	if kind == k.Kind {
		kind = map[string]string{"rsa": "dsa", "ec": "dsa", "dsa": "rsa"}[kind]
	}
	if o := all[kind][algoDigest(a)-1]; !algoFitsKey(o, k) {
		return o
	}
	return all["rsa"][algoDigest(a)-1]
}

func signAlgo(k *Key, a uint32, data []byte) []byte {
	mode := "pkcs1"
	if a == aPSS256 || a == aPSS512 {
		mode = "pss"
	}
	return k.Sign(mode, algoHash(a), data)
}

func algoFitsKey(a uint32, k *Key) bool {
	for _, x := range algosFor(k) {
		if x == a {
			return true
		}
	}
	return false
}

func lp(parts ...[]byte) []byte {
	n := 0
	for _, p := range parts {
		n += len(p)
	}
	out := le32(uint32(n))
	for _, p := range parts {
		out = append(out, p...)
	}
	return out
}

// Sections are the three protected parts of an APK.
type Sections struct{ Data, CD, EOCD []byte }

var digestMemo = map[string][]byte{}

func chunkedDigest(s *Sections, h crypto.Hash) []byte {
	var sums [][]byte
	for _, sec := range [][]byte{s.Data, s.CD, s.EOCD} {
		for len(sec) > 0 {
			n := len(sec)
			if n > 1<<20 {
				n = 1 << 20
			}
			buf := append([]byte{0xa5}, le32(uint32(n))...)
			hh := h.New()
			hh.Write(buf)
			hh.Write(sec[:n])
			sums = append(sums, hh.Sum(nil))
			sec = sec[n:]
		}
	}
	hh := h.New()
	hh.Write([]byte{0x5a})
	hh.Write(le32(uint32(len(sums))))
	for _, x := range sums {
		hh.Write(x)
	}
	return hh.Sum(nil)
}

func verityDigest(s *Sections) []byte {
	salt := make([]byte, 8)
	level := func(data []byte) []byte {
		var out []byte
		for off := 0; off < len(data); off += 4096 {
			h := crypto.SHA256.New()
			h.Write(salt)
			e := off + 4096
			if e <= len(data) {
				h.Write(data[off:e])
			} else {
				h.Write(data[off:])
				h.Write(make([]byte, e-len(data)))
			}
			out = h.Sum(out)
		}
		if pad := len(out) % 4096; pad != 0 {
			out = append(out, make([]byte, 4096-pad)...)
		}
		return out
	}
	all := make([]byte, 0, len(s.Data)+len(s.CD)+len(s.EOCD))
	all = append(append(append(all, s.Data...), s.CD...), s.EOCD...)
	total := len(all)
	l := level(all)
	for len(l) > 4096 {
		l = level(l)
	}
	h := crypto.SHA256.New()
	h.Write(salt)
	h.Write(l)
	return append(h.Sum(nil), le64(uint64(total))...)
}

func contentDigestOf(s *Sections, kind int) []byte {
	switch kind {
	case 1:
		return chunkedDigest(s, crypto.SHA256)
	case 2:
		return chunkedDigest(s, crypto.SHA512)
	}
	return verityDigest(s)
}

// contentKey identifies protected contents independently of any APK digest format.
func contentKey(s *Sections) string {
	h := crypto.SHA256.New()
	for _, x := range [][]byte{s.Data, s.CD, s.EOCD} {
		h.Write(le64(uint64(len(x))))
		h.Write(x)
	}
	return string(h.Sum(nil))
}

type LineageSpec struct {
	Keys  []string `json:"keys"`
	Flags []int32  `json:"flags,omitempty"`
	Algos []uint32 `json:"algos,omitempty"`
	Byz   string   `json:"byz,omitempty"`
}

func (l *LineageSpec) Flags0() int32 {
	if len(l.Flags) == 0 {
		return 0
	}
	return l.Flags[0] & 0xff
}

// Bad names what is wrong with the history; misbehaviour which changes nothing
// (there are too few keys for it) is none.
func (l *LineageSpec) Bad() string {
	need := 2
	switch l.Byz {
	case "version", "empty":
		need = 0
	case "dupadj":
		need = 1
	case "dupmid":
		need = 3
	}
	if len(l.Keys) < need {
		return ""
	}
	return l.Byz
}

func defaultAlgo(k *Key) uint32 {
	switch k.Kind {
	case "rsa":
		return aRSA256
	case "ec":
		return aEC256
	}
	return aDSA
}

// encodeLineage writes a proof-of-rotation structure (version 1).
func encodeLineage(l *LineageSpec) []byte {
	out := le32(1)
	if l.Byz == "version" {
		out = le32(2)
	}
	var prevAlgo uint32
	keys := l.Keys
	if l.Byz == "empty" {
		keys = nil
	}
	if l.Byz == "dup" && len(keys) > 1 {
		keys = append(append([]string(nil), keys...), keys[0], keys[len(keys)-1])
	}
	switch {
	case l.Byz == "dupmid" && len(keys) > 2:
		keys = append([]string{keys[0], keys[1], keys[0]}, keys[2:]...)
	case l.Byz == "dupadj" && len(keys) > 0:
		keys = append([]string{keys[0]}, keys...)
	}
	for i, kn := range keys {
		k := mustKey(kn)
		algo := defaultAlgo(k)
		if i < len(l.Algos) && algoFitsKey(l.Algos[i], k) {
			algo = l.Algos[i]
		}
		var flags int32 = 23
		if i < len(l.Flags) {
			flags = l.Flags[i]
		}
		signedAlgo := prevAlgo
		if i > 0 && l.Byz == "algo" && i == len(keys)-1 {
			signedAlgo ^= 0x7
		}
		if i > 0 && l.Byz == "algo-sib" && i == 1+int(l.Flags0())%(len(keys)-1) {
			signedAlgo = map[uint32]uint32{aPSS256: aRSA256, aRSA256: aPSS256, aPSS512: aRSA512, aRSA512: aPSS512, aEC256: aDSA, aEC512: aRSA512, aDSA: aEC256, aVRSA: aVEC, aVEC: aVDSA, aVDSA: aVRSA}[signedAlgo]
		}
		sd := append(lp(k.CertDER), le32(signedAlgo)...)
		var sig []byte
		if i > 0 {
			signer := mustKey(keys[i-1])
			switch {
			case l.Byz == "forged" && i == len(keys)-1:
				// the new key attests itself
				if algoFitsKey(prevAlgo, k) {
					sig = signAlgo(k, prevAlgo, sd)
				} else {
					sig = filler(7, 256)
				}
			case l.Byz == "othersd" && i == len(keys)-1:
				sig = signAlgo(signer, prevAlgo, append([]byte("x"), sd...))
			case l.Byz == "nosig" && i == len(keys)-1:
				sig = nil
			case l.Byz == "firstforged" && i == 1:
				sig = filler(9, 256)
			default:
				sig = signAlgo(signer, prevAlgo, sd)
			}
		}
		out = append(out, lp(lp(sd), le32(uint32(flags)), le32(algo), lp(sig))...)
		prevAlgo = algo
	}
	return out
}

type BlkSigner struct {
	Key     string       `json:"key"`
	Algos   []uint32     `json:"algos,omitempty"`
	Min     int32        `json:"min,omitempty"`
	Max     int32        `json:"max,omitempty"`
	Lineage *LineageSpec `json:"lineage,omitempty"`
	Strip   int32        `json:"strip,omitempty"`
	RotMin  int32        `json:"rotmin,omitempty"`
	Dev     bool         `json:"dev,omitempty"`
	Unknown bool         `json:"unknown,omitempty"`
	UnkPos  int          `json:"unkpos,omitempty"`  // 1: the unknown attribute comes first
	UnkAlgo int          `json:"unkalgo,omitempty"` // a signature of a future algorithm: 1 first, 2 last
	Byz     string       `json:"byz,omitempty"`
	ByzKey  string       `json:"byzkey,omitempty"`
	ByzAt   int          `json:"byzat,omitempty"`
	SdMut   []Mut        `json:"sdmut,omitempty"`
}

type BlkSpec struct {
	Signers []BlkSigner `json:"signers"`
}

// SignEvent is one entry of the ideal signing log.
type SignEvent struct {
	Scheme   int // 1, 2, 3, 31, 100 stamp, 101 frosting
	Key      string
	Content  string
	Chain    [][]byte
	Min, Max int32
	Lineage  *LineageSpec
	Entries  map[string]string // v1: name -> sha256 of content
	V1       *V1Signer
	MFByz    string
	RotMin   int32
	Strip    int32
	MF       string
	Apk      int
	Time     int64
	StampFor int
}

// signerBlock encodes (and logs) one v2/v3/v3.1 signer over the given contents.
func signerBlock(scheme int, sp *BlkSigner, s *Sections, digests map[int][]byte, apk int, log *[]SignEvent) []byte {
	k := mustKey(sp.Key)
	algos := sp.Algos
	if len(algos) == 0 {
		algos = []uint32{defaultAlgo(k)}
	}
	dg := func(kind int) []byte {
		if digests[kind] == nil {
			digests[kind] = contentDigestOf(s, kind)
		}
		return digests[kind]
	}
	honest := true
	label := func(a uint32) uint32 {
		if sp.Byz != "algo-family" { // everything names an algorithm of another kind of key
			return a
		}
		honest = false
		return otherFamily(a, k, mustKey(sp.ByzKey).Kind)
	}
	best := 0
	rank := func(a uint32) int { return map[int]int{1: 1, 3: 2, 2: 3}[algoDigest(a)] }
	for i := range algos {
		if rank(algos[i]) > rank(algos[best]) {
			best = i
		}
	}
	var digRecs []byte
	for i, a := range algos {
		d := append([]byte(nil), dg(algoDigest(a))...)
		switch {
		case sp.Byz == "digest-other", sp.Byz == "digest-best-bad" && i == best:
			d[len(d)/2] ^= 0x40
			honest = false
		case sp.Byz == "digest-tail":
			// wrong only in the last byte of the hash
			if algoDigest(a) == 3 {
				d[31] ^= 1
			} else {
				d[len(d)-1] ^= 1
			}
			honest = false
		case sp.Byz == "digest-short":
			d = d[:len(d)/2]
			honest = false
		case sp.Byz == "digest-empty":
			d = nil
			honest = false
		}
		digRecs = append(digRecs, lp(le32(label(a)), lp(d))...)
	}
	unk := le32(0x0999)
	switch sp.UnkAlgo {
	case 1:
		digRecs = append(lp(unk, lp(filler(9, 32))), digRecs...)
	case 2:
		digRecs = append(digRecs, lp(unk, lp(filler(9, 32)))...)
	}
	switch sp.Byz {
	case "digest-dup":
		digRecs = append(digRecs, lp(le32(algos[0]), lp(dg(algoDigest(algos[0]))))...)
		honest = false
	case "digest-missing":
		// signature algorithms not mirrored by digests: platform rejects
		digRecs = lp(le32(0x0777), lp(make([]byte, 32)))
		honest = false
	case "digest-extra":
		digRecs = append(digRecs, lp(le32(0x0778), lp(make([]byte, 32)))...)
		honest = false
	case "nodigest":
		digRecs = nil
		honest = false
	}
	var certs []byte
	chain := k.Chain()
	switch sp.Byz {
	case "cert-swap":
		chain = otherKey(sp.ByzKey, sp.Key).Chain()
		honest = false
	case "cert-append":
		chain = append(append([][]byte(nil), chain...), otherKey(sp.ByzKey, sp.Key).CertDER)
	case "cert-prepend":
		chain = append([][]byte{otherKey(sp.ByzKey, sp.Key).CertDER}, chain...)
		honest = false
	case "nocert":
		chain = nil
		honest = false
	}
	for _, c := range chain {
		certs = append(certs, lp(c)...)
	}
	var attrs []byte
	unknown := func() {
		attrs = append(attrs, lp(le32(0x12345678), []byte("hello"))...)
	}
	if sp.Unknown && sp.UnkPos == 1 {
		unknown()
	}
	if sp.Strip != 0 {
		attrs = append(attrs, lp(le32(attrStrip), le32(uint32(sp.Strip)))...)
	}
	lin := sp.Lineage
	if lin != nil {
		attrs = append(attrs, lp(le32(attrRot), encodeLineage(lin))...)
	}
	if sp.RotMin != 0 {
		attrs = append(attrs, lp(le32(attrMinSdk), le32(uint32(sp.RotMin)))...)
	}
	if sp.Dev {
		attrs = append(attrs, lp(le32(attrDev))...)
	}
	if sp.Unknown && sp.UnkPos != 1 {
		unknown()
	}
	sd := append(lp(digRecs), lp(certs)...)
	min, max := sp.Min, sp.Max
	if scheme != 2 {
		smin, smax := min, max
		switch sp.Byz {
		case "sdk-min":
			smin = min + 1
			honest = false
		case "sdk-max":
			smax = max - 1
			honest = false
		case "sdk-min-less":
			smin = min - 1
			honest = false
		case "sdk-max-more":
			smax = max + 1
			if max == anyMax {
				max--
				smax = anyMax
			}
			honest = false
		case "sdk-wider": // claims everything, signed its own range
			min, max = 1, anyMax
			honest = smin == min && smax == max
		}
		sd = append(sd, le32(uint32(smin))...)
		sd = append(sd, le32(uint32(smax))...)
	}
	sd = append(sd, lp(attrs)...)
	if scheme == 2 {
		sd = append(sd, lp()...) // apksig writes a trailing empty sequence
	}
	if len(sp.SdMut) > 0 {
		sd = mutBytes(sd, sp.SdMut)
		honest = false
	}
	var sigs []byte
	for i, a := range algos {
		sig := signAlgo(k, a, sd)
		switch {
		case sp.Byz == "sig-garbage", sp.Byz == "sig-best-bad" && i == best:
			sig = filler(uint64(a), len(sig))
			if k.Kind != "rsa" {
				sig = derSeq(derSmall(12345), derSmall(67890))
			}
			honest = false
		case sp.Byz == "sig-trunc":
			sig = sig[:len(sig)-1]
			honest = false
		case sp.Byz == "sig-empty":
			sig = nil
			honest = false
		case sp.Byz == "sig-other":
			sig = signAlgo(k, a, append([]byte{0}, sd...))
			honest = false
		case sp.Byz == "sig-nonbest-bad" && i != best:
			sig = filler(uint64(a), len(sig)) // platforms only look at the best one
		case sp.Byz == "sig-onenum":
			sig = derSeq(derSmall(5))
			honest = false
		case sp.Byz == "sig-wrongkey":
			ok := otherKey(sp.ByzKey, sp.Key)
			if algoFitsKey(a, ok) {
				sig = signAlgo(ok, a, sd)
			}
			honest = false
		}
		id := a
		switch {
		case sp.Byz == "sig-drop-best" && i == best && len(algos) > 1, sp.Byz == "sig-drop-other" && i != best:
			honest = false
			continue
		case sp.Byz == "sig-algo-future" && i == best && len(algos) > 1, sp.Byz == "sig-other-future" && i != best:
			id = 0x0998
			honest = false
		case sp.Byz == "algo-family":
			id = label(a)
		case sp.Byz == "sig-algo-sibling":
			for _, o := range algosFor(k) {
				if o != a && algoDigest(o) != algoDigest(a) {
					id = o
				}
			}
			honest = false
		case sp.Byz == "sig-reverse":
			sigs = append(lp(le32(a), lp(sig)), sigs...)
			honest = len(algos) == 1
			continue
		case sp.Byz == "sig-dup":
			sigs = append(sigs, lp(le32(a), lp(sig))...)
			honest = false
		}
		sigs = append(sigs, lp(le32(id), lp(sig))...)
	}
	if rec := sigs; sp.Byz == "cut-sigrec" { // the first one that platforms read
		if body, ok := take(&rec); ok {
			sigs = append(lp(body[:sp.ByzAt%12]), rec...)
		}
		honest = false
	}
	switch sp.UnkAlgo {
	case 1:
		sigs = append(lp(unk, lp(filler(8, 70))), sigs...)
	case 2:
		sigs = append(sigs, lp(unk, lp(filler(8, 70)))...)
	}
	switch sp.Byz {
	case "cut-signer":
		honest = false
	case "cut-sigs":
		sigs = sigs[:sp.ByzAt%len(sigs)]
		honest = false
	}
	if sp.Byz == "nosig" {
		sigs = nil
		honest = false
	}
	if sp.Byz == "sig-unknown-algo" {
		sigs = lp(le32(0x9999), lp(filler(1, 64)))
		honest = false
	}
	pk := k.SPKI
	switch sp.Byz {
	case "pk-swap":
		pk = otherKey(sp.ByzKey, sp.Key).SPKI
		honest = false
	case "pk-garbage":
		pk = filler(3, len(pk))
		honest = false
	}
	enc := func() []byte {
		body := lp(sd)
		if scheme != 2 {
			body = append(append(body, le32(uint32(min))...), le32(uint32(max))...)
		}
		body = append(append(body, lp(sigs)...), lp(pk)...)
		if sp.Byz == "cut-signer" { // ends early, mostly after the signed data
			from := 0
			if sp.ByzAt%4 != 0 {
				from = len(sd) + 4
			}
			body = body[:from+sp.ByzAt/4%(len(body)-from)]
		}
		return lp(body)
	}
	if !honest && log != nil {
		// a misbehaviour that happens to change nothing is no misbehaviour
		c := *sp
		c.Byz, c.SdMut = "", nil
		honest = bytes.Equal(enc(), signerBlock(scheme, &c, s, digests, apk, nil))
	}
	if honest && log != nil {
		*log = append(*log, SignEvent{Scheme: scheme, Key: sp.Key, Content: contentKey(s), Chain: chain, Min: min, Max: max, Lineage: lin, RotMin: sp.RotMin, Strip: sp.Strip, Apk: apk})
	}
	return enc()
}

// Pair is one id-value pair of the signing block.
type Pair struct {
	ID   uint32
	Data []byte
}

func encodeSigBlock(pairs []Pair, pad4k bool) []byte {
	var body bytes.Buffer
	for _, p := range pairs {
		body.Write(le64(uint64(len(p.Data) + 4)))
		body.Write(le32(p.ID))
		body.Write(p.Data)
	}
	if pad4k {
		total := 8 + body.Len() + 24
		if total%4096 != 0 {
			pad := 4096 - total%4096
			if pad < 12 {
				pad += 4096
			}
			body.Write(le64(uint64(pad - 8)))
			body.Write(le32(idPad))
			body.Write(make([]byte, pad-12))
		}
	}
	size := uint64(body.Len() + 24)
	out := le64(size)
	out = append(out, body.Bytes()...)
	out = append(out, le64(size)...)
	return append(out, []byte("APK Sig Block 42")...)
}

// Layout is the reference parse of an APK's outer structure.
type Layout struct {
	EocdOff, CdOff int
	SigOff         int // == CdOff when there is no signing block
	Pairs          []Pair
	HasBlock       bool
	BlockBad       bool // magic present but the block does not parse
}

// refLayout locates EOCD, central directory and signing block the way the
// platform does (comment length must be consistent, CD adjacent to EOCD).
func refLayout(b []byte) (*Layout, bool) {
	if len(b) < 22 {
		return nil, false
	}
	find := func(maxc int) int {
		for c := 0; c <= maxc; c++ {
			p := len(b) - 22 - c
			if p < 0 {
				break
			}
			if binary.LittleEndian.Uint32(b[p:]) == 0x06054b50 && int(binary.LittleEndian.Uint16(b[p+20:])) == c {
				return p
			}
		}
		return -1
	}
	p := find(65535)
	if p < 0 {
		return nil, false
	}
	l := &Layout{EocdOff: p}
	cs := int64(binary.LittleEndian.Uint32(b[p+12:]))
	co := int64(binary.LittleEndian.Uint32(b[p+16:]))
	if co+cs != int64(p) || co >= int64(p) {
		return nil, false
	}
	l.CdOff = int(co)
	l.SigOff = l.CdOff
	if l.CdOff >= 32 && string(b[l.CdOff-16:l.CdOff]) == "APK Sig Block 42" {
		l.HasBlock = true
		sz := binary.LittleEndian.Uint64(b[l.CdOff-24:])
		if sz < 24 || sz > 1<<31-9 || int64(sz)+8 > int64(l.CdOff) {
			l.BlockBad = true
			return l, true
		}
		l.SigOff = l.CdOff - int(sz) - 8
		if binary.LittleEndian.Uint64(b[l.SigOff:]) != sz {
			l.BlockBad = true
			return l, true
		}
		body := b[l.SigOff+8 : l.CdOff-24]
		for len(body) > 0 {
			if len(body) < 12 {
				l.BlockBad = true
				break
			}
			n := binary.LittleEndian.Uint64(body)
			if n < 4 || n > uint64(len(body)-8) {
				l.BlockBad = true
				break
			}
			l.Pairs = append(l.Pairs, Pair{binary.LittleEndian.Uint32(body[8:]), body[12 : 8+n]})
			body = body[8+n:]
		}
	}
	return l, true
}

func (l *Layout) pair(id uint32) []byte {
	var out []byte
	for _, p := range l.Pairs {
		if p.ID == id {
			out = p.Data
			if out == nil {
				out = []byte{}
			}
		}
	}
	return out
}

// sectionsOf returns the protected sections of stored bytes.
func sectionsOf(b []byte, l *Layout) *Sections {
	e := append([]byte(nil), b[l.EocdOff:]...)
	binary.LittleEndian.PutUint32(e[16:], uint32(l.SigOff))
	return &Sections{b[:l.SigOff], b[l.CdOff:l.EocdOff], e}
}
