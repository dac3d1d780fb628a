package main

import (
	"bytes"
	"crypto"
	"crypto/dsa"
	"crypto/ecdsa"
	"crypto/rsa"
	"crypto/sha256"
	"crypto/x509"
	"encoding/asn1"
	"encoding/binary"
	"fmt"
	"math/big"
	"sort"
)

// Executable reference model of the block signature schemes: an independent
// reading of the specification, applied to the stored bytes. It says what an
// accepted signature has to satisfy; it never says what must be accepted.

type refAttr struct {
	ID   uint32
	Data []byte
}

type refSigner struct {
	Leaf     []byte
	SPKI     []byte
	Min, Max int32
	Attrs    []refAttr
	Lineage  []refNode // oldest first
}

type refNode struct {
	Cert         []byte
	Flags        int32
	Algo, Parent uint32
	Raw          []byte
}

func (n *refNode) String() string {
	name := "?"
	if k := keyByCert[string(n.Cert)]; k != nil {
		name = k.Name
	}
	return fmt.Sprintf("%s/%d/%x/%x", name, n.Flags, n.Algo, n.Parent)
}

// refProblem is the first requirement a block does not meet.
type refProblem struct {
	Kind string // signer, digest, range, lineage, parse
	Text string
}

func (p *refProblem) String() string { return p.Kind + ": " + p.Text }

func problem(kind, f string, a ...interface{}) *refProblem {
	return &refProblem{kind, fmt.Sprintf(f, a...)}
}

// take reads one length-prefixed element.
func take(b *[]byte) ([]byte, bool) {
	if len(*b) < 4 {
		return nil, false
	}
	n := binary.LittleEndian.Uint32(*b)
	if uint64(n) > uint64(len(*b)-4) {
		return nil, false
	}
	out := (*b)[4 : 4+n]
	*b = (*b)[4+n:]
	return out, true
}

func take32(b *[]byte) (uint32, bool) {
	if len(*b) < 4 {
		return 0, false
	}
	v := binary.LittleEndian.Uint32(*b)
	*b = (*b)[4:]
	return v, true
}

func algoKnown(a uint32) bool {
	switch a {
	case aPSS256, aPSS512, aRSA256, aRSA512, aEC256, aEC512, aDSA, aVRSA, aVEC, aVDSA:
		return true
	}
	return false
}

// refVerify checks one signature with the standard library.
func refVerify(spki []byte, algo uint32, data, sig []byte) bool {
	pub, err := x509.ParsePKIXPublicKey(spki)
	if err != nil {
		return false
	}
	h := algoHash(algo)
	hh := h.New()
	hh.Write(data)
	d := hh.Sum(nil)
	nums := func() (*big.Int, *big.Int, bool) {
		var p []*big.Int
		if _, err := asn1.Unmarshal(sig, &p); err != nil || len(p) < 2 {
			return nil, nil, false
		}
		return p[0], p[1], true
	}
	switch algo {
	case aPSS256, aPSS512:
		k, ok := pub.(*rsa.PublicKey)
		return ok && rsa.VerifyPSS(k, h, d, sig, &rsa.PSSOptions{SaltLength: h.Size()}) == nil
	case aRSA256, aRSA512, aVRSA:
		k, ok := pub.(*rsa.PublicKey)
		return ok && rsa.VerifyPKCS1v15(k, h, d, sig) == nil
	case aEC256, aEC512, aVEC:
		k, ok := pub.(*ecdsa.PublicKey)
		if !ok {
			return false
		}
		r, s, ok := nums()
		return ok && ecdsa.Verify(k, d, r, s)
	case aDSA, aVDSA:
		k, ok := pub.(*dsa.PublicKey)
		if !ok {
			return false
		}
		r, s, ok := nums()
		if q := k.Q.BitLen() / 8; q < len(d) {
			d = d[:q]
		}
		return ok && dsa.Verify(k, d, r, s)
	}
	return false
}

func refCertSPKI(der []byte) []byte {
	if k := keyByCert[string(der)]; k != nil {
		return k.SPKI
	}
	c, err := x509.ParseCertificate(der)
	if err != nil {
		return nil
	}
	return c.RawSubjectPublicKeyInfo
}

type refMemoKey struct {
	scheme int
	h      [32]byte
}
type refMemoVal struct {
	s []refSigner
	p *refProblem
}

var refMemo = map[refMemoKey]refMemoVal{}

// refBlock judges every signer of one signature block over the given contents.
func refBlock(scheme int, block []byte, sec *Sections) ([]refSigner, *refProblem) {
	hh := sha256.New()
	hh.Write([]byte(contentKey(sec)))
	hh.Write(block)
	var k refMemoKey
	k.scheme = scheme
	hh.Sum(k.h[:0])
	if v, ok := refMemo[k]; ok {
		return v.s, v.p
	}
	s, p := refBlockRaw(scheme, block, sec)
	if len(refMemo) > 20000 {
		refMemo = map[refMemoKey]refMemoVal{}
	}
	refMemo[k] = refMemoVal{s, p}
	return s, p
}

func refBlockRaw(scheme int, block []byte, sec *Sections) ([]refSigner, *refProblem) {
	list, ok := take(&block)
	if !ok {
		return nil, problem("parse", "no signer list")
	}
	var out []refSigner
	digests := map[int][]byte{}
	for len(list) > 0 {
		one, ok := take(&list)
		if !ok {
			return nil, problem("parse", "signer list")
		}
		s, p := refOneSigner(scheme, one, sec, digests)
		if p != nil {
			p.Text = fmt.Sprintf("signer %d: %s", len(out)+1, p.Text)
			return nil, p
		}
		out = append(out, *s)
	}
	if len(out) == 0 {
		return nil, problem("signer", "no signers")
	}
	return out, nil
}

func refOneSigner(scheme int, b []byte, sec *Sections, digests map[int][]byte) (*refSigner, *refProblem) {
	s := &refSigner{}
	sd, ok := take(&b)
	if !ok {
		return nil, problem("parse", "signed data")
	}
	signed := sd
	if scheme != 2 {
		mn, ok1 := take32(&b)
		mx, ok2 := take32(&b)
		if !ok1 || !ok2 {
			return nil, problem("parse", "platform range")
		}
		s.Min, s.Max = int32(mn), int32(mx)
	}
	sigs, ok1 := take(&b)
	pk, ok2 := take(&b)
	if !ok1 || !ok2 {
		return nil, problem("parse", "signatures or key")
	}
	s.SPKI = pk
	rank := func(a uint32) int { return map[int]int{1: 1, 3: 2, 2: 3}[algoDigest(a)] }
	var algos []uint32
	var best uint32
	var bestSig []byte
	for len(sigs) > 0 {
		rec, ok := take(&sigs)
		if !ok {
			return nil, problem("parse", "signature record")
		}
		a, ok := take32(&rec)
		if !ok {
			return nil, problem("parse", "signature record")
		}
		algos = append(algos, a)
		if algoKnown(a) && (best == 0 || rank(a) > rank(best)) {
			if bestSig, ok = take(&rec); !ok {
				return nil, problem("parse", "signature")
			}
			best = a
		}
	}
	if best == 0 {
		return nil, problem("signer", "no signature with a known algorithm")
	}
	if !refVerify(pk, best, signed, bestSig) {
		return nil, problem("signer", "the signature with its best algorithm %#x does not verify", best)
	}
	dg, ok1 := take(&sd)
	certs, ok2 := take(&sd)
	if !ok1 || !ok2 {
		return nil, problem("parse", "digests or certificates")
	}
	if scheme != 2 {
		mn, ok1 := take32(&sd)
		mx, ok2 := take32(&sd)
		if !ok1 || !ok2 {
			return nil, problem("parse", "signed platform range")
		}
		if int32(mn) != s.Min || int32(mx) != s.Max {
			return nil, problem("range", "range [%d,%d] stated but [%d,%d] signed", s.Min, s.Max, int32(mn), int32(mx))
		}
		if s.Min < 1 || s.Min > s.Max {
			return nil, problem("range", "range [%d,%d]", s.Min, s.Max)
		}
	}
	if s.Leaf, ok = take(&certs); !ok {
		return nil, problem("signer", "no certificate")
	}
	if spki := refCertSPKI(s.Leaf); spki != nil && !bytes.Equal(spki, pk) {
		return nil, problem("signer", "the key is not the one of the certificate")
	}
	var dalgos []uint32
	var digest []byte
	for len(dg) > 0 {
		rec, ok := take(&dg)
		if !ok {
			return nil, problem("parse", "digest record")
		}
		a, ok := take32(&rec)
		if !ok {
			return nil, problem("parse", "digest record")
		}
		dalgos = append(dalgos, a)
		if a == best {
			if digest, ok = take(&rec); !ok {
				return nil, problem("parse", "digest")
			}
		}
	}
	same := len(algos) == len(dalgos)
	for i := 0; same && i < len(algos); i++ {
		same = algos[i] == dalgos[i]
	}
	if !same {
		return nil, problem("signer", "signature algorithms %x, but digests were signed for %x", algos, dalgos)
	}
	kind := algoDigest(best)
	if digests[kind] == nil {
		digests[kind] = contentDigestOf(sec, kind)
	}
	if !bytes.Equal(digest, digests[kind]) {
		return nil, problem("digest", "the signed digest is not the one of the contents")
	}
	attrs, ok := take(&sd)
	if !ok {
		return nil, problem("parse", "attributes")
	}
	for len(attrs) > 0 {
		at, ok := take(&attrs)
		if !ok {
			return nil, problem("parse", "attribute")
		}
		id, ok := take32(&at)
		if !ok {
			return nil, problem("parse", "attribute")
		}
		s.Attrs = append(s.Attrs, refAttr{id, at})
		if id == attrRot && scheme != 2 && len(at) > 0 {
			lin, p := refLineage(at)
			if p != nil {
				return nil, p
			}
			if len(lin) > 0 && !bytes.Equal(lin[len(lin)-1].Cert, s.Leaf) {
				return nil, problem("lineage", "the history does not end in the signer")
			}
			s.Lineage = lin
		}
	}
	return s, nil
}

func refLineage(b []byte) ([]refNode, *refProblem) {
	v, ok := take32(&b)
	if !ok || v != 1 {
		return nil, problem("lineage", "version %d", v)
	}
	var out []refNode
	var lastAlgo uint32
	for len(b) > 0 {
		node, ok := take(&b)
		raw := node
		if !ok {
			return nil, problem("lineage", "node")
		}
		sd, ok1 := take(&node)
		flags, ok2 := take32(&node)
		algo, ok3 := take32(&node)
		sig, ok4 := take(&node)
		if !ok1 || !ok2 || !ok3 || !ok4 {
			return nil, problem("lineage", "node")
		}
		signed := sd
		cert, ok1 := take(&sd)
		salgo, ok2 := take32(&sd)
		if !ok1 || !ok2 {
			return nil, problem("lineage", "node")
		}
		if n := len(out); n > 0 {
			if salgo != lastAlgo {
				return nil, problem("lineage", "node %d was attested with algorithm %#x, not with %#x", n, salgo, lastAlgo)
			}
			spki := refCertSPKI(out[n-1].Cert)
			if spki == nil || !refVerify(spki, lastAlgo, signed, sig) {
				return nil, problem("lineage", "node %d is not signed by its predecessor", n)
			}
		}
		for _, o := range out {
			if bytes.Equal(o.Cert, cert) {
				return nil, problem("lineage", "a certificate appears twice")
			}
		}
		out = append(out, refNode{cert, int32(flags), algo, salgo, raw})
		lastAlgo = algo
	}
	return out, nil
}

// refRanges: the platform ranges of the signers join without gaps or overlaps,
// and each history extends the one of the signer for older platforms.
func refRanges(ss []refSigner) (lo, hi int32, p *refProblem) {
	s := append([]refSigner(nil), ss...)
	sort.SliceStable(s, func(i, j int) bool { return s[i].Min < s[j].Min })
	var longest []refNode
	for i := range s {
		if i > 0 && int64(s[i].Min) != int64(s[i-1].Max)+1 {
			return 0, 0, problem("range", "signers for [%d,%d] and [%d,%d]", s[i-1].Min, s[i-1].Max, s[i].Min, s[i].Max)
		}
		if l := s[i].Lineage; len(l) > 0 {
			if len(l) < len(longest) {
				return 0, 0, problem("lineage", "a newer signer has a shorter history")
			}
			for j := range longest {
				if !bytes.Equal(longest[j].Raw, l[j].Raw) {
					return 0, 0, problem("lineage", "the histories of the signers differ")
				}
			}
			longest = l
		}
	}
	return s[0].Min, s[len(s)-1].Max, nil
}

// refAccepted checks an accepted outcome of a block scheme; min is the
// effective minimum, or unknown when it is negative and not known.
func refAccepted(stored []byte, scheme int, min, max int32, minKnown bool) *refProblem {
	l, ok := refLayout(stored)
	if !ok || !l.HasBlock || l.BlockBad {
		return problem("parse", "no signing block")
	}
	sec := sectionsOf(stored, l)
	id := map[int]uint32{2: idV2, 3: idV3, 31: idV31}[scheme]
	blk := l.pair(id)
	if blk == nil {
		return problem("parse", "no block of scheme %d", scheme)
	}
	ss, p := refBlock(scheme, blk, sec)
	if p != nil {
		return p
	}
	num := func(a *refAttr) (int32, bool) {
		d := a.Data
		v, ok := take32(&d)
		return int32(v), ok
	}
	if scheme == 2 {
		if len(ss) > 10 {
			return problem("count", "%d signers", len(ss))
		}
		for _, s := range ss {
			for i := range s.Attrs {
				if s.Attrs[i].ID == attrStrip && max >= 28 {
					if v, ok := num(&s.Attrs[i]); ok && v == 3 && l.pair(idV3) == nil {
						return problem("stripped", "v3 is announced but gone")
					}
				}
			}
		}
		return nil
	}
	from := min
	if from < 28 {
		from = 28
	}
	lo, hi, p := refRanges(ss)
	if p != nil {
		return p
	}
	if scheme == 3 {
		for _, s := range ss {
			for i := range s.Attrs {
				if s.Attrs[i].ID == attrMinSdk && max >= 33 && l.pair(idV31) == nil {
					return problem("stripped", "v3.1 is announced but gone")
				}
			}
		}
		if lo > from && minKnown || hi < max {
			return problem("range", "signers cover [%d,%d], [%d,%d] was requested", lo, hi, from, max)
		}
		return nil
	}
	if lo > max || hi < max {
		return problem("range", "v3.1 signers cover [%d,%d], [%d,%d] was requested", lo, hi, from, max)
	}
	b3 := l.pair(idV3)
	if b3 == nil {
		return problem("signer", "v3.1 without v3")
	}
	s3, p := refBlock(3, b3, sec)
	if p != nil {
		p2 := *p
		p2.Text = "v3 part: " + p2.Text
		return &p2
	}
	lo3, hi3, p := refRanges(s3)
	if p != nil {
		return p
	}
	for _, s := range s3 {
		for i := range s.Attrs {
			if s.Attrs[i].ID == attrMinSdk && max >= 33 {
				if v, ok := num(&s.Attrs[i]); ok && v != lo {
					return problem("range", "the v3 signer announces rotation from %d on, the v3.1 block starts at %d", v, lo)
				}
			}
		}
	}
	if lo3 > from && minKnown || hi3 < lo-1 {
		return problem("range", "v3 signers cover [%d,%d], [%d,%d] is left to them", lo3, hi3, from, lo-1)
	}
	return nil
}

var _ = crypto.SHA256
