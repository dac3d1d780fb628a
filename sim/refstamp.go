package main

import (
	"bytes"
	"crypto/sha256"
	"crypto/x509"
	"encoding/binary"
	"fmt"
	"sort"
)

// Executable reference model of source stamps and of frosting: what has to be
// true of the stored bytes when either is reported as genuine.

// jcaMin is the first platform whose security provider knows an algorithm.
func jcaMin(a uint32) int32 {
	switch a {
	case aPSS256, aPSS512:
		return 23
	case aEC256, aEC512, aVEC:
		return 11
	}
	return 1
}

// refStampSigs: the signatures a platform in range would look at verify over
// one of the given messages.
func refStampSigs(spki []byte, sigs []byte, max int32, msgs ...[]byte) string {
	all := map[uint32][]byte{}
	for len(sigs) > 0 {
		rec, ok := take(&sigs)
		if !ok {
			return "signature record"
		}
		a, ok := take32(&rec)
		if !ok {
			return "signature record"
		}
		if !algoKnown(a) {
			continue
		}
		if all[a], ok = take(&rec); !ok {
			return "signature"
		}
	}
	best := map[int32]uint32{}
	rank := func(a uint32) int { return map[int]int{1: 1, 3: 2, 2: 3}[algoDigest(a)] }
	for a := range all {
		m := jcaMin(a)
		if m > max {
			continue
		}
		if b, ok := best[m]; !ok || rank(a) > rank(b) || rank(a) == rank(b) && a < b {
			best[m] = a
		}
	}
	if len(best) == 0 {
		return "no signature with a known algorithm"
	}
	for _, a := range best {
		ok := false
		for _, m := range msgs {
			if refVerify(spki, a, m, all[a]) {
				ok = true
				break
			}
		}
		if !ok {
			return fmt.Sprintf("the signature with algorithm %#x does not verify", a)
		}
	}
	return ""
}

// refStamp judges a stamp reported without errors.
func refStamp(stored []byte, o *Outcome, max int32) string {
	l, ok := refLayout(stored)
	if !ok || !l.HasBlock || l.BlockBad {
		return "no signing block"
	}
	blk := l.pair(idStamp)
	if blk == nil {
		return "no stamp block"
	}
	b, ok := take(&blk)
	if !ok {
		return "the stamp block does not parse"
	}
	cert, ok1 := take(&b)
	schemes, ok2 := take(&b)
	if !ok1 || !ok2 {
		return "the stamp block does not parse"
	}
	spki := refCertSPKI(cert)
	if spki == nil {
		return ""
	}
	if k := keyByCert[string(cert)]; k == nil || k.Name != o.Stamp.Cert {
		return "another certificate is in the stamp block"
	}
	h := sha256.Sum256(cert)
	hh := sha256.Sum256(h[:])
	if !viewZip(stored).sums["stamp-cert-sha256"][string(hh[:])] {
		return "the file stamp-cert-sha256 does not hold the hash of the certificate"
	}
	need := uint32(o.Scheme)
	if need == 31 {
		need = 3
	}
	var sigs []byte
	found := false
	for len(schemes) > 0 {
		rec, ok := take(&schemes)
		if !ok {
			return "scheme record"
		}
		id, ok1 := take32(&rec)
		s, ok2 := take(&rec)
		if !ok1 || !ok2 {
			return "scheme record"
		}
		if id == need {
			sigs, found = s, true
		}
	}
	if !found {
		return fmt.Sprintf("no stamp for scheme %d", need)
	}
	var msgs [][]byte
	if need == 1 {
		for m := range viewZip(stored).sums["META-INF/MANIFEST.MF"] {
			msgs = append(msgs, stampDigestBytes(map[int][]byte{4: []byte(m)}))
		}
	} else {
		sec := sectionsOf(stored, l)
		for set := 1; set < 8; set++ {
			m := map[int][]byte{}
			for k := 1; k <= 3; k++ {
				if set&(1<<uint(k-1)) != 0 {
					m[k] = memoDigest(sec, k)
				}
			}
			msgs = append(msgs, stampDigestBytes(m))
		}
	}
	if p := refStampSigs(spki, sigs, max, msgs...); p != "" {
		return "contents: " + p
	}
	var when int64
	var lin []refNode
	if len(b) > 0 {
		attrs, ok1 := take(&b)
		asigs, ok2 := take(&b)
		if !ok1 || !ok2 {
			return "the attributes do not parse"
		}
		if p := refStampSigs(spki, asigs, max, attrs); p != "" {
			return "attributes: " + p
		}
		list, ok := take(&attrs)
		if !ok {
			return "the attributes do not parse"
		}
		for len(list) > 0 {
			at, ok := take(&list)
			if !ok {
				return "attribute"
			}
			id, ok := take32(&at)
			if !ok {
				return "attribute"
			}
			switch id {
			case 0xe43c5946:
				if len(at) < 8 {
					return "time attribute"
				}
				if when = int64(binary.LittleEndian.Uint64(at)); when <= 0 {
					return fmt.Sprintf("stamp time %d", when)
				}
			case 0x9d6303f7:
				nodes, p := refLineage(at)
				if p != nil {
					return "lineage: " + p.Text
				}
				if len(nodes) == 0 || !bytes.Equal(nodes[len(nodes)-1].Cert, cert) {
					return "the lineage does not end in the stamp certificate"
				}
				lin = nodes
			}
		}
	}
	if when != o.Stamp.Time {
		return fmt.Sprintf("the signed time is %d, reported is %d", when, o.Stamp.Time)
	}
	if len(lin) != len(o.Stamp.Lineage) {
		return fmt.Sprintf("the signed lineage has %d entries, reported is %v", len(lin), o.Stamp.Lineage)
	}
	for i, c := range lin {
		if keyByCert[string(c.Cert)] != nil && c.String() != o.Stamp.Lineage[i] {
			return fmt.Sprintf("entry %d of the signed lineage is %s, reported is %s", i, c.String(), o.Stamp.Lineage[i])
		}
	}
	return ""
}

var dgMemo = map[string][]byte{}

func memoDigest(sec *Sections, kind int) []byte {
	k := fmt.Sprint(kind, contentKey(sec))
	if d := dgMemo[k]; d != nil {
		return d
	}
	if len(dgMemo) > 5000 {
		dgMemo = map[string][]byte{}
	}
	dgMemo[k] = contentDigestOf(sec, kind)
	return dgMemo[k]
}

func takeVar(b *[]byte) (int32, bool) {
	var v int32
	for i := 0; i < 5; i++ {
		if len(*b) == 0 {
			return 0, false
		}
		x := (*b)[0]
		*b = (*b)[1:]
		v |= int32(x&0x7f) << uint(7*i)
		if x < 0x80 {
			return v, true
		}
	}
	return 0, false
}

// refFrost judges frosting reported as genuine: the first entry which is not
// disabled counts, Play's key signed everything up to its end, and the digest
// in it is the one of this file.
func refFrost(stored []byte, o *Outcome) string {
	l, ok := refLayout(stored)
	if !ok || !l.HasBlock || l.BlockBad {
		return "no signing block"
	}
	blk := l.pair(idFrost)
	b := blk
	psz, ok := takeVar(&b)
	if !ok || psz <= 0 || int(psz) > len(b) {
		return "the signed part does not parse"
	}
	signedAll, sigPart := b[:psz], b[psz:]
	b = signedAll
	isz, ok := takeVar(&b)
	if !ok || isz <= 0 || int(isz) > len(b) {
		return "the contents do not parse"
	}
	info := b[:isz]
	b = b[isz:]
	msz, ok := takeVar(&b)
	// a list a little longer than the signed part is let pass: the entry which
	// counts has to lie inside the block anyway
	if !ok || msz <= 0 {
		return "the entries do not parse"
	}
	pre := len(blk) - len(sigPart) - len(b) // offset of the list in the block
	end := pre + int(msz)
	list := blk[pre:]
	if end < len(blk) {
		list = blk[pre:end]
	}
	start := len(blk) - len(sigPart) - len(signedAll)
	for idx := 0; len(list) > 0; idx++ {
		n, ok := takeVar(&list)
		if !ok || n <= 0 || int(n) > len(list) {
			return "an entry does not parse"
		}
		e := list[:n]
		list = list[n:]
		dis, ok := takeVar(&e)
		if !ok {
			return "an entry does not parse"
		}
		if dis != 0 {
			continue
		}
		key, ok := takeVar(&e)
		if !ok || key != 0 {
			return fmt.Sprintf("key %d is not one of Play's", key)
		}
		if len(e) != 32 {
			return "the digest has a wrong size"
		}
		if !bytes.Equal(e, frostFileHash(sectionsOf(stored, l), l.pair(idV2))) {
			return "the signed digest is not the one of this file"
		}
		// where this entry ends in the block
		off := 0
		{
			c := blk[pre:]
			for i := 0; i <= idx; i++ {
				n, _ := takeVar(&c)
				c = c[n:]
			}
			off = len(blk) - len(c)
		}
		sl := sigPart
		ssz, ok := takeVar(&sl)
		if !ok || ssz <= 0 || int(ssz) > len(sl) {
			return "the signatures do not parse"
		}
		sl = sl[:ssz]
		for i := 0; ; i++ {
			n, ok := takeVar(&sl)
			if !ok || n < 0 || int(n) > len(sl) {
				return "a signature does not parse"
			}
			if i == idx {
				if !refVerify(mustKey("play.ec256").SPKI, aEC256, blk[start:off], sl[:n]) {
					return "Play's signature does not verify"
				}
				break
			}
			sl = sl[n:]
		}
		h := sha256.Sum256(info)
		if x := fmt.Sprintf("%d:%x", len(info), h[:6]); x != o.Frost.Info {
			return fmt.Sprintf("the signed contents are %s, reported are %s", x, o.Frost.Info)
		}
		hk := sha256.Sum256(mustKey("play.ec256").SPKI)
		if x := fmt.Sprintf("%x", hk[:]); x != o.Frost.Key {
			return fmt.Sprintf("Play's key is %s, reported is %s", x, o.Frost.Key)
		}
		return ""
	}
	return "every entry is disabled"
}

var _ = sort.Strings
var _ = x509.ParseCertificate
