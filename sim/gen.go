package main

import (
	"fmt"
	"math"
)

const (
	anyMin int32 = -1
	anyMax int32 = math.MaxInt32
)

// party describes what keys a simulated publisher owns.
type party struct {
	name string
	rsa  []string
	ec   []string
	dsa  []string
}

var parties = map[string]*party{
	"vic": {"vic", []string{"vic.rsa", "vic.rsa2", "vic.rsa3", "vic.rsa1024"}, []string{"vic.ec256", "vic.ec256b", "vic.ec384", "vic.ec521"}, []string{"vic.dsa1024", "vic.dsa2048"}},
	"att": {"att", []string{"att.rsa", "att.rsa2"}, []string{"att.ec256"}, []string{"att.dsa1024", "att.dsa2048"}},
}

func (p *party) key(r *Rng) string {
	switch x := r.N(10); {
	case x < 5:
		return p.rsa[r.N(len(p.rsa))]
	case x < 8:
		return p.ec[r.N(len(p.ec))]
	}
	return p.dsa[r.N(len(p.dsa))]
}

// keyN picks n distinct keys.
func (p *party) keyN(r *Rng, n int) []string {
	all := append(append(append([]string(nil), p.rsa...), p.ec...), p.dsa...)
	for i := len(all) - 1; i > 0; i-- {
		j := r.N(i + 1)
		all[i], all[j] = all[j], all[i]
	}
	if n > len(all) {
		n = len(all)
	}
	return all[:n]
}

type sdkRange struct{ min, max int32 }

var ranges = []sdkRange{
	{anyMin, anyMax}, {24, anyMax}, {28, anyMax}, {21, anyMax}, {1, anyMax}, {30, anyMax}, {33, anyMax},
	{26, 29}, {24, 27}, {28, 32}, {24, 24}, {33, 33}, {30, 34}, {18, 23}, {21, 27}, {19, 30}, {anyMin, 27}, {anyMin, 32}, {34, anyMax}, {24, 33},
}

func genRange(r *Rng) sdkRange { return ranges[r.N(len(ranges))] }

func genAlgos(r *Rng, k *Key, align bool) []uint32 {
	all := algosFor(k)
	var ok []uint32
	for _, a := range all {
		if algoDigest(a) == 3 && !align {
			continue
		}
		ok = append(ok, a)
	}
	out := []uint32{ok[r.N(len(ok))]}
	if r.P(30) {
		if b := ok[r.N(len(ok))]; b != out[0] {
			out = append(out, b)
		}
	}
	if r.P(6) { // all of them, in any order
		out = append([]uint32(nil), ok...)
		for i := len(out) - 1; i > 0; i-- {
			j := r.N(i + 1)
			out[i], out[j] = out[j], out[i]
		}
	}
	return out
}

var entryNames = []string{"classes.dex", "resources.arsc", "res/layout/main.xml", "assets/data.bin", "lib/arm64-v8a/libapp.so", "classes2.dex", "res/raw/x.txt", "kotlin/k.bin",
	"assets/a very long file name that will need to be wrapped in the manifest because it exceeds seventy characters.txt",
	"assets/ž" + "luťoučký kůň příšerně úpěl ďábelské ódy a ještě dlouho potom.txt", "res/name with: colon.xml"}

func genEntries(r *Rng) []EntrySpec {
	var out []EntrySpec
	n := 1 + r.N(5)
	for i := 0; i < n; i++ {
		e := EntrySpec{Name: entryNames[(i+r.N(3))%len(entryNames)], Size: r.N(600)}
		switch r.N(8) {
		case 0:
			e.Size = 0
		case 1:
			e.Size = 3000 + r.N(9000)
		}
		e.Deflate = r.P(60)
		e.DD = e.Deflate && r.P(20)
		if r.P(20) {
			e.Extra = 4 + r.N(12)
		}
		dup := false
		for _, o := range out {
			if o.Name == e.Name {
				dup = true
			}
		}
		if !dup {
			out = append(out, e)
		}
	}
	if r.P(15) { // members which look as if they needed no signature
		out = append(out, EntrySpec{Name: pick(r, oddNames...), Size: 1 + r.N(90)})
	}
	if r.P(20) { // and ones which really need none
		out = append(out, EntrySpec{Name: pick(r, "META-INF/services/a.b.C", "META-INF/proguard/x.pro", "META-INF/NOTICE", "META-INF/com/android/metadata", "META-INF/a.kotlin_module"), Size: r.N(90), Deflate: r.P(50)})
	}
	if r.P(15) {
		out = append(out, EntrySpec{Name: pick(r, "res/", "assets/dir/", "META-INF/x/"), Dir: true})
	}
	return out
}

func genManifestForm(r *Rng, m *ManifestSpec) {
	if r.P(25) {
		m.Hex = r.N(8)
	}
	if r.P(15) {
		m.Str = r.N(8)
	}
	if r.P(40) {
		m.Lay = r.N(128)
	}
}

func genManifest(r *Rng) *ManifestSpec {
	m := &ManifestSpec{Deflate: r.P(70), Ver: r.N(20)}
	m.Min = pick(r, int32(0), 4, 14, 18, 21, 21, 23, 24, 26, 28, 30)
	m.Target = pick(r, int32(0), 14, 22, 26, 28, 29)
	genManifestForm(r, m)
	return m
}

func genV1Signer(r *Rng, key string) V1Signer {
	k := mustKey(key)
	s := V1Signer{Key: key}
	s.Pkcs7Hash = pick(r, "SHA1", "", "")
	if k.Kind != "dsa" && r.P(25) {
		s.Pkcs7Hash = pick(r, "SHA-384", "SHA-512")
	}
	if k.Kind == "dsa" && r.P(20) || k.Kind != "dsa" && r.P(5) {
		s.Pkcs7Hash = "SHA-224"
	}
	if s.Pkcs7Hash == "" || s.Pkcs7Hash == "SHA1" {
		s.Attrs = r.P(35)
	}
	s.AttrTime = r.P(40)
	s.CertRev = r.P(25)
	if r.P(12) {
		s.Bag = pick(r, "serial", "issuer", "twin")
	}
	s.Respell = r.P(12)
	s.AlgWith = r.P(25)
	if k.Kind == "rsa" && r.P(8) {
		s.Pkcs7Hash, s.Attrs = "MD5", false
	}
	if k.Kind == "rsa" && r.P(3) {
		s.RsaPad = pick(r, 1, 1, 2)
	}
	s.NoWhole = r.P(20)
	s.MainAttr = r.P(30)
	s.Signtool = r.P(10)
	if r.P(20) {
		s.SFDigest = pick(r, "SHA1", "SHA-256", "SHA-512")
	}
	return s
}

func genV1(r *Rng, keys []string) *V1Spec {
	v := &V1Spec{Order: r.N(4), LF: r.P(15)}
	v.Digests = pick(r, []string{"SHA1"}, []string{"SHA-256"}, []string{"SHA-256"}, []string{"SHA1", "SHA-256"}, []string{"SHA-512"}, []string{"SHA-384", "SHA1"})
	if r.P(8) {
		v.Digests, v.Algs = []string{"MD5", "SHA1"}, pick(r, "MD5 SHA1", "SHA1 MD5", "MD5 SHA1 SHA-256")
		if r.P(30) {
			v.Digests, v.Algs = []string{"SHA", "SHA1"}, pick(r, "", "SHA SHA1")
		}
	}
	for i, k := range keys {
		s := genV1Signer(r, k)
		if v.Digests[0] == "MD5" || v.Digests[0] == "SHA" {
			s.SFDigest = pick(r, "SHA1", "SHA-256")
		}
		if i > 0 && r.P(50) {
			s.File = "OTHER"
			if i > 1 {
				s.File = fmt.Sprintf("ZTHIRD%d", i)
			} else if r.P(30) {
				s.File = "sub/CERT"
			}
		}
		v.Signers = append(v.Signers, s)
	}
	return v
}

type want struct{ v1, v2, v3, v31 bool }

func genWant(r *Rng) want {
	switch r.N(12) {
	case 0, 1:
		return want{v1: true}
	case 2, 3, 4:
		return want{v1: true, v2: true}
	case 5:
		return want{v2: true}
	case 6:
		return want{v1: true, v2: true, v3: true}
	case 7:
		return want{v3: true}
	case 8:
		return want{v2: true, v3: true}
	case 9:
		return want{v1: true, v2: true, v3: true, v31: true}
	case 10:
		return want{v3: true, v31: true}
	}
	return want{v2: true, v3: true, v31: true}
}

// genHonest produces the specification of an APK a correct publisher signs.
func genHonest(r *Rng, p *party, w want) ApkSpec {
	sp := ApkSpec{Fill: r.U64() >> 11, Entries: genEntries(r), Manifest: genManifest(r)}
	verity := false
	if w.v2 || w.v3 {
		sp.Align = r.P(30)
		sp.PadBlock = r.P(40)
		if r.P(40) {
			sp.Order = 1 + r.U64()>>11
		}
		for i := r.N(3); i > 0 && r.P(40); i-- {
			sp.Extra = append(sp.Extra, ExtraSpec{ID: pick(r, uint32(idDepMeta), 0x71777777, idStampV1, 0x11223344), Len: r.N(40)})
		}
	}
	switch r.N(40) {
	case 0, 1, 2, 3, 4, 5, 6:
		sp.Comment = 1 + r.N(60)
	case 7:
		sp.Comment = pick(r, 300, 1000, 4096)
	case 8:
		sp.Comment = pick(r, 32767, 32768, 40000, 65534, 65535)
	}
	switch r.N(64) {
	case 0:
		sp.Target = 1<<20 + r.Range(-1, 1)
	case 1:
		sp.Target = 65536 + r.Range(-1, 1)
	case 2:
		sp.Target = 4096*129 + 4096*r.N(2)
		sp.Align = true
	case 3:
		sp.Target = 2<<20 + r.Range(-2, 2)
	case 4, 5: // around one full level of a hash tree
		sp.Target = 4096 * (126 + r.N(3))
		sp.Align = true
		sp.Tail = pick(r, 1, 2, 2, 3, 4096)
		verity = true
	case 6:
		sp.Align = true
		sp.Tail = pick(r, 1, 2, 4096, 1+r.N(4096))
		verity = true
	case 7: // a central directory of more than one chunk
		for i := 0; i < 18; i++ {
			sp.Entries = append(sp.Entries, EntrySpec{Name: fmt.Sprintf("res/f%d.bin", i), Size: r.N(20)})
		}
		sp.CDTarget = 1<<20 + r.Range(-1, 1)
		if r.P(30) {
			sp.CDTarget = 4096 * (1 + r.N(3))
		}
	}
	if sp.Comment > 60000 {
		sp.Tail = 0
	}
	genAlgos := func(r *Rng, k *Key, align bool) []uint32 {
		out := genAlgos(r, k, align)
		if verity && r.P(70) {
			for _, a := range algosFor(k) {
				if algoDigest(a) == 3 {
					out = []uint32{a}
				}
			}
		}
		return out
	}
	if w.v1 {
		n := 1
		if r.P(15) {
			n = 2
		}
		if r.P(3) {
			n = 3 + r.N(8)
		}
		keys := p.keyN(r, n)
		if r.P(20) && p.name == "vic" {
			keys = []string{leafKey(r)}
		}
		sp.V1 = genV1(r, keys)
		att := ""
		if w.v2 {
			att = "2"
		}
		if w.v3 {
			if att != "" {
				att += ", "
			}
			att += "3"
		}
		if att != "" && r.P(80) {
			for i := range sp.V1.Signers {
				sp.V1.Signers[i].Apk = att
			}
		}
	}
	if w.v2 {
		n := 1
		if r.P(20) {
			n = 2 + r.N(2)
		}
		if r.P(4) {
			n = 4 + r.N(7)
		}
		sp.V2 = &BlkSpec{}
		keys := p.keyN(r, n)
		if r.P(6) && p.name == "vic" {
			keys[r.N(len(keys))] = leafKey(r)
		}
		for _, kn := range keys {
			s := BlkSigner{Key: kn, Algos: genAlgos(r, mustKey(kn), sp.Align), Unknown: r.P(25), UnkPos: r.N(2), UnkAlgo: pick(r, 0, 0, 0, 0, 0, 0, 1, 2)}
			if w.v3 && r.P(80) {
				s.Strip = 3
			}
			sp.V2.Signers = append(sp.V2.Signers, s)
		}
	}
	if w.v3 {
		sp.V3 = &BlkSpec{}
		keys := p.keyN(r, 7)
		rot := int32(33 + r.N(2))
		if r.P(15) {
			rot = int32(33 + r.N(6))
		}
		top := anyMax
		if w.v31 {
			top = rot - 1
			if r.P(10) {
				top = pick(r, rot, rot+1, anyMax) // v3 may reach further than it has to
			}
		}
		var flags []int32
		var algos []uint32
		mk := func(kn string, min, max int32, lin []string) BlkSigner {
			s := BlkSigner{Key: kn, Algos: genAlgos(r, mustKey(kn), sp.Align), Min: min, Max: max, Unknown: r.P(25), UnkPos: r.N(2), UnkAlgo: pick(r, 0, 0, 0, 0, 0, 0, 1, 2)}
			if len(lin) > 1 {
				s.Lineage = &LineageSpec{Keys: lin}
				for i, k := range lin { // the signers of one APK share their history
					if i >= len(flags) {
						flags = append(flags, int32(1+r.N(31)))
						al := algosFor(mustKey(k))
						algos = append(algos, al[r.N(len(al))])
					}
				}
				s.Lineage.Flags = append(s.Lineage.Flags, flags[:len(lin)]...)
				s.Lineage.Algos = append(s.Lineage.Algos, algos[:len(lin)]...)
			}
			if w.v31 && r.P(80) {
				s.RotMin = rot
			}
			return s
		}
		lo := int32(24 + 4*r.N(2))
		if r.P(6) {
			lo = int32(1 + r.N(2))
		}
		used := 1 // keys of the history so far
		switch x := r.N(4); {
		case x == 0:
			// the signer set changes at platform versions
			n := 2
			if r.P(25) {
				n = 3 + r.N(2)
			}
			cuts := []int32{lo}
			for c := int32(28 + r.N(2)); len(cuts) < n && c < rot; c += int32(1 + r.N(2)) {
				if c > lo {
					cuts = append(cuts, c)
				}
			}
			at := 0
			for i, c := range cuts {
				end := top
				if i+1 < len(cuts) {
					end = cuts[i+1] - 1
				}
				if i > 0 && at < len(keys)-3 && !r.P(15) {
					at++
				}
				sp.V3.Signers = append(sp.V3.Signers, mk(keys[at], c, end, keys[:at+1]))
			}
			used = at + 1
			if r.P(40) {
				ss := sp.V3.Signers
				for i := len(ss) - 1; i > 0; i-- {
					j := r.N(i + 1)
					ss[i], ss[j] = ss[j], ss[i]
				}
			}
		case x == 1:
			used = 2
			sp.V3.Signers = []BlkSigner{mk(keys[1], lo, top, keys[:2])}
		default:
			sp.V3.Signers = []BlkSigner{mk(keys[0], lo, top, nil)}
		}
		if w.v31 {
			n := 1
			if r.P(25) {
				n = 2 + r.N(2)
			}
			sp.V31 = &BlkSpec{}
			from := rot
			for i := 0; i < n; i++ {
				to := anyMax
				if i+1 < n {
					to = from + int32(r.N(3))
				}
				if used < len(keys) {
					used++
				}
				s := mk(keys[used-1], from, to, keys[:used])
				s.RotMin = 0
				s.Dev = r.P(20)
				sp.V31.Signers = append(sp.V31.Signers, s)
				from = to + 1
			}
			if n > 1 && r.P(40) {
				ss := sp.V31.Signers
				ss[0], ss[n-1] = ss[n-1], ss[0]
			}
		}
	}
	return sp
}

func genStamp(r *Rng, sp *ApkSpec) {
	st := &StampSpec{Key: pick(r, "stamp.rsa", "stamp.rsa2", "stamp.ec256")}
	k := mustKey(st.Key)
	st.Algos = []uint32{pick(r, map[string][]uint32{"rsa": {aRSA256, aRSA256, aRSA512, aPSS256}, "ec": {aEC256, aEC512}}[k.Kind]...)}
	if k.Kind == "rsa" && r.P(30) {
		st.Algos = []uint32{aRSA256, aPSS512}
	}
	if r.P(70) {
		st.Time = 1500000000 + r.N64(1e8)
		if r.P(15) {
			st.Time = pick(r, int64(1), 1<<31-1, 1<<31, 4102444800, 1<<32+5, 1<<40)
		}
	}
	if r.P(30) {
		st.Lineage = &LineageSpec{Keys: []string{pick(r, "vic.rsa", "vic.ec256"), st.Key}}
		for _, k := range []string{"vic.rsa2", "vic.ec384", "vic.rsa3"} {
			if r.P(25) {
				st.Lineage.Keys = append([]string{k}, st.Lineage.Keys...)
			}
		}
		for range st.Lineage.Keys {
			st.Lineage.Algos = append(st.Lineage.Algos, pick(r, uint32(aRSA256), aRSA512, aPSS256, aEC256, aEC512))
			st.Lineage.Flags = append(st.Lineage.Flags, int32(r.N(32)))
		}
		st.LinFirst = r.P(40)
	}
	if r.P(10) {
		st.Unknown = 1 + r.N(6)
	}
	if st.Time == 0 && st.Lineage == nil && st.Unknown == 0 {
		st.NoAttrs = r.P(50)
	}
	sp.Stamp = st
}

// expectation of an honest, untouched APK for a client asking about [min,max].
type expect struct {
	ok     bool
	scheme int
	why    string
}

func effMin(sp *ApkSpec, min int32) int32 {
	if min != anyMin {
		return min
	}
	if sp.Manifest == nil {
		return 1
	}
	if sp.Manifest.Mode != "" {
		return anyMin
	}
	if sp.Manifest.Min == 0 {
		return 1
	}
	return sp.Manifest.Min
}

func expectHonest(sp *ApkSpec, min, max int32) expect {
	m := effMin(sp, min)
	if m > max {
		return expect{false, 0, "range"}
	}
	scheme := 1
	switch {
	case sp.V31 != nil && max >= 33:
		scheme = 31
	case sp.V3 != nil && max >= 28:
		scheme = 3
	case sp.V2 != nil && max >= 24:
		scheme = 2
	}
	covers := func(bs *BlkSpec, lo, hi int32) bool {
		var a, b int32
		for i, s := range bs.Signers {
			if i == 0 || s.Min < a {
				a = s.Min
			}
			if i == 0 || s.Max > b {
				b = s.Max
			}
		}
		return a <= lo && b >= hi
	}
	lo := m
	if lo < 28 {
		lo = 28
	}
	switch scheme {
	case 31:
		rot := sp.V31.Signers[0].Min
		for _, s := range sp.V31.Signers {
			if s.Min < rot {
				rot = s.Min
			}
		}
		if !covers(sp.V31, max, max) || !covers(sp.V3, lo, rot-1) {
			return expect{false, scheme, "coverage"}
		}
	case 3:
		if !covers(sp.V3, lo, max) {
			return expect{false, scheme, "coverage"}
		}
	}
	if scheme == 1 && m >= 24 && sp.V1 == nil {
		return expect{false, 1, "unsigned"}
	}
	if scheme == 1 || m < 24 {
		if sp.V1 == nil {
			return expect{false, scheme, "no v1"}
		}
		if max < 18 {
			return expect{false, scheme, "digests"}
		}
		if sp.Manifest != nil && sp.Manifest.Mode == "" && (min == anyMin || max >= 26) {
			if sp.Manifest.Sandbox > 1 && max >= 26 && scheme < 2 {
				return expect{false, scheme, "sandbox"}
			}
			if sp.Manifest.Target >= 30 && max >= sp.Manifest.Target && scheme < 2 {
				return expect{false, scheme, "target"}
			}
		}
		if scheme == 1 && max >= 24 {
			for _, s := range sp.V1.Signers {
				if s.Apk != "" && (s.Apk[0] == '2' || max >= 28) {
					return expect{false, scheme, "stripped"}
				}
			}
		}
	}
	return expect{true, scheme, ""}
}
