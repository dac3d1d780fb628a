package main

import (
	"archive/zip"
	"bytes"
	"crypto"
	"crypto/dsa"
	"crypto/ecdsa"
	"crypto/rsa"
	"crypto/sha256"
	"crypto/x509"
	"encoding/asn1"
	"encoding/base64"
	"math/big"
	"path"
	"sort"
	"strings"

	"github.com/avast/apkparser"
)

// Executable reference model of the JAR (v1) scheme, built on the standard
// library: does the archive hold a signature file, validly signed by the given
// key, which covers every member? Constructs it does not understand count as
// covered, so that it only ever speaks up about certain breaches.

type refMF struct {
	main   map[string]string
	names  []string
	ent    map[string]map[string]string
	chunks map[string][]byte
	head   []byte // main section with its blank line
	raw    []byte
}

// refManifest parses a manifest in canonical layout; false if it is not.
func refManifest(raw []byte) (*refMF, bool) {
	m := &refMF{main: map[string]string{}, ent: map[string]map[string]string{}, chunks: map[string][]byte{}, raw: raw}
	nl := "\n"
	if bytes.Contains(raw, []byte("\r\n")) {
		nl = "\r\n"
		if bytes.Count(raw, []byte("\n")) != bytes.Count(raw, []byte("\r\n")) || bytes.Count(raw, []byte("\r")) != bytes.Count(raw, []byte("\r\n")) {
			return nil, false
		}
	} else if bytes.IndexByte(raw, '\r') >= 0 {
		return nil, false
	}
	if bytes.IndexByte(raw, 0) >= 0 {
		return nil, false
	}
	rest := raw
	first := true
	for len(rest) > 0 {
		i := bytes.Index(rest, []byte(nl+nl))
		if i <= 0 {
			return nil, false
		}
		sec := rest[:i+2*len(nl)]
		attrs := map[string]string{}
		var last, order string
		for k, line := range strings.Split(string(rest[:i]), nl) {
			if line == "" {
				return nil, false
			}
			if line[0] == ' ' {
				if k == 0 {
					return nil, false
				}
				attrs[last] += line[1:]
				continue
			}
			c := strings.Index(line, ": ")
			if c <= 0 {
				return nil, false
			}
			for _, x := range line[:c] {
				if !(x >= 'a' && x <= 'z' || x >= 'A' && x <= 'Z' || x >= '0' && x <= '9' || x == '-' || x == '_') {
					return nil, false
				}
			}
			last = strings.ToLower(line[:c])
			if k == 0 {
				order = last
			}
			attrs[last] = line[c+2:]
		}
		if first {
			m.main, m.head, first = attrs, sec, false
		} else {
			if order != "name" {
				return nil, false
			}
			n := attrs["name"]
			if m.ent[n] == nil {
				m.ent[n] = map[string]string{}
				m.names = append(m.names, n)
				m.chunks[n] = sec
			}
			for a, v := range attrs {
				if a != "name" {
					m.ent[n][a] = v
				}
			}
		}
		rest = rest[len(sec):]
	}
	return m, !first
}

var refDigests = []struct {
	name string
	h    crypto.Hash
}{{"sha-512", crypto.SHA512}, {"sha-384", crypto.SHA384}, {"sha-256", crypto.SHA256}, {"sha1", crypto.SHA1}}

var refOldDigests = map[string]crypto.Hash{"md5": crypto.MD5, "sha": crypto.SHA1, "sha1": crypto.SHA1, "sha-256": crypto.SHA256, "sha-384": crypto.SHA384, "sha-512": crypto.SHA512}

// refDigestOk: do the digests which platforms of [min,max] look at match? known
// is false if there are none.
func refDigestOk(attrs map[string]string, suffix string, min, max int32, match func(h crypto.Hash, sum []byte) bool) (ok, known bool) {
	ok = true
	one := func(name string, h crypto.Hash) {
		known = true
		sum, err := base64.StdEncoding.DecodeString(attrs[name+suffix])
		if err != nil || !match(h, sum) {
			ok = false
		}
	}
	if min < 18 {
		algs := strings.ToLower(attrs["digest-algorithms"])
		if algs == "" {
			algs = "sha sha1"
		}
		for _, n := range strings.Split(algs, " ") {
			h, ok := refOldDigests[n]
			if _, prs := attrs[n+suffix]; ok && prs && (min >= 9 || h.Size() <= 32) {
				one(n, h)
			}
		}
	}
	if max >= 18 {
		known = false
		for _, d := range refDigests {
			if _, prs := attrs[d.name+suffix]; prs {
				one(d.name, d.h)
				break
			}
		}
	}
	return
}

type refInfo struct {
	Version int
	Sid     struct {
		Issuer asn1.RawValue
		Serial *big.Int
	}
	Dig   refAlg
	Attrs asn1.RawValue `asn1:"optional,tag:0"`
	Enc   refAlg
	Sig   []byte
}

type refAlg struct {
	OID asn1.ObjectIdentifier
	Par asn1.RawValue `asn1:"optional"`
}

type refAttribute struct {
	Type  asn1.ObjectIdentifier
	Value asn1.RawValue `asn1:"set"`
}

// certMaySign says whether a certificate's extensions leave its key to sign files.
func certMaySign(c *x509.Certificate) bool {
	for _, e := range c.Extensions {
		switch {
		case len(e.Id) != 4 || e.Id[0] != 2 || e.Id[1] != 5 || e.Id[2] != 29:
			if e.Critical {
				return false
			}
		case e.Id[3] == 15 && c.KeyUsage&(x509.KeyUsageDigitalSignature|x509.KeyUsageContentCommitment) == 0:
			return false
		}
	}
	return true
}

// refPkcs7 says whether k validly signed content in a detached PKCS#7 message;
// unknown is set when the message cannot be read.
func refPkcs7(raw []byte, k *Key, content []byte, min, max int32) (ok, unknown bool) {
	var ci struct {
		Type asn1.ObjectIdentifier
		Body asn1.RawValue `asn1:"explicit,tag:0"`
	}
	if rest, err := asn1.Unmarshal(raw, &ci); err != nil || len(rest) > 0 {
		return false, true
	}
	var sd struct {
		Version int
		Digs    asn1.RawValue
		Inner   struct {
			Type asn1.ObjectIdentifier
			Body asn1.RawValue `asn1:"optional,explicit,tag:0"`
		}
		Certs asn1.RawValue `asn1:"optional,tag:0"`
		Crls  asn1.RawValue `asn1:"optional,tag:1"`
		Infos asn1.RawValue
	}
	body := ci.Body.FullBytes
	if _, err := asn1.Unmarshal(body, &sd); err != nil {
		return false, true
	}
	if !bytes.Contains(sd.Certs.Bytes, k.SPKI) {
		return false, false
	}
	var certs []*x509.Certificate
	whole := true // all certificates could be read
	for b := sd.Certs.Bytes; len(b) > 0; {
		var c asn1.RawValue
		var err error
		if b, err = asn1.Unmarshal(b, &c); err != nil {
			whole = false
			break
		}
		if x, err := x509.ParseCertificate(c.FullBytes); err == nil {
			certs = append(certs, x)
		} else {
			whole = false
		}
	}
	rest := sd.Infos.Bytes
	for i := 0; len(rest) > 0; i++ {
		var in refInfo
		var err error
		if rest, err = asn1.Unmarshal(rest, &in); err != nil {
			return false, true
		}
		if i > 0 && min < 24 {
			break // older platforms look at the first one only
		}
		h := crypto.Hash(0)
		for hh, oid := range oidHash {
			if in.Dig.OID.Equal(asn1.ObjectIdentifier(oid)) {
				h = hh
			}
		}
		if h == 0 {
			return false, true // MD5 and the like
		}
		signed := content
		if len(in.Attrs.Bytes) > 0 {
			signed = append([]byte{0x31}, in.Attrs.FullBytes[1:]...)
			md, ct := false, false
			as := in.Attrs.Bytes
			for len(as) > 0 {
				var a refAttribute
				if as, err = asn1.Unmarshal(as, &a); err != nil {
					return false, true
				}
				switch {
				case a.Type.Equal(asn1.ObjectIdentifier{1, 2, 840, 113549, 1, 9, 4}):
					var d []byte
					if _, err := asn1.Unmarshal(a.Value.Bytes, &d); err == nil && bytes.Equal(d, hashSum(h, content)) {
						md = true
					}
				case a.Type.Equal(asn1.ObjectIdentifier{1, 2, 840, 113549, 1, 9, 3}):
					var o asn1.ObjectIdentifier
					if _, err := asn1.Unmarshal(a.Value.Bytes, &o); err == nil && o.Equal(sd.Inner.Type) {
						ct = true
					}
				}
			}
			if !md || max >= 24 && !ct {
				continue
			}
		}
		if refRawVerify(k, h, signed, in.Sig) {
			for _, c := range certs {
				if bytes.Equal(c.RawSubjectPublicKeyInfo, k.SPKI) && c.SerialNumber.Cmp(in.Sid.Serial) == 0 && certMaySign(c) {
					return true, false
				}
			}
			if !whole {
				return true, false
			}
		}
	}
	return false, false
}

func refRawVerify(k *Key, h crypto.Hash, data, sig []byte) bool {
	d := hashSum(h, data)
	var p struct{ R, S *big.Int }
	switch k.Kind {
	case "rsa":
		if n := k.Rsa.Size(); len(sig) < n {
			sig = append(make([]byte, n-len(sig)), sig...)
		}
		return rsa.VerifyPKCS1v15(&k.Rsa.PublicKey, h, d, sig) == nil
	case "ec":
		_, err := asn1.Unmarshal(sig, &p)
		return err == nil && ecdsa.Verify(&k.Ec.PublicKey, d, p.R, p.S)
	case "dsa":
		if q := k.Dsa.Q.BitLen() / 8; q < len(d) {
			d = d[:q]
		}
		_, err := asn1.Unmarshal(sig, &p)
		return err == nil && dsa.Verify(&k.Dsa.PublicKey, d, p.R, p.S)
	}
	return false
}

type refJar struct {
	names []string // members outside META-INF, without directories
	sum   map[string]map[crypto.Hash][]byte
	data  map[string][]byte
	meta  map[string][]byte
}

var jarMemo = map[[32]byte]*refJar{}

// openJar reads an archive with one content per name; nil for broken ones.
func openJar(stored []byte) *refJar {
	h := sha256.Sum256(stored)
	if j, ok := jarMemo[h]; ok {
		return j
	}
	if len(jarMemo) > 500 {
		jarMemo = map[[32]byte]*refJar{}
	}
	jarMemo[h] = nil
	if z, err := zip.NewReader(bytes.NewReader(stored), int64(len(stored))); err != nil || z == nil {
		return nil
	}
	zr, err := apkparser.OpenZipReader(bytes.NewReader(stored))
	if err != nil {
		return nil
	}
	defer zr.Close()
	j := &refJar{data: map[string][]byte{}, meta: map[string][]byte{}, sum: map[string]map[crypto.Hash][]byte{}}
	for _, f := range zr.FilesOrdered {
		if f.ZipHeader() == nil || strings.HasSuffix(f.ZipHeader().Name, "/") {
			continue
		}
		n := path.Clean(f.Name)
		if f.Open() != nil {
			return nil
		}
		if !f.Next() {
			f.Close()
			return nil
		}
		var b bytes.Buffer
		_, err := copyTo(&b, f)
		f.Close()
		if err != nil {
			return nil
		}
		if strings.HasPrefix(n, "META-INF/") {
			j.meta[n] = b.Bytes()
		} else {
			j.names = append(j.names, n)
			j.data[n] = b.Bytes()
		}
	}
	jarMemo[h] = j
	return j
}

func (j *refJar) matches(name string, h crypto.Hash, sum []byte) bool {
	m := j.sum[name]
	if m == nil {
		m = map[crypto.Hash][]byte{}
		j.sum[name] = m
	}
	if m[h] == nil {
		m[h] = hashSum(h, j.data[name])
	}
	return bytes.Equal(m[h], sum)
}

// refV1 is nil if the archive holds a valid signature of k which covers all of
// it on the platforms [min,max], or if the model cannot tell.
func refV1(stored []byte, k *Key, min, max int32) *refProblem {
	j := openJar(stored)
	if j == nil || k == nil {
		return nil
	}
	mfRaw, ok := j.meta["META-INF/MANIFEST.MF"]
	if !ok {
		return problem("v1", "there is no manifest")
	}
	mf, ok := refManifest(mfRaw)
	if !ok {
		return nil
	}
	for _, n := range j.names {
		at := mf.ent[n]
		if at == nil {
			return problem("v1", "member %s is not in the manifest", n)
		}
		ok, known := refDigestOk(at, "-digest", min, max, func(h crypto.Hash, sum []byte) bool { return j.matches(n, h, sum) })
		if !ok || !known {
			return problem("v1", "member %s does not match its manifest digest", n)
		}
	}
	for _, n := range mf.names {
		if _, ok := j.data[n]; !ok && !strings.HasPrefix(n, "META-INF/") {
			return problem("v1", "member %s of the manifest is missing", n)
		}
	}
	left := map[string]bool{}
	for _, n := range j.names {
		left[n] = true
	}
	why := "there is no signature by " + k.Name
	found := false
	for _, n := range sortedKeys(j.meta) {
		blk := j.meta[n]
		dot := strings.LastIndexByte(n, '.')
		if dot < 0 {
			continue
		}
		if e := n[dot:]; e != ".RSA" && e != ".DSA" && e != ".EC" {
			continue
		}
		sfRaw, ok := j.meta[n[:dot]+".SF"]
		if !ok {
			continue
		}
		ok, unknown := refPkcs7(blk, k, sfRaw, min, max)
		if unknown {
			return nil
		}
		if !ok {
			continue
		}
		sf, ok := refManifest(sfRaw)
		if !ok {
			return nil
		}
		if _, prs := sf.main["signature-version"]; !prs {
			why = n + " names no signature version"
			continue
		}
		if bad := refSFMatches(sf, mf, min, max); bad != "" {
			why = "the signature file beside " + n + " does not match the manifest at " + bad
			continue
		}
		for en := range sf.ent {
			delete(left, en)
		}
		found = true
	}
	if !found {
		return problem("v1", "%s", why)
	}
	for _, n := range j.names {
		if !left[n] {
			continue
		}
		return problem("v1", "member %s is not covered by any signature of %s", n, k.Name)
	}
	return nil
}

// refSFMatches names the first entry of a signature file which does not match
// the manifest, unless the file matches it as a whole.
func refSFMatches(sf, mf *refMF, min, max int32) string {
	signtool := strings.Contains(sf.main["created-by"], "signtool")
	suffix := "-digest-manifest"
	if signtool {
		suffix = "-digest"
	}
	whole, known := refDigestOk(sf.main, suffix, min, max, func(h crypto.Hash, sum []byte) bool { return bytes.Equal(hashSum(h, mf.raw), sum) })
	if whole && known {
		return ""
	}
	for _, en := range sf.names {
		at := sf.ent[en]
		ch := mf.chunks[en]
		ok, known := refDigestOk(at, "-digest", min, max, func(h crypto.Hash, sum []byte) bool {
			c := ch
			if signtool && bytes.HasSuffix(c, []byte("\n\n")) {
				c = c[:len(c)-1]
			}
			return c != nil && bytes.Equal(hashSum(h, c), sum)
		})
		if !ok || !known {
			return en
		}
	}
	return ""
}

// refIdleSF counts the signature files which cover no member or name sections
// the manifest does not have.
func refIdleSF(stored []byte) int {
	j := openJar(stored)
	if j == nil {
		return 99
	}
	mf, ok := refManifest(j.meta["META-INF/MANIFEST.MF"])
	if !ok {
		return 99
	}
	idle := 0
	for n, raw := range j.meta {
		if !strings.HasSuffix(n, ".SF") {
			continue
		}
		sf, ok := refManifest(raw)
		covers, stray := false, false
		if ok {
			for _, en := range sf.names {
				stray = stray || mf.chunks[en] == nil
				_, prs := j.data[en]
				covers = covers || prs
			}
		}
		if !ok || stray || !covers {
			idle++
		}
	}
	return idle
}

// refStaleSF finds a signature file with digests which contradict the manifest.
// Platforms reject such an archive, whatever else signs it; they only ignore
// files which do not name their version or which name other sections than the
// manifest has.
func refStaleSF(stored []byte, min, max int32) *refProblem {
	j := openJar(stored)
	if j == nil {
		return nil
	}
	mf, ok := refManifest(j.meta["META-INF/MANIFEST.MF"])
	if !ok {
		return nil
	}
	for _, n := range sortedKeys(j.meta) {
		dot := strings.LastIndexByte(n, '.')
		if dot < 0 {
			continue
		}
		if e := n[dot:]; e != ".RSA" && e != ".DSA" && e != ".EC" {
			continue
		}
		sf, ok := refManifest(j.meta[n[:dot]+".SF"])
		if !ok {
			continue
		}
		if _, prs := sf.main["signature-version"]; !prs {
			continue
		}
		stray := false
		for _, en := range sf.names {
			stray = stray || mf.chunks[en] == nil
		}
		if bad := refSFMatches(sf, mf, min, max); bad != "" && !stray {
			return problem("v1", "the signature file beside %s does not match the manifest at %s", n, bad)
		}
	}
	return nil
}

func sortedKeys(m map[string][]byte) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// manifestOf finds the manifest specification a stored archive carries.
func (w *World) manifestOf(stored []byte) (m *ManifestSpec, known bool) {
	v := viewZip(stored)
	if !v.ok {
		return nil, false
	}
	sums := v.sums["AndroidManifest.xml"]
	if sums == nil {
		return nil, true
	}
	for i := range w.sc.Apks {
		mm := w.sc.Apks[i].Manifest
		if mm == nil || len(mm.Mut) > 0 || mm.Mode != "" || len(sums) != 1 {
			continue
		}
		h := sha256.Sum256(axmlBytes(mm))
		if sums[string(h[:])] {
			return mm, true
		}
	}
	return nil, false
}

// refCheckV1 judges an accepting outcome of the JAR scheme against the model.
func (w *World) refCheckV1(stored []byte, op *Op, o *Outcome) []Violation {
	if !o.accepted() || strings.HasPrefix(op.Kind, "sb") || openJar(stored) == nil {
		return nil
	}
	min, max := op.Min, op.Max
	switch op.Kind {
	case "verify0", "vpath0", "pickres":
		min, max = anyMin, anyMax
	}
	if min == anyMin {
		m, known := w.manifestOf(stored)
		switch {
		case !known && o.Scheme >= 2:
			return nil
		case !known:
			min = 24 // the most lenient reading
		case m == nil || m.Min == 0:
			min = 1
		default:
			min = m.Min
		}
	}
	if o.Scheme == 1 || min < 24 {
		if p := refStaleSF(stored, min, max); p != nil {
			return viol("stale-signature-file-accepted", "accepted for [%d,%d] although %s", min, max, p.Text)
		}
	}
	if o.Scheme == 1 {
		for _, ch := range o.Chains {
			if len(ch) == 0 {
				continue
			}
			if p := refV1(stored, keyByName[keyOwner(ch[0])], min, max); p != nil {
				return viol("invalid-v1-accepted", "v1 accepted with signer %s for [%d,%d] although %s", ch[0], min, max, p.Text)
			}
		}
	} else if min < 24 {
		var last *refProblem
		for _, n := range keyNames {
			p := refV1(stored, keyByName[n], min, max)
			if p == nil {
				return nil
			}
			if last == nil || !strings.HasPrefix(p.Text, "there is no signature") {
				last = p
			}
		}
		return viol("invalid-v1-accepted", "accepted for [%d,%d], which includes platforms that only know v1, although %s", min, max, last.Text)
	}
	return nil
}
