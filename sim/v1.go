package main

import (
	"bytes"
	"crypto"
	"crypto/rsa"
	"crypto/sha256"
	"encoding/asn1"
	"encoding/base64"
	"fmt"
	"math/big"
	"strings"
)

// JAR (v1) signer.

type V1Signer struct {
	Key       string `json:"key"`
	File      string `json:"file,omitempty"` // base name in META-INF, default CERT
	Digest    string `json:"digest,omitempty"`
	SFDigest  string `json:"sfdigest,omitempty"`
	Pkcs7Hash string `json:"p7hash,omitempty"`
	Attrs     bool   `json:"attrs,omitempty"`
	AttrTime  bool   `json:"attrtime,omitempty"` // signing time among the attributes
	CertRev   bool   `json:"certrev,omitempty"`  // certificates listed issuer first
	AlgWith   bool   `json:"algwith,omitempty"`  // the signature algorithm names its hash
	Bag       string `json:"bag,omitempty"`      // other certificates in the message
	Respell   bool   `json:"respell,omitempty"`  // the signer's issuer is spelled differently than in its certificate
	RsaPad    int    `json:"rsapad,omitempty"`   // a signature with a leading zero byte; 2: not written
	Signtool  bool   `json:"signtool,omitempty"`
	Apk       string `json:"xapk,omitempty"` // X-Android-APK-Signed
	NoWhole   bool   `json:"nowhole,omitempty"`
	MainAttr  bool   `json:"mainattr,omitempty"`
	NoSigVer  bool   `json:"nosigver,omitempty"`
	Skip      string `json:"skip,omitempty"`  // entries left out of the .SF, separated by |
	ByzAt     int    `json:"byzat,omitempty"` // which entry misbehaves
	ExtraCert string `json:"extracert,omitempty"`
	Byz       string `json:"byz,omitempty"`
	ByzKey    string `json:"byzkey,omitempty"`
	SFMut     []Mut  `json:"sfmut,omitempty"`
	P7Mut     []Mut  `json:"p7mut,omitempty"`
}

type V1Spec struct {
	Signers []V1Signer `json:"signers"`
	Digests []string   `json:"digests,omitempty"`
	Algs    string     `json:"algs,omitempty"` // Digest-Algorithms, as signtool writes them
	Skip    []string   `json:"skip,omitempty"` // entries not in MANIFEST.MF
	LF      bool       `json:"lf,omitempty"`   // \n line ends instead of \r\n
	Byz     string     `json:"byz,omitempty"`  // strong-bad, weak-bad: one of several digests of a member is wrong
	ByzAt   int        `json:"byzat,omitempty"`
	Order   int        `json:"order,omitempty"` // order of META-INF members
	MFMut   []Mut      `json:"mfmut,omitempty"`
}

func hashByName(n string) crypto.Hash {
	switch n {
	case "SHA1", "SHA", "SHA-1":
		return crypto.SHA1
	case "SHA-384":
		return crypto.SHA384
	case "SHA-512":
		return crypto.SHA512
	case "MD5":
		return crypto.MD5
	}
	return crypto.SHA256
}

type mfWriter struct {
	b  bytes.Buffer
	nl string
}

func (w *mfWriter) attr(name, val string) {
	line := name + ": " + val
	for len(line) > 70 {
		w.b.WriteString(line[:70] + w.nl)
		line = " " + line[70:]
	}
	w.b.WriteString(line + w.nl)
}

func (w *mfWriter) end() { w.b.WriteString(w.nl) }

// v1Sign returns the META-INF members for the given entries.
func v1Sign(sp *V1Spec, entries []ZEntry, apk int, log *[]SignEvent) []ZEntry {
	nl := "\r\n"
	if sp.LF {
		nl = "\n"
	}
	digs := sp.Digests
	if len(digs) == 0 {
		digs = []string{"SHA-256"}
	}
	skip := map[string]bool{}
	for _, s := range sp.Skip {
		skip[s] = true
	}
	mf := &mfWriter{nl: nl}
	mf.attr("Manifest-Version", "1.0")
	mf.attr("Created-By", "1.0 (Sim)")
	mf.end()
	mainEnd := mf.b.Len()
	type chunk struct {
		name       string
		start, end int
	}
	var chunks []chunk
	covered := map[string]string{}
	strongest := digs[0]
	for _, d := range digs {
		if hashByName(d).Size() > hashByName(strongest).Size() {
			strongest = d
		}
	}
	plain := 0
	for _, e := range entries {
		if !(strings.HasSuffix(e.Name, "/") || strings.HasPrefix(e.Name, "META-INF/") || skip[e.Name]) {
			plain++
		}
	}
	ei := -1
	for _, e := range entries {
		if strings.HasSuffix(e.Name, "/") || strings.HasPrefix(e.Name, "META-INF/") || skip[e.Name] {
			continue
		}
		ei++
		st := mf.b.Len()
		mf.attr("Name", e.Name)
		if sp.Algs != "" {
			mf.attr("Digest-Algorithms", sp.Algs)
		}
		for _, d := range digs {
			sum := hashSum(hashByName(d), e.Data)
			if ei == sp.ByzAt%plain && (sp.Byz == "strong-bad" && d == strongest || sp.Byz == "weak-bad" && d != strongest) {
				sum[1] ^= 4
			}
			mf.attr(d+"-Digest", base64.StdEncoding.EncodeToString(sum))
		}
		mf.end()
		chunks = append(chunks, chunk{e.Name, st, mf.b.Len()})
		s := sha256.Sum256(e.Data)
		covered[e.Name] = string(s[:])
	}
	manifest := mf.b.Bytes()
	if len(sp.MFMut) > 0 {
		manifest = mutBytes(manifest, sp.MFMut)
		chunks, mainEnd = nil, len(manifest)/2
	}
	out := []ZEntry{{Name: "META-INF/MANIFEST.MF", Data: manifest, Deflate: true}}

	for i := range sp.Signers {
		sg := &sp.Signers[i]
		k := mustKey(sg.Key)
		honest := true
		sfd := sg.SFDigest
		if sfd == "" {
			sfd = digs[0]
		}
		sh := hashByName(sfd)
		sf := &mfWriter{nl: nl}
		if !sg.NoSigVer && sg.Byz != "no-version" {
			sf.attr("Signature-Version", "1.0")
		} else {
			honest = false
		}
		if sg.Signtool {
			sf.attr("Created-By", "1.0 (Sim signtool)")
		} else {
			sf.attr("Created-By", "1.0 (Sim)")
		}
		if sg.Apk != "" {
			sf.attr("X-Android-APK-Signed", sg.Apk)
		}
		whole := hashSum(sh, manifest)
		if sg.Byz == "whole-bad" || sg.Byz == "both-bad" {
			whole[3] ^= 1
		}
		if !sg.NoWhole {
			name := "-Digest-Manifest"
			if sg.Signtool {
				name = "-Digest"
			}
			sf.attr(sfd+name, base64.StdEncoding.EncodeToString(whole))
		}
		if sg.MainAttr {
			ma := hashSum(sh, manifest[:mainEnd])
			if sg.Byz == "mainattr-bad" {
				ma[0] ^= 1
				if !sg.Signtool { // signtool's manifests are not checked
					honest = false
				}
			}
			sf.attr(sfd+"-Digest-Manifest-Main-Attributes", base64.StdEncoding.EncodeToString(ma))
		}
		sf.end()
		cov := map[string]string{}
		sgSkip := map[string]bool{}
		for _, n := range strings.Split(sg.Skip, "|") {
			sgSkip[n] = true
		}
		byzAt := 0
		if len(chunks) > 0 {
			byzAt = sg.ByzAt % len(chunks)
		}
		for ci, c := range chunks {
			if sgSkip[c.name] {
				continue
			}
			sf.attr("Name", c.name)
			if sg.Byz == "entry-nodigest" && ci == byzAt {
				sf.end()
				cov[c.name] = covered[c.name]
				if sg.NoWhole {
					honest = false
				}
				continue
			}
			ch := manifest[c.start:c.end]
			if sg.Signtool && bytes.HasSuffix(ch, []byte("\n\n")) {
				ch = ch[:len(ch)-1]
			}
			sum := hashSum(sh, ch)
			if sg.Byz == "entry-bad" && ci == byzAt {
				sum[0] ^= 1
				if sg.NoWhole {
					honest = false
				}
			}
			if sg.Byz == "both-bad" {
				sum[0] ^= 1
			}
			sf.attr(sfd+"-Digest", base64.StdEncoding.EncodeToString(sum))
			sf.end()
			cov[c.name] = covered[c.name]
		}
		if sg.Byz == "entry-stray" {
			// names a section which the manifest does not have
			w := sf
			w.attr("Name", "no/such/member")
			w.attr(sfd+"-Digest", base64.StdEncoding.EncodeToString(hashSum(sh, []byte("x"))))
			w.end()
			if sg.NoWhole {
				honest = false
			}
		}
		if sg.Byz == "both-bad" {
			// neither the whole-manifest digest nor the entry digests match
			honest = false
		}
		if sg.RsaPad > 0 && k.Kind == "rsa" {
			y := padSF(k, sg, sf.b.Bytes())
			sf.b.Reset()
			sf.b.Write(y)
		}
		sfb := sf.b.Bytes()
		if len(sg.SFMut) > 0 || len(sg.P7Mut) > 0 || len(sp.MFMut) > 0 {
			honest = false
			sfb = mutBytes(sfb, sg.SFMut)
		}
		p7 := mutBytes(pkcs7Detached(k, sg, sfb, &honest), sg.P7Mut)
		base := sg.File
		if base == "" {
			base = "CERT"
			if i > 0 {
				base = fmt.Sprintf("CERT%d", i)
			}
		}
		ext := map[string]string{"rsa": ".RSA", "ec": ".EC", "dsa": ".DSA"}[k.Kind]
		a := ZEntry{Name: "META-INF/" + base + ".SF", Data: sfb, Deflate: true}
		b := ZEntry{Name: "META-INF/" + base + ext, Data: p7, Deflate: true}
		switch sg.Byz {
		case "no-sf":
			out = append(out, b)
			honest = false
		case "no-block":
			out = append(out, a)
			honest = false
		default:
			if sp.Order%2 == 1 {
				out = append(out, b, a)
			} else {
				out = append(out, a, b)
			}
		}
		if honest && log != nil {
			*log = append(*log, SignEvent{Scheme: 1, Key: sg.Key, Chain: k.Chain(), Entries: cov, V1: sg, MFByz: sp.Byz, Apk: apk})
		}
	}
	if sp.Order >= 2 {
		// signature files before the manifest
		out = append(out[1:], out[0])
	}
	return out
}

// doctorMeta is what an attacker does to the META-INF copied from another
// artefact; the PKCS#7 signatures stay as they were.
func doctorMeta(how string, src, ents []ZEntry) []ZEntry {
	var out []ZEntry
	var mf []byte
	for _, e := range src {
		if strings.HasPrefix(e.Name, "META-INF/") {
			if e.Name == "META-INF/MANIFEST.MF" {
				mf = e.Data
			}
			out = append(out, e)
		}
	}
	if how == "" || mf == nil {
		return out
	}
	nl := "\n"
	if bytes.Contains(mf, []byte("\r\n")) {
		nl = "\r\n"
	}
	digs := []string{"SHA-512", "SHA-256", "SHA1"}
	old, _ := refManifest(mf)
	section := func(e *ZEntry) []byte {
		w := &mfWriter{nl: nl}
		w.attr("Name", e.Name)
		for _, d := range digs {
			w.attr(d+"-Digest", base64.StdEncoding.EncodeToString(hashSum(hashByName(d), e.Data)))
		}
		w.end()
		return w.b.Bytes()
	}
	fresh := func(only bool) []byte {
		var b []byte
		for i := range ents {
			e := &ents[i]
			if strings.HasSuffix(e.Name, "/") || strings.HasPrefix(e.Name, "META-INF/") {
				continue
			}
			if only && old != nil {
				at := old.ent[e.Name]
				same := false
				for _, d := range digs {
					if v, ok := at[strings.ToLower(d)+"-digest"]; ok && v == base64.StdEncoding.EncodeToString(hashSum(hashByName(d), e.Data)) {
						same = true
					}
				}
				if same {
					continue
				}
			}
			b = append(b, section(e)...)
		}
		return b
	}
	head := len(mf)
	if i := bytes.Index(mf, []byte(nl+nl)); i >= 0 {
		head = i + 2*len(nl)
	}
	cat := func(p ...[]byte) []byte { return bytes.Join(p, nil) }
	switch {
	case strings.HasPrefix(how, "resync"):
		mf = cat(mf[:head], fresh(false))
	case strings.HasPrefix(how, "append"):
		mf = cat(mf, fresh(true))
	case strings.HasPrefix(how, "prepend"):
		mf = cat(mf[:head], fresh(true), mf[head:])
	case strings.HasPrefix(how, "replace"): // changed sections rewritten in place, missing ones added
		if old != nil {
			b := cat(mf[:head])
			done := map[string]bool{}
			for _, n := range old.names {
				c := old.chunks[n]
				for i := range ents {
					if ents[i].Name == n {
						if s := fresh(true); bytes.Contains(s, section(&ents[i])) {
							c = section(&ents[i])
						}
						done[n] = true
					}
				}
				if done[n] {
					b = append(b, c...)
				}
			}
			for i := range ents {
				if e := &ents[i]; !done[e.Name] && !strings.HasSuffix(e.Name, "/") && !strings.HasPrefix(e.Name, "META-INF/") {
					b = append(b, section(e)...)
				}
			}
			mf = b
		}
	}
	now, _ := refManifest(mf)
	for i := range out {
		e := &out[i]
		switch {
		case e.Name == "META-INF/MANIFEST.MF":
			e.Data = mf
		case strings.HasSuffix(e.Name, ".SF"):
			sf, ok := refManifest(e.Data)
			if !ok || now == nil {
				break
			}
			w := &mfWriter{nl: nl}
			switch {
			case strings.HasSuffix(how, "+sf"): // a complete new signature file
				w.attr("Signature-Version", "1.0")
				w.attr("SHA-256-Digest-Manifest", base64.StdEncoding.EncodeToString(hashSum(crypto.SHA256, mf)))
				w.end()
				for _, n := range now.names {
					w.attr("Name", n)
					w.attr("SHA-256-Digest", base64.StdEncoding.EncodeToString(hashSum(crypto.SHA256, now.chunks[n])))
					w.end()
				}
				e.Data = w.b.Bytes()
			case strings.HasSuffix(how, "+sfadd"): // entries added to the genuine one
				w.b.Write(e.Data)
				for _, n := range now.names {
					if sf.ent[n] == nil {
						w.attr("Name", n)
						w.attr("SHA-256-Digest", base64.StdEncoding.EncodeToString(hashSum(crypto.SHA256, now.chunks[n])))
						w.end()
					}
				}
				e.Data = w.b.Bytes()
			}
		}
	}
	return out
}

var oidHash = map[crypto.Hash][]int{
	crypto.SHA1: {1, 3, 14, 3, 2, 26}, crypto.SHA224: {2, 16, 840, 1, 101, 3, 4, 2, 4}, crypto.SHA256: {2, 16, 840, 1, 101, 3, 4, 2, 1},
	crypto.MD5: {1, 2, 840, 113549, 2, 5}, crypto.SHA384: {2, 16, 840, 1, 101, 3, 4, 2, 2}, crypto.SHA512: {2, 16, 840, 1, 101, 3, 4, 2, 3},
}

// certIssuerSerial pulls issuer name and serial from a certificate.
func issuerAndSerial(k *Key) []byte {
	return derSeq(k.Cert.RawIssuer, derInt(k.Cert.SerialNumber))
}

func p7Hash(sg *V1Signer) crypto.Hash {
	switch sg.Pkcs7Hash {
	case "MD5":
		return crypto.MD5
	case "SHA1":
		return crypto.SHA1
	case "SHA-224":
		return crypto.SHA224
	case "SHA-384":
		return crypto.SHA384
	case "SHA-512":
		return crypto.SHA512
	}
	return crypto.SHA256
}

var padMemo = map[[32]byte]int{}

// padSF varies the tool version until the RSA signature starts with a zero byte.
func padSF(k *Key, sg *V1Signer, sf []byte) []byte {
	h := p7Hash(sg)
	memo := sha256.Sum256(append([]byte(fmt.Sprint(k.Name, h, sg.Attrs, sg.AttrTime, "|")), sf...))
	with := func(i int) []byte {
		return bytes.Replace(sf, []byte("Created-By: 1.0"), []byte(fmt.Sprintf("Created-By: 1.%d", i)), 1)
	}
	if i, ok := padMemo[memo]; ok {
		return with(i)
	}
	for i := 0; i < 3000; i++ {
		sig, _ := rsa.SignPKCS1v15(nil, k.Rsa, h, hashSum(h, p7Signed(sg, h, with(i))))
		if sig[0] == 0 {
			padMemo[memo] = i
			return with(i)
		}
	}
	padMemo[memo] = 0
	return with(0)
}

// bagCert is a certificate nobody checks the signature of.
func bagCert(k *Key, serial *big.Int, subject, issuer []byte) []byte {
	alg := derSeq(derOid(1, 2, 840, 113549, 1, 1, 11), derNull())
	tbs := derSeq(der(0xa0, derSmall(2)), derInt(serial), alg, issuer,
		derSeq(derUtcTime("120101000000Z"), derUtcTime("420101000000Z")), subject, k.SPKI)
	return derSeq(tbs, alg, derBits(filler(1, 256)))
}

// p7Body is the contents of the signed attributes of an honest message.
func p7Body(sg *V1Signer, h crypto.Hash, content []byte) []byte {
	b := derSeq(derOid(1, 2, 840, 113549, 1, 9, 3), derSet(derOid(1, 2, 840, 113549, 1, 7, 1)))
	if sg.AttrTime {
		b = append(b, derSeq(derOid(1, 2, 840, 113549, 1, 9, 5), derSet(derUtcTime("190102030405Z")))...)
	}
	return append(b, derSeq(derOid(1, 2, 840, 113549, 1, 9, 4), derSet(derOct(hashSum(h, content))))...)
}

func p7Signed(sg *V1Signer, h crypto.Hash, content []byte) []byte {
	if sg.Attrs {
		return der(0x31, p7Body(sg, h, content))
	}
	return content
}

// pkcs7Detached wraps content in a detached SignedData the way signapk/jarsigner do.
func pkcs7Detached(k *Key, sg *V1Signer, content []byte, honest *bool) []byte {
	h := p7Hash(sg)
	digAlg := derSeq(derOid(oidHash[h]...), derNull())
	var encAlg []byte
	switch k.Kind {
	case "rsa":
		encAlg = derSeq(derOid(1, 2, 840, 113549, 1, 1, 1), derNull())
	case "ec":
		encAlg = derSeq(derOid(1, 2, 840, 10045, 2, 1))
	case "dsa":
		encAlg = derSeq(derOid(1, 2, 840, 10040, 4, 1))
	}
	if sg.AlgWith {
		switch k.Kind {
		case "rsa":
			encAlg = derSeq(derOid(1, 2, 840, 113549, 1, 1, map[crypto.Hash]int{crypto.MD5: 4, crypto.SHA1: 5, crypto.SHA224: 14, crypto.SHA256: 11, crypto.SHA384: 12, crypto.SHA512: 13}[h]), derNull())
		case "ec":
			switch h {
			case crypto.SHA1:
				encAlg = derSeq(derOid(1, 2, 840, 10045, 4, 1))
			default:
				encAlg = derSeq(derOid(1, 2, 840, 10045, 4, 3, map[crypto.Hash]int{crypto.SHA224: 1, crypto.SHA256: 2, crypto.SHA384: 3, crypto.SHA512: 4}[h]))
			}
		case "dsa":
			switch h {
			case crypto.SHA1:
				encAlg = derSeq(derOid(1, 2, 840, 10040, 4, 3))
			case crypto.SHA224:
				encAlg = derSeq(derOid(2, 16, 840, 1, 101, 3, 4, 3, 1))
			case crypto.SHA256:
				encAlg = derSeq(derOid(2, 16, 840, 1, 101, 3, 4, 3, 2))
			}
		}
	}
	if !certMaySign(k.Cert) {
		*honest = false
	}
	if sg.Byz == "unknown-alg" {
		encAlg = derSeq(derOid(1, 2, 3, 4, 5), derNull())
		*honest = false
	}
	if sg.Byz == "alg-mismatch" {
		// names another key family than the certificate carries
		oids := map[string][][]int{
			"rsa": {{1, 2, 840, 113549, 1, 1, 1}, {1, 2, 840, 113549, 1, 1, 5}, {1, 2, 840, 113549, 1, 1, 11}, {1, 2, 840, 113549, 1, 1, 14}},
			"ec":  {{1, 2, 840, 10045, 2, 1}, {1, 2, 840, 10045, 4, 1}, {1, 2, 840, 10045, 4, 3, 1}, {1, 2, 840, 10045, 4, 3, 2}},
			"dsa": {{1, 2, 840, 10040, 4, 1}, {1, 2, 840, 10040, 4, 3}, {2, 16, 840, 1, 101, 3, 4, 3, 1}, {2, 16, 840, 1, 101, 3, 4, 3, 2}},
		}
		kind := mustKey(sg.ByzKey).Kind
		if kind == k.Kind {
			kind = map[string]string{"rsa": "dsa", "ec": "dsa", "dsa": "rsa"}[kind]
		}
		at := sg.ByzAt % 4
		if sg.ByzAt == 5 { // the one which goes with the digest
			if at = map[crypto.Hash]int{crypto.SHA1: 1, crypto.SHA224: 2, crypto.SHA256: 3}[h]; kind == "rsa" {
				at = map[crypto.Hash]int{crypto.SHA1: 1, crypto.SHA224: 3, crypto.SHA256: 2}[h]
			}
		}
		encAlg = derSeq(derOid(oids[kind][at]...), derNull())
		*honest = false
	}
	oidData := derOid(1, 2, 840, 113549, 1, 7, 1)
	signer := k
	si := issuerAndSerial(k)
	if sg.Respell {
		si = derSeq(reSpell(k.Cert.RawIssuer), derInt(k.Cert.SerialNumber))
	}
	chain := k.Chain()
	signBy := signer
	switch sg.Byz {
	case "cert-swap": // claims another party's certificate
		vk := otherKey(sg.ByzKey, sg.Key)
		si = issuerAndSerial(vk)
		chain = vk.Chain()
		*honest = false
	case "sid-serial": // names a certificate which isn't there
		si = derSeq(k.Cert.RawIssuer, derInt(new(big.Int).Add(k.Cert.SerialNumber, big.NewInt(int64(1+sg.ByzAt)))))
		*honest = false
	case "sid-issuer":
		si = derSeq(makeName("Nobody", "Here"), derInt(k.Cert.SerialNumber))
		*honest = false
	case "cert-both": // impostor cert with same issuer+serial after the victim's
		vk := otherKey(sg.ByzKey, sg.Key)
		chain = append([][]byte{vk.CertDER}, chain...)
		if bytes.Equal(vk.Cert.RawIssuer, k.Cert.RawIssuer) && vk.Cert.SerialNumber.Cmp(k.Cert.SerialNumber) == 0 {
			*honest = false
		}
	case "cert-both-rev":
		// the impostor cert first: the signer info resolves to the impostor
		vk := otherKey(sg.ByzKey, sg.Key)
		chain = append(append([][]byte(nil), chain...), vk.CertDER)
	}
	if sg.ExtraCert != "" {
		chain = append(append([][]byte(nil), chain...), mustKey(sg.ExtraCert).CertDER)
	}
	var inFront [][]byte
	switch sg.Bag {
	case "serial": // bystanders which share one half of the identity
		inFront = append(inFront, bagCert(otherKey("oth.rsa", sg.Key), k.Cert.SerialNumber, makeName("Bystander", "Nobody"), makeName("Somebody", "Else")))
	case "issuer":
		inFront = append(inFront, bagCert(otherKey("oth.rsa", sg.Key), big.NewInt(987654321), makeName("Bystander", "Nobody"), k.Cert.RawIssuer))
	case "twin": // same serial, the issuer's name only differs in one attribute
		n := k.Cert.RawIssuer
		var body asn1.RawValue
		asn1.Unmarshal(n, &body)
		n = derSeq(append(append([]byte(nil), body.Bytes...), rdn([]int{1, 2, 840, 113549, 1, 9, 1}, "twin@acme.test")...))
		inFront = append(inFront, bagCert(otherKey("oth.rsa", sg.Key), k.Cert.SerialNumber, n, n))
	case "cycle1", "cycle2", "cycle3": // issuers which certify each other
		var n [][]byte
		for i := 0; i < int(sg.Bag[5]-'0'); i++ {
			n = append(n, makeName(fmt.Sprintf("CA %d", i), "Ring"))
		}
		leaf := bagCert(k, big.NewInt(4711), makeName("Leaf", "Ring"), n[0])
		chain = [][]byte{leaf}
		for i := range n {
			up := n[(i+1)%len(n)]
			if len(n) == 1 {
				up = makeName("Leaf", "Ring")
			}
			chain = append(chain, bagCert(otherKey("oth.rsa", sg.Key), big.NewInt(int64(5000+i)), n[i], up))
		}
		si = derSeq(n[0], derSmall(4711))
		*honest = false
	}
	chain = append(inFront, chain...)
	if sg.CertRev && !strings.HasPrefix(sg.Byz, "cert-both") {
		c2 := append([][]byte(nil), chain...)
		for i, j := 0, len(c2)-1; i < j; i, j = i+1, j-1 {
			c2[i], c2[j] = c2[j], c2[i]
		}
		chain = c2
	}
	var certs []byte
	for _, c := range chain {
		certs = append(certs, c...)
	}
	var attrs, toSign []byte
	if sg.Attrs {
		md := hashSum(h, content)
		if sg.Byz == "attr-digest" {
			md[0] ^= 1
			*honest = false
		}
		ct := oidData
		if sg.Byz == "attr-ctype" {
			ct = derOid(1, 2, 840, 113549, 1, 7, 2)
		}
		a1 := derSeq(derOid(1, 2, 840, 113549, 1, 9, 3), derSet(ct))
		a2 := derSeq(derOid(1, 2, 840, 113549, 1, 9, 4), derSet(derOct(md)))
		body := append(append([]byte(nil), a1...), a2...)
		if sg.AttrTime {
			body = append(append(append([]byte(nil), a1...), derSeq(derOid(1, 2, 840, 113549, 1, 9, 5), derSet(derUtcTime("190102030405Z")))...), a2...)
		}
		if sg.Byz == "attr-nodigest" {
			body = a1
			*honest = false
		}
		attrs = der(0xa0, body)
		toSign = der(0x31, body)
	} else {
		toSign = content
	}
	if sg.Byz == "sig-other" {
		toSign = append([]byte("!"), toSign...)
		*honest = false
	}
	sig := signBy.Sign("pkcs1", h, toSign)
	if sg.RsaPad == 2 && k.Kind == "rsa" && sig[0] == 0 {
		sig = bytes.TrimLeft(sig, "\x00")
	}
	switch sg.Byz {
	case "sig-garbage":
		if k.Kind == "rsa" {
			sig = filler(77, len(sig))
		} else {
			sig = derSeq(derSmall(1234567), derSmall(7654321))
		}
		*honest = false
	case "sig-empty":
		sig = nil
		*honest = false
	}
	sinfo := derSeq(derSmall(1), si, digAlg, attrs, encAlg, derOct(sig))
	sinfos := sinfo
	switch sg.Byz {
	case "two-infos-bad-first":
		bad := derSeq(derSmall(1), si, digAlg, attrs, encAlg, derOct(filler(5, len(sig))))
		if k.Kind != "rsa" {
			bad = derSeq(derSmall(1), si, digAlg, attrs, encAlg, derOct(derSeq(derSmall(3), derSmall(4))))
		}
		sinfos = append(append([]byte(nil), bad...), sinfo...)
	case "no-infos":
		sinfos = nil
		*honest = false
	case "victim-info-garbage-first":
		vk := otherKey(sg.ByzKey, sg.Key)
		bad := derSeq(derSmall(1), issuerAndSerial(vk), digAlg, encAlg, derOct(filler(5, 256)))
		sinfos = append(append([]byte(nil), bad...), sinfo...)
		certs = append(append([]byte(nil), vk.CertDER...), certs...)
	}
	sd := derSeq(derSmall(1), derSet(digAlg), derSeq(oidData), der(0xa0, certs), derSet(sinfos))
	return derSeq(derOid(1, 2, 840, 113549, 1, 7, 2), der(0xa0, sd))
}
