package main

import (
	"crypto"
	"crypto/dsa"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/hmac"
	"crypto/md5"
	"crypto/rand"
	"crypto/rsa"
	"crypto/sha1"
	"crypto/sha256"
	"crypto/sha512"
	"crypto/x509"
	"crypto/x509/pkix"
	_ "embed"
	"encoding/asn1"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/big"
	"os"
	"strings"
	"time"
)

// KeyFix is a committed key fixture; Owner says which simulated party holds it.
type KeyFix struct {
	Name   string `json:"name"`
	Owner  string `json:"owner"`
	Kind   string `json:"kind"` // rsa, ec, dsa
	Priv   string `json:"priv"` // hex: rsa PKCS1 / ec SEC1 / dsa P,Q,G,Y,X sequence
	Cert   string `json:"cert"` // hex DER leaf
	Issuer string `json:"issuer,omitempty"`
}

type Key struct {
	Name, Owner, Kind string
	Rsa               *rsa.PrivateKey
	Ec                *ecdsa.PrivateKey
	Dsa               *dsa.PrivateKey
	CertDER           []byte
	Cert              *x509.Certificate
	SPKI              []byte
	Issuer            string
}

//go:embed keys.json
var keysJSON []byte

var keyByName = map[string]*Key{}
var keyByCert = map[string]*Key{} // raw cert -> key
var keyBySpki = map[string]*Key{} // raw public key -> key
var keyNames []string

func loadKeys() {
	var fx []KeyFix
	if err := json.Unmarshal(keysJSON, &fx); err != nil {
		panic(err)
	}
	for _, f := range fx {
		k := &Key{Name: f.Name, Owner: f.Owner, Kind: f.Kind, Issuer: f.Issuer}
		pb, _ := hex.DecodeString(f.Priv)
		k.CertDER, _ = hex.DecodeString(f.Cert)
		var err error
		switch f.Kind {
		case "rsa":
			k.Rsa, err = x509.ParsePKCS1PrivateKey(pb)
			if err == nil {
				k.Rsa.Precompute()
			}
		case "ec":
			k.Ec, err = x509.ParseECPrivateKey(pb)
		case "dsa":
			var xs []*big.Int
			_, err = asn1.Unmarshal(pb, &xs)
			if err == nil {
				k.Dsa = &dsa.PrivateKey{PublicKey: dsa.PublicKey{Parameters: dsa.Parameters{P: xs[0], Q: xs[1], G: xs[2]}, Y: xs[3]}, X: xs[4]}
			}
		}
		if err != nil {
			panic(fmt.Sprintf("key %s: %v", f.Name, err))
		}
		k.Cert, err = x509.ParseCertificate(k.CertDER)
		if err != nil {
			panic(fmt.Sprintf("cert %s: %v", f.Name, err))
		}
		k.SPKI = k.Cert.RawSubjectPublicKeyInfo
		keyByName[k.Name] = k
		keyByCert[string(k.CertDER)] = k
		if keyBySpki[string(k.SPKI)] == nil {
			keyBySpki[string(k.SPKI)] = k
		}
		keyNames = append(keyNames, k.Name)
	}
	loadNamedKeys()
}

// Keys whose certificates carry unusual names: leaf and issuer differ in one
// respect only, or name each other in different spellings.
var namedLeafs []string

func loadNamedKeys() {
	at := func(tag byte, val string, oid ...int) []byte { return derSeq(derOid(oid...), der(tag, []byte(val))) }
	mail := []int{1, 2, 840, 113549, 1, 9, 1}
	cn, org, ou := []int{2, 5, 4, 3}, []int{2, 5, 4, 10}, []int{2, 5, 4, 11}
	utf, prt, ia5 := byte(0x0c), byte(0x13), byte(0x16)
	one := func(b ...[]byte) []byte {
		var out []byte
		for _, x := range b {
			out = append(out, derSet(x)...)
		}
		return derSeq(out)
	}
	acme := at(utf, "Acme", org...)
	type pair struct {
		name      string
		leaf, ca  []byte // subjects
		issuerFor []byte // how the leaf spells its issuer; nil: as the CA does
	}
	for i, w := range []pair{
		{"mail", one(acme, at(utf, "Signing", cn...), at(ia5, "dev@acme.test", mail...)), one(acme, at(utf, "Signing", cn...), at(ia5, "ca@acme.test", mail...)), nil},
		{"punct", one(acme, at(utf, "Acme, Inc", cn...)), one(acme, at(utf, "Acme; Inc", cn...)), nil},
		{"quote", one(acme, at(utf, "#1 <Acme>", cn...)), one(acme, at(utf, "#1 \"Acme\"", cn...)), nil},
		{"order", one(acme, at(utf, "Signing", cn...)), one(at(utf, "Signing", cn...), acme), nil},
		{"multi", derSeq(derSet(acme, at(utf, "Signing", cn...)), derSet(at(utf, "Apps", ou...))), one(acme, at(utf, "Signing", cn...), at(utf, "Apps", ou...)), nil},
		{"spell", one(acme, at(utf, "Leaf", cn...)), one(acme, at(utf, "Acme Root CA", cn...)), one(at(prt, "ACME", org...), at(prt, " acme  root CA ", cn...))},
		{"title", one(acme, at(utf, "Signing", cn...), at(utf, "Dr", 2, 5, 4, 12)), one(acme, at(utf, "Signing", cn...)), nil},
	} {
		var ca *Key
		for j, nm := range []string{"ca." + w.name, "vic." + w.name} {
			d := sha256.Sum256([]byte(nm))
			k := &Key{Name: nm, Kind: "ec", Owner: "victim"}
			var err error
			if k.Ec, err = ecdsa.ParseRawPrivateKey(elliptic.P256(), d[:]); err != nil {
				panic(err)
			}
			subj, iss, by := w.ca, w.ca, k
			if j == 0 {
				k.Owner = "ca"
			} else {
				k.Issuer = ca.Name
				subj, by = w.leaf, ca
				if w.issuerFor != nil {
					iss = w.issuerFor
				}
				namedLeafs = append(namedLeafs, nm)
			}
			alg := derSeq(derOid(1, 2, 840, 10045, 4, 3, 2))
			tbs := derSeq(der(0xa0, derSmall(2)), derSmall(int64(3000+2*i+j)), alg, iss,
				derSeq(derUtcTime("120101000000Z"), derUtcTime("420101000000Z")), subj, spkiOf(k))
			k.CertDER = derSeq(tbs, alg, derBits(by.Sign("pkcs1", crypto.SHA256, tbs)))
			if k.Cert, err = x509.ParseCertificate(k.CertDER); err != nil {
				panic(fmt.Sprintf("cert %s: %v", nm, err))
			}
			k.SPKI = k.Cert.RawSubjectPublicKeyInfo
			keyByName[nm], keyByCert[string(k.CertDER)], keyBySpki[string(k.SPKI)] = k, k, k
			keyNames = append(keyNames, nm)
			ca = k
		}
	}
	ext := func(crit bool, val []byte, oid ...int) []byte {
		b := derOid(oid...)
		if crit {
			b = append(b, 1, 1, 0xff)
		}
		return derSeq(append(b, derOct(val)...))
	}
	usage := func(pad, bits byte) []byte { return []byte{3, 2, pad, bits} }
	for i, w := range []struct {
		name string
		ext  []byte
	}{
		{"vic.kusign", ext(true, usage(7, 0x80), 2, 5, 29, 15)},
		{"vic.kunonrep", ext(false, usage(6, 0x40), 2, 5, 29, 15)},
		{"vic.kuboth", ext(true, usage(5, 0xa0), 2, 5, 29, 15)},
		{"vic.extra", ext(false, []byte("nothing to see"), 1, 3, 6, 1, 4, 1, 99999, 7)},
		{"vic.kuenc", ext(true, usage(5, 0x20), 2, 5, 29, 15)},
		{"vic.kuca", ext(true, usage(1, 0x06), 2, 5, 29, 15)},
		{"vic.kuagree", ext(false, usage(3, 0x08), 2, 5, 29, 15)},
		{"vic.crit", ext(true, []byte("look here"), 1, 3, 6, 1, 4, 1, 99999, 8)},
	} {
		d := sha256.Sum256([]byte(w.name))
		k := &Key{Name: w.name, Kind: "ec", Owner: "victim"}
		var err error
		if k.Ec, err = ecdsa.ParseRawPrivateKey(elliptic.P256(), d[:]); err != nil {
			panic(err)
		}
		n := one(acme, at(utf, w.name, cn...))
		alg := derSeq(derOid(1, 2, 840, 10045, 4, 3, 2))
		tbs := derSeq(der(0xa0, derSmall(2)), derSmall(int64(3100+i)), alg, n,
			derSeq(derUtcTime("120101000000Z"), derUtcTime("420101000000Z")), n, spkiOf(k), der(0xa3, derSeq(w.ext)))
		k.CertDER = derSeq(tbs, alg, derBits(k.Sign("pkcs1", crypto.SHA256, tbs)))
		if k.Cert, err = x509.ParseCertificate(k.CertDER); err != nil {
			panic(fmt.Sprintf("cert %s: %v", w.name, err))
		}
		k.SPKI = k.Cert.RawSubjectPublicKeyInfo
		keyByName[w.name], keyByCert[string(k.CertDER)], keyBySpki[string(k.SPKI)] = k, k, k
		keyNames = append(keyNames, w.name)
		if certMaySign(k.Cert) {
			usageKeys = append(usageKeys, w.name)
		} else {
			idleKeys = append(idleKeys, w.name)
		}
	}
}

// Keys whose certificates say what they are for: signing files, or something else.
var usageKeys, idleKeys []string

// leafKey is a victim's key whose certificate was issued by a CA.
func leafKey(r *Rng) string {
	switch {
	case r.P(40):
		return "vic.leaf"
	case r.P(30):
		return usageKeys[r.N(len(usageKeys))]
	}
	return namedLeafs[r.N(len(namedLeafs))]
}

func mustKey(n string) *Key {
	k := keyByName[n]
	if k == nil {
		panic("unknown key " + n)
	}
	return k
}

// Chain returns the certificate chain (leaf first).
func (k *Key) Chain() [][]byte {
	out := [][]byte{k.CertDER}
	for i := k.Issuer; i != ""; {
		ik := mustKey(i)
		out = append(out, ik.CertDER)
		i = ik.Issuer
	}
	return out
}

func hashSum(h crypto.Hash, data []byte) []byte {
	switch h {
	case crypto.MD5:
		s := md5.Sum(data)
		return s[:]
	case crypto.SHA1:
		s := sha1.Sum(data)
		return s[:]
	case crypto.SHA224:
		s := sha256.Sum224(data)
		return s[:]
	case crypto.SHA256:
		s := sha256.Sum256(data)
		return s[:]
	case crypto.SHA384:
		s := sha512.Sum384(data)
		return s[:]
	case crypto.SHA512:
		s := sha512.Sum512(data)
		return s[:]
	}
	panic("hash")
}

var sigMemo = map[string][]byte{}
var sigMemoBytes int

// Sign signs data deterministically. mode: "pkcs1", "pss", "" (by key kind).
func (k *Key) Sign(mode string, h crypto.Hash, data []byte) []byte {
	sum := sha256.Sum256(data)
	memoKey := k.Name + "|" + mode + "|" + h.String() + "|" + string(sum[:])
	if s, ok := sigMemo[memoKey]; ok {
		return append([]byte(nil), s...)
	}
	dg := hashSum(h, data)
	var sig []byte
	var err error
	switch k.Kind {
	case "rsa":
		if mode == "pss" {
			sig = signPSS(k.Rsa, h, dg)
		} else {
			sig, err = rsa.SignPKCS1v15(nil, k.Rsa, h, dg)
		}
	case "ec":
		sig, err = k.Ec.Sign(nil, dg, h)
	case "dsa":
		sig = signDSA(k.Dsa, dg)
	}
	if err != nil {
		panic(err)
	}
	if len(sigMemo) > 20000 {
		sigMemo = map[string][]byte{}
	}
	sigMemo[memoKey] = sig
	return append([]byte(nil), sig...)
}

func signPSS(k *rsa.PrivateKey, h crypto.Hash, dg []byte) []byte {
	sl := h.Size()
	m := hmac.New(sha512.New, []byte("salt"))
	m.Write(dg)
	salt := m.Sum(nil)[:sl]
	emBits := k.N.BitLen() - 1
	emLen := (emBits + 7) / 8
	hl := h.Size()
	hh := hashSum(h, append(append(make([]byte, 8), dg...), salt...))
	db := make([]byte, emLen-hl-1)
	db[emLen-sl-hl-2] = 1
	copy(db[emLen-sl-hl-1:], salt)
	mask := make([]byte, 0, len(db)+hl)
	for c := uint32(0); len(mask) < len(db); c++ {
		mask = append(mask, hashSum(h, append(append([]byte(nil), hh...), byte(c>>24), byte(c>>16), byte(c>>8), byte(c)))...)
	}
	for i := range db {
		db[i] ^= mask[i]
	}
	db[0] &= 0xff >> uint(8*emLen-emBits)
	em := append(append(db, hh...), 0xbc)
	s := new(big.Int).Exp(new(big.Int).SetBytes(em), k.D, k.N)
	return s.FillBytes(make([]byte, (k.N.BitLen()+7)/8))
}

func signDSA(k *dsa.PrivateKey, dg []byte) []byte {
	ql := k.Q.BitLen() / 8
	if len(dg) > ql {
		dg = dg[:ql]
	}
	z := new(big.Int).SetBytes(dg)
	for ctr := byte(0); ; ctr++ {
		m := hmac.New(sha512.New, k.X.Bytes())
		m.Write(dg)
		m.Write([]byte{ctr})
		kk := new(big.Int).SetBytes(m.Sum(nil))
		kk.Mod(kk, new(big.Int).Sub(k.Q, big.NewInt(1)))
		kk.Add(kk, big.NewInt(1))
		r := new(big.Int).Exp(k.G, kk, k.P)
		r.Mod(r, k.Q)
		if r.Sign() == 0 {
			continue
		}
		s := new(big.Int).Mul(k.X, r)
		s.Add(s, z)
		s.Mul(s, new(big.Int).ModInverse(kk, k.Q))
		s.Mod(s, k.Q)
		if s.Sign() == 0 {
			continue
		}
		return derSeq(derInt(r), derInt(s))
	}
}

// ---- fixture generation (run once; the result is committed) ----

func certTime(t time.Time) []byte {
	t = t.UTC()
	if t.Year() >= 2050 || t.Year() < 1950 {
		return derGenTime(t.Format("20060102150405Z"))
	}
	return derUtcTime(t.Format("060102150405Z"))
}

func rdn(oid []int, val string) []byte {
	return derSet(derSeq(derOid(oid...), derUtf8(val)))
}

func makeName(cn, org string) []byte {
	return derSeq(rdn([]int{2, 5, 4, 6}, "CZ"), rdn([]int{2, 5, 4, 10}, org), rdn([]int{2, 5, 4, 3}, cn))
}

// reSpell writes a name differently: upper case, more blanks, another string type.
func reSpell(raw []byte) []byte {
	var seq pkix.RDNSequence
	if _, err := asn1.Unmarshal(raw, &seq); err != nil {
		return raw
	}
	var out []byte
	for _, set := range seq {
		var b []byte
		for _, a := range set {
			v, ok := a.Value.(string)
			if !ok || strings.Trim(strings.ToLower(v), "abcdefghijklmnopqrstuvwxyz0123456789. ") != "" {
				return raw
			}
			v = " " + strings.ToUpper(strings.ReplaceAll(v, " ", "   "))
			b = append(b, derSeq(derMust(a.Type), der(0x13, []byte(v)))...)
		}
		out = append(out, derSet(b)...)
	}
	return derSeq(out)
}

func spkiOf(k *Key) []byte {
	switch k.Kind {
	case "rsa":
		b, _ := x509.MarshalPKIXPublicKey(&k.Rsa.PublicKey)
		return b
	case "ec":
		b, _ := x509.MarshalPKIXPublicKey(&k.Ec.PublicKey)
		return b
	}
	p := k.Dsa.PublicKey
	alg := derSeq(derOid(1, 2, 840, 10040, 4, 1), derSeq(derInt(p.P), derInt(p.Q), derInt(p.G)))
	return derSeq(alg, derBits(derInt(p.Y)))
}

func makeCert(k, issuer *Key, serial int64, nb, na time.Time, cn, org, icn, iorg string) []byte {
	var alg []byte
	switch issuer.Kind {
	case "rsa":
		alg = derSeq(derOid(1, 2, 840, 113549, 1, 1, 11), derNull())
	case "ec":
		alg = derSeq(derOid(1, 2, 840, 10045, 4, 3, 2))
	case "dsa":
		alg = derSeq(derOid(2, 16, 840, 1, 101, 3, 4, 3, 2))
	}
	tbs := derSeq(der(0xa0, derSmall(2)), derSmall(serial), alg, makeName(icn, iorg),
		derSeq(certTime(nb), certTime(na)), makeName(cn, org), spkiOf(k))
	return derSeq(tbs, alg, derBits(issuer.Sign("pkcs1", crypto.SHA256, tbs)))
}

func genKeys(path string) {
	type want struct {
		name, owner, kind, issuer string
		bits                      int
		nbY, naY                  int
	}
	wants := []want{
		{"vic.rsa", "victim", "rsa", "", 2048, 2012, 2042},
		{"vic.rsa2", "victim", "rsa", "", 2048, 2013, 2043},
		{"vic.rsa3", "victim", "rsa", "", 2048, 2014, 2044},
		{"vic.rsa1024", "victim", "rsa", "", 1024, 2010, 2040},
		{"vic.rsa4096", "victim", "rsa", "", 4096, 2010, 2060},
		{"vic.ec256", "victim", "ec", "", 256, 2012, 2042},
		{"vic.ec256b", "victim", "ec", "", 256, 2015, 2045},
		{"vic.ec384", "victim", "ec", "", 384, 2012, 2042},
		{"vic.ec521", "victim", "ec", "", 521, 2012, 2042},
		{"vic.dsa1024", "victim", "dsa", "", 1024, 2012, 2042},
		{"vic.dsa2048", "victim", "dsa", "", 2048, 2012, 2042},
		{"ca.root", "ca", "rsa", "", 2048, 2005, 2055},
		{"ca.inter", "ca", "rsa", "ca.root", 2048, 2006, 2050},
		{"vic.leaf", "victim", "rsa", "ca.inter", 2048, 2012, 2030},
		{"att.rsa", "attacker", "rsa", "", 2048, 2012, 2042},
		{"att.rsa2", "attacker", "rsa", "", 2048, 2012, 2042},
		{"att.ec256", "attacker", "ec", "", 256, 2012, 2042},
		{"att.dsa1024", "attacker", "dsa", "", 1024, 2012, 2042},
		{"att.dsa2048", "attacker", "dsa", "", 2048, 2012, 2042},
		{"att.clone", "attacker", "rsa", "", 2048, 2012, 2042},
		{"att.cloneec", "attacker", "ec", "", 256, 2012, 2042},
		{"oth.rsa", "other", "rsa", "", 2048, 2001, 2020},
		{"oth.ec256", "other", "ec", "", 256, 1999, 2015},
		{"oth.rsafut", "other", "rsa", "", 2048, 2035, 2070},
		{"stamp.rsa", "stamp", "rsa", "", 2048, 2012, 2042},
		{"stamp.rsa2", "stamp", "rsa", "", 2048, 2012, 2042},
		{"stamp.ec256", "stamp", "ec", "", 256, 2012, 2042},
		{"play.ec256", "play", "ec", "", 256, 2012, 2042},
	}
	byName := map[string]*Key{}
	var out []KeyFix
	for i, w := range wants {
		k := &Key{Name: w.name, Owner: w.owner, Kind: w.kind}
		var pb []byte
		switch w.kind {
		case "rsa":
			k.Rsa, _ = rsa.GenerateKey(rand.Reader, w.bits)
			pb = x509.MarshalPKCS1PrivateKey(k.Rsa)
		case "ec":
			c := map[int]elliptic.Curve{256: elliptic.P256(), 384: elliptic.P384(), 521: elliptic.P521()}[w.bits]
			k.Ec, _ = ecdsa.GenerateKey(c, rand.Reader)
			pb, _ = x509.MarshalECPrivateKey(k.Ec)
		case "dsa":
			k.Dsa = new(dsa.PrivateKey)
			sz := dsa.L1024N160
			if w.bits == 2048 {
				sz = dsa.L2048N256
			}
			if err := dsa.GenerateParameters(&k.Dsa.Parameters, rand.Reader, sz); err != nil {
				panic(err)
			}
			dsa.GenerateKey(k.Dsa, rand.Reader)
			pb = derMust([]*big.Int{k.Dsa.P, k.Dsa.Q, k.Dsa.G, k.Dsa.Y, k.Dsa.X})
		}
		byName[w.name] = k
		iss, icn := k, w.name
		if w.issuer != "" {
			iss, icn = byName[w.issuer], w.issuer
		}
		serial, cn, org := int64(1000+i), w.name, w.owner
		// impostor certificates: same subject, issuer and serial as a victim's
		if w.name == "att.clone" {
			serial, cn, org, icn = 1000, "vic.rsa", "victim", "vic.rsa"
		} else if w.name == "att.cloneec" {
			serial, cn, org, icn = 1005, "vic.ec256", "victim", "vic.ec256"
		}
		cert := makeCert(k, iss, serial, time.Date(w.nbY, 3, 1, 10, 0, 0, 0, time.UTC), time.Date(w.naY, 3, 1, 10, 0, 0, 0, time.UTC),
			cn, org, icn, func() string {
				if w.issuer != "" {
					return "ca"
				}
				return org
			}())
		out = append(out, KeyFix{Name: w.name, Owner: w.owner, Kind: w.kind, Priv: hex.EncodeToString(pb), Cert: hex.EncodeToString(cert), Issuer: w.issuer})
	}
	b, _ := json.MarshalIndent(out, "", " ")
	if err := os.WriteFile(path, b, 0644); err != nil {
		panic(err)
	}
}

// otherKey is the key an impostor borrows: never the signer's own, which would make the
// signature an honest one that the signing log does not know.
func otherKey(name, own string) *Key {
	if name == "" || name == own {
		name = "vic.ec256"
		if own == name {
			name = "vic.rsa"
		}
	}
	return mustKey(name)
}
