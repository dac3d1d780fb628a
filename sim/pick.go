package main

import (
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/asn1"
	"fmt"
	"math/big"
	"time"
)

// Synthetic certificates for the certificate picker. An index encodes the
// signature algorithm and the validity period relative to pickBase, so that
// candidates are valid, expired, not yet valid, or change state when the
// simulated clock jumps.

const pickBase = 1700000000

var pickAlgs = []x509.SignatureAlgorithm{x509.SHA1WithRSA, x509.SHA256WithRSA, x509.ECDSAWithSHA256, x509.MD5WithRSA}
var pickFrom = []int64{-400 * 86400, -100 * 86400, -86400, 86400, 50 * 86400, -86399, -90000, -100*86400 + 7200}
var pickLen = []int64{30 * 86400, 99 * 86400, 150 * 86400, 5000 * 86400, 150*86400 + 1, 5000*86400 - 3600,
	// longer than a time.Duration can express
	300 * 31557600, 400 * 31557600, 7900 * 31557600}

const pickSpace = 4 * 8 * 9 * 3

var pickMemo = map[int]*x509.Certificate{}

func pickChain(i int) []*x509.Certificate {
	if c := pickMemo[i]; c != nil {
		return []*x509.Certificate{c}
	}
	j := i
	alg := pickAlgs[j%4]
	j /= 4
	from := pickFrom[j%8]
	j /= 8
	ln := pickLen[j%9]
	c := &x509.Certificate{
		Raw:                []byte(fmt.Sprintf("synthetic certificate %d", i)),
		SignatureAlgorithm: alg,
		NotBefore:          time.Unix(pickBase+from, 0).UTC(),
		NotAfter:           time.Unix(pickBase+from+ln, 0).UTC(),
		SerialNumber:       big.NewInt(int64(i * 37 % 11)),
		PublicKeyAlgorithm: []x509.PublicKeyAlgorithm{x509.RSA, x509.ECDSA, x509.DSA}[i*13/4%3],
		Version:            1 + i*5/3%3,
		IsCA:               i*3/7%2 == 1,
		KeyUsage:           x509.KeyUsage(i * 11 % 5),
		Subject:            pickName(i),
		Issuer:             pickName(i % 6),
	}
	c.RawIssuer = derName(c.Issuer)
	c.RawSubject = derName(c.Subject)
	pickMemo[i] = c
	return []*x509.Certificate{c}
}

func derName(n pkix.Name) []byte {
	b, err := asn1.Marshal(n.ToRDNSequence())
	if err != nil {
		panic(err)
	}
	return b
}

func pickName(i int) (n pkix.Name) {
	if i%5 != 0 {
		n.CommonName = fmt.Sprint("cert ", i)
	}
	if i%2 == 1 {
		n.Country = []string{"CZ"}
	}
	if i%3 == 1 {
		n.Organization = []string{"a", fmt.Sprint(i)}
	}
	if i%7 == 2 {
		n.Province, n.Locality, n.OrganizationalUnit = []string{"p"}, []string{"l"}, []string{"u", "v"}
	}
	return
}
