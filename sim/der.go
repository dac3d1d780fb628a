package main

import (
	"encoding/asn1"
	"math/big"
)

// Minimal DER writer used by the simulated signers (independent of the code under test).

func der(tag byte, parts ...[]byte) []byte {
	n := 0
	for _, p := range parts {
		n += len(p)
	}
	out := []byte{tag}
	switch {
	case n < 0x80:
		out = append(out, byte(n))
	case n < 0x100:
		out = append(out, 0x81, byte(n))
	case n < 0x10000:
		out = append(out, 0x82, byte(n>>8), byte(n))
	default:
		out = append(out, 0x83, byte(n>>16), byte(n>>8), byte(n))
	}
	for _, p := range parts {
		out = append(out, p...)
	}
	return out
}

func derSeq(parts ...[]byte) []byte { return der(0x30, parts...) }
func derSet(parts ...[]byte) []byte { return der(0x31, parts...) }
func derOct(b []byte) []byte        { return der(0x04, b) }
func derNull() []byte               { return []byte{5, 0} }

func derMust(v interface{}) []byte {
	b, err := asn1.Marshal(v)
	if err != nil {
		panic(err)
	}
	return b
}

func derInt(n *big.Int) []byte   { return derMust(n) }
func derSmall(n int64) []byte    { return derMust(big.NewInt(n)) }
func derOid(ids ...int) []byte   { return derMust(asn1.ObjectIdentifier(ids)) }
func derBits(b []byte) []byte    { return der(0x03, []byte{0}, b) }
func derUtf8(s string) []byte    { return der(0x0c, []byte(s)) }
func derUtcTime(s string) []byte { return der(0x17, []byte(s)) }
func derGenTime(s string) []byte { return der(0x18, []byte(s)) }
