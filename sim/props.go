package main

import (
	"crypto/sha256"
	"fmt"
	"sort"
	"strings"
)

// Prop is one property: how simulated histories for it are drawn and how a
// history is judged. Gen and Check are pure functions of the seed / scenario.
type Prop struct {
	ID    string
	Runs  int // quick tier
	Gen   func(r *Rng) *Scenario
	Check func(sc *Scenario, ctr *Counters) []Violation
}

var baseSeed uint64

var propList = []*Prop{
	{"C01", 9000, genC01, checkC01},
	{"C02", 9000, genC02, checkC02},
	{"C03", 8000, genC03, checkC03},
	{"C04", 12000, genC04, checkC04},
	{"C05", 8000, genC05, checkC05},
	{"C06", 6000, genC06, checkC06},
	{"C07", 4000, genC07, checkC07},
	{"C08", 4000, genC08, checkC08},
	{"C09", 16000, genC09, checkC09},
	{"C10", 10000, genC10, checkC10},
	{"C11", 8000, genC11, checkC11},
	{"C12", 8000, genC12, checkC12},
	{"C13", 20000, genC13, checkC13},
	{"C14", 8000, genC14, checkC14},
	{"C15", 8000, genC15, checkC15},
	{"C16", 10000, genC16, checkC16},
	{"C17", 8000, genC17, checkC17},
	{"C18", 8000, genC18, checkC18},
	{"C19", 8000, genC19, checkC19},
	{"C20", 8000, genC20, checkC20},
	{"C24", 8000, genC24, checkC24},
}

func propByID(id string) *Prop {
	for _, p := range propList {
		if p.ID == id {
			return p
		}
	}
	return nil
}

// ---------- shared generators ----------

// fromPool draws one of n publisher releases; the pool is fixed by the base
// seed so that the expensive signing is shared between runs.
// poolScale widens the pools of honest APKs, whose signatures are cached.
const poolScale = 8

func fromPool(r *Rng, who string, w want, n int) ApkSpec {
	bits := uint64(0)
	for i, b := range []bool{w.v1, w.v2, w.v3, w.v31} {
		if b {
			bits |= 1 << uint(i)
		}
	}
	return genHonest(NewRng(hashSeed(baseSeed, strSeed(who), bits, uint64(r.N(n*poolScale)))), parties[who], w)
}

func genApk(r *Rng, who string) ApkSpec { return fromPool(r, who, genWant(r), 12) }

func newScenario(prop string, r *Rng) *Scenario {
	return &Scenario{Prop: prop, MapSeed: r.U64(), Sched: Sched{Fixed: true}}
}

func (sc *Scenario) store(base int, edits ...Edit) int {
	sc.Stores = append(sc.Stores, StoreSpec{Base: base, Edits: edits})
	return len(sc.Stores) - 1
}

var pairIDs = []uint32{idV2, idV3, idV31, idStamp, idFrost}

func presentIDs(sp *ApkSpec) []uint32 {
	var out []uint32
	if sp.V2 != nil {
		out = append(out, idV2)
	}
	if sp.V3 != nil {
		out = append(out, idV3)
	}
	if sp.V31 != nil {
		out = append(out, idV31)
	}
	if sp.Stamp != nil {
		out = append(out, idStamp)
	}
	if sp.Frost != nil {
		out = append(out, idFrost)
	}
	return out
}

// genEdit draws one manipulation of stored bytes.
func genEdit(r *Rng, sc *Scenario, base int) Edit {
	sp := &sc.Apks[base]
	ids := presentIDs(sp)
	if len(ids) == 0 || r.P(10) {
		ids = pairIDs
	}
	id := ids[r.N(len(ids))]
	other := r.N(len(sc.Apks))
	region := pick(r, "", "data", "data", "block", "cd", "eocd", "pair", "pair", "pair")
	pos := r.N(1 << 16)
	switch r.N(5) {
	case 0:
		pos = r.N(64)
	case 1:
		pos = -1 - r.N(64)
	case 2:
		pos = r.N(2048)
	}
	switch r.N(28) {
	case 27: // the signing block's size and magic
		return Edit{Kind: "flip", Region: "block", Pos: pick(r, r.N(8), -1-r.N(24), -1-r.N(16)), Val: r.U64()}
	case 24, 25:
		return Edit{Kind: "gap", Region: pick(r, "data", "block", "cd", "cd"), Len: pick(r, 1, 4, 12, 24, 100, 4096), Val: r.U64()}
	case 26:
		return Edit{Kind: "comment", Len: pick(r, 0, 1, 5, 22, 30, 200), Val: r.U64()}
	case 0, 1, 2, 3, 4:
		return Edit{Kind: "flip", Region: region, ID: id, Pos: pos, Val: r.U64()}
	case 5:
		return Edit{Kind: "set", Region: region, ID: id, Pos: pos, Len: pick(r, 1, 2, 4, 8), Val: specials[r.N(len(specials))]}
	case 6:
		return Edit{Kind: "zero", Region: region, ID: id, Pos: pos, Len: 1 << uint(r.N(12))}
	case 7:
		return Edit{Kind: "rand", Region: region, ID: id, Pos: pos, Len: 1 << uint(r.N(10)), Val: r.U64()}
	case 8:
		return Edit{Kind: "torn", Region: pick(r, "", "data", "cd", "block"), Pos: pos, Len: 1 << uint(r.N(14)), From: other}
	case 9:
		return Edit{Kind: "trunc", Region: region, ID: id, Pos: pos}
	case 10:
		return Edit{Kind: "insert", Region: region, ID: id, Pos: pos, Len: 1 + r.N(40), Val: r.U64()}
	case 11:
		return Edit{Kind: "delete", Region: region, ID: id, Pos: pos, Len: 1 + r.N(40)}
	case 12:
		return Edit{Kind: pick(r, "swap", "copy"), Region: region, ID: id, Pos: pos, Len: 1 << uint(r.N(12)), Val: r.U64()}
	case 13:
		return Edit{Kind: pick(r, "append", "prefix"), Len: 1 + r.N(80), Val: r.U64()}
	case 14:
		return Edit{Kind: "drop-pair", ID: id}
	case 15:
		return Edit{Kind: "rename-pair", ID: id, Val: uint64(pick(r, uint32(0x1234), idV2, idV3, idV31, idPad, idStamp))}
	case 16:
		return Edit{Kind: pick(r, "empty-pair", "no-signers"), ID: id}
	case 17:
		return Edit{Kind: "add-pair", ID: pick(r, id, idV2, idV3, idV31, uint32(0x777)), Len: r.N(60), Val: r.U64()}
	case 18:
		return Edit{Kind: "graft-pair", ID: id, From: other}
	case 19:
		return Edit{Kind: "graft-block", From: other}
	case 20:
		return Edit{Kind: "graft-cd", From: other}
	case 21:
		return Edit{Kind: pick(r, "graft-data", "graft-eocd"), From: other}
	case 22:
		return Edit{Kind: "strip-block"}
	}
	return Edit{Kind: "dup-pair", ID: id, From: r.N(len(sc.Apks) + 1), Val: r.U64(), Len: r.N(2)}
}

func genEdits(r *Rng, sc *Scenario, base, n int) []Edit {
	var out []Edit
	for i := 0; i < n; i++ {
		out = append(out, genEdit(r, sc, base))
	}
	return out
}

var blkByz = []string{"digest-other", "digest-best-bad", "digest-tail", "digest-short", "digest-empty", "digest-missing", "digest-extra", "nodigest", "sig-garbage", "sig-best-bad", "sig-trunc",
	"sig-empty", "sig-other", "sig-onenum", "sig-wrongkey", "nosig", "sig-unknown-algo", "pk-swap", "pk-garbage", "cert-swap", "cert-append", "cert-prepend", "nocert", "sdk-min", "sdk-max", "sdk-min-less", "sdk-max-more", "sdk-wider",
	"sig-drop-best", "sig-drop-other", "sig-algo-future", "sig-other-future", "sig-algo-sibling", "sig-reverse", "sig-dup", "digest-dup", "sig-nonbest-bad", "algo-family", "cut-signer", "cut-signer", "cut-sigs", "cut-sigrec", "cut-sigrec"}
var v1Byz = []string{"whole-bad", "mainattr-bad", "entry-bad", "both-bad", "no-sf", "no-block", "unknown-alg", "alg-mismatch", "cert-swap", "cert-both", "cert-both-rev",
	"attr-digest", "attr-ctype", "attr-nodigest", "sig-other", "sig-garbage", "sig-empty", "two-infos-bad-first", "no-infos", "victim-info-garbage-first", "sid-serial", "sid-issuer", "cert-usage", "cert-usage", "entry-nodigest", "entry-nodigest", "entry-bad", "entry-stray", "both-bad", "no-version"}
var linByz = []string{"forged", "othersd", "nosig", "firstforged", "algo", "algo-sib", "algo-sib", "version", "dup", "dupmid", "dupmid", "dupadj"}
var stampByz = []string{"cert-swap", "sig-garbage", "sig-last-garbage", "sig-first-garbage", "digest-other", "digest-wrong", "attr-bad", "attr-nosig", "attr-nosig", "attr-garbage", "attr-cut", "attr-len", "block-cut", "block-cut", "entry-short", "entry-long", "entry-empty", "entry-tail",
	"sig-none", "sig-empty", "sig-wrongkey", "sig-unknown", "scheme-none", "scheme-shift"}
var frostByz = []string{"digest-other", "digest-short", "keyidx-neg", "keyidx-big", "sig-other", "sig-garbage", "sig-none", "sig-short", "sig-zero", "sigsize-neg", "sigsize-big", "sigskip-neg", "sigs-neg", "sigs-cut", "disabled"}

// byzStamp makes a stamper misbehave.
func byzStamp(r *Rng, st *StampSpec) {
	st.Byz = stampByz[r.N(len(stampByz))]
	st.ByzKey = pick(r, "stamp.rsa", "stamp.ec256")
	st.ByzAt = r.N(1 << 21)
	if strings.HasPrefix(st.Byz, "attr-") {
		st.NoAttrs = false
		st.Time = 1600000000
	}
	if strings.HasSuffix(st.Byz, "t-garbage") && r.P(70) { // several signatures
		if mustKey(st.Key).Kind == "rsa" {
			st.Algos = pick(r, []uint32{aRSA256, aPSS512}, []uint32{aPSS256, aRSA512}, []uint32{aRSA256, aRSA512}, []uint32{aRSA512, aPSS512, aRSA256})
		} else {
			st.Algos = pick(r, []uint32{aEC256, aEC512}, []uint32{aEC512, aEC256})
		}
	}
	if st.Byz == "cert-swap" {
		st.EntryOf = st.ByzKey
		st.Key = pick(r, "att.rsa", "att.ec256")
		st.Lineage = nil
		if mustKey(st.Key).Kind == "rsa" {
			st.Algos = []uint32{aRSA256}
		} else {
			st.Algos = []uint32{aEC256}
		}
	}
}

// genFrost draws frosting, honest unless byz is asked for.
func genFrost(r *Rng, byz bool) *FrostSpec {
	f := &FrostSpec{Key: "play.ec256", Info: 1 + r.N(60), Pre: r.N(3)}
	if f.Pre > 0 || byz {
		f.Dis = pick(r, 1, 1, 2, 5, 127, 128, 129, 300)
	}
	if r.P(10) {
		f.Info = pick(r, 127, 128, 129, 300, 2200)
	}
	if byz {
		if f.Byz = pick(r, frostByz...); f.Byz == "sigskip-neg" {
			f.Pre = 1 + r.N(2)
		}
	}
	return f
}

var vicKeys = []string{"vic.rsa", "vic.rsa2", "vic.rsa3", "vic.ec256", "vic.ec256b", "vic.ec384", "vic.dsa1024", "vic.dsa2048", "vic.leaf"}

func cloneBlk(b *BlkSpec) *BlkSpec {
	if b == nil {
		return nil
	}
	return &BlkSpec{Signers: append([]BlkSigner(nil), b.Signers...)}
}

// byzBlock makes one block signer of sp misbehave.
func byzBlock(r *Rng, sp *ApkSpec) {
	var bs []**BlkSpec
	for _, b := range []**BlkSpec{&sp.V2, &sp.V3, &sp.V31} {
		if *b != nil {
			bs = append(bs, b)
		}
	}
	if len(bs) == 0 {
		return
	}
	b := bs[r.N(len(bs))]
	*b = cloneBlk(*b)
	s := &(*b).Signers[r.N(len((*b).Signers))]
	s.Byz = blkByz[r.N(len(blkByz))]
	s.ByzKey = vicKeys[r.N(len(vicKeys))]
	if strings.HasPrefix(s.Byz, "cut-") {
		s.ByzAt = r.N(1 << 12)
	}
	if s.Byz == "sig-wrongkey" && r.P(50) {
		s.ByzKey = "att.rsa"
	}
	switch s.Byz {
	case "sig-drop-best", "sig-drop-other", "sig-algo-future", "sig-other-future", "sig-reverse", "sig-nonbest-bad", "digest-best-bad":
		if len(s.Algos) < 2 { // these need a second algorithm
			for _, a := range algosFor(mustKey(s.Key)) {
				if len(s.Algos) < 2 && a != s.Algos[0] && (algoDigest(a) != 3 || sp.Align) {
					if s.Algos = []uint32{s.Algos[0], a}; r.P(50) {
						s.Algos = []uint32{a, s.Algos[0]}
					}
				}
			}
		}
	}
}

func cloneV1(v *V1Spec) *V1Spec {
	c := *v
	c.Signers = append([]V1Signer(nil), v.Signers...)
	return &c
}

func byzV1(r *Rng, sp *ApkSpec) {
	if sp.V1 == nil {
		return
	}
	sp.V1 = cloneV1(sp.V1)
	s := &sp.V1.Signers[r.N(len(sp.V1.Signers))]
	s.Byz = v1Byz[r.N(len(v1Byz))]
	s.ByzKey = vicKeys[r.N(len(vicKeys))]
	s.ByzAt = r.N(6)
	if strings.HasPrefix(s.Byz, "entry-") && r.P(60) {
		s.NoWhole = true
	}
	if r.P(15) {
		s.Byz = ""
		sp.V1.Byz, sp.V1.ByzAt = pick(r, "strong-bad", "strong-bad", "weak-bad"), r.N(6)
		sp.V1.Digests = pick(r, []string{"SHA1", "SHA-256"}, []string{"SHA-384", "SHA1"}, []string{"SHA1", "SHA-512"}, []string{"SHA-256", "SHA1"})
	}
	if strings.HasPrefix(s.Byz, "attr-") {
		s.Attrs = true
		s.Pkcs7Hash = pick(r, "SHA1", "")
	}
	if strings.HasPrefix(s.Byz, "cert-both") {
		s.Key = pick(r, "att.clone", "att.cloneec", s.Key)
		s.ByzKey = pick(r, "vic.rsa", "vic.ec256", s.ByzKey)
		if mustKey(s.Key).Kind != "dsa" && s.Pkcs7Hash == "SHA-224" && r.P(50) {
			s.Pkcs7Hash = ""
		}
	}
	if s.Byz == "cert-usage" {
		s.Key = idleKeys[r.N(len(idleKeys))]
		if s.Pkcs7Hash == "MD5" || s.Pkcs7Hash == "SHA-224" && r.P(50) {
			s.Pkcs7Hash = ""
		}
		s.RsaPad = 0
	}
	if s.Byz == "mainattr-bad" {
		s.MainAttr = true
	}
}

func cloneLin(l *LineageSpec) *LineageSpec {
	c := *l
	return &c
}

var verifyKinds = []string{"verify", "verify", "verify", "vpath", "sb", "sbpath", "verify0", "vpath0"}

func genOp(r *Rng, st int, kinds []string) Op {
	rg := genRange(r)
	op := Op{Kind: kinds[r.N(len(kinds))], Store: st, Min: rg.min, Max: rg.max}
	fixOp(r, &op)
	return op
}

func fixOp(r *Rng, op *Op) {
	switch op.Kind {
	case "verify0", "vpath0", "pickres", "ext", "extpath":
		op.Min, op.Max = anyMin, anyMax
	}
	switch op.Kind {
	case "verify", "vpath", "verify0", "vpath0", "ext", "extpath":
		if r.P(25) {
			op.Zip = "own"
		}
	case "sbzip":
		op.Zip = "own"
	}
}

// ---------- C01: block scheme authenticity ----------

func blockWant(r *Rng) want {
	for {
		if w := genWant(r); w.v2 || w.v3 {
			return w
		}
	}
}

func genC01(r *Rng) *Scenario {
	sc := newScenario("C01", r)
	sc.Apks = append(sc.Apks, fromPool(r, "vic", blockWant(r), 12))
	who := pick(r, "vic", "att")
	b := fromPool(r, who, blockWant(r), 12)
	mode := r.N(5)
	switch mode {
	case 0: // corruption of a genuine artefact
		sc.Mode = "corrupt"
		sc.Apks = append(sc.Apks, b)
		sc.store(0, genEdits(r, sc, 0, 1+r.N(3))...)
	case 1: // splices of two genuine artefacts
		sc.Mode = "splice"
		sc.Apks = append(sc.Apks, b)
		var es []Edit
		for i := 0; i <= r.N(3); i++ {
			id := pick(r, uint32(idV2), uint32(idV3), uint32(idV31))
			es = append(es, pick(r,
				Edit{Kind: "graft-pair", ID: id, From: 1}, Edit{Kind: "graft-block", From: 1}, Edit{Kind: "graft-data", From: 1}, Edit{Kind: "graft-cd", From: 1},
				Edit{Kind: "graft-eocd", From: 1}, Edit{Kind: "dup-pair", ID: id, From: 2, Len: r.N(2)}, Edit{Kind: "drop-pair", ID: id}))
		}
		sc.store(0, es...)
	case 2: // same signing parameters, other contents
		sc.Mode = "replay"
		c := sc.Apks[0]
		mutateContents(r, &c)
		sc.Apks = append(sc.Apks, c)
		es := []Edit{{Kind: "graft-pair", ID: idV2, From: 0}, {Kind: "graft-pair", ID: idV3, From: 0}, {Kind: "graft-pair", ID: idV31, From: 0}}
		if r.P(50) {
			es = []Edit{es[r.N(3)]}
		}
		if r.P(20) {
			es = append(es, genEdit(r, sc, 1))
		}
		sc.store(1, es...)
	case 3: // a Byzantine signer
		sc.Mode = "byzantine"
		byzBlock(r, &b)
		if r.P(20) {
			byzBlock(r, &b)
		}
		sc.Apks = append(sc.Apks, b)
		sc.store(1)
		if r.P(15) {
			sc.Stores[0].Edits = genEdits(r, sc, 1, 1)
		}
	default: // a single changed byte of the protected contents or of a signature
		sc.Mode = "bitrot"
		sc.Apks = append(sc.Apks, b)
		e := Edit{Kind: "flip", Region: pick(r, "data", "cd", "eocd", "pair", "block"), ID: pick(r, presentIDs(&sc.Apks[0])...), Pos: r.N(1 << 21), Val: r.U64()}
		if r.P(60) {
			e.Pos = -1 - r.N(4200)
		}
		if r.P(30) {
			e.Pos = r.N(4200)
		}
		if sc.Apks[0].Target > 0 && r.P(60) {
			e.Region, e.Pos = "data", pick(r, 1<<20, 1<<20-1, 1<<20+1, 65536, 65535, 0, sc.Apks[0].Target-1, sc.Apks[0].Target-2, r.N(sc.Apks[0].Target))
		}
		sc.store(0, e)
	}
	n := 1 + r.N(2)
	sc.Tasks = [][]Op{{}}
	for i := 0; i < n; i++ {
		op := genOp(r, 0, verifyKinds)
		if op.Min != anyMin && op.Max < 24 {
			op.Max = anyMax
		}
		sc.Tasks[0] = append(sc.Tasks[0], op)
	}
	return sc
}

// judge runs the history and applies the authenticity oracle to every call,
// keeping only violations whose class the property owns.
func judge(sc *Scenario, ctr *Counters, own func(class string) bool) []Violation {
	w := buildWorld(sc)
	res := w.runAll(ctr)
	for i := range res.Out {
		for j, o := range res.Out[i] {
			op := &sc.Tasks[i][j]
			if o.accepted() {
				ctr.Probes["accepted"]++
				ctr.Probes[fmt.Sprintf("accepted-scheme-%d", o.Scheme)]++
			} else {
				ctr.Probes["rejected"]++
			}
			for _, v := range append(w.authentic(w.stores[op.Store], op, o), append(w.refCheck(w.stores[op.Store], op, o), w.refCheckV1(w.stores[op.Store], op, o)...)...) {
				if own(v.Class) {
					return []Violation{v}
				}
			}
		}
	}
	return nil
}

// refClass: a violation class of the reference model of one of the given kinds.
func refClass(c string, kinds ...string) bool {
	for _, k := range kinds {
		if strings.HasPrefix(c, "invalid-"+k+"-accepted-") {
			return true
		}
	}
	return false
}

func checkC01(sc *Scenario, ctr *Counters) []Violation {
	return judge(sc, ctr, func(c string) bool {
		switch c {
		case "accepted-without-signer", "accepted-without-layout", "v31-without-v3", "v3-passed-over":
			return true
		}
		return refClass(c, "signer", "digest", "parse") || strings.HasPrefix(c, "unsigned-accepted-v2") || strings.HasPrefix(c, "unsigned-accepted-v3") || strings.HasPrefix(c, "accepted-without-signer-")
	})
}

// names outside META-INF which resemble it, and of directories and odd case
var oddNames = []string{"META-INFX/a.so", "META-INF.bak", "meta-inf/evil.so", "Meta-Inf/x.dex", "META-INF", "res/META-INF/x.bin", "assets/META-INF/MANIFEST.MF", "META-INF2/CERT.SF", "stamp-cert-sha256x", "CERT.RSA"}

// mutateContents changes what an APK contains without resigning semantics.
func mutateContents(r *Rng, sp *ApkSpec) {
	sp.Entries = append([]EntrySpec(nil), sp.Entries...)
	for k := 1 + r.N(2); k > 0; k-- {
		switch r.N(9) {
		case 8: // a file dressed up as a directory
			if n := len(sp.Entries); n > 0 && r.P(60) {
				e := &sp.Entries[r.N(n)]
				e.Dir, e.Ver = true, e.Ver+r.N(2)
				if r.P(20) {
					e.Name += "/"
					e.Size, e.Deflate, e.DD = 0, false, false
				}
			} else {
				sp.Entries = append(sp.Entries, EntrySpec{Name: pick(r, "classes3.dex", "assets/payload"), Size: 1 + r.N(200), Dir: true})
			}
		case 0, 1:
			if len(sp.Entries) > 0 {
				sp.Entries[r.N(len(sp.Entries))].Ver += 1 + r.N(3)
			}
		case 2:
			sp.Entries = append(sp.Entries, EntrySpec{Name: pick(r, "classes3.dex", "assets/payload", "lib/x86/libevil.so", "a.b"), Size: r.N(200)})
			if r.P(50) { // easily mistaken for a member nobody has to sign
				sp.Entries[len(sp.Entries)-1].Name = pick(r, oddNames...)
			}
		case 3:
			if len(sp.Entries) > 1 {
				i := r.N(len(sp.Entries))
				sp.Entries = append(sp.Entries[:i:i], sp.Entries[i+1:]...)
			}
		case 4:
			if len(sp.Entries) > 0 {
				sp.Entries[r.N(len(sp.Entries))].Name += pick(r, "x", ".bak", "2")
			}
		case 5:
			if sp.Manifest != nil {
				m := *sp.Manifest
				m.Ver++
				if r.P(40) {
					m.Target = pick(r, int32(0), 24, 29)
				}
				sp.Manifest = &m
			}
		case 6:
			if len(sp.Entries) > 1 {
				a, b := r.N(len(sp.Entries)), r.N(len(sp.Entries))
				sp.Entries[a].Name, sp.Entries[b].Name = sp.Entries[b].Name, sp.Entries[a].Name
			}
		case 7:
			if len(sp.Entries) > 0 {
				e := &sp.Entries[r.N(len(sp.Entries))]
				if e.Size += 1 + r.N(5); r.P(40) {
					e.Size = 0
				}
			}
		}
	}
}

// ---------- C02: v1 authenticity ----------

func v1Want(r *Rng) want {
	return pick(r, want{v1: true}, want{v1: true}, want{v1: true}, want{v1: true, v2: true}, want{v1: true, v2: true, v3: true})
}

var v1Ranges = []sdkRange{{anyMin, anyMax}, {18, 23}, {21, anyMax}, {1, anyMax}, {19, 30}, {21, 27}, {21, 23}, {24, anyMax}, {anyMin, 27}, {28, anyMax}, {14, anyMax}, {anyMin, 23}}

func genC02(r *Rng) *Scenario {
	sc := newScenario("C02", r)
	a := fromPool(r, "vic", v1Want(r), 25)
	if r.P(50) {
		a.V2, a.V3, a.Align, a.PadBlock, a.Extra = nil, nil, false, false, nil
		if a.V1 != nil {
			a.V1 = cloneV1(a.V1)
			for i := range a.V1.Signers {
				a.V1.Signers[i].Apk = ""
			}
		}
	}
	sc.Apks = append(sc.Apks, a)
	switch r.N(6) {
	case 0, 1: // repackaged: other members under the genuine META-INF
		sc.Mode = "repackage"
		c := a
		c.V1, c.V2, c.V3, c.V31 = nil, nil, nil, nil
		c.MetaFrom = 1
		if r.P(20) {
			c.Manifest = nil
		}
		mutateContents(r, &c)
		if r.P(50) {
			c.MFEdit = pick(r, "resync", "append", "prepend", "replace") + pick(r, "", "", "+sf", "+sfadd")
		}
		if r.P(40) { // plus a foreign signature beside it
			d := fromPool(r, "att", want{v1: true}, 10)
			c.V1 = cloneV1(d.V1)
			for i := range c.V1.Signers {
				c.V1.Signers[i].File = pick(r, "EVIL", "AAA", "CERT")
			}
		}
		if r.P(15) && a.V2 != nil {
			c.V2 = a.V2
		}
		sc.Apks = append(sc.Apks, c)
		sc.store(1)
	case 2: // a Byzantine JAR signer
		sc.Mode = "byzantine"
		b := fromPool(r, pick(r, "att", "vic"), want{v1: true}, 25)
		byzV1(r, &b)
		if r.P(25) {
			b.MetaFrom = 1
		}
		sc.Apks = append(sc.Apks, b)
		sc.store(1)
	case 3: // incomplete signatures
		if r.P(8) {
			// a member added whose name stands for another one
			sc.Mode = "alias"
			c := a
			c.V1, c.V2, c.V3, c.V31, c.MetaFrom = nil, nil, nil, nil, 1
			victim := "AndroidManifest.xml"
			if len(c.Entries) > 0 && r.P(80) {
				victim = c.Entries[r.N(len(c.Entries))].Name
			}
			c.Entries = append(append([]EntrySpec(nil), c.Entries...), EntrySpec{Name: pick(r, victim, "./"+victim, "x/../"+victim, ".//"+victim), Size: 1 + r.N(100), Ver: 9})
			sc.Apks = append(sc.Apks, c)
			sc.store(1)
			break
		}
		sc.Mode = "partial"
		b := a
		b.V1 = cloneV1(a.V1)
		name := "AndroidManifest.xml"
		if r.P(70) && len(b.Entries) > 0 {
			name = b.Entries[r.N(len(b.Entries))].Name
		}
		if x := r.N(4); x < 2 {
			b.V1.Skip = []string{name}
		} else if x == 2 && len(b.Entries) > 1 {
			// two signers, each for its own part of the members
			ks := parties["vic"].keyN(r, 2)
			b.V1 = genV1(r, ks)
			var part [2][]string
			for i, e := range append([]EntrySpec{{Name: "AndroidManifest.xml"}}, b.Entries...) {
				k := r.N(2)
				if i < 2 {
					k = i
				}
				part[k] = append(part[k], e.Name)
			}
			for i := range part {
				b.V1.Signers[i].Skip = strings.Join(part[i], "|")
			}
			if r.P(30) {
				b.V1.Signers[0].Skip = part[0][0]
			}
		} else {
			b.V1.Signers[r.N(len(b.V1.Signers))].Skip = name
		}
		if r.P(50) {
			for i := range b.V1.Signers {
				b.V1.Signers[i].NoWhole = true
			}
		}
		sc.Apks[0] = b
		sc.store(0)
	case 4: // torn and misplaced writes
		sc.Mode = "corrupt"
		sc.Apks = append(sc.Apks, fromPool(r, pick(r, "vic", "att"), v1Want(r), 25))
		sc.store(0, genEdits(r, sc, 0, 1+r.N(3))...)
	default:
		sc.Mode = "bitrot"
		e := Edit{Kind: "flip", Region: pick(r, "data", "cd", "eocd"), Pos: r.N(1 << 16), Val: r.U64()}
		if r.P(50) {
			e.Pos = -1 - r.N(3000)
		}
		sc.store(0, e)
	}
	sc.Tasks = [][]Op{{}}
	for i := 0; i <= r.N(2); i++ {
		op := genOp(r, 0, []string{"verify", "verify", "vpath", "verify0"})
		if op.Kind != "verify0" {
			g := v1Ranges[r.N(len(v1Ranges))]
			op.Min, op.Max = g.min, g.max
		}
		sc.Tasks[0] = append(sc.Tasks[0], op)
	}
	return sc
}

func checkC02(sc *Scenario, ctr *Counters) []Violation {
	return judge(sc, ctr, func(c string) bool {
		return c == "unsigned-accepted-v1" || c == "v1-not-verified" || c == "accepted-without-signer" || c == "invalid-v1-accepted" || c == "stale-signature-file-accepted" || c == "hidden-member-accepted-v1"
	})
}

// ---------- C03: stripping ----------

func genC03(r *Rng) *Scenario {
	sc := newScenario("C03", r)
	w := pick(r, want{v1: true, v2: true}, want{v1: true, v2: true, v3: true}, want{v2: true, v3: true}, want{v1: true, v3: true}, want{v1: true, v2: true, v3: true, v31: true}, want{v3: true, v31: true}, want{v2: true, v3: true, v31: true})
	a := fromPool(r, "vic", w, 16)
	if w.v1 && w.v3 && !w.v2 || r.P(60) {
		// enough platforms covered for the lower scheme to matter
		m := *a.Manifest
		m.Min = pick(r, int32(14), 21, 23)
		a.Manifest = &m
	}
	announce(r, &a)
	sc.Apks = append(sc.Apks, a)
	ids := presentIDs(&sc.Apks[0])
	var es []Edit
	n := 1 + r.N(2)
	if r.P(35) { // exactly the strongest, or the strongest two, gone
		n = 0
		for k := 0; k < 1+r.N(2) && k < len(ids); k++ {
			id := ids[len(ids)-1-k]
			es = append(es, pick(r, Edit{Kind: "drop-pair", ID: id}, Edit{Kind: "rename-pair", ID: id, Val: 0x1234}))
		}
		if len(ids) == 1 && r.P(50) {
			es = []Edit{{Kind: "strip-block"}}
		}
	}
	for i := 0; i < n; i++ {
		id := ids[r.N(len(ids))]
		switch r.N(12) {
		case 0, 1, 2:
			es = append(es, Edit{Kind: "drop-pair", ID: id})
		case 3:
			es = append(es, Edit{Kind: "strip-block"})
		case 4:
			es = append(es, Edit{Kind: "rename-pair", ID: id, Val: uint64(pick(r, uint32(0x1234), idPad, idStampV1))})
		case 5:
			es = append(es, Edit{Kind: "empty-pair", ID: id})
		case 6:
			es = append(es, Edit{Kind: "set", Region: "block", Pos: -1 - r.N(24), Len: 1, Val: r.U64()})
		case 7:
			es = append(es, Edit{Kind: "set", Region: "block", Pos: r.N(20), Len: pick(r, 1, 4, 8), Val: specials[r.N(len(specials))]})
		case 8:
			es = append(es, Edit{Kind: "flip", Region: "pair", ID: id, Pos: r.N(40) - 12, Val: r.U64()})
		case 9:
			es = append(es, Edit{Kind: "zero", Region: "block", Pos: -24 - r.N(100), Len: 8 + r.N(100)})
		case 10:
			es = append(es, pick(r, Edit{Kind: "append", Len: 1 + r.N(30), Val: 1}, Edit{Kind: "prefix", Len: 1 + r.N(30), Val: 1}, Edit{Kind: "insert", Region: "cd", Pos: 0, Len: 1 + r.N(20)},
				Edit{Kind: "set", Region: "eocd", Pos: 12 + r.N(8), Len: 1, Val: r.U64()}))
		default:
			es = append(es, genEdit(r, sc, 0))
		}
	}
	if r.P(15) {
		es = nil
	}
	st := sc.store(0, es...)
	op := genOp(r, st, []string{"verify", "verify", "vpath", "verify0"})
	if op.Max < 24 {
		op.Max = pick(r, anyMax, 27, 30, 33)
	}
	if r.P(30) {
		genFaults(r, sc, &op)
	}
	sc.Tasks = [][]Op{{op}}
	return sc
}

// announce varies how an artefact tells about its stronger signatures: for
// everybody or by a single one of several signers, among other announcements.
func announce(r *Rng, a *ApkSpec) {
	one := func(n int) func(i int) bool {
		k := r.N(n)
		all := r.P(60)
		return func(i int) bool { return all || i == k }
	}
	if a.V1 != nil && r.P(85) {
		a.V1 = cloneV1(a.V1)
		if len(a.V1.Signers) == 1 && r.P(30) {
			a.V1.Signers = append(a.V1.Signers, V1Signer{Key: pick(r, "vic.rsa3", "vic.ec384"), File: "SECOND"})
		}
		var tok []string
		if a.V2 != nil {
			tok = append(tok, "2")
		}
		if a.V3 != nil {
			tok = append(tok, "3")
		}
		for i := 0; i < 2; i++ {
			if r.P(35) {
				x := pick(r, "1000", "foo", "31", "", "99", "23", "32", "1")
				if r.P(50) {
					tok = append(tok, x)
				} else {
					tok = append([]string{x}, tok...)
				}
			}
		}
		if len(tok) > 1 && r.P(40) {
			tok[0], tok[len(tok)-1] = tok[len(tok)-1], tok[0]
		}
		is := one(len(a.V1.Signers))
		for i := range a.V1.Signers {
			if a.V1.Signers[i].Apk = ""; is(i) {
				a.V1.Signers[i].Apk = strings.Join(tok, pick(r, ", ", ", ", ",", " , ", ",  "))
			}
		}
	}
	if a.V2 != nil && a.V3 != nil && r.P(85) {
		a.V2 = cloneBlk(a.V2)
		if len(a.V2.Signers) == 1 && r.P(30) {
			a.V2.Signers = append(a.V2.Signers, BlkSigner{Key: pick(r, "vic.rsa3", "vic.ec384"), Algos: nil})
		}
		is := one(len(a.V2.Signers))
		for i := range a.V2.Signers {
			if a.V2.Signers[i].Strip = 0; is(i) {
				a.V2.Signers[i].Strip = 3
			}
		}
	}
	if a.V3 != nil && a.V31 != nil && r.P(85) {
		a.V3 = cloneBlk(a.V3)
		is := one(len(a.V3.Signers))
		for i := range a.V3.Signers {
			if a.V3.Signers[i].RotMin = 0; is(i) {
				a.V3.Signers[i].RotMin = a.V31.Signers[0].Min
			}
		}
	}
}

func checkC03(sc *Scenario, ctr *Counters) []Violation {
	w := buildWorld(sc)
	res := w.runAll(ctr)
	for i := range res.Out {
		for j, o := range res.Out[i] {
			op := &sc.Tasks[i][j]
			if !o.accepted() {
				ctr.Probes["rejected"]++
				continue
			}
			ctr.Probes["accepted"]++
			if v := w.stripped(w.stores[op.Store], op, o, ctr); v != nil {
				return v
			}
			for _, v := range w.refCheck(w.stores[op.Store], op, o) {
				if v.Class == "v3-passed-over" {
					return []Violation{v}
				}
			}
			if o.Scheme >= 2 {
				if p := refAccepted(w.stores[op.Store], o.Scheme, anyMin, effMax(op), false); p != nil && p.Kind == "stripped" {
					return viol(fmt.Sprintf("stripped-v%d-accepted", o.Scheme), "scheme %d accepted for platforms up to %d although %s", o.Scheme, effMax(op), p.Text)
				}
			}
			if o.Fired > 0 {
				b := w.calm(*op, o, sc.MapSeed, ctr)
				if b.accepted() && b.Scheme > o.Scheme {
					return viol("downgraded-by-io-fault", "scheme %d without, %d with read faults", b.Scheme, o.Scheme)
				}
			}
		}
	}
	return nil
}

func effMax(op *Op) int32 {
	switch op.Kind {
	case "verify0", "vpath0", "pickres":
		return anyMax
	}
	return op.Max
}

func tokens(s string) map[string]bool {
	m := map[string]bool{}
	for _, t := range strings.Split(s, ",") {
		m[strings.TrimSpace(t)] = true
	}
	return m
}

// stripped: an accepted weaker signature must not announce a stronger one that
// the stored bytes no longer carry.
func (w *World) stripped(stored []byte, op *Op, o *Outcome, ctr *Counters) []Violation {
	has := func(id uint32) bool {
		l, ok := refLayout(stored)
		return ok && l.HasBlock && !l.BlockBad && l.pair(id) != nil
	}
	if o.Scheme == 1 {
		for _, ch := range o.Chains {
			var all, n int
			for i := range w.log {
				e := &w.log[i]
				if e.Scheme != 1 || e.Key != keyOwner(ch[0]) {
					continue
				}
				one := &World{sc: w.sc, log: []SignEvent{*e}}
				if ok, _ := one.v1Covers(stored, keyOwner(ch[0]), 24, 0); !ok {
					continue
				}
				n++
				t := tokens(e.V1.Apk)
				if t["2"] && op.Max >= 24 || t["3"] && op.Max >= 28 {
					all++
				}
			}
			if n > 0 && all == n {
				return viol("stripped-to-v1", "v1 accepted for platforms up to %d although the signature file of %s announces scheme 2/3", op.Max, ch[0])
			}
		}
		return nil
	}
	l, ok := refLayout(stored)
	if !ok {
		return nil
	}
	key := contentKey(sectionsOf(stored, l))
	for _, ch := range o.Chains {
		for _, e := range w.events(o.Scheme, key) {
			if len(ch) == 0 || e.Key != ch[0] {
				continue
			}
			if o.Scheme == 2 && e.Strip == 3 && op.Max >= 28 && !has(idV3) {
				return viol("stripped-v3", "v2 accepted for platforms up to %d although it announces scheme 3, which is gone", op.Max)
			}
			if o.Scheme == 3 && e.RotMin != 0 && op.Max >= 33 && !has(idV31) {
				return viol("stripped-v31", "v3 accepted for platforms up to %d although it announces a rotation block, which is gone", op.Max)
			}
		}
	}
	return nil
}

// ---------- C04: I/O faults ----------

var faultKinds = []string{"eio", "eio", "partial", "sticky", "eof", "seek", "shrink", "sector"}

// genFaults draws faults at operations the call really performs.
func genFaults(r *Rng, sc *Scenario, op *Op) {
	w := buildWorld(sc)
	clean := *op
	clean.Env.Faults, clean.ZEnv.Faults = nil, nil
	b := w.one(clean, sc.MapSeed, newCounters())
	size := int64(len(w.stores[op.Store]))
	n := 1
	if r.P(20) {
		n = 2
	}
	for i := 0; i < n; i++ {
		f := Fault{Kind: faultKinds[r.N(len(faultKinds))]}
		env, ops := &op.Env, b.Ops
		if b.ZipOps > 0 && r.P(50) {
			env, ops = &op.ZEnv, b.ZipOps
		}
		f.At = r.N(ops)
		switch f.Kind {
		case "partial":
			f.Len = int64(r.N(64))
		case "shrink":
			f.Off = r.N64(size + 1)
			if r.P(40) {
				f.Off = size - 1 - r.N64(30)
				if f.Off < 0 {
					f.Off = 0
				}
			}
		case "sector":
			f.Len = 512
			f.Off = r.N64(size/512+1) * 512
			if l, ok := refLayout(w.stores[op.Store]); ok && r.P(60) {
				f.Off = int64(pick(r, l.EocdOff, l.CdOff, l.CdOff-24, l.SigOff, l.SigOff+r.N(l.CdOff-l.SigOff+1), l.EocdOff-20)) / 512 * 512
			}
			if r.P(30) {
				f.Len = 1
				f.Off += r.N64(512)
			}
		}
		env.Faults = append(env.Faults, f)
	}
}

func genC04(r *Rng) *Scenario {
	sc := newScenario("C04", r)
	who := pick(r, "vic", "vic", "vic", "att")
	a := genApk(r, who)
	if r.P(25) {
		genStamp(r, &a)
	}
	if r.P(10) {
		a.Frost = genFrost(r, false)
	}
	if a.V1 != nil && r.P(40) {
		a.V1 = cloneV1(a.V1)
		for i := range a.V1.Signers {
			a.V1.Signers[i].Apk = ""
		}
	}
	if r.P(25) {
		m := *a.Manifest
		m.Sandbox, m.Target = pick(r, int32(1), 2), pick(r, int32(0), 30, 33)
		a.Manifest = &m
	}
	sc.Apks = append(sc.Apks, a)
	sc.Mode = "intact"
	st := sc.store(0)
	if r.P(30) {
		sc.Mode = "tampered"
		sc.Apks = append(sc.Apks, genApk(r, "att"))
		sc.Stores[0].Edits = genEdits(r, sc, 0, 1+r.N(2))
	}
	op := genOp(r, st, []string{"verify", "verify", "verify", "vpath", "sb", "sbpath", "sbzip", "verify0", "vpath0", "ext", "sbext", "extpath"})
	if r.P(30) {
		g := v1Ranges[r.N(len(v1Ranges))]
		op.Min, op.Max = g.min, g.max
		fixOp(r, &op)
	}
	op.Env.Seeker = op.Zip == "" && r.P(25)
	genFaults(r, sc, &op)
	sc.Tasks = [][]Op{{op}}
	return sc
}

func mainVerdict(o *Outcome) string {
	c := *o
	c.Stamp, c.Frost = nil, nil
	return c.verdict()
}

// calm is what the same call returns without faults. A file cut while it is
// read has two contents which could have been seen: the verdict must be the one
// of either, never one of a mix.
func (w *World) calm(op Op, o *Outcome, mapSeed uint64, ctr *Counters) *Outcome {
	cut := append(shrinks(op.Env.Faults), shrinks(op.ZEnv.Faults)...)
	op.Env.Faults, op.ZEnv.Faults = nil, nil
	b := w.one(op, mapSeed, ctr)
	for _, off := range cut {
		if mainVerdict(o) == mainVerdict(b) {
			break
		}
		t := op
		t.Env.Trunc, t.ZEnv.Trunc = off, off
		if c := w.one(t, mapSeed, ctr); mainVerdict(o) == mainVerdict(c) {
			ctr.Probes["verdict-of-the-cut-file"]++
			return c
		}
		t.ZEnv.Trunc = 0
		if c := w.one(t, mapSeed, ctr); mainVerdict(o) == mainVerdict(c) {
			ctr.Probes["verdict-of-the-cut-file"]++
			return c
		}
	}
	return b
}

func shrinks(fs []Fault) (offs []int64) {
	for _, f := range fs {
		if f.Kind == "shrink" {
			offs = append(offs, f.Off)
		}
	}
	return
}

func stampGood(s *StampOut) bool { return s != nil && !s.Errs && !s.NoEntry && s.Cert != "nil" }

func checkC04(sc *Scenario, ctr *Counters) []Violation {
	w := buildWorld(sc)
	res := w.runAll(ctr)
	for i := range res.Out {
		for j, o := range res.Out[i] {
			op := sc.Tasks[i][j]
			if o.Fired == 0 {
				ctr.Probes["fault-not-reached"]++
			}
			if !o.accepted() || o.Budget {
				ctr.Probes["failed-closed"]++
				continue
			}
			b := w.calm(op, o, sc.MapSeed, ctr)
			ctr.Probes["accepted-despite-fault"]++
			if !b.accepted() {
				return viol("accepted-only-under-fault", "%s fails without faults (%s) but succeeds with scheme %d when reads fail", op.Kind, b.Text, o.Scheme)
			}
			if mainVerdict(o) != mainVerdict(b) {
				return viol("verdict-changed-by-fault", "%s: fault-free %s, with read faults %s", op.Kind, mainVerdict(b), mainVerdict(o))
			}
			if stampGood(o.Stamp) && (!stampGood(b.Stamp) || fmt.Sprint(*o.Stamp) != fmt.Sprint(*b.Stamp)) {
				return viol("stamp-changed-by-fault", "source stamp verified only, or differently, under read faults")
			}
			if o.Frost != nil && o.Frost.Ok && (b.Frost == nil || *o.Frost != *b.Frost) {
				return viol("frosting-changed-by-fault", "frosting verified only, or differently, under read faults")
			}
		}
	}
	return nil
}

// ---------- C05: delivery ----------

func genDelivery(r *Rng, op *Op) {
	e := &op.Env
	e.Seeker = r.P(60)
	if r.P(50) {
		e.Init = int64(r.N(100000))
	}
	switch r.N(4) {
	case 0:
		e.Chunk = 1 + r.N(7)
	case 1:
		e.Chunk = 1 + r.N(4096)
		e.Rand = 1 + r.U64()>>11
	case 2:
		e.Chunk = pick(r, 511, 512, 4096, 65536, 1<<20, 1<<20-1)
	}
	if r.P(30) {
		e.Zero = 2 + r.N(6)
	}
	e.EOFWith = r.P(40)
	e.Lat = int64(r.N(5e6))
}

func genC05(r *Rng) *Scenario {
	sc := newScenario("C05", r)
	a := genApk(r, pick(r, "vic", "att"))
	if r.P(25) {
		genStamp(r, &a)
	}
	if r.P(10) {
		a.Frost = genFrost(r, false)
	}
	if r.P(10) {
		a.Prefix = pick(r, "dex", "junk")
	}
	if a.Target > 1<<20+1 {
		a.Target = 0
	}
	sc.Apks = append(sc.Apks, a)
	sc.store(0)
	if r.P(25) {
		sc.Apks = append(sc.Apks, genApk(r, "att"))
		sc.Stores[0].Edits = genEdits(r, sc, 0, 1)
	}
	op := genOp(r, 0, []string{"verify", "verify", "verify", "vpath", "sb", "sbpath", "sbzip", "verify0", "ext", "sbext"})
	genDelivery(r, &op)
	if a.Target > 100000 && op.Env.Chunk > 0 && op.Env.Chunk < 512 {
		op.Env.Chunk += 4096
	}
	sc.Tasks = [][]Op{{op}}
	return sc
}

func checkC05(sc *Scenario, ctr *Counters) []Violation {
	w := buildWorld(sc)
	res := w.runAll(ctr)
	for i := range res.Out {
		for j, o := range res.Out[i] {
			op := sc.Tasks[i][j]
			op.Env, op.ZEnv = ReadEnv{}, ReadEnv{}
			b := w.one(op, sc.MapSeed, ctr)
			if o.Budget || b.Budget {
				continue
			}
			if b.accepted() {
				ctr.Probes["accepted"]++
			} else {
				ctr.Probes["rejected"]++
			}
			if o.verdict() != b.verdict() {
				return viol("verdict-depends-on-delivery", "%s: whole reads %s (%s), this reader %s (%s)", op.Kind, b.verdict(), b.Text, o.verdict(), o.Text)
			}
		}
	}
	return nil
}

// ---------- C06: determinism ----------

func genC06(r *Rng) *Scenario {
	sc := newScenario("C06", r)
	var a ApkSpec
	if r.P(55) {
		// several JAR signers, possibly disagreeing
		a = fromPool(r, pick(r, "vic", "att"), v1Want(r), 12)
		keys := parties["vic"].keyN(r, 2+r.N(3))
		a.V1 = genV1(r, keys)
		for i := range a.V1.Signers {
			s := &a.V1.Signers[i]
			s.File = fmt.Sprintf("S%d", i)
			if r.P(30) && len(a.Entries) > 0 {
				s.Skip = a.Entries[r.N(len(a.Entries))].Name
			}
			if r.P(20) {
				s.Byz = v1Byz[r.N(len(v1Byz))]
				s.ByzKey = vicKeys[r.N(len(vicKeys))]
			}
			if r.P(25) {
				s.Apk = pick(r, "2", "2, 3", "3")
			}
		}
	} else {
		a = genApk(r, "vic")
		if r.P(40) {
			byzBlock(r, &a)
		}
	}
	if r.P(45) {
		genStamp(r, &a)
		st := a.Stamp
		k := mustKey(st.Key)
		if k.Kind == "rsa" {
			st.Algos = [][]uint32{{aRSA256, aVRSA}, {aPSS256, aRSA256, aVRSA}, {aPSS256, aPSS512}, {aRSA256, aRSA512}, {aVRSA, aRSA256}}[r.N(5)]
		} else {
			st.Algos = [][]uint32{{aEC256, aVEC}, {aVEC, aEC256}, {aEC256, aEC512}}[r.N(3)]
		}
		if r.P(50) {
			st.Byz = pick(r, "sig-last-garbage", "sig-garbage")
		}
	}
	mixed := r.P(12)
	if mixed {
		// every kind of digest is signed and stamped
		a = genHonest(r, parties["vic"], want{v1: r.P(30), v2: true})
		a.Align = true
		var rsa []string
		for _, k := range vicKeys {
			if mustKey(k).Kind == "rsa" {
				rsa = append(rsa, k)
			}
		}
		a.V2.Signers = nil
		for i, n := r.N(3), 2+r.N(2); n > 0; i, n = i+1, n-1 {
			a.V2.Signers = append(a.V2.Signers, BlkSigner{Key: rsa[i%len(rsa)], Algos: []uint32{[]uint32{aRSA256, aVRSA, aRSA512}[i%3]}})
		}
		genStamp(r, &a)
	}
	sc.Apks = append(sc.Apks, a)
	sc.store(0)
	if !mixed && r.P(25) {
		sc.Stores[0].Edits = genEdits(r, sc, 0, 1)
	}
	op := genOp(r, 0, []string{"verify", "verify", "sb", "verify0", "ext", "pickres", "sbext"})
	sc.Tasks = [][]Op{{op}}
	return sc
}

func checkC06(sc *Scenario, ctr *Counters) []Violation {
	w := buildWorld(sc)
	op := sc.Tasks[0][0]
	a := w.one(op, sc.MapSeed, ctr)
	for k := uint64(1); k <= 3; k++ {
		clock := sc.Clock
		if op.Kind != "pickres" && hashSeed(sc.MapSeed, 7+k)%2 == 0 {
			// only the choice of the best certificate may look at the time
			clock = ClockSpec{Base: pickTime(hashSeed(sc.MapSeed, 11+k)), Tick: int64(hashSeed(sc.MapSeed, 17+k) % 4e12)}
			ctr.Faults["other-time"]++
		}
		b := w.run([][]Op{{op}}, Sched{Fixed: true}, clock, hashSeed(sc.MapSeed, k), ctr).Out[0][0]
		ctr.Faults["hash-order-permuted"]++
		if b.accepted() {
			ctr.Probes["accepted"]++
		} else {
			ctr.Probes["rejected"]++
		}
		if a.verdict() != b.verdict() {
			return viol("verdict-depends-on-run", "%s: %s (%s) in one run, %s (%s) in another (hash seed %d, clock %d)", op.Kind, a.verdict(), a.Text, b.verdict(), b.Text, k, clock.Base)
		}
	}
	return nil
}

func pickTime(x uint64) int64 {
	ts := []int64{0, -1 << 33, 1, 946684800, 1200000000, 1500000000, 1700000000, 1<<31 - 1, 1 << 31, 4102444800, 1 << 34, 253402300800}
	return ts[x%uint64(len(ts))] + int64(x>>32)%86400
}

// ---------- C07: concurrent callers ----------

func genBig(r *Rng, who string) ApkSpec {
	a := genApk(r, who)
	if r.P(20) {
		genStamp(r, &a)
	}
	if r.P(10) {
		a.Frost = genFrost(r, false)
	}
	if r.P(15) {
		byzBlock(r, &a)
	}
	return a
}

func genC07(r *Rng) *Scenario {
	sc := newScenario("C07", r)
	n := 2 + r.N(2)
	for i := 0; i < n; i++ {
		sc.Apks = append(sc.Apks, genBig(r, pick(r, "vic", "att")))
		sc.Apks[i].Target = 0
		sc.store(i)
		if r.P(20) {
			sc.Stores[i].Edits = genEdits(r, sc, i, 1)
		}
	}
	kinds := []string{"verify", "verify", "verify", "verify0", "sb", "ext", "sbext", "vpath", "sbpath", "sbzip"}
	for t := 0; t < 2+r.N(3); t++ {
		var ops []Op
		for k := 0; k < 1+r.N(2); k++ {
			op := genOp(r, r.N(n), kinds)
			if strings.HasSuffix(op.Kind, "path") {
				op.Store = t % n // one path per client
			}
			if r.P(15) {
				genFaults(r, sc, &op)
			}
			if r.P(15) {
				genDelivery(r, &op)
				if op.Env.Chunk > 0 && op.Env.Chunk < 64 {
					op.Env.Chunk += 64
				}
			}
			if r.P(12) {
				f := Fault{Kind: "stall", At: pick(r, 0, 1, 2, r.N(10), r.N(60))}
				if op.Env.Faults = append(op.Env.Faults, f); r.P(30) {
					op.ZEnv.Faults = append(op.ZEnv.Faults, f)
				}
			}
			ops = append(ops, op)
		}
		sc.Tasks = append(sc.Tasks, ops)
	}
	// two clients must not use one path at once in this model
	seen := map[int]int{}
	for t := range sc.Tasks {
		for k := range sc.Tasks[t] {
			op := &sc.Tasks[t][k]
			if !strings.HasSuffix(op.Kind, "path") && op.Kind != "vpath0" {
				continue
			}
			if o, ok := seen[op.Store]; ok && o != t {
				op.Kind = "verify"
			} else {
				seen[op.Store] = t
			}
		}
	}
	sc.Sched = Sched{Gap: pick(r, 5, 20, 60, 200, 1000, 5000, 20000), Seed: r.U64()}
	sc.Clock = genClock(r)
	if r.P(20) {
		// clients which choose among certificates: time stands still for this history
		sc.Clock = ClockSpec{Base: pickBase + pick(r, int64(0), -86400, 86400, 200*86400)}
		for t := range sc.Tasks {
			for k := range sc.Tasks[t] {
				sc.Tasks[t][k].Env.Lat, sc.Tasks[t][k].ZEnv.Lat = 0, 0
			}
		}
		for k := 1 + r.N(3); k > 0; k-- {
			g := genC13(r)
			t := r.N(len(sc.Tasks))
			if r.P(60) && len(sc.Tasks) < 5 {
				sc.Tasks = append(sc.Tasks, nil)
				t = len(sc.Tasks) - 1
			}
			sc.Tasks[t] = append(sc.Tasks[t], g.Tasks[0]...)
			if r.P(50) {
				sc.Tasks[t] = append(sc.Tasks[t], genOp(r, r.N(n), []string{"pickres"}))
			}
		}
	}
	return sc
}

func genClock(r *Rng) ClockSpec {
	c := ClockSpec{Base: 1400000000 + r.N64(6e8), Tick: r.N64(1e9)}
	for i := r.N(3); i > 0; i-- {
		c.Jumps = append(c.Jumps, Jump{At: 1 + r.N(6), Delta: r.N64(2e9) - 1e9})
	}
	return c
}

var lastRec []Pre

func checkC07(sc *Scenario, ctr *Counters) []Violation {
	w := buildWorld(sc)
	flip := sc.MapSeed%2 == 0
	solo := func() [][]*Outcome {
		var out [][]*Outcome
		for i := range sc.Tasks {
			var l []*Outcome
			for j := range sc.Tasks[i] {
				l = append(l, w.one(sc.Tasks[i][j], sc.MapSeed, ctr))
			}
			out = append(out, l)
		}
		return out
	}
	if raceBuild {
		raceReports()
		n := raceErrors()
		res := w.runAll(ctr)
		lastRec = res.Rec
		if raceErrors() > n {
			if where := libraryRace(raceReports()); where != "" {
				return viol("data-race", "%d clients: %s, and nothing orders the two", len(sc.Tasks), where)
			}
		}
		return nil
	}
	var ref [][]*Outcome
	if flip {
		ref = solo()
	}
	res := w.runAll(ctr)
	lastRec = res.Rec
	if !flip {
		ref = solo()
	}
	if res.Steps > 0 && len(res.Rec) > 0 {
		ctr.Probes["interleaved"]++
	}
	if res.BlockedBy != "" {
		return viol("concurrent-callers-block", "%s", res.BlockedBy)
	}
	for i := range res.Out {
		for j, o := range res.Out[i] {
			b := ref[i][j]
			if o.Dead {
				return viol("concurrent-callers-deadlock", "client %d call %d (%s) never got its lock", i, j, sc.Tasks[i][j].Kind)
			}
			if o.Changed != "" {
				return viol("result-changed-later", "client %d call %d (%s) returned %s, at the end it reads %s", i, j, sc.Tasks[i][j].Kind, o.parts, o.Changed)
			}
			if o.Budget || b.Budget {
				continue
			}
			if b.accepted() {
				ctr.Probes["accepted"]++
			} else {
				ctr.Probes["rejected"]++
			}
			if o.verdict() != b.verdict() && o.at.Base != 0 {
				b = w.oneAt(sc.Tasks[i][j], o.at, sc.MapSeed, ctr)
			}
			if o.verdict() != b.verdict() {
				return viol("concurrent-callers-interfere", "client %d call %d (%s): alone %s (%s), beside others %s (%s)", i, j, sc.Tasks[i][j].Kind, b.verdict(), b.Text, o.verdict(), o.Text)
			}
			if v := w.absolute(&sc.Tasks[i][j], o); v != nil {
				return v
			}
		}
	}
	return nil
}

// absolute applies the oracles that need no reference run.
func (w *World) absolute(op *Op, o *Outcome) []Violation {
	if !isVerify(op.Kind) {
		return nil
	}
	if v := w.authentic(w.stores[op.Store], op, o); v != nil {
		return []Violation{{"wrong-answer-in-history", v[0].Class + ": " + v[0].Detail}}
	}
	st := &w.sc.Stores[op.Store]
	sp := &w.sc.Apks[st.Base]
	if len(st.Edits) == 0 && calmEnv(&op.Env) && calmEnv(&op.ZEnv) && op.Fail == "" && honestSpec(sp) && !strings.HasPrefix(op.Kind, "sb") {
		if e := expectHonest(sp, op.Min, op.Max); e.ok && (!o.accepted() || o.Scheme != e.scheme) {
			return viol("wrong-answer-in-history", "an honest APK is reported as %s (%s) scheme %d, expected scheme %d", o.Err, o.Text, o.Scheme, e.scheme)
		}
	}
	return nil
}

func calmEnv(e *ReadEnv) bool {
	for _, f := range e.Faults {
		if f.Kind != "stall" {
			return false
		}
	}
	return true
}

func isVerify(k string) bool {
	switch k {
	case "verify", "verify0", "vpath", "vpath0", "sb", "sbzip", "sbpath":
		return true
	}
	return false
}

func honestSpec(sp *ApkSpec) bool {
	if sp.Prefix != "" || sp.MetaFrom != 0 {
		return false
	}
	for _, b := range []*BlkSpec{sp.V2, sp.V3, sp.V31} {
		if b == nil {
			continue
		}
		for _, s := range b.Signers {
			if s.Byz != "" || s.Lineage != nil && s.Lineage.Byz != "" || len(s.SdMut) > 0 {
				return false
			}
		}
	}
	if sp.V1 != nil {
		if len(sp.V1.Skip) > 0 || sp.V1.Byz != "" || len(sp.V1.MFMut) > 0 {
			return false
		}
		for _, s := range sp.V1.Signers {
			if s.Byz != "" || s.Skip != "" || s.NoSigVer || len(s.SFMut) > 0 || len(s.P7Mut) > 0 {
				return false
			}
		}
	}
	return sp.Manifest != nil && len(sp.Manifest.Mut) == 0 && sp.Manifest.Mode == ""
}

// ---------- C08: histories ----------

func genC08(r *Rng) *Scenario {
	sc := newScenario("C08", r)
	n := 1 + r.N(3)
	for i := 0; i < n; i++ {
		sc.Apks = append(sc.Apks, genBig(r, pick(r, "vic", "att")))
		sc.Apks[i].Target = 0
		sc.store(i)
		if r.P(25) {
			sc.Stores[i].Edits = genEdits(r, sc, i, 1)
		}
	}
	var ops []Op
	m := 3 + r.N(6)
	for k := 0; k < m; k++ {
		st := r.N(n)
		op := genOp(r, st, []string{"verify", "verify", "verify", "verify0", "sbzip", "ext", "sb", "sbext", "probezip", "vpath", "pickres"})
		switch op.Kind {
		case "verify", "verify0", "ext", "pickres", "sbzip", "probezip", "vpath":
			if r.P(70) || op.Kind == "sbzip" || op.Kind == "probezip" {
				op.Zip = "shared"
			}
		}
		if op.Kind != "vpath" && op.Kind != "probezip" {
			op.Keep = r.P(50)
		}
		if r.P(25) && op.Kind != "probezip" {
			genFaults(r, sc, &op)
		}
		if r.P(15) {
			op.Env.Chunk = 100 + r.N(1000)
		}
		ops = append(ops, op)
	}
	sc.Tasks = [][]Op{ops}
	sc.Clock = genClock(r)
	return sc
}

func checkC08(sc *Scenario, ctr *Counters) []Violation {
	w := buildWorld(sc)
	res := w.runAll(ctr)
	for j, o := range res.Out[0] {
		op := sc.Tasks[0][j]
		if o.Closed {
			return viol("caller-zip-left-in-use", "call %d (%s) returned with %s", j, op.Kind, strings.Join(o.StampT, "; "))
		}
		ref := op
		ref.Keep = false
		if ref.Zip == "shared" {
			ref.Zip = "own"
		}
		if o.Changed != "" {
			return viol("result-changed-later", "call %d (%s) returned %s, after the later calls it reads %s", j, op.Kind, o.parts, o.Changed)
		}
		b := w.oneAt(ref, o.at, sc.MapSeed, ctr)
		if o.Budget || b.Budget {
			continue
		}
		if b.accepted() {
			ctr.Probes["accepted"]++
		} else {
			ctr.Probes["rejected"]++
		}
		if o.Fired != b.Fired {
			// the fault struck another operation than in the reference; compare
			// only what must hold either way
			ctr.Probes["fault-alignment-differs"]++
			if o.accepted() {
				if v := w.absolute(&op, o); v != nil {
					return v
				}
			}
			continue
		}
		if o.verdict() != b.verdict() {
			return viol("history-dependent", "call %d (%s): alone %s (%s), after the earlier calls %s (%s)", j, op.Kind, b.verdict(), b.Text, o.verdict(), o.Text)
		}
		if v := w.absolute(&op, o); v != nil {
			return v
		}
	}
	return nil
}

// ---------- C09: no panic, no hang ----------

func genC09(r *Rng) *Scenario {
	sc := newScenario("C09", r)
	a := genApk(r, pick(r, "vic", "att"))
	if r.P(35) {
		genStamp(r, &a)
		if r.P(60) {
			a.Stamp.NoAttrs = false
			a.Stamp.AttrMut = genMuts(r, 1+r.N(2))
		}
		if r.P(35) {
			byzStamp(r, a.Stamp)
		}
		if r.P(20) {
			a.Stamp.Lineage = &LineageSpec{Byz: pick(r, linByz...)}
			if r.P(50) {
				a.Stamp.Lineage.Keys = []string{a.Stamp.Key}
			}
		}
	}
	if r.P(25) {
		a.Frost = genFrost(r, r.P(70))
		if r.P(50) {
			a.Frost.Mut = genMuts(r, 1+r.N(2))
		}
		if r.P(40) {
			a.Frost.SigMut = genMuts(r, 1+r.N(2))
		}
	}
	if r.P(40) {
		byzBlock(r, &a)
	}
	if a.V1 != nil && r.P(40) {
		byzV1(r, &a)
	}
	if r.P(45) {
		for _, b := range []**BlkSpec{&a.V2, &a.V3, &a.V31} {
			if *b != nil && r.P(60) {
				*b = cloneBlk(*b)
				s := &(*b).Signers[r.N(len((*b).Signers))]
				s.SdMut = genMuts(r, 1+r.N(2))
				if s.Lineage != nil && r.P(30) {
					s.Lineage = cloneLin(s.Lineage)
					s.Lineage.Byz = pick(r, linByz...)
				}
			}
		}
	}
	if a.V1 != nil && r.P(60) {
		a.V1 = cloneV1(a.V1)
		s := &a.V1.Signers[r.N(len(a.V1.Signers))]
		switch r.N(4) {
		case 0:
			s.SFMut = genMuts(r, 1+r.N(2))
		case 1:
			a.V1.MFMut = genMuts(r, 1+r.N(2))
		case 2:
			if s.Bag = fmt.Sprintf("cycle%d", 1+r.N(3)); r.P(30) {
				s.P7Mut = genMuts(r, 1+r.N(2))
			}
		default:
			s.P7Mut = genMuts(r, 1+r.N(2))
		}
	}
	if a.Manifest != nil && r.P(25) {
		m := *a.Manifest
		if r.P(50) {
			m.Mode = pick(r, "garbage", "truncated", "badattr")
		} else {
			m.Mut = genMuts(r, 1+r.N(2))
		}
		a.Manifest = &m
	}
	if r.P(10) {
		a.Prefix = pick(r, "dex", "junk")
	}
	if a.Target > 1<<20+1 {
		a.Target = 0
	}
	sc.Apks = append(sc.Apks, a)
	st := sc.store(0)
	if r.P(60) {
		sc.Apks = append(sc.Apks, genApk(r, "att"))
		sc.Stores[0].Edits = genEdits(r, sc, 0, 1+r.N(4))
	}
	if r.P(4) {
		sc.Stores[0].Edits = append(sc.Stores[0].Edits, Edit{Kind: "tiny", Len: pick(r, r.N(26), 18+r.N(8), 22), Val: r.U64()})
	}
	op := genOp(r, st, []string{"verify", "verify", "verify", "verify0", "vpath", "sb", "sbpath", "ext", "sbext", "extpath", "sbextpath", "pickres"})
	if r.P(20) {
		g := v1Ranges[r.N(len(v1Ranges))]
		op.Min, op.Max = g.min, g.max
		fixOp(r, &op)
	}
	if r.P(10) {
		op.Min, op.Max = pick(r, int32(-1), 0, 1, 24, 28, -5, anyMax), pick(r, int32(0), 1, 23, 24, 27, 28, 33, anyMax, -1, 10000)
		fixOp(r, &op)
	}
	sc.Tasks = [][]Op{{op}}
	if r.P(25) {
		f := Fault{Kind: faultKinds[r.N(len(faultKinds))], At: r.N(60), Len: int64(r.N(64)), Off: int64(r.N(20000))}
		sc.Tasks[0][0].Env.Faults = []Fault{f}
	}
	if r.P(15) {
		genDelivery(r, &sc.Tasks[0][0])
		if c := &sc.Tasks[0][0].Env.Chunk; *c > 0 && *c < 64 {
			*c += 64
		}
	}
	return sc
}

func checkC09(sc *Scenario, ctr *Counters) []Violation {
	w := buildWorld(sc)
	res := w.runAll(ctr)
	for i := range res.Out {
		for j, o := range res.Out[i] {
			if o.accepted() {
				ctr.Probes["accepted"]++
			} else {
				ctr.Probes["rejected"]++
			}
			if o.Panic != "" {
				f := o.Panic
				if k := strings.Index(f, ": "); k > 0 {
					f = f[:k]
				}
				return viol("panic in "+f, "%s panics: %s", sc.Tasks[i][j].Kind, o.Panic)
			}
			if o.Budget {
				return viol("no-progress", "%s executed %d statements without finishing", sc.Tasks[i][j].Kind, int64(stepBudget))
			}
		}
	}
	return nil
}

// ---------- C10: handles ----------

func genC10(r *Rng) *Scenario {
	sc := newScenario("C10", r)
	a := genBig(r, pick(r, "vic", "att"))
	sc.Apks = append(sc.Apks, a)
	sc.store(0)
	if r.P(40) {
		sc.Stores[0].Edits = genEdits(r, sc, 0, 1+r.N(2))
	}
	var ops []Op
	for i := 0; i <= r.N(3); i++ {
		op := genOp(r, 0, []string{"vpath", "vpath", "vpath0", "sbpath", "extpath", "sbextpath"})
		op.Zip = pick(r, "", "", "own")
		if op.Kind == "sbpath" || op.Kind == "sbextpath" {
			op.Zip = ""
		}
		switch r.N(4) {
		case 0, 1:
			genFaults(r, sc, &op)
		case 2:
			if r.P(50) {
				op.Fail = pick(r, "enoent", "emfile", "eacces")
			}
		}
		ops = append(ops, op)
	}
	sc.Tasks = [][]Op{ops}
	return sc
}

func checkC10(sc *Scenario, ctr *Counters) []Violation {
	w := buildWorld(sc)
	res := w.runAll(ctr)
	for i := range res.Out {
		for j, o := range res.Out[i] {
			op := &sc.Tasks[i][j]
			ctr.Probes["path-calls"]++
			if o.Err != "" {
				ctr.Probes["path-calls-failing"]++
			}
			if o.Leaked != 0 {
				return viol("handle-leak", "%s returned (%s) with %d file(s) still open", op.Kind, o.Err, o.Leaked)
			}
			if o.After != 0 {
				return viol("use-after-close", "%s used the file after closing it", op.Kind)
			}
			if op.Fail != "" && o.Err == "" && o.Panic == "" {
				return viol("open-failure-ignored", "%s succeeded although the file could not be opened", op.Kind)
			}
		}
	}
	return nil
}

// ---------- C11: source stamp ----------

func genC11(r *Rng) *Scenario {
	sc := newScenario("C11", r)
	stampWant := func() want {
		if r.P(12) { // a JAR signature and a stamp, no signing block scheme
			return want{v1: true}
		}
		return blockWant(r)
	}
	a := fromPool(r, "vic", stampWant(), 10)
	genStamp(r, &a)
	sc.Apks = append(sc.Apks, a)
	b := fromPool(r, pick(r, "vic", "att"), stampWant(), 10)
	genStamp(r, &b)
	switch r.N(8) {
	case 0:
		sc.Mode = "intact"
		sc.store(0)
	case 7: // a broken v3 signature beside the v2 one, which then counts
		sc.Mode = "fallback"
		a = fromPool(r, "vic", want{v1: r.P(60), v2: true, v3: true}, 10)
		genStamp(r, &a)
		sc.Apks[0] = a
		sc.store(0, Edit{Kind: "flip", Region: "pair", ID: idV3, Pos: r.N(4000), Val: r.U64()})
	case 1, 6:
		sc.Mode = "byzantine"
		byzStamp(r, b.Stamp)
		sc.Apks = append(sc.Apks, b)
		sc.store(1)
	case 2:
		sc.Mode = "lineage"
		b.Stamp.NoAttrs = false
		b.Stamp.Lineage = &LineageSpec{Keys: []string{pick(r, "vic.rsa", "vic.ec256"), pick(r, "vic.rsa2", "vic.ec384"), b.Stamp.Key}, Byz: linByz[r.N(len(linByz))]}
		b.Stamp.LinFirst = r.P(60)
		switch r.N(7) {
		case 6: // nobody in it
			b.Stamp.Lineage.Byz = "empty"
		case 0, 1: // does not end in the stamping key
			b.Stamp.Lineage.Keys = b.Stamp.Lineage.Keys[:2]
			b.Stamp.Lineage.Byz = ""
		case 2: // begins with the stamping key
			b.Stamp.Lineage.Keys = []string{b.Stamp.Key, pick(r, "vic.rsa2", "vic.ec384"), "vic.rsa3"}[:2+r.N(2)]
			b.Stamp.Lineage.Byz = ""
		case 3:
			b.Stamp.Lineage.Byz = ""
		}
		sc.Apks = append(sc.Apks, b)
		sc.store(1)
	case 3, 4:
		sc.Mode = "replay"
		if r.P(60) {
			b = sc.Apks[0]
			mutateContents(r, &b)
		}
		if r.P(30) {
			b.Stamp = nil
		}
		sc.Apks = append(sc.Apks, b)
		sc.store(1, Edit{Kind: "graft-pair", ID: idStamp, From: 0})
		if r.P(20) {
			st := *sc.Apks[0].Stamp
			if b.Stamp != nil {
				b.Stamp = &st
			}
		}
	default:
		if r.P(35) {
			sc.Mode = "stripped"
			if sc.store(0, Edit{Kind: "drop-pair", ID: idStamp}); r.P(40) { // or never had one
				sc.Apks[0].Stamp = nil
			}
			break
		}
		sc.Mode = "corrupt"
		sc.Apks = append(sc.Apks, b)
		es := []Edit{{Kind: "flip", Region: "pair", ID: idStamp, Pos: r.N(4000), Val: r.U64()}}
		if r.P(30) {
			es = genEdits(r, sc, 0, 1)
		}
		if r.P(30) {
			es = append(es, Edit{Kind: "dup-pair", ID: idStamp, From: 2 * r.N(2), Val: r.U64(), Len: r.N(2)})
		}
		sc.store(0, es...)
	}
	op := genOp(r, 0, []string{"verify", "verify", "sb", "verify0", "sbzip"})
	if op.Max < 24 && op.Kind[:2] == "sb" {
		op.Max = anyMax
	}
	if sc.Mode == "fallback" && r.P(75) {
		op.Kind, op.Min, op.Max = pick(r, "verify", "sb", "sbzip"), pick(r, int32(23), 24, 24, 27), pick(r, int32(28), 30, 33, anyMax)
	}
	if r.P(20) {
		genFaults(r, sc, &op)
	}
	sc.Tasks = [][]Op{{op}}
	return sc
}

func mfHash(stored []byte) string {
	zv := viewZip(stored)
	for h := range zv.sums["META-INF/MANIFEST.MF"] {
		return h
	}
	h := sha256.Sum256(nil)
	return string(h[:])
}

func checkC11(sc *Scenario, ctr *Counters) []Violation {
	w := buildWorld(sc)
	res := w.runAll(ctr)
	op := sc.Tasks[0][0]
	o := res.Out[0][0]
	stored := w.stores[op.Store]
	st := &sc.Stores[op.Store]
	sp := &sc.Apks[st.Base]
	faulty := len(op.Env.Faults)+len(op.ZEnv.Faults) > 0
	if o.accepted() && stampGood(o.Stamp) {
		ctr.Probes["stamp-verified"]++
		l, ok := refLayout(stored)
		if !ok {
			return viol("stamp-without-layout", "stamp verified on an archive without a coherent directory")
		}
		key := contentKey(sectionsOf(stored, l))
		var m *SignEvent
		for i := range w.log {
			e := &w.log[i]
			if e.Scheme != 100 || e.Key != o.Stamp.Cert {
				continue
			}
			if o.Scheme >= 2 && e.Content != key {
				continue
			}
			if o.Scheme == 1 && e.MF != mfHash(stored) {
				continue
			}
			if e.Time != o.Stamp.Time {
				continue
			}
			m = e
			break
		}
		if m == nil {
			return viol("forged-stamp", "stamp of %s reported as verified (scheme %d, time %d), but it never stamped these contents that way", o.Stamp.Cert, o.Scheme, o.Stamp.Time)
		}
		var names []string
		for i, x := range o.Stamp.Lineage {
			f := strings.Split(x, "/")
			names = append(names, f[0])
			if i > 0 && !w.attested(names[i-1], f[0]) {
				return viol("forged-stamp-lineage", "stamp lineage %v: %s never attested %s", names, names[i-1], f[0])
			}
		}
		if len(names) > 0 && names[len(names)-1] != o.Stamp.Cert {
			return viol("stamp-lineage-not-of-stamp", "stamp lineage %v does not end in %s", names, o.Stamp.Cert)
		}
		if p := refStamp(stored, o, effMax(&op)); p != "" {
			return viol("invalid-stamp-accepted", "stamp of %s reported as verified, but: %s", o.Stamp.Cert, p)
		}
		if (m.Lineage == nil) != (len(names) == 0) {
			return viol("stamp-lineage-lost", "stamp lineage reported %v", names)
		}
	} else if o.accepted() {
		ctr.Probes["stamp-not-verified"]++
	}
	if faulty {
		return nil
	}
	// a missing stamp is reported as none, a stripped one as an error of the stamp
	if l, ok := refLayout(stored); ok && l.HasBlock && !l.BlockBad && o.accepted() && o.Scheme >= 2 && l.pair(idStamp) == nil {
		if _, entry := viewZip(stored).sums["stamp-cert-sha256"]; !entry {
			ctr.Probes["no-stamp"]++
			if o.Stamp != nil {
				return viol("stamp-from-nowhere", "an APK without a stamp is reported with one (errors: %v)", o.StampT)
			}
		} else {
			ctr.Probes["stripped-stamp"]++
			if o.Stamp == nil || !o.Stamp.Errs {
				return viol("stripped-stamp-unnoticed", "the file stamp-cert-sha256 names a stamp which isn't in the signing block, but the result doesn't say so")
			}
		}
	}
	// the stamp never changes the answer about the APK itself
	if l, ok := refLayout(stored); ok && l.HasBlock && !l.BlockBad && l.pair(idStamp) != nil {
		c := *sc
		c.Stores = append(append([]StoreSpec(nil), sc.Stores...), StoreSpec{Base: st.Base, Edits: append(append([]Edit(nil), st.Edits...), Edit{Kind: "drop-pair", ID: idStamp})})
		w2 := buildWorld(&c)
		op2 := op
		op2.Store = len(c.Stores) - 1
		b := w2.one(op2, sc.MapSeed, ctr)
		if o.Panic != "" && b.Panic == "" && !b.Budget {
			return viol("stamp-changes-verdict", "with the stamp the call panics (%s), without it %s", o.Panic, mainVerdict(b))
		}
		if mainVerdict(b) != mainVerdict(o) && !o.Budget && !b.Budget && o.Panic == "" {
			return viol("stamp-changes-verdict", "with the stamp %s (%s), without it %s (%s)", mainVerdict(o), o.Text, mainVerdict(b), b.Text)
		}
	}
	// an honest stamp verifies
	fellBack := len(st.Edits) == 1 && st.Edits[0].Kind == "flip" && st.Edits[0].ID == idV3 && st.Edits[0].Region == "pair" && o.Scheme == 2 && sp.Stamp != nil
	if (len(st.Edits) == 0 || fellBack) && honestSpec(sp) && sp.Stamp.Byz == "" && sp.Stamp.EntryOf == "" && len(sp.Stamp.AttrMut) == 0 {
		lin := sp.Stamp.Lineage
		if lin != nil && (lin.Byz != "" || lin.Keys[len(lin.Keys)-1] != sp.Stamp.Key) {
			return nil
		}
		e := expectHonest(sp, op.Min, op.Max)
		m := effMin(sp, op.Min)
		if strings.HasPrefix(op.Kind, "sb") {
			m = op.Min
			if op.Min == anyMin {
				m = 0
			}
		}
		lowest := int32(100)
		for _, a := range sp.Stamp.Algos {
			v := map[uint32]int32{aPSS256: 23, aPSS512: 23, aRSA256: 1, aRSA512: 1, aEC256: 11, aEC512: 11}[a]
			if v < lowest {
				lowest = v
			}
		}
		if fellBack {
			e.ok = true
			ctr.Probes["stamp-beside-fallback"]++
		}
		if e.ok && m >= lowest && o.accepted() && !stampGood(o.Stamp) {
			return viol("honest-stamp-rejected", "an honest stamp was not verified: %v", o.StampT)
		}
	}
	return nil
}

// ---------- C12: frosting ----------

func genC12(r *Rng) *Scenario {
	sc := newScenario("C12", r)
	w := blockWant(r)
	a := fromPool(r, "vic", w, 10)
	a.Frost = genFrost(r, false)
	sc.Apks = append(sc.Apks, a)
	b := fromPool(r, pick(r, "vic", "att"), blockWant(r), 10)
	switch r.N(5) {
	case 0:
		sc.Mode = "intact"
		sc.store(0)
	case 1:
		sc.Mode = "byzantine"
		b.Frost = genFrost(r, true)
		if r.P(25) {
			b.Frost.Key = pick(r, "att.ec256", "vic.ec256")
			if r.P(50) {
				b.Frost.Byz = ""
			}
		}
		sc.Apks = append(sc.Apks, b)
		sc.store(1)
	case 2:
		sc.Mode = "replay"
		b = sc.Apks[0]
		mutateContents(r, &b)
		b.Frost = nil
		sc.Apks = append(sc.Apks, b)
		sc.store(1, Edit{Kind: "graft-pair", ID: idFrost, From: 0})
	case 3:
		sc.Mode = "v2-swap"
		sc.Apks = append(sc.Apks, b)
		sc.store(0, pick(r, Edit{Kind: "graft-pair", ID: idV2, From: 1}, Edit{Kind: "drop-pair", ID: idV2}, Edit{Kind: "flip", Region: "pair", ID: idV2, Pos: r.N(3000), Val: r.U64()}, Edit{Kind: "dup-pair", ID: idV2, From: 2, Len: r.N(2)}))
	default:
		sc.Mode = "corrupt"
		sc.Apks = append(sc.Apks, b)
		e := Edit{Kind: "flip", Region: pick(r, "pair", "pair", "data", "cd", "eocd"), ID: idFrost, Pos: r.N(200), Val: r.U64()}
		if r.P(40) {
			e = genEdit(r, sc, 0)
		}
		sc.store(0, e)
	}
	op := genOp(r, 0, []string{"sb", "sb", "verify", "sbzip"})
	if r.P(15) {
		genFaults(r, sc, &op)
	}
	sc.Tasks = [][]Op{{op}}
	return sc
}

func checkC12(sc *Scenario, ctr *Counters) []Violation {
	w := buildWorld(sc)
	res := w.runAll(ctr)
	op := sc.Tasks[0][0]
	o := res.Out[0][0]
	stored := w.stores[op.Store]
	st := &sc.Stores[op.Store]
	sp := &sc.Apks[st.Base]
	// frosting never changes the answer about the APK itself, and is reported when it is there
	if l, ok := refLayout(stored); ok && l.HasBlock && !l.BlockBad && len(op.Env.Faults)+len(op.ZEnv.Faults) == 0 {
		if l.pair(idFrost) == nil {
			if o.Frost != nil {
				return viol("frosting-from-nowhere", "an APK without frosting is reported with one (%v)", o.StampT)
			}
			ctr.Probes["no-frosting"]++
		} else {
			if o.accepted() && o.Scheme >= 2 && o.Frost == nil {
				return viol("frosting-unreported", "the signing block has frosting, but the result has none")
			}
			c := *sc
			c.Stores = append(append([]StoreSpec(nil), sc.Stores...), StoreSpec{Base: st.Base, Edits: append(append([]Edit(nil), st.Edits...), Edit{Kind: "drop-pair", ID: idFrost})})
			w2 := buildWorld(&c)
			op2 := op
			op2.Store = len(c.Stores) - 1
			b := w2.one(op2, sc.MapSeed, ctr)
			if o.Panic != "" && b.Panic == "" && !b.Budget {
				return viol("frosting-changes-verdict", "with the frosting the call panics (%s), without it %s", o.Panic, mainVerdict(b))
			}
			if mainVerdict(b) != mainVerdict(o) && !o.Budget && !b.Budget && o.Panic == "" {
				return viol("frosting-changes-verdict", "with the frosting %s (%s), without it %s (%s)", mainVerdict(o), o.Text, mainVerdict(b), b.Text)
			}
			ctr.Probes["compared-without-frosting"]++
		}
	}
	if o.Panic != "" {
		return nil
	}
	if o.Frost != nil && o.Frost.Ok && o.res != nil {
		ctr.Probes["frosting-verified"]++
		l, ok := refLayout(stored)
		if !ok {
			return viol("frosting-without-layout", "frosting verified on an archive without a coherent directory")
		}
		fh := string(frostFileHash(sectionsOf(stored, l), l.pair(idV2)))
		found := false
		for i := range w.log {
			e := &w.log[i]
			if e.Scheme == 101 && e.Content == fh && "ok" == frostInfoOk(w, e, o) {
				found = true
			}
		}
		if p := refFrost(stored, o); p != "" {
			return viol("invalid-frosting-accepted", "frosting reported as genuine (info %s), but: %s", o.Frost.Info, p)
		}
		if !found {
			return viol("forged-frosting", "frosting reported as genuine (info %s) but the store never issued it for this file", o.Frost.Info)
		}
	} else if o.Frost != nil {
		ctr.Probes["frosting-rejected"]++
	}
	if !frostSwapped {
		return nil
	}
	if len(st.Edits) == 0 && len(op.Env.Faults)+len(op.ZEnv.Faults) == 0 && sp.Frost != nil && sp.Frost.Byz == "" && sp.Frost.Key == "play.ec256" && o.accepted() {
		if o.Frost == nil || !o.Frost.Ok {
			return viol("honest-frosting-rejected", "a genuine frosting was not verified: %v", o.StampT)
		}
	}
	return nil
}

var frostSwapped = true

func frostInfoOk(w *World, e *SignEvent, o *Outcome) string {
	f := w.sc.Apks[e.Apk].Frost
	info := filler(hashSeed(uint64(f.Info), 11), f.Info)
	if f.Info < 1 {
		info = []byte{1}
	}
	h := sha256.Sum256(info)
	if o.Frost.Info == fmt.Sprintf("%d:%x", len(info), h[:6]) {
		return "ok"
	}
	return "info"
}

// ---------- C13: picking a certificate ----------

func genC13(r *Rng) *Scenario {
	sc := newScenario("C13", r)
	sc.Apks = []ApkSpec{{}}
	sc.store(0)
	calls := 1
	if r.P(30) { // a process which picks more than once
		calls = 2 + r.N(4)
	}
	sc.Tasks = [][]Op{nil}
	for ; calls > 0; calls-- {
		op := Op{Kind: "pick"}
		n := 1 + r.N(5)
		if r.P(20) {
			n = 10 + r.N(10)
		}
		one := r.N(4)
		same := r.P(70)
		for i := 0; i < n; i++ {
			c := r.N(pickSpace)
			if same {
				c = c/4*4 + one
			}
			op.Certs = append(op.Certs, c)
		}
		op.Perm = 1 + r.U64()>>11
		sc.Tasks[0] = append(sc.Tasks[0], op)
	}
	sc.Clock = ClockSpec{Base: pickBase + pick(r, int64(0), -86400, 86400, 30*86400, -399*86400, 200*86400, 4000*86400), Tick: pick(r, int64(0), 0, 1e9, 3600*1e9)}
	for i := r.N(3); i > 0; i-- {
		sc.Clock.Jumps = append(sc.Clock.Jumps, Jump{At: 1 + r.N(8), Delta: pick(r, int64(-1), 1) * pick(r, int64(3600), 86400*2, 86400*60, 86400*400)})
	}
	return sc
}

// pickRef is the documented preference evaluated at one instant: the strongest
// signature algorithm, then certificates valid at that instant, then the most
// recently issued, then the longest lived, then a fixed tie-break.
func pickRef(idx []int, at int64) string {
	best := -1
	for _, i := range idx {
		if best < 0 || pickBetter(i, best, at) {
			best = i
		}
	}
	return certName(pickChain(best)[0])
}

func pickBetter(i, j int, at int64) bool {
	a, b := pickChain(i)[0], pickChain(j)[0]
	if a.SignatureAlgorithm != b.SignatureAlgorithm {
		return a.SignatureAlgorithm > b.SignatureAlgorithm
	}
	va := a.NotBefore.Unix() <= at && at <= a.NotAfter.Unix()
	vb := b.NotBefore.Unix() <= at && at <= b.NotAfter.Unix()
	if va != vb {
		return va
	}
	if !a.NotBefore.Equal(b.NotBefore) {
		return a.NotBefore.After(b.NotBefore)
	}
	if !a.NotAfter.Equal(b.NotAfter) {
		return a.NotAfter.After(b.NotAfter)
	}
	return string(a.Raw) > string(b.Raw)
}

func checkC13(sc *Scenario, ctr *Counters) []Violation {
	w := buildWorld(sc)
	for i, o := range w.runAll(ctr).Out[0] {
		if v := checkPick(sc, &sc.Tasks[0][i], o, ctr); v != nil {
			return v
		}
	}
	return nil
}

func checkPick(sc *Scenario, op *Op, o *Outcome, ctr *Counters) []Violation {
	if o.Panic != "" {
		return nil
	}
	if strings.Contains(o.Picked, "!") {
		return viol("pick-corrupts", "picking reports %s", o.Picked)
	}
	// every instant the simulated clock showed during the call
	cands := map[string]bool{}
	at := sc.Clock.Base
	ns := int64(0)
	cands[pickRef(op.Certs, at)] = true
	for k := 1; k <= 400; k++ {
		ns += sc.Clock.Tick
		for _, j := range sc.Clock.Jumps {
			if j.At == k {
				ns += j.Delta * 1e9
			}
		}
		cands[pickRef(op.Certs, at+floorDiv(ns, 1e9))] = true
		if sc.Clock.Tick == 0 && k > 40 {
			break
		}
	}
	if len(op.Certs) > 1 {
		ctr.Probes["choice"]++
	}
	if len(cands) > 1 {
		ctr.Probes["answer-depends-on-instant"]++
	}
	if !cands[o.Picked] {
		var l []string
		for c := range cands {
			l = append(l, c)
		}
		sort.Strings(l)
		return viol("pick-not-best", "picked %s, the best certificate at the instants of the call is %v", o.Picked, l)
	}
	return nil
}

// ---------- C14: lineage ----------

func genC14(r *Rng) *Scenario {
	sc := newScenario("C14", r)
	a := fromPool(r, "vic", pick(r, want{v3: true}, want{v2: true, v3: true}, want{v1: true, v2: true, v3: true}, want{v3: true, v31: true}, want{v2: true, v3: true, v31: true}), 12)
	// give the newest signer a longer history
	bs := &a.V3
	if a.V31 != nil && r.P(60) {
		bs = &a.V31
	}
	*bs = cloneBlk(*bs)
	s := &(*bs).Signers[len((*bs).Signers)-1]
	sc.Apks = append(sc.Apks, a)
	return finishC14(r, sc, bs, s)
}

func finishC14(r *Rng, sc *Scenario, bs **BlkSpec, s *BlkSigner) *Scenario {
	keys := parties["vic"].keyN(r, 6)
	var lin []string
	n := 1 + r.N(3)
	for _, k := range keys {
		if k != s.Key && len(lin) < n {
			lin = append(lin, k)
		}
	}
	lin = append(lin, s.Key)
	l := &LineageSpec{Keys: lin}
	for _, k := range lin {
		al := algosFor(mustKey(k))
		x := al[r.N(len(al))]
		l.Algos = append(l.Algos, x)
		l.Flags = append(l.Flags, int32(1+r.N(31)))
	}
	if r.P(15) {
		l.Flags[r.N(len(l.Flags))] = pick(r, int32(0), 32, 0x100, 0x7fffffff, -1)
	}
	s.Lineage = l
	sc.Mode = "honest"
	if (*bs) != nil && len((*bs).Signers) == 1 && s.Max-s.Min > 3 && r.P(25) {
		// signers for older platforms with a part of the history, or another one
		old := *s
		cut := s.Min + 2
		old.Max, s.Min = cut-1, cut
		ol := &LineageSpec{Keys: append([]string(nil), l.Keys...), Algos: append([]uint32(nil), l.Algos...), Flags: append([]int32(nil), l.Flags...)}
		sc.Mode = "two-histories"
		if n := len(ol.Keys); n > 2 && r.P(60) {
			ol.Keys, ol.Algos, ol.Flags = ol.Keys[:n-1], ol.Algos[:n-1], ol.Flags[:n-1]
		}
		end := len(ol.Keys) - 1
		switch r.N(5) {
		case 0:
			ol.Flags[r.N(end+1)] ^= 1
		case 1, 2: // diverges after the first
			for _, k := range keys {
				if in := strings.Contains("|"+strings.Join(l.Keys, "|")+"|", "|"+k+"|"); !in && end > 0 {
					ol.Keys[end] = k
					ol.Algos[end] = defaultAlgo(mustKey(k))
				}
			}
		case 3:
			if al := algosFor(mustKey(ol.Keys[0])); true {
				ol.Algos[0] = al[r.N(len(al))]
			}
		}
		old.Key, old.Lineage = ol.Keys[end], ol
		old.Algos = genAlgos(r, mustKey(old.Key), sc.Apks[0].Align)
		(*bs).Signers = []BlkSigner{old, *s}
		sc.store(0)
		op := genOp(r, 0, []string{"verify", "sb", "verify0", "sb"})
		if op.Max < 28 {
			op.Min, op.Max = 28, anyMax
		}
		sc.Tasks = [][]Op{{op}}
		return sc
	}
	switch r.N(6) {
	case 0:
	case 1, 2, 3:
		l.Byz = linByz[r.N(len(linByz))]
		sc.Mode = "byzantine-" + l.Byz
	case 4:
		sc.Mode = "other-end" // the history ends in somebody else
		l.Keys = append([]string(nil), l.Keys[:len(l.Keys)-1]...)
		l.Algos, l.Flags = l.Algos[:len(l.Keys)], l.Flags[:len(l.Keys)]
	case 5:
		sc.Mode = "extended" // the signer is in the middle of the history
		for _, k := range keys {
			in := false
			for _, x := range l.Keys {
				in = in || x == k
			}
			if !in {
				l.Keys = append(l.Keys, k)
				break
			}
		}
	}
	st := sc.store(0)
	if r.P(15) {
		sc.Stores[0].Edits = []Edit{{Kind: "flip", Region: "pair", ID: pick(r, uint32(idV3), uint32(idV31)), Pos: r.N(4000), Val: r.U64()}}
	}
	op := genOp(r, st, []string{"verify", "sb", "verify0", "sb"})
	if op.Max < 28 {
		op.Min, op.Max = 28, anyMax
	}
	sc.Tasks = [][]Op{{op}}
	return sc
}

func checkC14(sc *Scenario, ctr *Counters) []Violation {
	if v := judge(sc, ctr, func(c string) bool { return strings.Contains(c, "lineage") || strings.Contains(c, "rotation") }); v != nil {
		return v
	}
	// a fallback answer must not carry the history of the rejected scheme, and
	// an honest history is reported in full
	w := buildWorld(sc)
	o := w.runAll(ctr).Out[0][0]
	op := &sc.Tasks[0][0]
	if l, ok := refLayout(w.stores[op.Store]); o.accepted() && o.Scheme >= 3 && ok {
		lineage := func(scheme int, id uint32, got []string) []Violation {
			ss, p := refBlock(scheme, l.pair(id), sectionsOf(w.stores[op.Store], l))
			if p != nil {
				return nil
			}
			var longest []refNode
			for i := range ss {
				if len(ss[i].Lineage) > len(longest) {
					longest = ss[i].Lineage
				}
			}
			var want []string
			for i := range longest {
				want = append(want, longest[i].String())
			}
			n := len(got)
			if n > 0 {
				n--
			}
			if strings.Join(want, " ") != strings.Join(got[:n], " ") {
				return viol("lineage-reported-wrong", "scheme %d: the history in the file is %v, reported is %v", scheme, want, got)
			}
			if len(want) > 0 {
				ctr.Probes["histories-reported"]++
			}
			return nil
		}
		id := uint32(idV3)
		if o.Scheme == 31 {
			id = idV31
		}
		if v := lineage(o.Scheme, id, o.Lineage); v != nil {
			return v
		}
		if o.Scheme == 31 && o.Extra3 != nil {
			if v := lineage(3, idV3, o.Extra3.Lineage); v != nil {
				return v
			}
		}
	}
	if o.accepted() && o.Scheme <= 2 && (len(o.Lineage) > 0) {
		return viol("lineage-of-rejected-scheme", "scheme %d accepted, but a rotation history %v is reported", o.Scheme, o.Lineage)
	}
	return nil
}

// ---------- C15: extraction ----------

func genC15(r *Rng) *Scenario {
	sc := newScenario("C15", r)
	a := genApk(r, pick(r, "vic", "att"))
	if a.V1 != nil && r.P(20) {
		k := parties["vic"].keyN(r, 2)
		a.V1 = genV1(r, k)
		for i := range a.V1.Signers {
			a.V1.Signers[i].File = fmt.Sprintf("S%d", i)
		}
	}
	if a.V1 != nil && r.P(20) { // peculiar signature blocks which some platforms accept
		s := &a.V1.Signers[r.N(len(a.V1.Signers))]
		s.Byz = v1Byz[r.N(len(v1Byz))]
		s.ByzKey = pick(r, "vic.rsa", "vic.rsa2", "vic.ec256")
		s.Attrs = s.Attrs || strings.HasPrefix(s.Byz, "attr-")
		if r.P(60) {
			a.V2, a.V3, a.V31 = nil, nil, nil
			s.Apk = ""
		}
	}
	sc.Apks = append(sc.Apks, a)
	sc.store(0)
	if r.P(30) {
		sc.Apks = append(sc.Apks, genApk(r, "att"))
		sc.Stores[0].Edits = genEdits(r, sc, 0, 1)
	}
	op := genOp(r, 0, []string{"ext", "ext", "extpath", "sbext", "sbextpath"})
	if op.Kind == "sbext" || op.Kind == "sbextpath" {
		op.Max = anyMax
		op.Min = 28
	}
	if r.P(30) {
		genDelivery(r, &op)
		if op.Env.Chunk > 0 && op.Env.Chunk < 64 {
			op.Env.Chunk += 64
		}
	}
	sc.Tasks = [][]Op{{op}}
	return sc
}

func checkC15(sc *Scenario, ctr *Counters) []Violation {
	w := buildWorld(sc)
	op := sc.Tasks[0][0]
	x := w.runAll(ctr).Out[0][0]
	v := w.one(Op{Kind: "verify", Store: op.Store, Min: 28, Max: anyMax}, sc.MapSeed, ctr)
	if !v.accepted() {
		v = w.one(Op{Kind: "verify", Store: op.Store, Min: anyMin, Max: anyMax}, sc.MapSeed, ctr)
	}
	if !v.accepted() || x.Panic != "" || x.Budget {
		ctr.Probes["not-verifiable"]++
		return nil
	}
	ctr.Probes["verifiable"]++
	sbOnly := strings.HasPrefix(op.Kind, "sb")
	if v.Scheme == 1 {
		if sbOnly {
			if x.Err == "" {
				return viol("extract-without-block", "signing block certificates extracted although only v1 verifies")
			}
			return nil
		}
		// in the same order; only a signature file which covers nothing or does
		// not belong to this manifest plays no role when verifying
		i := 0
		for _, ch := range x.Chains {
			if i < len(v.Chains) && fmt.Sprint(ch) == fmt.Sprint(v.Chains[i]) {
				i++
			}
		}
		if i < len(v.Chains) || len(x.Chains)-i > refIdleSF(w.stores[op.Store]) {
			return viol("extract-differs", "verification reports %v, extraction %v (%s)", v.Chains, x.Chains, x.Text)
		}
		if x.Err != "" {
			return viol("extract-fails", "verification reports %v, extraction fails: %s", v.Chains, x.Text)
		}
		return nil
	}
	best := 2
	l, _ := refLayout(w.stores[op.Store])
	if l != nil && l.pair(idV31) != nil {
		best = 31
	} else if l != nil && l.pair(idV3) != nil {
		best = 3
	}
	if v.Scheme != best {
		return nil
	}
	if x.Err != "" || fmt.Sprint(x.Chains) != fmt.Sprint(v.Chains) {
		return viol("extract-differs", "verification (scheme %d) reports %v, extraction %v (%s)", v.Scheme, v.Chains, x.Chains, x.Text)
	}
	return nil
}

// ---------- C16: honest APKs verify ----------

func genC16(r *Rng) *Scenario {
	sc := newScenario("C16", r)
	a := genHonest(r, parties[pick(r, "vic", "att")], genWant(r))
	if a.Target > 0 && r.P(50) {
		a.Target = 0
	}
	if r.P(20) {
		genStamp(r, &a)
	}
	if r.P(10) {
		a.Frost = genFrost(r, false)
	}
	sc.Apks = append(sc.Apks, a)
	sc.store(0)
	sc.Tasks = [][]Op{{}}
	for i := 0; i < 3; i++ {
		op := genOp(r, 0, []string{"verify", "verify", "verify0", "vpath", "sb", "sbzip"})
		if r.P(30) {
			genDelivery(r, &op)
			if op.Env.Chunk > 0 && op.Env.Chunk < 256 {
				op.Env.Chunk += 256
			}
		}
		sc.Tasks[0] = append(sc.Tasks[0], op)
	}
	return sc
}

func honestChains(sp *ApkSpec, scheme int) [][]string {
	var out [][]string
	add := func(bs *BlkSpec) {
		for _, s := range bs.Signers {
			var ch []string
			for _, c := range mustKey(s.Key).Chain() {
				ch = append(ch, keyByCert[string(c)].Name)
			}
			out = append(out, ch)
		}
	}
	switch scheme {
	case 31:
		add(sp.V31)
	case 3:
		add(sp.V3)
	case 2:
		add(sp.V2)
	case 1:
		for _, s := range sp.V1.Signers {
			var ch []string
			for _, c := range mustKey(s.Key).Chain() {
				ch = append(ch, keyByCert[string(c)].Name)
			}
			out = append(out, ch)
		}
	}
	return out
}

func checkC16(sc *Scenario, ctr *Counters) []Violation {
	w := buildWorld(sc)
	res := w.runAll(ctr)
	sp := &sc.Apks[0]
	for j, o := range res.Out[0] {
		op := &sc.Tasks[0][j]
		e := expectHonest(sp, op.Min, op.Max)
		sb := strings.HasPrefix(op.Kind, "sb")
		if sb {
			e = expectSb(sp, op.Min, op.Max)
		}
		if !e.ok || o.Budget {
			ctr.Probes["not-expected-to-verify"]++
			continue
		}
		ctr.Probes[fmt.Sprintf("honest-scheme-%d", e.scheme)]++
		if o.Err != "" || o.Panic != "" {
			return viol("honest-rejected", "%s [%d,%d] rejects an honestly signed APK (scheme %d): %s%s", op.Kind, op.Min, op.Max, e.scheme, o.Text, o.Panic)
		}
		if o.Scheme != e.scheme {
			return viol("wrong-scheme", "%s [%d,%d] reports scheme %d instead of %d", op.Kind, op.Min, op.Max, o.Scheme, e.scheme)
		}
		if sb && e.scheme == 1 {
			continue
		}
		if want := honestChains(sp, e.scheme); fmt.Sprint(o.Chains) != fmt.Sprint(want) {
			return viol("wrong-signers", "%s [%d,%d] scheme %d reports %v instead of %v", op.Kind, op.Min, op.Max, e.scheme, o.Chains, want)
		}
		if e.scheme >= 3 {
			bs := sp.V3
			if e.scheme == 31 {
				bs = sp.V31
			}
			var longest *LineageSpec
			for i := range bs.Signers {
				if l := bs.Signers[i].Lineage; l != nil && (longest == nil || len(l.Keys) > len(longest.Keys)) {
					longest = l
				}
			}
			if v := lineageReported(longest, o.Lineage); v != nil {
				return v
			}
			if e.scheme == 31 {
				if o.Extra3 == nil {
					return viol("wrong-signers", "v3.1 accepted without reporting the v3 signers")
				}
				if want := honestChains(sp, 3); fmt.Sprint(o.Extra3.Chains) != fmt.Sprint(want) {
					return viol("wrong-signers", "v3 part of a v3.1 APK reports %v instead of %v", o.Extra3.Chains, want)
				}
			}
		}
	}
	return nil
}

func lineageReported(l *LineageSpec, got []string) []Violation {
	n := 0
	if l != nil {
		n = len(l.Keys)
	}
	have := len(got) - 1
	if len(got) == 0 {
		have = 0
	}
	if have != n {
		return viol("wrong-lineage", "rotation history has %d entries, reported %v", n, got)
	}
	for i := 0; i < n; i++ {
		f := strings.Split(got[i], "/")
		flags := int32(23)
		if i < len(l.Flags) {
			flags = l.Flags[i]
		}
		if f[0] != l.Keys[i] || f[1] != fmt.Sprint(flags) {
			return viol("wrong-lineage", "rotation history entry %d is %s with capabilities %d, reported %s", i, l.Keys[i], flags, got[i])
		}
	}
	return nil
}

// expectSb: what the signing-block API answers about an honest APK.
func expectSb(sp *ApkSpec, min, max int32) expect {
	if sp.V2 == nil && sp.V3 == nil || max < 24 {
		return expect{false, 1, "none"}
	}
	c := *sp
	c.V1 = &V1Spec{}
	m := min
	if m < 24 {
		m = 24
	}
	if max < 24 {
		return expect{false, 1, "none"}
	}
	e := expectHonest(&c, m, max)
	if e.scheme == 1 {
		return expect{false, 1, "none"}
	}
	return e
}

// ---------- C17: Janus ----------

func genC17(r *Rng) *Scenario {
	sc := newScenario("C17", r)
	w := pick(r, want{v1: true}, want{v1: true}, want{v1: true, v2: true}, want{v1: true, v2: true, v3: true}, want{v2: true})
	a := fromPool(r, pick(r, "vic", "att"), w, 20)
	a.Prefix = pick(r, "dex", "dex", "dex", "junk", "")
	if r.P(60) {
		a.V2, a.V3 = nil, nil
		a.PadBlock, a.Extra = false, nil
		if a.V1 != nil {
			a.V1 = cloneV1(a.V1)
			for i := range a.V1.Signers {
				a.V1.Signers[i].Apk = ""
			}
		}
	}
	if r.P(15) { // signatures which don't count must not make it a mixed file
		byzV1(r, &a)
	}
	sc.Apks = append(sc.Apks, a)
	sc.Mode = "prefix-" + a.Prefix
	st := sc.store(0)
	if r.P(15) {
		sc.Stores[0].Edits = []Edit{{Kind: "set", Pos: r.N(8), Len: 1, Val: r.U64()}}
	}
	op := genOp(r, st, []string{"verify", "verify", "verify0", "vpath"})
	if op.Kind != "verify0" {
		g := v1Ranges[r.N(len(v1Ranges))]
		op.Min, op.Max = g.min, g.max
	}
	if r.P(40) {
		genDelivery(r, &op)
		if op.Env.Chunk > 0 && op.Env.Chunk < 4 && r.P(50) {
			op.Env.Chunk += 64
		}
	}
	if r.P(25) {
		genFaults(r, sc, &op)
	}
	sc.Tasks = [][]Op{{op}}
	return sc
}

func checkC17(sc *Scenario, ctr *Counters) []Violation {
	w := buildWorld(sc)
	op := sc.Tasks[0][0]
	o := w.runAll(ctr).Out[0][0]
	stored := w.stores[op.Store]
	dex := len(stored) >= 4 && string(stored[:4]) == "dex\n"
	calm := calmEnv(&op.Env) && calmEnv(&op.ZEnv) && op.Fail == "" && !o.Budget && !o.Dead
	min := effMin(&sc.Apks[sc.Stores[0].Base], op.Min)
	// the oldest platforms asked about only look at v1
	v1Used := o.Scheme == 1 || min < 24
	if dex && calm {
		honest := sc.Apks[0]
		honest.Prefix = ""
		if e := expectHonest(&honest, op.Min, op.Max); len(sc.Stores[0].Edits) == 0 && honestSpec(&honest) && e.ok && !o.accepted() {
			return viol("janus-not-reported", "%s [%d,%d] of a correctly signed file that is also a DEX: %s (%s)", op.Kind, op.Min, op.Max, o.Err, o.Text)
		}
		// the same file without the DEX magic, which no v1 signature covers
		if o.Err == "janus" && o.Scheme == 1 || !o.accepted() {
			t := cloneScenario(sc)
			t.Stores[0].Edits = append(t.Stores[0].Edits, Edit{Kind: "set", Pos: 0, Len: 4, Val: 0x58585858})
			top := op
			top.Env.Faults, top.ZEnv.Faults = nil, nil
			if b := buildWorld(t).one(top, sc.MapSeed, ctr); !b.Budget {
				if o.accepted() && b.Err != "" {
					return viol("false-janus", "%s [%d,%d] reports a mixed file, but without the DEX magic it is rejected: %s (%s)", op.Kind, op.Min, op.Max, b.Err, b.Text)
				}
				if !o.accepted() && b.Err == "" && b.accepted() && b.Scheme == 1 {
					return viol("janus-not-reported", "%s [%d,%d]: %s (%s), but accepted without the DEX magic", op.Kind, op.Min, op.Max, o.Err, o.Text)
				}
			}
		}
	}
	if !o.accepted() {
		ctr.Probes["rejected"]++
		return nil
	}
	if o.Err == "janus" {
		ctr.Probes["janus"]++
		if !dex {
			return viol("false-janus", "DEX prefix reported on a file that has none")
		}
		if !v1Used {
			return viol("false-janus", "%s [%d,%d] reports a mixed file although no v1 signature is looked at", op.Kind, op.Min, op.Max)
		}
		for _, v := range append(w.authentic(stored, &op, o), append(w.refCheck(stored, &op, o), w.refCheckV1(stored, &op, o)...)...) {
			if v.Class != "hidden-member-accepted-v1" {
				return viol("false-janus", "a file which is not accepted is reported as a mixed one: %s", v.Detail)
			}
		}
		return nil
	}
	ctr.Probes["accepted"]++
	if dex && v1Used {
		return viol("janus-missed", "%s [%d,%d] plainly accepts (scheme %d) a file that is also a DEX", op.Kind, op.Min, op.Max, o.Scheme)
	}
	return nil
}

// ---------- C18: sandbox and target policies ----------

func genC18(r *Rng) *Scenario {
	sc := newScenario("C18", r)
	a := fromPool(r, pick(r, "vic", "att"), v1Want(r), 16)
	m := *a.Manifest
	m.Sandbox = pick(r, int32(0), 0, 1, 2, 2, 3, 4, 100, 1<<24)
	m.Target = pick(r, int32(0), 28, 29, 30, 30, 31, 32, 33, 34, 36, 99)
	m.Min = pick(r, int32(0), 14, 21, 21, 23, 24, 28)
	genManifestForm(r, &m)
	if r.P(12) {
		m.Mode = pick(r, "badattr", "badtarget")
	}
	a.Manifest = &m
	if r.P(50) {
		a.V2, a.V3 = nil, nil
		a.PadBlock, a.Extra = false, nil
	}
	if a.V1 != nil && r.P(85) {
		a.V1 = cloneV1(a.V1)
		for i := range a.V1.Signers {
			a.V1.Signers[i].Apk = ""
		}
	}
	sc.Apks = append(sc.Apks, a)
	st := sc.store(0)
	if a.V2 != nil && r.P(60) {
		sc.Stores[0].Edits = []Edit{pick(r, Edit{Kind: "strip-block"}, Edit{Kind: "drop-pair", ID: idV2}, Edit{Kind: "set", Region: "block", Pos: -1 - r.N(20), Len: 1, Val: r.U64()})}
	}
	op := genOp(r, st, []string{"verify", "verify", "verify0", "vpath"})
	if op.Kind != "verify0" {
		g := pick(r, sdkRange{anyMin, anyMax}, sdkRange{anyMin, 29}, sdkRange{21, anyMax}, sdkRange{21, 25}, sdkRange{24, anyMax}, sdkRange{26, 29}, sdkRange{28, 30}, sdkRange{1, 30}, sdkRange{21, 32}, sdkRange{30, 33}, sdkRange{anyMin, 25}, sdkRange{21, 29 + int32(r.N(8))}, sdkRange{anyMin, 25 + int32(r.N(10))})
		op.Min, op.Max = g.min, g.max
	}
	if r.P(50) {
		genFaults(r, sc, &op)
	}
	sc.Tasks = [][]Op{{op}}
	return sc
}

func checkC18(sc *Scenario, ctr *Counters) []Violation {
	w := buildWorld(sc)
	op := sc.Tasks[0][0]
	o := w.runAll(ctr).Out[0][0]
	sp := &sc.Apks[0]
	if len(sc.Stores[0].Edits) == 0 && len(op.Env.Faults) == 0 && len(op.ZEnv.Faults) == 0 && honestSpec(sp) && sp.Manifest.Mode == "" && !o.Budget {
		if e := expectHonest(sp, op.Min, op.Max); e.ok {
			ctr.Probes["rules-do-not-concern"]++
			if o.Err != "" || o.Panic != "" {
				return viol("unconcerned-rejected", "sandbox %d, target %d: %s [%d,%d] rejects an APK the rules allow (scheme %d): %s%s", sp.Manifest.Sandbox, sp.Manifest.Target, op.Kind, op.Min, op.Max, e.scheme, o.Text, o.Panic)
			}
		}
	}
	if !o.accepted() {
		ctr.Probes["rejected"]++
		return nil
	}
	ctr.Probes["accepted"]++
	m := sp.Manifest
	// what is declared counts, even if something else in the manifest makes no sense
	if o.Scheme == 1 && (m.Mode == "" || m.Mode == "badattr" || m.Mode == "badtarget") {
		if op.Max >= 26 && m.Sandbox > 1 {
			return viol("sandbox-policy", "v1-only APK for sandbox version %d accepted for platforms up to %d (fault fired: %v)", m.Sandbox, op.Max, o.Fired > 0)
		}
		if m.Target >= 30 && m.Mode != "badtarget" && op.Max >= m.Target {
			return viol("target-policy", "v1-only APK targeting %d accepted for platforms up to %d (fault fired: %v)", m.Target, op.Max, o.Fired > 0)
		}
	}
	return nil
}

// ---------- C19: platform coverage ----------

var sdkByz = []string{"sdk-min", "sdk-max", "sdk-min-less", "sdk-max-more", "sdk-wider"}

// crowd gives one scheme about as many signers as platforms tolerate.
func crowd(r *Rng, a *ApkSpec) {
	keys := append([]string{"vic.rsa4096", "vic.leaf"}, parties["vic"].keyN(r, 10)...)[:9+r.N(4)]
	if a.V2 != nil && (a.V1 == nil || r.P(50)) {
		a.V2 = cloneBlk(a.V2)
		one := a.V2.Signers[0]
		one.Byz, one.SdMut = "", nil
		a.V2.Signers = nil
		for _, k := range keys {
			s := one
			s.Key, s.Algos = k, nil
			a.V2.Signers = append(a.V2.Signers, s)
		}
	} else if a.V1 != nil {
		a.V1 = cloneV1(a.V1)
		apk := a.V1.Signers[0].Apk
		a.V1.Signers = nil
		for i, k := range keys {
			s := V1Signer{Key: k, File: fmt.Sprintf("S%d", i), Apk: apk}
			a.V1.Signers = append(a.V1.Signers, s)
		}
	}
}

func genC19(r *Rng) *Scenario {
	sc := newScenario("C19", r)
	w := genWant(r)
	if r.P(60) {
		w = pick(r, want{v3: true}, want{v2: true, v3: true}, want{v1: true, v2: true, v3: true}, want{v3: true, v31: true}, want{v2: true, v3: true, v31: true})
	}
	a := fromPool(r, "vic", w, 12)
	if w.v31 && r.P(50) { // more often several rotations
		for i := 0; i < 8 && len(a.V31.Signers) < 2; i++ {
			a = fromPool(r, "vic", w, 12)
		}
	}
	if a.V3 != nil && r.P(70) {
		a.V3 = cloneBlk(a.V3)
		i := r.N(len(a.V3.Signers))
		s := &a.V3.Signers[i]
		switch r.N(7) {
		case 0:
			s.Min += int32(r.Range(-2, 5))
		case 1:
			if s.Max == anyMax {
				s.Max = int32(28 + r.N(8))
			} else {
				s.Max += int32(r.Range(-2, 2))
			}
		case 2:
			s.Min, s.Max = int32(24+r.N(12)), int32(24+r.N(14))
		case 3:
			s.Byz = pick(r, sdkByz...)
		case 4:
			if s.RotMin != 0 {
				s.RotMin += int32(r.Range(-1, 1))
				if r.P(50) {
					s.RotMin = a.V31.Signers[r.N(len(a.V31.Signers))].Min
					if r.P(70) {
						s.Max = s.RotMin + int32(r.Range(-1, 1))
					}
				}
			}
		case 5:
			s.RotMin = 0
		}
		if s.Min < 1 {
			s.Min = 1
		}
	}
	if a.V31 != nil && r.P(40) {
		a.V31 = cloneBlk(a.V31)
		s := &a.V31.Signers[r.N(len(a.V31.Signers))]
		switch r.N(5) {
		case 0:
			s.Min = int32(33 + r.N(3))
		case 1:
			s.Max = int32(33 + r.N(5))
		case 2:
			s.Byz = pick(r, sdkByz...)
		case 3:
			s.Min += int32(r.Range(-1, 1))
		case 4:
			if s.Max != anyMax {
				s.Max += int32(r.Range(-1, 1))
			}
		}
	}
	if a.V31 != nil && len(a.V31.Signers) > 1 && r.P(45) {
		// the v3 signers announce another one of the rotations
		a.V3 = cloneBlk(a.V3)
		at := a.V31.Signers[r.N(len(a.V31.Signers))].Min
		for i := range a.V3.Signers {
			s := &a.V3.Signers[i]
			if s.RotMin = at; s.Max >= at-4 {
				s.Max = at - 1
			}
		}
	}
	if r.P(8) {
		crowd(r, &a)
	}
	if r.P(20) && a.Manifest != nil {
		m := *a.Manifest
		m.Min, m.Target = pick(r, int32(0), 1, 21, 23, 24, 27, 28, 29, 33, 35), pick(r, int32(0), 23, 29, 33, 34, 35, 36)
		genManifestForm(r, &m)
		a.Manifest = &m
	}
	sc.Apks = append(sc.Apks, a)
	sc.store(0)
	if r.P(30) {
		id := pick(r, uint32(idV3), uint32(idV31))
		sc.Stores[0].Edits = []Edit{pick(r, Edit{Kind: "set", Region: "pair", ID: id, Pos: r.N(3000), Len: 4, Val: uint64(28 + r.N(10))}, Edit{Kind: "drop-pair", ID: id}, Edit{Kind: "flip", Region: "pair", ID: id, Pos: r.N(4000), Val: r.U64()})}
	}
	sc.Tasks = [][]Op{{}}
	for i := 0; i < 3; i++ {
		op := genOp(r, 0, []string{"verify", "verify", "sb", "verify0"})
		if r.P(30) && op.Kind != "verify0" {
			op.Min = int32(24 + r.N(12))
			op.Max = op.Min + int32(r.N(8))
		}
		sc.Tasks[0] = append(sc.Tasks[0], op)
	}
	return sc
}

func checkC19(sc *Scenario, ctr *Counters) []Violation {
	v := judge(sc, ctr, func(c string) bool {
		return c == "platforms-not-covered" || c == "v1-not-verified" || c == "v3-passed-over" || refClass(c, "range", "count")
	})
	if v != nil {
		return v
	}
	st := &sc.Stores[0]
	w := buildWorld(sc)
	out := w.runAll(ctr).Out[0]
	for j, o := range out {
		op := sc.Tasks[0][j]
		if op.Kind == "verify0" {
			op.Kind, op.Min, op.Max = "verify", anyMin, anyMax
		}
		if o.accepted() && (o.Scheme == 1 || o.Scheme == 2) && len(o.Chains) > 10 {
			return viol("too-many-signers", "%d signers accepted with scheme %d", len(o.Chains), o.Scheme)
		}
		if op.Kind != "verify" || op.Min != anyMin {
			continue
		}
		if m, known := w.manifestOf(w.stores[op.Store]); known {
			if op.Min = 1; m != nil && m.Min != 0 {
				op.Min = m.Min
			}
			ctr.Probes["minimum-from-manifest"]++
			if b := w.one(op, sc.MapSeed, ctr); !o.Budget && !b.Budget && b.verdict() != o.verdict() {
				return viol("minimum-not-from-manifest", "without a minimum: %s (%s), with the one of the manifest (%d): %s (%s)", o.verdict(), o.Text, op.Min, b.verdict(), b.Text)
			}
		}
	}
	if len(st.Edits) > 0 || !honestSpec(&sc.Apks[0]) {
		return nil
	}
	for j, o := range out {
		op := &sc.Tasks[0][j]
		if strings.HasPrefix(op.Kind, "sb") || !o.accepted() {
			continue
		}
		if e := expectHonest(&sc.Apks[0], op.Min, op.Max); !e.ok && (e.why == "unsigned" || e.why == "no v1" || e.why == "range" || e.why == "coverage" && o.Scheme == e.scheme) {
			return viol("platforms-not-covered", "[%d,%d] accepted although: %s", op.Min, op.Max, e.why)
		}
	}
	return nil
}

// ---------- C20: other signing block entries ----------

func genC20(r *Rng) *Scenario {
	sc := newScenario("C20", r)
	a := fromPool(r, "vic", blockWant(r), 12)
	a.Extra = nil
	ids := []uint32{idDepMeta, 0x71777777, idStampV1, 0x11223344, 0x504b4454, 0xffffffff, 0}
	n := r.N(5)
	if r.P(12) {
		n = 5 + r.N(76) // whatever their number
	}
	used := map[uint32]bool{}
	for ; n > 0; n-- {
		id := ids[r.N(len(ids))]
		if used[id] || r.P(30) {
			id = uint32(r.U64())
			switch id {
			case idV2, idV3, idV31, idStamp, idFrost, idPad:
				id++
			}
		}
		size := pick(r, 0, 1, 3, 4, 7, r.N(300), 5000)
		if r.P(4) {
			size = pick(r, 1<<16-1, 1<<16, 1<<16+5, 1<<20, 3<<20)
		}
		if used[id] = true; len(used) > 12 && size > 8000 {
			size = 100
		}
		a.Extra = append(a.Extra, ExtraSpec{id, size, r.P(12)})
	}
	a.Order = 1 + r.U64()>>11
	sc.Apks = append(sc.Apks, a)
	sc.store(0)
	if r.P(30) {
		sc.Stores[0].Edits = []Edit{pick(r, Edit{Kind: "add-pair", ID: pick(r, ids...), Len: r.N(50), Val: r.U64()}, Edit{Kind: "empty-pair", ID: pick(r, ids...)}, Edit{Kind: "dup-pair", ID: pick(r, ids...), Len: r.N(2), Val: r.U64()})}
	}
	op := genOp(r, 0, []string{"sb", "verify", "sbzip"})
	if op.Max < 24 {
		op.Max = anyMax
	}
	if r.P(40) {
		genDelivery(r, &op)
		if op.Env.Chunk > 0 && op.Env.Chunk < 64 {
			op.Env.Chunk += 64
		}
	}
	sc.Tasks = [][]Op{{op}}
	return sc
}

func checkC20(sc *Scenario, ctr *Counters) []Violation {
	w := buildWorld(sc)
	op := sc.Tasks[0][0]
	o := w.runAll(ctr).Out[0][0]
	if sp := &sc.Apks[0]; len(sc.Stores[0].Edits) == 0 && honestSpec(sp) && !o.Budget {
		e := expectHonest(sp, op.Min, op.Max)
		if strings.HasPrefix(op.Kind, "sb") {
			e = expectSb(sp, op.Min, op.Max)
		}
		if e.ok && e.scheme > 1 && (o.Err != "" || o.Panic != "" || o.res == nil) {
			return viol("extra-block-rejected", "%s [%d,%d] rejects an honestly signed APK (scheme %d) with %d other entries: %s%s", op.Kind, op.Min, op.Max, e.scheme, len(sp.Extra), o.Text, o.Panic)
		}
	}
	if o.Panic != "" || o.res == nil {
		return nil
	}
	l, ok := refLayout(w.stores[op.Store])
	if !ok || !l.HasBlock || l.BlockBad {
		return nil
	}
	if !o.accepted() {
		ctr.Probes["rejected"]++
		return nil
	}
	want := map[uint32]string{}
	for _, p := range l.Pairs {
		switch p.ID {
		case idV2, idV3, idV31, idStamp, idFrost, idPad:
			continue
		}
		h := sha256.Sum256(p.Data)
		want[p.ID] = fmt.Sprintf("%08x:%d:%x", p.ID, len(p.Data), h[:6])
	}
	got := map[string]bool{}
	for _, b := range o.Blocks {
		got[b] = true
	}
	ctr.Probes["extra-blocks"] += int64(len(want))
	for _, x := range want {
		if !got[x] {
			return viol("extra-block-lost", "block entry %s of the file is not reported (reported: %v)", x, o.Blocks)
		}
	}
	for b := range got {
		var id uint32
		fmt.Sscanf(b, "%08x", &id)
		switch id {
		case idV2, idV3, idV31:
			continue
		}
		if want[id] != b {
			return viol("extra-block-invented", "block entry %s is not in the file", b)
		}
	}
	return nil
}

// ---------- C24: the parts of a result and the entry points agree ----------

func genC24(r *Rng) *Scenario {
	gens := []func(*Rng) *Scenario{genC01, genC01, genC02, genC03, genC11, genC12, genC14, genC15, genC16, genC18, genC19, genC20}
	sc := gens[r.N(len(gens))](r)
	sc.Prop = "C24"
	first := sc.Tasks[0][0]
	st := first.Store
	rg := genRange(r)
	if r.P(50) && first.Max > 0 {
		rg.min, rg.max = first.Min, first.Max
	}
	if r.P(30) && rg.min < 24 && rg.max >= 24 {
		rg.min = 24
	}
	pair := []string{pick(r, "verify", "verify", "vpath"), pick(r, "sb", "sb", "sbpath", "sbzip")}
	switch r.N(8) {
	case 0:
		pair = []string{pick(r, "verify0", "vpath0"), pick(r, "verify", "vpath")}
		rg.min, rg.max = anyMin, anyMax
	case 1:
		pair = []string{"ext", "extpath"}
	case 2:
		pair = []string{"sbext", "sbextpath"}
	case 3:
		pair = []string{"sb", pick(r, "sbpath", "sbzip")}
		if r.P(30) {
			rg.min = anyMin
		}
	}
	if r.P(50) {
		pair[0], pair[1] = pair[1], pair[0]
	}
	sc.Tasks = [][]Op{nil}
	for _, k := range pair {
		op := Op{Kind: k, Store: st, Min: rg.min, Max: rg.max}
		if k == "sbzip" || k != "sb" && !strings.HasPrefix(k, "sb") && r.P(30) {
			op.Zip = "own"
		}
		if r.P(25) {
			genDelivery(r, &op)
			if op.Env.Chunk > 0 && op.Env.Chunk < 256 {
				op.Env.Chunk += 256
			}
		}
		sc.Tasks[0] = append(sc.Tasks[0], op)
	}
	if r.P(15) {
		genFaults(r, sc, &sc.Tasks[0][r.N(2)])
	}
	if r.P(40) { // results are still in use while other bytes are verified
		other := fromPool(r, "att", genWant(r), 6)
		if r.P(60) {
			other.Extra = []ExtraSpec{{0x11223344, 1 + r.N(3000), false}}
		}
		sc.Apks = append(sc.Apks, other)
		op := Op{Kind: pick(r, "verify", "vpath", "sb", "ext"), Store: sc.store(len(sc.Apks) - 1), Min: 28, Max: anyMax}
		sc.Tasks[0] = append(sc.Tasks[0], op)
	}
	return sc
}

func checkC24(sc *Scenario, ctr *Counters) []Violation {
	w := buildWorld(sc)
	out := w.runAll(ctr).Out[0]
	ops := sc.Tasks[0]
	clean := true
	for j, o := range out {
		if o.Odd != "" {
			return viol("result-contradicts-itself", "call %d (%s): %s", j, ops[j].Kind, o.Odd)
		}
		if o.Changed != "" {
			return viol("result-changed-later", "call %d (%s) returned %s, after the later calls it reads %s", j, ops[j].Kind, o.parts, o.Changed)
		}
		if o.Fired > 0 || o.Panic != "" || o.Budget || ops[j].Fail != "" {
			clean = false
		}
		if o.accepted() {
			ctr.Probes["accepted"]++
		} else {
			ctr.Probes["rejected"]++
		}
	}
	if !clean || len(out) < 2 {
		return nil
	}
	a, b := out[0], out[1]
	if strings.HasPrefix(ops[0].Kind, "sb") == strings.HasPrefix(ops[1].Kind, "sb") {
		if a.verdict() != b.verdict() {
			return viol("entry-points-disagree", "%s: %s (%s), %s: %s (%s)", ops[0].Kind, a.verdict(), a.Text, ops[1].Kind, b.verdict(), b.Text)
		}
		return nil
	}
	full, blk := a, b
	if strings.HasPrefix(ops[0].Kind, "sb") {
		full, blk = b, a
	}
	min := ops[0].Min
	if min == anyMin {
		return nil // each takes the minimum from elsewhere
	}
	ctr.Probes["compared"]++
	why := ""
	switch {
	case blk.Err == "err" && full.accepted():
		why = "accepted although its signing block is rejected"
	case blk.Err == "notfound" && full.accepted() && full.Scheme != 1:
		why = "accepted with a scheme whose signing block does not exist"
	case blk.Err == "" && min >= 24 && ops[0].Min <= ops[0].Max && full.Err != "":
		why = "rejected although its signing block verifies"
	case blk.Err == "" && full.accepted():
		x := *full
		x.Err = ""
		if x.Scheme == 1 && blk.Scheme == 1 {
			x.Chains = nil // the files' signers are not in the block
		}
		if x.verdict() != blk.verdict() {
			why = "another result than the signing block's"
		}
	case blk.Err == "notfound" && full.accepted() && fmt.Sprint(full.Blocks) != fmt.Sprint(blk.Blocks):
		why = "other signing block entries"
	}
	if why != "" {
		return viol("entry-points-disagree", "%s for [%d,%d]: %s: %s (%s), signing block: %s (%s)", why, ops[0].Min, ops[0].Max, full.Kind, full.verdict(), full.Text, blk.verdict(), blk.Text)
	}
	return nil
}
