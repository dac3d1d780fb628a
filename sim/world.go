package main

import (
	"archive/zip"
	"bytes"
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"os"
	"path"
	"runtime"
	"strings"
	"sync"

	"github.com/avast/apkparser"
	"github.com/avast/apkverifier/verifhook"
)

func verifN() int64 { return verifhook.N }

// StoreSpec is one file on the simulated disk: a published artefact after edits.
type StoreSpec struct {
	Base  int    `json:"base"`
	Edits []Edit `json:"edits,omitempty"`
}

// Scenario is a complete, replayable description of one simulated history.
type Scenario struct {
	Prop    string      `json:"prop"`
	Seed    uint64      `json:"seed"`
	Mode    string      `json:"mode"`
	Apks    []ApkSpec   `json:"apks,omitempty"`
	Stores  []StoreSpec `json:"stores"`
	Tasks   [][]Op      `json:"tasks"`
	Sched   Sched       `json:"sched"`
	Clock   ClockSpec   `json:"clock"`
	MapSeed uint64      `json:"mapseed"`
}

// World is a built scenario.
type World struct {
	sc     *Scenario
	apks   []*Built
	log    []SignEvent
	stores [][]byte
}

type memoApk struct {
	b   *Built
	log []SignEvent
}

var apkMemo = map[string]*memoApk{}
var apkMemoBytes int

func buildWorld(sc *Scenario) *World {
	w := &World{sc: sc}
	key := ""
	for i := range sc.Apks {
		j, _ := json.Marshal(&sc.Apks[i])
		h := sha256.Sum256(append([]byte(key), j...))
		if sc.Apks[i].MetaFrom > 0 {
			key = string(h[:])
		} else {
			h = sha256.Sum256(append([]byte{byte(i)}, j...))
		}
		m := apkMemo[string(h[:])]
		if m == nil {
			m = &memoApk{}
			m.b = buildApk(i, &sc.Apks[i], w.apks, &m.log)
			if apkMemoBytes > 200<<20 {
				apkMemo, apkMemoBytes = map[string]*memoApk{}, 0
			}
			apkMemo[string(h[:])] = m
			apkMemoBytes += len(m.b.Bytes) * 3
		}
		key += string(h[:])
		w.apks = append(w.apks, m.b)
		w.log = append(w.log, m.log...)
	}
	for i := range sc.Stores {
		st := &sc.Stores[i]
		w.stores = append(w.stores, applyEdits(w.apks[st.Base].Bytes, st.Edits, w.apks))
	}
	return w
}

type RunResult struct {
	Out       [][]*Outcome
	Hash      uint64
	Rec       []Pre
	Steps     int64
	Trace     []string
	BlockedBy string // a client waited for one whose storage stalled
	Handles   int
}

var (
	traceRuns bool
	traceLog  []string
	runHash   uint64 // over every simulated execution since it was last cleared
	simRand   *Rng
)

// run executes tasks over the world.
func (w *World) run(tasks [][]Op, sched Sched, clock ClockSpec, mapSeed uint64, ctr *Counters) *RunResult {
	disk.reset()
	// a fresh process: library state, pools, hash seeds and randomness
	verifhook.N, verifhook.Next = 0, 1<<62
	runtime.SimSetMapSeed(mapSeed, &verifhook.N)
	verifhook.Restart()
	sync.SimPoolCleanup()
	simRand = NewRng(hashSeed(mapSeed, 77))
	s := newSim(sched, clock, mapSeed, ctr)
	s.tracing = traceRuns
	res := &RunResult{Out: make([][]*Outcome, len(tasks))}
	var bodies []func()
	for i := range tasks {
		i := i
		bodies = append(bodies, func() {
			cc := &clientCtx{zips: map[int]*apkparser.ZipReader{}, zipFile: map[int]*diskFile{}, readers: map[int]*diskFile{}}
			for j := range tasks[i] {
				s.budgetHit, s.deadlock = false, false
				s.blockSpin = 0
				s.cur.clk = ClockSpec{}
				o := runOp(s, &tasks[i][j], w.stores, cc)
				o.at = s.cur.clk
				res.Out[i] = append(res.Out[i], o)
				h := uint64(strSeed(o.verdict()))
				s.event("outcome", int64(i), int64(j), int64(h))
			}
			for _, z := range cc.zips {
				z.Close()
			}
		})
	}
	s.Run(bodies)
	for i := range res.Out {
		for _, o := range res.Out[i] {
			if o.parts != "" {
				if now := o.render(); now != o.parts {
					o.Changed = now
				}
			}
		}
	}
	res.Handles = len(s.handles)
	res.BlockedBy = s.blockedBy
	disk.reset()
	res.Hash, res.Rec, res.Steps, res.Trace = s.logHash, s.rec, verifhook.N, s.trace
	if traceRuns {
		traceLog = append(traceLog, fmt.Sprintf("--- execution: %d client(s), hash seed %x", len(tasks), mapSeed))
		traceLog = append(traceLog, s.trace...)
		for i := range res.Out {
			for j, o := range res.Out[i] {
				traceLog = append(traceLog, fmt.Sprintf("=> client %d call %d %s [%d,%d]: %s %s%s", i, j, o.Kind, tasks[i][j].Min, tasks[i][j].Max, o.verdict(), o.Text, o.Panic))
			}
		}
	}
	choices := 0 // certificates a picker has to compare
	for _, t := range tasks {
		for _, op := range t {
			if op.Kind == "pick" && len(op.Certs) > 1 {
				choices++
			}
		}
	}
	if s.events >= 8 || choices > 0 { // the library got past opening the file, or had something to compare
		h := s.logHash
		if choices > 0 {
			j, _ := json.Marshal(tasks)
			h = mix64(h ^ strSeed(string(j)))
		}
		ctr.Sigs[h] = struct{}{}
	}
	runHash = mix64(runHash ^ s.logHash)
	return res
}

func (w *World) runAll(ctr *Counters) *RunResult {
	return w.run(w.sc.Tasks, w.sc.Sched, w.sc.Clock, w.sc.MapSeed, ctr)
}

// one runs a single call alone.
func (w *World) one(op Op, mapSeed uint64, ctr *Counters) *Outcome {
	return w.run([][]Op{{op}}, Sched{Fixed: true}, w.sc.Clock, mapSeed, ctr).Out[0][0]
}

// oneAt runs a call alone at the moment at which another run of it looked at the
// clock: which certificate is preferred depends on which of them have expired.
func (w *World) oneAt(op Op, at ClockSpec, mapSeed uint64, ctr *Counters) *Outcome {
	if at.Base == 0 || op.Kind != "pick" && op.Kind != "pickres" {
		return w.one(op, mapSeed, ctr)
	}
	return w.run([][]Op{{op}}, Sched{Fixed: true}, at, mapSeed, ctr).Out[0][0]
}

// zipView lists the members of a stored archive the way installers of the
// simulated platform see them, with the hashes of every candidate content.
type zipView struct {
	ok    bool
	names []string
	dirs  map[string]bool
	sums  map[string]map[string]bool
	// members whose name stands for one that came before: the ZIP reader drops them
	hidden []string
}

var zvMemo = map[[32]byte]*zipView{}

func viewZip(b []byte) *zipView {
	h := sha256.Sum256(b)
	if v := zvMemo[h]; v != nil {
		return v
	}
	v := &zipView{dirs: map[string]bool{}, sums: map[string]map[string]bool{}}
	zr, err := apkparser.OpenZipReader(bytes.NewReader(b))
	if err == nil && zr != nil {
		v.ok = true
		for _, f := range zr.FilesOrdered {
			if v.sums[f.Name] != nil {
				continue
			}
			v.names = append(v.names, f.Name)
			// a directory is what has a directory's name; the attributes are not signed
			v.dirs[f.Name] = f.IsDir && (f.ZipHeader() == nil || strings.HasSuffix(f.ZipHeader().Name, "/"))
			m := map[string]bool{}
			v.sums[f.Name] = m
			if f.Open() == nil {
				for f.Next() {
					h := sha256.New()
					if _, err := copyTo(h, f); err == nil {
						m[string(h.Sum(nil))] = true
					}
				}
				f.Close()
			}
		}
		zr.Close()
		if z, err := zip.NewReader(bytes.NewReader(b), int64(len(b))); err == nil {
			seen := map[string]bool{}
			for _, f := range z.File {
				n := path.Clean(f.Name)
				if seen[n] && !strings.HasSuffix(f.Name, "/") && !strings.HasPrefix(n, "META-INF/") {
					v.hidden = append(v.hidden, f.Name)
				}
				seen[n] = true
			}
		}
	}
	if len(zvMemo) > 2000 {
		zvMemo = map[[32]byte]*zipView{}
	}
	zvMemo[h] = v
	return v
}

func copyTo(w interface{ Write([]byte) (int, error) }, f *apkparser.ZipReaderFile) (int64, error) {
	buf := make([]byte, 32*1024)
	var n int64
	for {
		k, err := f.Read(buf)
		w.Write(buf[:k])
		n += int64(k)
		if err != nil {
			if err.Error() == "EOF" {
				return n, nil
			}
			return n, err
		}
	}
}

// Violation is a broken property.
type Violation struct {
	Class  string `json:"class"`
	Detail string `json:"detail"`
}

func viol(class, format string, a ...interface{}) []Violation {
	return []Violation{{class, fmt.Sprintf(format, a...)}}
}

// v1Covered: every listed key signed (v1) all members of the stored archive.
// A signature whose content type attribute is wrong only counts below Android 7.
func (w *World) v1Covers(stored []byte, leaf string, min, max int32) (bool, string) {
	v := viewZip(stored)
	if !v.ok {
		return false, "archive unreadable"
	}
	why := "never signed anything with v1"
	for i := range w.log {
		e := &w.log[i]
		if e.Scheme != 1 || e.Key != leaf {
			continue
		}
		if e.V1.Byz == "attr-ctype" && max >= 24 {
			why = "its signature names another content type"
			continue
		}
		if e.MFByz == "strong-bad" && max >= 18 || e.MFByz == "weak-bad" && min < 18 {
			why = "one of the digests which count is wrong"
			continue
		}
		bad := ""
		for _, n := range v.names {
			if v.dirs[n] || strings.HasPrefix(n, "META-INF/") {
				continue
			}
			sum, ok := e.Entries[n]
			if !ok {
				bad = "member " + n + " was never signed"
				break
			}
			if !v.sums[n][sum] {
				bad = "member " + n + " differs from what was signed"
				break
			}
		}
		if bad == "" {
			for n := range e.Entries {
				if v.sums[n] == nil {
					bad = "signed member missing"
				}
			}
		}
		if bad == "" {
			return true, ""
		}
		why = bad
	}
	return false, why
}

func (w *World) events(scheme int, content string) []*SignEvent {
	var out []*SignEvent
	for i := range w.log {
		e := &w.log[i]
		if e.Scheme == scheme && e.Content == content {
			out = append(out, e)
		}
	}
	// v3 and v3.1 sign the same bytes: a signer of one can be presented as the other
	for i := range w.log {
		e := &w.log[i]
		if scheme >= 3 && e.Scheme >= 3 && e.Scheme != scheme && e.Content == content {
			out = append(out, e)
		}
	}
	return out
}

func sameChain(ch []string, raw [][]byte) bool {
	if len(ch) != len(raw) {
		return false
	}
	for i := range ch {
		n := ""
		if k := keyByCert[string(raw[i])]; k != nil {
			n = k.Name
		}
		if n != ch[i] {
			return false
		}
	}
	return true
}

// authentic judges an accepting outcome against the ideal signing log.
func (w *World) authentic(stored []byte, op *Op, o *Outcome) []Violation {
	if !o.accepted() {
		return nil
	}
	sb := strings.HasPrefix(op.Kind, "sb")
	if len(o.Chains) == 0 && !(sb && o.Scheme == 1) {
		return viol("accepted-without-signer", "scheme %d accepted with no signer reported", o.Scheme)
	}
	var apk *ApkSpec
	if o.Scheme >= 2 {
		l, ok := refLayout(stored)
		if !ok {
			return viol("accepted-without-layout", "scheme %d accepted on an archive without a coherent directory", o.Scheme)
		}
		key := contentKey(sectionsOf(stored, l))
		judge := func(scheme int, chains [][]string, lin []string) []Violation {
			ev := w.events(scheme, key)
			var lo, hi int32
			var used []*SignEvent
			rot := int32(0)
			for i, ch := range chains {
				var m *SignEvent
				for _, e := range ev {
					if len(ch) > 0 && e.Key == ch[0] && sameChain(ch, e.Chain) {
						// one key may sign for several platform ranges
						taken := false
						for _, u := range used {
							taken = taken || u == e
						}
						if m == nil || !taken {
							m = e
						}
						if !taken {
							break
						}
					}
				}
				if m == nil {
					return viol(fmt.Sprintf("unsigned-accepted-v%d", scheme), "scheme %d reports signer %v but that party never signed these contents with it", scheme, ch)
				}
				used = append(used, m)
				if i == 0 || m.Min < lo {
					lo = m.Min
				}
				if i == 0 || m.Max > hi {
					hi = m.Max
				}
				apk = &w.sc.Apks[m.Apk]
				if m.RotMin != 0 {
					rot = m.RotMin
				}
			}
			if len(chains) == 0 {
				return viol(fmt.Sprintf("accepted-without-signer-v%d", scheme), "no signer of scheme %d", scheme)
			}
			em := effMin(apk, op.Min)
			if em < 28 {
				em = 28
			}
			_ = rot
			if scheme == 3 && o.Scheme == 3 && (lo > em || hi < op.Max) && op.Kind != "verify0" && op.Kind != "vpath0" {
				return viol("platforms-not-covered", "signers cover [%d,%d] but [%d,%d] was asked for", lo, hi, em, op.Max)
			}
			if scheme == 31 && (hi < op.Max) && op.Kind != "verify0" && op.Kind != "vpath0" {
				return viol("platforms-not-covered", "v3.1 signers reach %d but %d was asked for", hi, op.Max)
			}
			if scheme >= 3 {
				return w.lineageOk(scheme, chains, lin, used)
			}
			return nil
		}
		if v := judge(o.Scheme, o.Chains, o.Lineage); v != nil {
			return v
		}
		if o.Scheme == 31 {
			if o.Extra3 == nil {
				return viol("v31-without-v3", "v3.1 accepted without a v3 result")
			}
			if v := judge(3, o.Extra3.Chains, o.Extra3.Lineage); v != nil {
				return v
			}
		}
	}
	if sb {
		return nil
	}
	min, max := op.Min, op.Max
	if op.Kind == "verify0" || op.Kind == "vpath0" || op.Kind == "pickres" {
		min, max = anyMin, anyMax
	}
	em := min
	if min == anyMin {
		if apk != nil {
			em = effMin(apk, min)
		} else if m, known := w.manifestOf(stored); !known {
			em = 24
		} else if m == nil || m.Min == 0 {
			em = 1
		} else {
			em = m.Min
		}
	}
	if hid := viewZip(stored).hidden; len(hid) > 0 && (o.Scheme == 1 || em < 24) {
		return viol("hidden-member-accepted-v1", "v1 accepted although nobody looked at member %q, whose name stands for another one", hid[0])
	}
	if o.Scheme == 1 {
		for _, ch := range o.Chains {
			if ok, why := w.v1Covers(stored, keyOwner(ch[0]), em, max); !ok {
				return viol("unsigned-accepted-v1", "v1 reports signer %v but %s", ch, why)
			}
		}
	} else if em < 24 {
		any, why := false, "nobody signed it with v1"
		seen := map[string]bool{}
		for i := range w.log {
			if e := &w.log[i]; e.Scheme == 1 && !seen[e.Key] {
				seen[e.Key] = true
				ok, y := w.v1Covers(stored, e.Key, em, max)
				if ok {
					any = true
				} else {
					why = y
				}
			}
		}
		if !any {
			return viol("v1-not-verified", "accepted for platforms from %d on, which only know v1, but %s", em, why)
		}
	}
	return nil
}

// refCheck judges an accepting outcome against the reference model.
func (w *World) refCheck(stored []byte, op *Op, o *Outcome) []Violation {
	if !o.accepted() || o.Scheme < 2 {
		return nil
	}
	sb := strings.HasPrefix(op.Kind, "sb")
	var apk *ApkSpec
	if l, ok := refLayout(stored); ok {
		if ev := w.events(o.Scheme, contentKey(sectionsOf(stored, l))); len(ev) > 0 {
			apk = &w.sc.Apks[ev[0].Apk]
		}
	}
	lo, hi, known := op.Min, op.Max, true
	switch op.Kind {
	case "verify0", "vpath0", "pickres":
		lo, hi = anyMin, anyMax
	}
	if lo == anyMin && !sb {
		if apk != nil && apk.Manifest != nil && len(apk.Manifest.Mut) == 0 {
			lo = effMin(apk, lo)
		} else {
			known = false
		}
	}
	if l, ok := refLayout(stored); ok && o.Scheme == 2 && op.Min >= 28 && lo == op.Min && (l.pair(idV3) != nil || l.pair(idV31) != nil && hi >= 33) {
		return viol("v3-passed-over", "v2 accepted for [%d,%d], where each platform looks at the v3 signature of the file", lo, hi)
	}
	if p := refAccepted(stored, o.Scheme, lo, hi, known); p != nil {
		return viol(fmt.Sprintf("invalid-%s-accepted-v%d", p.Kind, o.Scheme), "scheme %d accepted for [%d,%d] although %s", o.Scheme, lo, hi, p.Text)
	}
	return nil
}

// lineageOk: each link of a reported lineage was attested by its predecessor
// and some reported signer is its end.
func (w *World) lineageOk(scheme int, chains [][]string, lin []string, used []*SignEvent) []Violation {
	for _, e := range used {
		if e.Lineage != nil && e.Lineage.Bad() != "" {
			return viol(fmt.Sprintf("bad-lineage-accepted-v%d", scheme), "signer %s accepted although its rotation history is broken (%s)", e.Key, e.Lineage.Bad())
		}
	}
	if len(lin) == 0 {
		return nil
	}
	// every known algorithm works on each platform which understands lineages
	if m := lin[len(lin)-1]; m != "min28" {
		return viol(fmt.Sprintf("lineage-platform-v%d", scheme), "lineage %v usable from platform %s on, but all its algorithms work since 28", lin, m[3:])
	}
	var names []string
	seen := map[string]bool{}
	for i, l := range lin[:len(lin)-1] {
		f := strings.Split(l, "/")
		if seen[f[0]] {
			return viol(fmt.Sprintf("duplicate-in-lineage-v%d", scheme), "lineage %v lists %s twice", lin, f[0])
		}
		seen[f[0]] = true
		if i > 0 && f[3] != strings.Split(lin[i-1], "/")[2] {
			return viol(fmt.Sprintf("lineage-algorithm-mismatch-v%d", scheme), "lineage %v: a link was attested with another algorithm than it names", lin)
		}
		names = append(names, f[0])
	}
	for i := 1; i < len(names); i++ {
		if !w.attested(names[i-1], names[i]) {
			return viol(fmt.Sprintf("unattested-rotation-v%d", scheme), "lineage %v accepted but %s never attested %s", names, names[i-1], names[i])
		}
	}
	last := names[len(names)-1]
	for _, ch := range chains {
		if ch[0] == last {
			return nil
		}
	}
	return viol(fmt.Sprintf("lineage-not-of-signer-v%d", scheme), "lineage %v does not end in a reported signer %v", names, chains)
}

func (w *World) attested(from, to string) bool {
	for i := range w.sc.Apks {
		sp := &w.sc.Apks[i]
		chk := func(l *LineageSpec) bool {
			if l == nil {
				return false
			}
			for j := 1; j < len(l.Keys); j++ {
				if l.Keys[j-1] == from && l.Keys[j] == to {
					last := j == len(l.Keys)-1
					switch l.Byz {
					case "":
						return true
					case "forged", "othersd", "nosig":
						return !last
					case "firstforged":
						return j != 1
					case "algo", "algo-sib", "dup", "dupmid", "dupadj":
						return true
					}
				}
			}
			return false
		}
		for _, bs := range []*BlkSpec{sp.V2, sp.V3, sp.V31} {
			if bs != nil {
				for k := range bs.Signers {
					if chk(bs.Signers[k].Lineage) {
						return true
					}
				}
			}
		}
		if sp.Stamp != nil && chk(sp.Stamp.Lineage) {
			return true
		}
	}
	return false
}

func fatal(format string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "sim: "+format+"\n", a...)
	os.Exit(3)
}
