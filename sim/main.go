package main

import (
	"bufio"
	"bytes"
	"crypto/rand"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	mrand "math/rand"
	mrand2 "math/rand/v2"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

// Replay is a self-contained violation.
type Replay struct {
	Property  string    `json:"property"`
	Class     string    `json:"class"`
	Detail    string    `json:"detail"`
	BaseSeed  uint64    `json:"base_seed"`
	Index     int       `json:"index"`
	RunHash   string    `json:"run_hash"`
	Minimised bool      `json:"minimised"`
	Scenario  *Scenario `json:"scenario,omitempty"`
	Kills     bool      `json:"kills_process,omitempty"` // the library ends or stalls the process: replay re-runs seed and index
	Trace     []string  `json:"trace,omitempty"`
}

type randReader struct{}

func (randReader) Read(b []byte) (int, error) {
	if simRand == nil {
		simRand = NewRng(1)
	}
	var t [8]byte
	for i := 0; i < len(b); i += 8 {
		binary.LittleEndian.PutUint64(t[:], simRand.U64())
		copy(b[i:], t[:])
	}
	return len(b), nil
}

func setup() {
	runtime.GOMAXPROCS(1)
	debug.SetGCPercent(-1)
	runtime.GC() // starts the workers of the collector, which a simulated task must not wait for
	debug.SetMemoryLimit(3 << 30)
	debug.SetMaxStack(64 << 20)
	loadKeys()
	if b, err := os.ReadFile(filepath.Join(filepath.Dir(self()), "build_report.json")); err == nil {
		var rep struct {
			Swapped bool `json:"frosting_key_replaced"`
		}
		if json.Unmarshal(b, &rep) == nil {
			frostSwapped = rep.Swapped
		}
	}
	os.SimHook = disk
	rand.Reader = randReader{}
	f := func() uint64 {
		if simRand == nil {
			simRand = NewRng(1)
		}
		return simRand.U64()
	}
	mrand.SimRand = f
	mrand2.SimRand = f
	// fill the standard library's per-type caches, which outlive a simulated
	// process, so that the first history of a worker is like any other
	for _, id := range []string{"C16", "C11", "C12", "C09"} {
		for i := 0; i < 4; i++ {
			p := propByID(id)
			save := baseSeed
			baseSeed = 42
			judgeScenario(p, scenarioFor(p, i), newCounters())
			baseSeed = save
		}
	}
}

func flag64(s string) uint64 {
	v, err := strconv.ParseUint(s, 10, 64)
	if err != nil {
		return strSeed(s)
	}
	return v
}

func scenarioFor(p *Prop, idx int) *Scenario {
	seed := hashSeed(baseSeed, strSeed(p.ID), uint64(idx))
	sc := p.Gen(NewRng(seed))
	sc.Prop, sc.Seed = p.ID, seed
	return sc
}

// judgeScenario runs a scenario's check from a clean slate.
func judgeScenario(p *Prop, sc *Scenario, ctr *Counters) []Violation {
	runHash = 0
	lastRec = nil
	v := p.Check(sc, ctr)
	return v
}

type wmsg struct {
	T      string    `json:"t"`
	Idx    int       `json:"i,omitempty"`
	Hash   string    `json:"h,omitempty"`
	Class  string    `json:"c,omitempty"`
	Detail string    `json:"d,omitempty"`
	Ctr    *wireCtr  `json:"ctr,omitempty"`
	Samp   []string  `json:"s,omitempty"`
	Sc     *Scenario `json:"sc,omitempty"`
}

type wireCtr struct {
	Runs, Ops, Steps, Reads, Switches, ClockReads, SimNs int64
	Faults, Probes                                       map[string]int64
	Sigs                                                 []uint64
}

func (c *Counters) wire() *wireCtr {
	w := &wireCtr{c.Runs, c.Ops, c.Steps, c.Reads, c.Switches, c.ClockReads, c.SimNs, c.Faults, c.Probes, nil}
	for k := range c.Sigs {
		w.Sigs = append(w.Sigs, k)
	}
	return w
}

// worker runs the histories first, first+step, ... and reports on stdout.
func worker(args []string) {
	fs := flag.NewFlagSet("worker", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	seed := fs.String("seed", "1", "")
	first := fs.Int("first", 0, "")
	step := fs.Int("step", 1, "")
	count := fs.Int("count", 0, "indices below this")
	hashes := fs.Int("hashes", 0, "report hashes of indices below this")
	wall := fs.Float64("wall", 0, "seconds")
	fs.Parse(args)
	baseSeed = flag64(*seed)
	p := propByID(*prop)
	if p == nil {
		fatal("no property %q", *prop)
	}
	setup()
	out := bufio.NewWriter(os.Stdout)
	send := func(m wmsg) {
		b, _ := json.Marshal(m)
		out.Write(b)
		out.WriteByte('\n')
		out.Flush()
	}
	start := time.Now()
	ctr := newCounters()
	var ms runtime.MemStats
	classes := map[string]bool{}
	var samples []string
	i := *first
	for n := 0; i < *count && i >= 0; i, n = i+*step, n+1 {
		if *wall > 0 && time.Since(start).Seconds() > *wall {
			break
		}
		send(wmsg{T: "i", Idx: i})
		sc := scenarioFor(p, i)
		ctr.Probes["histories"]++
		v := judgeScenario(p, sc, ctr)
		h := fmt.Sprintf("%016x", runHash)
		if i < *hashes {
			send(wmsg{T: "h", Idx: i, Hash: h})
		}
		for _, x := range v {
			if !classes[x.Class] && len(classes) < 12 {
				classes[x.Class] = true
				if len(lastRec) > 0 || len(sc.Tasks) > 1 {
					sc.Sched = Sched{Fixed: true, Pre: lastRec}
				}
				send(wmsg{T: "v", Idx: i, Class: x.Class, Detail: x.Detail, Hash: h, Sc: sc})
			}
		}
		if len(samples) < 2 {
			b, _ := json.Marshal(struct {
				Mode  string
				Tasks [][]Op
				Edits []StoreSpec
			}{sc.Mode, sc.Tasks, sc.Stores})
			if len(b) > 500 {
				b = b[:500]
			}
			samples = append(samples, fmt.Sprintf("run %d: %s", i, b))
		}
		if n%16 == 15 {
			runtime.ReadMemStats(&ms)
			if ms.HeapAlloc > 700<<20 {
				runtime.GC()
			}
		}
	}
	send(wmsg{T: "done", Idx: i, Ctr: ctr.wire(), Samp: samples})
}

// ---- master ----

type found struct {
	idx    int
	class  string
	detail string
	hash   string
	sc     *Scenario
	kills  bool
}

type master struct {
	mu       sync.Mutex
	prop     *Prop
	seed     string
	count    int
	ctr      *Counters
	samples  []string
	found    map[string]*found
	hashes   map[int]string
	deaths   []string
	errs     []string
	ndiff    int
	diffs    []string
	deadline time.Time
	bin      string   // the simulator the workers run
	env      []string // further environment of the workers
}

func self() string {
	p, err := os.Executable()
	if err != nil {
		fatal("%v", err)
	}
	return p
}

func childEnv() []string {
	var env []string
	for _, e := range os.Environ() {
		if !strings.HasPrefix(e, "GODEBUG=") && !strings.HasPrefix(e, "GOGC=") && !strings.HasPrefix(e, "GOMEMLIMIT=") && !strings.HasPrefix(e, "GOTRACEBACK=") {
			env = append(env, e)
		}
	}
	return append(env, "GODEBUG=asyncpreemptoff=1")
}

const stallSeconds = 120

// spawn runs one worker process to its end, restarting after a death.
func (m *master) spawn(first, step, count, hashes int, record func(wmsg)) {
	restarts, again := 0, -1
	for first < count && first >= 0 {
		left := time.Until(m.deadline).Seconds()
		if left < 1 {
			return
		}
		cmd := exec.Command(m.bin, "worker", "-prop", m.prop.ID, "-seed", m.seed, "-first", fmt.Sprint(first), "-step", fmt.Sprint(step), "-count", fmt.Sprint(count), "-hashes", fmt.Sprint(hashes), "-wall", fmt.Sprintf("%.1f", left))
		cmd.Env = append(childEnv(), m.env...)
		var stderr tail
		cmd.Stderr = &stderr
		pipe, err := cmd.StdoutPipe()
		if err != nil {
			fatal("%v", err)
		}
		if err := cmd.Start(); err != nil {
			fatal("%v", err)
		}
		cur, done := -1, false
		var stalled bool
		beat := time.Now()
		var bm sync.Mutex
		stop := make(chan struct{})
		go func() {
			for {
				select {
				case <-stop:
					return
				case <-time.After(2 * time.Second):
				}
				bm.Lock()
				s := time.Since(beat).Seconds() > stallSeconds
				bm.Unlock()
				if s {
					stalled = true
					cmd.Process.Kill()
					return
				}
			}
		}()
		sc := bufio.NewScanner(pipe)
		sc.Buffer(make([]byte, 1<<20), 1<<28)
		for sc.Scan() {
			var w wmsg
			if json.Unmarshal(sc.Bytes(), &w) != nil {
				continue
			}
			bm.Lock()
			beat = time.Now()
			bm.Unlock()
			switch w.T {
			case "i":
				cur = w.Idx
			case "done":
				done = true
			}
			record(w)
		}
		err = cmd.Wait()
		close(stop)
		if done && err == nil {
			return
		}
		what := "died"
		if stalled {
			what = "stalled"
		}
		m.mu.Lock()
		if cur < 0 || strings.Contains(stderr.String(), "sim: ") {
			m.errs = append(m.errs, fmt.Sprintf("worker %s at index %d: %v: %s", what, cur, err, stderr.String()))
			m.mu.Unlock()
			return
		}
		m.mu.Unlock()
		if ws, ok := cmd.ProcessState.Sys().(syscall.WaitStatus); ok && ws.Signaled() && ws.Signal() == syscall.SIGKILL && !stalled && again != cur {
			// ended from outside, say for want of memory: once more
			m.mu.Lock()
			m.deaths = append(m.deaths, fmt.Sprintf("index %d: worker killed, continued", cur))
			m.mu.Unlock()
			first, again = cur, cur
			continue
		}
		m.died(cur, what, stderr.String())
		restarts++
		if restarts > 6 {
			m.mu.Lock()
			m.errs = append(m.errs, "too many worker deaths")
			m.mu.Unlock()
			return
		}
		first = cur + step
	}
}

// died attributes the end of a worker process to the history it was running.
func (m *master) died(idx int, what, text string) {
	code, out := runChild(stallSeconds*time.Second, "one", "-prop", m.prop.ID, "-seed", m.seed, "-idx", fmt.Sprint(idx))
	reproduced := code == 2 && strings.Contains(out, "fatal error:") || code == -9
	line := firstLine(text)
	m.mu.Lock()
	defer m.mu.Unlock()
	m.deaths = append(m.deaths, fmt.Sprintf("index %d: %s (%s), alone: %v", idx, what, line, reproduced))
	if !reproduced {
		m.errs = append(m.errs, fmt.Sprintf("worker %s at index %d, not reproducible alone (exit %d): %s", what, idx, code, text))
		return
	}
	if m.prop.ID == "C07" && (strings.Contains(out, "concurrent map") || strings.Contains(out, "all goroutines are asleep")) {
		m.found["clients-end-the-process"] = &found{idx: idx, class: "clients-end-the-process", detail: firstLine(out), kills: true}
		return
	}
	if m.prop.ID != "C09" {
		return
	}
	class := "ends-the-process"
	if code == -9 {
		class = "never-returns"
	}
	if f := m.found[class]; f == nil || f.idx > idx {
		m.found[class] = &found{idx: idx, class: class, detail: firstLine(out), kills: true}
	}
}

func firstLine(s string) string {
	for _, l := range strings.Split(s, "\n") {
		if strings.HasPrefix(l, "fatal error:") || strings.HasPrefix(l, "panic:") || strings.HasPrefix(l, "runtime:") {
			return l
		}
	}
	if len(s) > 200 {
		s = s[:200]
	}
	return s
}

// tail keeps the first part of a stream.
type tail struct{ b bytes.Buffer }

func (t *tail) Write(p []byte) (int, error) {
	if t.b.Len() < 16384 {
		t.b.Write(p)
	}
	return len(p), nil
}
func (t *tail) String() string { return t.b.String() }

func runChild(limit time.Duration, args ...string) (int, string) {
	cmd := exec.Command(self(), args...)
	cmd.Env = childEnv()
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	if err := cmd.Start(); err != nil {
		return 99, err.Error()
	}
	ch := make(chan error, 1)
	go func() { ch <- cmd.Wait() }()
	select {
	case <-ch:
		return cmd.ProcessState.ExitCode(), out.String()
	case <-time.After(limit):
		cmd.Process.Kill()
		<-ch
		return -9, out.String()
	}
}

func (m *master) take(w wmsg, primary bool) {
	m.mu.Lock()
	defer m.mu.Unlock()
	switch w.T {
	case "h":
		if o, ok := m.hashes[w.Idx]; ok && o != w.Hash {
			m.diverged(w.Idx, o, w.Hash)
		}
		m.hashes[w.Idx] = w.Hash
	case "v":
		if f := m.found[w.Class]; f == nil || f.idx > w.Idx {
			m.found[w.Class] = &found{idx: w.Idx, class: w.Class, detail: w.Detail, hash: w.Hash, sc: w.Sc}
		}
	case "done":
		if !primary {
			return
		}
		c, x := m.ctr, w.Ctr
		c.Runs += x.Runs
		c.Ops += x.Ops
		c.Steps += x.Steps
		c.Reads += x.Reads
		c.Switches += x.Switches
		c.ClockReads += x.ClockReads
		c.SimNs += x.SimNs
		for k, v := range x.Faults {
			c.Faults[k] += v
		}
		for k, v := range x.Probes {
			c.Probes[k] += v
		}
		for _, s := range x.Sigs {
			c.Sigs[s] = struct{}{}
		}
		m.samples = append(m.samples, w.Samp...)
	}
}

func (m *master) diverged(idx int, a, b string) {
	s := fmt.Sprintf("index %d: execution hash %s in one process, %s in another", idx, a, b)
	m.ndiff++
	m.diffs = append(m.diffs, "nondeterminism: "+s)
}

func check(args []string) {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	tier := fs.String("tier", "quick", "")
	seed := fs.String("seed", "1", "")
	dir := fs.String("dir", ".", "verification root")
	runs := fs.Int("runs", 0, "")
	evid := fs.Bool("evidence", true, "")
	fs.Parse(args)
	p := propByID(*prop)
	if p == nil {
		fatal("no property %q", *prop)
	}
	start := time.Now()
	m := &master{prop: p, seed: *seed, ctr: newCounters(), found: map[string]*found{}, hashes: map[int]string{}, bin: self()}
	m.count = p.Runs
	wall := 330 * time.Second
	if *tier == "thorough" {
		m.count = p.Runs * 40
		wall = 780 * time.Second
	}
	if *runs > 0 {
		m.count = *runs
	}
	m.deadline = start.Add(wall)
	nw := runtime.NumCPU()
	if nw > 16 {
		nw = 16
	}
	if nw < 1 {
		nw = 1
	}
	const nh = 24
	var wg sync.WaitGroup
	for w := 0; w < nw; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			m.spawn(w, nw, m.count, nh, func(x wmsg) { m.take(x, true) })
		}(w)
	}
	// the same histories once more in another process, other partition
	wg.Add(1)
	go func() {
		defer wg.Done()
		n := nh
		if n > m.count {
			n = m.count
		}
		m.spawn(0, 1, n, nh, func(x wmsg) { m.take(x, false) })
	}()
	wg.Wait()
	if p.ID == "C07" && m.count > 100 {
		m.raceRuns(nw)
	}
	baseSeed = flag64(*seed)

	known := loadKnown(filepath.Join(*dir, "known-findings.txt"))
	var classes []string
	for c := range m.found {
		classes = append(classes, c)
	}
	sort.Strings(classes)
	violations, knownHits := 0, 0
	rd := filepath.Join(*dir, "replays")
	var lines []string
	for _, c := range classes {
		f := m.found[c]
		if why, ok := known[p.ID+" "+c]; ok {
			lines = append(lines, fmt.Sprintf("KNOWN-FINDING: property=%s %s: %s", p.ID, c, why))
			knownHits++
			continue
		}
		os.MkdirAll(rd, 0755)
		path := filepath.Join(rd, fmt.Sprintf("%s-%s-%s-%d.json", p.ID, sanitize(c), *seed, f.idx))
		if !m.writeReplay(f, path, violations < 2) {
			m.errs = append(m.errs, fmt.Sprintf("violation %s at index %d did not reproduce in a fresh process: %s", c, f.idx, f.detail))
			continue
		}
		violations++
		lines = append(lines, fmt.Sprintf("%s %s: %s", p.ID, f.class, f.detail))
		lines = append(lines, fmt.Sprintf("VIOLATION property=%s replay=%s", p.ID, path))
	}
	wallS := time.Since(start).Seconds()
	if *evid {
		writeEvidence(*dir, m, *tier, *seed, wallS, violations, knownHits, nw)
	}
	fmt.Printf("%s %s: %d histories (%d simulated executions, %d calls, %d statements scheduled, %d context switches) in %.1fs, %d distinct executions\n", p.ID, *tier, histories(m), m.ctr.Runs, m.ctr.Ops, m.ctr.Steps, m.ctr.Switches, wallS, len(m.ctr.Sigs))
	fmt.Printf("faults: %s\nprobes: %s\n", fmtMap(m.ctr.Faults), fmtMap(m.ctr.Probes))
	for _, d := range m.deaths {
		fmt.Println("worker death:", d)
	}
	for _, l := range lines {
		fmt.Println(l)
	}
	if violations > 0 {
		os.Exit(1)
	}
	if m.ctr.Probes["library-goroutines"] == 0 {
		m.errs = append(m.errs, m.diffs...)
	} else if len(m.diffs) > 0 {
		// goroutines of the library's own are not scheduled by the simulator
		fmt.Printf("%d executions differ between processes; the library starts goroutines\n", len(m.diffs))
	}
	if len(m.errs) > 0 {
		for _, e := range m.errs {
			fmt.Fprintln(os.Stderr, "error:", e)
		}
		os.Exit(4)
	}
}

// raceRuns repeats a part of the histories under the race-detecting build.
func (m *master) raceRuns(nw int) {
	if st, err := os.Stat(raceBinary()); err != nil || st.IsDir() {
		m.errs = append(m.errs, "the race-detecting simulator is missing")
		return
	}
	env := raceEnv()
	defer raceCleanup(env)
	m.bin, m.env = raceBinary(), []string{env}
	n := m.count / 6
	var wg sync.WaitGroup
	for w := 0; w < nw; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			m.spawn(w, nw, n, 0, func(x wmsg) {
				if x.T == "done" {
					m.mu.Lock()
					m.ctr.Probes["histories-with-race-detector"] += x.Ctr.Probes["histories"]
					m.mu.Unlock()
					return
				}
				if x.T == "v" && x.Class == "data-race" {
					m.take(x, true)
				}
			})
		}(w)
	}
	wg.Wait()
	m.bin, m.env = self(), nil
}

func histories(m *master) int64 { return m.ctr.Probes["histories"] }

func sanitize(s string) string {
	var b strings.Builder
	for _, c := range s {
		if c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '-' {
			b.WriteRune(c)
		} else {
			b.WriteByte('_')
		}
	}
	if b.Len() > 60 {
		return b.String()[:60]
	}
	return b.String()
}

func fmtMap(m map[string]int64) string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var b []string
	for _, k := range ks {
		b = append(b, fmt.Sprintf("%s=%d", k, m[k]))
	}
	return strings.Join(b, " ")
}

// writeReplay minimises a violation and confirms it in a fresh process.
func (m *master) writeReplay(f *found, path string, shrink bool) bool {
	r := Replay{Property: m.prop.ID, Class: f.class, Detail: f.detail, BaseSeed: flag64(m.seed), Index: f.idx, RunHash: f.hash, Scenario: f.sc, Kills: f.kills}
	save := func(r *Replay) {
		b, _ := json.MarshalIndent(r, "", " ")
		os.WriteFile(path, append(b, '\n'), 0644)
	}
	save(&r)
	if f.kills {
		return true // died() reproduced it already
	}
	code, out := runChild(180*time.Second, "replay", path)
	if code != 1 {
		// the schedule as recorded did not reproduce it; try seed and index
		if code2, _ := runChild(180*time.Second, "one", "-prop", m.prop.ID, "-seed", m.seed, "-idx", fmt.Sprint(f.idx)); code2 == 1 {
			r.Scenario = nil
			save(&r)
			return true
		}
		_ = out
		return false
	}
	tmp := path + ".min"
	os.Remove(tmp)
	if shrink {
		runChild(75*time.Second, "minimise", "-out", tmp, "-secs", "25", path)
	}
	if b, err := os.ReadFile(tmp); err == nil {
		if code, _ := runChild(120*time.Second, "replay", tmp); code == 1 {
			os.WriteFile(path, b, 0644)
		}
		os.Remove(tmp)
	}
	// keep the trace with the file
	r = Replay{} // decoding must not merge into the scenario before it was minimised
	if b, err := os.ReadFile(path); err == nil && json.Unmarshal(b, &r) == nil {
		_, out := runChild(120*time.Second, "replay", "-trace", path)
		r.Trace = clip(strings.Split(strings.TrimSpace(out), "\n"), 400)
		save(&r)
		f.detail = r.Detail
	}
	return true
}

func clip(l []string, n int) []string {
	if len(l) <= n {
		return l
	}
	x := append([]string(nil), l[:n/2]...)
	x = append(x, fmt.Sprintf("... %d lines ...", len(l)-n))
	return append(x, l[len(l)-n/2:]...)
}

func loadKnown(path string) map[string]string {
	out := map[string]string{}
	b, err := os.ReadFile(path)
	if err != nil {
		return out
	}
	// finding: property=<id> class=<class> :: <text>
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "finding: property=") {
			continue
		}
		l = strings.TrimPrefix(l, "finding: property=")
		i := strings.Index(l, " class=")
		j := strings.Index(l, " :: ")
		if i < 0 || j < i {
			continue
		}
		out[l[:i]+" "+l[i+7:j]] = l[j+4:]
	}
	return out
}

func one(args []string) {
	fs := flag.NewFlagSet("one", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	seed := fs.String("seed", "1", "")
	idx := fs.Int("idx", 0, "")
	trace := fs.Bool("trace", false, "")
	dump := fs.Bool("dump", false, "")
	warm := fs.Int("warm", 0, "run this many earlier indices first")
	fs.Parse(args)
	baseSeed = flag64(*seed)
	p := propByID(*prop)
	if p == nil {
		fatal("no property %q", *prop)
	}
	setup()
	for i := *idx - *warm; i < *idx; i++ {
		judgeScenario(p, scenarioFor(p, i), newCounters())
	}
	sc := scenarioFor(p, *idx)
	traceRuns = *trace
	if *dump {
		b, _ := json.MarshalIndent(sc, "", " ")
		os.Stdout.Write(append(b, '\n'))
	}
	traceLog = nil
	v := judgeScenario(p, sc, newCounters())
	for _, l := range traceLog {
		fmt.Println(l)
	}
	fmt.Printf("hash %016x\n", runHash)
	for _, x := range v {
		fmt.Printf("%s: %s\n", x.Class, x.Detail)
	}
	if len(v) > 0 {
		os.Exit(1)
	}
}

func replay(args []string) {
	fs := flag.NewFlagSet("replay", flag.ExitOnError)
	trace := fs.Bool("trace", false, "")
	fs.Parse(args)
	b, err := os.ReadFile(fs.Arg(0))
	if err != nil {
		fatal("%v", err)
	}
	var r Replay
	if err := json.Unmarshal(b, &r); err != nil {
		fatal("%v", err)
	}
	if r.Class == "data-race" && !raceBuild {
		execRace(os.Args[1:])
	}
	baseSeed = r.BaseSeed
	p := propByID(r.Property)
	if p == nil {
		fatal("unknown property %q", r.Property)
	}
	setup()
	sc := r.Scenario
	if sc == nil {
		sc = scenarioFor(p, r.Index)
	}
	traceRuns = *trace
	v := judgeScenario(p, sc, newCounters())
	for _, l := range traceLog {
		fmt.Println(l)
	}
	h := fmt.Sprintf("%016x", runHash)
	if raceBuild {
		raceCleanup(os.Getenv("GORACE"))
	}
	same := false
	for _, x := range v {
		fmt.Printf("%s: %s\n", x.Class, x.Detail)
		same = same || x.Class == r.Class
	}
	fmt.Printf("execution hash %s (recorded %s)\n", h, r.RunHash)
	if same {
		fmt.Printf("VIOLATION property=%s replay=%s\n", r.Property, fs.Arg(0))
		os.Exit(1)
	}
	if len(v) == 0 {
		fmt.Println("no violation")
	}
}

// stores writes the files on the simulated disk of a replay file to a folder.
func stores(args []string) {
	fs := flag.NewFlagSet("stores", flag.ExitOnError)
	out := fs.String("out", "", "")
	fs.Parse(args)
	b, err := os.ReadFile(fs.Arg(0))
	if err != nil {
		fatal("%v", err)
	}
	var r Replay
	if err := json.Unmarshal(b, &r); err != nil {
		fatal("%v", err)
	}
	baseSeed = r.BaseSeed
	setup()
	sc := r.Scenario
	if sc == nil {
		sc = scenarioFor(propByID(r.Property), r.Index)
	}
	w := buildWorld(sc)
	for i, st := range w.stores {
		if err := os.WriteFile(fmt.Sprintf("%s/store%d.apk", *out, i), st, 0o644); err != nil {
			fatal("%v", err)
		}
	}
	for i, t := range sc.Tasks {
		for j, op := range t {
			fmt.Printf("client %d call %d: %s store%d [%d,%d]\n", i, j, op.Kind, op.Store, op.Min, op.Max)
		}
	}
}

func main() {
	if len(os.Args) < 2 {
		fatal("usage: sim check|worker|one|replay|minimise|selftest ...")
	}
	raceEnsure()
	switch os.Args[1] {
	case "check":
		check(os.Args[2:])
	case "worker":
		worker(os.Args[2:])
	case "one":
		one(os.Args[2:])
	case "replay":
		replay(os.Args[2:])
	case "minimise":
		minimise(os.Args[2:])
	case "stores":
		stores(os.Args[2:])
	default:
		fatal("unknown command %q", os.Args[1])
	}
}

var _ io.Writer = (*tail)(nil)
