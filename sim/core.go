package main

import (
	"fmt"
	"runtime"
	"strings"
	"sync"
	"time"

	"github.com/avast/apkverifier/verifhook"
)

// The simulator: simulated clients are goroutines of which exactly one runs at
// any moment; who runs next is decided only at scheduling points (before every
// statement of the library, at every reader operation, and when a lock is
// contended), from the seed or from a recorded plan.

// Pre is one scheduling decision: at step At control passes to task To.
type Pre struct {
	At int64 `json:"at"`
	To int   `json:"to"`
}

// Sched is the scheduling policy of a run. With Fixed set only Pre is used.
type Sched struct {
	Gap   int    `json:"gap,omitempty"` // mean steps between preemptions (0: none)
	Seed  uint64 `json:"seed,omitempty"`
	Fixed bool   `json:"fixed,omitempty"`
	Pre   []Pre  `json:"pre,omitempty"`
}

// Jump moves the simulated clock when it is read for the At-th time.
type Jump struct {
	At    int   `json:"at"`
	Delta int64 `json:"delta"` // seconds
}

type ClockSpec struct {
	Base  int64  `json:"base,omitempty"` // unix seconds
	Tick  int64  `json:"tick,omitempty"` // nanoseconds added per clock read
	Jumps []Jump `json:"jumps,omitempty"`
}

type taskState int

const (
	tsReady taskState = iota
	tsRunning
	tsStalled // its storage does not answer before everybody else is done
	tsDone
)

type task struct {
	id    int
	goid  uint64
	wake  chan struct{}
	over  chan struct{} // closed at the end
	state taskState
	steps int64
	clk   ClockSpec // what the clock said when this client last looked in its call
	fn    func()
}

type budgetExceeded struct{}

const stepBudget = 12_000_000

// Sim is one simulated execution.
type Sim struct {
	tasks   []*task
	cur     *task
	done    chan struct{}
	since   int64 // verifhook.N when cur got control
	budget  int64
	sched   Sched
	pi      int
	next    Pre
	hasNext bool
	rng     *Rng
	rec     []Pre

	clock   ClockSpec
	clockN  int
	nowNs   int64 // simulated nanoseconds since Base
	logHash uint64
	events  int64
	trace   []string
	tracing bool

	budgetHit bool
	blockSpin int
	blockWork int64 // statements executed when somebody last waited
	blockN    int64 // waits so far
	deadlock  bool
	blockedBy string // a client waited for one whose storage stalled
	Ctr       *Counters
	handles   map[*simFile]bool
}

// Counters accumulate over the runs of a worker.
type Counters struct {
	Runs, Ops, Steps, Reads, Switches, ClockReads int64
	SimNs                                         int64
	Faults                                        map[string]int64
	Probes                                        map[string]int64
	Sigs                                          map[uint64]struct{} // distinct interleaving/fault signatures
}

func newCounters() *Counters {
	return &Counters{Faults: map[string]int64{}, Probes: map[string]int64{}, Sigs: map[uint64]struct{}{}}
}

var theSim *Sim

func (s *Sim) event(kind string, a, b, c int64) {
	s.events++
	h := s.logHash
	for i := 0; i < len(kind); i++ {
		h = (h ^ uint64(kind[i])) * 0x100000001b3
	}
	h = mix64(h ^ uint64(a)*0x9e3779b97f4a7c15)
	h = mix64(h ^ uint64(b)*0xbf58476d1ce4e5b9)
	h = mix64(h ^ uint64(c))
	s.logHash = h
	if s.tracing && len(s.trace) < 4000 {
		id := -1
		if s.cur != nil {
			id = s.cur.id
		}
		s.trace = append(s.trace, fmt.Sprintf("#%d t%d %s %d %d %d", verifhook.N, id, kind, a, b, c))
	}
}

func (s *Sim) fault(kind string) {
	s.Ctr.Faults[kind]++
	s.event("fault:"+kind, 0, 0, 0)
}

func newSim(sched Sched, clock ClockSpec, mapSeed uint64, ctr *Counters) *Sim {
	s := &Sim{sched: sched, clock: clock, done: make(chan struct{}), budget: stepBudget, Ctr: ctr, handles: map[*simFile]bool{}}
	s.rng = NewRng(sched.Seed)
	s.logHash = 0x1234
	if s.clock.Base == 0 {
		s.clock.Base = 1700000000
	}
	runtime.SimSetMapSeed(mapSeed, &verifhook.N)
	return s
}

func (s *Sim) onTask() bool { return s.cur != nil && runtime.SimGoid() == s.cur.goid }

// point is an explicit scheduling point (reader operation).
func (s *Sim) point() {
	verifhook.N++
	if verifhook.N >= verifhook.Next {
		s.slow()
	}
}

func (s *Sim) plan(first bool) {
	s.hasNext = false
	if len(s.tasks) < 2 {
		return
	}
	if s.sched.Fixed {
		for s.pi < len(s.sched.Pre) {
			p := s.sched.Pre[s.pi]
			if p.At >= verifhook.N {
				s.next, s.hasNext = p, true
				return
			}
			s.pi++
		}
		return
	}
	if s.sched.Gap <= 0 {
		return
	}
	g := 1 + s.rng.N64(int64(2*s.sched.Gap))
	if s.rng.P(10) {
		g = 1 + s.rng.N64(8)
	}
	s.next, s.hasNext = Pre{At: verifhook.N + g, To: s.rng.N(len(s.tasks))}, true
}

func (s *Sim) arm() {
	lim := s.since + (s.budget - s.cur.steps)
	if s.hasNext && s.next.At < lim {
		lim = s.next.At
	}
	verifhook.Next = lim
}

func (s *Sim) slow() {
	if !s.onTask() {
		return
	}
	n := verifhook.N
	if s.cur.steps+(n-s.since) >= s.budget {
		s.budgetHit = true
		s.cur.steps -= s.budget / 4 // room for unwinding
		s.arm()
		panic(budgetExceeded{})
	}
	if s.hasNext && n >= s.next.At {
		to := s.next.To
		s.pi++
		if to >= 0 && to < len(s.tasks) && s.tasks[to].state == tsReady && s.tasks[to] != s.cur {
			s.rec = append(s.rec, Pre{n, to})
			s.plan(false)
			s.switchTo(s.tasks[to])
			return
		}
		s.plan(false)
	}
	s.arm()
}

func (s *Sim) charge() {
	s.cur.steps += verifhook.N - s.since
	s.since = verifhook.N
}

func (s *Sim) switchTo(t *task) { s.switchTo2(t, tsReady) }

func (s *Sim) switchTo2(t *task, as taskState) {
	me := s.cur
	s.charge()
	me.state = as
	s.Ctr.Switches++
	s.event("switch", int64(me.id), int64(t.id), verifhook.N)
	t.state = tsRunning
	s.cur = t
	s.arm()
	runtime.SimSend(t.wake)
	runtime.SimRecv(me.wake)
}

// blocked is called instead of sleeping on a contended lock.
func (s *Sim) blocked() bool {
	if !s.onTask() {
		return false
	}
	verifhook.N++
	s.blockN++
	if work := verifhook.N - s.blockN; work != s.blockWork {
		s.blockWork, s.blockSpin = work, 0
	}
	s.blockSpin++
	if s.blockSpin > 100000 {
		s.deadlock = true
		panic(budgetExceeded{})
	}
	var cand []*task
	for _, t := range s.tasks {
		if t.state == tsReady && t != s.cur {
			cand = append(cand, t)
		}
	}
	if len(cand) == 0 || s.blockSpin > 1000 {
		if verifhook.Spawned > 0 && len(cand) == 0 {
			// a goroutine of the library's own may hold the lock
			runtime.Gosched()
			if s.blockSpin > 10000 {
				if t := s.stalledTask(); t != nil {
					t.state = tsReady
					return true
				}
				return false
			}
			return true
		}
		if t := s.stalledTask(); t != nil {
			// whoever could let this client go on waits for its storage
			if s.blockedBy == "" {
				s.blockedBy = fmt.Sprintf("client %d cannot go on before the storage of client %d answers", s.cur.id, t.id)
			}
			t.state = tsReady
			cand = []*task{t}
		}
	}
	if len(cand) == 0 {
		if s.blockSpin > 1000 {
			s.deadlock = true
			panic(budgetExceeded{})
		}
		return true
	}
	s.Ctr.Probes["lock-contended"]++
	s.switchTo(cand[int(verifhook.N)%len(cand)])
	return true
}

func (s *Sim) stalledTask() *task {
	for _, t := range s.tasks {
		if t.state == tsStalled {
			return t
		}
	}
	return nil
}

// stall suspends the running client until all the others are done.
func (s *Sim) stall() {
	if !s.onTask() {
		return
	}
	var nt *task
	for i := range s.tasks {
		if t := s.tasks[(i+int(verifhook.N))%len(s.tasks)]; t.state == tsReady && t != s.cur {
			nt = t
			break
		}
	}
	if nt == nil {
		return
	}
	s.fault("stall")
	s.switchTo2(nt, tsStalled)
}

// chanBlocked is blocked for channels: what goroutines of the library's own
// say to each other is waited for.
func (s *Sim) chanBlocked() bool {
	if !s.onTask() || verifhook.Spawned > 0 {
		return false
	}
	return s.blocked()
}

func (s *Sim) finish(t *task) {
	s.charge()
	t.state = tsDone
	close(t.over)
	var cand []*task
	for _, x := range s.tasks {
		if x.state == tsReady {
			cand = append(cand, x)
		}
	}
	if len(cand) == 0 {
		if x := s.stalledTask(); x != nil {
			cand = append(cand, x)
		}
	}
	if len(cand) == 0 {
		verifhook.Next = 1 << 62
		s.cur = nil
		close(s.done)
		return
	}
	nt := cand[0]
	if s.sched.Fixed {
		for i := s.pi; i < len(s.sched.Pre); i++ {
			if p := s.sched.Pre[i]; p.At == verifhook.N && p.To >= 0 && p.To < len(s.tasks) && s.tasks[p.To].state == tsReady {
				nt = s.tasks[p.To]
				s.pi = i + 1
				s.plan(false)
				break
			}
		}
	} else if s.sched.Gap > 0 {
		nt = cand[s.rng.N(len(cand))]
		s.rec = append(s.rec, Pre{verifhook.N, nt.id})
	}
	s.event("done", int64(t.id), int64(nt.id), verifhook.N)
	nt.state = tsRunning
	s.cur = nt
	s.arm()
	runtime.SimSend(nt.wake)
}

// Run executes the task bodies to completion under the schedule.
func (s *Sim) Run(bodies []func()) {
	theSim = s
	verifhook.N = 0
	verifhook.Next = 1 << 62
	verifhook.Slow = s.slow
	time.SimClock = s.readClock
	sync.SimSetBlock(s.blocked)
	runtime.SimChanBlock = s.chanBlocked
	for i, b := range bodies {
		t := &task{id: i, wake: make(chan struct{}), over: make(chan struct{}), fn: b}
		s.tasks = append(s.tasks, t)
	}
	ready := make(chan struct{})
	for _, t := range s.tasks {
		t := t
		go func() {
			t.goid = runtime.SimGoid()
			runtime.SimSend(ready)
			runtime.SimRecv(t.wake)
			defer s.finish(t)
			t.fn()
		}()
		runtime.SimRecv(ready)
	}
	s.plan(true)
	first := s.tasks[0]
	if s.sched.Fixed && s.hasNext && s.next.At == 0 && s.next.To < len(s.tasks) {
		first = s.tasks[s.next.To]
		s.pi++
		s.plan(true)
	} else if !s.sched.Fixed && s.sched.Gap > 0 && len(s.tasks) > 1 {
		first = s.tasks[s.rng.N(len(s.tasks))]
		s.rec = append(s.rec, Pre{0, first.id})
	}
	first.state = tsRunning
	s.cur = first
	s.since = verifhook.N
	s.arm()
	runtime.SimSend(first.wake)
	runtime.SimRecv(s.done)
	time.SimClock = nil
	sync.SimSetBlock(nil)
	runtime.SimChanBlock = nil
	for _, t := range s.tasks {
		<-t.over
	}
	verifhook.Slow = func() {}
	verifhook.Next = 1 << 62
	theSim = nil
	s.Ctr.Runs++
	s.Ctr.Steps += verifhook.N
	s.Ctr.SimNs += s.nowNs
	if verifhook.Spawned > 0 {
		s.Ctr.Probes["library-goroutines"]++
	}
	s.event("end", verifhook.N, int64(s.nowNs), int64(s.clockN))
}

func (s *Sim) readClock() (int64, int32) {
	s.clockN++
	s.Ctr.ClockReads++
	s.nowNs += s.clock.Tick
	for _, j := range s.clock.Jumps {
		if j.At == s.clockN {
			s.nowNs += j.Delta * 1e9
			s.fault("clock-jump")
		}
	}
	s.event("clock", int64(s.clockN), s.nowNs, 0)
	t := s.clock.Base*1 + floorDiv(s.nowNs, 1e9)
	ns := s.nowNs - floorDiv(s.nowNs, 1e9)*1e9
	if s.cur != nil {
		s.cur.clk = ClockSpec{Base: t, Tick: ns}
	}
	return t, int32(ns)
}

func floorDiv(a, b int64) int64 {
	q := a / b
	if a%b < 0 {
		q--
	}
	return q
}

// panicText describes a recovered panic by value and the library frame it left.
func panicText(v interface{}) string {
	pcs := make([]uintptr, 64)
	n := runtime.Callers(3, pcs)
	fr := runtime.CallersFrames(pcs[:n])
	where := "?"
	for {
		f, more := fr.Next()
		if strings.HasPrefix(f.Function, "github.com/avast/apkverifier") && !strings.Contains(f.Function, "verifhook") {
			where = f.Function[strings.LastIndex(f.Function, "/")+1:]
			break
		}
		if !more {
			break
		}
	}
	return fmt.Sprintf("%s: %v", where, v)
}
