package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"reflect"
	"strings"
	"time"
)

// The minimiser shrinks a violating scenario while the same class of violation
// still occurs: fewer clients and calls, fewer preemptions, faults, edits and
// clock jumps, calmer delivery. For violations which are differences between
// two executions of the same history it also shrinks the APKs themselves; where
// the oracle relies on how an APK was signed those stay as they were drawn.

var differential = map[string]bool{
	"panic": true, "no-progress": true, "handle-leak": true, "use-after-close": true,
	"verdict-depends-on-delivery": true, "verdict-depends-on-run": true,
	"concurrent-callers-interfere": true, "concurrent-callers-deadlock": true, "concurrent-callers-block": true, "data-race": true,
	"history-dependent": true, "caller-zip-left-in-use": true, "verdict-changed-by-fault": true,
	"accepted-only-under-fault": true, "stamp-changed-by-fault": true, "frosting-changed-by-fault": true,
}

type minimiser struct {
	p        *Prop
	r        *Replay
	best     *Scenario
	out      string
	deadline time.Time
	tried    int
	kept     int
}

func cloneScenario(sc *Scenario) *Scenario {
	b, _ := json.Marshal(sc)
	n := new(Scenario)
	if err := json.Unmarshal(b, n); err != nil {
		fatal("clone: %v", err)
	}
	return n
}

func (m *minimiser) over() bool { return time.Now().After(m.deadline) }

func refsOK(sc *Scenario) bool {
	if len(sc.Tasks) == 0 {
		return false
	}
	for i := range sc.Stores {
		if sc.Stores[i].Base >= len(sc.Apks) {
			return false
		}
		for _, e := range sc.Stores[i].Edits {
			if e.From > len(sc.Apks) {
				return false
			}
		}
	}
	n := 0
	for _, t := range sc.Tasks {
		for _, o := range t {
			n++
			if o.Store >= len(sc.Stores) && len(sc.Stores) > 0 {
				return false
			}
		}
	}
	return n > 0
}

func (m *minimiser) judge(sc *Scenario) (v []Violation) {
	defer func() {
		if recover() != nil {
			v = nil // the candidate is not a scenario this property can judge
		}
	}()
	return judgeScenario(m.p, sc, newCounters())
}

// try keeps the candidate if it still shows the violation.
func (m *minimiser) try(change func(sc *Scenario) bool) bool {
	if m.over() {
		return false
	}
	c := cloneScenario(m.best)
	if !change(c) || !refsOK(c) {
		return false
	}
	m.tried++
	for _, v := range m.judge(cloneScenario(c)) {
		if v.Class == m.r.Class {
			m.kept++
			m.best = c
			m.r.Detail = v.Detail
			m.r.RunHash = fmt.Sprintf("%016x", runHash)
			m.save()
			return true
		}
	}
	return false
}

func (m *minimiser) save() {
	r := *m.r
	r.Scenario, r.Minimised, r.Trace = m.best, true, nil
	b, _ := json.MarshalIndent(&r, "", " ")
	os.WriteFile(m.out+".tmp", append(b, '\n'), 0644)
	os.Rename(m.out+".tmp", m.out)
}

// ddmin removes chunks of a list of n elements, largest first.
func (m *minimiser) ddmin(n func(sc *Scenario) int, cut func(sc *Scenario, i, j int)) bool {
	any := false
	for size := n(m.best); size >= 1; size /= 2 {
		for i := 0; i < n(m.best) && !m.over(); {
			j := i + size
			if j > n(m.best) {
				j = n(m.best)
			}
			if m.try(func(sc *Scenario) bool { cut(sc, i, j); return true }) {
				any = true
			} else {
				i += size
			}
		}
	}
	return any
}

// shrinkValue offers simpler versions of every field below v; it reports
// through try, addressing the same field of a fresh clone by path.
func (m *minimiser) shrinkValue(get func(sc *Scenario) reflect.Value, skip map[string]bool) bool {
	any := false
	v := get(m.best)
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			return false
		}
		if m.try(func(sc *Scenario) bool { x := get(sc); x.Set(reflect.Zero(x.Type())); return true }) {
			return true
		}
		return m.shrinkValue(func(sc *Scenario) reflect.Value { return get(sc).Elem() }, skip)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if skip[v.Type().Field(i).Name] {
				continue
			}
			i := i
			if m.shrinkValue(func(sc *Scenario) reflect.Value { return get(sc).Field(i) }, skip) {
				any = true
			}
		}
	case reflect.Slice:
		any = m.ddmin(func(sc *Scenario) int { return get(sc).Len() }, func(sc *Scenario, i, j int) {
			x := get(sc)
			n := reflect.AppendSlice(reflect.MakeSlice(x.Type(), 0, x.Len()), x.Slice(0, i))
			x.Set(reflect.AppendSlice(n, x.Slice(j, x.Len())))
		})
		for i := 0; i < get(m.best).Len() && !m.over(); i++ {
			i := i
			if m.shrinkValue(func(sc *Scenario) reflect.Value { return get(sc).Index(i) }, skip) {
				any = true
			}
		}
	case reflect.Bool:
		if v.Bool() {
			any = m.try(func(sc *Scenario) bool { get(sc).SetBool(false); return true })
		}
	case reflect.Int, reflect.Int32, reflect.Int64:
		for _, to := range []int64{0, v.Int() / 16, v.Int() / 2, v.Int() - 1} {
			if to != v.Int() && v.Int() > 0 && m.try(func(sc *Scenario) bool { get(sc).SetInt(to); return true }) {
				return true
			}
		}
	case reflect.Uint32, reflect.Uint64:
		if v.Uint() != 0 {
			any = m.try(func(sc *Scenario) bool { get(sc).SetUint(0); return true })
		}
	}
	return any
}

func (m *minimiser) pass() bool {
	any := false
	// clients, then their calls
	any = m.ddmin(func(sc *Scenario) int { return len(sc.Tasks) }, func(sc *Scenario, i, j int) {
		sc.Tasks = append(sc.Tasks[:i], sc.Tasks[j:]...)
	}) || any
	for t := 0; t < len(m.best.Tasks); t++ {
		t := t
		any = m.ddmin(func(sc *Scenario) int { return len(sc.Tasks[t]) }, func(sc *Scenario, i, j int) {
			sc.Tasks[t] = append(sc.Tasks[t][:i], sc.Tasks[t][j:]...)
		}) || any
	}
	any = m.ddmin(func(sc *Scenario) int { return len(sc.Sched.Pre) }, func(sc *Scenario, i, j int) {
		sc.Sched.Pre = append(sc.Sched.Pre[:i], sc.Sched.Pre[j:]...)
	}) || any
	any = m.ddmin(func(sc *Scenario) int { return len(sc.Clock.Jumps) }, func(sc *Scenario, i, j int) {
		sc.Clock.Jumps = append(sc.Clock.Jumps[:i], sc.Clock.Jumps[j:]...)
	}) || any
	for s := range m.best.Stores {
		s := s
		any = m.ddmin(func(sc *Scenario) int { return len(sc.Stores[s].Edits) }, func(sc *Scenario, i, j int) {
			sc.Stores[s].Edits = append(sc.Stores[s].Edits[:i], sc.Stores[s].Edits[j:]...)
		}) || any
	}
	for t := range m.best.Tasks {
		for o := range m.best.Tasks[t] {
			t, o := t, o
			any = m.shrinkValue(func(sc *Scenario) reflect.Value { return reflect.ValueOf(&sc.Tasks[t][o].Env).Elem() }, nil) || any
			any = m.shrinkValue(func(sc *Scenario) reflect.Value { return reflect.ValueOf(&sc.Tasks[t][o].ZEnv).Elem() }, nil) || any
		}
	}
	if differential[m.r.Class] || strings.HasPrefix(m.r.Class, "panic") {
		for a := range m.best.Apks {
			a := a
			any = m.shrinkValue(func(sc *Scenario) reflect.Value { return reflect.ValueOf(&sc.Apks[a]).Elem() }, map[string]bool{"Fill": true, "Ver": true, "Order": true}) || any
		}
	}
	return any
}

func minimise(args []string) {
	fs := flag.NewFlagSet("minimise", flag.ExitOnError)
	out := fs.String("out", "", "")
	secs := fs.Float64("secs", 30, "")
	fs.Parse(args)
	b, err := os.ReadFile(fs.Arg(0))
	if err != nil {
		fatal("%v", err)
	}
	var r Replay
	if err := json.Unmarshal(b, &r); err != nil {
		fatal("%v", err)
	}
	if r.Class == "data-race" && !raceBuild {
		execRace(os.Args[1:])
	}
	baseSeed = r.BaseSeed
	p := propByID(r.Property)
	if p == nil || r.Scenario == nil {
		fatal("nothing to minimise")
	}
	setup()
	m := &minimiser{p: p, r: &r, best: r.Scenario, out: *out, deadline: time.Now().Add(time.Duration(*secs * float64(time.Second)))}
	if !m.try(func(*Scenario) bool { return true }) {
		fatal("the violation does not occur")
	}
	for !m.over() && m.pass() {
	}
	m.save()
	if raceBuild {
		raceCleanup(os.Getenv("GORACE"))
	}
	fmt.Printf("%d candidates, %d kept\n", m.tried, m.kept)
}
