package main

import (
	"encoding/json"
	"os"
	"path/filepath"
	"strconv"
)

var components = map[string]interface{}{
	"real": []string{
		"apkverifier (all packages, compiled from /repo's working tree with a scheduling point before every statement)",
		"github.com/avast/apkparser and the Go standard library's crypto, ASN.1, zip and flate code",
	},
	"simulated": []string{
		"goroutine scheduling: one client runs at a time, the seeded scheduler decides at every statement and every reader call",
		"storage: the io.ReadSeeker/io.ReaderAt handed over, and os.Open/Stat/Read/Seek/Close below the path APIs, are a seeded fault-injecting disk",
		"time.Now and every hash seed of Go maps, math/rand and crypto/rand",
		"process restarts: package-level variables of the library are set back, sync.Pools emptied, a new hash seed drawn",
		"publishers, attackers, the Play frosting key and the source stamp authority: in-process signers with committed test keys; what they signed is the reference model",
	},
	"stub": []string{"the hard-coded Play frosting public key is replaced by a test key at build time"},
}

var assumptions = []string{
	"Go's crypto primitives, encoding/asn1 and compress/flate are right",
	"the reference model (APK writer, signing log and per-property oracle in /verif/sim) describes what a verifier has to do",
	"concurrency is explored at statement granularity with sequentially consistent memory",
	"a clean run covers the histories drawn from this seed, not all of them",
}

func writeEvidence(dir string, m *master, tier, seed string, wall float64, violations, known, nw int) {
	n, err := strconv.ParseInt(seed, 10, 64)
	if err != nil {
		n = int64(strSeed(seed) >> 1)
	}
	h := histories(m)
	perHour := 0.0
	runsPerHour := 0.0
	if wall > 0 {
		perHour = float64(h) / wall * 3600
		runsPerHour = float64(m.ctr.Runs) / wall * 3600
	}
	samples := m.samples
	if len(samples) > 6 {
		samples = samples[:6]
	}
	if len(samples) == 0 {
		samples = []string{"no history was completed"}
	}
	probes := map[string]int64{}
	for k, v := range m.ctr.Probes {
		if k != "histories" {
			probes[k] = v
		}
	}
	var classes []string
	for c := range m.found {
		classes = append(classes, c)
	}
	ev := map[string]interface{}{
		"property":   m.prop.ID,
		"tier":       tier,
		"seed":       n,
		"level":      "exploration",
		"wall_s":     wall,
		"violations": violations,
		"coverage": map[string]interface{}{
			"evaluations":                  h,
			"distinct_nontrivial":          len(m.ctr.Sigs),
			"rule":                         "A history is drawn from (seed, property, index): APKs as their publishers built and signed them, what the disk did to them, the calls of every client, the delivery and fault plan of every reader, preemptions, clock and hash seeds. Two executions are distinct if the hash over their whole event log differs (every reader operation with its arguments and result, every injected fault, context switch, clock reading, and the observed outcome, each at its statement count); one is non-trivial if it has at least 8 events, that is, the library read past opening the file, or compares two or more certificates (then the candidates count as part of the execution).",
			"samples":                      samples,
			"simulated_executions":         m.ctr.Runs,
			"library_calls":                m.ctr.Ops,
			"statements_scheduled":         m.ctr.Steps,
			"reader_operations":            m.ctr.Reads,
			"context_switches":             m.ctr.Switches,
			"clock_readings":               m.ctr.ClockReads,
			"simulated_seconds":            float64(m.ctr.SimNs) / 1e9,
			"seeds_per_hour":               perHour,
			"runs_per_hour":                runsPerHour,
			"faults_injected":              m.ctr.Faults,
			"probes":                       probes,
			"worker_processes":             nw,
			"histories_repeated_elsewhere": len(m.hashes),
			"repeats_that_differed":        m.ndiff,
			"worker_deaths":                len(m.deaths),
			"violation_classes":            classes,
			"known_findings_seen":          known,
			"components":                   components,
		},
		"assumptions": assumptions,
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		fatal("evidence: %v", err)
	}
	d := filepath.Join(dir, "evidence")
	os.MkdirAll(d, 0755)
	if err := os.WriteFile(filepath.Join(d, m.prop.ID+".json"), append(b, '\n'), 0644); err != nil {
		fatal("evidence: %v", err)
	}
}
