package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"time"
)

func (ck *check) evidence(e *env, violations int) error {
	s := e.st
	wall := time.Since(e.t0).Seconds()
	cov := map[string]any{
		"evaluations":         s.runs,
		"distinct_nontrivial": len(s.nontriv),
		"rule":                ck.rule,
		"samples":             s.samples,
		"simulated_runs":      s.runs,
		"seeds_per_hour":      int(float64(s.runs) / wall * 3600),
		"distinct_histories":  len(s.hashes),
		"calls_checked":       s.ops,
		"simulated_steps":     s.steps,
		"simulated_seconds":   float64(s.simNS) / 1e9,
		"context_switches":    s.switches,
		"blocked_waits":       s.contend,
		"visible_failures":    s.errs,
		"startup_failures":    s.startup,
		"faults_injected":     s.faults,
		"seams_used":          s.seams,
		"schedule_kinds":      s.kinds,
		"binaries":            s.variants,
		"counters":            s.info,
		"solo_references":     len(e.rf.m),
		"solo_without_answer": e.rf.bad,
		"determinism_reruns":  s.detRuns,
		"determinism_differs": s.detBad,
		"build_seconds":       e.b.times,
	}
	if len(s.samples) == 0 {
		cov["samples"] = []any{"no completed run"}
	}
	if s.lateWarm > 0 {
		cov["late_warm_ups"] = s.lateWarm
	}
	if len(s.unrepro) > 0 {
		cov["not_reproduced"] = s.unrepro
	}
	lv := map[string]int{}
	for v, i := range e.b.info {
		lv[v] = i.level
		if i.level == 2 {
			cov["instrumentation "+v] = i.stats
		}
	}
	cov["instrumentation_level"] = lv
	real := ck.real
	if real == "" {
		real = "the whole library (all packages of the module, rewritten only at its seams), protobuf, regexp, gzip, maps"
	}
	stub := ck.stub
	if stub == "" {
		stub = "sync, channels and goroutine scheduling, clock, math/rand, map iteration order, the file layer of embedded data"
	}
	cov["real_components"] = real
	cov["stubbed_components"] = stub
	ev := map[string]any{
		"property": e.id, "tier": tier, "seed": seed, "level": levelOf(e.id), "coverage": cov, "wall_s": wall, "violations": violations,
	}
	as := append([]string{"one simulated task runs at a time and may be preempted before any statement of the module's own code, not inside the standard library or between the operands of one statement"}, ck.assume...)
	ev["assumptions"] = as
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		return err
	}
	dir := filepath.Join(verifDir, "evidence")
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return err
	}
	return os.WriteFile(filepath.Join(dir, e.id+".json"), append(b, '\n'), 0o644)
}

func levelOf(id string) string {
	switch id {
	case "C13", "C14", "C16":
		return "fault_enumeration"
	}
	return "exploration"
}

func runCheck(id string) int {
	ck, ok := checks[id]
	if !ok {
		fmt.Fprintln(os.Stderr, "no check for", id)
		return 2
	}
	e := &env{id: id, t0: time.Now(), st: newStats(), full: 75 * time.Second}
	if tier == "thorough" {
		e.full = 12 * time.Minute
	}
	var err error
	if e.b, err = newBuilder(); err != nil {
		fmt.Fprintln(os.Stderr, "simdrv:", err)
		return 2
	}
	defer e.b.close()
	if e.c, err = loadCorpus(); err == nil {
		e.data, err = loadTables()
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "simdrv:", err)
		return 2
	}
	e.rf = &refs{b: e.b, c: e.c, m: map[string]string{}}
	if os.Getenv("VERIF_RUNS") != "" {
		fmt.Sscan(os.Getenv("VERIF_RUNS"), &ck.quick)
	}
	f, err := ck.campaign(e)
	if err != nil {
		fmt.Fprintln(os.Stderr, "simdrv:", err)
		return 2
	}
	for _, u := range e.st.unrepro {
		fmt.Fprintln(os.Stderr, "simdrv: seen once, not reproduced on rerun, not reported:", clip(u, 600))
	}
	if f == nil {
		if err := ck.evidence(e, 0); err != nil {
			fmt.Fprintln(os.Stderr, "simdrv:", err)
			return 2
		}
		fmt.Printf("%s: held on %d simulated runs, %d calls, %d steps, %d distinct histories, %.0f s\n", id, e.st.runs, e.st.ops, e.st.steps, len(e.st.hashes), time.Since(e.t0).Seconds())
		return 0
	}
	sh := &shrinker{ck: ck, e: e, best: f.job, v: f.v, until: time.Now().Add(45 * time.Second)}
	sh.minimise()
	f.job, f.v = sh.best, sh.v
	path, err := writeReplay(e, f)
	if err != nil {
		fmt.Fprintln(os.Stderr, "simdrv:", err)
		return 2
	}
	ck.evidence(e, 1)
	fmt.Printf("%s: %s: %s\n", id, f.v.Kind, clip(f.v.Desc, 800))
	if f.v.Want != "" || f.v.Got != "" {
		fmt.Printf("  want %s\n  got  %s\n", clip(f.v.Want, 500), clip(f.v.Got, 500))
	}
	for i, l := range story(e.b, f.job, f.v) {
		if i == 25 {
			break
		}
		fmt.Println("  " + clip(l, 400))
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
	return 1
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return strings.ToValidUTF8(s, "?")
}

func runReplay(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	rp := &Replay{}
	if err := json.Unmarshal(b, rp); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	ck := checks[rp.Property]
	bl, err := newBuilder()
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer bl.close()
	res, err := bl.exec(rp.Job)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	for _, v := range ck.mine(judge(rp.Job, res)) {
		if same(v, rp.Violation) {
			exact := v == rp.Violation
			fmt.Printf("%s: %s: %s\n  want %s\n  got  %s\n  identical to the recorded violation: %v\n", rp.Property, v.Kind, v.Desc, v.Want, v.Got, exact)
			for _, l := range rp.Story {
				fmt.Println("  " + l)
			}
			fmt.Printf("VIOLATION property=%s replay=%s\n", rp.Property, path)
			return 1
		}
	}
	fmt.Println("the recorded violation does not occur on this tree")
	return 0
}
