package main

// Campaigns: many seeded runs, then minimisation and reporting.

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"
)

// env is everything a check's generator can use.
type env struct {
	b    *builder
	c    *corpus
	data *dataTables
	rf   *refs
	id   string
	t0   time.Time
	full time.Duration // wall budget of the campaign
	st   *stats
}

type stats struct {
	mu       sync.Mutex
	runs     int
	ops      int
	errs     int
	steps    uint64
	simNS    int64
	switches int
	contend  int
	hashes   map[uint64]bool
	nontriv  map[uint64]bool
	faults   map[string]int
	seams    map[string]int
	info     map[string]int
	kinds    map[string]int
	variants map[string]int
	startup  int
	detRuns  int
	detBad   int
	unrepro  []string
	lateWarm int
	samples  []any
	simWall  float64
}

func newStats() *stats {
	return &stats{hashes: map[uint64]bool{}, nontriv: map[uint64]bool{}, faults: map[string]int{}, seams: map[string]int{}, info: map[string]int{}, kinds: map[string]int{}, variants: map[string]int{}}
}

func (s *stats) add(j *Job, r *Result) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.runs++
	s.simWall += r.Wall.Seconds()
	s.variants[j.Variant]++
	if r.MetaRep != nil {
		s.addMeta(j, r)
		return
	}
	if r.Rep == nil {
		s.startup++
		if j.Faults != nil {
			for _, f := range j.Faults.Faults {
				s.faults[f.Kind+" (start-up)"]++
			}
			h := hashString(fmt.Sprint(j.Faults.Faults[0]))
			s.hashes[h] = true
			s.nontriv[h] = true
		}
		return
	}
	p := r.Rep
	s.ops += p.Ops
	s.errs += p.Errs
	s.steps += p.Out.Steps
	s.simNS += int64(p.Out.Steps) * 1000
	s.switches += p.Out.Switches
	s.contend += p.Out.Contend
	h := p.Out.Hash ^ p.Log*31
	if j.Faults != nil {
		b, _ := json.Marshal(j.Faults)
		h ^= hashString(string(b))
	}
	if j.Spec.Leak != nil {
		h ^= hashString(fmt.Sprint(*j.Spec.Leak))
	}
	s.hashes[h] = true
	if p.Out.Switches > len(j.Spec.Tasks) || len(p.Faults) > 0 || p.Ops >= 10 {
		s.nontriv[h] = true
	}
	s.kinds[j.Spec.Sched.Kind]++
	for k, v := range p.Faults {
		s.faults[k] += v
	}
	for k, v := range p.Seams {
		s.seams[k] += v
	}
	for k, v := range p.Info {
		if strings.HasPrefix(k, "max ") {
			s.info[k] = max(s.info[k], v)
		} else {
			s.info[k] += v
		}
	}
	if len(s.samples) < 3 {
		s.samples = append(s.samples, sample(j, r))
	}
}

func hashString(s string) uint64 {
	h := uint64(0xcbf29ce484222325)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 0x100000001b3
	}
	return h
}

func sample(j *Job, r *Result) any {
	var tasks [][]string
	for _, t := range j.Spec.Tasks {
		var l []string
		for i, o := range t {
			if i == 6 {
				l = append(l, fmt.Sprintf("... %d more", len(t)-i))
				break
			}
			l = append(l, o.String())
		}
		tasks = append(tasks, l)
	}
	m := map[string]any{"seed": j.Seed, "variant": j.Variant, "schedule": fmt.Sprintf("%s mean=%d depth=%d seed=%d", j.Spec.Sched.Kind, j.Spec.Sched.Mean, j.Spec.Sched.Depth, j.Spec.Sched.Seed), "tasks": tasks,
		"steps": r.Rep.Out.Steps, "switches": r.Rep.Out.Switches, "interleaving": fmt.Sprintf("%016x", r.Rep.Out.Hash)}
	if j.Faults != nil {
		m["faults"] = j.Faults.Faults
	}
	return m
}

// check is one property's machinery.
type check struct {
	id       string
	variants []string
	// quick and thorough numbers of runs
	quick, thorough int
	// prepare fills references; it may use e.rf.
	prepare func(e *env, n int) error
	// job makes run number i.
	job func(e *env, r *RNG, i int) *Job
	// note is filled into the evidence
	rule     string
	nontriv  string
	assume   []string
	real     string
	stub     string
	custom   func(e *env) ([]*found, error) // replaces the campaign entirely
	keep     func(v Viol) bool              // which violation kinds belong to the property
	minSteps bool
}

// found is a confirmed violation.
type found struct {
	job *Job
	v   Viol
	all []Viol
}

func (ck *check) mine(vs []Viol) []Viol {
	if ck.keep == nil {
		return vs
	}
	var out []Viol
	for _, v := range vs {
		if ck.keep(v) {
			out = append(out, v)
		}
	}
	return out
}

func (ck *check) campaign(e *env) (*found, error) {
	n := ck.quick
	if tier == "thorough" {
		n = ck.thorough
	}
	// builds in parallel with reference computation
	var wg sync.WaitGroup
	errs := make([]error, len(ck.variants)+1)
	for i, v := range ck.variants {
		if v == "race" {
			wg.Add(1)
			go func() {
				defer wg.Done()
				_, _, errs[i] = e.b.build(v)
			}()
		}
	}
	for i, v := range ck.variants {
		if v != "race" {
			_, _, errs[i] = e.b.build(v)
		}
	}
	if ck.prepare != nil {
		errs[len(ck.variants)] = ck.prepare(e, n)
	}
	wg.Wait()
	for _, err := range errs {
		if err != nil {
			return nil, err
		}
	}
	if ck.custom != nil {
		fs, err := ck.custom(e)
		if err != nil || len(fs) == 0 {
			return nil, err
		}
		return fs[0], nil
	}
	deadline := e.t0.Add(e.full)
	var mu sync.Mutex
	var hit *found
	var hitIdx = 1 << 60
	var firstErr error
	stop := func() bool {
		mu.Lock()
		defer mu.Unlock()
		return hit != nil || firstErr != nil || time.Now().After(deadline)
	}
	parallel(n, workers, stop, func(i int) {
		r := newRNG(e.id, uint64(i))
		j := ck.job(e, r, i)
		if j == nil {
			return
		}
		j.Seed = uint64(i)
		if j.auto {
			if err := e.autoref(j, r); err != nil {
				mu.Lock()
				firstErr = err
				mu.Unlock()
				return
			}
		}
		res, err := e.b.exec(j)
		if err != nil {
			mu.Lock()
			firstErr = err
			mu.Unlock()
			return
		}
		e.st.add(j, res)
		vs := ck.mine(judge(j, res))
		if len(vs) > 0 && j.auto && vs[0].Kind == "answer" {
			j = ck.settle(e, j, vs)
			if res, err = e.b.exec(j); err == nil {
				vs = ck.mine(judge(j, res))
			}
		}
		if len(vs) > 0 {
			if ok, v, all := ck.confirm(e, j, vs[0]); ok {
				mu.Lock()
				if i < hitIdx {
					hit, hitIdx = &found{job: j, v: v, all: all}, i
				}
				mu.Unlock()
			} else if j.Spec != nil && j.Spec.Mode == "leak" && vs[0].Kind == "memory" {
				// something built late and kept, not growth without end
				e.st.mu.Lock()
				e.st.lateWarm++
				e.st.mu.Unlock()
			} else {
				e.st.mu.Lock()
				e.st.unrepro = append(e.st.unrepro, fmt.Sprintf("run %d: %s %s want %q got %q", i, vs[0].Kind, vs[0].Desc, vs[0].Want, vs[0].Got))
				e.st.mu.Unlock()
			}
			return
		}
		// determinism self-check on a sample of the runs
		if i%37 == 5 && res.Rep != nil {
			r2, err := e.b.exec(j)
			if err == nil && r2.Rep != nil {
				e.st.mu.Lock()
				e.st.detRuns++
				if r2.Rep.Out.Hash != res.Rep.Out.Hash || r2.Rep.Log != res.Rep.Log || r2.Rep.Out.Steps != res.Rep.Out.Steps {
					e.st.detBad++
				}
				e.st.mu.Unlock()
			}
		}
	})
	return hit, firstErr
}

// same says whether two violations are the same finding.
func same(a, b Viol) bool {
	if a.Kind != b.Kind {
		return false
	}
	switch a.Kind {
	case "answer":
		fa, _, _ := strings.Cut(a.Desc, "(")
		fb, _, _ := strings.Cut(b.Desc, "(")
		return fa == fb
	}
	return true
}

// confirm runs the job again and looks for the same violation.
func (ck *check) confirm(e *env, j *Job, v Viol) (bool, Viol, []Viol) {
	if j.Spec != nil && j.Spec.Mode == "leak" {
		longer := []int{8, 8, 24}
		steady := strings.Contains(v.Desc, "in each of the last")
		if v.Kind == "goroutines" || strings.Contains(v.Desc, "last four epochs") {
			longer = longer[:2]
		}
		for k := 0; k < len(longer); k++ {
			by := longer[k]
			o := clone(j)
			o.Spec.Leak.Calls *= by
			o.Spec.Leak.Seed += uint64(k)
			o.Secs *= by
			res, err := e.b.exec(o)
			if err != nil {
				return false, v, nil
			}
			held := true
			for _, w := range ck.mine(judge(o, res)) {
				if !same(v, w) {
					continue
				}
				held = false
				if steady && v.Kind == "memory" && !strings.Contains(w.Desc, "in each of the last") && len(longer) < 4 {
					// something that is emptied now and then goes up and down: what
					// grew in every epoch has to, or to grow in histories longer still
					longer = []int{8, 8, 24, 24}
				}
			}
			if held {
				return false, v, nil
			}
		}
		return true, v, []Viol{v}
	}
	tries := 3
	if v.Kind == "hang" {
		tries = 1
	}
	for k := 0; k < tries; k++ {
		res, err := e.b.exec(j)
		if err != nil {
			return false, v, nil
		}
		vs := ck.mine(judge(j, res))
		for _, w := range vs {
			if same(v, w) {
				return true, w, vs
			}
		}
	}
	return false, v, nil
}

// ---- minimisation ---------------------------------------------------------------

func clone(j *Job) *Job {
	b, _ := json.Marshal(j)
	c := &Job{}
	json.Unmarshal(b, c)
	return c
}

type shrinker struct {
	ck    *check
	e     *env
	best  *Job
	v     Viol
	until time.Time
	runs  int
}

func (s *shrinker) over() bool { return time.Now().After(s.until) || s.runs > 400 }

// try runs a candidate (under a few schedules when the schedule is still free) and
// adopts it when the violation is still there.
func (s *shrinker) try(c *Job, reseed int) bool {
	if s.over() {
		return false
	}
	for k := 0; k <= reseed; k++ {
		if s.over() {
			return false
		}
		if k > 0 {
			c = clone(c)
			c.Spec.Sched.Seed += uint64(7919 * k)
		}
		s.runs++
		res, err := s.e.b.exec(c)
		if err != nil {
			return false
		}
		for _, w := range s.ck.mine(judge(c, res)) {
			if same(s.v, w) {
				s.best, s.v = c, w
				return true
			}
		}
	}
	return false
}

func (s *shrinker) minimise() {
	if s.best.Meta != nil {
		s.minimiseMeta()
		return
	}
	if s.best.Spec == nil || s.best.Spec.Mode == "leak" || s.v.Kind == "hang" {
		return
	}
	reseed := 0
	if len(s.best.Spec.Tasks) > 1 && s.best.Spec.Sched.Kind != "serial" {
		reseed = 4
	}
	for changed := true; changed && !s.over(); {
		changed = false
		// whole tasks
		for i := len(s.best.Spec.Tasks) - 1; i >= 0 && len(s.best.Spec.Tasks) > 1; i-- {
			c := clone(s.best)
			c.Spec.Tasks = append(c.Spec.Tasks[:i], c.Spec.Tasks[i+1:]...)
			if s.try(c, reseed) {
				changed = true
			}
		}
		// chunks of operations, then single ones
		for i := range s.best.Spec.Tasks {
			for size := len(s.best.Spec.Tasks[i]) / 2; size >= 1 && !s.over(); size /= 2 {
				for at := 0; at < len(s.best.Spec.Tasks[i]); {
					end := min(at+size, len(s.best.Spec.Tasks[i]))
					if end-at == len(s.best.Spec.Tasks[i]) {
						break
					}
					c := clone(s.best)
					c.Spec.Tasks[i] = append(c.Spec.Tasks[i][:at], c.Spec.Tasks[i][end:]...)
					if s.try(c, reseed) {
						changed = true
					} else {
						at = end
					}
					if s.over() {
						break
					}
				}
			}
		}
		// faults
		if s.best.Faults != nil {
			for i := len(s.best.Faults.Faults) - 1; i >= 0; i-- {
				c := clone(s.best)
				c.Faults.Faults = append(c.Faults.Faults[:i], c.Faults.Faults[i+1:]...)
				if s.try(c, 0) {
					changed = true
				}
			}
		}
		// stretches of churn, halved
		for ti := range s.best.Spec.Tasks {
			for oi := range s.best.Spec.Tasks[ti] {
				for s.best.Spec.Tasks[ti][oi].F == "~churn" && s.best.Spec.Tasks[ti][oi].I[0] > 1 && !s.over() {
					c := clone(s.best)
					c.Spec.Tasks[ti][oi].I[0] /= 2
					if !s.try(c, 0) {
						break
					}
				}
			}
		}
		// keys and texts of single-operation sessions
		if s.shortenStrings() {
			changed = true
		}
	}
	// pin the schedule and drop switches
	if len(s.best.Spec.Tasks) > 1 || s.best.Spec.Sched.Kind != "serial" {
		c := clone(s.best)
		c.Spec.WantTrace = true
		res, err := s.e.b.exec(c)
		if err == nil && res.Rep != nil && res.Rep.Out.Switches == len(res.Rep.Out.Trace) && len(res.Rep.Out.Trace) < 20000 {
			c.Spec.WantTrace = false
			c.Spec.Sched.Kind = "replay"
			c.Spec.Sched.Trace = res.Rep.Out.Trace
			if s.try(c, 0) {
				for size := (len(s.best.Spec.Sched.Trace) + 1) / 2; size >= 1 && !s.over(); size /= 2 {
					for at := 0; at < len(s.best.Spec.Sched.Trace) && !s.over(); {
						d := clone(s.best)
						tr := d.Spec.Sched.Trace
						end := min(at+size, len(tr))
						d.Spec.Sched.Trace = append(tr[:at:at], tr[end:]...)
						if !s.try(d, 0) {
							at = end
						}
					}
				}
			}
		}
	}
}

// shortenStrings shortens key sequences of checks that are self-judging.
func (s *shrinker) shortenStrings() bool {
	did := false
	for ti := range s.best.Spec.Tasks {
		for oi := range s.best.Spec.Tasks[ti] {
			o := s.best.Spec.Tasks[ti][oi]
			var ai int
			switch o.F {
			case "~typed", "~pos":
				ai = 1
			case "~budget":
				ai = 0
			default:
				continue
			}
			for size := len([]rune(o.A[ai])) / 2; size >= 1; size /= 2 {
				for at := 0; !s.over(); {
					rs := []rune(s.best.Spec.Tasks[ti][oi].A[ai])
					if at >= len(rs) {
						break
					}
					end := min(at+size, len(rs))
					c := clone(s.best)
					c.Spec.Tasks[ti][oi].A[ai] = string(rs[:at]) + string(rs[end:])
					if s.try(c, 0) {
						did = true
					} else {
						at = end
					}
				}
			}
		}
	}
	return did
}

// ---- replay files -----------------------------------------------------------------

// Replay is the content of a replay file.
type Replay struct {
	Property  string   `json:"property"`
	Violation Viol     `json:"violation"`
	Others    []Viol   `json:"others,omitempty"`
	Seed      uint64   `json:"verif_seed"`
	Tier      string   `json:"tier"`
	Story     []string `json:"story"`
	Job       *Job     `json:"job"`
}

func story(b *builder, j *Job, v Viol) []string {
	var out []string
	if j.Meta != nil {
		return storyMeta(j)
	}
	if j.Faults != nil {
		for _, f := range j.Faults.Faults {
			out = append(out, fmt.Sprintf("fault %s on %s at=%d bit=%d count=%d skip=%d", f.Kind, f.File, f.At, f.Bit, f.Count, f.Skip))
		}
	}
	for ti, t := range j.Spec.Tasks {
		for oi, o := range t {
			out = append(out, fmt.Sprintf("task %d call %d: %s", ti, oi, o))
		}
	}
	if j.Spec.Sched.Kind == "replay" {
		_, info, err := b.build(j.Variant)
		if err == nil {
			for i, s := range j.Spec.Sched.Trace {
				if i == 40 {
					out = append(out, fmt.Sprintf("... %d more switches", len(j.Spec.Sched.Trace)-i))
					break
				}
				out = append(out, fmt.Sprintf("at step %d (%s, %s) control goes to task %d", s.Step, siteName(info, s.Site), s.Why, s.To))
			}
		}
	} else {
		out = append(out, fmt.Sprintf("schedule %s seed %d", j.Spec.Sched.Kind, j.Spec.Sched.Seed))
	}
	return out
}

func writeReplay(e *env, f *found) (string, error) {
	dir := filepath.Join(verifDir, "replays")
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return "", err
	}
	p := filepath.Join(dir, fmt.Sprintf("%s-seed%d.json", e.id, seed))
	rp := &Replay{Property: e.id, Violation: f.v, Others: f.all, Seed: seed, Tier: tier, Story: story(e.b, f.job, f.v), Job: f.job}
	b, err := json.MarshalIndent(rp, "", " ")
	if err != nil {
		return "", err
	}
	return p, os.WriteFile(p, append(b, '\n'), 0o644)
}

func sortedMap(m map[string]int) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
