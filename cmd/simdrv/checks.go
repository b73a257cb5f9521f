package main

// The checks: which runs decide which property.

import (
	"fmt"
	"math"
	"sort"
	"strings"
	"sync"

	"verif/overlay/zzsim"
)

func newRNG(id string, n uint64) *RNG {
	return zzsim.NewRNG(hashString(id) ^ (seed*0x9e3779b97f4a7c15 + n*0xd1342543de82ef95))
}

const coreKinds = "num num one one compare kin kin str str text type short meta pattern"

// ---- op pools --------------------------------------------------------------------

var (
	poolMu sync.Mutex
	pools  = map[string][][]*Op{}
)

// makePool generates clusters and their solo answers.
func makePool(e *env, name, kinds string, clusters, size int, containers ...int) error {
	g := &gen{c: e.c, r: newRNG(e.id+name, 1<<40), data: e.data}
	var cs [][]*Op
	var all []*Op
	for i := 0; i < clusters; i++ {
		c := g.cluster(kinds, size)
		cs = append(cs, c)
		all = append(all, c...)
	}
	if len(containers) == 0 {
		containers = []int{0}
	}
	for _, k := range containers {
		if err := e.rf.fill(all, k); err != nil {
			return err
		}
	}
	poolMu.Lock()
	defer poolMu.Unlock()
	if len(containers) == 1 && containers[0] == 0 {
		for i := range cs {
			cs[i] = e.rf.attach(cs[i], 0)
		}
		var keep [][]*Op
		for _, c := range cs {
			if len(c) > 0 {
				keep = append(keep, c)
			}
		}
		cs = keep
	}
	pools[name] = cs
	return nil
}

func pick(r *RNG, name string) []*Op {
	p := pools[name]
	return p[r.N(len(p))]
}

var funcPools = map[string][][]*Op{}

// funcsOf groups the calls of some pools by function.
func funcsOf(names ...string) [][]*Op {
	poolMu.Lock()
	defer poolMu.Unlock()
	key := strings.Join(names, " ")
	if p := funcPools[key]; p != nil {
		return p
	}
	m := map[string][]*Op{}
	var fs []string
	for _, n := range names {
		for _, c := range pools[n] {
			for _, o := range c {
				if m[o.F] == nil {
					fs = append(fs, o.F)
				}
				m[o.F] = append(m[o.F], o)
			}
		}
	}
	sort.Strings(fs)
	var p [][]*Op
	for _, f := range fs {
		p = append(p, m[f])
	}
	funcPools[key] = p
	return p
}

// scheduler draws a schedule for a run with the given number of tasks. heavy runs
// execute millions of steps (table loading) and get coarser quanta.
func scheduler(r *RNG, heavy bool) Sched {
	s := Sched{Seed: r.U64() >> 1, MaxStep: 400_000_000}
	switch k := r.N(24); {
	case k < 9:
		s.Kind = "random"
		means := []int{1, 2, 5, 12, 30, 80, 250, 1000, 6000}
		if heavy {
			means = []int{3, 20, 100, 500, 3000, 20000, 100000}
		}
		s.Mean = means[r.N(len(means))]
	case k < 11:
		s.Kind = "rr"
		means := []int{1, 2, 3, 7, 20, 100}
		if heavy {
			means = []int{7, 100, 1000, 10000}
		}
		s.Mean = means[r.N(len(means))]
	case k < 15:
		s.Kind = "pct"
		s.Depth = 1 + r.N(5)
		ests := []int{500, 3000, 12000, 60000, 300000}
		if heavy {
			ests = []int{3000, 60000, 400000, 2000000}
		}
		s.Est = ests[r.N(len(ests))]
	case k < 18:
		s.Kind = "sync"
	case k < 19:
		s.Kind = "site"
	case k < 23:
		s.Kind = "stall"
		s.Mean = []int{4, 15, 60, 250}[r.N(4)]
	default:
		s.Kind = "serial"
	}
	return s
}

func baseSpec(e *env) *Spec {
	return &Spec{Mode: "sim", Regions: e.c.Regions, NonGeo: e.c.NonGeo}
}

func isHeavy(tasks [][]*Op) bool {
	for _, t := range tasks {
		for _, o := range t {
			if strings.Contains(o.F, "carrier.") || strings.Contains(o.F, "geocoding.") || strings.Contains(o.F, "timezone.") {
				return true
			}
		}
	}
	return false
}

// concurrentTasks draws tasks whose calls come from a few shared clusters, so that
// tasks meet on the same regions, tables and inputs.
func concurrentTasks(r *RNG, pool string, maxTasks, maxOps int) [][]*Op {
	var cls [][]*Op
	for i := 1 + r.N(3); i > 0; i-- {
		cls = append(cls, pick(r, pool))
	}
	return tasksFrom(r, cls, maxTasks, maxOps)
}

// fresh draws clusters of calls nobody has made before; their answers are found by
// autoref.
func fresh(e *env, r *RNG, kinds string, n, size int) [][]*Op {
	g := &gen{c: e.c, r: r, data: e.data}
	var cls [][]*Op
	for len(cls) < n {
		if c := g.cluster(kinds, size); len(c) > 0 {
			cls = append(cls, c)
		}
	}
	return cls
}

func tasksFrom(r *RNG, cls [][]*Op, maxTasks, maxOps int) [][]*Op {
	nt := 2 + r.N(maxTasks-1)
	sameAll := r.N(4) == 0 // all tasks make the same calls
	var tasks [][]*Op
	for t := 0; t < nt; t++ {
		var ops []*Op
		if sameAll && t > 0 {
			ops = append(ops, tasks[0]...)
			if r.N(2) == 0 {
				for i := len(ops) - 1; i > 0; i-- {
					k := r.N(i + 1)
					ops[i], ops[k] = ops[k], ops[i]
				}
			}
		} else {
			for k := 1 + r.N(maxOps); k > 0; k-- {
				c := cls[r.N(len(cls))]
				ops = append(ops, c[r.N(len(c))])
			}
		}
		tasks = append(tasks, ops)
	}
	return tasks
}

// loopTasks draws tasks that make the same few calls over and over, so that they keep
// meeting in the states a long-running process is in.
func loopTasks(r *RNG, pool string, n int) [][]*Op {
	c := pick(r, pool)
	d := c
	n0 := 1 + r.N(4)
	if r.N(2) == 0 { // two kinds of calls meeting
		d = pick(r, pool)
		n0 += 1 + r.N(4)
	}
	few := make([]*Op, n0)
	for i := range few {
		few[i] = c[r.N(len(c))]
		c, d = d, c
	}
	tasks := make([][]*Op, 2+r.N(3))
	for t := range tasks {
		for k := n/2 + r.N(n); k > 0; k-- {
			tasks[t] = append(tasks[t], few[r.N(len(few))])
		}
	}
	return tasks
}

func scale(q, t int) int {
	if tier == "thorough" {
		return t
	}
	return q
}

var checks = map[string]*check{}

func register(c *check) { checks[c.id] = c }

func init() {
	register(&check{
		id: "C01", variants: []string{"plain", "race", "sim"}, quick: 2300, thorough: 60000,
		prepare: func(e *env, n int) error {
			if err := makePool(e, "loop", "kin kin kin edge one num num str short type text meta", scale(240, 1500), 8); err != nil {
				return err
			}
			return makePool(e, "core", coreKinds, scale(260, 2500), 10)
		},
		job: func(e *env, r *RNG, i int) *Job {
			s := baseSpec(e)
			if i%25 == 4 || i%25 == 19 {
				// a storm: everybody makes the same one or two calls first thing
				c := pick(r, "core")
				if r.N(2) == 0 {
					c = pick(r, "loop")
				}
				ops := []*Op{c[r.N(len(c))]}
				if fs := funcsOf("core", "loop"); i%25 == 4 { // every function in turn
					os := fs[i/25%len(fs)]
					ops[0] = os[r.N(len(os))]
				}
				if r.N(4) == 0 {
					ops = append(ops, c[r.N(len(c))])
				}
				for t := 3 + r.N(6); t > 0; t-- {
					s.Tasks = append(s.Tasks, ops)
				}
				for s.Sched = scheduler(r, false); s.Sched.Kind == "serial"; {
					s.Sched = scheduler(r, false)
				}
				s.Env = zzsim.Env{MapSeed: r.U64() >> 1, RandSeed: r.U64() >> 1}
				return &Job{Variant: "race", Spec: s, Label: "storm"}
			}
			if i%5 < 2 {
				s.Tasks = loopTasks(r, "loop", 500)
				if i%20 == 1 {
					// late in the life of a process that keeps seeing new inputs
					g := &gen{c: e.c, r: r, data: e.data}
					for t := range s.Tasks {
						if r.N(2) == 0 {
							s.Tasks[t] = intersperse(g, s.Tasks[t], scale(400, 4000), "mix", "mix", "patterns", "parse", "format", "find", "type")
						}
					}
				}
				s.Sched = scheduler(r, false)
				s.Env = zzsim.Env{MapSeed: r.U64() >> 1, RandSeed: r.U64() >> 1}
				return &Job{Variant: "sim", Spec: s}
			}
			auto := i%5 > 2
			if auto {
				s.Tasks = tasksFrom(r, fresh(e, r, coreKinds+" near near near edge edge", 1+r.N(3), 10), 6, 7)
			} else {
				s.Tasks = concurrentTasks(r, "core", 6, 7)
			}
			s.Sched = scheduler(r, false)
			s.Env = zzsim.Env{MapSeed: r.U64() >> 1, RandSeed: r.U64() >> 1}
			if i%45 == 8 {
				// the same late in the life of a process; the other tasks keep coming back
				g := &gen{c: e.c, r: r, data: e.data}
				s.Tasks[0] = append(s.Tasks[0], churn(g, 1+r.N(scale(2500, 12000)), "patterns", "patterns", "query", "mix", "format"))
				for t := 1; t < len(s.Tasks); t++ {
					ops := s.Tasks[t]
					for k := 10 + r.N(100); k > 0 && len(s.Tasks[t]) < 600; k-- {
						s.Tasks[t] = append(s.Tasks[t], ops...)
					}
				}
				for s.Sched.Kind == "serial" {
					s.Sched = scheduler(r, false)
				}
			}
			return &Job{Variant: "race", Spec: s, auto: auto}
		},
		rule: "a run is a cold process in which 2-6 tasks make 1-7 core-API calls each, drawn from shared clusters of near-identical inputs (two runs in five: 2-4 tasks repeat the same one to four calls 250-750 times each; one in twelve is a storm: 3-8 tasks make the same one or two calls first thing, every function in turn), under a seeded schedule (random quanta 1-6000 statements, round robin, PCT priorities, switches at synchronisation points, switches at chosen source sites, tasks stalled for up to 16000 statements at chosen source sites); every answer is compared with the same call alone in a fresh uninstrumented process (for two runs in five with a serial uninstrumented process making the same calls in another order, differences being settled by the call alone in a fresh process), and the race detector watches every access with the simulator's own hand-offs hidden from it; non-trivial: more context switches than tasks; distinct by hash of the switch sequence and results",
	})
}

var _ = fmt.Sprint
var _ = math.MaxInt
var _ = sort.Ints
