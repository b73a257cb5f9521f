package main

import (
	"fmt"
	"math"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"verif/overlay/zzsim"
)

const everyKind = "num num one one compare str str text type short meta pattern lookup bad"

func environment(r *RNG) zzsim.Env {
	e := zzsim.Env{MapSeed: r.U64() >> 1, RandSeed: r.U64() >> 1}
	switch r.N(3) {
	case 0:
		e.Clock = int64(r.N(4)) * 631152000 * 1e9
	case 1: // any moment from 1970 to 2096
		e.Clock = int64(r.U64() % 4_000_000_000 * 1e9)
	case 2: // midnights, month and year ends
		e.Clock = int64(r.N(366*80))*86400*1e9 - int64(r.N(3))*1e9
	}
	if r.N(3) == 0 {
		e.TimeJump = int64(r.N(1000)) * 1e9
	}
	return e
}

// churn is a long stretch of a process's life between the calls that are judged: many
// calls with inputs never used before.
func churn(g *gen, n int, kinds ...string) *Op {
	o := &Op{F: "~churn", A: []string{kinds[g.n(len(kinds))]}, I: []int{n, g.n(1 << 30)}}
	for k := 2 + g.n(8); k > 0; k-- {
		o.N = append(o.N, g.example().num())
	}
	if o.A[0] == "lookup" {
		o.A = append(o.A, "en", g.lang("carrier"), g.lang("geo"), g.lang("geo"))
	}
	return o
}

// intersperse puts a few stretches of churn into the calls of a task, with the first
// calls made again at the end.
func intersperse(g *gen, ops []*Op, most int, kinds ...string) []*Op {
	var out []*Op
	cut := g.n(len(ops))
	out = append(out, ops[:cut]...)
	for k := 1 + g.n(3); k > 0; k-- {
		out = append(out, churn(g, 1+g.n(most), kinds...))
	}
	out = append(out, ops[cut:]...)
	return append(out, ops[:min(cut, 40)]...)
}

// withModel replaces solo answers by what the shipped tables say, where the model
// covers the call.
func withModel(d *dataTables, ops []*Op) []*Op {
	for _, o := range ops {
		if s, ok := d.model(o); ok {
			o.Ref = &s
		}
	}
	return ops
}

func shuffle(r *RNG, ops []*Op) {
	for i := len(ops) - 1; i > 0; i-- {
		k := r.N(i + 1)
		ops[i], ops[k] = ops[k], ops[i]
	}
}

func okRef() *string { s := "ok"; return &s }

func sameRef() *string { s := "same"; return &s }

func init() {
	// ---- C02: lookups --------------------------------------------------------
	register(&check{
		id: "C02", variants: []string{"plain", "sim", "race"}, quick: 3200, thorough: 15000,
		prepare: func(e *env, n int) error {
			if err := makePool(e, "lookup", "lookup", scale(60, 600), 10); err != nil {
				return err
			}
			for _, c := range pools["lookup"] {
				withModel(e.data, c)
			}
			return nil
		},
		job: func(e *env, r *RNG, i int) *Job {
			s := baseSpec(e)
			s.Env = environment(r)
			g := &gen{c: e.c, r: r, data: e.data}
			if i%5 < 2 {
				// many lookups of one or two tables against the model
				s.Tasks = sweepTasks(g, i)
				s.Sched = scheduler(r, true)
				return &Job{Variant: "sim", Spec: s, Label: "sweep"}
			}
			if i%10 == 7 {
				// few numbers in many languages, one history
				s.Tasks = [][]*Op{g.languageOps(30 + r.N(120))}
				s.Sched = Sched{Kind: "serial", Seed: r.U64() >> 1}
				return &Job{Variant: "sim", Spec: s, auto: true, Label: "languages"}
			}
			s.Tasks = concurrentTasks(r, "lookup", 5, 4)
			if i%20 == 3 {
				// late in the life of a process
				for t := range s.Tasks {
					s.Tasks[t] = intersperse(g, s.Tasks[t], scale(1500, 8000), "lookup", "lookup", "langs", "langs", "codes")
				}
				s.Sched = scheduler(r, true)
				return &Job{Variant: "sim", Spec: s, Label: "late"}
			}
			s.Sched = scheduler(r, true)
			return &Job{Variant: "race", Spec: s}
		},
		rule: "race runs: a cold process in which 2-5 tasks make 1-4 carrier, geocoding and time-zone lookups each in mixed languages, so that loading is contended; language runs: one task asks for a few numbers in two to four languages and their near neighbours (variants, shortened, lengthened, other case), compared with one process making the calls in another order; sweep runs: 1-3 tasks make about 1500 lookups at, just below and just beyond the table's own prefixes; answers are compared with a longest-prefix model over the driver's own decoding of the shipped files where it applies, else with the call alone in a fresh process",
	})

	// ---- C03: histories --------------------------------------------------------
	register(&check{
		id: "C03", variants: []string{"plain", "sim"}, quick: 1400, thorough: 30000,
		prepare: func(e *env, n int) error {
			return makePool(e, "all", everyKind+" near edge kin", scale(380, 3500), 10)
		},
		job: func(e *env, r *RNG, i int) *Job {
			if i%4 != 0 {
				return walkJob(e, r, i)
			}
			s := baseSpec(e)
			s.Env = environment(r)
			var ops []*Op
			ncl := 2 + r.N(12)
			var cls [][]*Op
			for k := 0; k < ncl; k++ {
				cls = append(cls, pick(r, "all"))
			}
			n := 40 + r.N(200)
			cur := 0
			for k := 0; k < n; k++ {
				if r.N(8) == 0 { // stay in one cluster for a while, then move
					cur = r.N(ncl)
				}
				c := cls[cur]
				ops = append(ops, c[r.N(len(c))])
				if r.N(25) == 0 {
					ops = append(ops, &Op{F: "~jump", I: []int{r.N(400_000_000) - 100_000_000}})
				}
			}
			s.Tasks = [][]*Op{ops}
			s.Sched = Sched{Kind: "serial", Seed: r.U64() >> 1}
			return &Job{Variant: "sim", Spec: s}
		},
		rule: "a run is one process in which a single task makes 40-240 calls of every kind (including failing ones), walking between clusters of near-identical inputs, while map iteration order, random source, process environment and clock (with jumps) come from the seed; every answer is compared with the same call alone in a fresh process with another map order; three runs in four instead make 300-1500 calls on freshly drawn inputs, most of them one-digit or one-character neighbours of others, or query all metadata of all regions and calling codes, and are compared with an unmodified process making the same calls in another order, differences being settled by the call alone in a fresh process; distinct by hash of all results",
	})

	// ---- C04: returned values ---------------------------------------------------
	register(&check{
		id: "C04", variants: []string{"plain", "sim", "race"}, quick: 2800, thorough: 20000,
		prepare: func(e *env, n int) error {
			return makePool(e, "ret", "num one str text meta meta meta meta short type lookup tzs tzs", scale(300, 2500), 10)
		},
		job: func(e *env, r *RNG, i int) *Job {
			s := baseSpec(e)
			s.Env = environment(r)
			s.ScribbleRet = true
			if i%9 == 1 {
				// everything about every region, each answer overwritten, twice
				g := &gen{c: e.c, r: r, data: e.data}
				ops := g.metaSweep()
				more := append([]*Op{}, ops...)
				shuffle(r, more)
				s.Tasks = [][]*Op{append(ops, more...)}
				s.Sched = Sched{Kind: "serial", Seed: 1}
				return &Job{Variant: "sim", Spec: s, auto: true}
			}
			if i%3 != 0 && i%2 == 0 {
				var ops []*Op
				for _, c := range fresh(e, r, "num one str text meta meta near near edge short type tzs lookup", 3+r.N(6), 20) {
					ops = append(ops, c...)
					for k := len(c) / 2; k > 0; k-- {
						ops = append(ops, ops[r.N(len(ops))])
					}
				}
				s.Tasks = [][]*Op{ops}
				s.Sched = Sched{Kind: "serial", Seed: 1}
				return &Job{Variant: "sim", Spec: s, auto: true}
			}
			if i%3 != 0 {
				cls := [][]*Op{pick(r, "ret"), pick(r, "ret"), pick(r, "ret"), pick(r, "ret")}
				var ops []*Op
				for k := 20 + r.N(60); k > 0; k-- {
					c := cls[r.N(len(cls))]
					ops = append(ops, c[r.N(len(c))])
				}
				if i%30 == 5 {
					ops = intersperse(&gen{c: e.c, r: r, data: e.data}, ops, scale(800, 5000), "mix", "sets", "find", "lookup", "codes", "regions")
				}
				s.Tasks = [][]*Op{ops}
				s.Sched = Sched{Kind: "serial", Seed: 1}
				return &Job{Variant: "sim", Spec: s}
			}
			auto := i%2 == 0
			if auto {
				s.Tasks = tasksFrom(r, fresh(e, r, "num one str text meta meta meta near near short type tzs", 1+r.N(3), 10), 4, 8)
			} else {
				s.Tasks = concurrentTasks(r, "ret", 4, 6)
			}
			s.Sched = scheduler(r, isHeavy(s.Tasks))
			return &Job{Variant: "race", Spec: s, auto: auto}
		},
		rule: "after every call the harness overwrites whatever was returned: every field of numbers in place and replaced, matches' numbers, set members removed, falsified and added, list elements over the whole capacity; serial runs of 20-80 calls and concurrent race-detector runs; every answer compared with the call alone in a fresh process",
	})

	// ---- C05: arguments -----------------------------------------------------------
	register(&check{
		id: "C05", variants: []string{"plain", "sim", "race"}, quick: 3000, thorough: 20000,
		prepare: func(e *env, n int) error {
			return makePool(e, "arg", "num num one one full full pattern pattern pattern compare compare short lookup", scale(300, 2500), 12)
		},
		job: func(e *env, r *RNG, i int) *Job {
			s := baseSpec(e)
			s.Env = environment(r)
			s.CheckArg = true
			if i%3 != 0 {
				// private arguments, overwritten as soon as the call returns
				s.ScribbleArg = true
				s.RecycleArg = r.N(2) == 0
				cls := [][]*Op{pick(r, "arg"), pick(r, "arg"), pick(r, "arg")}
				var ops []*Op
				for k := 20 + r.N(50); k > 0; k-- {
					c := cls[r.N(len(cls))]
					ops = append(ops, c[r.N(len(c))])
				}
				g := &gen{c: e.c, r: r, data: e.data}
				for k := r.N(8); k > 0; k-- { // calls whose answers are not compared
					ops = append(ops, g.cluster("full full num one pattern compare short lookup", 10+r.N(20))...)
				}
				if i%30 == 5 {
					ops = intersperse(&gen{c: e.c, r: r, data: e.data}, ops, scale(800, 5000), "mix", "patterns", "format", "query", "short", "lookup")
				}
				s.Tasks = [][]*Op{ops}
				if r.N(3) == 0 {
					s.Tasks = [][]*Op{ops[:len(ops)/2], ops[len(ops)/2:]}
				}
				s.Sched = scheduler(r, isHeavy(s.Tasks))
				if i%12 == 1 || i%12 == 8 {
					// an argument still read after the call has returned races with the
					// harness, which overwrites it
					s.CheckArg = false
					return &Job{Variant: "race", Spec: s}
				}
				return &Job{Variant: "sim", Spec: s}
			}
			// numbers and rules shared read-only by concurrent calls, and by the harness
			// that looks at all of them first
			auto := i%2 == 0
			if auto {
				s.Tasks = tasksFrom(r, fresh(e, r, "num num full full full pattern pattern compare compare short near edge lookup", 2+r.N(3), 16), 4, 16)
			} else {
				s.Tasks = concurrentTasks(r, "arg", 4, 6)
			}
			shareArgs(s)
			s.Tasks[0] = append([]*Op{{F: "~touch"}}, s.Tasks[0]...)
			s.Tasks = append(s.Tasks, []*Op{{F: "~touch"}})
			s.Sched = scheduler(r, isHeavy(s.Tasks))
			return &Job{Variant: "race", Spec: s, auto: auto}
		},
		rule: "two thirds of the runs compare every number and rule argument at every preemption point during each call and after it, hand over the same objects with new content in half of those runs, and overwrite it (fields in place and replaced, rule lists emptied of their content) as soon as the call returns, a quarter of them under the race detector instead of the watcher, so that a later read of the argument races with the overwriting; one third have 2-4 tasks call with the very same argument objects, which the harness also reads, under the race detector, so that any write to them by any call is a race whenever it happens; answers compared with the call alone in a fresh process",
	})

	// ---- C06: reused numbers ---------------------------------------------------
	register(&check{
		id: "C06", variants: []string{"sim"}, quick: 11000, thorough: 120000,
		job: func(e *env, r *RNG, i int) *Job {
			s := baseSpec(e)
			s.Env = environment(r)
			g := &gen{c: e.c, r: r, data: e.data}
			nt := 1 + r.N(2)
			for t := 0; t < nt; t++ {
				var ops []*Op
				slots := 1 + r.N(3)
				ex := g.example()
				for k := 20 + r.N(60); k > 0; k-- {
					if r.N(4) == 0 {
						ex = g.example()
					}
					if r.N(8) == 0 {
						vs := g.variants(ex)
						v := *vs[r.N(len(vs))]
						if r.N(2) == 0 {
							v = *g.jumble(ex)
						}
						if r.N(4) == 0 {
							v.Ext, v.PDCC, v.ILZ, v.NLZ, v.Raw, v.Src = strp("77"), strp("31"), boolp(true), i32p(3), strp("junk"), i32p(10)
						}
						ops = append(ops, &Op{F: "~dirty", I: []int{r.N(slots)}, N: []*Num{&v}})
						continue
					}
					w := g.writing(ex)
					if r.N(6) == 0 {
						w = g.pick("", "abc", "+", "12", "+999123456", strings.Repeat("1", 300), "tel:", "+1 (", "0", w+"x"+w)
					}
					ops = append(ops, &Op{F: "~reuse", A: []string{w, g.regionArg(ex)}, I: []int{r.N(slots), r.N(2)}, Ref: sameRef()})
				}
				s.Tasks = append(s.Tasks, ops)
			}
			s.Sched = scheduler(r, false)
			return &Job{Variant: "sim", Spec: s}
		},
		rule: "a run has 1-2 tasks, each making 20-80 parses into 1-3 reused numbers that also get caller-set junk; after every successful parse the number is compared field by field (presence included) with the same parse into a new number",
	})

	// ---- C07, C09: typing --------------------------------------------------------
	typing := func(id, f string, clears bool, rule string) {
		register(&check{
			id: id, variants: []string{"sim"}, quick: 9000, thorough: 150000,
			job: func(e *env, r *RNG, i int) *Job {
				s := baseSpec(e)
				s.Env = environment(r)
				g := &gen{c: e.c, r: r, data: e.data}
				for t := 1 + r.N(3); t > 0; t-- {
					var ops []*Op
					for k := 10 + r.N(30); k > 0; k-- {
						ex := g.example()
						long := r.N(25) == 0
						keys := g.moreKeys(ex)
						if long { // somebody leaning on the keyboard
							for n := 100 + g.n(400); len(keys) < n; {
								keys += fmt.Sprint(g.n(10000))
							}
						}
						keys = g.mark(keys, clears && !long)
						ops = append(ops, &Op{F: f, A: []string{g.aytfRegion(ex), keys}, Ref: okRef()})
					}
					s.Tasks = append(s.Tasks, ops)
				}
				s.Sched = scheduler(r, false)
				return &Job{Variant: "sim", Spec: s}
			},
			rule: rule,
		})
	}
	typing("C07", "~typed", true, "a run has 1-3 interleaved tasks typing 10-40 sessions each (national, international, dialled-out, over-long, full-width and Arabic-indic digits, stray punctuation, clears, remembered keys, mutated digits); after every keystroke the output reduced to digits and plus must equal the keys typed since the last clear, and equal the typed text itself once a non-digit was typed")
	typing("C09", "~pos", true, "sessions as in C07 with one or two remembered keys; after every keystroke the reported position is compared with the offset of that key found by counting dialable characters of the output")

	// ---- C08: formatters -----------------------------------------------------------
	register(&check{
		id: "C08", variants: []string{"plain", "sim", "race"}, quick: 4500, thorough: 60000,
		prepare: prepareSessions,
		job:     sessionJob,
		rule:    "a run has 1-4 tasks, each playing 3-8 typing sessions on 1-3 formatters that are cleared and reused between sessions of one region, session pieces of different formatters interleaved, plus ordinary calls; every output and position is compared with the same session on the only formatter of a fresh process",
	})

	// ---- C10: searches ---------------------------------------------------------------
	register(&check{
		id: "C10", variants: []string{"plain", "race"}, quick: 1900, thorough: 30000,
		prepare: prepareSearches,
		job:     searchJob,
		rule:    "a run shares 1-3 search values between 1-4 tasks, each looping over them 2-6 times: to the end, abandoned at any match, pulled, ended by a panicking body, with another loop over the same or another search inside the body; each loop's matches are compared with the list of the same search made once in a fresh process and checked for order, bounds and raw text",
	})

	// ---- C11: budgets ------------------------------------------------------------------
	register(&check{
		id: "C11", variants: []string{"sim"}, quick: 5000, thorough: 40000,
		job: func(e *env, r *RNG, i int) *Job {
			s := baseSpec(e)
			s.Env = environment(r)
			g := &gen{c: e.c, r: r, data: e.data}
			for t := 1 + r.N(2); t > 0; t-- {
				var ops []*Op
				for k := 1 + r.N(3); k > 0; k-- {
					es := []example{g.example(), g.example()}
					reg := g.regionArg(es[0])
					if r.N(2) == 0 {
						es[1] = es[0]
					}
					txt := g.hardText(es)
					if r.N(3) == 0 {
						txt = g.text(es)
					}
					if r.N(12) == 0 { // long texts show work that is not linear
						for len(txt) < 3000 {
							txt += g.hardText(es)
						}
					}
					many := 0
					if r.N(40) == 0 { // more failures than any bound on tries one might think of
						many = []int{300, 1100, 2100, 4150, 8250, 10100}[r.N(6)] + r.N(300)
						junk := g.pick("12 x ", "1x", "34 y ", "7;")
						txt = strings.Repeat(junk, many) + g.pick("", "Tel ", "~") + g.writing(es[0]) + " " + txt
					}
					b := []int{g.n(4)}
					if many > 0 {
						b = append(b, math.MaxInt-1, many-1, many, many+1, many+2, many*2, 65536, many*100)
						ops = append(ops, &Op{F: "~budget", A: []string{txt, reg}, I: b, Ref: okRef()})
						continue
					}
					for _, x := range []int{-1, 0, 1, 2, 3, 4, 5, 6, 7, 8, 10, 13, 20, 30, 65535, 65536, math.MaxInt32, math.MaxInt32 + 1, math.MaxUint32, math.MinInt, math.MaxInt / 2, math.MaxInt/2 + 1, math.MaxInt / 3, math.MaxInt - 1, -65536} {
						if r.N(2) > 0 {
							b = append(b, x)
						}
					}
					for k := r.N(4); k > 0; k-- { // any size of number
						b = append(b, int(r.U64()>>uint(1+r.N(63))))
					}
					ops = append(ops, &Op{F: "~budget", A: []string{txt, reg}, I: b, Ref: okRef()})
				}
				s.Tasks = append(s.Tasks, ops)
			}
			s.Sched = scheduler(r, false)
			return &Job{Variant: "sim", Spec: s}
		},
		rule: "a run has 1-2 interleaved tasks searching texts rich in near misses with the unlimited budget and with about fifteen budgets between the smallest and the largest integer; one call in forty has a text with up to 10,400 failing candidates; results must be prefixes of each other in budget order, complete for every budget above sixteen tries per byte, empty for budgets of zero or less, equal to the default search at its leniency, and each search must end within a fixed number of simulated steps per byte",
	})

	// ---- C12: failing calls --------------------------------------------------------------
	register(&check{
		id: "C12", variants: []string{"plain", "sim", "race"}, quick: 2600, thorough: 30000,
		prepare: func(e *env, n int) error {
			if err := makePool(e, "good", "num one str text type short meta pattern pattern lookup", scale(160, 1500), 10); err != nil {
				return err
			}
			return makePool(e, "bad", "bad badpat", scale(60, 500), 8)
		},
		job: func(e *env, r *RNG, i int) *Job {
			s := baseSpec(e)
			s.Env = environment(r)
			g := &gen{c: e.c, r: r, data: e.data}
			good := [][]*Op{pick(r, "good"), pick(r, "good")}
			bad := [][]*Op{pick(r, "bad"), pick(r, "bad")}
			nt := 2 + r.N(4)
			for t := 0; t < nt; t++ {
				var ops []*Op
				exit := false
				for k := 2 + r.N(7); k > 0; k-- {
					switch x := r.N(10); {
					case x < 2 && i%12 == 5:
						ops = append(ops, churn(g, 1+r.N(scale(600, 5000)), "badpatterns", "badpatterns", "badparse", "patterns", "find", "mix"))
					case x < 4:
						c := bad[r.N(2)]
						ops = append(ops, c[r.N(len(c))])
					case x < 5 && i%4 == 1:
						ex := g.example()
						for ex.Region == "001" {
							ex = g.example()
						}
						// many failures of one kind in a row
						if r.N(2) == 0 {
							ops = append(ops, &Op{F: "~storm", A: []string{"Tel " + ex.Int + " or " + ex.Nat + " or " + ex.Int, ex.Region}, I: []int{r.N(2), r.N(4), []int{65536, math.MaxInt, 10}[r.N(3)], 20 + r.N(250), r.N(2)}})
						} else {
							c := bad[r.N(2)]
							o := c[r.N(len(c))]
							for k := 20 + r.N(200); k > 0; k-- {
								ops = append(ops, o)
							}
						}
					case x < 5:
						es := []example{g.example()}
						f := "~cbpanic"
						if r.N(4) == 0 {
							f = "~cbexit"
							exit = true
						}
						reg := es[0].Region
						if reg == "001" {
							reg = "US"
						}
						ops = append(ops, &Op{F: f, A: []string{"Tel " + es[0].Int + " or " + es[0].Nat + ", " + g.text(es), reg}, I: []int{r.N(2), r.N(4)}})
					default:
						c := good[r.N(2)]
						ops = append(ops, c[r.N(len(c))])
					}
					if exit {
						break
					}
				}
				s.Tasks = append(s.Tasks, ops)
			}
			s.Sched = scheduler(r, isHeavy(s.Tasks))
			v := "race"
			if i%3 == 0 || i%12 == 5 {
				v = "sim"
			}
			return &Job{Variant: v, Spec: s}
		},
		rule: "a run has 2-5 tasks mixing ordinary calls with failing ones: unparseable text, rules that do not compile (the same ones from several tasks and repeatedly), nil numbers, loop bodies that panic or end their goroutine, in a quarter of the runs 20-270 failures of one kind in a row; every call, failing ones included, must give its solo outcome, and no task may block for ever or race",
	})

	// ---- C13, C14: data faults ---------------------------------------------------------------
	register(&check{
		id: "C13", variants: []string{"plain", "sim"}, quick: 11000, thorough: 100000,
		prepare: prepareData,
		job:     damageJob,
		rule:    "a run is a process in which one or two shipped data files are damaged (a flipped bit anywhere, truncation, zeroed or garbage bytes, emptied, unreadable, and, inside an intact archive, nothing at all, a shortened prefix table, or a metadata collection that breaks off in the middle of an entry) and 1-3 tasks make 4-16 calls, repeated, that need them; each run must end with a visible start-up failure or with every call answering as the intact data does or failing visibly, every time; non-trivial: a fault fired",
	})
	register(&check{
		id: "C14", variants: []string{"plain", "sim", "race"}, quick: 8000, thorough: 80000,
		prepare: prepareData,
		job:     transientJob,
		rule:    "short-read runs deliver every shipped file in pieces down to one byte, from process start; transient runs make reading or decompressing a language file fail from a chosen access and byte for 1-4 times or until healed, under 1-3 concurrent tasks; lookups in other languages must answer normally throughout, lookups in the affected one must answer normally or report an error, and after the fault every lookup must answer as in a fault-free process",
	})

	// ---- C17: alternate metadata -----------------------------------------------------------------
	register(&check{
		id: "C17", variants: []string{"plain", "sim"}, quick: 1500, thorough: 15000,
		prepare: func(e *env, n int) error {
			return makePool(e, "swap", "num num one one str str text type short meta meta pattern lookup coll", scale(70, 700), 8, 0, 1, 2, 3)
		},
		job:  swapJob,
		rule: "a run is one process whose single task makes 30-150 calls from 2-6 clusters while three alternate metadata sets (regions removed, formats, prefixes, validity changed) are activated, nested, restored in order, and the shipped metadata is loaded again and sometimes activated; each call is compared with the same call in a fresh process in which the then-active metadata was activated first; every other run instead makes 100-800 calls on freshly drawn inputs, or asks everything about many regions and calling codes, under seven alternate sets (two of them made from the shipped collection itself), and is compared with one unmodified process per metadata set making the calls in another order, differences being settled by the call alone",
	})
}

// moreKeys mutates key sequences further.
func (g *gen) moreKeys(e example) string {
	s := g.keys(e)
	if g.p(35) {
		rs := []rune(s)
		for k := 1 + g.n(3); k > 0 && len(rs) > 0; k-- {
			i := g.n(len(rs))
			switch g.n(4) {
			case 0:
				rs[i] = rune('0' + g.n(10))
			case 1:
				rs = append(rs[:i], rs[i+1:]...)
			case 2:
				rs = append(rs[:i:i], append([]rune{rune('0' + g.n(10))}, rs[i:]...)...)
			case 3:
				rs[i] = []rune("٣７۴0१")[g.n(5)]
			}
		}
		s = string(rs)
	}
	return s
}

// ---- C02 ----------------------------------------------------------------------

func sweepTasks(g *gen, i int) [][]*Op {
	kind := []string{"carrier", "geo", "geo", "tz"}[g.n(4)]
	lang := ""
	switch kind {
	case "carrier":
		lang = g.data.carrierLangs[g.n(len(g.data.carrierLangs))]
	case "geo":
		lang = g.data.geoLangs[g.n(len(g.data.geoLangs))]
	}
	var tasks [][]*Op
	for t := 1 + g.n(3); t > 0; t-- {
		var ops []*Op
		for k := 0; k < 500; k++ {
			l := lang
			if g.p(10) && kind != "tz" { // a second table in between
				l = g.lang(map[string]string{"carrier": "carrier", "geo": "geo"}[kind])
			}
			n := g.data.sampleNum(g, kind, l)
			if g.p(15) { // near misses: a digit changed or dropped
				c := *n
				if g.p(50) {
					c.NN = n.NN / 10
				} else {
					p := uint64(1)
					for d := g.n(9); d > 0; d-- {
						p *= 10
					}
					c.NN = n.NN + p
				}
				n = &c
			}
			o := &Op{F: "carrier.GetNameForValidNumber", A: []string{l}, N: []*Num{n}}
			switch kind {
			case "geo":
				o.F = "geocoding.GetDescriptionForValidNumber"
			case "tz":
				o.F, o.A = "timezone.GetTimeZonesForGeographicalNumber", nil
			}
			if s, ok := g.data.model(o); ok {
				o.Ref = &s
				ops = append(ops, o)
			}
		}
		if len(ops) > 0 {
			tasks = append(tasks, ops)
		}
	}
	return tasks
}

// ---- C03 -------------------------------------------------------------------------

// walkJob is a long history of freshly drawn calls.
func walkJob(e *env, r *RNG, i int) *Job {
	s := baseSpec(e)
	s.Env = environment(r)
	g := &gen{c: e.c, r: r, data: e.data}
	var ops []*Op
	if i%16 == 7 {
		ops = g.metaSweep()
	} else {
		var pool [][]*Op
		size := 5 + r.N(60)
		for n := 300 + r.N(1200); len(ops) < n; {
			c := g.cluster("near near near near near near edge edge edge edge edge edge edge edge "+everyKind+" kin meta", size)
			pool = append(pool, c)
			if r.N(3) == 0 { // come back to earlier inputs
				p := pool[r.N(len(pool))]
				for k := r.N(10); k > 0; k-- {
					c = append(c, p[r.N(len(p))])
				}
				shuffle(r, c)
			}
			ops = append(ops, c...)
			if r.N(6) == 0 {
				ops = append(ops, &Op{F: "~jump", I: []int{r.N(400_000_000) - 100_000_000}})
			}
		}
	}
	if i%8 == 5 {
		ops = intersperse(g, ops, scale(1200, 12000), "mix", "mix", "mix", "patterns", "langs", "regions", "type", "find", "badparse", "lookup")
	}
	s.Tasks = [][]*Op{ops}
	s.Sched = Sched{Kind: "serial", Seed: r.U64() >> 1}
	return &Job{Variant: "sim", Spec: s, auto: true, both: true, Label: "walk"}
}

// metaSweep asks everything about every region and calling code, in random order.
func (g *gen) metaSweep() []*Op {
	var ops []*Op
	add := func(f string, a []string, i ...int) { ops = append(ops, &Op{F: f, A: a, I: i}) }
	for _, reg := range append([]string{"ZZ", "001", "", "QQ"}, g.c.Regions...) {
		a := []string{reg}
		for _, f := range []string{"GetCountryCodeForRegion", "GetSupportedTypesForRegion", "IsMobileNumberPortableRegion", "IsNANPACountry", "GetExampleNumber", "GetInvalidExampleNumber"} {
			add(f, a)
		}
		add("GetNddPrefixForRegion", a, g.n(2))
		add("GetExampleNumberForTypeInRegion", a, g.n(12))
	}
	for _, c := range append([]int{0, 999}, g.c.Codes...) {
		add("GetRegionCodeForCountryCode", nil, c)
		add("GetRegionCodesForCountryCode", nil, c)
		add("GetCountryMobileToken", nil, c)
		add("IsNumberGeographicalForType", nil, g.n(12), c)
	}
	for k := 0; k < 4; k++ {
		for _, c := range g.c.NonGeo {
			add("GetSupportedTypesForNonGeoEntity", nil, c)
			add("GetExampleNumberForNonGeoEntity", nil, c)
		}
	}
	for _, f := range []string{"GetSupportedCallingCodes", "GetSupportedGlobalNetworkCallingCodes", "GetSupportedRegions"} {
		add(f, nil)
	}
	for t := 0; t < 11; t++ {
		add("GetExampleNumberForType", nil, t)
	}
	shuffle(g.r, ops)
	return ops
}

// ---- C05 -------------------------------------------------------------------------

// shareArgs makes equal number arguments of different tasks one shared object.
func shareArgs(s *Spec) {
	idx := map[string]int{}
	pidx := map[string]int{}
	for ti, t := range s.Tasks {
		for oi, o := range t {
			if o.F == "TruncateTooLongNumber" {
				continue
			}
			c := *o
			c.Sh = nil
			for _, n := range o.N {
				if n.Nil {
					c.Sh = append(c.Sh, -1)
					continue
				}
				k := n.String()
				if _, ok := idx[k]; !ok {
					idx[k] = len(s.Shared)
					s.Shared = append(s.Shared, n)
				}
				c.Sh = append(c.Sh, idx[k])
			}
			if len(o.P) > 0 {
				k := fmt.Sprintf("%+v", patKey(o.P))
				if _, ok := pidx[k]; !ok {
					pidx[k] = len(s.SharedP)
					s.SharedP = append(s.SharedP, o.P)
				}
				x := pidx[k]
				c.ShP = &x
			}
			s.Tasks[ti][oi] = &c
		}
	}
}

func patKey(ps []*Pat) string {
	var b strings.Builder
	for _, p := range ps {
		fmt.Fprintf(&b, "%s>%s%q", p.Pattern, p.Format, p.Leading)
		for _, x := range []*string{p.NPFR, p.DCC} {
			if x != nil {
				b.WriteString("|" + *x)
			} else {
				b.WriteString("|-")
			}
		}
	}
	return b.String()
}

// ---- C08 ------------------------------------------------------------------------------

var sessions []*Op

func prepareSessions(e *env, n int) error {
	g := &gen{c: e.c, r: newRNG(e.id+"sess", 1<<40), data: e.data}
	var all []*Op
	for k := 0; k < scale(900, 8000); k++ {
		ex := g.example()
		keys := strings.ReplaceAll(g.mark(g.moreKeys(ex), false), "!", "")
		keys = strings.ReplaceAll(keys, "|", "")
		if keys == "" || keys == "~" {
			continue
		}
		reg := g.aytfRegion(ex)
		all = append(all, &Op{F: "AYTF", A: []string{reg, keys}})
		if k%3 == 0 { // related sessions on the same region
			all = append(all, &Op{F: "AYTF", A: []string{reg, g.mark(g.moreKeys(ex), false)}})
			if es := e.c.byRegion[ex.Region]; len(es) > 0 {
				all = append(all, &Op{F: "AYTF", A: []string{reg, g.mark(g.moreKeys(es[g.n(len(es))]), false)}})
			}
		}
	}
	if err := e.rf.fill(all, 0); err != nil {
		return err
	}
	sessions = e.rf.attach(all, 0)
	sort.SliceStable(sessions, func(a, b int) bool { return sessions[a].A[0] < sessions[b].A[0] })
	return makePool(e, "beside", "num one str text type meta", scale(40, 300), 8)
}

// chunks splits a session into pieces with their expected outputs.
func chunks(r *RNG, o *Op, slot int) []*Op {
	outs := strings.Split(*o.Ref, "|")
	var groups []string // one per output: the key with its '~' prefix
	cur := ""
	for _, k := range o.A[1] {
		cur += string(k)
		if k == '~' {
			continue
		}
		groups = append(groups, cur)
		cur = ""
	}
	if len(groups) != len(outs) {
		return nil
	}
	var res []*Op
	for at := 0; at < len(groups); {
		n := 1 + r.N(6)
		if r.N(3) == 0 {
			n = len(groups)
		}
		end := min(at+n, len(groups))
		ref := strings.Join(outs[at:end], "|")
		start := 0
		if at == 0 {
			start = 1
		}
		res = append(res, &Op{F: "~sess", A: []string{o.A[0], strings.Join(groups[at:end], "")}, I: []int{slot, start}, Ref: &ref})
		at = end
	}
	// leave some sessions half-typed
	if len(res) > 1 && r.N(4) == 0 {
		res = res[:1+r.N(len(res)-1)]
	}
	return res
}

func sessionJob(e *env, r *RNG, i int) *Job {
	s := baseSpec(e)
	s.Env = environment(r)
	nt := 1 + r.N(4)
	base := r.N(len(sessions))
	for t := 0; t < nt; t++ {
		slots := 1 + r.N(3)
		queues := make([][]*Op, slots)
		for sl := range queues {
			at := base
			if r.N(2) == 0 {
				at = r.N(len(sessions))
			}
			for k := 1 + r.N(4); k > 0; k-- {
				// neighbours in the sorted list share the region, so slots are cleared
				o := sessions[(at+r.N(6))%len(sessions)]
				queues[sl] = append(queues[sl], chunks(r, o, sl)...)
			}
		}
		side := pick(r, "beside")
		var ops []*Op
		for {
			var live []int
			for sl := range queues {
				if len(queues[sl]) > 0 {
					live = append(live, sl)
				}
			}
			if len(live) == 0 {
				break
			}
			sl := live[r.N(len(live))]
			ops = append(ops, queues[sl][0])
			queues[sl] = queues[sl][1:]
			if r.N(8) == 0 {
				ops = append(ops, side[r.N(len(side))])
			}
		}
		if len(ops) > 0 {
			s.Tasks = append(s.Tasks, ops)
		}
	}
	if len(s.Tasks) == 0 {
		return nil
	}
	s.Sched = scheduler(r, false)
	v := "race"
	if len(s.Tasks) == 1 || i%2 == 0 {
		v = "sim"
	}
	if i%20 == 9 {
		v = "sim"
		g := &gen{c: e.c, r: r, data: e.data}
		t := r.N(len(s.Tasks))
		cut := r.N(len(s.Tasks[t]) + 1)
		s.Tasks[t] = append(append(append([]*Op{}, s.Tasks[t][:cut]...), churn(g, 1+r.N(scale(600, 5000)), "type", "type", "mix", "regions")), s.Tasks[t][cut:]...)
	}
	return &Job{Variant: v, Spec: s}
}

// ---- C10 -------------------------------------------------------------------------------------

type search struct {
	s    *zzsim.Search
	list []string
}

var searches []search

const matchSep = "\x1e"

func prepareSearches(e *env, n int) error {
	g := &gen{c: e.c, r: newRNG(e.id+"search", 1<<40), data: e.data}
	var all []*Op
	var ss []*zzsim.Search
	for k := 0; k < scale(500, 5000); k++ {
		es := []example{g.example(), g.example()}
		if g.p(50) {
			if x := g.c.byRegion[es[0].Region]; len(x) > 0 {
				es[1] = x[g.n(len(x))]
			}
		}
		t := g.text(es)
		if g.p(60) {
			t = g.goodText(es)
		}
		reg := g.regionArg(es[0])
		if g.p(25) {
			all = append(all, &Op{F: "FindNumbers", A: []string{t, reg}})
			ss = append(ss, &zzsim.Search{Text: t, Region: reg, Default: true})
		} else {
			ln, tr := g.n(4), g.pickInt(1, 2, 3, 8, 65536, math.MaxInt)
			all = append(all, &Op{F: "FindNumbersWithLeniency", A: []string{t, reg}, I: []int{ln, tr}})
			ss = append(ss, &zzsim.Search{Text: t, Region: reg, Len: ln, Tries: tr})
		}
	}
	if err := e.rf.fill(all, 0); err != nil {
		return err
	}
	for k, o := range all {
		ref, ok := e.rf.get(o, 0)
		if !ok || strings.HasPrefix(ref, "panic:") {
			continue
		}
		var l []string
		if ref != "" {
			l = strings.Split(ref, matchSep)
		}
		if len(l) == 0 && k%4 != 0 {
			continue
		}
		searches = append(searches, search{ss[k], l})
	}
	if len(searches) == 0 {
		return fmt.Errorf("no searches")
	}
	return makePool(e, "beside", "num one str text type meta", scale(40, 300), 8)
}

// goodText has several numbers a search will find.
func (g *gen) goodText(es []example) string {
	var b strings.Builder
	for k := 2 + g.n(5); k > 0; k-- {
		e := es[g.n(len(es))]
		if g.p(8) {
			b.WriteString(g.illFormed())
		}
		b.WriteString(g.pick("Call ", "Tel: ", "or ", "ünï ", "", "fax (24h): "))
		if g.p(50) {
			b.WriteString(e.Int)
		} else {
			b.WriteString(e.Nat)
		}
		b.WriteString(g.pick(", ", "; ", " and ", ". ", "\n", " x12 "))
	}
	return b.String()
}

func searchJob(e *env, r *RNG, i int) *Job {
	s := baseSpec(e)
	s.Env = environment(r)
	var lists [][]string
	for k := 1 + r.N(3); k > 0; k-- {
		x := searches[r.N(len(searches))]
		s.Searches = append(s.Searches, x.s)
		lists = append(lists, x.list)
	}
	side := pick(r, "beside")
	for t := 1 + r.N(4); t > 0; t-- {
		var ops []*Op
		for k := 2 + r.N(5); k > 0; k-- {
			si := r.N(len(lists))
			stop := -1
			if r.N(2) == 0 {
				stop = r.N(len(lists[si]) + 1)
			}
			style := []int{0, 0, 0, 1, 2}[r.N(5)]
			nest := -1
			if r.N(3) == 0 {
				nest = r.N(len(lists))
			}
			ops = append(ops, &Op{F: "~range", A: lists[si], I: []int{si, stop, style, nest, 1 + r.N(3)}, Ref: okRef()})
			if r.N(5) == 0 {
				ops = append(ops, side[r.N(len(side))])
			}
		}
		s.Tasks = append(s.Tasks, ops)
	}
	s.Sched = scheduler(r, false)
	return &Job{Variant: "race", Spec: s}
}

// ---- C13, C14 ---------------------------------------------------------------------------------

// dataFile is one shipped data file.
type dataFile struct {
	rel  string // relative to the repository
	pkg  string // directory of the package that embeds it
	lang string
	size int
}

var dataFiles []dataFile
var byFile = map[string][]*Op{}

func listData() error {
	dataFiles = nil
	err := filepath.Walk(repoDir, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() {
			if n := fi.Name(); n == ".git" || n == "testdata" || n == "_build" {
				return filepath.SkipDir
			}
			return nil
		}
		if filepath.Base(filepath.Dir(p)) != "data" || !strings.HasSuffix(p, ".gz") {
			return nil
		}
		rel, _ := filepath.Rel(repoDir, p)
		d := dataFile{rel: rel, pkg: filepath.Dir(filepath.Dir(rel)), size: int(fi.Size())}
		if strings.HasSuffix(rel, ".txt.gz") {
			d.lang = strings.TrimSuffix(filepath.Base(rel), ".txt.gz")
		}
		dataFiles = append(dataFiles, d)
		return nil
	})
	if err == nil && len(dataFiles) == 0 {
		err = fmt.Errorf("no data files under %s", repoDir)
	}
	return err
}

// prepareData makes, per data file, a pool of calls that need it.
func prepareData(e *env, n int) error {
	if err := listData(); err != nil {
		return err
	}
	g := &gen{c: e.c, r: newRNG(e.id+"data", 1<<40), data: e.data}
	per := scale(8, 40)
	var all []*Op
	for _, d := range dataFiles {
		var ops []*Op
		for k := 0; k < per; k++ {
			ex := g.example()
			switch {
			case d.lang != "" && d.pkg == "carrier":
				ops = append(ops, &Op{F: g.pick("carrier.GetNameForValidNumber", "carrier.GetNameForValidNumber", "carrier.GetNameForNumber", "carrier.GetSafeDisplayName"), A: []string{d.lang}, N: []*Num{e.data.sampleNum(g, "carrier", d.lang)}})
			case d.lang != "" && d.pkg == "geocoding":
				ops = append(ops, &Op{F: g.pick("geocoding.GetDescriptionForValidNumber", "geocoding.GetDescriptionForValidNumber", "geocoding.GetDescriptionForNumber"), A: []string{d.lang}, N: []*Num{e.data.sampleNum(g, "geo", d.lang)}})
			case d.pkg == "timezone":
				ops = append(ops, &Op{F: g.pick("timezone.GetTimeZonesForNumber", "timezone.GetTimeZonesForGeographicalNumber"), N: []*Num{e.data.sampleNum(g, "tz", "")}})
			case strings.Contains(d.rel, "short"):
				ops = append(ops, g.shortOp())
			case strings.Contains(d.rel, "alternate"):
				// regions with alternate formats, under the grouping leniencies
				es := g.c.byRegion[g.pick("DE", "GB", "AT", "AU", "BE", "BR", "HU", "IT", "JP", "NZ", "CH", "PL", "FI", "IN", "IR", "KR", "MX", "RO", "SE", "UY", "AR")]
				x := es[g.n(len(es))]
				t := "Call " + regroup(g, x) + " or " + x.Int + ", " + regroup(g, x) + "."
				reg := x.Region
				ops = append(ops, &Op{F: "FindNumbersWithLeniency", A: []string{t, reg}, I: []int{2 + g.n(2), 65536}})
			case strings.Contains(d.rel, "region") && k%2 == 0:
				// what depends on which regions share a code, and in which order
				cc := fmt.Sprint(ex.CC)
				if g.n(3) > 0 {
					cc = g.pick("1", "7", "44", "39", "47", "61", "262", "590", "599", "212", "358", "800", "979", "49", "33")
				}
				n, _ := strconv.Atoi(cc)
				ops = append(ops, &Op{F: g.pick("GetRegionCodesForCountryCode", "GetRegionCodeForCountryCode"), I: []int{n}})
			default:
				ops = append(ops, g.cluster("num one str text type meta pattern", 1)...)
			}
		}
		byFile[d.rel] = ops
		all = append(all, ops...)
	}
	if err := e.rf.fill(all, 0); err != nil {
		return err
	}
	for k := range byFile {
		byFile[k] = e.rf.attach(byFile[k], 0)
		if strings.Contains(k, "alternate") {
			// most of them texts in which something is found
			var keep []*Op
			for i, o := range byFile[k] {
				if *o.Ref != "" || i%4 == 0 {
					keep = append(keep, o)
				}
			}
			byFile[k] = keep
		}
	}
	return nil
}

// regroup writes a national number with unusual grouping.
func regroup(g *gen, e example) string {
	s := e.nsn()
	var b strings.Builder
	fmt.Fprintf(&b, "+%d ", e.CC)
	for len(s) > 0 {
		k := min(2+g.n(4), len(s))
		b.WriteString(s[:k])
		s = s[k:]
		if len(s) > 0 {
			b.WriteString(g.pick(" ", "-", " "))
		}
	}
	return b.String()
}

// needing returns copies of calls that need file d, errors acceptable.
func needing(r *RNG, d dataFile, n int, errOK bool) []*Op {
	pool := byFile[d.rel]
	var out []*Op
	for k := 0; k < n && len(pool) > 0; k++ {
		c := *pool[r.N(len(pool))]
		c.ErrOK = errOK
		out = append(out, &c)
	}
	return out
}

func damageFault(r *RNG, d dataFile) *Fault {
	kinds := []string{"flip", "flip", "flip", "trunc", "trunc", "garbage", "zero", "readerr"}
	if d.lang != "" || d.pkg == "timezone" || strings.Contains(d.rel, "region") {
		kinds = append(kinds, "cut", "cut", "beyond", "beyond")
	} else {
		kinds = append(kinds, "pcut", "pcut")
	}
	if !strings.Contains(d.rel, "alternateformats") {
		// an intact archive with nothing in it (no alternate formats at all is a
		// documented state of the library, so not for that file)
		kinds = append(kinds, "empty")
	}
	f := &Fault{Kind: kinds[r.N(len(kinds))], File: d.rel, Bit: r.N(1 << 30), At: r.N(1 << 28), Arrays: d.lang == ""}
	switch r.N(5) {
	case 0:
		f.At = d.size - 1 - r.N(min(16, d.size)) // the trailer
	case 1:
		f.At = r.N(min(32, d.size)) // the header
	}
	if f.Kind == "readerr" && d.lang == "" {
		f.Kind = "flip" // embedded bytes are not read through a file
	}
	return f
}

func damageJob(e *env, r *RNG, i int) *Job {
	s := baseSpec(e)
	s.Env = environment(r)
	var ds []dataFile
	// every file in turn, the core files more often
	d := dataFiles[i%len(dataFiles)]
	switch r.N(6) {
	case 0, 1:
		for d.lang != "" {
			d = dataFiles[r.N(len(dataFiles))]
		}
	case 2: // one of those read when the program starts
		for !strings.HasPrefix(d.rel, "metadata/") {
			d = dataFiles[r.N(len(dataFiles))]
		}
	}
	ds = append(ds, d)
	if r.N(6) == 0 {
		ds = append(ds, dataFiles[r.N(len(dataFiles))])
	}
	fp := &zzsim.FaultPlan{Seed: r.U64() >> 1}
	for _, d := range ds {
		fp.Faults = append(fp.Faults, damageFault(r, d))
	}
	for t := 1 + r.N(3); t > 0; t-- {
		var ops []*Op
		for k := 2 + r.N(5); k > 0; k-- {
			d := ds[r.N(len(ds))]
			if r.N(4) == 0 {
				d = dataFiles[r.N(len(dataFiles))]
			}
			os := needing(r, d, 1, true)
			ops = append(ops, os...)
			if r.N(2) == 0 {
				ops = append(ops, os...) // and once more
			}
		}
		s.Tasks = append(s.Tasks, ops)
	}
	s.Sched = scheduler(r, true)
	return &Job{Variant: "sim", Spec: s, Faults: fp, StartOK: true}
}

func transientJob(e *env, r *RNG, i int) *Job {
	s := baseSpec(e)
	s.Env = environment(r)
	fp := &zzsim.FaultPlan{Seed: r.U64() >> 1}
	var langs []dataFile
	for _, d := range dataFiles {
		if d.lang != "" {
			langs = append(langs, d)
		}
	}
	any := func() dataFile { return dataFiles[r.N(len(dataFiles))] }
	small := func() dataFile {
		for {
			d := langs[r.N(len(langs))]
			if d.size < 60000 || r.N(6) == 0 {
				return d
			}
		}
	}
	v := "sim"
	if i%3 == 0 {
		// short reads only
		fp.Faults = []*Fault{{Kind: "short", File: "*"}}
		for t := 1 + r.N(3); t > 0; t-- {
			var ops []*Op
			for k := 2 + r.N(6); k > 0; k-- {
				ops = append(ops, needing(r, any(), 1, false)...)
			}
			s.Tasks = append(s.Tasks, ops)
		}
		s.Sched = scheduler(r, true)
		return &Job{Variant: v, Spec: s, Faults: fp}
	}
	bad := small()
	others := []dataFile{small(), small()}
	f := &Fault{Kind: "readerr", File: bad.rel, After: true, Skip: r.N(2)}
	all := false
	if r.N(2) == 0 {
		// decompression fails: hits whatever is being loaded
		f = &Fault{Kind: "gziperr", After: true, At: []int{-1, 0, 1, 4, 100, 5000, r.N(100000)}[r.N(7)], Skip: r.N(3)}
		all = true
	}
	if r.N(2) == 0 {
		f.Count = 1 + r.N(4)
	}
	fp.Faults = []*Fault{f}
	if r.N(4) == 0 {
		fp.Faults = append(fp.Faults, &Fault{Kind: "short", File: "*"})
	}
	draw := func() *Op {
		d := bad
		if r.N(3) == 0 {
			d = others[r.N(2)]
		}
		os := needing(r, d, 1, all || d == bad)
		if len(os) == 0 {
			return nil
		}
		return os[0]
	}
	nt := 1 + r.N(3)
	for t := 0; t < nt; t++ {
		var ops []*Op
		for k := 2 + r.N(5); k > 0; k-- {
			if o := draw(); o != nil {
				ops = append(ops, o)
			}
		}
		s.Tasks = append(s.Tasks, ops)
	}
	last := nt - 1
	s.Tasks[last] = append(s.Tasks[last], &Op{F: "~heal"})
	for k := 3 + r.N(6); k > 0; k-- {
		if o := draw(); o != nil {
			s.Tasks[last] = append(s.Tasks[last], o)
		}
	}
	s.Sched = scheduler(r, true)
	if r.N(4) == 0 {
		v = "race"
	}
	return &Job{Variant: v, Spec: s, Faults: fp}
}

// ---- C17 ----------------------------------------------------------------------------------------

func swapJob(e *env, r *RNG, i int) *Job {
	s := baseSpec(e)
	s.Env = environment(r)
	var cls [][]*Op
	auto := i%2 == 1
	n := 30 + r.N(120)
	if auto {
		// freshly drawn inputs, or everything about every region, asked again and again
		// under one metadata after another
		g := &gen{c: e.c, r: r, data: e.data}
		if i%6 == 1 {
			ops := g.metaSweep()
			for len(ops) > 0 {
				k := min(len(ops), 1+r.N(60))
				cls = append(cls, ops[:k])
				ops = ops[k:]
			}
			cls = cls[:min(len(cls), 4+r.N(30))]
		} else {
			cls = fresh(e, r, "num num num one one str str text type short meta meta near edge lookup pattern", 2+r.N(10), 14)
		}
		n = 100 + r.N(700)
	} else {
		for k := 2 + r.N(5); k > 0; k-- {
			cls = append(cls, pick(r, "swap"))
		}
	}
	var ops []*Op
	var stack []int
	cur := 0
	for k := n; k > 0; k-- {
		switch x := r.N(30); {
		case x < 3 && len(stack) < 4:
			c := 1 + r.N(3)
			if auto {
				c = 1 + r.N(9)
			}
			ops = append(ops, &Op{F: "~use", I: []int{c}})
			stack = append(stack, cur)
			cur = c
		case x < 6 && len(stack) > 0:
			ops = append(ops, &Op{F: "~restore"})
			cur = stack[len(stack)-1]
			stack = stack[:len(stack)-1]
		case x == 6:
			ops = append(ops, &Op{F: "~reload", I: []int{0}})
		case x == 8 && i%10 == 3 && r.N(4) == 0:
			ops = append(ops, churn(&gen{c: e.c, r: r, data: e.data}, 1+r.N(scale(500, 4000)), "mix", "mix", "patterns", "query", "format", "parse", "regions"))
		case x == 7 && len(stack) < 4:
			ops = append(ops, &Op{F: "~reload", I: []int{1}})
			stack = append(stack, cur)
			cur = 0
		default:
			c := cls[r.N(len(cls))]
			o := *c[r.N(len(c))]
			if auto {
				ops = append(ops, &o)
				continue
			}
			ref, ok := e.rf.get(&o, cur)
			if !ok {
				continue
			}
			o.Ref = &ref
			ops = append(ops, &o)
		}
	}
	s.Tasks = [][]*Op{ops}
	s.Sched = Sched{Kind: "serial", Seed: 1}
	return &Job{Variant: "sim", Spec: s, auto: auto}
}
