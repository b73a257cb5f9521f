// Package zzsim is the deterministic simulator runtime that the rewritten sources
// of the repository are linked against. Exactly one simulated task runs at a time;
// a seeded generator (or a recorded trace) decides every switch. It is not part of
// the repository: the checks add it through a build overlay.
package zzsim

import (
	"fmt"
	"os"
	"sync"
	"unsafe"
)

// ---- pseudo-random numbers -------------------------------------------------

// RNG is a splitmix64 generator.
type RNG struct{ s uint64 }

//go:norace
func NewRNG(seed uint64) *RNG { return &RNG{s: seed*0x9e3779b97f4a7c15 + 0x1234567} }

//go:norace
func (r *RNG) U64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

//go:norace
func (r *RNG) N(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.U64() % uint64(n))
}

// ---- configuration ----------------------------------------------------------

// Switch is one recorded scheduling decision: at step Step control went to task To.
type Switch struct {
	Step uint64 `json:"s"`
	To   int    `json:"t"`
	Site uint32 `json:"l,omitempty"`
	Why  string `json:"w,omitempty"`
}

// Sched says how a run is scheduled.
type Sched struct {
	Kind    string   `json:"kind"` // serial, random, rr, pct, sync, site, replay
	Seed    uint64   `json:"seed"`
	Mean    int      `json:"mean,omitempty"`    // random/rr: mean or exact quantum
	Depth   int      `json:"depth,omitempty"`   // pct: number of priority change points
	Est     int      `json:"est,omitempty"`     // pct: estimated steps
	MaxStep uint64   `json:"maxStep,omitempty"` // liveness bound
	Trace   []Switch `json:"trace,omitempty"`   // replay
}

// Outcome describes how a run ended.
type Outcome struct {
	Steps    uint64   `json:"steps"`
	Switches int      `json:"switches"`
	Hash     uint64   `json:"hash"`
	Clock    int64    `json:"clock"`
	Deadlock string   `json:"deadlock,omitempty"`
	Stall    string   `json:"stall,omitempty"`
	Contend  int      `json:"contend"`
	Trace    []Switch `json:"trace,omitempty"`
}

const (
	stReady = iota
	stBlocked
	stSleeping
	stDone
)

type task struct {
	id     int
	name   string
	ch     chan struct{}
	state  int
	key    unsafe.Pointer
	what   string
	wake   int64
	prio   int64
	stall  uint64 // not chosen before this step while others can run
	daemon bool
	held   [8]unsafe.Pointer // locks it holds (the first few)
	nheld  int
}

var (
	active    bool
	aborted   bool
	cur       *task
	ntasks    int
	alive     []*task // those not done, in order
	steps     uint64
	countdown int64
	cfg       Sched
	rng       *RNG
	rec       []Switch
	nrec      int
	hash      uint64
	contend   int
	tracePos  int
	changePts []uint64
	lowPrio   int64
	clock     int64 = 1_700_000_000_000_000_000
	ctrl      chan struct{}
	wgAll     *sync.WaitGroup
	outDead   string
	outStall  string
	siteMask  uint64
	siteSched bool // switches depend on the source position
)

const maxRec = 1 << 18

const (
	waitSel  = "waiting in select"
	waitSend = "sending on a channel"
	waitRecv = "receiving from a channel"
)

var (
	repolled   int64
	lastSwitch uint64
)

// fairAfter is how long a task may keep the others waiting under the schedules that
// would let it do so for ever (a loop that waits for another task, say).
const fairAfter = 3 << 19

var watch func()

// Watch makes f look around at every preemption point.
func Watch(f func()) { watch = f }

// Active reports whether a simulated run is in progress.
//
//go:norace
func Active() bool { return active }

// Steps returns the number of preemption points passed so far.
//
//go:norace
func Steps() uint64 { return steps }

// CurTask returns the id of the running task, or -1.
//
//go:norace
func CurTask() int {
	if !active || cur == nil {
		return -1
	}
	return cur.id
}

// Y is a preemption point. The rewriter puts one in front of every statement.
//
//go:norace
func Y(site uint32) {
	if !active {
		return
	}
	steps++
	clock += 1000
	countdown--
	if watch != nil {
		watch()
	}
	if countdown <= 0 {
		preempt(site, false)
	} else if siteSched && (uint64(site)*0x9e3779b97f4a7c15^cfg.Seed*0xbf58476d1ce4e5b9)>>58 == siteMask&63 {
		if cfg.Kind == "stall" {
			// a slow task: it stays where it is while the others run on
			if rng.U64()&3 == 0 {
				cur.stall = steps + 8<<rng.N(11)
				switchAny(site, "stall")
			}
		} else if rng.U64()&1 == 0 {
			switchAny(site, "site")
		}
	}
}

// SyncPoint is a preemption point at a synchronisation operation.
//
//go:norace
func SyncPoint(site uint32) {
	if !active {
		return
	}
	steps++
	clock += 1000
	countdown--
	if cfg.Kind == "sync" && rng.U64()%3 == 0 {
		switchAny(site, "sync")
		return
	}
	if countdown <= 0 {
		preempt(site, true)
	}
}

// LockPoint is the preemption point in front of taking a lock. Taking one while
// holding another is where lock orders meet: a task often lingers there.
//
//go:norace
func LockPoint(site uint32) {
	if active && cur.nheld > 0 {
		switch cfg.Kind {
		case "random", "stall", "sync", "site", "rr":
			steps++
			clock += 1000
			countdown--
			if rng.U64()&1 == 0 {
				cur.stall = steps + 64<<rng.N(9)
				switchAny(site, "nested")
			}
			return
		}
	}
	SyncPoint(site)
}

// Took notes that the current task holds lock p.
//
//go:norace
func Took(p unsafe.Pointer) {
	if active && cur.nheld < len(cur.held) {
		cur.held[cur.nheld] = p
		cur.nheld++
	}
}

// Gave notes that lock p was released.
//
//go:norace
func Gave(p unsafe.Pointer) {
	if !active || drop(cur, p) {
		return
	}
	for _, t := range alive {
		if drop(t, p) {
			return
		}
	}
}

//go:norace
func drop(t *task, p unsafe.Pointer) bool {
	for i := t.nheld - 1; i >= 0; i-- {
		if t.held[i] == p {
			copy(t.held[i:t.nheld], t.held[i+1:t.nheld])
			t.nheld--
			return true
		}
	}
	return false
}

//go:norace
func preempt(site uint32, atSync bool) {
	if cfg.MaxStep > 0 && steps > cfg.MaxStep {
		outStall = fmt.Sprintf("no completion within %d steps; running task %s at site %d", cfg.MaxStep, cur.name, site)
		abort()
	}
	switch cfg.Kind {
	case "replay":
		for tracePos < len(cfg.Trace) && cfg.Trace[tracePos].Step <= steps {
			sw := cfg.Trace[tracePos]
			tracePos++
			if sw.Step == steps {
				setReplayCountdown()
				if t := ready(sw.To); t != nil {
					if t != cur {
						record(sw.To, site, "preempt")
						transfer(t)
					}
					return
				}
				return
			}
		}
		setReplayCountdown()
	case "pct":
		if steps >= nextChange() {
			for len(changePts) > 0 && changePts[0] <= steps {
				changePts = changePts[1:]
			}
			lowPrio--
			cur.prio = lowPrio
		}
		if steps-lastSwitch > fairAfter {
			lowPrio--
			cur.prio = lowPrio
		}
		setPctCountdown()
		best := highest()
		if best != nil && best != cur {
			record(best.id, site, "pct")
			transfer(best)
		}
	case "serial":
		newCountdown()
		if steps-lastSwitch > fairAfter {
			next(site, "fair")
		}
	default:
		newCountdown()
		switchAny(site, "preempt")
	}
}

// next moves to the next ready task in turn.
//
//go:norace
func next(site uint32, why string) {
	at := 0
	for i, t := range alive {
		if t == cur {
			at = i
		}
	}
	for i := 1; i < len(alive); i++ {
		t := alive[(at+i)%len(alive)]
		if t.state == stReady {
			record(t.id, site, why)
			transfer(t)
			return
		}
	}
}

// Gosched lets another task run.
//
//go:norace
func Gosched() {
	if !active {
		runPending()
		return
	}
	steps++
	clock += 1000
	if cfg.MaxStep > 0 && steps > cfg.MaxStep {
		preempt(5, true)
	}
	switch cfg.Kind {
	case "replay":
		preempt(5, true)
	case "pct":
		lowPrio--
		cur.prio = lowPrio
		if best := highest(); best != cur {
			record(best.id, 5, "yield")
			transfer(best)
		}
	case "serial", "rr":
		next(5, "yield")
	default:
		switchAny(5, "yield")
	}
}

// ready returns the ready task with this id, if there is one.
//
//go:norace
func ready(id int) *task {
	for _, t := range alive {
		if t.id == id && t.state == stReady {
			return t
		}
	}
	return nil
}

//go:norace
func nextChange() uint64 {
	if len(changePts) == 0 {
		return ^uint64(0)
	}
	return changePts[0]
}

//go:norace
func setPctCountdown() {
	n := nextChange()
	if n == ^uint64(0) {
		countdown = 1 << 20
		return
	}
	if n <= steps {
		countdown = 1
		return
	}
	countdown = int64(n - steps)
	if countdown > 1<<20 {
		countdown = 1 << 20
	}
}

//go:norace
func setReplayCountdown() {
	if tracePos >= len(cfg.Trace) {
		countdown = 1 << 20
		return
	}
	s := cfg.Trace[tracePos].Step
	if s <= steps {
		countdown = 1
		return
	}
	countdown = int64(s - steps)
	if countdown > 1<<20 {
		countdown = 1 << 20
	}
}

//go:norace
func newCountdown() {
	switch cfg.Kind {
	case "serial":
		countdown = 1 << 20
	case "rr":
		countdown = int64(cfg.Mean)
	case "random", "stall":
		// geometric-like: uniform on [1, 2*mean]
		countdown = 1 + int64(rng.N(2*cfg.Mean))
	case "sync", "site":
		countdown = 1 + int64(rng.N(4000))
	default:
		countdown = 1 << 20
	}
	if nrec > 150_000 {
		countdown *= 64 // keep long runs affordable
	}
	if countdown < 1 {
		countdown = 1
	}
}

//go:norace
func highest() *task {
	var best *task
	for _, t := range alive {
		if t.state == stReady && (best == nil || t.prio > best.prio) {
			best = t
		}
	}
	return best
}

// switchAny moves to a random ready task (possibly the current one).
//
//go:norace
func switchAny(site uint32, why string) {
	if cfg.Kind == "serial" {
		return
	}
	n := 0
	for _, t := range alive {
		if t.state == stReady && t != cur && t.stall <= steps {
			n++
		}
	}
	if n == 0 {
		return
	}
	k := 0
	if cfg.Kind == "rr" {
		next(site, why)
		return
	}
	k = rng.N(n)
	for _, t := range alive {
		if t.state == stReady && t != cur && t.stall <= steps {
			if k == 0 {
				record(t.id, site, why)
				transfer(t)
				return
			}
			k--
		}
	}
}

//go:norace
func record(to int, site uint32, why string) {
	hash = (hash ^ (uint64(to)<<32 | uint64(site))) * 0x100000001b3
	lastSwitch = steps
	if nrec < len(rec) {
		rec[nrec] = Switch{Step: steps, To: to, Site: site, Why: why}
	}
	nrec++
}

// transfer hands the processor to t and waits until it comes back.
//
//go:norace
func transfer(t *task) {
	me := cur
	cur = t
	raceDisable()
	t.ch <- struct{}{}
	<-me.ch
	raceEnable()
	if aborted {
		parkForever()
	}
}

//go:norace
func parkForever() {
	raceDisable()
	select {}
}

// pickForced chooses who runs when the current task cannot.
//
//go:norace
func pickForced(site uint32, why string) *task {
	for {
		n := 0
		for _, t := range alive {
			if t.state == stReady {
				n++
			}
		}
		if n > 0 {
			var pick *task
			switch cfg.Kind {
			case "replay":
				for tracePos < len(cfg.Trace) && cfg.Trace[tracePos].Step < steps {
					tracePos++
				}
				if tracePos < len(cfg.Trace) && cfg.Trace[tracePos].Step == steps {
					sw := cfg.Trace[tracePos]
					tracePos++
					pick = ready(sw.To)
				}
				setReplayCountdown()
				if pick == nil {
					for _, t := range alive {
						if t.state == stReady {
							pick = t
							break
						}
					}
				}
			case "pct":
				pick = highest()
			case "serial":
				for _, t := range alive {
					if t.state == stReady {
						pick = t
						break
					}
				}
			default:
				awake := 0
				for _, t := range alive {
					if t.state == stReady && t.stall <= steps {
						awake++
					}
				}
				k := rng.N(n)
				if awake > 0 {
					k = rng.N(awake)
				}
				for _, t := range alive {
					if t.state == stReady && (awake == 0 || t.stall <= steps) {
						if k == 0 {
							pick = t
							break
						}
						k--
					}
				}
			}
			record(pick.id, site, why)
			return pick
		}
		// nobody ready: let simulated time pass until the next sleeper wakes
		var sl *task
		for _, t := range alive {
			if t.state == stSleeping && (sl == nil || t.wake < sl.wake) {
				sl = t
			}
		}
		if sl == nil {
			// a channel may have been closed by code the simulator does not see
			// (a context, say): let those waiting for channels look once more
			if repolled == clock { // no statement was executed since
				return nil
			}
			repolled = clock
			for _, t := range alive {
				if t.state == stBlocked && (t.what == waitSel || t.what == waitSend || t.what == waitRecv) {
					t.state = stReady
					n++
				}
			}
			if n == 0 {
				return nil
			}
			continue
		}
		if sl.wake > clock {
			clock = sl.wake
		}
		sl.state = stReady
	}
}

//go:norace
func describe() string {
	s := ""
	for _, t := range alive {
		if t.state != stDone && !t.daemon {
			s += fmt.Sprintf("[task %s: %s] ", t.name, t.what)
		}
	}
	return s
}

// Block suspends the current task until Wake(key). Callers re-check their
// condition in a loop.
//
//go:norace
func Block(key unsafe.Pointer, what string, site uint32) {
	if !active {
		if !runPending() {
			Fatal("deadlock", "self-deadlock outside a simulated run: "+what)
		}
		return
	}
	contend++
	steps++
	me := cur
	me.state = stBlocked
	me.key = key
	me.what = what
	nx := pickForced(site, "block")
	if nx == nil {
		outDead = "all tasks blocked: " + describe()
		abort()
	}
	if nx != me {
		transfer(nx)
	}
	me.what = ""
}

// Wake makes every task blocked on key ready again.
//
//go:norace
func Wake(key unsafe.Pointer) {
	if !active {
		return
	}
	for _, t := range alive {
		if t.state == stBlocked && t.key == key {
			t.state = stReady
			t.key = nil
			if cfg.Kind == "pct" && t.prio > cur.prio {
				countdown = 0
			}
		}
	}
}

// SleepFor suspends the current task for simulated time.
//
//go:norace
func SleepFor(ns int64) {
	if !active {
		clock += ns
		return
	}
	steps++
	me := cur
	me.state = stSleeping
	me.wake = clock + ns
	me.what = "sleeping"
	next := pickForced(1, "sleep")
	if next != me {
		transfer(next)
	}
	me.what = ""
}

// Clock returns simulated time in nanoseconds since the Unix epoch.
//
//go:norace
func Clock() int64 { return clock }

// JumpClock moves the simulated clock.
//
//go:norace
func JumpClock(d int64) { clock += d }

//go:norace
func abort() {
	aborted = true
	active = false
	raceDisable()
	ctrl <- struct{}{}
	select {}
}

// exit is called by a task that has finished.
//
//go:norace
func exitTask(t *task) {
	t.state = stDone
	if aborted {
		return
	}
	live, k := 0, 0
	for _, x := range alive {
		if x != t {
			alive[k] = x
			k++
			if !x.daemon {
				live++
			}
		}
	}
	alive = alive[:k]
	if live == 0 {
		active = false
		raceDisable()
		ctrl <- struct{}{}
		raceEnable()
		return
	}
	steps++
	next := pickForced(2, "exit")
	if next == nil {
		outDead = "all remaining tasks blocked: " + describe()
		aborted = true
		active = false
		raceDisable()
		ctrl <- struct{}{}
		raceEnable()
		return
	}
	cur = next
	raceDisable()
	next.ch <- struct{}{}
	raceEnable()
}

//go:norace
func taskMain(t *task, f func(), wg *sync.WaitGroup) {
	raceDisable()
	<-t.ch
	raceEnable()
	if aborted {
		parkForever()
	}
	defer taskEnd(t, wg)
	if PanicHook != nil {
		defer hookPanic()
	}
	f()
}

// PanicHook, when set, is given the panics of tasks.
var PanicHook func(any)

func hookPanic() {
	if r := recover(); r != nil {
		PanicHook(r)
	}
}

//go:norace
func taskEnd(t *task, wg *sync.WaitGroup) {
	// A task that panics takes the process down, as a goroutine would: re-panic
	// happens by itself because nothing recovers here. Goexit also ends here.
	if wg != nil {
		wg.Done() // real happens-before edge to the controller
	}
	exitTask(t)
}

//go:norace
func addTask(name string, daemon bool) *task {
	t := &task{id: ntasks, name: name, ch: make(chan struct{}, 1), daemon: daemon}
	if rng != nil {
		t.prio = int64(rng.U64() >> 2)
	}
	ntasks++
	if len(alive) == cap(alive) {
		n := make([]*task, len(alive), 2*cap(alive)+64)
		for i, x := range alive {
			n[i] = x
		}
		alive = n
	}
	alive = alive[:len(alive)+1]
	alive[len(alive)-1] = t
	return t
}

// Live counts the tasks that have not ended.
//
//go:norace
func Live() int { return len(alive) }

// Drain lets the other tasks run until none of them can.
//
//go:norace
func Drain() {
	for k := 0; active && k < 20000; k++ {
		var next *task
		for _, t := range alive {
			if t.state == stReady && t != cur {
				next = t
				break
			}
		}
		if next == nil {
			return
		}
		steps++
		record(next.id, 4, "drain")
		transfer(next)
	}
}

// Go starts f as a simulated task when a run is active, else as a goroutine.
// (Goroutines the library itself starts are daemons: a run does not wait for them.)
//
//go:norace
func Go(f func()) {
	if !active {
		pendingGo(f)
		return
	}
	t := addTask(fmt.Sprintf("go%d", ntasks), true)
	GoSpawned++
	go taskMain(t, f, nil)
	SyncPoint(3)
}

// GoSpawned counts goroutines started by the library.
var GoSpawned int

var pending []func()

//go:norace
func pendingGo(f func()) {
	GoSpawned++
	pending = append(pending, f)
}

// runPending runs one of the goroutines started before the run.
func runPending() bool {
	f := takePending()
	if f == nil {
		return false
	}
	f()
	return true
}

//go:norace
func takePending() func() {
	if len(pending) == 0 {
		return nil
	}
	f := pending[0]
	pending = pending[1:]
	return f
}

// Run executes fns as tasks under the scheduler and returns when all are done.
func Run(c Sched, names []string, fns []func()) Outcome {
	cfg = c
	rng = NewRNG(c.Seed)
	ntasks = 0
	alive = make([]*task, 0, 64)
	rec = make([]Switch, maxRec)
	repolled, lastSwitch = 0, 0
	nrec, hash, contend, tracePos, steps = 0, 0xcbf29ce484222325, 0, 0, 0
	outDead, outStall = "", ""
	aborted = false
	lowPrio = 0
	changePts = nil
	siteMask = 1 + rng.U64()&63
	siteSched = cfg.Kind == "site" || cfg.Kind == "stall"
	ctrl = make(chan struct{}, 1)
	if c.Kind == "pct" {
		est := c.Est
		if est < 10 {
			est = 10
		}
		for i := 0; i < c.Depth; i++ {
			changePts = append(changePts, uint64(1+rng.N(est)))
		}
		for i := range changePts {
			for j := i + 1; j < len(changePts); j++ {
				if changePts[j] < changePts[i] {
					changePts[i], changePts[j] = changePts[j], changePts[i]
				}
			}
		}
	}
	var wg sync.WaitGroup
	wgAll = &wg
	for i, f := range fns {
		n := fmt.Sprint(i)
		if i < len(names) {
			n = names[i]
		}
		t := addTask(n, false)
		wg.Add(1)
		go taskMain(t, f, &wg)
	}
	for _, f := range pending {
		t := addTask("init-go", true)
		go taskMain(t, f, nil)
	}
	pending = nil
	active = true
	switch c.Kind {
	case "replay":
		setReplayCountdown()
	case "pct":
		setPctCountdown()
	default:
		newCountdown()
	}
	first := pickForced(0, "start")
	cur = first
	raceDisable()
	first.ch <- struct{}{}
	<-ctrl
	raceEnable()
	if !aborted {
		wg.Wait()
	}
	active = false
	o := Outcome{Steps: steps, Switches: nrec, Hash: hash, Clock: clock, Deadlock: outDead, Stall: outStall, Contend: contend}
	n := nrec
	if n > len(rec) {
		n = len(rec)
	}
	o.Trace = rec[:n]
	return o
}

// Fatal ends the process with a structured message the driver understands.
func Fatal(kind, msg string) {
	fmt.Fprintf(os.Stderr, "\nZZSIM-FATAL %s: %s\n", kind, msg)
	os.Exit(77)
}
