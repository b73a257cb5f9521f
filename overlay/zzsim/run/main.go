// Command run executes one simulated run described by a JSON spec on standard input
// and prints what happened as JSON on standard output. It is built inside the
// repository's module through an overlay; it only uses exported API.
package main

import (
	"encoding/json"
	"fmt"
	"io"
	"iter"
	"os"
	"runtime"
	"strings"
	"time"
	"unicode/utf8"

	pn "github.com/nyaruka/phonenumbers/v2"
	"github.com/nyaruka/phonenumbers/v2/internal/zzsim"
	"github.com/nyaruka/phonenumbers/v2/internal/zzsim/zsync"
	"google.golang.org/protobuf/proto"
)

func seqOf(s *Search) iter.Seq[*pn.PhoneNumberMatch] {
	if s.Default {
		return pn.FindNumbers(s.Text, s.Region)
	}
	return pn.FindNumbersWithLeniency(s.Text, s.Region, pn.Leniency(s.Len), s.Tries)
}

type (
	Num    = zzsim.Num
	Pat    = zzsim.Pat
	Op     = zzsim.Op
	Search = zzsim.Search
	Spec   = zzsim.Spec
	Viol   = zzsim.Viol
	Report = zzsim.Report
	Leak   = zzsim.Leak
)

// taskState is private to one task.
type taskState struct {
	ctx   Ctx
	viols []Viol
	ops   int
	errs  int
	log   uint64
	reuse map[int]*pn.PhoneNumber
	fmts  map[int]*pn.AsYouTypeFormatter
	fregs map[int]string
	stack []func()
	info  map[string]int
}

var (
	spec     Spec
	seqs     []iter.Seq[*pn.PhoneNumberMatch]
	sharedN  []*pn.PhoneNumber
	sharedP  [][]*pn.NumberFormat
	sharedNB []string
)

func main() {
	b, err := io.ReadAll(os.Stdin)
	if err == nil {
		err = json.Unmarshal(b, &spec)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "bad spec:", err)
		os.Exit(3)
	}
	decodeBytes()
	allRegions, nonGeoCodes = spec.Regions, spec.NonGeo
	zzsim.SetEnv(spec.Env)
	var rep Report
	switch spec.Mode {
	case "solo":
		settle()
		st := newState(0)
		if spec.Container > 0 {
			useContainer(st, spec.Container)
		}
		for _, o := range spec.Tasks[0] {
			rep.Results = append(rep.Results, soloExec(st, o))
		}
	case "corpus":
		dumpCorpus()
		return
	case "edges":
		dumpEdges()
		return
	case "leak":
		rep = runLeak()
	default:
		rep = runSim()
	}
	rep.Faults = zzsim.FaultsFired()
	rep.Seams = map[string]int{"map iterations": zzsim.MapRanges, "clock reads": zzsim.ClockReads, "random draws": zzsim.RandReads, "environment reads": zzsim.EnvReads, "goroutines started": zzsim.GoSpawned}
	rep.Races = zzsim.RaceErrors()
	if !spec.WantTrace {
		rep.Out.Trace = nil
	}
	e := json.NewEncoder(os.Stdout)
	e.SetEscapeHTML(false)
	e.Encode(rep)
}

// settle lets whatever the package started in the background when it was loaded
// come to its end: a reference answer is given by a process at rest.
func settle() {
	time.Sleep(60 * time.Millisecond)
}

func soloExec(st *taskState, o *Op) (res string) {
	if o.F == "~cbexit" {
		done := make(chan string)
		go func() {
			defer func() { done <- "goexit" }()
			execOp(st, o)
		}()
		return <-done
	}
	return execOp(st, o)
}

func newState(i int) *taskState {
	return &taskState{
		ctx: Ctx{sharedN: sharedN, sharedP: sharedP, scribbleRet: spec.ScribbleRet, scribbleArg: spec.ScribbleArg, checkArg: spec.CheckArg, recycle: spec.RecycleArg},
		log: 0xcbf29ce484222325, reuse: map[int]*pn.PhoneNumber{}, fmts: map[int]*pn.AsYouTypeFormatter{}, fregs: map[int]string{}, info: map[string]int{},
	}
}

func runSim() Report {
	for _, n := range spec.Shared {
		p := mkNum(n)
		sharedN = append(sharedN, p)
		sharedNB = append(sharedNB, numStr(p))
	}
	for _, ps := range spec.SharedP {
		var fs []*pn.NumberFormat
		for _, p := range ps {
			fs = append(fs, mkPat(p))
		}
		sharedP = append(sharedP, fs)
	}
	for _, s := range spec.Searches {
		seqs = append(seqs, seqOf(s))
	}
	states := make([]*taskState, len(spec.Tasks))
	fns := make([]func(), len(spec.Tasks))
	names := make([]string, len(spec.Tasks))
	for i := range spec.Tasks {
		st := newState(i)
		states[i] = st
		names[i] = fmt.Sprintf("t%d", i)
		ops := spec.Tasks[i]
		fns[i] = func() { runTask(st, i, ops) }
	}
	if spec.CheckArg && spec.ScribbleArg { // the race detector must not see these reads
		zzsim.Watch(func() {
			for _, st := range states {
				st.ctx.lookArgs()
			}
		})
	}
	addLive(len(fns))
	zzsim.ArmFaults()
	out := zzsim.Run(spec.Sched, names, fns)
	rep := Report{Out: out, Info: map[string]int{}}
	if out.Deadlock != "" {
		rep.Viols = append(rep.Viols, Viol{Kind: "deadlock", Desc: out.Deadlock})
	}
	if out.Stall != "" {
		rep.Viols = append(rep.Viols, Viol{Kind: "stall", Desc: out.Stall})
	}
	if out.Deadlock != "" || out.Stall != "" {
		return rep
	}
	rep.Log = 0xcbf29ce484222325
	for _, st := range states {
		rep.Viols = append(rep.Viols, st.viols...)
		rep.Ops += st.ops
		rep.Errs += st.errs
		rep.Log = (rep.Log ^ st.log) * 0x100000001b3
		for k, v := range st.info {
			if strings.HasPrefix(k, "max ") {
				rep.Info[k] = max(rep.Info[k], v)
			} else {
				rep.Info[k] += v
			}
		}
	}
	for i, p := range sharedN {
		if s := numStr(p); s != sharedNB[i] {
			rep.Viols = append(rep.Viols, Viol{Kind: "argument", Task: -1, Op: i, Desc: "a shared phone number was modified", Want: sharedNB[i], Got: s})
		}
	}
	for i, ps := range spec.SharedP {
		for j, p := range ps {
			if !proto.Equal(mkPat(p), sharedP[i][j]) {
				rep.Viols = append(rep.Viols, Viol{Kind: "argument", Task: -1, Op: i, Desc: "a shared formatting rule was modified", Want: fmt.Sprint(mkPat(p)), Got: fmt.Sprint(sharedP[i][j])})
			}
		}
	}
	return rep
}

// liveTasks is only touched by the one running task and stays out of the race
// detector's sight.
var liveTasks int

//go:norace
func addLive(d int) int { liveTasks += d; return liveTasks }

func runTask(st *taskState, ti int, ops []*Op) {
	defer addLive(-1)
	for i, o := range ops {
		st.ops++
		if o.F == "~cbexit" {
			// record before the goroutine ends
			st.log = (st.log ^ hashStr("goexit")) * 0x100000001b3
		}
		zzsim.Y(40)
		wasHealed := isHealed()
		got := execOp(st, o)
		st.log = (st.log ^ hashStr(got)) * 0x100000001b3
		if st.ctx.argMod != "" {
			st.viols = append(st.viols, Viol{Kind: "argument", Task: ti, Op: i, Desc: o.String(), Got: st.ctx.argMod})
			st.ctx.argMod = ""
		}
		if o.Ref == nil || got == *o.Ref {
			continue
		}
		ok := false
		if o.ErrOK && !wasHealed && visibleFailure(o, got) {
			st.errs++
			ok = true
		}
		if !ok {
			st.viols = append(st.viols, Viol{Kind: "answer", Task: ti, Op: i, Desc: o.String(), Want: clip(*o.Ref), Got: clip(got)})
			if len(st.viols) > 20 {
				return
			}
		}
	}
	st.ctx.lookAllHeld()
	st.faded(ti, len(ops)-1)
}

// faded reports a returned value that changed afterwards.
func (st *taskState) faded(ti, op int) {
	if st.ctx.faded != "" {
		st.viols = append(st.viols, Viol{Kind: "returned", Task: ti, Op: op, Desc: "a returned value changed after it was returned", Got: clip(st.ctx.faded)})
		st.ctx.faded = ""
	}
}

// visibleFailure: the call panicked, or returned an error where the function reports
// data problems through errors.
func visibleFailure(o *Op, got string) bool {
	if strings.HasPrefix(got, "panic:") {
		return true
	}
	return strings.Contains(o.F, ".") && strings.Contains(got, "|err:")
}

var healed bool

//go:norace
func isHealed() bool { return healed }

//go:norace
func setHealed() { healed = true }

func clip(s string) string {
	if len(s) > 1500 {
		return s[:1500] + "..."
	}
	return s
}

func hashStr(s string) uint64 {
	h := uint64(0xcbf29ce484222325)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 0x100000001b3
	}
	return h
}

// execOp performs an ordinary or a special ("~") operation.
func execOp(st *taskState, o *Op) string {
	var res string
	if !strings.HasPrefix(o.F, "~") {
		res = st.ctx.Exec(o)
	} else {
		res = special(st, o)
	}
	if !utf8.ValidString(res) {
		res = string([]rune(res)) // answers travel as JSON
	}
	return res
}

// decodeBytes puts single bytes in the place of the private-use characters that stand for
// them in a spec, which as JSON cannot hold ill-formed text.
func decodeBytes() {
	dec := func(s string) string {
		if !strings.ContainsFunc(s, isRawByte) {
			return s
		}
		var b []byte
		for _, r := range s {
			if isRawByte(r) {
				b = append(b, byte(r))
			} else {
				b = utf8.AppendRune(b, r)
			}
		}
		return string(b)
	}
	for _, t := range spec.Tasks {
		for _, o := range t {
			for i, a := range o.A {
				o.A[i] = dec(a)
			}
		}
	}
	for i := range spec.Searches {
		spec.Searches[i].Text = dec(spec.Searches[i].Text)
	}
}

func isRawByte(r rune) bool { return r >= 0xf780 && r <= 0xf7ff }

func special(st *taskState, o *Op) (res string) {
	s := func(i int) string {
		if i < len(o.A) {
			return o.A[i]
		}
		return ""
	}
	n := func(i int) int {
		if i < len(o.I) {
			return o.I[i]
		}
		return 0
	}
	if o.F != "~cbexit" {
		defer func() {
			if r := recover(); r != nil {
				res = fmt.Sprintf("panic:%v", r)
			}
		}()
	}
	switch o.F {
	case "~reuse":
		return reuseParse(st, n(0), n(1), s(0), s(1))
	case "~dirty":
		p := &pn.PhoneNumber{}
		if len(o.N) > 0 {
			p = mkNum(o.N[0])
		}
		st.reuse[n(0)] = p
		return "dirty"
	case "~typed":
		return checkTyping(st, s(0), s(1))
	case "~pos":
		return checkPosition(st, s(0), s(1))
	case "~sess":
		// I: slot, start(1)/continue(0); A: region, keys
		f := st.fmts[n(0)]
		if n(1) == 1 {
			if f != nil && st.fregs[n(0)] == s(0) {
				f.Clear()
			} else {
				f = pn.GetAsYouTypeFormatter(s(0))
				st.fmts[n(0)] = f
				st.fregs[n(0)] = s(0)
			}
		}
		if f == nil {
			// the session's start was minimised away; play from a new formatter
			f = pn.GetAsYouTypeFormatter(s(0))
			st.fmts[n(0)] = f
			st.fregs[n(0)] = s(0)
			return *o.Ref
		}
		return strings.Join(st.ctx.typeKeys(f, s(1)), "|")
	case "~range":
		return rangeOp(st, o)
	case "~budget":
		return checkBudget(st, o)
	case "~cbpanic", "~cbexit":
		// I[0]: which match, A: text, region; I[1] leniency
		k := 0
		var out []string
		for m := range pn.FindNumbersWithLeniency(s(0), s(1), pn.Leniency(n(1)), 1<<30) {
			out = append(out, st.ctx.match(m))
			if k == n(0) {
				if o.F == "~cbexit" {
					runtime.Goexit()
				}
				panic("callback failed")
			}
			k++
		}
		return strings.Join(out, sep)
	case "~touch":
		// look at every shared argument: a write to one by any call then races with this
		h := uint64(0)
		for _, p := range sharedN {
			h ^= hashStr(numStr(p))
		}
		for _, fs := range sharedP {
			for _, f := range fs {
				h ^= hashStr(patStr(f))
			}
		}
		return fmt.Sprintf("touched %x", h)
	case "~storm":
		// I: which match, leniency, budget, how often, 1: the body ends its goroutine
		for k := 0; k < n(3); k++ {
			body := func() {
				i := 0
				for range pn.FindNumbersWithLeniency(s(0), s(1), pn.Leniency(n(1)), n(2)) {
					if i == n(0) {
						if n(4) == 1 {
							runtime.Goexit()
						}
						panic("callback failed")
					}
					i++
				}
			}
			if n(4) == 1 {
				var wg zsync.WaitGroup
				wg.Add(1)
				zzsim.Go(func() {
					defer wg.Done()
					body()
				})
				wg.Wait()
			} else {
				func() {
					defer func() { recover() }()
					body()
				}()
			}
		}
		return "storm"
	case "~churn":
		// A: kind, languages...; I: how often, seed; N: numbers to vary
		l := &Leak{Kind: s(0), Nums: o.N, Langs: []string{"en"}}
		if len(o.A) > 1 {
			l.Langs = o.A[1:]
		}
		r := zzsim.NewRNG(uint64(n(1)))
		for k := 0; k < n(0) && len(o.N) > 0; k++ {
			guard(func() { leakCall(l, r, n(1)%100_000_000+k) })
		}
		return "churned"
	case "~use":
		return useContainer(st, n(0))
	case "~restore":
		if len(st.stack) == 0 {
			return "restored"
		}
		f := st.stack[len(st.stack)-1]
		st.stack = st.stack[:len(st.stack)-1]
		f()
		return "restored"
	case "~reload":
		return reloadContainer(st, n(0))
	case "~heal":
		// wait until every other task has ended, then end all faults
		idle := 0
		for addLive(0) > 1 && idle < 1000 {
			s := zzsim.Steps()
			zzsim.SleepFor(1_000_000)
			if zzsim.Steps() > s+2 {
				idle = 0
			} else {
				idle++ // the others are stuck, which the scheduler will report
			}
		}
		zzsim.HealFaults()
		setHealed()
		return "healed"
	case "~jump":
		zzsim.JumpClock(int64(n(0)) * 1e9)
		return "jumped"
	}
	return "unknown op " + o.F
}
