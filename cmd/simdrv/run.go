package main

// Executing simulated runs in fresh processes.

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"regexp"
	"strings"
	"sync"
	"syscall"
	"time"

	"verif/overlay/zzsim"
)

// Job is one simulated run as data; it is what a replay file holds.
type Job struct {
	Variant string           `json:"variant"`
	Spec    *Spec            `json:"spec,omitempty"`
	Faults  *zzsim.FaultPlan `json:"faults,omitempty"`
	Meta    *MetaSpec        `json:"meta,omitempty"`
	Secs    int              `json:"secs,omitempty"` // wall limit
	Seed    uint64           `json:"seed"`
	Label   string           `json:"label,omitempty"`

	// StartOK: the process failing visibly at start-up is acceptable (damaged data).
	StartOK bool `json:"startOK,omitempty"`

	// auto: expected answers come from one plain process making the same calls in
	// another order; a difference is then settled by a process making that call alone.
	auto  bool
	both  bool  // the plain order is under test as well
	order []*Op // the plain order
}

// Result is what one process did.
type Result struct {
	Rep     *zzsim.Report
	MetaRep *MetaReport
	Exit    int
	Stderr  string
	Timeout bool
	Wall    time.Duration
}

func (b *builder) exec(j *Job) (*Result, error) {
	bin, _, err := b.build(j.Variant)
	if err != nil {
		return nil, err
	}
	secs := j.Secs
	if secs == 0 {
		secs = 90
	}
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration(secs)*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin)
	cmd.Dir = b.scratch
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	cmd.Env = append(os.Environ(), "GORACE=atexit_sleep_ms=0 halt_on_error=0 exitcode=66", "GOTRACEBACK=single", "GOMAXPROCS=2", "GOMEMLIMIT=2GiB")
	if j.Spec != nil {
		switch j.Spec.Env.RandSeed % 5 {
		case 1:
			cmd.Env = append(cmd.Env, "LANG=de_DE.UTF-8", "LC_ALL=de_DE.UTF-8", "TZ=Asia/Tokyo")
		case 2:
			cmd.Env = append(cmd.Env, "LANG=tr_TR", "LANGUAGE=tr", "TZ=America/Sao_Paulo", "HOME=/nonexistent")
		}
	}
	if j.Faults != nil {
		f, _ := json.Marshal(j.Faults)
		cmd.Env = append(cmd.Env, "ZZSIM_FAULTS="+string(f))
	}
	var in []byte
	if j.Meta != nil {
		in, err = json.Marshal(j.Meta)
	} else {
		in, err = json.Marshal(j.Spec)
	}
	if err != nil {
		return nil, err
	}
	cmd.Stdin = bytes.NewReader(in)
	var out, errb limitBuf
	out.max, errb.max = 64<<20, 1<<20
	cmd.Stdout, cmd.Stderr = &out, &errb
	t0 := time.Now()
	err = cmd.Run()
	r := &Result{Stderr: errb.String(), Wall: time.Since(t0)}
	if ctx.Err() != nil {
		r.Timeout = true
		return r, nil
	}
	var ee *exec.ExitError
	if errors.As(err, &ee) {
		r.Exit = ee.ExitCode()
	} else if err != nil {
		return nil, err
	}
	if out.Len() > 0 {
		if j.Meta != nil {
			m := &MetaReport{}
			if e := json.Unmarshal(lastLine(out.Bytes()), m); e == nil {
				r.MetaRep = m
			}
		} else {
			rep := &zzsim.Report{}
			if e := json.Unmarshal(out.Bytes(), rep); e == nil {
				r.Rep = rep
			}
		}
	}
	return r, nil
}

func lastLine(b []byte) []byte {
	b = bytes.TrimRight(b, "\n")
	if i := bytes.LastIndexByte(b, '\n'); i >= 0 {
		return b[i+1:]
	}
	return b
}

type limitBuf struct {
	bytes.Buffer
	max int
}

func (l *limitBuf) Write(p []byte) (int, error) {
	if l.Len() < l.max {
		l.Buffer.Write(p)
	}
	return len(p), nil
}

var (
	hexRE  = regexp.MustCompile(`0x[0-9a-f]+`)
	goidRE = regexp.MustCompile(`[Gg]oroutine \d+`)
)

// raceText gives the stable part of the first race report: who touched what.
func raceText(s string) string {
	i := strings.Index(s, "WARNING: DATA RACE")
	if i < 0 {
		return "race detector report"
	}
	var out []string
	lines := strings.Split(s[i:], "\n")
	for k, l := range lines {
		if strings.HasPrefix(l, "===") {
			break
		}
		if (strings.Contains(l, "at 0x") || strings.Contains(l, "Previous")) && k+1 < len(lines) {
			kind := goidRE.ReplaceAllString(hexRE.ReplaceAllString(strings.TrimSpace(l), "0x"), "goroutine")
			// the first frames inside the module
			fr := ""
			for m := k + 1; m < len(lines) && strings.HasPrefix(lines[m], "  ") && m < k+16; m += 2 {
				f := strings.TrimSpace(lines[m])
				if p := strings.Index(f, "(0x"); p > 0 {
					f = f[:p]
				}
				if m+1 < len(lines) {
					loc := strings.Fields(strings.TrimSpace(lines[m+1]))
					if len(loc) > 0 {
						p := loc[0]
						if q := strings.LastIndex(p, "/"); q >= 0 {
							p = p[q+1:]
						}
						f += " " + p
					}
				}
				if fr == "" || strings.Contains(f, "phonenumbers") {
					fr += " < " + f
				}
				if strings.Count(fr, "<") >= 3 {
					break
				}
			}
			out = append(out, kind+fr)
		}
	}
	t := strings.Join(out, " || ")
	if len(t) > 1500 {
		t = t[:1500]
	}
	return t
}

// judge lists the violations a result shows.
func judge(j *Job, r *Result) []Viol {
	if j.Meta != nil {
		return judgeMeta(j, r)
	}
	if r.Timeout {
		return []Viol{{Kind: "hang", Desc: "the run did not finish within its wall limit"}}
	}
	var out []Viol
	if strings.Contains(r.Stderr, "WARNING: DATA RACE") {
		out = append(out, Viol{Kind: "race", Desc: raceText(r.Stderr)})
	}
	if r.Rep == nil {
		s := r.Stderr
		if i := strings.Index(s, "ZZSIM-FATAL"); i >= 0 {
			l, _, _ := strings.Cut(s[i:], "\n")
			return append(out, Viol{Kind: "fatal", Desc: l})
		}
		if j.StartOK && (r.Exit == 2 || r.Exit == 1) && !strings.Contains(s, "fatal error:") {
			return out
		}
		return append(out, Viol{Kind: "crash", Desc: fmt.Sprintf("process died with exit %d: %s", r.Exit, crashText(s))})
	}
	for _, v := range r.Rep.Viols {
		if v.Kind == "deadlock" && strings.Contains(v.Desc, "waiting in select") {
			continue // rendezvous between select statements is not simulated
		}
		out = append(out, v)
	}
	if j.Spec.Mode == "leak" {
		out = append(out, leakVerdict(j, r.Rep)...)
	}
	return out
}

func crashText(s string) string {
	for _, k := range []string{"fatal error:", "panic:"} {
		if i := strings.Index(s, k); i >= 0 {
			l, _, _ := strings.Cut(s[i:], "\n")
			return hexRE.ReplaceAllString(l, "0x")
		}
	}
	if len(s) > 300 {
		s = s[:300]
	}
	return s
}

// parallel runs f(0..n-1) on w workers until stop returns true.
func parallel(n, w int, stop func() bool, f func(i int)) {
	var wg sync.WaitGroup
	var mu sync.Mutex
	next := 0
	for k := 0; k < w; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				mu.Lock()
				i := next
				next++
				mu.Unlock()
				if i >= n || (stop != nil && stop()) {
					return
				}
				f(i)
			}
		}()
	}
	wg.Wait()
}

// ---- solo references ----------------------------------------------------------

type refs struct {
	b   *builder
	c   *corpus
	mu  sync.Mutex
	m   map[string]string
	bad int
}

func opKey(o *Op, container int) string {
	k := *o
	k.Ref, k.Sh, k.ShP, k.ErrOK = nil, nil, nil, false
	b, _ := json.Marshal(&k)
	return fmt.Sprintf("%d %s", container, b)
}

const noAnswer = "\x00no answer"

// fill computes, each in a process of its own, the answers of ops and stores them.
func (rf *refs) fill(ops []*Op, container int) error {
	if _, _, err := rf.b.build("plain"); err != nil {
		return err
	}
	todo := map[string]*Op{}
	var keys []string
	for _, o := range ops {
		if strings.HasPrefix(o.F, "~") {
			continue
		}
		k := opKey(o, container)
		rf.mu.Lock()
		_, have := rf.m[k]
		rf.mu.Unlock()
		if !have && todo[k] == nil {
			todo[k] = o
			keys = append(keys, k)
		}
	}
	var firstErr error
	parallel(len(keys), 3*workers, nil, func(i int) { // most of each is waiting, see settle
		o := todo[keys[i]]
		j := &Job{Variant: "plain", Spec: &Spec{Mode: "solo", Tasks: [][]*Op{{o}}, Regions: rf.c.Regions, NonGeo: rf.c.NonGeo, Container: container}}
		var ans string
		r, err := rf.b.exec(j)
		switch {
		case err != nil:
			rf.mu.Lock()
			firstErr = err
			rf.mu.Unlock()
			return
		case r.Rep == nil || len(r.Rep.Results) != 1:
			ans = noAnswer
			rf.mu.Lock()
			rf.bad++
			rf.mu.Unlock()
		default:
			ans = r.Rep.Results[0]
		}
		rf.mu.Lock()
		rf.m[keys[i]] = ans
		rf.mu.Unlock()
	})
	return firstErr
}

// get returns the solo answer.
func (rf *refs) get(o *Op, container int) (string, bool) {
	rf.mu.Lock()
	defer rf.mu.Unlock()
	s, ok := rf.m[opKey(o, container)]
	if !ok || s == noAnswer {
		return "", false
	}
	return s, true
}

// attach returns copies of ops with their solo answers; ops without one are dropped.
func (rf *refs) attach(ops []*Op, container int) []*Op {
	var out []*Op
	for _, o := range ops {
		c := *o
		if s, ok := rf.get(o, container); ok {
			c.Ref = &s
			out = append(out, &c)
		}
	}
	return out
}

var workers = 8
