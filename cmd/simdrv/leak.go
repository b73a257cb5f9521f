package main

// Retained memory and goroutines (C18).

import (
	"fmt"

	"verif/overlay/zzsim"
)

var leakKinds = []string{"parse", "badparse", "format", "query", "short", "find", "type", "regions", "codes", "langs", "lookup", "sets", "misc", "wide", "meta"}

// steadyBytes is the retained growth per step above which an epoch counts as growing,
// when each late epoch grows (fastBytes where that is plain at once); jumpBytes is the growth per step averaged over the
// second half of the history, for what grows in jumps, as slices and maps do. One
// step makes several library calls.
const (
	fastBytes   = 30
	steadyBytes = 1
	jumpBytes   = 6
)

func leakJob(e *env, r *RNG, i int) *Job {
	g := &gen{c: e.c, r: r, data: e.data}
	l := &zzsim.Leak{Seed: r.U64() >> 1, Kind: leakKinds[i%len(leakKinds)], Epochs: 8, Calls: 500}
	switch l.Kind {
	case "meta":
		l.Calls = 20
	case "wide":
		l.Calls, l.Epochs = 200, 14
	case "regions", "find", "type", "misc":
		l.Calls = 200
	case "lookup":
		l.Langs = []string{"en", e.data.carrierLangs[r.N(len(e.data.carrierLangs))], e.data.geoLangs[r.N(len(e.data.geoLangs))]}
	}
	for k := 3 + r.N(6); k > 0; k-- {
		l.Nums = append(l.Nums, g.example().num())
	}
	s := baseSpec(e)
	s.Mode = "leak"
	s.Leak = l
	s.Env = environment(r)
	return &Job{Variant: "sim", Spec: s, Secs: 120}
}

// leakVerdict compares the late epochs with one another and the end of the history
// with its middle, by which time what is built once has mostly been built; confirm
// repeats a suspect history eight and, for jumps, twenty-four times as long, with the same inputs and
// with others, and each must show it.
func leakVerdict(j *Job, rep *zzsim.Report) []Viol {
	l := j.Spec.Leak
	if len(rep.Results) != l.Epochs || l.Epochs < 6 {
		return nil
	}
	heap := make([]int64, l.Epochs)
	gor := make([]int, l.Epochs)
	for i, s := range rep.Results {
		fmt.Sscan(s, &heap[i], &gor[i])
	}
	half := l.Epochs/2 - 1
	last := l.Epochs - 1
	grown := heap[last] - heap[half]
	more := gor[last] - gor[half]
	least := heap[last] - heap[last-1]
	for e := l.Epochs - 4; e < l.Epochs; e++ {
		least = min(least, heap[e]-heap[e-1])
	}
	perStep := least / int64(l.Calls)
	var out []Viol
	switch {
	case perStep > fastBytes:
		out = append(out, Viol{Kind: "memory", Desc: fmt.Sprintf("retained memory keeps growing over repeated %q calls with fresh inputs: more than %d bytes for each step in each of the last four epochs", l.Kind, fastBytes)})
	case l.Kind == "wide":
		// numbers made up from nothing meet rarely used formats for a long time
	case perStep >= steadyBytes:
		out = append(out, Viol{Kind: "memory", Desc: fmt.Sprintf("retained memory keeps growing over repeated %q calls with fresh inputs: more than %d bytes for each step in each of the last epochs, however long the history", l.Kind, steadyBytes)})
	case grown > int64(jumpBytes*l.Calls*(last-half)):
		out = append(out, Viol{Kind: "memory", Desc: fmt.Sprintf("retained memory keeps growing over repeated %q calls with fresh inputs: more than %d bytes for each step over the second half of the history, however long the history", l.Kind, jumpBytes)})
	}
	if more > 2 && more > l.Calls/250 {
		out = append(out, Viol{Kind: "goroutines", Desc: fmt.Sprintf("goroutines keep accumulating over repeated %q calls", l.Kind)})
	}
	return out
}

func init() {
	register(&check{
		id: "C18", variants: []string{"sim"}, quick: 240, thorough: 1500,
		job:  leakJob,
		rule: "a run is one process that makes eight epochs of 200-500 steps, each step several calls of one kind (parsing, failing parses, formatting, queries, short numbers, searches completed, abandoned and ended by panics, typing, unknown regions, unknown calling codes, unknown languages, lookups, sets, wholly made-up numbers, containers, the remaining entry points) with inputs never used before over a fixed set of regions and languages; after each epoch the reachable heap is measured after collection; a violation is growth above 1 byte per step in each of the last four epochs, or above 6 bytes per step over the second half of the history, confirmed by histories eight and, where not every epoch grows, twenty-four times as long, with the same seed and with others; goroutines likewise",
	})
}
