package main

// Expected answers without a process per call: the calls of a run are made, in another
// order, by one process of the unmodified library; where the two disagree, a process
// that makes only that call decides which of them is wrong.

import (
	"maps"
	"slices"
	"strings"
)

// underMeta returns, for each call of a task, the metadata that is active when it is
// made.
func underMeta(t []*Op) []int {
	out := make([]int, len(t))
	var stack []int
	cur := 0
	for i, o := range t {
		switch {
		case o.F == "~use":
			stack, cur = append(stack, cur), o.I[0]
		case o.F == "~reload" && o.I[0] == 1:
			stack, cur = append(stack, cur), 0
		case o.F == "~restore" && len(stack) > 0:
			cur, stack = stack[len(stack)-1], stack[:len(stack)-1]
		}
		out[i] = cur
	}
	return out
}

// autoref fills in the expected answers of j's calls.
func (e *env) autoref(j *Job, r *RNG) error {
	seen := map[string]*Op{}
	byMeta := map[int][]*Op{}
	for _, t := range j.Spec.Tasks {
		under := underMeta(t)
		for i, o := range t {
			if o.Ref != nil || strings.HasPrefix(o.F, "~") {
				continue
			}
			k := opKey(o, under[i])
			if seen[k] == nil {
				c := *o
				c.Sh, c.ShP = nil, nil
				seen[k] = &c
				byMeta[under[i]] = append(byMeta[under[i]], &c)
			}
		}
	}
	for _, m := range slices.Sorted(maps.Keys(byMeta)) {
		ops := byMeta[m]
		shuffle(r, ops)
		pj := &Job{Variant: "plain", Spec: &Spec{Mode: "solo", Tasks: [][]*Op{ops}, Regions: e.c.Regions, NonGeo: e.c.NonGeo, Container: m}}
		res, err := e.b.exec(pj)
		if err != nil {
			return err
		}
		if res.Rep == nil || len(res.Rep.Results) != len(ops) {
			// the plain process did not survive these calls: settle each on its own
			if err := e.rf.fill(ops, m); err != nil {
				return err
			}
			for _, o := range ops {
				if s, ok := e.rf.get(o, m); ok {
					o.Ref = &s
				}
			}
		} else {
			for i, o := range ops {
				o.Ref = &res.Rep.Results[i]
			}
		}
		if m == 0 {
			j.order = ops
		}
	}
	for ti, t := range j.Spec.Tasks {
		var keep []*Op
		under := underMeta(t)
		for i, o := range t {
			if o.Ref == nil && !strings.HasPrefix(o.F, "~") {
				p := seen[opKey(o, under[i])]
				if p.Ref == nil {
					continue
				}
				c := *o
				c.Ref = p.Ref
				o = &c
			}
			keep = append(keep, o)
		}
		j.Spec.Tasks[ti] = keep
	}
	return nil
}

// settle decides, for the calls whose answers differed, what they answer alone. It
// returns the job that shows a violation, if any.
func (ck *check) settle(e *env, j *Job, vs []Viol) *Job {
	fixed := map[string]string{}
	wrongPlain := false
	for n, v := range vs {
		if v.Kind != "answer" || n >= 8 {
			continue
		}
		o := j.Spec.Tasks[v.Task][v.Op]
		if strings.HasPrefix(o.F, "~") {
			continue
		}
		m := underMeta(j.Spec.Tasks[v.Task])[v.Op]
		if err := e.rf.fill([]*Op{o}, m); err != nil {
			return j
		}
		s, ok := e.rf.get(o, m)
		if !ok {
			continue
		}
		fixed[opKey(o, m)] = s
		if s != *o.Ref {
			wrongPlain = true
		}
	}
	fix := func(ops []*Op) []*Op {
		var out []*Op
		under := underMeta(ops)
		for i, o := range ops {
			c := *o
			if s, ok := fixed[opKey(o, under[i])]; ok {
				c.Ref = &s
			}
			out = append(out, &c)
		}
		return out
	}
	c := *j
	sp := *j.Spec
	c.Spec = &sp
	sp.Tasks = nil
	for _, t := range j.Spec.Tasks {
		sp.Tasks = append(sp.Tasks, fix(t))
	}
	if wrongPlain && j.both {
		d := c
		dp := sp
		d.Spec = &dp
		dp.Tasks = [][]*Op{fix(j.order)}
		for i := range dp.Tasks[0] { // only the settled calls are judged
			if _, ok := fixed[opKey(dp.Tasks[0][i], 0)]; !ok {
				dp.Tasks[0][i].Ref = nil
			}
		}
		dp.Sched = Sched{Kind: "serial", Seed: 1}
		for k := uint64(0); k < 6; k++ {
			dp.Env.MapSeed += k
			if res, err := e.b.exec(&d); err == nil && len(ck.mine(judge(&d, res))) > 0 {
				return &d
			}
		}
	}
	return &c
}
