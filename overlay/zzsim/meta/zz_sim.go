package main

// The simulated metadata build: added to the build command through an overlay. One
// process drives a history of builds; every build runs in a process of its own.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"io"
	"os"
	"os/exec"
	"runtime"
	"strings"

	zzpn "github.com/nyaruka/phonenumbers/v2"
	zzcarrier "github.com/nyaruka/phonenumbers/v2/carrier"
	zzgeo "github.com/nyaruka/phonenumbers/v2/geocoding"
	"github.com/nyaruka/phonenumbers/v2/internal/zzsim"
	"github.com/nyaruka/phonenumbers/v2/internal/zzsim/zexec"
	"github.com/nyaruka/phonenumbers/v2/internal/zzsim/zos"
	zztz "github.com/nyaruka/phonenumbers/v2/timezone"
)

type zzChildIn struct {
	Step  *zzsim.MetaStep
	Trees map[string]map[string]string
	Files map[string][]byte
	Ops   []*zzsim.Op // lookups
}

type zzChildOut struct {
	Rep   *zzsim.MetaStepRep
	Files map[string][]byte
	Looks []string
}

func zzCheck(err error) {
	if err != nil {
		zzsim.Fatal("usage", err.Error())
	}
}

func main() {
	b, err := io.ReadAll(os.Stdin)
	zzCheck(err)
	if os.Getenv("ZZMETA") != "" {
		in := &zzChildIn{}
		zzCheck(json.Unmarshal(b, in))
		if in.Ops != nil {
			zzLook(in)
		}
		zzStep(in)
		return
	}
	spec := &zzsim.MetaSpec{}
	zzCheck(json.Unmarshal(b, spec))
	rep := zzHistory(spec)
	out, err := json.Marshal(rep)
	zzCheck(err)
	os.Stdout.Write(append(out, '\n'))
}

// ---- the parent ---------------------------------------------------------------------

const zzVersionFile = "metadata/version.go"

func zzHistory(spec *zzsim.MetaSpec) *zzsim.MetaReport {
	rep := &zzsim.MetaReport{}
	disks := make([]map[string][]byte, len(spec.Disks))
	for i, d := range spec.Disks {
		disks[i] = map[string][]byte{}
		for p, c := range d {
			disks[i][p] = []byte(zzExpand(c))
		}
	}
	for _, st := range spec.Steps {
		in := &zzChildIn{Step: st, Trees: map[string]map[string]string{}, Files: disks[st.Disk]}
		for _, t := range st.Tags {
			in.Trees[t] = spec.Trees[t]
		}
		at := uint64(0)
		if st.Fault != nil {
			f := *st.Fault
			if f.Mod {
				// how many operations would the undisturbed build do here?
				c := *st
				c.Fault = nil
				dry, err := zzChild(&zzChildIn{Step: &c, Trees: in.Trees, Files: in.Files}, nil)
				if err != nil || dry.Rep == nil || dry.Rep.Ops == 0 {
					rep.Note = fmt.Sprint("dry run failed: ", err)
					return rep
				}
				f.At %= dry.Rep.Ops
				f.Mod = false
			}
			at = f.At
			c := *st
			c.Fault = &f
			in.Step = &c
		}
		before := string(disks[st.Disk][zzVersionFile])
		o, err := zzChild(in, nil)
		if err != nil {
			rep.Note = err.Error()
			return rep
		}
		o.Rep.At = at
		o.Rep.Before = before
		disks[st.Disk] = o.Files
		rep.Steps = append(rep.Steps, o.Rep)
	}
	for _, l := range spec.Looks {
		plan := &zzsim.FaultPlan{Replace: map[string][]byte{}}
		for p, b := range disks[l.Disk] {
			if !strings.HasPrefix(p, "_build/") && !strings.HasSuffix(p, "/") {
				plan.Replace[p] = b
			}
		}
		f, err := os.CreateTemp("", "zzplan")
		zzCheck(err)
		e := json.NewEncoder(f)
		zzCheck(e.Encode(plan))
		f.Close()
		o, err := zzChild(&zzChildIn{Ops: l.Ops}, []string{"ZZSIM_FAULTS=@" + f.Name()})
		os.Remove(f.Name())
		if err != nil {
			rep.Note = err.Error()
			rep.Looks = append(rep.Looks, nil)
			return rep
		}
		rep.Looks = append(rep.Looks, o.Looks)
	}
	return rep
}

func zzChild(in *zzChildIn, env []string) (*zzChildOut, error) {
	b, err := json.Marshal(in)
	zzCheck(err)
	r, w, err := os.Pipe()
	zzCheck(err)
	self, err := os.Executable()
	zzCheck(err)
	cmd := exec.Command(self)
	cmd.Env = append(os.Environ(), "ZZMETA=1")
	cmd.Env = append(cmd.Env, env...)
	cmd.Stdin = bytes.NewReader(b)
	cmd.ExtraFiles = []*os.File{w}
	var se bytes.Buffer
	cmd.Stderr = &se
	zzCheck(cmd.Start())
	w.Close()
	out, _ := io.ReadAll(r)
	r.Close()
	err = cmd.Wait()
	o := &zzChildOut{}
	if e := json.Unmarshal(out, o); e != nil {
		s := se.String()
		if len(s) > 1500 {
			s = s[:1500]
		}
		return nil, fmt.Errorf("process died: %v: %s", err, s)
	}
	if o.Rep != nil {
		s := se.String()
		if len(s) > 300 {
			s = s[:300]
		}
		o.Rep.Stderr = s
	}
	return o, nil
}

func zzExpand(c string) string {
	var n, base int
	if k, _ := fmt.Sscanf(c, "@big %d %d", &n, &base); k == 2 {
		var b strings.Builder
		for i := 0; i < n; i++ {
			fmt.Fprintf(&b, "%d|Name %d\n", base+i, i)
		}
		return b.String()
	}
	return c
}

// ---- one build ----------------------------------------------------------------------

func zzStep(in *zzChildIn) {
	st := in.Step
	zzsim.SetEnv(st.Env)
	for t, tree := range in.Trees {
		m := map[string][]byte{}
		for p, c := range tree {
			m[p] = []byte(zzExpand(c))
		}
		zexec.Remote[t] = m
	}
	zos.Setup(in.Files, st.DirSeed, st.Fault)
	rep := &zzsim.MetaStepRep{Exit: -1}
	finish := func() {
		rep.Ops, rep.Fired, rep.Log, rep.Unsup = zos.OpCount(), zos.Fired, zos.Log, zos.Unsupported
		files := zos.Dump()
		rep.Version = string(files[zzVersionFile])
		rep.Tree = map[string]uint64{}
		for p, b := range files {
			if strings.HasPrefix(p, "_build/") || strings.HasSuffix(p, "/") {
				continue
			}
			h := fnv.New64a()
			h.Write(b)
			rep.Tree[p] = h.Sum64()
		}
		rep.Steps = zzsim.Steps()
		rep.Ranges = zzsim.MapRanges
		b, err := json.Marshal(&zzChildOut{Rep: rep, Files: files})
		zzCheck(err)
		os.NewFile(3, "report").Write(b)
		os.Exit(0)
	}
	zos.OnCrash = finish
	zos.OnExit = func(c int) { rep.Exit = c; finish() }
	zzsim.PanicHook = func(v any) { rep.Exit = 2; rep.Panic = fmt.Sprint(v); finish() }
	os.Args = append([]string{"buildmetadata"}, st.Args...)
	returned := false
	out := zzsim.Run(st.Sched, []string{"main"}, []func(){func() {
		zzOrigMain()
		returned = true
	}})
	rep.Hash = out.Hash
	switch {
	case out.Deadlock != "" || out.Stall != "":
		rep.Exit, rep.Panic = 2, out.Deadlock+out.Stall
	case returned:
		rep.Exit = 0
	default:
		rep.Exit, rep.Panic = 2, "main goroutine ended"
	}
	finish()
}

// ---- lookups through the library ------------------------------------------------------

func zzLook(in *zzChildIn) {
	o := &zzChildOut{Looks: []string{}}
	for _, op := range in.Ops {
		o.Looks = append(o.Looks, zzOp(op))
	}
	b, err := json.Marshal(o)
	zzCheck(err)
	os.NewFile(3, "report").Write(b)
	os.Exit(0)
}

func zzOp(op *zzsim.Op) (res string) {
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(runtime.Error); ok {
				res = "panic: " + e.Error()
			} else {
				res = fmt.Sprint("panic: ", r)
			}
		}
	}()
	es := func(err error) string {
		if err != nil {
			return "|err:" + err.Error()
		}
		return "|ok"
	}
	var n *zzpn.PhoneNumber
	if len(op.N) > 0 {
		cc, nn := op.N[0].CC, op.N[0].NN
		n = &zzpn.PhoneNumber{CountryCode: &cc, NationalNumber: &nn, ItalianLeadingZero: op.N[0].ILZ, NumberOfLeadingZeros: op.N[0].NLZ}
	}
	switch op.F {
	case "carrier.GetNameForValidNumber":
		v, err := zzcarrier.GetNameForValidNumber(n, op.A[0])
		return v + es(err)
	case "geocoding.GetDescriptionForValidNumber":
		v, err := zzgeo.GetDescriptionForValidNumber(n, op.A[0])
		return v + es(err)
	case "timezone.GetTimeZonesForGeographicalNumber":
		v, err := zztz.GetTimeZonesForGeographicalNumber(n)
		return fmt.Sprintf("%q", v) + es(err)
	case "GetRegionCodesForCountryCode":
		return fmt.Sprintf("%q|ok", zzpn.GetRegionCodesForCountryCode(op.I[0]))
	}
	return "no such operation"
}
