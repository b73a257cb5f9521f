package zzsim

import (
	"fmt"
	"strings"
)

// The types below describe runs as data; the driver writes them and the harness
// (package run) executes them.

// Num is a phone number as data.
type Num struct {
	CC   int32   `json:"cc"`
	NN   uint64  `json:"nn"`
	Ext  *string `json:"ext,omitempty"`
	ILZ  *bool   `json:"ilz,omitempty"`
	NLZ  *int32  `json:"nlz,omitempty"`
	Raw  *string `json:"raw,omitempty"`
	Src  *int32  `json:"src,omitempty"`
	PDCC *string `json:"pdcc,omitempty"`
	Nil  bool    `json:"nil,omitempty"`
	NoCC bool    `json:"nocc,omitempty"` // the country code is not set at all
	NoNN bool    `json:"nonn,omitempty"` // the national number is not set at all
	Unk  string  `json:"unk,omitempty"`  // fields the message does not know, in hex
}

func (n *Num) String() string {
	if n.Nil {
		return "nil"
	}
	s := fmt.Sprintf("+%d %d", n.CC, n.NN)
	if n.NoCC {
		s += " nocc"
	}
	if n.Unk != "" {
		s += " unknown " + n.Unk
	}
	if n.NoNN {
		s += " nonn"
	}
	if n.ILZ != nil {
		s += fmt.Sprintf(" ilz=%v", *n.ILZ)
	}
	if n.NLZ != nil {
		s += fmt.Sprintf(" nlz=%d", *n.NLZ)
	}
	if n.Ext != nil {
		s += fmt.Sprintf(" ext=%q", *n.Ext)
	}
	if n.Raw != nil {
		s += fmt.Sprintf(" raw=%q", *n.Raw)
	}
	if n.Src != nil {
		s += fmt.Sprintf(" src=%d", *n.Src)
	}
	if n.PDCC != nil {
		s += fmt.Sprintf(" pdcc=%q", *n.PDCC)
	}
	return s
}

// Pat is a formatting rule as data.
type Pat struct {
	Pattern string   `json:"p"`
	Format  string   `json:"f"`
	Leading []string `json:"l,omitempty"`
	NPFR    *string  `json:"npfr,omitempty"`
	DCC     *string  `json:"dcc,omitempty"`
	Opt     *bool    `json:"opt,omitempty"`
}

// Op is one library call as data.
type Op struct {
	F string   `json:"f"`
	A []string `json:"a,omitempty"`
	I []int    `json:"i,omitempty"`
	N []*Num   `json:"n,omitempty"`
	P []*Pat   `json:"p,omitempty"`
	// Sh gives, per number argument, the index of a shared number to use instead of a
	// private copy (-1: private). ShP does the same for the rule list.
	Sh  []int `json:"sh,omitempty"`
	ShP *int  `json:"shp,omitempty"`
	// Ref is the expected answer, filled in by the driver.
	Ref *string `json:"ref,omitempty"`
	// ErrOK: an error or panic is acceptable instead of Ref (a fault hits this call).
	ErrOK bool `json:"errOK,omitempty"`
}

func (o *Op) String() string {
	var p []string
	for _, a := range o.A {
		p = append(p, fmt.Sprintf("%q", a))
	}
	for _, i := range o.I {
		p = append(p, fmt.Sprint(i))
	}
	for _, n := range o.N {
		p = append(p, "{"+n.String()+"}")
	}
	for _, x := range o.P {
		p = append(p, fmt.Sprintf("{%s -> %s}", x.Pattern, x.Format))
	}
	s := o.F + "(" + strings.Join(p, ", ") + ")"
	if len(s) > 600 {
		s = s[:600] + "..."
	}
	return s
}

// Search is a text search shared by tasks.
type Search struct {
	Text    string `json:"text"`
	Region  string `json:"region"`
	Default bool   `json:"default,omitempty"`
	Len     int    `json:"len"`
	Tries   int    `json:"tries"`
}

// Spec is one run.
type Spec struct {
	Mode     string    `json:"mode"` // solo, sim, leak
	Sched    Sched     `json:"sched"`
	Env      Env       `json:"env"`
	Regions  []string  `json:"regions,omitempty"`
	NonGeo   []int     `json:"nonGeo,omitempty"`
	Shared   []*Num    `json:"shared,omitempty"`
	SharedP  [][]*Pat  `json:"sharedP,omitempty"`
	Searches []*Search `json:"searches,omitempty"`
	Tasks    [][]*Op   `json:"tasks"`

	ScribbleRet bool  `json:"scribbleRet,omitempty"`
	ScribbleArg bool  `json:"scribbleArg,omitempty"`
	RecycleArg  bool  `json:"recycleArg,omitempty"`
	CheckArg    bool  `json:"checkArg,omitempty"`
	WantTrace   bool  `json:"wantTrace,omitempty"`
	Container   int   `json:"container,omitempty"` // solo: activate this container first
	Leak        *Leak `json:"leak,omitempty"`
}

// Leak describes a long history of fresh inputs.
type Leak struct {
	Seed   uint64   `json:"seed"`
	Kind   string   `json:"kind"`
	Epochs int      `json:"epochs"`
	Calls  int      `json:"calls"` // calls per epoch
	Langs  []string `json:"langs"`
	Nums   []*Num   `json:"nums"`
}

// Viol is one observed violation.
type Viol struct {
	Kind string `json:"kind"`
	Task int    `json:"task"`
	Op   int    `json:"op"`
	Desc string `json:"desc"`
	Want string `json:"want,omitempty"`
	Got  string `json:"got,omitempty"`
}

// Report is the outcome of a run.
type Report struct {
	Out     Outcome        `json:"out"`
	Viols   []Viol         `json:"viols,omitempty"`
	Results []string       `json:"results,omitempty"`
	Ops     int            `json:"ops"`
	Errs    int            `json:"errs"` // operations that ended in an acceptable error
	Faults  map[string]int `json:"faults,omitempty"`
	Seams   map[string]int `json:"seams,omitempty"`
	Races   int            `json:"races"`
	Info    map[string]int `json:"info,omitempty"`
	Log     uint64         `json:"log"` // hash over all results in task order
}

// FaultPlan travels in ZZSIM_FAULTS.
type FaultPlan struct {
	Seed   uint64   `json:"seed"`
	Faults []*Fault `json:"faults"`
	// Replace, when set, stands for the whole of the shipped data: file -> content.
	Replace map[string][]byte `json:"replace,omitempty"`
}

// MetaFault is one planned fault of a metadata build.
type MetaFault struct {
	Kind string `json:"kind"`           // err, torn, late, full, stick, crash, crashtorn, crashafter
	At   uint64 `json:"at"`             // operation index
	Mod  bool   `json:"mod,omitempty"`  // At is taken modulo the number of operations
	Part uint64 `json:"part,omitempty"` // how much of a torn operation takes effect (modulo)
}

// MetaStep is one run of the build command on one of the simulated disks.
type MetaStep struct {
	Disk    int        `json:"disk"`
	Args    []string   `json:"args,omitempty"`
	Env     Env        `json:"env"`
	DirSeed uint64     `json:"dirSeed,omitempty"`
	Sched   Sched      `json:"sched"`
	Tags    []string   `json:"tags"` // releases the remote has
	Fault   *MetaFault `json:"fault,omitempty"`
}

// MetaLook asks the library, shipped with what is on a disk.
type MetaLook struct {
	Disk int   `json:"disk"`
	Ops  []*Op `json:"ops"`
}

// MetaSpec is a history of metadata builds.
type MetaSpec struct {
	Kind  string                       `json:"kind"`
	Trees map[string]map[string]string `json:"trees"` // tag -> path -> content
	Disks []map[string]string          `json:"disks"` // initial content; "=name" contents name a blob
	Steps []*MetaStep                  `json:"steps"`
	Looks []*MetaLook                  `json:"looks,omitempty"`
}

// MetaStepRep is what one build did.
type MetaStepRep struct {
	Exit    int               `json:"exit"` // -1: killed
	Panic   string            `json:"panic,omitempty"`
	Stderr  string            `json:"stderr,omitempty"`
	Ops     uint64            `json:"ops"`
	At      uint64            `json:"at,omitempty"` // where the fault was put
	Fired   string            `json:"fired,omitempty"`
	Log     []string          `json:"log,omitempty"`
	Version string            `json:"version"`
	Before  string            `json:"before"` // version file before the step
	Tree    map[string]uint64 `json:"tree"`   // path -> content hash
	Unsup   string            `json:"unsup,omitempty"`
	Hash    uint64            `json:"hash"`
	Steps   uint64            `json:"steps"`
	Ranges  int               `json:"ranges"`
}

// MetaReport is the outcome of a history of builds.
type MetaReport struct {
	Steps []*MetaStepRep `json:"steps"`
	Looks [][]string     `json:"looks,omitempty"`
	Note  string         `json:"note,omitempty"`
}
