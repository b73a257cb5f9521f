package main

// Generation of library calls. Calls come in clusters of related inputs (the same
// digits under another country code, the same number with and without extension or
// raw input, the same text under another leniency, ...), because state that leaks
// from one call into another shows between inputs that are nearly the same.

import (
	"encoding/json"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"strings"

	"verif/overlay/zzsim"
)

type (
	Num   = zzsim.Num
	Pat   = zzsim.Pat
	Op    = zzsim.Op
	Spec  = zzsim.Spec
	Viol  = zzsim.Viol
	RNG   = zzsim.RNG
	Sched = zzsim.Sched
	Fault = zzsim.Fault
)

type example struct {
	Region string `json:"r"`
	Type   int    `json:"t"`
	CC     int    `json:"cc"`
	NN     uint64 `json:"nn"`
	LZ     int    `json:"lz"`
	Nat    string `json:"nat"`
	Int    string `json:"int"`
}

type shortEx struct {
	Region string `json:"r"`
	Kind   string `json:"k"`
	Num    string `json:"n"`
}

type corpus struct {
	Regions []string  `json:"regions"`
	NonGeo  []int     `json:"nonGeo"`
	Codes   []int     `json:"codes"`
	Nums    []example `json:"nums"`
	Invalid []example `json:"invalid"`
	Short   []shortEx `json:"short"`

	byRegion map[string][]example
	byCode   map[int][]example

	edges  map[string][]edge
	shorts []shortEdge
}

// edge is a pair of numbers that differ in one digit and in what is true of them.
type edge struct {
	R  string `json:"r"`
	CC int    `json:"cc"`
	A  string `json:"a"`
	B  string `json:"b"`
}

type shortEdge struct {
	R string `json:"r"`
	A string `json:"a"`
	B string `json:"b"`
}

// numOf builds a number from a national significant number.
func numOf(cc int, nsn string) *Num {
	n := &Num{CC: int32(cc)}
	t := strings.TrimLeft(nsn, "0")
	fmt.Sscan(t, &n.NN)
	if z := len(nsn) - len(t); z > 0 {
		n.ILZ = boolp(true)
		if z > 1 {
			n.NLZ = i32p(int32(z))
		}
	}
	return n
}

func loadCorpus() (*corpus, error) {
	b, err := os.ReadFile(filepath.Join(verifDir, "corpus", "corpus.json"))
	if err != nil {
		return nil, err
	}
	c := &corpus{byRegion: map[string][]example{}, byCode: map[int][]example{}}
	if err := json.Unmarshal(b, c); err != nil {
		return nil, err
	}
	for _, e := range c.Nums {
		c.byRegion[e.Region] = append(c.byRegion[e.Region], e)
		c.byCode[e.CC] = append(c.byCode[e.CC], e)
	}
	if b, err = os.ReadFile(filepath.Join(verifDir, "corpus", "edges.json")); err != nil {
		return nil, err
	}
	var es struct {
		Edges []edge      `json:"edges"`
		Short []shortEdge `json:"short"`
	}
	if err := json.Unmarshal(b, &es); err != nil {
		return nil, err
	}
	c.shorts = es.Short
	c.edges = map[string][]edge{}
	for _, e := range es.Edges {
		c.edges[e.R] = append(c.edges[e.R], e)
	}
	return c, nil
}

type gen struct {
	c    *corpus
	r    *RNG
	data *dataTables
}

func (g *gen) pick(ss ...string) string { return ss[g.r.N(len(ss))] }
func (g *gen) n(n int) int              { return g.r.N(n) }
func (g *gen) p(pct int) bool           { return g.r.N(100) < pct }

func strp(s string) *string { return &s }
func boolp(b bool) *bool    { return &b }
func i32p(i int32) *int32   { return &i }

func (e example) num() *Num {
	n := &Num{CC: int32(e.CC), NN: e.NN}
	if e.LZ > 0 {
		n.ILZ = boolp(true)
		if e.LZ > 1 {
			n.NLZ = i32p(int32(e.LZ))
		}
	}
	return n
}

func (e example) nsn() string { return strings.Repeat("0", e.LZ) + fmt.Sprint(e.NN) }

// popular regions appear more often: they are where shared calling codes, national
// prefixes, leading zeros, mobile tokens, carrier codes and alternate formats are.
var popular = strings.Fields("US US CA GB GB GG DE FR IT IT SM VA RU KZ BR AR MX AU CX IN JP CN HK KR SG NZ HU CO CR CH AT SE NO SJ FI ES PT NL BE PL CZ UA BY TR IL SA AE EG ZA NG KE JM BS DO PR GP RE YT GF NC CI SN UY CL PE VE 001")

func (g *gen) region() string {
	if g.p(55) {
		return popular[g.n(len(popular))]
	}
	return g.c.Regions[g.n(len(g.c.Regions))]
}

func (g *gen) realRegion() string {
	for {
		if r := g.region(); r != "001" {
			return r
		}
	}
}

func (g *gen) example() example {
	for {
		if es := g.c.byRegion[g.region()]; len(es) > 0 {
			return es[g.n(len(es))]
		}
	}
}

// oddRegion is a region argument, sometimes unusual.
func (g *gen) regionArg(e example) string {
	switch g.n(12) {
	case 0, 1, 2, 3, 4, 5:
		if e.Region == "001" {
			return "US"
		}
		return e.Region
	case 6, 7:
		// another region of the same calling code
		es := g.c.byCode[e.CC]
		if len(es) > 0 {
			return es[g.n(len(es))].Region
		}
		return e.Region
	case 8, 9:
		return g.realRegion()
	case 10:
		return g.pick("ZZ", "", "001", strings.ToLower(e.Region), "XX", "USA")
	}
	return g.pick("US", "GB", "DE")
}

// variants returns numbers close to e.
func (g *gen) variants(e example) []*Num {
	base := e.num()
	out := []*Num{base}
	cp := func() *Num { c := *base; return &c }
	add := func(f func(n *Num)) { n := cp(); f(n); out = append(out, n) }
	add(func(n *Num) { n.NN = n.NN ^ 1 })
	add(func(n *Num) { n.NN = n.NN/10*10 + uint64(g.n(10)) })
	add(func(n *Num) { n.Ext = strp(fmt.Sprint(1 + g.n(9999))) })
	add(func(n *Num) {
		if n.ILZ != nil {
			n.ILZ, n.NLZ = nil, nil
		} else {
			n.ILZ = boolp(true)
		}
	})
	add(func(n *Num) { n.ILZ = boolp(true); n.NLZ = i32p(int32(2 + g.n(2))) })
	add(func(n *Num) {
		n.Raw = strp(e.Nat)
		n.Src = i32p(20)
	})
	add(func(n *Num) {
		n.Raw = strp(e.Int)
		n.Src = i32p(1)
	})
	add(func(n *Num) { n.Raw = strp("00" + fmt.Sprint(e.CC) + e.nsn()); n.Src = i32p(5) })
	add(func(n *Num) { n.Raw = strp(fmt.Sprint(e.CC) + e.nsn()); n.Src = i32p(10) })
	add(func(n *Num) { n.PDCC = strp(g.pick("15", "", "21", "100", "0")) })
	add(func(n *Num) { n.CC = int32(g.c.Codes[g.n(len(g.c.Codes))]) })
	add(func(n *Num) {
		n.CC = int32(g.pickInt(1, 7, 39, 44, 47, 61, 212, 262, 290, 358, 590, 599, 672, 800, 979, 999, 0))
	})
	add(func(n *Num) { n.NoCC = true })
	add(func(n *Num) { n.CC, n.Ext = 0, strp(fmt.Sprint(1+g.n(99))) })
	add(func(n *Num) { n.NoNN, n.Raw = g.p(50), strp(e.Nat) })
	add(func(n *Num) { n.NN = n.NN*10 + uint64(g.n(10)) })
	add(func(n *Num) { n.NN = n.NN / 10 })
	add(func(n *Num) { n.NN = n.NN / 1000 })
	add(func(n *Num) { n.NN = n.NN*100000 + 12345 })
	for k := 0; k < 3; k++ {
		add(func(n *Num) { n.NN = g.mutate(n.NN) })
	}
	// two things at once
	for k := 0; k < 2; k++ {
		x, y := out[1+g.n(len(out)-1)], out[1+g.n(len(out)-1)]
		z := *x
		if y.Ext != nil {
			z.Ext = y.Ext
		}
		if y.ILZ != nil {
			z.ILZ, z.NLZ = y.ILZ, y.NLZ
		}
		if y.Raw != nil {
			z.Raw, z.Src = y.Raw, y.Src
		}
		if y.PDCC != nil {
			z.PDCC = y.PDCC
		}
		z.NoCC = z.NoCC || y.NoCC
		out = append(out, &z)
	}
	out = append(out, g.jumble(e), g.jumble(e))
	if es := g.c.byCode[e.CC]; len(es) > 0 {
		out = append(out, es[g.n(len(es))].num())
	}
	if es := g.c.byRegion[e.Region]; len(es) > 0 {
		out = append(out, es[g.n(len(es))].num())
	}
	return out
}

// jumble is a number each of whose fields is unset, usual, empty or odd on its own.
func (g *gen) jumble(e example) *Num {
	n := e.num()
	n.NoCC, n.NoNN = g.n(5) == 0, g.n(6) == 0
	if g.n(8) == 0 {
		n.CC = int32(g.pickInt(0, 1, 999, -1, 39))
	}
	if g.n(8) == 0 {
		n.NN = uint64(g.pickInt(0, 1, 112, 911, 99999999999999999))
	}
	if g.p(50) {
		n.Ext = strp(g.pick("", "", "0", "5", "77", "x"))
	}
	if g.p(50) {
		n.ILZ = boolp(g.p(50))
	}
	if g.p(50) {
		n.NLZ = i32p(int32(g.pickInt(0, 1, 1, 2, 3, -1)))
	}
	if g.p(50) {
		n.Raw = strp(g.pick("", e.Nat, e.Int, e.Int, "0"+e.nsn(), "junk"))
	}
	if g.p(50) {
		n.Src = i32p(int32(g.pickInt(0, 1, 5, 10, 20, 77)))
	}
	if g.p(50) {
		n.PDCC = strp(g.pick("", "", "15", "0", "x"))
	}
	if g.n(8) == 0 {
		n.Unk = g.pick("7801", "82010161", "7805", "c03e07")
	}
	return n
}

// mutate changes some digits of a national number: one anywhere, everything behind a
// common start, everything before a common end, or the length.
func (g *gen) mutate(nn uint64) uint64 {
	b := []byte(fmt.Sprint(nn))
	switch g.n(8) {
	case 0, 1, 2:
		b[g.n(len(b))] = byte('0' + g.n(10))
	case 3:
		for i := g.n(len(b)); i < len(b); i++ {
			b[i] = byte('0' + g.n(10))
		}
	case 4:
		for i := g.n(len(b)); i >= 0; i-- {
			b[i] = byte('0' + g.n(10))
		}
	case 5:
		i, k := g.n(len(b)), g.n(len(b))
		b[i], b[k] = b[k], b[i]
	case 6:
		if len(b) > 2 {
			i := g.n(len(b))
			b = append(b[:i], b[i+1:]...)
		}
	case 7:
		if len(b) < 17 {
			b = append(b, byte('0'+g.n(10)))
		}
	}
	var v uint64
	fmt.Sscan(strings.TrimLeft(string(b), "0")+"", &v)
	if v == 0 {
		return nn
	}
	return v
}

// edit changes one character of a text.
func (g *gen) edit(s string) string {
	rs := []rune(s)
	if len(rs) == 0 {
		return s
	}
	i := g.n(len(rs))
	switch g.n(5) {
	case 0:
		return string(rs[:i]) + string(rs[i+1:])
	case 1:
		return string(rs[:i]) + g.pick("0", "1", "7", " ", "-", "(", "+", "a", "\u3000", g.illFormed()) + string(rs[i:])
	}
	if rs[i] >= '0' && rs[i] <= '9' {
		rs[i] = rune('0' + g.n(10))
	} else {
		rs[i] = []rune(" -./()x,+0")[g.n(10)]
	}
	return string(rs)
}

// edgeCluster is a cluster of calls on both members of pairs of numbers that differ in
// one digit and in what is true of them.
func (g *gen) edgeCluster(n int) []*Op {
	if g.p(10) {
		var out []*Op
		e := g.c.shorts[g.n(len(g.c.shorts))]
		cc := 1
		if es := g.c.byRegion[e.R]; len(es) > 0 {
			cc = es[0].CC
		}
		for len(out) < n {
			if g.p(20) {
				e = g.c.shorts[g.n(len(g.c.shorts))]
			}
			f := g.shortNumOp(numOf(cc, e.A), e.R)
			h := *f
			h.N = []*Num{numOf(cc, e.B)}
			if g.p(30) {
				f = &Op{F: g.pick("ConnectsToEmergencyNumber", "IsEmergencyNumber"), A: []string{e.A, e.R}}
				h = Op{F: f.F, A: []string{e.B, e.R}}
			}
			out = append(out, f, &h)
		}
		return out
	}
	var es []edge
	for len(es) == 0 {
		es = g.c.edges[g.region()]
	}
	e := es[g.n(len(es))]
	ex := example{Region: e.R, CC: e.CC, Nat: e.A, Int: fmt.Sprintf("+%d %s", e.CC, e.A)}
	ex.LZ = len(e.A) - len(strings.TrimLeft(e.A, "0"))
	ex.NN = numOf(e.CC, e.A).NN
	reg := e.R
	if reg == "001" {
		reg = "US"
	}
	var make func(nsn string) *Op
	redraw := func() {
		switch g.n(12) {
		case 0:
			f := g.pick("Parse", "ParseAndKeepRawInput", "IsPossibleNumberFromRegion")
			plus := g.p(50)
			make = func(nsn string) *Op {
				if plus {
					nsn = fmt.Sprintf("+%d %s", e.CC, nsn)
				}
				return &Op{F: f, A: []string{nsn, reg}}
			}
		case 1:
			plus := g.pick("", "", "0", "+"+fmt.Sprint(e.CC), "1", "8")
			make = func(nsn string) *Op { return &Op{F: "AYTF", A: []string{reg, plus + nsn}} }
		case 2:
			ln := g.n(4)
			alt := g.p(40)
			make = func(nsn string) *Op {
				t := fmt.Sprintf("+%d %s", e.CC, nsn)
				if alt {
					t = g.altForm(e.CC, nsn)
				}
				return &Op{F: "FindNumbersWithLeniency", A: []string{"a " + t + " b", reg}, I: []int{ln, 100}}
			}
		case 3, 4:
			f := g.lookupOp([]*Num{numOf(e.CC, e.A)})
			if len(f.A) > 0 && g.p(60) {
				f.A[0] = "en"
			}
			make = func(nsn string) *Op { o := *f; o.N = []*Num{numOf(e.CC, nsn)}; return &o }
		default:
			f := g.numOp(ex, []*Num{numOf(e.CC, e.A)})
			for len(f.N) != 1 {
				f = g.numOp(ex, []*Num{numOf(e.CC, e.A)})
			}
			make = func(nsn string) *Op { o := *f; o.N = []*Num{numOf(e.CC, nsn)}; return &o }
		}
	}
	redraw()
	var out []*Op
	for len(out) < n {
		x := es[g.n(len(es))]
		if x.CC != e.CC {
			x = e
		}
		if g.p(8) {
			redraw()
		}
		a, b := x.A, x.B
		if g.p(50) {
			a, b = b, a
		}
		out = append(out, make(a), make(b))
	}
	return out
}

// near is a cluster of calls of one function on inputs that differ a little.
func (g *gen) near(n int) []*Op {
	e := g.example()
	var f *Op
	switch g.n(10) {
	case 0, 1:
		f = g.strOp(e, []string{g.writing(e), g.writing(e)})
	case 2:
		f = g.lookupOp([]*Num{e.num()})
	case 3:
		f = &Op{F: "AYTF", A: []string{g.aytfRegion(e), g.keys(e)}}
	case 4:
		t := g.text([]example{e, g.example()})
		f = &Op{F: "FindNumbersWithLeniency", A: []string{t, g.regionArg(e)}, I: []int{g.n(4), g.pickInt(3, 50, 65536, math.MaxInt)}}
	case 5:
		f = g.shortOp()
	default:
		f = g.numOp(e, []*Num{e.num()})
	}
	var kin []example
	if es := g.c.byCode[e.CC]; len(es) > 0 {
		kin = es
	}
	var out []*Op
	cur := *f
	for i := 0; i < n; i++ {
		o := cur
		o.A = append([]string{}, cur.A...)
		o.N = append([]*Num{}, cur.N...)
		o.I = append([]int{}, cur.I...)
		if g.p(30) { // back to where it started
			o.A = append([]string{}, f.A...)
			o.N = append([]*Num{}, f.N...)
			o.I = append([]int{}, f.I...)
		}
		switch x := g.n(10); {
		case len(o.N) > 0 && x < 7:
			k := g.n(len(o.N))
			c := *o.N[k]
			switch y := g.n(10); {
			case y < 6:
				c.NN = g.mutate(c.NN)
			case y < 7 && len(kin) > 0:
				c = *kin[g.n(len(kin))].num()
			case y < 8:
				c.CC = int32(g.c.Codes[g.n(len(g.c.Codes))])
			case y < 9:
				vs := g.variants(e)
				c = *vs[g.n(len(vs))]
			default:
				if c.ILZ != nil {
					c.ILZ = nil
				} else {
					c.ILZ = boolp(true)
				}
			}
			o.N[k] = &c
		case len(o.A) == 2 && x < 8: // text and region, or region and keys
			k := 0
			if o.F == "AYTF" {
				k = 1
			}
			o.A[k] = g.edit(o.A[k])
		case len(o.A) > 0:
			k := len(o.A) - 1
			if o.F == "AYTF" {
				k = 0
			}
			switch {
			case strings.HasPrefix(o.F, "carrier."):
				o.A[0] = g.lang("carrier")
			case strings.HasPrefix(o.F, "geocoding."):
				o.A[0] = g.lang("geo")
			case len(o.A) == 1 && len(o.N) == 0:
				o.A[k] = g.edit(o.A[k])
			default:
				o.A[k] = g.regionArg(e)
			}
		case len(o.I) > 0 && strings.HasPrefix(o.F, "Format"):
			o.I[0] = g.n(4)
		case len(o.I) > 0 && strings.HasPrefix(o.F, "IsPossible"):
			o.I[0] = g.n(12)
		}
		out = append(out, &o)
		cur = o
	}
	return out
}

func (g *gen) pickInt(xs ...int) int { return xs[g.n(len(xs))] }

func (g *gen) someVariants(e example) []*Num {
	v := g.variants(e)
	out := []*Num{v[0]}
	for k := 1 + g.n(4); k > 0; k-- {
		out = append(out, v[g.n(len(v))])
	}
	return out
}

var fullWidth = []rune("０１２３４５６７８９")
var arabic = []rune("٠١٢٣٤٥٦٧٨٩")

func wide(s string, set []rune) string {
	return strings.Map(func(r rune) rune {
		if r >= '0' && r <= '9' {
			return set[r-'0']
		}
		return r
	}, s)
}

// writings returns strings a user might type for e.
func (g *gen) writing(e example) string {
	switch g.n(22) {
	case 0, 1, 2:
		return e.Nat
	case 3, 4, 5:
		return e.Int
	case 6:
		return fmt.Sprintf("+%d%s", e.CC, e.nsn())
	case 7:
		return e.nsn()
	case 8:
		return "00" + fmt.Sprint(e.CC) + e.nsn()
	case 9:
		return "011" + fmt.Sprint(e.CC) + e.nsn()
	case 10:
		return fmt.Sprintf("tel:%s;phone-context=+%d", e.nsn(), e.CC)
	case 11:
		return fmt.Sprintf("tel:+%d-%s;ext=%d", e.CC, e.nsn(), g.n(999))
	case 12:
		return e.Nat + g.pick(" x", " ext. ", " ext:", "#", " доб. ", " int ", ";ext=", ",,", " extn ") + fmt.Sprint(1+g.n(9999))
	case 13:
		return wide(e.Int, fullWidth)
	case 14:
		return wide(e.Nat, arabic)
	case 15:
		return g.pick("0", "1", "8", "9") + e.nsn()
	case 16:
		return g.pick("1-800-FLOWERS", "0800 DDA 005", "+1 (800) GOT-MILK", "1800 six-flag", "abc", "", "+", "  ", "+++", "tel:", "12", "(", "+800 1234 5678", "+979 123 456 789", "03-331 6005", "*555", "911", "33 1 23 45 67 89")
	case 17:
		s := e.nsn()
		k := g.n(len(s))
		return s[:k] + g.pick("-", ".", " ", "/", "~", "‑", " (") + s[k:]
	case 18:
		return e.nsn() + fmt.Sprint(g.n(100))
	case 19:
		s := e.nsn()
		return s[:1+g.n(len(s))]
	case 20:
		return g.pick("My number is ", "Tel: ", "(", "=", "~") + e.Int
	}
	return "+" + fmt.Sprint(g.n(1000)) + e.nsn()
}

// numOp builds one call taking numbers.
func (g *gen) numOp(e example, vs []*Num) *Op {
	v := vs[g.n(len(vs))]
	w := vs[g.n(len(vs))]
	o := func(f string, a []string, i ...int) *Op { return &Op{F: f, A: a, I: i, N: []*Num{v}} }
	reg := g.regionArg(e)
	switch g.n(34) {
	case 0, 1, 2, 3:
		return o("Format", nil, g.n(4))
	case 4:
		return g.patternOp(e, v)
	case 5, 6:
		return o("FormatInOriginalFormat", []string{reg})
	case 7:
		return o("FormatNationalNumberWithCarrierCode", []string{g.pick("15", "21", "", "100", "*")})
	case 8:
		return o("FormatNationalNumberWithPreferredCarrierCode", []string{g.pick("15", "21", "")})
	case 9, 10:
		return o("FormatNumberForMobileDialing", []string{reg}, g.n(2))
	case 11:
		return o("FormatOutOfCountryCallingNumber", []string{reg})
	case 12:
		return o("FormatOutOfCountryKeepingAlphaChars", []string{reg})
	case 13:
		return o("CanBeInternationallyDialled", nil)
	case 14:
		return o(g.pick("GetLengthOfGeographicalAreaCode", "GetLengthOfNationalDestinationCode", "GetNationalSignificantNumber"), nil)
	case 15, 16:
		return o("GetRegionCodeForNumber", nil)
	case 17:
		return o("IsNumberGeographical", nil)
	case 18:
		return o("IsPossibleNumber", nil)
	case 19:
		return o("IsPossibleNumberForType", nil, g.n(12))
	case 20:
		return o("IsPossibleNumberForTypeWithReason", nil, g.n(12))
	case 21:
		return o("IsPossibleNumberWithReason", nil)
	case 22, 23:
		return o("IsValidNumber", nil)
	case 24:
		return o("IsValidNumberForRegion", []string{reg})
	case 25, 26:
		return o("GetNumberType", nil)
	case 27:
		return o("TruncateTooLongNumber", nil)
	case 28, 29:
		return &Op{F: "IsNumberMatchWithNumbers", N: []*Num{v, w}}
	case 30:
		return o("IsNumberMatchWithOneNumber", []string{g.writing(e)})
	case 31:
		return o("Verify", []string{g.writing(e)}, g.n(4))
	case 32:
		return g.shortNumOp(v, reg)
	}
	return o("GetNumberType", nil)
}

func (g *gen) shortNumOp(v *Num, reg string) *Op {
	f := g.pick("IsCarrierSpecific", "IsPossibleShortNumber", "IsValidShortNumber", "GetExpectedCost")
	if g.p(50) {
		f = g.pick("IsCarrierSpecificForRegion", "IsPossibleShortNumberForRegion", "IsSmsServiceForRegion", "IsValidShortNumberForRegion", "GetExpectedCostForRegion")
		return &Op{F: f, A: []string{reg}, N: []*Num{v}}
	}
	return &Op{F: f, N: []*Num{v}}
}

func (g *gen) rules() []*Pat {
	all := []*Pat{
		{Pattern: `(\d{3})(\d{3})(\d{4})`, Format: "($1) $2-$3"},
		{Pattern: `(\d{2})(\d{3})(\d{4,7})`, Format: "$1.$2.$3"},
		{Pattern: `(\d{2})(\d{5})(\d{3})`, Format: "$1-$2 $3", NPFR: strp("$NP$FG")},
		{Pattern: `(\d{2})(\d{4})(\d{4})`, Format: "$1 $2 $3", NPFR: strp("($NP$FG)"), Leading: []string{"[2-9]"}},
		{Pattern: `(\d)(\d{4})(\d{4})`, Format: "$1/$2/$3", Leading: []string{"1", "12"}},
		{Pattern: `(\d{4})(\d+)`, Format: "$1_$2", NPFR: strp("$FG")},
		{Pattern: `(\d+)`, Format: "<$1>"},
		{Pattern: `(\d{3})(\d{7})`, Format: "$1 $2", NPFR: strp("$NP$FG"), DCC: strp("$NP $CC $FG")},
	}
	all = append(all,
		&Pat{Pattern: `(\d)(\d{3})(\d{3})(\d{4})`, Format: "$1 $2 $3 $4", NPFR: strp("$NP ($FG)"), Leading: []string{"1", "1[2-9]", "1[2-9]\\d"}, Opt: boolp(g.p(50))},
		&Pat{Pattern: `(\d{2,5})(\d{4})`, Format: "$1 $2", Leading: []string{fmt.Sprintf("[%d-9]", g.n(9))}},
		&Pat{Pattern: fmt.Sprintf(`(\d{%d})(\d*)`, 1+g.n(5)), Format: "$2-$1"},
		&Pat{Pattern: `\d{8,10}`, Format: "$0", NPFR: strp("")},
	)
	k := g.pickInt(0, 1, 1, 1, 2, 2, 2, 3, 3, 4, 5, 6)
	var out []*Pat
	for i := 0; i < k; i++ {
		out = append(out, all[g.n(len(all))])
	}
	return out
}

func (g *gen) patternOp(e example, v *Num) *Op {
	return &Op{F: "FormatByPattern", N: []*Num{v}, I: []int{g.n(4)}, P: g.rules()}
}

// strOp builds one call taking text.
func (g *gen) strOp(e example, ws []string) *Op {
	w := ws[g.n(len(ws))]
	reg := g.regionArg(e)
	switch g.n(14) {
	case 0, 1, 2:
		return &Op{F: "Parse", A: []string{w, reg}}
	case 3, 4, 5:
		return &Op{F: "ParseAndKeepRawInput", A: []string{w, reg}}
	case 6:
		return &Op{F: g.pick("ParseToNumber", "ParseAndKeepRawInputToNumber"), A: []string{w, reg}}
	case 7, 8:
		return &Op{F: "IsNumberMatch", A: []string{w, ws[g.n(len(ws))]}}
	case 9:
		return &Op{F: "IsPossibleNumberFromRegion", A: []string{w, reg}}
	case 10:
		return &Op{F: g.pick("ConvertAlphaCharactersInNumber", "NormalizeDiallableCharsOnly", "NormalizeDigitsOnly", "IsAlphaNumber"), A: []string{w}}
	case 11:
		return &Op{F: g.pick("ConnectsToEmergencyNumber", "IsEmergencyNumber"), A: []string{w, reg}}
	}
	return &Op{F: "Parse", A: []string{w, reg}}
}

func (g *gen) text(es []example) string {
	var b strings.Builder
	k := 1 + g.n(5)
	for i := 0; i < k; i++ {
		b.WriteString(g.pick("Call ", "or ", "tel ", "fax: ", "(", "am 3.12. ", "id 08/31/95 ", "€ 5,50 ", "x ", "text on 2012-01-02 08:00 ", "ref 12345 ", "Ünïcödé ", "№ ", "a1b2 ", "[", "1: ", "http://x.co/?n="))
		if g.p(6) {
			b.WriteString(g.illFormed())
		}
		w := ""
		switch e := es[g.n(len(es))]; {
		case g.p(12):
			e = g.altExample()
			w = g.altForm(e.CC, e.nsn())
		case g.p(8):
			w = g.altForm(e.CC, e.nsn())
		default:
			w = g.writing(e)
		}
		if g.p(25) {
			w = strings.ReplaceAll(w, " ", "-")
		}
		if g.p(2) {
			w = strings.Replace(w, " ", g.illFormed(), 1)
		}
		if g.p(15) { // separators of other scripts
			w = strings.ReplaceAll(w, " ", g.separator())
		}
		b.WriteString(w)
		switch g.n(5) {
		case 0:
			b.WriteString(g.separator())
		default:
			b.WriteString(g.pick(" ", ", ", "; ", ".", " / ", ") ", "\n", "//", "", " x "))
		}
		if g.p(12) { // something that is not a number, glued on
			b.WriteString(fmt.Sprint(g.n(100000)) + g.separator())
		}
	}
	return b.String()
}

// illFormed is text that is not UTF-8: stray bytes, broken-off and overlong characters. Each
// byte is written as the private-use character the runs turn into it.
func (g *gen) illFormed() string {
	raw := g.pick("caf\xe9 ", "\xff", "\xc3", "\xc3(", "\xa0", "\xe2\x80", "\xed\xa0\x80", "\xc0\xab", "\xf0\x9f\x98", "\x80\x80\x80\x80", "\xef\xbc", "\xd9")
	var rs []rune
	for i := 0; i < len(raw); i++ {
		if r := rune(raw[i]); r >= 0x80 {
			r += 0xf700
			rs = append(rs, r)
		} else {
			rs = append(rs, r)
		}
	}
	return string(rs)
}

// separator is punctuation or space that may stand inside or between numbers, much of
// it several bytes long.
func (g *gen) separator() string {
	return g.pick("\u2014", "\u3000", "\u2013", "\u2212", "\uff0d", "\u30fc", "\u00a0", "\u200b", "\u2060", "\uff0f", "\uff08", "\uff09", "\uff3b", "\uff3d", "\uff5e", "\u2053", "\u223c", "\u00ad", " - ", "~", ".", " ")
}

// hardText is rich in candidates that fail, for budgets.
func (g *gen) hardText(es []example) string {
	var b strings.Builder
	k := 1 + g.n(8)
	for i := 0; i < k; i++ {
		if g.p(3) {
			b.WriteString(g.illFormed())
		}
		switch g.n(6) {
		case 0:
			b.WriteString(strings.Repeat(g.pick("1234 ", "(12) ", "99-", "1.", "0000 ", "123/x", "12/ x ", "1/x 2 "), 1+g.n(6)))
		case 1:
			b.WriteString(g.writing(es[g.n(len(es))]) + g.pick(" / ", " x ", "-", "/", " ", "/x", "/ x", "\\x", "\\ x", " /  x", "/x ") + g.writing(es[g.n(len(es))]))
		case 2:
			b.WriteString(g.pick("21/07/2013 ", "2013-07-21 08:00 ", "12.34.56.78 ", "1/2/3/4/5 ", "((123) 4) "))
		default:
			b.WriteString(g.pick("", "Tel ", "~") + g.writing(es[g.n(len(es))]) + g.pick(" ", "; ", ", ", ". "))
		}
	}
	return b.String()
}

func (g *gen) keys(e example) string {
	var s string
	switch g.n(9) {
	case 0, 1:
		s = e.nsn()
	case 2:
		s = fmt.Sprintf("+%d%s", e.CC, e.nsn())
	case 3:
		s = g.pick("0", "1", "8", "00", "011", "010", "0011") + e.nsn()
	case 4:
		s = g.pick("00", "011", "810", "0011", "+") + fmt.Sprint(e.CC) + e.nsn()
	case 5:
		s = e.Nat
	case 6:
		s = strings.Map(func(r rune) rune {
			if r == '+' || (r >= '0' && r <= '9') {
				return r
			}
			return -1
		}, e.Nat)
	case 7:
		s = wide(e.nsn(), [][]rune{fullWidth, arabic}[g.n(2)])
		if g.p(50) {
			s = "＋" + s
		}
	default:
		s = e.nsn() + fmt.Sprint(g.n(100000))
	}
	if g.p(15) {
		s += g.oddKey()
		s += fmt.Sprint(g.n(1000))
	}
	if g.p(10) {
		rs := []rune(s)
		k := g.n(len(rs))
		s = string(rs[:k]) + g.oddKey() + string(rs[k:])
	}
	if g.n(60) == 0 { // somebody leaning on the keyboard
		for n := 30 + g.n(400); len(s) < n; {
			s += fmt.Sprint(g.n(10000))
		}
	}
	return s
}

// oddKey is a key other than a digit.
func (g *gen) oddKey() string {
	if g.p(60) {
		return g.pick("*", "#", " ", "-", "x", "+", "(", ")", ".", "/", ",", ";", "＋")
	}
	return g.pick("\u200e", "\u200f", "\u00ad", "\u2060", "\ufeff", "\u200b", "\u200d", "\u202a", "\u202c", "\u00a0", "\u3000", "\u2008", "\t", "\n", "\r", "\x00", "\x7f", "é", "日", "\u0301", "٫", "Ⅷ", "²", "½", "①", "\U0001F600", "\ufffd", "w", "p", "A", "\u2010", "\u2212", "\uff0d", "\u30fc", "：")
}

// mark puts '~' (remember) and '!' (clear) into a key sequence.
func (g *gen) mark(keys string, clears bool) string {
	rs := []rune(keys)
	var b strings.Builder
	k := -1
	if len(rs) > 0 {
		k = g.n(len(rs))
	}
	k2 := -1
	if g.p(20) && len(rs) > 0 {
		k2 = g.n(len(rs))
	}
	for i, r := range rs {
		if i == k || i == k2 {
			b.WriteByte('~')
		}
		b.WriteRune(r)
		if clears && g.n(14) == 0 {
			b.WriteByte('!')
		}
	}
	return b.String()
}

func (g *gen) aytfRegion(e example) string {
	switch g.n(8) {
	case 0:
		return g.realRegion()
	case 1:
		return g.pick("ZZ", "", "001", "US", "XX")
	case 2:
		es := g.c.byCode[e.CC]
		return es[g.n(len(es))].Region
	}
	return e.Region
}

func (g *gen) metaOp() *Op {
	reg := g.realRegion()
	if g.p(12) {
		reg = g.pick("ZZ", "", "001", "us", "XX")
	}
	code := g.c.Codes[g.n(len(g.c.Codes))]
	if g.p(12) {
		code = g.pickInt(0, 999, -1, 2, 800, 979, 1, 7)
	}
	switch g.n(16) {
	case 0:
		return &Op{F: "GetCountryCodeForRegion", A: []string{reg}}
	case 1:
		return &Op{F: "GetCountryMobileToken", I: []int{g.pickInt(code, 54, 52, 55)}}
	case 2:
		return &Op{F: "GetNddPrefixForRegion", A: []string{reg}, I: []int{g.n(2)}}
	case 3:
		return &Op{F: "GetRegionCodeForCountryCode", I: []int{code}}
	case 4:
		return &Op{F: "GetRegionCodesForCountryCode", I: []int{g.pickInt(code, 1, 7, 44, 590)}}
	case 5:
		return &Op{F: "GetSupportedCallingCodes"}
	case 6:
		return &Op{F: "GetSupportedGlobalNetworkCallingCodes"}
	case 7:
		return &Op{F: "GetSupportedRegions"}
	case 8:
		return &Op{F: "GetSupportedTypesForNonGeoEntity", I: []int{g.c.NonGeo[g.n(len(g.c.NonGeo))]}}
	case 9:
		return &Op{F: "GetSupportedTypesForRegion", A: []string{reg}}
	case 10:
		return &Op{F: g.pick("IsMobileNumberPortableRegion", "IsNANPACountry", "metadata.IsNANPARegion"), A: []string{reg}}
	case 11:
		return &Op{F: g.pick("GetExampleNumber", "GetInvalidExampleNumber"), A: []string{reg}}
	case 12:
		return &Op{F: "GetExampleNumberForTypeInRegion", A: []string{reg}, I: []int{g.n(12)}}
	case 13:
		return &Op{F: "GetExampleNumberForNonGeoEntity", I: []int{g.pickInt(g.c.NonGeo[g.n(len(g.c.NonGeo))], g.c.NonGeo[g.n(len(g.c.NonGeo))], code)}}
	case 14:
		return &Op{F: "IsNumberGeographicalForType", I: []int{g.n(12), code}}
	}
	return &Op{F: "GetExampleNumberForType", I: []int{g.n(11)}}
}

func (g *gen) shortOp() *Op {
	s := g.c.Short[g.n(len(g.c.Short))]
	reg := s.Region
	if g.p(25) {
		reg = g.realRegion()
	}
	w := s.Num
	if g.p(20) {
		w += fmt.Sprint(g.n(10))
	}
	switch g.n(3) {
	case 0:
		return &Op{F: g.pick("ConnectsToEmergencyNumber", "IsEmergencyNumber"), A: []string{w, reg}}
	}
	cc := 1
	if es := g.c.byRegion[s.Region]; len(es) > 0 {
		cc = es[0].CC
	}
	var nn uint64
	fmt.Sscan(w, &nn)
	n := &Num{CC: int32(cc), NN: nn}
	if strings.HasPrefix(w, "0") {
		n.ILZ = boolp(true)
	}
	return g.shortNumOp(n, reg)
}

func (g *gen) lang(kind string) string {
	var l []string
	switch kind {
	case "carrier":
		l = g.data.carrierLangs
	default:
		l = g.data.geoLangs
	}
	x := l[g.n(len(l))]
	// the two largest tables only now and then: loading them is most of a run
	if kind != "carrier" && (x == "en" || x == "zh") && g.p(70) {
		return l[g.n(len(l))]
	}
	if g.p(6) {
		return g.pick("xx", "", "", "en-US", "fr-CA", "zh-Hant", "EN", "../data/en")
	}
	if g.p(6) { // something near a language there is
		return g.nearLang(x)
	}
	return x
}

// nearLang gives something that is nearly the language x.
func (g *gen) nearLang(x string) string {
	y := g.pick(x+"_XX", x+"x", x[:1], x[:min(len(x), 2)], strings.ToUpper(x), x+"-"+strings.ToUpper(x), x+" ", "zh_Hant", "zh_Hans", "zh_X", x+".txt", x+"_Hant",
		" "+x, x+"_"+strings.ToUpper(x), strings.Replace(x, "_", "-", 1), x[:len(x)-1], x[:len(x)-1]+string(rune('a'+g.n(26))), string(rune('a'+g.n(26)))+x[1:], x+"\x00", x+"/", x+".", "./"+x, x+"_", x+string(rune('a'+g.n(26))), strings.ToUpper(x[:1])+x[1:])
	if len(x) > 3 && g.p(50) { // another variant of the same language
		y = x[:2+g.n(len(x)-2)] + g.pick("", "s", "X", "ans", "_XX")
	}
	return y
}

// languageOps asks for a few numbers in many languages, most of them neighbours of others.
func (g *gen) languageOps(n int) []*Op {
	var langs []string
	for k := 2 + g.n(3); k > 0; k-- {
		l := g.data.carrierLangs[g.n(len(g.data.carrierLangs))]
		if g.p(30) {
			l = g.data.geoLangs[g.n(len(g.data.geoLangs))]
		}
		if g.p(25) {
			l = "zh_Hant"
		}
		if l == "zh" && g.p(60) {
			l = "ar"
		}
		langs = append(langs, l)
		for j := 1 + g.n(5); j > 0; j-- {
			langs = append(langs, g.nearLang(l))
		}
	}
	var nums []*Num
	for k := 3 + g.n(4); k > 0; k-- {
		nums = append(nums, g.data.sampleNum(g, g.pick("carrier", "geo"), langs[g.n(len(langs))]))
	}
	var ops []*Op
	for range n {
		l, v := langs[g.n(len(langs))], nums[g.n(len(nums))]
		o := &Op{F: "carrier.GetNameForValidNumber", A: []string{l}, N: []*Num{v}}
		switch g.n(6) {
		case 0, 1:
			o.F = "geocoding.GetDescriptionForValidNumber"
		case 2:
			o = g.lookupOp([]*Num{v})
		}
		ops = append(ops, o)
	}
	return ops
}

func (g *gen) lookupOp(vs []*Num) *Op {
	v := vs[g.n(len(vs))]
	kind := g.pick("carrier", "geo", "geo", "tz")
	l := g.lang(kind)
	if g.p(45) {
		v = g.data.sampleNum(g, kind, l)
	}
	switch kind {
	case "carrier":
		return &Op{F: g.pick("carrier.GetNameForValidNumber", "carrier.GetNameForValidNumber", "carrier.GetNameForNumber", "carrier.GetSafeDisplayName"), A: []string{l}, N: []*Num{v}}
	case "geo":
		f := g.pick("geocoding.GetDescriptionForValidNumber", "geocoding.GetDescriptionForValidNumber", "geocoding.GetDescriptionForNumber", "geocoding.GetDescriptionForValidNumberForUserRegion", "geocoding.GetDescriptionForNumberForUserRegion")
		o := &Op{F: f, A: []string{l}, N: []*Num{v}}
		if strings.HasSuffix(f, "UserRegion") {
			o.A = append(o.A, g.realRegion())
		}
		return o
	}
	return &Op{F: g.pick("timezone.GetTimeZonesForNumber", "timezone.GetTimeZonesForGeographicalNumber"), N: []*Num{v}}
}

// cluster produces about n related operations. kinds selects what sort.
func (g *gen) cluster(kinds string, n int) []*Op {
	var out []*Op
	e := g.example()
	ks := strings.Fields(kinds)
	k := ks[g.n(len(ks))]
	switch k {
	case "num":
		vs := g.someVariants(e)
		for i := 0; i < n; i++ {
			out = append(out, g.numOp(e, vs))
		}
	case "one": // the same function over near-identical numbers
		vs := g.variants(e)
		f := g.numOp(e, vs)
		for i := 0; i < n; i++ {
			o := *f
			o.N = append([]*Num{}, f.N...)
			o.N[g.n(len(o.N))] = vs[g.n(len(vs))]
			if len(o.A) == 1 && g.p(40) {
				o.A = []string{g.regionArg(e)}
			}
			out = append(out, &o)
		}
	case "full": // every function over one number with every field set
		v := e.num()
		v.Ext = strp(fmt.Sprint(1 + g.n(9999)))
		v.PDCC = strp(g.pick("15", "21", ""))
		v.Raw, v.Src = strp(g.pick(e.Nat, e.Int)), i32p(int32(g.pickInt(1, 5, 10, 20)))
		if v.ILZ == nil && g.p(30) {
			v.ILZ, v.NLZ = boolp(g.p(50)), i32p(int32(1+g.n(2)))
		}
		odd := g.p(40)
		for i := 0; i < n; i++ {
			if odd {
				v = g.jumble(e)
			}
			out = append(out, g.numOp(e, []*Num{v}))
		}
	case "edge":
		return g.edgeCluster(n)
	case "near":
		return g.near(n)
	case "compare": // numbers with one another, complete or not
		vs := g.variants(e)
		for i := 0; i < n; i++ {
			o := &Op{F: "IsNumberMatchWithNumbers", N: []*Num{vs[g.n(len(vs))], vs[g.n(len(vs))]}}
			if g.p(25) {
				o = &Op{F: "IsNumberMatchWithOneNumber", A: []string{g.writing(e)}, N: []*Num{o.N[0]}}
			} else if g.p(25) {
				o = g.numOp(e, vs)
			}
			out = append(out, o)
		}
	case "kin": // numbers of different kinds from one region or calling code
		es := g.c.byRegion[e.Region]
		if g.p(40) || len(es) < 2 {
			es = g.c.byCode[e.CC]
		}
		if len(es) == 0 {
			es = []example{e}
		}
		var vs []*Num
		for i := 0; i < 2+g.n(3); i++ {
			x := es[g.n(len(es))]
			vs = append(vs, x.num())
			if g.p(30) {
				y := g.variants(x)
				vs = append(vs, y[g.n(len(y))])
			}
		}
		f := g.numOp(e, vs)
		for len(f.N) != 1 {
			f = g.numOp(e, vs)
		}
		for i := 0; i < n; i++ {
			o := *f
			switch g.n(6) {
			case 0, 1:
				o = Op{F: g.pick("IsValidNumber", "GetNumberType", "GetRegionCodeForNumber", "IsNumberGeographical", "IsPossibleNumber", "CanBeInternationallyDialled", "GetLengthOfGeographicalAreaCode")}
			case 2:
				o = *g.numOp(e, vs)
			}
			if len(o.N) <= 1 {
				o.N = []*Num{vs[g.n(len(vs))]}
			}
			out = append(out, &o)
		}
	case "str":
		var ws []string
		for i := 0; i < 4; i++ {
			ws = append(ws, g.writing(e))
		}
		for i := 0; i < n; i++ {
			out = append(out, g.strOp(e, ws))
		}
	case "text":
		es := []example{e, g.example()}
		if x := g.c.byRegion[e.Region]; len(x) > 0 {
			es = append(es, x[g.n(len(x))])
		}
		t := g.text(es)
		for i := 0; i < (n+1)/2; i++ {
			if g.p(25) {
				t = g.text(es)
			}
			reg := g.regionArg(e)
			if g.p(25) {
				out = append(out, &Op{F: "FindNumbers", A: []string{t, reg}})
			} else {
				out = append(out, &Op{F: "FindNumbersWithLeniency", A: []string{t, reg}, I: []int{g.n(4), g.pickInt(1, 3, 50, 65536, math.MaxInt)}})
			}
		}
	case "type":
		for i := 0; i < (n+1)/2; i++ {
			if g.p(40) {
				e = g.example()
			}
			out = append(out, &Op{F: "AYTF", A: []string{g.aytfRegion(e), g.mark(g.keys(e), g.p(30))}})
		}
	case "short":
		for i := 0; i < n; i++ {
			out = append(out, g.shortOp())
		}
	case "meta":
		for i := 0; i < n; i++ {
			out = append(out, g.metaOp())
		}
	case "pattern":
		vs := g.someVariants(e)
		rs := g.rules()
		for i := 0; i < n; i++ {
			o := g.patternOp(e, vs[g.n(len(vs))])
			if g.p(60) {
				o.P = rs
			}
			out = append(out, o)
		}
	case "lookup":
		vs := g.someVariants(e)
		for i := 0; i < n; i++ {
			out = append(out, g.lookupOp(vs))
		}
	case "tzs": // returned lists of time zones, of the same few prefixes
		var vs []*Num
		for i := 0; i < 3; i++ {
			vs = append(vs, g.data.sampleNum(g, "tz", ""))
		}
		vs = append(vs, e.num(), &Num{CC: 999, NN: 123})
		for i := 0; i < n; i++ {
			out = append(out, &Op{F: g.pick("timezone.GetTimeZonesForNumber", "timezone.GetTimeZonesForGeographicalNumber"), N: []*Num{vs[g.n(len(vs))]}})
		}
	case "coll":
		out = append(out, &Op{F: "Collections"})
		for i := 1; i < n; i++ {
			out = append(out, g.metaOp())
		}
	case "badpat": // the same broken and whole rules again and again
		vs := g.someVariants(e)
		bad := g.badOp(e)
		for len(bad.P) == 0 {
			bad = g.badOp(e)
		}
		for i := 0; i < n; i++ {
			o := g.patternOp(e, vs[g.n(len(vs))])
			if g.p(60) {
				o.P = bad.P
			} else if g.p(50) {
				o.P = append(append([]*Pat{}, o.P...), bad.P...)
			}
			out = append(out, o)
		}
	case "bad":
		for i := 0; i < n; i++ {
			out = append(out, g.badOp(e))
		}
	}
	return out
}

// badOp is a call that fails: returns an error or panics.
func (g *gen) badOp(e example) *Op {
	v := e.num()
	nilN := &Num{Nil: true}
	switch g.n(8) {
	case 0, 1:
		return &Op{F: "FormatByPattern", N: []*Num{v}, I: []int{g.n(3)}, P: []*Pat{{Pattern: g.pick(`(\d{3}`, `[`, `(?<x`, `(\d+)(`, `*`), Format: "$1"}}}
	case 2:
		return &Op{F: "FormatByPattern", N: []*Num{v}, I: []int{g.n(3)}, P: []*Pat{{Pattern: `(\d+)`, Format: "$1", Leading: []string{g.pick(`[`, `(`, `?`)}}}}
	case 3:
		return &Op{F: g.pick("Format", "IsValidNumber", "GetNumberType", "GetRegionCodeForNumber", "IsPossibleNumber", "TruncateTooLongNumber", "GetNationalSignificantNumber", "CanBeInternationallyDialled", "IsNumberGeographical", "GetLengthOfGeographicalAreaCode"), N: []*Num{nilN}}
	case 4:
		return &Op{F: "IsNumberMatchWithNumbers", N: []*Num{v, nilN}}
	case 5:
		return &Op{F: "Parse", A: []string{g.pick("abc", "", "+", "12345678901234567890123", "+9991234567", "tel:+1-(", strings.Repeat("1", 260)), g.regionArg(e)}}
	case 6:
		return &Op{F: g.pick("FormatInOriginalFormat", "FormatNumberForMobileDialing", "FormatOutOfCountryCallingNumber", "IsValidNumberForRegion", "carrier.GetNameForNumber", "geocoding.GetDescriptionForNumber"), A: []string{e.Region}, N: []*Num{nilN}}
	}
	return &Op{F: g.pick("timezone.GetTimeZonesForNumber", "IsValidShortNumber", "GetExpectedCost"), N: []*Num{nilN}}
}
