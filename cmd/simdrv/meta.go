package main

// C15 and C16: histories of metadata builds on simulated disks against a simulated
// upstream.

import (
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"verif/overlay/zzsim"
)

type (
	MetaSpec   = zzsim.MetaSpec
	MetaReport = zzsim.MetaReport
)

// ---- synthetic upstream releases -------------------------------------------------

// upstream is a release tree together with what it means.
type upstream struct {
	files   map[string]string
	data    *dataTables
	regions map[int][]string
	over    bool // holds something the output format cannot represent
}

var territories []string

var (
	terRE  = regexp.MustCompile(`(?s)<territory .*?</territory>`)
	idRE   = regexp.MustCompile(`\bid="([^"]*)"`)
	ccRE   = regexp.MustCompile(`\bcountryCode="(\d+)"`)
	mainRE = regexp.MustCompile(`\bmainCountryForCode="true"`)
)

func loadTerritories() error {
	if territories != nil {
		return nil
	}
	loadTags()
	b, err := os.ReadFile(filepath.Join(verifDir, "corpus", "territories.xml"))
	if err != nil {
		return err
	}
	territories = terRE.FindAllString(string(b), -1)
	if len(territories) < 20 {
		return fmt.Errorf("only %d territories in the corpus", len(territories))
	}
	return nil
}

func xmlDoc(parts []string) string {
	return "<!-- generated -->\n<phoneNumberMetadata>\n  <territories>\n" + strings.Join(parts, "\n") + "\n  </territories>\n</phoneNumberMetadata>\n"
}

var names = []string{"Vodafone", "T-Mobile", "中国移动", "Orange", "Московская область", "São Paulo - SP", "Île-de-France", "O2", "a", "Zürich (ZH)", "New York, NY", "القاهرة", "1&1", "Telkom#1", "x  y", "東京", "Kyiv", "Saint-Denis/Reunion", "TIM", "  lead", "Halle #2", "a # b", "x\ty", "\"Q\"", "A & B", "// c", "trail ", "50%", "\\n", "-", "12345", "a\u200db", "; z"}

var zones = []string{"America/New_York", "Europe/Paris", "Asia/Shanghai", "Etc/Unknown", "Africa/Abidjan", "Atlantic/St_Helena", "America/Argentina/Buenos_Aires", "Pacific/Auckland", "Asia/Tokyo", "Europe/London", "Indian/Reunion", "America/Halifax"}

func genUpstream(e *env, r *RNG, small bool) *upstream {
	u := &upstream{files: map[string]string{}, data: &dataTables{keys: map[string][]int{}, carrier: map[string]table{}, geo: map[string]table{}, tz: table{}}, regions: map[int][]string{}}
	// territories
	keep := 5 + r.N(len(territories)-5)
	if small {
		keep = 4
	}
	perm := permN(r, len(territories))[:keep]
	if r.N(3) > 0 {
		sort.Ints(perm)
	}
	var parts []string
	for _, i := range perm {
		parts = append(parts, territories[i])
	}
	for k := r.N(4); k > 0; k-- {
		// a code shared by several made-up regions
		cc := 990 + r.N(9)
		ids := []string{"QM", "QN", "QO", "QP", "QQ", "QR"}
		n := 1 + r.N(len(ids))
		mi := r.N(n + 1)
		for x := 0; x < n; x++ {
			m := ""
			if x == mi {
				m = ` mainCountryForCode="true"`
			}
			ln := []string{"7", "8,9", "[6-9]", "5,[7-9]", "10"}[r.N(5)]
			parts = append(parts, fmt.Sprintf(`<territory id="%s" countryCode="%d"%s internationalPrefix="00"><generalDesc><nationalNumberPattern>\d{5,10}</nationalNumberPattern></generalDesc><fixedLine><nationalNumberPattern>[2-4]\d{4,9}</nationalNumberPattern><possibleLengths national="%s" localOnly="3,4"/><exampleNumber>2345678</exampleNumber></fixedLine></territory>`, ids[x], cc, m, ln))
		}
	}
	for _, p := range parts {
		head, _, _ := strings.Cut(p, ">")
		cc, _ := strconv.Atoi(ccRE.FindStringSubmatch(head)[1])
		id := idRE.FindStringSubmatch(head)[1]
		if mainRE.MatchString(head) && len(u.regions[cc]) > 0 {
			u.regions[cc] = append([]string{id}, u.regions[cc]...)
		} else {
			u.regions[cc] = append(u.regions[cc], id)
		}
	}
	u.files["resources/PhoneNumberMetadata.xml"] = xmlDoc(parts)
	// short numbers and alternate formats
	var sp, ap []string
	for k := 1 + r.N(6); k > 0; k-- {
		id := string([]byte{byte('A' + r.N(26)), byte('A' + r.N(26))})
		sp = append(sp, fmt.Sprintf(`<territory id="%s"><generalDesc><nationalNumberPattern>[1-9]\d{2,4}</nationalNumberPattern></generalDesc><tollFree><nationalNumberPattern>11%d</nationalNumberPattern><possibleLengths national="3"/><exampleNumber>112</exampleNumber></tollFree><shortCode><nationalNumberPattern>[1-9]\d{2,4}</nationalNumberPattern><possibleLengths national="%s"/><exampleNumber>112</exampleNumber></shortCode><emergency><nationalNumberPattern>11[0-9]</nationalNumberPattern><possibleLengths national="3"/><exampleNumber>112</exampleNumber></emergency></territory>`, id, r.N(9), []string{"3,4,5", "[3-5]", "3"}[r.N(3)]))
	}
	for k := 1 + r.N(5); k > 0; k-- {
		ap = append(ap, fmt.Sprintf(`<territory countryCode="%d"><availableFormats><numberFormat pattern="(\d{%d})(\d{%d})"><leadingDigits>[2-%d]</leadingDigits><format>$1 $2</format></numberFormat></availableFormats></territory>`, 20+r.N(70), 1+r.N(4), 1+r.N(6), 3+r.N(6)))
	}
	u.files["resources/ShortNumberMetadata.xml"] = xmlDoc(sp)
	u.files["resources/PhoneNumberAlternateFormats.xml"] = xmlDoc(ap)
	// prefix tables
	langs := []string{"en", "zh", "fr", "ar", "de", "zh_Hant", "be", "ru", "qq", "sr-Latn", "pt_BR"}
	for ki, kind := range []string{"carrier", "geocoding"} {
		nl := 1 + r.N(6)
		if small {
			nl = 2
		}
		ps := permN(r, len(langs))[:nl]
		for _, li := range ps {
			lang := langs[li]
			t := table{}
			switch {
			case !small && r.N(6) == 0: // a shipped table
				src, ls := e.data.carrier, e.data.carrierLangs
				if ki == 1 {
					src, ls = e.data.geo, e.data.geoLangs
				}
				l := ls[r.N(len(ls))]
				if len(src[l]) < 8000 {
					for k, v := range src[l] {
						t[k] = v
					}
				}
			case r.N(12) == 0: // nothing in it
			default:
				n := 1 + r.N(60)
				if small {
					n = 1 + r.N(6)
				}
				vals := []string{}
				for k := 1 + r.N(20); k > 0; k-- {
					v := names[r.N(len(names))]
					if r.N(3) == 0 {
						v += fmt.Sprint(" ", r.N(40))
					}
					vals = append(vals, v)
					if r.N(3) == 0 { // nearly the same name
						vals = append(vals, nearName(r, v))
					}
				}
				if !small && r.N(15) == 0 { // a language with many names
					for k := []int{200, 300, 1500, 4500}[r.N(4)] + r.N(400); k > 0; k-- {
						vals = append(vals, fmt.Sprint("Ort ", k))
					}
					n = len(vals) + r.N(200)
				}
				for k := 0; k < n; k++ {
					if k < len(vals) && n >= len(vals) {
						t[randPrefix(r, t)] = []string{vals[k]}
						continue
					}
					t[randPrefix(r, t)] = []string{vals[r.N(len(vals))]}
				}
			}
			u.writeLang(r, kind, lang, t)
			if ki == 0 {
				u.data.carrier[lang] = t
			} else {
				u.data.geo[lang] = t
			}
			u.data.keys[kind+"/"+lang] = sortedKeys(t)
		}
		if r.N(3) == 0 {
			u.files["resources/"+kind+"/README"] = "not a language\n"
		}
	}
	// time zones
	n := 1 + r.N(60)
	if small {
		n = 4
	}
	for k := 0; k < n; k++ {
		var zs []string
		for _, z := range permN(r, len(zones))[:1+r.N(5)] {
			zs = append(zs, zones[z])
		}
		u.data.tz[randPrefix(r, u.data.tz)] = zs
	}
	u.writeZones(r)
	return u
}

func (u *upstream) writeZones(r *RNG) {
	var lines []string
	lines = append(lines, "# Copyright", "")
	ks := sortedKeys(u.data.tz)
	if r.N(4) == 0 {
		ks = shuffled(r, ks)
	}
	for _, k := range ks {
		lines = append(lines, fmt.Sprintf("%d|%s", k, strings.Join(u.data.tz[k], "&")))
	}
	u.files["resources/timezones/map_data.txt"] = strings.Join(lines, "\n") + "\n"
}

func (u *upstream) writeLang(r *RNG, kind, lang string, t table) {
	nf := 1 + r.N(4)
	fs := make([][]string, nf)
	ks := sortedKeys(t)
	if r.N(4) == 0 {
		ks = shuffled(r, ks)
	}
	for _, k := range ks {
		f := r.N(nf)
		fs[f] = append(fs[f], fmt.Sprintf("%d|%s", k, t[k][0]))
		switch r.N(25) {
		case 0:
			fs[f] = append(fs[f], "# a comment | with a bar")
		case 1:
			fs[f] = append(fs[f], "")
		case 2:
			fs[f] = append(fs[f], "   ")
		}
	}
	for i, ls := range fs {
		end := "\n"
		if r.N(5) == 0 {
			end = ""
		}
		u.files[fmt.Sprintf("resources/%s/%s/%d.txt", kind, lang, 1+i*7)] = "# Copyright (C)\n\n" + strings.Join(ls, "\n") + end
	}
	if r.N(5) == 0 {
		u.files[fmt.Sprintf("resources/%s/%s/notes.md", kind, lang)] = "1|not data\n"
	}
}

// nearName is a different name that a careless comparison takes for the same one.
func nearName(r *RNG, v string) string {
	w := v
	switch r.N(6) {
	case 0:
		w = strings.ToUpper(v)
	case 1:
		w = strings.ToLower(v)
	case 2:
		w = strings.Replace(v, " ", "  ", 1)
	case 3:
		w = strings.NewReplacer("ã", "a\u0303", "Î", "I\u0302", "ü", "u\u0308", "é", "e\u0301").Replace(v)
	case 4:
		w = strings.NewReplacer("-", "\u2010", " ", "\u00a0", "O", "\u041e", "a", "\u0430").Replace(v)
	default:
		w = v + []string{".", "-", " 2", "\u200f", "s"}[r.N(5)]
	}
	if w == v {
		w += "."
	}
	return w
}

// randPrefix makes a new prefix, often related to one already there.
func randPrefix(r *RNG, t table) int {
	for {
		n := 1 + r.N(9)
		if r.N(20) == 0 {
			n = 10 + r.N(3)
		}
		s := fmt.Sprint(1 + r.N(9))
		if len(t) > 0 && r.N(2) == 0 {
			ks := sortedKeys(t)
			s = fmt.Sprint(ks[r.N(len(ks))])
			if r.N(4) == 0 && len(s) > 1 {
				s = s[:1+r.N(len(s)-1)]
			}
		}
		for len(s) < n {
			s += fmt.Sprint(r.N(10))
		}
		k, _ := strconv.Atoi(s)
		if _, ok := t[k]; !ok {
			return k
		}
	}
}

func permN(r *RNG, n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	return shuffled(r, p)
}

func shuffled(r *RNG, p []int) []int {
	p = append([]int{}, p...)
	for i := len(p) - 1; i > 0; i-- {
		j := r.N(i + 1)
		p[i], p[j] = p[j], p[i]
	}
	return p
}

// lookups lists the library calls that read back what the release says.
func (u *upstream) lookups(e *env, r *RNG, maxOps int) []*Op {
	g := &gen{c: e.c, r: r, data: u.data}
	var ops []*Op
	add := func(o *Op) {
		if s, ok := u.data.model(o); ok {
			o.Ref = &s
			ops = append(ops, o)
		}
	}
	exact := func(k int) *Num {
		s := fmt.Sprint(k)
		for len(s) < 4 {
			s += "0"
		}
		return splitNum(s)
	}
	for _, kind := range []string{"carrier", "geocoding"} {
		f, ts := "carrier.GetNameForValidNumber", u.data.carrier
		if kind == "geocoding" {
			f, ts = "geocoding.GetDescriptionForValidNumber", u.data.geo
		}
		for _, lang := range sortedStrings(ts) {
			ks := u.data.keys[kind+"/"+lang]
			stride := 1 + len(ks)/400
			for i := r.N(stride); i < len(ks); i += stride {
				add(&Op{F: f, A: []string{lang}, N: []*Num{exact(ks[i])}})
				add(&Op{F: f, A: []string{lang}, N: []*Num{numFromPrefix(g, ks[i])}})
			}
			// near misses
			for k := 0; k < 10; k++ {
				add(&Op{F: f, A: []string{lang}, N: []*Num{numFromPrefix(g, 10+r.N(999999))}})
			}
		}
		if kind == "carrier" {
			for _, lang := range []string{"en", "zh", "fr", "uk", "it", "qz"} {
				if _, ok := ts[lang]; !ok { // a language upstream does not have
					for _, k := range e.data.keys["carrier/"+lang][:min(5, len(e.data.keys["carrier/"+lang]))] {
						add(&Op{F: f, A: []string{lang}, N: []*Num{exact(k)}})
					}
				}
			}
		}
	}
	for _, k := range sortedKeys(u.data.tz) {
		add(&Op{F: "timezone.GetTimeZonesForGeographicalNumber", N: []*Num{exact(k)}})
		add(&Op{F: "timezone.GetTimeZonesForGeographicalNumber", N: []*Num{numFromPrefix(g, k)}})
	}
	for cc := 0; cc < 1000; cc++ {
		rs := u.regions[cc]
		if rs == nil && cc%37 != 0 {
			continue
		}
		s := fmt.Sprintf("%q|ok", rs)
		ops = append(ops, &Op{F: "GetRegionCodesForCountryCode", I: []int{cc}, Ref: &s})
	}
	return ops
}

func sortedStrings(m map[string]table) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// splitNum splits international digits into a number at a plausible place.
func splitNum(s string) *Num {
	k := 3
	if s[0] == '1' || s[0] == '7' {
		k = 1
	} else if c, _ := strconv.Atoi(s[:2]); twoDigitCodes[c] {
		k = 2
	}
	cc, _ := strconv.Atoi(s[:k])
	rest := s[k:]
	n := &Num{CC: int32(cc)}
	z := 0
	for z < len(rest)-1 && rest[z] == '0' {
		z++
	}
	if z > 0 {
		n.ILZ = boolp(true)
		if z > 1 {
			n.NLZ = i32p(int32(z))
		}
	}
	n.NN, _ = strconv.ParseUint(rest[z:], 10, 64)
	return n
}

// ---- disks -----------------------------------------------------------------------

func versionFile(v string) string {
	return fmt.Sprintf("// Code generated by cmd/buildmetadata. DO NOT EDIT.\n\npackage metadata\n\n// Version is the upstream libphonenumber release tag that the embedded metadata\n// was built from.\nconst Version = %q\n", v)
}

// disk is the repository's checkout as far as the build touches it.
func disk() map[string]string {
	return map[string]string{
		"data/": "", "metadata/data/": "", "carrier/data/": "", "geocoding/data/": "", "timezone/data/": "",
		"metadata/version.go": versionFile("v9.0.1"), "metadata/source.go": "package metadata\n", "go.mod": "module x\n", "carrier/carrier.go": "package carrier\n",
	}
}

var outputs = []string{"data/shortnumber_metadata.xml.gz", "data/alternateformats_metadata.xml.gz", "metadata/data/metadata.xml.gz", "metadata/data/countrycode_to_region.xml.gz", "timezone/data/prefix_to_timezone.xml.gz"}

// litter puts data files on a disk that a former build could have left.
func litter(r *RNG, d map[string]string) {
	junk := func() string {
		n := r.N(3000)
		b := make([]byte, n)
		for i := range b {
			b[i] = byte('a' + r.N(26))
		}
		return string(b)
	}
	for _, o := range outputs {
		if r.N(2) == 0 {
			d[o] = junk()
		}
	}
	for _, k := range []string{"carrier", "geocoding"} {
		for _, l := range []string{"en", "zh", "fr", "xx", "uk", "old", "zh_Hant"} {
			if r.N(3) == 0 {
				d[k+"/data/"+l+".txt.gz"] = junk()
			}
		}
	}
	if r.N(2) == 0 {
		for _, p := range []string{"resources/PhoneNumberMetadata.xml", "resources/carrier/en/1.txt", "resources/carrier/old/1.txt", "README.md", "resources/geocoding/en/5.txt"} {
			if r.N(2) == 0 {
				d["_build/"+p] = "1234|left over\n"
			}
		}
	}
}

func metaSched(r *RNG) Sched {
	s := scheduler(r, true)
	s.MaxStep = 800_000_000
	return s
}

func metaStep(r *RNG, disk int, tags []string, args []string) *zzsim.MetaStep {
	return &zzsim.MetaStep{Disk: disk, Tags: tags, Args: args, Env: zzsim.Env{MapSeed: 1 + r.U64()>>1, RandSeed: r.U64() >> 1, Clock: 1_500_000_000_000_000_000 + int64(r.N(1<<30))*1_000_000_000}, DirSeed: 1 + r.U64()>>1, Sched: metaSched(r)}
}

// ---- the checks -------------------------------------------------------------------

// The releases of the simulated upstream: the one this repository was built from, and
// a later one with an even later defective one, later by number but not by spelling.
var tagA, tagB, tagBad = "v9.0.10", "v9.0.9", "v9.0.11"

var versionRE = regexp.MustCompile(`"(v\d+\.\d+\.)(\d+)"`)

func loadTags() {
	b, err := os.ReadFile(filepath.Join(repoDir, "metadata", "version.go"))
	if err != nil {
		return
	}
	if m := versionRE.FindStringSubmatch(string(b)); m != nil && m[2] != "1" && len(m[2]) < 9 {
		next := "1" + strings.Repeat("0", len(m[2]))
		tagA, tagB, tagBad = m[1]+next, m[1]+m[2], m[1]+next[:len(next)-1]+"1"
	}
}

func c15Job(e *env, r *RNG, i int) *Job {
	a := genUpstream(e, r, false)
	b := genUpstream(e, r, false)
	over := ""
	switch {
	case i%100 == 13: // more distinct values than the format can number
		lang := "en"
		a.files["resources/carrier/"+lang+"/99.txt"] = fmt.Sprintf("@big %d %d", 65500+r.N(100), 700000000)
		over = "carrier values"
	case i%25 == 7: // more zones on one prefix than the format can count
		var zs []string
		for k := 250 + r.N(12); k > 0; k-- {
			zs = append(zs, fmt.Sprint("Zone/", k))
		}
		a.data.tz[999] = zs
		a.writeZones(r)
		over = "zones"
	}
	var args []string
	if r.N(2) == 0 {
		args = []string{tagA}
	}
	tags := []string{tagA, tagB, "libphonenumber-8.0", "v8.13.11"}
	m := &MetaSpec{Kind: "repro", Trees: map[string]map[string]string{tagA: a.files, tagB: b.files, "libphonenumber-8.0": {}, "v8.13.11": {}}}
	d1 := disk()
	litter(r, d1)
	m.Disks = []map[string]string{disk(), d1, disk()}
	first := &zzsim.MetaStep{Disk: 0, Tags: tags, Args: []string{tagA}, Sched: Sched{Kind: "serial", MaxStep: 800_000_000}}
	m.Steps = []*zzsim.MetaStep{first, metaStep(r, 1, tags, args), metaStep(r, 2, tags, []string{tagB}), metaStep(r, 2, tags, args)}
	if over != "" {
		m.Kind = "over"
	}
	if over == "carrier values" {
		m.Steps = m.Steps[:1]
		s := "Name 65499|ok"
		n := splitNum(fmt.Sprint(700000000 + 65499))
		s0 := "Name 0|ok"
		m.Looks = []*zzsim.MetaLook{{Disk: 0, Ops: []*Op{{F: "carrier.GetNameForValidNumber", A: []string{"en"}, N: []*Num{n}, Ref: &s}, {F: "carrier.GetNameForValidNumber", A: []string{"en"}, N: []*Num{splitNum("700000000")}, Ref: &s0}}}}
		return &Job{Variant: "meta", Meta: m}
	}
	m.Looks = []*zzsim.MetaLook{{Disk: r.N(3), Ops: a.lookups(e, r, 3000)}}
	return &Job{Variant: "meta", Meta: m}
}

var metaFaultKinds = []string{"err", "torn", "late", "full", "stick", "crash", "crashtorn", "crashafter"}

var c16Base struct {
	ops int
	a   *upstream
	b   *upstream
}

func c16Spec(a, b *upstream) *MetaSpec {
	return &MetaSpec{Kind: "fault", Trees: map[string]map[string]string{tagA: a.files, tagB: b.files}}
}

func clean(d int, tag string) *zzsim.MetaStep {
	return &zzsim.MetaStep{Disk: d, Tags: []string{tagA, tagB}, Args: []string{tag}, Sched: Sched{Kind: "serial", MaxStep: 800_000_000}}
}

func c16Prepare(e *env, n int) error {
	if err := loadTerritories(); err != nil {
		return err
	}
	r := newRNG("C16base", 1)
	c16Base.a, c16Base.b = genUpstream(e, r, true), genUpstream(e, r, true)
	m := c16Spec(c16Base.a, c16Base.b)
	m.Disks = []map[string]string{disk()}
	st := clean(0, tagA)
	st.Args = nil
	m.Steps = []*zzsim.MetaStep{clean(0, tagB), st}
	j := &Job{Variant: "meta", Meta: m}
	res, err := e.b.exec(j)
	if err != nil {
		return err
	}
	if res.MetaRep == nil || len(res.MetaRep.Steps) != 2 {
		return fmt.Errorf("the undisturbed build did not run: %s", clip(res.Stderr, 500))
	}
	c16Base.ops = int(res.MetaRep.Steps[1].Ops)
	return nil
}

// c16Job: first every fault kind at every operation of one small build on top of an
// older one, then random releases and histories of several faults.
func c16Job(e *env, r *RNG, i int) *Job {
	enum := c16Base.ops * len(metaFaultKinds)
	if i < enum {
		m := c16Spec(c16Base.a, c16Base.b)
		m.Disks = []map[string]string{disk(), disk()}
		f := clean(1, tagA)
		f.Args = nil
		f.Fault = &zzsim.MetaFault{Kind: metaFaultKinds[i/c16Base.ops], At: uint64(i % c16Base.ops), Part: r.U64() >> 1}
		m.Steps = []*zzsim.MetaStep{clean(0, tagB), clean(0, tagA), clean(1, tagB), f, clean(1, tagA)}
		return &Job{Variant: "meta", Meta: m}
	}
	a, b := genUpstream(e, r, r.N(3) > 0), genUpstream(e, r, true)
	m := c16Spec(a, b)
	d := disk()
	if r.N(2) == 0 {
		litter(r, d)
	}
	m.Disks = []map[string]string{d, d}
	if r.N(4) == 0 { // the release itself is defective
		bad := map[string]string{}
		for k, v := range a.files {
			bad[k] = v
		}
		m.Kind = "badsrc"
		m.Trees[tagBad] = bad
		tags := []string{tagA, tagB, tagBad}
		args := []string{}
		xmls := []string{"resources/PhoneNumberMetadata.xml", "resources/ShortNumberMetadata.xml", "resources/PhoneNumberAlternateFormats.xml"}
		someTxt := func(kind string) string {
			var c []string
			for p := range bad {
				if strings.HasPrefix(p, "resources/"+kind+"/") && strings.HasSuffix(p, ".txt") {
					c = append(c, p)
				}
			}
			sort.Strings(c)
			return c[r.N(len(c))]
		}
		line := func(p, l string) {
			ls := strings.Split(bad[p], "\n")
			k := r.N(len(ls) + 1)
			bad[p] = strings.Join(append(append(append([]string{}, ls[:k]...), l), ls[k:]...), "\n")
		}
		kind := []string{"carrier", "geocoding"}[r.N(2)]
		switch r.N(9) {
		case 0:
			delete(bad, xmls[r.N(3)])
		case 1:
			delete(bad, "resources/timezones/map_data.txt")
		case 2:
			for p := range bad {
				if strings.HasPrefix(p, "resources/"+kind+"/") {
					delete(bad, p)
				}
			}
		case 3:
			p := xmls[r.N(3)]
			k := strings.LastIndex(bad[p], "</territories>")
			bad[p] = bad[p][:40+r.N(k-40)]
		case 4:
			line("resources/timezones/map_data.txt", []string{"12345", "12x|Europe/Paris", "1|2|3", "|Europe/Paris"}[r.N(4)])
		case 5:
			line(someTxt(kind), []string{"12x4|Name", "|Name", "-5|Name", "+|x"}[r.N(4)])
		case 6: // a prefix given twice
			p := someTxt(kind)
			bad[strings.TrimSuffix(p, ".txt")+"0.txt"] = "881234567|One\n"
			line(p, "881234567|Other")
		case 7:
			args = []string{"v1.2.3"} // no such release
		case 8:
			tags = []string{"libphonenumber-8.0"}
			m.Trees["libphonenumber-8.0"] = bad
		}
		st := metaStep(r, 1, tags, args)
		m.Steps = []*zzsim.MetaStep{clean(0, tagB), clean(0, tagA), clean(1, tagB), st, clean(1, tagA)}
		return &Job{Variant: "meta", Meta: m}
	}
	first := []*zzsim.MetaStep{}
	if r.N(2) == 0 {
		first = append(first, clean(0, tagB), clean(1, tagB))
	}
	m.Steps = append(first, clean(0, tagA))
	for k := 1 + r.N(3); k > 0; k-- {
		st := metaStep(r, 1, []string{tagA, tagB}, nil)
		if r.N(3) == 0 {
			st.Args = []string{tagA}
		}
		st.Fault = &zzsim.MetaFault{Kind: metaFaultKinds[r.N(len(metaFaultKinds))], At: r.U64() >> 1, Mod: true, Part: r.U64() >> 1}
		m.Steps = append(m.Steps, st)
	}
	m.Steps = append(m.Steps, metaStep(r, 1, []string{tagA, tagB}, []string{tagA}))
	return &Job{Variant: "meta", Meta: m}
}

// owned says whether a path is one the build writes.
func owned(p string) bool {
	if p == "metadata/version.go" {
		return true
	}
	d := filepath.Dir(p)
	return d == "data" || filepath.Base(d) == "data"
}

func treeDiff(a, b map[string]uint64, all bool) string {
	var out []string
	for p, h := range a {
		if !all && !owned(p) {
			continue
		}
		if g, ok := b[p]; !ok {
			out = append(out, p+" missing")
		} else if g != h {
			out = append(out, p+" differs")
		}
	}
	for p := range b {
		// debris that no package embeds or compiles (a temporary file left by a crash) is
		// not part of the outcome
		if _, ok := a[p]; !ok && (all || owned(p)) && (strings.HasSuffix(p, ".go") || strings.HasSuffix(p, ".gz")) {
			out = append(out, p+" extra")
		}
	}
	sort.Strings(out)
	if len(out) > 6 {
		out = append(out[:6], fmt.Sprintf("%d more", len(out)-6))
	}
	return strings.Join(out, ", ")
}

func judgeMeta(j *Job, r *Result) []Viol {
	m := j.Meta
	if r.Timeout {
		return []Viol{{Kind: "hang", Desc: "the builds did not finish within the wall limit"}}
	}
	rep := r.MetaRep
	if rep == nil {
		return []Viol{{Kind: "crash", Desc: fmt.Sprintf("process died with exit %d: %s", r.Exit, crashText(r.Stderr))}}
	}
	for _, s := range rep.Steps {
		if s.Unsup != "" {
			return nil // outside what the simulation models
		}
	}
	var out []Viol
	add := func(kind string, step int, desc, want, got string) {
		out = append(out, Viol{Kind: kind, Task: m.Steps[step].Disk, Op: step, Desc: desc, Want: want, Got: got})
	}
	if len(rep.Steps) < len(m.Steps) {
		return []Viol{{Kind: "crash", Desc: "a build died without a report: " + clip(rep.Note, 400)}}
	}
	ended := func(s *zzsim.MetaStepRep) string {
		return fmt.Sprintf("exit %d %s %s", s.Exit, s.Panic, strings.TrimSpace(s.Stderr))
	}
	switch m.Kind {
	case "repro", "over":
		if m.Kind == "over" && rep.Steps[0].Exit > 0 {
			return nil // refused visibly
		}
		for i, s := range rep.Steps {
			if s.Exit != 0 {
				add("buildfail", i, "a build of a sound release failed", "exit 0", ended(s))
				return out
			}
		}
		for i, s := range rep.Steps {
			if i == 2 {
				continue
			}
			if d := treeDiff(rep.Steps[0].Tree, s.Tree, false); i > 0 && d != "" {
				add("irreproducible", i, "building the same release again gave other files", "the same files", d)
			}
			if !strings.Contains(s.Version, strconv.Quote(tagA)) {
				add("version", i, "the recorded version is not the release built", tagA, s.Version)
			}
		}
		if len(rep.Looks) < len(m.Looks) || (len(m.Looks) > 0 && rep.Looks[0] == nil) {
			out = append(out, Viol{Kind: "lookup", Desc: "the library does not start with the built files", Got: clip(rep.Note, 300)})
			return out
		}
		for li, l := range m.Looks {
			for oi, o := range l.Ops {
				if o.Ref != nil && rep.Looks[li][oi] != *o.Ref {
					out = append(out, Viol{Kind: "lookup", Task: li, Op: oi, Desc: o.String(), Want: *o.Ref, Got: rep.Looks[li][oi]})
					if len(out) > 10 {
						return out
					}
				}
			}
		}
	case "fault", "badsrc":
		var ref *zzsim.MetaStepRep
		for i, s := range rep.Steps {
			st := m.Steps[i]
			if st.Disk == 0 {
				if s.Exit != 0 {
					add("buildfail", i, "an undisturbed build failed", "exit 0", ended(s))
					return out
				}
				ref = s // the last undisturbed build is of tag A
			}
		}
		for i, s := range rep.Steps {
			st := m.Steps[i]
			if st.Disk == 0 {
				continue
			}
			bad := m.Kind == "badsrc" && i == len(rep.Steps)-2
			if st.Fault == nil && !bad {
				if s.Exit != 0 {
					add("buildfail", i, "a build after the faults were gone failed", "exit 0", ended(s))
				} else if i == len(rep.Steps)-1 {
					if d := treeDiff(ref.Tree, s.Tree, true); d != "" {
						add("leftover", i, "a later complete build did not leave what an undisturbed build leaves", "the same files", d)
					}
				}
				continue
			}
			what := "a defective release"
			if st.Fault != nil {
				what = s.Fired
			}
			switch {
			case bad && s.Exit == 0:
				add("silent", i, "the build reported success on "+what, "failure", ended(s))
			case s.Exit == 0:
				if d := treeDiff(ref.Tree, s.Tree, true); d != "" {
					add("silent", i, "the build reported success although: "+what, "failure", "success with "+d)
				}
			case s.Exit > 0:
				if s.Version != s.Before {
					add("version", i, "a failed build changed the recorded version: "+what, s.Before, s.Version)
				}
			default: // killed
				if s.Version != s.Before {
					d := treeDiff(ref.Tree, s.Tree, true)
					if s.Version != ref.Version || d != "" {
						add("version", i, "a killed build left a version file that does not match the data: "+what+" "+d, s.Before, s.Version)
					}
				}
			}
		}
	}
	return out
}

func (s *stats) addMeta(j *Job, r *Result) {
	h := uint64(17)
	for i, p := range r.MetaRep.Steps {
		s.steps += p.Steps
		s.simNS += int64(p.Steps) * 1000
		s.ops += int(p.Ops)
		s.info["builds"]++
		s.info["disk and git operations"] += int(p.Ops)
		s.seams["map iterations"] += p.Ranges
		st := j.Meta.Steps[i]
		if st.Fault != nil && p.Fired != "" {
			f := strings.Fields(p.Fired)
			s.faults[strings.Join(f[:min(3, len(f))], " ")]++
			s.errs++
		}
		h = h*31 ^ hashString(fmt.Sprint(p.Fired, p.Exit, st.Env.MapSeed, st.DirSeed, p.Ops))
		for _, x := range p.Tree {
			h ^= x * 0x9e3779b97f4a7c15
		}
	}
	for _, l := range r.MetaRep.Looks {
		s.info["library lookups"] += len(l)
		s.ops += len(l)
	}
	if j.Meta.Kind == "badsrc" {
		s.faults["defective release"]++
	}
	s.hashes[h] = true
	s.nontriv[h] = true
	s.kinds[j.Meta.Kind]++
	if len(s.samples) < 3 || (len(s.samples) < 6 && j.Meta.Kind != "fault") {
		s.samples = append(s.samples, map[string]any{"seed": j.Seed, "history": storyMeta(j)})
	}
}

func (s *shrinker) minimiseMeta() {
	// pin the fault positions
	c := clone(s.best)
	res, err := s.e.b.exec(c)
	if err == nil && res.MetaRep != nil {
		for i, st := range c.Meta.Steps {
			if st.Fault != nil && i < len(res.MetaRep.Steps) {
				st.Fault.At, st.Fault.Mod = res.MetaRep.Steps[i].At, false
			}
		}
		s.try(c, 0)
	}
	// plain environment
	for i := range s.best.Meta.Steps {
		c := clone(s.best)
		c.Meta.Steps[i].Env = zzsim.Env{}
		c.Meta.Steps[i].DirSeed = 0
		c.Meta.Steps[i].Sched = Sched{Kind: "serial", MaxStep: 800_000_000}
		s.try(c, 0)
	}
	// fewer faulted builds (the last step and the reference stay)
	for i := len(s.best.Meta.Steps) - 2; i >= 0; i-- {
		if s.best.Meta.Kind == "fault" && s.best.Meta.Steps[i].Fault != nil {
			c := clone(s.best)
			c.Meta.Steps = append(c.Meta.Steps[:i], c.Meta.Steps[i+1:]...)
			s.try(c, 0)
		}
	}
	// fewer lookups
	for li := range s.best.Meta.Looks {
		if s.v.Kind != "lookup" {
			c := clone(s.best)
			c.Meta.Looks = nil
			s.try(c, 0)
			break
		}
		for size := len(s.best.Meta.Looks[li].Ops) / 2; size >= 1 && !s.over(); size /= 2 {
			for at := 0; at < len(s.best.Meta.Looks[li].Ops) && !s.over(); {
				c := clone(s.best)
				ops := c.Meta.Looks[li].Ops
				end := min(at+size, len(ops))
				if end-at == len(ops) {
					break
				}
				c.Meta.Looks[li].Ops = append(ops[:at:at], ops[end:]...)
				if !s.try(c, 0) {
					at = end
				}
			}
		}
	}
	if s.v.Kind == "lookup" {
		return
	}
	// less on the disks and in the releases
	for d := range s.best.Meta.Disks {
		for _, p := range sortedKeysS(s.best.Meta.Disks[d]) {
			if strings.HasSuffix(p, "/") || p == "metadata/version.go" {
				continue
			}
			c := clone(s.best)
			for k := range c.Meta.Disks {
				if s.best.Meta.Kind == "fault" || k == d {
					delete(c.Meta.Disks[k], p)
				}
			}
			s.try(c, 0)
		}
	}
	if s.best.Meta.Kind == "badsrc" {
		return
	}
	for _, t := range sortedTrees(s.best.Meta.Trees) {
		for _, p := range sortedKeysS(s.best.Meta.Trees[t]) {
			if !strings.HasSuffix(p, ".txt") {
				continue
			}
			c := clone(s.best)
			delete(c.Meta.Trees[t], p)
			if s.try(c, 0) {
				continue
			}
			for size := strings.Count(s.best.Meta.Trees[t][p], "\n")/2 + 1; size >= 1 && !s.over(); size /= 2 {
				for at := 0; !s.over(); {
					ls := strings.Split(s.best.Meta.Trees[t][p], "\n")
					if at >= len(ls) {
						break
					}
					c := clone(s.best)
					end := min(at+size, len(ls))
					c.Meta.Trees[t][p] = strings.Join(append(ls[:at:at], ls[end:]...), "\n")
					if !s.try(c, 0) {
						at = end
					}
				}
			}
		}
	}
}

func sortedKeysS(m map[string]string) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func sortedTrees(m map[string]map[string]string) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func storyMeta(j *Job) []string {
	var out []string
	for _, t := range sortedTrees(j.Meta.Trees) {
		out = append(out, fmt.Sprintf("release %s: %d files", t, len(j.Meta.Trees[t])))
	}
	for i, st := range j.Meta.Steps {
		s := fmt.Sprintf("step %d: build %v on disk %d (map order %d, directory order %d)", i, st.Args, st.Disk, st.Env.MapSeed, st.DirSeed)
		if st.Fault != nil {
			at := fmt.Sprint(st.Fault.At)
			if st.Fault.Mod {
				at += " (mod)"
			}
			s += fmt.Sprintf(" with fault %s at operation %s", st.Fault.Kind, at)
		}
		out = append(out, s)
	}
	for _, l := range j.Meta.Looks {
		out = append(out, fmt.Sprintf("library started on disk %d, %d lookups", l.Disk, len(l.Ops)))
		for i, o := range l.Ops {
			if i == 3 {
				break
			}
			out = append(out, "  "+o.String())
		}
	}
	return out
}

func init() {
	stub := "the disk (in memory, every operation a fault point), git and the remote, process exit, map and directory order, clock, goroutine scheduling"
	register(&check{
		id: "C15", variants: []string{"meta"}, quick: 900, thorough: 12000,
		prepare: func(e *env, n int) error { return loadTerritories() },
		job:     c15Job,
		real:    "the build command, the metadata builder, XML, protobuf and gzip encoding; the library reading the built files",
		stub:    stub,
		rule:    "a run builds one made-up upstream release (a subset of upstream's test territories plus made-up shared calling codes, short-number and alternate-format documents, carrier and geocoding tables of 0-60 entries or whole shipped ones in 1-6 languages split over 1-4 files, 1-60 time-zone prefixes) on three simulated disks - an empty one, one littered with stale data files, one holding another release's build - under different map orders, directory orders, clocks and schedules; the written files must be byte-identical, and the library started on them must answer up to 400 prefixes per language, every time-zone prefix and every calling code as the release's text says; every 25th run holds more zones or values than the format can number, which must be refused or answered right; all runs are non-trivial; distinct by hash of all written files, seeds and operation counts",
		assume:  []string{"releases are well formed: prefixes of at most 12 digits, no stray white space around values, line feeds only"},
	})
	register(&check{
		id: "C16", variants: []string{"meta"}, quick: 1400, thorough: 40000,
		prepare: c16Prepare,
		job:     c16Job,
		real:    "the build command, the metadata builder, XML, protobuf and gzip encoding",
		stub:    stub,
		rule:    "a run is a history of builds on a simulated disk: an older release, then one to three builds each with one fault at one disk or git operation (error; torn transfer then error; full transfer then error; disk full from there on; path unusable from there on; killed before, in the middle of or after the operation) or a defective release, then an undisturbed build; a failed build must leave the recorded version alone, a successful one must leave exactly what an undisturbed build leaves, and so must the last one; the first runs enumerate every fault kind at every operation of one small build, the others draw releases, positions and histories at random; distinct by hash of fault, outcome, files and seeds",
		assume:  []string{"a killed process loses nothing the operating system already accepted; renames are atomic"},
	})
}
