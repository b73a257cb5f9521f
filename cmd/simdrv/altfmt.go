package main

// Groupings that are only right because the country has alternative ways to write its
// numbers. corpus/altformats.tsv is a list of inputs, never an oracle.

import (
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"sync"
)

type altFormat struct {
	lead, pat *regexp.Regexp
	format    string
}

var altFormats = sync.OnceValue(func() map[int][]altFormat {
	m := map[int][]altFormat{}
	b, err := os.ReadFile(filepath.Join(verifDir, "corpus", "altformats.tsv"))
	if err != nil {
		return m
	}
	for _, l := range strings.Split(string(b), "\n") {
		p := strings.Split(l, "\t")
		if len(p) != 4 {
			continue
		}
		cc, _ := strconv.Atoi(p[0])
		lead, err1 := regexp.Compile("^(?:" + p[1] + ")")
		pat, err2 := regexp.Compile("^(?:" + p[2] + ")$")
		if err1 != nil || err2 != nil {
			continue
		}
		var f strings.Builder
		for i := 0; i < len(p[3]); i++ {
			if p[3][i] == '$' && i+1 < len(p[3]) {
				i++
				f.WriteString("${" + p[3][i:i+1] + "}")
			} else {
				f.WriteByte(p[3][i])
			}
		}
		m[cc] = append(m[cc], altFormat{lead, pat, f.String()})
	}
	return m
})

// altForm writes nsn in one of its alternative groupings, or any grouping at all.
func (g *gen) altForm(cc int, nsn string) string {
	var fs []altFormat
	for _, f := range altFormats()[cc] {
		if f.lead.MatchString(nsn) && f.pat.MatchString(nsn) {
			fs = append(fs, f)
		}
	}
	var s string
	if len(fs) > 0 && !g.p(15) {
		f := fs[g.n(len(fs))]
		s = f.pat.ReplaceAllString(nsn, f.format)
	} else {
		for i := 0; i < len(nsn); {
			k := min(1+g.n(5), len(nsn)-i)
			s += nsn[i:i+k] + " "
			i += k
		}
		s = strings.TrimSpace(s)
	}
	if g.p(25) {
		s = strings.ReplaceAll(s, " ", g.pick("-", ".", "/", "‑"))
	}
	if g.p(80) {
		return fmt.Sprintf("+%d ", cc) + s
	}
	return "0" + s
}

var altRegions = strings.Fields("DE AT GB RU IT JP CN HU NL GR ES BE PL MY AU ID NZ TH KR TR IN ZA HR UA RS PT IE IS AL FI BG LT LV MM FJ PY KH GE AE IL")

// altExample is a number of a country with alternative formats.
func (g *gen) altExample() example {
	for i := 0; i < 20; i++ {
		es := g.c.byRegion[g.pick(altRegions...)]
		if len(es) == 0 {
			continue
		}
		if e := es[g.n(len(es))]; len(altFormats()[e.CC]) > 0 {
			return e
		}
	}
	return g.example()
}
