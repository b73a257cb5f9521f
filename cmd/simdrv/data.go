package main

// The driver's own reading of the shipped prefix tables: the reference model of the
// carrier, geocoding and time-zone lookups.

import (
	"bytes"
	"compress/gzip"
	"encoding/binary"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type table map[int][]string

type dataTables struct {
	carrier, geo           map[string]table
	carrierLangs, geoLangs []string
	tz                     table
	keys                   map[string][]int // "carrier/en" -> sorted prefixes
	carrierBlobs, geoBlobs map[string]int   // sizes
}

func gunzip(b []byte) ([]byte, error) {
	r, err := gzip.NewReader(bytes.NewReader(b))
	if err != nil {
		return nil, err
	}
	return io.ReadAll(r)
}

// decodeTable reads the shipped format; multi: a count byte precedes the values.
func decodeTable(b []byte, multi bool) (table, error) {
	raw, err := gunzip(b)
	if err != nil {
		return nil, err
	}
	bad := fmt.Errorf("malformed table")
	if len(raw) < 4 {
		return nil, bad
	}
	n := int(binary.LittleEndian.Uint32(raw))
	raw = raw[4:]
	if n > len(raw) {
		return nil, bad
	}
	vals := strings.Split(string(raw[:n]), "\n")
	raw = raw[n:]
	if len(raw) < 4 {
		return nil, bad
	}
	c := int(binary.LittleEndian.Uint32(raw))
	raw = raw[4:]
	t := table{}
	p := 0
	for i := 0; i < c; i++ {
		d, k := binary.Uvarint(raw)
		if k <= 0 {
			return nil, bad
		}
		raw = raw[k:]
		p += int(d)
		m := 1
		if multi {
			if len(raw) < 1 {
				return nil, bad
			}
			m = int(raw[0])
			raw = raw[1:]
		}
		if len(raw) < 2*m {
			return nil, bad
		}
		vs := make([]string, m)
		for j := range vs {
			x := int(binary.LittleEndian.Uint16(raw[2*j:]))
			if x >= len(vals) {
				return nil, bad
			}
			vs[j] = vals[x]
		}
		raw = raw[2*m:]
		t[p] = vs
	}
	if len(raw) != 0 {
		return nil, bad
	}
	return t, nil
}

func loadTables() (*dataTables, error) {
	d := &dataTables{keys: map[string][]int{}}
	read := func(kind string) (map[string]table, []string, error) {
		out := map[string]table{}
		var langs []string
		fs, err := filepath.Glob(filepath.Join(repoDir, kind, "data", "*.txt.gz"))
		if err != nil {
			return nil, nil, err
		}
		for _, f := range fs {
			b, err := os.ReadFile(f)
			if err != nil {
				return nil, nil, err
			}
			t, err := decodeTable(b, false)
			if err != nil {
				return nil, nil, fmt.Errorf("%s: %w", f, err)
			}
			l := strings.TrimSuffix(filepath.Base(f), ".txt.gz")
			out[l] = t
			langs = append(langs, l)
			d.keys[kind+"/"+l] = sortedKeys(t)
		}
		sort.Strings(langs)
		return out, langs, nil
	}
	var err error
	if d.carrier, d.carrierLangs, err = read("carrier"); err != nil {
		return nil, err
	}
	if d.geo, d.geoLangs, err = read("geocoding"); err != nil {
		return nil, err
	}
	b, err := os.ReadFile(filepath.Join(repoDir, "timezone", "data", "prefix_to_timezone.xml.gz"))
	if err != nil {
		return nil, err
	}
	if d.tz, err = decodeTable(b, true); err != nil {
		return nil, err
	}
	d.keys["timezone"] = sortedKeys(d.tz)
	if len(d.carrierLangs) == 0 || len(d.geoLangs) == 0 || len(d.tz) == 0 {
		return nil, fmt.Errorf("no prefix data found under %s", repoDir)
	}
	return d, nil
}

func sortedKeys(t table) []int {
	ks := make([]int, 0, len(t))
	for k := range t {
		ks = append(ks, k)
	}
	sort.Ints(ks)
	return ks
}

// longest returns the values of the longest prefix of digits in t.
func (t table) longest(digits string) ([]string, bool) {
	for i := min(len(digits), 18); i > 0; i-- {
		n, err := strconv.Atoi(digits[:i])
		if err != nil || digits[0] == '0' {
			return nil, false
		}
		if v, ok := t[n]; ok {
			return v, true
		}
	}
	return nil, false
}

func digitsOf(n *Num) string {
	z := 0
	if n.ILZ != nil && *n.ILZ {
		z = 1
		if n.NLZ != nil {
			z = int(*n.NLZ)
		}
	}
	return fmt.Sprint(n.CC) + strings.Repeat("0", min(max(z, 0), 17)) + fmt.Sprint(n.NN)
}

// sampleNum makes a number whose digits start with an entry of a table.
func (d *dataTables) sampleNum(g *gen, kind, lang string) *Num {
	var ks []int
	switch kind {
	case "carrier":
		ks = d.keys["carrier/"+lang]
	case "geo":
		ks = d.keys["geocoding/"+lang]
	}
	if len(ks) == 0 {
		ks = d.keys["timezone"]
	}
	return numFromPrefix(g, ks[g.n(len(ks))])
}

var twoDigitCodes = func() map[int]bool {
	m := map[int]bool{}
	for _, c := range []int{20, 27, 30, 31, 32, 33, 34, 36, 39, 40, 41, 43, 44, 45, 46, 47, 48, 49, 51, 52, 53, 54, 55, 56, 57, 58, 60, 61, 62, 63, 64, 65, 66, 81, 82, 84, 86, 90, 91, 92, 93, 94, 95, 98} {
		m[c] = true
	}
	return m
}()

// numFromPrefix completes an international prefix to a number of plausible length.
func numFromPrefix(g *gen, prefix int) *Num {
	s := fmt.Sprint(prefix)
	total := max(len(s), 11)
	if g.p(20) {
		total = len(s)
	}
	for len(s) < total {
		s += fmt.Sprint(g.n(10))
	}
	for len(s) < 4 {
		s += fmt.Sprint(g.n(10))
	}
	k := 3
	if s[0] == '1' || s[0] == '7' {
		k = 1
	} else if c, _ := strconv.Atoi(s[:2]); twoDigitCodes[c] {
		k = 2
	}
	cc, _ := strconv.Atoi(s[:k])
	rest := s[k:]
	n := &Num{CC: int32(cc)}
	z := 0
	for z < len(rest)-1 && rest[z] == '0' {
		z++
	}
	if z > 0 {
		n.ILZ = boolp(true)
		if z > 1 {
			n.NLZ = i32p(int32(z))
		}
	}
	nn, _ := strconv.ParseUint(rest[z:], 10, 64)
	n.NN = nn
	return n
}

// model returns the answer the shipped tables give to a pure table lookup, if op is
// one the model covers.
func (d *dataTables) model(o *Op) (string, bool) {
	if len(o.N) != 1 || o.N[0].Nil || o.N[0].NoCC || o.N[0].NoNN || o.N[0].CC <= 0 || o.N[0].NN == 0 {
		return "", false
	}
	dg := digitsOf(o.N[0])
	switch o.F {
	case "carrier.GetNameForValidNumber":
		t, ok := d.carrier[o.A[0]]
		if !ok {
			return "|ok", true
		}
		if v, ok := t.longest(dg); ok {
			return v[0] + "|ok", true
		}
		return "|ok", true
	case "geocoding.GetDescriptionForValidNumber":
		if o.N[0].CC == 54 || o.N[0].CC == 52 {
			return "", false // a mobile token may be dropped before the lookup
		}
		t, ok := d.geo[o.A[0]]
		if !ok {
			return "", false
		}
		if v, ok := t.longest(dg); ok && v[0] != "" {
			return v[0] + "|ok", true
		}
		return "", false // the country's name
	case "timezone.GetTimeZonesForGeographicalNumber":
		v, ok := d.tz.longest(dg)
		if !ok {
			v = []string{"Etc/Unknown"}
		}
		return fmt.Sprintf("%q|ok", v), true
	}
	return "", false
}
