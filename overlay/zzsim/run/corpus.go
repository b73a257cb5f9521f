package main

import (
	"encoding/json"
	"fmt"
	"os"
	"sort"
	"strings"

	pn "github.com/nyaruka/phonenumbers/v2"
	"github.com/nyaruka/phonenumbers/v2/carrier"
	"github.com/nyaruka/phonenumbers/v2/geocoding"
	"github.com/nyaruka/phonenumbers/v2/internal/zzsim"
	"github.com/nyaruka/phonenumbers/v2/timezone"
	"google.golang.org/protobuf/proto"
)

// dumpCorpus prints the inputs the driver draws from. It was run once; the result is
// committed, so that the inputs do not depend on the tree under test.
func dumpCorpus() {
	type ex struct {
		Region string `json:"r"`
		Type   int    `json:"t"`
		CC     int    `json:"cc"`
		NN     uint64 `json:"nn"`
		LZ     int    `json:"lz,omitempty"` // leading zeros
		Nat    string `json:"nat"`
		Int    string `json:"int"`
	}
	type sh struct {
		Region string `json:"r"`
		Kind   string `json:"k"`
		Num    string `json:"n"`
	}
	var out struct {
		Regions []string `json:"regions"`
		NonGeo  []int    `json:"nonGeo"`
		Codes   []int    `json:"codes"`
		Nums    []ex     `json:"nums"`
		Invalid []ex     `json:"invalid"`
		Short   []sh     `json:"short"`
	}
	for r := range pn.GetSupportedRegions() {
		out.Regions = append(out.Regions, r)
	}
	sort.Strings(out.Regions)
	for c := range pn.GetSupportedGlobalNetworkCallingCodes() {
		out.NonGeo = append(out.NonGeo, c)
	}
	sort.Ints(out.NonGeo)
	for c := range pn.GetSupportedCallingCodes() {
		out.Codes = append(out.Codes, c)
	}
	sort.Ints(out.Codes)
	mk := func(r string, t int, p *pn.PhoneNumber) ex {
		lz := 0
		if p.GetItalianLeadingZero() {
			lz = int(p.GetNumberOfLeadingZeros())
		}
		return ex{r, t, int(p.GetCountryCode()), p.GetNationalNumber(), lz, pn.Format(p, pn.NATIONAL), pn.Format(p, pn.INTERNATIONAL)}
	}
	for _, r := range out.Regions {
		seen := map[string]bool{}
		for t := 0; t <= 10; t++ {
			p := pn.GetExampleNumberForTypeInRegion(r, pn.PhoneNumberType(t))
			if p == nil || seen[p.String()] {
				continue
			}
			seen[p.String()] = true
			out.Nums = append(out.Nums, mk(r, t, p))
		}
		if p := pn.GetInvalidExampleNumber(r); p != nil {
			out.Invalid = append(out.Invalid, mk(r, -1, p))
		}
	}
	for _, c := range out.NonGeo {
		if p := pn.GetExampleNumberForNonGeoEntity(c); p != nil {
			out.Nums = append(out.Nums, mk("001", 11, p))
		}
	}
	sc, _ := pn.ShortNumberMetadataCollection()
	for _, m := range sc.GetMetadata() {
		add := func(k string, d *pn.PhoneNumberDesc) {
			if d.GetExampleNumber() != "" {
				out.Short = append(out.Short, sh{m.GetId(), k, d.GetExampleNumber()})
			}
		}
		add("emergency", m.GetEmergency())
		add("tollfree", m.GetTollFree())
		add("premium", m.GetPremiumRate())
		add("standard", m.GetStandardRate())
		add("short", m.GetShortCode())
		add("carrier", m.GetCarrierSpecific())
		add("sms", m.GetSmsServices())
	}
	e := json.NewEncoder(os.Stdout)
	e.SetEscapeHTML(false)
	e.Encode(out)
}

// dumpEdges prints pairs of numbers that differ in one digit and in what the library
// says about them. Like dumpCorpus, it was run once.
func dumpEdges() {
	type edge struct {
		R  string `json:"r"`
		CC int32  `json:"cc"`
		A  string `json:"a"` // national significant numbers
		B  string `json:"b"`
	}
	type sedge struct {
		R string `json:"r"`
		A string `json:"a"`
		B string `json:"b"`
	}
	var out struct {
		Edges []edge  `json:"edges"`
		Short []sedge `json:"short"`
	}
	rng := zzsim.NewRNG(12345)
	num := func(cc int32, nsn string) *pn.PhoneNumber {
		p := &pn.PhoneNumber{CountryCode: &cc}
		z := 0
		for z < len(nsn)-1 && nsn[z] == '0' {
			z++
		}
		var nn uint64
		for _, c := range nsn[z:] {
			nn = nn*10 + uint64(c-'0')
		}
		p.NationalNumber = &nn
		if z > 0 {
			p.ItalianLeadingZero = proto.Bool(true)
			if z > 1 {
				p.NumberOfLeadingZeros = proto.Int32(int32(z))
			}
		}
		return p
	}
	shape := func(s string) string {
		b := []byte(s)
		for i := range b {
			if b[i] >= '0' && b[i] <= '9' {
				b[i] = 'd'
			}
		}
		return string(b)
	}
	sig := func(cc int32, nsn string) []string {
		p := num(cc, nsn)
		car, _ := carrier.GetNameForValidNumber(p, "en")
		geo, _ := geocoding.GetDescriptionForValidNumber(p, "en")
		tz, _ := timezone.GetTimeZonesForGeographicalNumber(p)
		return []string{
			fmt.Sprint(pn.GetNumberType(p)), pn.GetRegionCodeForNumber(p), shape(pn.Format(p, pn.NATIONAL)), shape(pn.Format(p, pn.INTERNATIONAL)),
			fmt.Sprint(pn.GetLengthOfGeographicalAreaCode(p), pn.GetLengthOfNationalDestinationCode(p), pn.CanBeInternationallyDialled(p)), car, geo, strings.Join(tz, ","),
		}
	}
	for _, r := range append(append([]string{}, allRegions...), "001") {
		seen := map[string]int{}
		var bases []string
		var ccs []int32
		if r == "001" {
			for _, c := range nonGeoCodes {
				if p := pn.GetExampleNumberForNonGeoEntity(c); p != nil {
					bases, ccs = append(bases, pn.GetNationalSignificantNumber(p)), append(ccs, int32(c))
				}
			}
		} else {
			for t := 0; t <= 10; t++ {
				if p := pn.GetExampleNumberForTypeInRegion(r, pn.PhoneNumberType(t)); p != nil {
					bases, ccs = append(bases, pn.GetNationalSignificantNumber(p)), append(ccs, p.GetCountryCode())
				}
			}
		}
		n := 0
		for k := 0; k < 160 && len(bases) > 0; k++ {
			i := k % len(bases)
			b := []byte(bases[i])
			cc := ccs[i]
			if k >= len(bases) {
				// keep a start, change what follows
				for j := rng.N(len(b)); j < len(b); j++ {
					b[j] = byte('0' + rng.N(10))
				}
				if pn.GetNumberType(num(cc, string(b))) == pn.UNKNOWN && rng.N(4) > 0 {
					continue
				}
			}
			s0 := sig(cc, string(b))
			for pos := 0; pos < len(b) && pos < 9; pos++ {
				for d := byte('0'); d <= '9'; d++ {
					if b[pos] == d {
						continue
					}
					c := append([]byte{}, b...)
					c[pos] = d
					s1 := sig(cc, string(c))
					for x := range s0 {
						if s0[x] == s1[x] {
							continue
						}
						key := fmt.Sprint(pos, "|", x)
						if x < 5 {
							key += fmt.Sprint("|", s0[x], s1[x])
						}
						limit := 1
						if x >= 5 {
							limit = 2
						}
						if seen[key] >= limit || n > 120 {
							continue
						}
						seen[key]++
						n++
						out.Edges = append(out.Edges, edge{r, cc, string(b), string(c)})
						break
					}
				}
			}
		}
	}
	sc, _ := pn.ShortNumberMetadataCollection()
	for _, m := range sc.GetMetadata() {
		r := m.GetId()
		cc := int32(pn.GetCountryCodeForRegion(r))
		ssig := func(s string) string {
			p := num(cc, s)
			return fmt.Sprint(pn.IsValidShortNumberForRegion(p, r), pn.GetExpectedCostForRegion(p, r), pn.IsCarrierSpecificForRegion(p, r), pn.IsSmsServiceForRegion(p, r), pn.IsEmergencyNumber(s, r), pn.ConnectsToEmergencyNumber(s, r), pn.IsPossibleShortNumberForRegion(p, r))
		}
		seen := map[string]bool{}
		n := 0
		for _, d := range []*pn.PhoneNumberDesc{m.GetEmergency(), m.GetTollFree(), m.GetPremiumRate(), m.GetStandardRate(), m.GetShortCode(), m.GetCarrierSpecific(), m.GetSmsServices()} {
			b := d.GetExampleNumber()
			if b == "" {
				continue
			}
			s0 := ssig(b)
			try := func(c string) {
				s1 := ssig(c)
				if s0 != s1 && !seen[s0+s1] && n < 12 {
					seen[s0+s1] = true
					n++
					out.Short = append(out.Short, sedge{r, b, c})
				}
			}
			for pos := 0; pos < len(b); pos++ {
				for x := byte('0'); x <= '9'; x++ {
					try(b[:pos] + string(x) + b[pos+1:])
				}
			}
			try(b + "0")
			if len(b) > 2 {
				try(b[:len(b)-1])
			}
		}
	}
	e := json.NewEncoder(os.Stdout)
	e.SetEscapeHTML(false)
	e.Encode(out)
}
