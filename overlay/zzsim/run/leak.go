package main

import (
	"fmt"
	"runtime"
	"strconv"
	"strings"

	pn "github.com/nyaruka/phonenumbers/v2"
	"github.com/nyaruka/phonenumbers/v2/carrier"
	"github.com/nyaruka/phonenumbers/v2/geocoding"
	"github.com/nyaruka/phonenumbers/v2/internal/zzsim"
	"github.com/nyaruka/phonenumbers/v2/metadata"
	"github.com/nyaruka/phonenumbers/v2/timezone"
	"google.golang.org/protobuf/proto"
)

// ---- retained memory and goroutines (C18) --------------------------------------

func liveHeap() (int64, int) {
	for i := 0; i < 3; i++ {
		runtime.GC()
	}
	var ms runtime.MemStats
	runtime.ReadMemStats(&ms)
	return int64(ms.HeapAlloc), runtime.NumGoroutine()
}

// runLeak plays epochs of calls with inputs never used before and measures, at the
// end of each epoch, what is still reachable.
func runLeak() Report {
	l := spec.Leak
	heap := make([]int64, l.Epochs)
	gor := make([]int, l.Epochs)
	var calls, spawned int
	out := zzsim.Run(zzsim.Sched{Kind: "serial", Seed: l.Seed, MaxStep: 0}, []string{"t0"}, []func(){func() {
		r := zzsim.NewRNG(l.Seed)
		for e := 0; e < l.Epochs; e++ {
			for i := 0; i < l.Calls; i++ {
				calls++
				leakCall(l, r, calls)
				if zzsim.Live() > 1500 {
					zzsim.Drain()
					if n := zzsim.Live(); n > 1500 {
						spawned = n
						return
					}
				}
			}
			zzsim.Drain()
			heap[e], gor[e] = liveHeap()
		}
	}})
	rep := Report{Out: out, Ops: calls, Info: map[string]int{}}
	if out.Deadlock != "" {
		rep.Viols = append(rep.Viols, Viol{Kind: "deadlock", Desc: out.Deadlock})
	}
	if spawned > 0 {
		rep.Viols = append(rep.Viols, Viol{Kind: "goroutines", Desc: fmt.Sprintf("goroutines keep accumulating over repeated %q calls: %d after %d steps", l.Kind, spawned, calls)})
	}
	for e := range heap {
		rep.Results = append(rep.Results, fmt.Sprintf("%d %d", heap[e], gor[e]))
	}
	return rep
}

func guard(f func()) {
	defer func() { recover() }()
	f()
}

// lasting is a formatter kept over the whole history.
var lasting *pn.AsYouTypeFormatter

func leakCall(l *Leak, r *zzsim.RNG, n int) {
	base := l.Nums[r.N(len(l.Nums))]
	// a fresh number in the shape of an existing one: last digits varied
	num := mkNum(base)
	mod := uint64(1)
	for d := 0; d < 5 && mod*100 < base.NN; d++ {
		mod *= 10
	}
	num.NationalNumber = proto.Uint64(base.NN - base.NN%mod + (base.NN+uint64(n))%mod)
	region := ""
	if x := pn.GetRegionCodeForCountryCode(int(base.CC)); x != "" {
		region = x
	}
	intl := fmt.Sprintf("+%d%d", num.GetCountryCode(), num.GetNationalNumber())
	kind := l.Kind
	if kind == "mix" {
		kind = []string{"parse", "badparse", "format", "query", "short", "find", "type", "regions", "codes", "langs", "sets", "patterns", "misc", "wide"}[r.N(14)]
	}
	switch kind {
	case "patterns":
		// rules nobody has used before
		pn.FormatByPattern(num, pn.PhoneNumberFormat(n%4), []*pn.NumberFormat{{Pattern: proto.String(fmt.Sprintf("(\\d{2})(\\d+)(?:q{%d})?", n%900)), Format: proto.String("$1 $2")}})
		pn.FormatByPattern(num, pn.NATIONAL, []*pn.NumberFormat{{Pattern: proto.String("(\\d+)"), LeadingDigitsPattern: []string{fmt.Sprint(n)}, Format: proto.String("$1")}, {Pattern: proto.String(fmt.Sprintf("(\\d{2,9})(\\d+)|%d", n)), Format: proto.String("$1-$2")}})
	case "badpatterns":
		guard(func() {
			pn.FormatByPattern(num, pn.NATIONAL, []*pn.NumberFormat{{Pattern: proto.String(fmt.Sprintf("(\\d+)(%d", n)), Format: proto.String("$1")}})
		})
		pn.Parse(fmt.Sprintf("no%d", n), region)
		guard(func() { pn.Format(nil, pn.E164) })
	case "misc":
		// the entry points the other kinds leave out, each with something new in it
		nsn := pn.GetNationalSignificantNumber(num)
		pn.IsAlphaNumber(fmt.Sprintf("1 800 F%dOWERS", n))
		pn.IsNumberGeographical(num)
		pn.IsNumberGeographicalForType(pn.PhoneNumberType(n%12), int(num.GetCountryCode())+n)
		pn.IsNumberMatchWithOneNumber(num, fmt.Sprintf("%s ext. %d", nsn, n))
		pn.IsPossibleNumber(num)
		pn.IsPossibleNumberForTypeWithReason(num, pn.PhoneNumberType(n%12))
		pn.IsPossibleNumberFromRegion(fmt.Sprintf("%s%d", nsn, n%10), region)
		reused := &pn.PhoneNumber{}
		for k := 0; k < 2; k++ {
			pn.ParseToNumber(intl, region, reused)
			pn.ParseAndKeepRawInputToNumber(fmt.Sprintf(" %s;ext=%d", nsn, n%9999999), region, reused)
		}
		reused.PreferredDomesticCarrierCode = proto.String(fmt.Sprint(n))
		pn.FormatNumberForMobileDialing(reused, region, false)
		pn.FormatNationalNumberWithPreferredCarrierCode(reused, "")
		pn.FormatByPattern(num, pn.PhoneNumberFormat(n%4), []*pn.NumberFormat{{Pattern: proto.String("(\\d{2})(\\d+)"), Format: proto.String("$1 $2")}})
		pn.FormatByPattern(num, pn.INTERNATIONAL, []*pn.NumberFormat{{Pattern: proto.String("(\\d+)"), Format: proto.String(fmt.Sprintf("%d $1", n))}})
		pn.FormatByPattern(num, pn.NATIONAL, []*pn.NumberFormat{{Pattern: proto.String("(\\d+)"), Format: proto.String("$1"), NationalPrefixFormattingRule: proto.String(fmt.Sprintf("$NP%d$FG", n))}})
		for l := pn.Leniency(0); l < 4; l++ {
			l.Verify(num, fmt.Sprintf("%s (%d)", intl, n))
		}
		for m := range pn.FindNumbersWithLeniency(fmt.Sprintf("%s/%d", intl, n), region, pn.VALID, 10) {
			_, _, _, _ = m.Start(), m.End(), m.RawString(), m.Number()
			_ = m.String()
		}
		s := &pn.PhoneNumber{CountryCode: num.CountryCode, NationalNumber: proto.Uint64(uint64(100 + n%99900))}
		pn.IsCarrierSpecificForRegion(s, region)
		pn.IsPossibleShortNumberForRegion(s, region)
		pn.IsValidShortNumberForRegion(s, region)
		geocoding.GetDescriptionForValidNumberForUserRegion(num, "en", region)
		pn.FormatOutOfCountryCallingNumber(num, region)
		pn.FormatOutOfCountryKeepingAlphaChars(&pn.PhoneNumber{CountryCode: num.CountryCode, NationalNumber: num.NationalNumber, RawInput: proto.String(fmt.Sprintf("%s A%d", nsn, n))}, region)
	case "wide":
		// whole numbers and texts made up from nothing but the step
		d := fmt.Sprint(uint64(n)*2654435761%100000000000 + 10000000000)
		for _, rg := range []string{region, "ZZ", ""} {
			pn.Parse(d, rg)
		}
		cc := fmt.Sprint(num.GetCountryCode())
		pn.Parse("+"+cc+d, "ZZ")
		pn.Parse("+"+cc+d[2:], "ZZ")
		pn.Parse("00"+cc+d[1:], region)
		f := pn.GetAsYouTypeFormatter(region)
		for _, c := range d {
			f.InputDigit(c)
		}
		for range pn.FindNumbersWithLeniency("a"+d+" b +"+cc+d[2:]+" c 00"+cc+d[3:], region, pn.POSSIBLE, 9) {
		}
		u, _ := strconv.ParseUint(d, 10, 64)
		x := &pn.PhoneNumber{CountryCode: num.CountryCode, NationalNumber: proto.Uint64(u), ItalianLeadingZero: proto.Bool(n%2 == 0), NumberOfLeadingZeros: proto.Int32(int32(n % 40))}
		for k := 0; k < 4; k++ {
			pn.Format(x, pn.PhoneNumberFormat(k))
		}
		pn.IsValidNumber(x)
		pn.GetNumberType(x)
		pn.TruncateTooLongNumber(x)
		carrier.GetNameForNumber(x, "en")
		geocoding.GetDescriptionForNumber(x, "en")
		timezone.GetTimeZonesForNumber(x)
	case "meta":
		if n%4 == 0 {
			metadata.Load()
		}
		metadata.Collection()
		metadata.CountryCodeToRegion()
		metadata.CountryCodesForNonGeographicalRegion()
		metadata.SupportedCallingCodes()
		metadata.SupportedRegions()
		metadata.RegionMetadata(fmt.Sprintf("%s%d", region, n))
		metadata.NonGeoMetadata(n)
		pn.MetadataCollection()
		pn.ShortNumberMetadataCollection()
	case "parse":
		pn.Parse(intl, region)
		pn.Parse(fmt.Sprintf("%d x%d", num.GetNationalNumber(), n%9999), region)
		pn.ParseAndKeepRawInput(fmt.Sprintf("tel:%d;phone-context=+%d", num.GetNationalNumber(), num.GetCountryCode()), "ZZ")
	case "badparse":
		pn.Parse(fmt.Sprintf("call me %d maybe", n), region)
		pn.Parse(fmt.Sprintf("%d%d%d", n, n, n), region)
		pn.Parse(fmt.Sprintf("+%d", 1000000+n), "")
		pn.Parse(fmt.Sprintf("tel:%d;phone-context=host%d.example", n, n), "")
		pn.IsNumberMatch(fmt.Sprint("x", n), fmt.Sprint("y", n))
	case "format":
		if n%7 == 0 {
			num.Extension = proto.String(fmt.Sprint(n))
		}
		for f := 0; f < 4; f++ {
			pn.Format(num, pn.PhoneNumberFormat(f))
		}
		num.RawInput = proto.String(fmt.Sprintf("%d", num.GetNationalNumber()))
		pn.FormatInOriginalFormat(num, region)
		pn.FormatOutOfCountryCallingNumber(num, "US")
		pn.FormatOutOfCountryKeepingAlphaChars(num, "GB")
		pn.FormatNumberForMobileDialing(num, region, true)
		pn.FormatNationalNumberWithCarrierCode(num, fmt.Sprint(n%100000))
		pn.FormatNationalNumberWithPreferredCarrierCode(num, fmt.Sprint(n))
	case "query":
		pn.IsValidNumber(num)
		pn.IsValidNumberForRegion(num, region)
		pn.GetNumberType(num)
		pn.GetRegionCodeForNumber(num)
		pn.IsPossibleNumberWithReason(num)
		pn.IsPossibleNumberForType(num, pn.MOBILE)
		pn.GetLengthOfGeographicalAreaCode(num)
		pn.GetLengthOfNationalDestinationCode(num)
		pn.CanBeInternationallyDialled(num)
		pn.IsNumberMatch(intl, fmt.Sprint(num.GetNationalNumber()))
		pn.IsNumberMatchWithNumbers(num, mkNum(base))
		pn.TruncateTooLongNumber(num)
	case "short":
		s := &pn.PhoneNumber{CountryCode: num.CountryCode, NationalNumber: proto.Uint64(uint64(100 + n%999900))}
		pn.IsValidShortNumber(s)
		pn.IsPossibleShortNumber(s)
		pn.GetExpectedCost(s)
		pn.GetExpectedCostForRegion(s, region)
		pn.IsCarrierSpecific(s)
		pn.IsSmsServiceForRegion(s, region)
		pn.ConnectsToEmergencyNumber(fmt.Sprint(n), region)
		pn.IsEmergencyNumber(fmt.Sprint(n), region)
	case "find":
		text := fmt.Sprintf("ref %d: call %s or %d now, also (%d) and %s", n, intl, num.GetNationalNumber(), n, intl)
		for range pn.FindNumbers(text, region) {
		}
		for range pn.FindNumbersWithLeniency(text, region, pn.STRICT_GROUPING, 50) {
			break
		}
		for range pn.FindNumbersWithLeniency(text, region, pn.EXACT_GROUPING, 50) {
		}
		guard(func() {
			for range pn.FindNumbersWithLeniency(text, region, pn.POSSIBLE, 50) {
				panic("stop")
			}
		})
	case "type":
		f := pn.GetAsYouTypeFormatter(region)
		for i, c := range intl {
			if i == 4 {
				f.InputDigitAndRememberPosition(c)
			} else {
				f.InputDigit(c)
			}
			f.GetRememberedPosition()
		}
		for k := n % 5; k > 0; k-- {
			f.Clear()
		}
		for _, c := range fmt.Sprint(num.GetNationalNumber()) {
			f.InputDigit(c)
		}
		// one that stays and is cleared again and again
		if lasting == nil {
			lasting = pn.GetAsYouTypeFormatter(region)
		}
		for k := n % 4; k >= 0; k-- {
			lasting.Clear()
			for _, c := range intl[:len(intl)-k] {
				lasting.InputDigit(c)
			}
		}
	case "regions":
		x := fmt.Sprintf("Q%d", n)
		if n%2 == 0 {
			x = strings.ToLower(x) + "-x"
		}
		pn.Parse(fmt.Sprint(num.GetNationalNumber()), x)
		pn.Parse(intl, x)
		f := pn.GetAsYouTypeFormatter(x)
		for _, c := range intl {
			f.InputDigit(c)
		}
		pn.GetExampleNumber(x)
		pn.GetExampleNumberForTypeInRegion(x, pn.MOBILE)
		pn.GetInvalidExampleNumber(x)
		pn.GetCountryCodeForRegion(x)
		pn.GetNddPrefixForRegion(x, true)
		pn.GetSupportedTypesForRegion(x)
		pn.IsMobileNumberPortableRegion(x)
		pn.IsNANPACountry(x)
		pn.IsValidNumberForRegion(num, x)
		pn.FormatNumberForMobileDialing(num, x, true)
		pn.FormatOutOfCountryCallingNumber(num, x)
		pn.FormatInOriginalFormat(num, x)
		pn.IsValidShortNumberForRegion(num, x)
		pn.IsEmergencyNumber("911", x)
		pn.ConnectsToEmergencyNumber("911", x)
		pn.GetExpectedCostForRegion(num, x)
		for range pn.FindNumbers("call "+intl, x) {
		}
		metadata.IsNANPARegion(x)
		geocoding.GetDescriptionForNumberForUserRegion(num, "en", x)
	case "codes":
		pn.GetRegionCodeForCountryCode(1000 + n)
		pn.GetRegionCodesForCountryCode(1000 + n)
		pn.GetCountryMobileToken(1000 + n)
		pn.GetSupportedTypesForNonGeoEntity(1000 + n)
		pn.GetExampleNumberForNonGeoEntity(1000 + n)
		x := &pn.PhoneNumber{CountryCode: proto.Int32(int32(1000 + n)), NationalNumber: num.NationalNumber}
		pn.IsValidNumber(x)
		pn.Format(x, pn.INTERNATIONAL)
		pn.GetRegionCodeForNumber(x)
		carrier.GetNameForNumber(x, "en")
		geocoding.GetDescriptionForNumber(x, "en")
		timezone.GetTimeZonesForNumber(x)
	case "langs":
		x := fmt.Sprintf("q%d", n)
		carrier.GetNameForNumber(num, x)
		carrier.GetSafeDisplayName(num, x)
		carrier.GetNameForValidNumber(num, x+"-LATN")
		geocoding.GetDescriptionForNumber(num, x)
		geocoding.GetDescriptionForValidNumber(num, x+"_Hant")
		geocoding.GetDescriptionForNumberForUserRegion(num, x, region)
	case "lookup":
		x := l.Langs[r.N(len(l.Langs))]
		carrier.GetNameForNumber(num, x)
		carrier.GetSafeDisplayName(num, x)
		geocoding.GetDescriptionForNumber(num, x)
		geocoding.GetDescriptionForValidNumber(num, x)
		timezone.GetTimeZonesForNumber(num)
		timezone.GetTimeZonesForGeographicalNumber(num)
	case "sets":
		pn.GetSupportedRegions()
		pn.GetSupportedCallingCodes()
		pn.GetSupportedGlobalNetworkCallingCodes()
		pn.GetSupportedTypesForRegion(region)
		pn.GetExampleNumberForType(pn.PhoneNumberType(n % 10))
		pn.GetExampleNumber(region)
		pn.GetInvalidExampleNumber(region)
		pn.ConvertAlphaCharactersInNumber(fmt.Sprintf("1-800-F%dX", n))
		pn.NormalizeDigitsOnly(fmt.Sprintf("x%dy", n))
		pn.NormalizeDiallableCharsOnly(fmt.Sprintf("*%d#", n))
	}
}
