package main

import (
	"encoding/hex"
	"fmt"
	"slices"
	"sort"
	"strings"

	pn "github.com/nyaruka/phonenumbers/v2"
	"github.com/nyaruka/phonenumbers/v2/carrier"
	"github.com/nyaruka/phonenumbers/v2/geocoding"
	"github.com/nyaruka/phonenumbers/v2/metadata"
	"github.com/nyaruka/phonenumbers/v2/timezone"
	"google.golang.org/protobuf/proto"
)

func mkNum(n *Num) *pn.PhoneNumber {
	if n.Nil {
		return nil
	}
	p := &pn.PhoneNumber{CountryCode: proto.Int32(n.CC), NationalNumber: proto.Uint64(n.NN)}
	if n.NoCC {
		p.CountryCode = nil
	}
	if n.NoNN {
		p.NationalNumber = nil
	}
	if n.Ext != nil {
		p.Extension = proto.String(*n.Ext)
	}
	if n.ILZ != nil {
		p.ItalianLeadingZero = proto.Bool(*n.ILZ)
	}
	if n.NLZ != nil {
		p.NumberOfLeadingZeros = proto.Int32(*n.NLZ)
	}
	if n.Raw != nil {
		p.RawInput = proto.String(*n.Raw)
	}
	if n.Src != nil {
		s := pn.PhoneNumber_CountryCodeSource(*n.Src)
		p.CountryCodeSource = &s
	}
	if n.PDCC != nil {
		p.PreferredDomesticCarrierCode = proto.String(*n.PDCC)
	}
	if n.Unk != "" {
		b, err := hex.DecodeString(n.Unk)
		if err != nil {
			panic(err)
		}
		p.ProtoReflect().SetUnknown(b)
	}
	return p
}

func mkPat(x *Pat) *pn.NumberFormat {
	f := &pn.NumberFormat{Pattern: proto.String(x.Pattern), Format: proto.String(x.Format), LeadingDigitsPattern: append([]string(nil), x.Leading...)}
	if x.NPFR != nil {
		f.NationalPrefixFormattingRule = proto.String(*x.NPFR)
	}
	if x.DCC != nil {
		f.DomesticCarrierCodeFormattingRule = proto.String(*x.DCC)
	}
	if x.Opt != nil {
		f.NationalPrefixOptionalWhenFormatting = proto.Bool(*x.Opt)
	}
	return f
}

// Ctx is what one task needs to execute operations.
type Ctx struct {
	sharedN []*pn.PhoneNumber
	sharedP [][]*pn.NumberFormat

	scribbleRet bool // overwrite every returned reference value
	scribbleArg bool // overwrite every private argument after the call
	checkArg    bool // verify arguments are unchanged after the call
	recycle     bool // hand over the same argument objects again, with new content
	rnd         func(int) int

	recN  []*pn.PhoneNumber
	recF  []*pn.NumberFormat
	recNF []*pn.PhoneNumber  // the field objects of recN
	recFF []*pn.NumberFormat // and of recF
	recP  []*pn.NumberFormat

	nums   []*pn.PhoneNumber // private and shared number arguments of the current call
	before []*pn.PhoneNumber
	pats   [][]*pn.NumberFormat
	patsB  [][]*pn.NumberFormat
	pshare []bool
	nshare []bool
	argMod string
	cur    *Op // the call under way, if it may not change its arguments

	held   []heldValue // returned values looked at again later
	heldAt int
	faded  string // how one of them changed
}

// heldValue is something the library returned, how to look at it, and what was seen.
type heldValue struct {
	look func() string
	saw  string
}

// hold keeps a returned value to look at it again when the task has made more calls.
func (c *Ctx) hold(look func() string) {
	const most = 48
	v := heldValue{look, strings.Clone(look())}
	if len(c.held) < most {
		c.held = append(c.held, v)
		return
	}
	c.heldAt = (c.heldAt + 1) % most
	c.lookHeld(c.held[c.heldAt])
	c.held[c.heldAt] = v
}

func (c *Ctx) lookHeld(v heldValue) {
	if got := v.look(); got != v.saw && c.faded == "" {
		c.faded = fmt.Sprintf("a value returned earlier was %s and became %s", v.saw, got)
	}
}

func (c *Ctx) lookAllHeld() {
	for _, v := range c.held {
		c.lookHeld(v)
	}
}

func (c *Ctx) str(s string) string {
	if s != "" {
		c.hold(func() string { return s })
	}
	return s
}

func (c *Ctx) match(m *pn.PhoneNumberMatch) string {
	if c.scribbleRet {
		s := matchStr(m)
		c.str(m.RawString())
		c.scribbleNum(m.Number())
		return s
	}
	c.hold(func() string { return matchStr(m) })
	return matchStr(m)
}

// lookArgs compares the arguments of a call that is under way with what they were.
func (c *Ctx) lookArgs() {
	if c.cur == nil || c.argMod != "" {
		return
	}
	for i, p := range c.nums {
		if p != nil && i < len(c.before) && !sameNum(p, c.before[i]) {
			c.argMod = fmt.Sprintf("%s changed its number argument during the call: %s became %s", c.cur.F, numStr(c.before[i]), numStr(p))
		}
	}
	for i, fs := range c.pats {
		if i >= len(c.patsB) {
			break
		}
		for j, f := range fs {
			if j >= len(c.patsB[i]) || !sameRule(f, c.patsB[i][j]) {
				c.argMod = fmt.Sprintf("%s changed a formatting rule during the call: %v became %v", c.cur.F, c.patsB[i], fs)
			}
		}
	}
}

func eq[T comparable](a, b *T) bool { return a == b || a != nil && b != nil && *a == *b }

func sameNum(a, b *pn.PhoneNumber) bool {
	return eq(a.CountryCode, b.CountryCode) && eq(a.NationalNumber, b.NationalNumber) && eq(a.Extension, b.Extension) && eq(a.ItalianLeadingZero, b.ItalianLeadingZero) &&
		eq(a.NumberOfLeadingZeros, b.NumberOfLeadingZeros) && eq(a.RawInput, b.RawInput) && eq(a.CountryCodeSource, b.CountryCodeSource) && eq(a.PreferredDomesticCarrierCode, b.PreferredDomesticCarrierCode)
}

func sameRule(a, b *pn.NumberFormat) bool {
	return a != nil && eq(a.Pattern, b.Pattern) && eq(a.Format, b.Format) && eq(a.NationalPrefixFormattingRule, b.NationalPrefixFormattingRule) &&
		eq(a.NationalPrefixOptionalWhenFormatting, b.NationalPrefixOptionalWhenFormatting) && eq(a.DomesticCarrierCodeFormattingRule, b.DomesticCarrierCodeFormattingRule) && slices.Equal(a.LeadingDigitsPattern, b.LeadingDigitsPattern)
}

// refill writes the content of p into q through the field objects in store, so that
// not only the number but its fields are the objects of the call before.
func refill(q, store, p *pn.PhoneNumber) {
	proto.Reset(q)
	if len(p.ProtoReflect().GetUnknown()) > 0 {
		proto.Merge(q, p)
		return
	}
	q.CountryCode = put(&store.CountryCode, p.CountryCode)
	q.NationalNumber = put(&store.NationalNumber, p.NationalNumber)
	q.Extension = put(&store.Extension, p.Extension)
	q.ItalianLeadingZero = put(&store.ItalianLeadingZero, p.ItalianLeadingZero)
	q.NumberOfLeadingZeros = put(&store.NumberOfLeadingZeros, p.NumberOfLeadingZeros)
	q.RawInput = put(&store.RawInput, p.RawInput)
	q.CountryCodeSource = put(&store.CountryCodeSource, p.CountryCodeSource)
	q.PreferredDomesticCarrierCode = put(&store.PreferredDomesticCarrierCode, p.PreferredDomesticCarrierCode)
}

func refillRule(q, store, p *pn.NumberFormat) {
	proto.Reset(q)
	q.Pattern = put(&store.Pattern, p.Pattern)
	q.Format = put(&store.Format, p.Format)
	q.NationalPrefixFormattingRule = put(&store.NationalPrefixFormattingRule, p.NationalPrefixFormattingRule)
	q.NationalPrefixOptionalWhenFormatting = put(&store.NationalPrefixOptionalWhenFormatting, p.NationalPrefixOptionalWhenFormatting)
	q.DomesticCarrierCodeFormattingRule = put(&store.DomesticCarrierCodeFormattingRule, p.DomesticCarrierCodeFormattingRule)
	if p.LeadingDigitsPattern != nil {
		store.LeadingDigitsPattern = append(store.LeadingDigitsPattern[:0], p.LeadingDigitsPattern...)
		q.LeadingDigitsPattern = store.LeadingDigitsPattern
	}
}

// put stores what v points to in the object of the field, made at first use.
func put[T any](field **T, v *T) *T {
	if v == nil {
		return nil
	}
	if *field == nil {
		*field = new(T)
	}
	**field = *v
	return *field
}

func (c *Ctx) num(o *Op, i int) *pn.PhoneNumber {
	var p *pn.PhoneNumber
	sh := false
	if i < len(o.Sh) && o.Sh[i] >= 0 && o.Sh[i] < len(c.sharedN) {
		p = c.sharedN[o.Sh[i]]
		sh = true
	} else if i < len(o.N) {
		p = mkNum(o.N[i])
		if c.recycle && p != nil {
			for len(c.recN) <= i {
				c.recN = append(c.recN, &pn.PhoneNumber{})
			}
			q := c.recN[i]
			if c.rnd != nil && c.rnd(3) == 0 {
				proto.Reset(q)
				proto.Merge(q, p)
			} else {
				for len(c.recNF) <= i {
					c.recNF = append(c.recNF, &pn.PhoneNumber{})
				}
				refill(q, c.recNF[i], p)
			}
			p = q
		}
	}
	if c.checkArg || c.scribbleArg {
		c.nums = append(c.nums, p)
		c.nshare = append(c.nshare, sh)
		if p != nil {
			c.before = append(c.before, proto.Clone(p).(*pn.PhoneNumber))
		} else {
			c.before = append(c.before, nil)
		}
	}
	return p
}

func (c *Ctx) rules(o *Op) []*pn.NumberFormat {
	var fs []*pn.NumberFormat
	sh := false
	if o.ShP != nil && *o.ShP >= 0 && *o.ShP < len(c.sharedP) {
		fs = c.sharedP[*o.ShP]
		sh = true
	} else {
		if c.recycle && cap(c.recP) == 0 {
			c.recP = make([]*pn.NumberFormat, 0, 16)
		}
		if c.recycle {
			fs = c.recP
		}
		for i, p := range o.P {
			f := mkPat(p)
			if c.recycle {
				if i == len(c.recF) {
					c.recF = append(c.recF, &pn.NumberFormat{})
				}
				for len(c.recFF) <= i {
					c.recFF = append(c.recFF, &pn.NumberFormat{})
				}
				refillRule(c.recF[i], c.recFF[i], f)
				f = c.recF[i]
			}
			fs = append(fs, f)
		}
	}
	if c.checkArg || c.scribbleArg {
		c.pats = append(c.pats, fs)
		c.pshare = append(c.pshare, sh)
		var cl []*pn.NumberFormat
		for _, f := range fs {
			cl = append(cl, proto.Clone(f).(*pn.NumberFormat))
		}
		c.patsB = append(c.patsB, cl)
	}
	return fs
}

func numStr(p *pn.PhoneNumber) string {
	if p == nil {
		return "nil"
	}
	var b strings.Builder
	opt := func(name string, set bool, v any) {
		if set {
			fmt.Fprintf(&b, " %s=%v", name, v)
		}
	}
	b.WriteString("{")
	opt("cc", p.CountryCode != nil, p.GetCountryCode())
	opt("nn", p.NationalNumber != nil, p.GetNationalNumber())
	opt("ext", p.Extension != nil, fmt.Sprintf("%q", p.GetExtension()))
	opt("ilz", p.ItalianLeadingZero != nil, p.GetItalianLeadingZero())
	opt("nlz", p.NumberOfLeadingZeros != nil, p.GetNumberOfLeadingZeros())
	opt("raw", p.RawInput != nil, fmt.Sprintf("%q", p.GetRawInput()))
	opt("src", p.CountryCodeSource != nil, int(p.GetCountryCodeSource()))
	opt("pdcc", p.PreferredDomesticCarrierCode != nil, fmt.Sprintf("%q", p.GetPreferredDomesticCarrierCode()))
	u := p.ProtoReflect().GetUnknown()
	opt("unk", len(u) > 0, fmt.Sprintf("%x", u))
	b.WriteString(" }")
	return b.String()
}

func patStr(f *pn.NumberFormat) string {
	return fmt.Sprint(f.GetPattern(), f.GetFormat(), f.GetLeadingDigitsPattern(), f.NationalPrefixFormattingRule != nil, f.GetNationalPrefixFormattingRule(),
		f.DomesticCarrierCodeFormattingRule != nil, f.GetDomesticCarrierCodeFormattingRule(), f.NationalPrefixOptionalWhenFormatting != nil, f.GetNationalPrefixOptionalWhenFormatting())
}

// sep separates rendered matches.
const sep = "\x1e"

func digest(m proto.Message) uint64 {
	b, err := proto.MarshalOptions{Deterministic: true}.Marshal(m)
	if err != nil {
		return 0
	}
	return hashStr(string(b))
}

func errStr(err error) string {
	if err == nil {
		return "ok"
	}
	return "err:" + err.Error()
}

func matchStr(m *pn.PhoneNumberMatch) string {
	return fmt.Sprintf("[%d,%d)%q%s", m.Start(), m.End(), m.RawString(), numStr(m.Number()))
}

func intSet(m map[int]bool) string {
	ks := make([]int, 0, len(m))
	for k, v := range m {
		if v {
			ks = append(ks, k)
		} else {
			ks = append(ks, -k)
		}
	}
	sort.Ints(ks)
	return fmt.Sprint(len(m), ks)
}

func strSet(m map[string]bool) string {
	ks := make([]string, 0, len(m))
	for k, v := range m {
		if !v {
			k = "!" + k
		}
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return fmt.Sprint(len(m), ks)
}

func typeSet(m map[pn.PhoneNumberType]bool) string {
	if m == nil {
		return "nil"
	}
	x := map[int]bool{}
	for k, v := range m {
		x[int(k)+1] = v
	}
	return intSet(x)
}

// scribblers -----------------------------------------------------------------

func (c *Ctx) scribbleNum(p *pn.PhoneNumber) {
	if p == nil {
		return
	}
	if p.CountryCode != nil {
		*p.CountryCode = 999
	}
	if p.NationalNumber != nil {
		*p.NationalNumber = 7
	}
	if p.Extension != nil {
		*p.Extension = "zz"
	}
	if p.RawInput != nil {
		*p.RawInput = "scribbled"
	}
	if p.PreferredDomesticCarrierCode != nil {
		*p.PreferredDomesticCarrierCode = "zz"
	}
	if p.ItalianLeadingZero != nil {
		*p.ItalianLeadingZero = !*p.ItalianLeadingZero
	}
	if p.NumberOfLeadingZeros != nil {
		*p.NumberOfLeadingZeros = 5
	}
	p.CountryCode = proto.Int32(998)
	p.NationalNumber = proto.Uint64(3)
	p.Extension = proto.String("99")
	p.RawInput = proto.String("xx")
	p.ItalianLeadingZero = proto.Bool(true)
	p.NumberOfLeadingZeros = proto.Int32(9)
}

func (c *Ctx) retNum(p *pn.PhoneNumber) string {
	s := numStr(p)
	if c.scribbleRet {
		c.scribbleNum(p)
	} else if p != nil {
		c.hold(func() string { return numStr(p) })
	}
	return s
}

func (c *Ctx) retStrs(ss []string) string {
	s := fmt.Sprintf("%q", ss)
	if c.scribbleRet {
		// write through the whole capacity: append into spare room, then overwrite
		full := ss[:cap(ss)]
		for i := range full {
			full[i] = "Scribble/Zone"
		}
		_ = append(ss[:0], "S1", "S2")
	} else if len(ss) > 0 {
		c.hold(func() string { return fmt.Sprintf("%q", ss) })
	}
	return s
}

func (c *Ctx) retIntSet(m map[int]bool) string {
	s := intSet(m)
	if c.scribbleRet && m != nil {
		for k := range m {
			if k%2 == 0 {
				delete(m, k)
			} else {
				m[k] = false
			}
		}
		for k := 1; k < 1000; k += 3 {
			m[k] = true
		}
	} else if m != nil {
		c.hold(func() string { return intSet(m) })
	}
	return s
}

func (c *Ctx) retStrSet(m map[string]bool) string {
	s := strSet(m)
	if c.scribbleRet && m != nil {
		i := 0
		for k := range m {
			if len(k) > 1 && (k[0]+k[1])%2 == 0 {
				delete(m, k)
			} else {
				m[k] = false
			}
			i++
		}
		m["ZZ"] = true
		m["001"] = true
		m["xx"] = true
	} else if m != nil {
		c.hold(func() string { return strSet(m) })
	}
	return s
}

func (c *Ctx) retTypes(m map[pn.PhoneNumberType]bool) string {
	s := typeSet(m)
	if c.scribbleRet && m != nil {
		for k := range m {
			delete(m, k)
		}
		m[pn.VOICEMAIL] = true
		m[pn.PAGER] = true
	} else if m != nil {
		c.hold(func() string { return typeSet(m) })
	}
	return s
}

// after checks and scribbles over the arguments of the finished call.
func (c *Ctx) after(o *Op, mutates bool) {
	if !c.checkArg && !c.scribbleArg {
		return
	}
	for i, p := range c.nums {
		if p == nil {
			continue
		}
		if c.checkArg && !mutates {
			if a, b := numStr(p), numStr(c.before[i]); a != b && c.argMod == "" {
				c.argMod = fmt.Sprintf("%s changed its number argument: %s became %s", o.F, b, a)
			}
		}
		if c.scribbleArg && !c.nshare[i] {
			c.scribbleNum(p)
		}
	}
	for i, fs := range c.pats {
		for j, f := range fs {
			if c.checkArg && (j >= len(c.patsB[i]) || !proto.Equal(f, c.patsB[i][j])) && c.argMod == "" {
				c.argMod = fmt.Sprintf("%s changed a formatting rule passed to it: %v became %v", o.F, c.patsB[i][j], f)
			}
			if c.scribbleArg && !c.pshare[i] {
				if f.Pattern != nil {
					*f.Pattern = "(9)"
				}
				if f.Format != nil {
					*f.Format = "scribble$1"
				}
				if f.NationalPrefixFormattingRule != nil {
					*f.NationalPrefixFormattingRule = "ZZ$1"
				}
				if f.DomesticCarrierCodeFormattingRule != nil {
					*f.DomesticCarrierCodeFormattingRule = "ZZ$1"
				}
				for k := range f.LeadingDigitsPattern {
					f.LeadingDigitsPattern[k] = "[^0-9]"
				}
				f.Format = proto.String("Q$1")
			}
		}
		if c.scribbleArg && !c.pshare[i] {
			for j := range fs {
				fs[j] = &pn.NumberFormat{Pattern: proto.String("(.)"), Format: proto.String("bad$1")}
			}
		}
	}
	c.nums, c.before, c.pats, c.patsB, c.nshare, c.pshare = nil, nil, nil, nil, nil, nil
}

// Exec performs the call and renders its outcome.
func (c *Ctx) Exec(o *Op) (res string) {
	mut := o.F == "TruncateTooLongNumber"
	defer func() {
		if r := recover(); r != nil {
			res = fmt.Sprintf("panic:%v", r)
		}
		c.cur = nil
		c.after(o, mut)
	}()
	if !mut {
		c.cur = o
	}
	return c.str(c.exec(o))
}

func (c *Ctx) exec(o *Op) string {
	s := func(i int) string {
		if i < len(o.A) {
			return o.A[i]
		}
		return ""
	}
	n := func(i int) int {
		if i < len(o.I) {
			return o.I[i]
		}
		return 0
	}
	num := func(i int) *pn.PhoneNumber { return c.num(o, i) }
	b := func(v bool) string { return fmt.Sprint(v) }
	switch o.F {
	case "Parse":
		p, err := pn.Parse(s(0), s(1))
		return c.retNum(p) + errStr(err)
	case "ParseAndKeepRawInput":
		p, err := pn.ParseAndKeepRawInput(s(0), s(1))
		return c.retNum(p) + errStr(err)
	case "ParseToNumber":
		p := &pn.PhoneNumber{}
		err := pn.ParseToNumber(s(0), s(1), p)
		if err != nil {
			return errStr(err)
		}
		return c.retNum(p)
	case "ParseAndKeepRawInputToNumber":
		p := &pn.PhoneNumber{}
		err := pn.ParseAndKeepRawInputToNumber(s(0), s(1), p)
		if err != nil {
			return errStr(err)
		}
		return c.retNum(p)
	case "Format":
		return pn.Format(num(0), pn.PhoneNumberFormat(n(0)))
	case "FormatByPattern":
		return pn.FormatByPattern(num(0), pn.PhoneNumberFormat(n(0)), c.rules(o))
	case "FormatInOriginalFormat":
		return pn.FormatInOriginalFormat(num(0), s(0))
	case "FormatNationalNumberWithCarrierCode":
		return pn.FormatNationalNumberWithCarrierCode(num(0), s(0))
	case "FormatNationalNumberWithPreferredCarrierCode":
		return pn.FormatNationalNumberWithPreferredCarrierCode(num(0), s(0))
	case "FormatNumberForMobileDialing":
		return pn.FormatNumberForMobileDialing(num(0), s(0), n(0) != 0)
	case "FormatOutOfCountryCallingNumber":
		return pn.FormatOutOfCountryCallingNumber(num(0), s(0))
	case "FormatOutOfCountryKeepingAlphaChars":
		return pn.FormatOutOfCountryKeepingAlphaChars(num(0), s(0))
	case "CanBeInternationallyDialled":
		return b(pn.CanBeInternationallyDialled(num(0)))
	case "ConnectsToEmergencyNumber":
		return b(pn.ConnectsToEmergencyNumber(s(0), s(1)))
	case "IsEmergencyNumber":
		return b(pn.IsEmergencyNumber(s(0), s(1)))
	case "ConvertAlphaCharactersInNumber":
		return pn.ConvertAlphaCharactersInNumber(s(0))
	case "NormalizeDiallableCharsOnly":
		return pn.NormalizeDiallableCharsOnly(s(0))
	case "NormalizeDigitsOnly":
		return pn.NormalizeDigitsOnly(s(0))
	case "IsAlphaNumber":
		return b(pn.IsAlphaNumber(s(0)))
	case "GetCountryCodeForRegion":
		return fmt.Sprint(pn.GetCountryCodeForRegion(s(0)))
	case "GetCountryMobileToken":
		return pn.GetCountryMobileToken(n(0))
	case "GetLengthOfGeographicalAreaCode":
		return fmt.Sprint(pn.GetLengthOfGeographicalAreaCode(num(0)))
	case "GetLengthOfNationalDestinationCode":
		return fmt.Sprint(pn.GetLengthOfNationalDestinationCode(num(0)))
	case "GetNationalSignificantNumber":
		return pn.GetNationalSignificantNumber(num(0))
	case "GetNddPrefixForRegion":
		return pn.GetNddPrefixForRegion(s(0), n(0) != 0)
	case "GetRegionCodeForCountryCode":
		return pn.GetRegionCodeForCountryCode(n(0))
	case "GetRegionCodeForNumber":
		return pn.GetRegionCodeForNumber(num(0))
	case "GetRegionCodesForCountryCode":
		return c.retStrs(pn.GetRegionCodesForCountryCode(n(0)))
	case "GetSupportedCallingCodes":
		return c.retIntSet(pn.GetSupportedCallingCodes())
	case "GetSupportedGlobalNetworkCallingCodes":
		return c.retIntSet(pn.GetSupportedGlobalNetworkCallingCodes())
	case "GetSupportedRegions":
		return c.retStrSet(pn.GetSupportedRegions())
	case "GetSupportedTypesForNonGeoEntity":
		return c.retTypes(pn.GetSupportedTypesForNonGeoEntity(n(0)))
	case "GetSupportedTypesForRegion":
		return c.retTypes(pn.GetSupportedTypesForRegion(s(0)))
	case "IsCarrierSpecific":
		return b(pn.IsCarrierSpecific(num(0)))
	case "IsCarrierSpecificForRegion":
		return b(pn.IsCarrierSpecificForRegion(num(0), s(0)))
	case "IsMobileNumberPortableRegion":
		return b(pn.IsMobileNumberPortableRegion(s(0)))
	case "IsNANPACountry":
		return b(pn.IsNANPACountry(s(0)))
	case "IsNumberGeographical":
		return b(pn.IsNumberGeographical(num(0)))
	case "IsNumberGeographicalForType":
		return b(pn.IsNumberGeographicalForType(pn.PhoneNumberType(n(0)), n(1)))
	case "IsPossibleNumber":
		return b(pn.IsPossibleNumber(num(0)))
	case "IsPossibleNumberForType":
		return b(pn.IsPossibleNumberForType(num(0), pn.PhoneNumberType(n(0))))
	case "IsPossibleNumberFromRegion":
		return b(pn.IsPossibleNumberFromRegion(s(0), s(1)))
	case "IsPossibleNumberForTypeWithReason":
		return fmt.Sprint(int(pn.IsPossibleNumberForTypeWithReason(num(0), pn.PhoneNumberType(n(0)))))
	case "IsPossibleNumberWithReason":
		return fmt.Sprint(int(pn.IsPossibleNumberWithReason(num(0))))
	case "IsPossibleShortNumber":
		return b(pn.IsPossibleShortNumber(num(0)))
	case "IsPossibleShortNumberForRegion":
		return b(pn.IsPossibleShortNumberForRegion(num(0), s(0)))
	case "IsSmsServiceForRegion":
		return b(pn.IsSmsServiceForRegion(num(0), s(0)))
	case "IsValidNumber":
		return b(pn.IsValidNumber(num(0)))
	case "IsValidNumberForRegion":
		return b(pn.IsValidNumberForRegion(num(0), s(0)))
	case "IsValidShortNumber":
		return b(pn.IsValidShortNumber(num(0)))
	case "IsValidShortNumberForRegion":
		return b(pn.IsValidShortNumberForRegion(num(0), s(0)))
	case "GetExpectedCost":
		return fmt.Sprint(int(pn.GetExpectedCost(num(0))))
	case "GetExpectedCostForRegion":
		return fmt.Sprint(int(pn.GetExpectedCostForRegion(num(0), s(0))))
	case "TruncateTooLongNumber":
		p := num(0)
		ok := pn.TruncateTooLongNumber(p)
		after := numStr(p) // the argument, not a returned value
		if c.scribbleRet {
			c.scribbleNum(p)
		}
		return b(ok) + after
	case "GetNumberType":
		return fmt.Sprint(int(pn.GetNumberType(num(0))))
	case "IsNumberMatch":
		return fmt.Sprint(int(pn.IsNumberMatch(s(0), s(1))))
	case "IsNumberMatchWithNumbers":
		return fmt.Sprint(int(pn.IsNumberMatchWithNumbers(num(0), num(1))))
	case "IsNumberMatchWithOneNumber":
		return fmt.Sprint(int(pn.IsNumberMatchWithOneNumber(num(0), s(0))))
	case "GetExampleNumber":
		return c.retNum(pn.GetExampleNumber(s(0)))
	case "GetExampleNumberForNonGeoEntity":
		return c.retNum(pn.GetExampleNumberForNonGeoEntity(n(0)))
	case "GetExampleNumberForTypeInRegion":
		return c.retNum(pn.GetExampleNumberForTypeInRegion(s(0), pn.PhoneNumberType(n(0))))
	case "GetInvalidExampleNumber":
		return c.retNum(pn.GetInvalidExampleNumber(s(0)))
	case "GetExampleNumberForType":
		return c.anyExample(pn.PhoneNumberType(n(0)))
	case "Verify":
		return b(pn.Leniency(n(0)).Verify(num(0), s(0)))
	case "FindNumbers":
		var out []string
		for m := range pn.FindNumbers(s(0), s(1)) {
			out = append(out, c.match(m))
		}
		return strings.Join(out, sep)
	case "FindNumbersWithLeniency":
		var out []string
		for m := range pn.FindNumbersWithLeniency(s(0), s(1), pn.Leniency(n(0)), n(1)) {
			out = append(out, c.match(m))
		}
		return strings.Join(out, sep)
	case "AYTF":
		// A[0] region, A[1] keys; '~' before a key remembers its position, '!' clears
		f := pn.GetAsYouTypeFormatter(s(0))
		return strings.Join(c.typeKeys(f, s(1)), "|")
	case "carrier.GetNameForValidNumber":
		v, err := carrier.GetNameForValidNumber(num(0), s(0))
		return c.str(v) + "|" + errStr(err)
	case "carrier.GetNameForNumber":
		v, err := carrier.GetNameForNumber(num(0), s(0))
		return c.str(v) + "|" + errStr(err)
	case "carrier.GetSafeDisplayName":
		v, err := carrier.GetSafeDisplayName(num(0), s(0))
		return c.str(v) + "|" + errStr(err)
	case "geocoding.GetDescriptionForValidNumber":
		v, err := geocoding.GetDescriptionForValidNumber(num(0), s(0))
		return c.str(v) + "|" + errStr(err)
	case "geocoding.GetDescriptionForNumber":
		v, err := geocoding.GetDescriptionForNumber(num(0), s(0))
		return c.str(v) + "|" + errStr(err)
	case "geocoding.GetDescriptionForValidNumberForUserRegion":
		v, err := geocoding.GetDescriptionForValidNumberForUserRegion(num(0), s(0), s(1))
		return c.str(v) + "|" + errStr(err)
	case "geocoding.GetDescriptionForNumberForUserRegion":
		v, err := geocoding.GetDescriptionForNumberForUserRegion(num(0), s(0), s(1))
		return c.str(v) + "|" + errStr(err)
	case "timezone.GetTimeZonesForNumber":
		v, err := timezone.GetTimeZonesForNumber(num(0))
		return c.retStrs(v) + "|" + errStr(err)
	case "timezone.GetTimeZonesForGeographicalNumber":
		v, err := timezone.GetTimeZonesForGeographicalNumber(num(0))
		return c.retStrs(v) + "|" + errStr(err)
	case "metadata.IsNANPARegion":
		return b(metadata.IsNANPARegion(s(0)))
	case "Collections":
		m, err := pn.MetadataCollection()
		x, err2 := pn.ShortNumberMetadataCollection()
		return fmt.Sprintf("%d %016x %s; %d %016x %s", len(m.GetMetadata()), digest(m), errStr(err), len(x.GetMetadata()), digest(x), errStr(err2))
	}
	return "unknown op " + o.F
}

// anyExample checks the one answer that may vary: presence, and membership among the
// examples of the asked type.
func (c *Ctx) anyExample(t pn.PhoneNumberType) string {
	p := pn.GetExampleNumberForType(t)
	if p == nil {
		return "none"
	}
	want := numStr(p)
	if c.scribbleRet {
		c.scribbleNum(p)
	}
	for _, r := range append([]string{"QQ"}, allRegions...) {
		if q := pn.GetExampleNumberForTypeInRegion(r, t); q != nil && numStr(q) == want {
			return "example"
		}
	}
	for _, cc := range nonGeoCodes {
		if q := pn.GetExampleNumberForNonGeoEntity(cc); q != nil && numStr(q) == want {
			return "example"
		}
	}
	return "not an example: " + want
}

var (
	allRegions  []string
	nonGeoCodes []int
)

// typeKeys feeds keys to a formatter and renders everything observable.
func (c *Ctx) typeKeys(f *pn.AsYouTypeFormatter, keys string) []string {
	var out []string
	rem := false
	for _, k := range keys {
		switch {
		case k == '!':
			f.Clear()
			out = append(out, fmt.Sprintf("cleared@%d", f.GetRememberedPosition()))
		case k == '~':
			rem = true
			continue
		case rem:
			out = append(out, fmt.Sprintf("%s@%d", c.str(f.InputDigitAndRememberPosition(k)), f.GetRememberedPosition()))
		default:
			out = append(out, fmt.Sprintf("%s@%d", c.str(f.InputDigit(k)), f.GetRememberedPosition()))
		}
		rem = false
	}
	return out
}
