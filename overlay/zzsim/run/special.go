package main

import (
	"fmt"
	"iter"
	"math"
	"slices"
	"sort"
	"strings"
	"unicode"

	pn "github.com/nyaruka/phonenumbers/v2"
	"github.com/nyaruka/phonenumbers/v2/internal/zzsim"
	"github.com/nyaruka/phonenumbers/v2/metadata"
	"google.golang.org/protobuf/proto"
)

// ---- parsing into a reused number (C06) --------------------------------------

func reuseParse(st *taskState, slot, keep int, in, region string) string {
	p := st.reuse[slot]
	if p == nil {
		p = &pn.PhoneNumber{}
		st.reuse[slot] = p
	}
	was := numStr(p)
	fresh := &pn.PhoneNumber{}
	var err, ferr error
	if keep != 0 {
		err = pn.ParseAndKeepRawInputToNumber(in, region, p)
		ferr = pn.ParseAndKeepRawInputToNumber(in, region, fresh)
	} else {
		err = pn.ParseToNumber(in, region, p)
		ferr = pn.ParseToNumber(in, region, fresh)
	}
	if (err == nil) != (ferr == nil) {
		return fmt.Sprintf("reused number (holding %s): %s, fresh number: %s", was, errStr(err), errStr(ferr))
	}
	if err != nil {
		st.info["failed parses"]++
		return "same"
	}
	st.info["successful parses"]++
	if a, b := numStr(p), numStr(fresh); a != b || !proto.Equal(p, fresh) {
		return fmt.Sprintf("reused number (holding %s) became %s, fresh number %s", was, a, b)
	}
	return "same"
}

// ---- as-you-type sessions (C07, C09) -------------------------------------------

func asciiDigit(r rune) (rune, bool) {
	if r >= '0' && r <= '9' {
		return r, true
	}
	if !unicode.IsDigit(r) {
		return 0, false
	}
	// decimal digits come in runs of ten starting at a zero
	for _, rg := range unicode.Nd.R16 {
		if r >= rune(rg.Lo) && r <= rune(rg.Hi) {
			return '0' + (r-rune(rg.Lo))%10, true
		}
	}
	for _, rg := range unicode.Nd.R32 {
		if r >= rune(rg.Lo) && r <= rune(rg.Hi) {
			return '0' + (r-rune(rg.Lo))%10, true
		}
	}
	return 0, false
}

func isPlus(r rune) bool { return r == '+' || r == '＋' }

// dial reduces text to what would be dialled: digits and plus signs, in order.
func dial(rs []rune) string {
	var b strings.Builder
	for _, r := range rs {
		if d, ok := asciiDigit(r); ok {
			b.WriteRune(d)
		} else if isPlus(r) {
			b.WriteRune('+')
		}
	}
	return b.String()
}

func checkTyping(st *taskState, region, keys string) string {
	f := pn.GetAsYouTypeFormatter(region)
	var typed []rune
	raw := false // a formatting character has been typed
	rem := false
	for _, k := range keys {
		switch k {
		case '!':
			f.Clear()
			typed, raw = nil, false
			st.info["clears"]++
			continue
		case '~':
			rem = true
			continue
		}
		typed = append(typed, k)
		_, isDigit := asciiDigit(k)
		if !isDigit && !(len(typed) == 1 && isPlus(k)) {
			raw = true
		}
		var out string
		if rem {
			out = f.InputDigitAndRememberPosition(k)
		} else {
			out = f.InputDigit(k)
		}
		st.ctx.str(out)
		rem = false
		st.info["keystrokes"]++
		if raw {
			if out != string(typed) {
				return fmt.Sprintf("typed %q (has formatting), shown %q", string(typed), out)
			}
			continue
		}
		if a, b := dial(typed), dial([]rune(out)); a != b {
			return fmt.Sprintf("typed %q, shown %q", string(typed), out)
		}
		if out != string(typed) {
			st.info["formatted outputs"]++
		}
	}
	return "ok"
}

func checkPosition(st *taskState, region, keys string) string {
	f := pn.GetAsYouTypeFormatter(region)
	var typed []rune
	var out string
	mark := 0 // 1-based index into typed of the remembered key
	rem := false
	for _, k := range keys {
		switch k {
		case '!':
			f.Clear()
			typed, mark = nil, 0
			if p := f.GetRememberedPosition(); p != 0 {
				return fmt.Sprintf("position %d right after clear", p)
			}
			continue
		case '~':
			rem = true
			continue
		}
		typed = append(typed, k)
		if rem {
			out = f.InputDigitAndRememberPosition(k)
			mark = len(typed)
		} else {
			out = f.InputDigit(k)
		}
		rem = false
		if mark == 0 {
			continue
		}
		st.info["positions checked"]++
		shown := []rune(out)
		pos := f.GetRememberedPosition()
		want := -1
		if out == string(typed) {
			want = mark // shown as typed: the position is the index itself
		} else {
			// the mark-th typed character is the j-th dialable one; find the j-th
			// dialable character of the output
			j := len([]rune(dial(typed[:mark])))
			c := 0
			for i, r := range shown {
				if _, ok := asciiDigit(r); ok || isPlus(r) {
					c++
					if c == j {
						want = i + 1
						break
					}
				}
			}
		}
		if pos != want {
			return fmt.Sprintf("typed %q, key %d remembered, shown %q: position %d, want %d", string(typed), mark, out, pos, want)
		}
	}
	return "ok"
}

// ---- text search (C10, C11) ------------------------------------------------------

func wellFormed(text string, prevEnd int, m *pn.PhoneNumberMatch) string {
	if m == nil || m.Number() == nil {
		return "nil match"
	}
	if m.Start() < prevEnd || m.End() > len(text) || m.Start() >= m.End() {
		return fmt.Sprintf("match [%d,%d) after %d in text of %d bytes", m.Start(), m.End(), prevEnd, len(text))
	}
	if text[m.Start():m.End()] != m.RawString() {
		return fmt.Sprintf("match [%d,%d) raw %q, text %q", m.Start(), m.End(), m.RawString(), text[m.Start():m.End()])
	}
	return ""
}

// rangeOp: I[0] search, I[1] stop after that many matches (-1: run to the end),
// I[2] style (0 range, 1 pull, 2 panic in the body at the stop point), I[3] nested
// search or -1, I[4] nested stop. Ref is the full list of matches; the result is
// "ok" or what differs, so Ref for the op itself is "ok" and the list is in A.
func rangeOp(st *taskState, o *Op) (res string) {
	si, stop, style, nest, nstop := o.I[0], o.I[1], o.I[2], o.I[3], o.I[4]
	want := o.A // rendered matches, in order, of search si
	text := spec.Searches[si].Text
	i, end := 0, 0
	step := func(m *pn.PhoneNumberMatch) string {
		if w := wellFormed(text, end, m); w != "" {
			return fmt.Sprintf("match %d: %s", i, w)
		}
		end = m.End()
		got := matchStr(m)
		st.ctx.hold(func() string { return matchStr(m) })
		if i >= len(want) {
			return fmt.Sprintf("extra match %d: %s", i, got)
		}
		if got != want[i] {
			return fmt.Sprintf("match %d: got %s, want %s", i, got, want[i])
		}
		i++
		st.info["matches"]++
		return ""
	}
	body := func() string {
		if nest < 0 {
			return ""
		}
		// re-enter the library from the loop body: another loop, over the same or
		// another search, abandoned part-way, and an ordinary call
		c := 0
		e := 0
		for m := range seqs[nest] {
			if w := wellFormed(spec.Searches[nest].Text, e, m); w != "" {
				return "nested: " + w
			}
			e = m.End()
			pn.Format(m.Number(), pn.INTERNATIONAL)
			c++
			if c >= nstop {
				break
			}
		}
		return ""
	}
	bad := ""
	switch style {
	case 1:
		next, done := iter.Pull(seqs[si])
		for {
			if stop >= 0 && i >= stop {
				break
			}
			m, ok := next()
			if !ok {
				stop = -1
				break
			}
			if bad = step(m); bad != "" {
				break
			}
			if bad = body(); bad != "" {
				break
			}
		}
		done()
	case 2:
		func() {
			defer func() { recover() }()
			for m := range seqs[si] {
				if bad = step(m); bad != "" {
					return
				}
				if bad = body(); bad != "" {
					return
				}
				if stop >= 0 && i >= stop {
					panic("loop body failed")
				}
			}
			stop = -1
		}()
	default:
		full := true
		if stop == 0 {
			full = false
		}
		for m := range seqs[si] {
			if stop == 0 {
				full = false
				break
			}
			if bad = step(m); bad != "" {
				return bad
			}
			if bad = body(); bad != "" {
				return bad
			}
			if stop >= 0 && i >= stop {
				full = false
				break
			}
		}
		if full {
			stop = -1
		}
	}
	if bad != "" {
		return bad
	}
	if stop < 0 && i != len(want) {
		return fmt.Sprintf("loop ended after %d of %d matches", i, len(want))
	}
	st.info["loops"]++
	return "ok"
}

// checkBudget: A text, region; I[0] leniency, I[1:] budgets.
func checkBudget(st *taskState, o *Op) string {
	text, region := o.A[0], o.A[1]
	len0 := pn.Leniency(o.I[0])
	collect := func(tries int) ([]string, string) {
		var out []string
		e := 0
		s0 := zzsim.Steps()
		for m := range pn.FindNumbersWithLeniency(text, region, len0, tries) {
			if w := wellFormed(text, e, m); w != "" {
				return nil, w
			}
			e = m.End()
			out = append(out, matchStr(m))
			if len(out) > len(text)+1 {
				return nil, "more matches than characters"
			}
		}
		st.info["searches"]++
		if d := int(zzsim.Steps() - s0); d > st.info["max steps"] {
			st.info["max steps"] = d
		}
		if d := int(zzsim.Steps()-s0) / max(len(text), 20); len(spec.Tasks) == 1 && d > st.info["max steps per byte"] {
			st.info["max steps per byte"] = d
		}
		if d := zzsim.Steps() - s0; len(spec.Tasks) == 1 && d > 400_000+workPerByte*uint64(len(text)) {
			return nil, fmt.Sprintf("search of %d bytes took %d steps", len(text), d)
		}
		return out, ""
	}
	full, bad := collect(math.MaxInt)
	if bad != "" {
		return bad
	}
	if len0 == pn.VALID {
		var def []string
		for m := range pn.FindNumbers(text, region) {
			def = append(def, matchStr(m))
		}
		if strings.Join(def, sep) != strings.Join(full, sep) {
			return fmt.Sprintf("default search found %q, unlimited budget %q", def, full)
		}
	}
	budgets := append([]int{}, o.I[1:]...)
	sort.Ints(budgets)
	prev := 0
	for _, k := range budgets {
		got, bad := collect(k)
		if bad != "" {
			return fmt.Sprintf("budget %d: %s", k, bad)
		}
		if k <= 0 && len(got) > 0 {
			return fmt.Sprintf("budget %d found %d matches", k, len(got))
		}
		if len(got) > len(full) {
			return fmt.Sprintf("budget %d found %d matches, unlimited %d", k, len(got), len(full))
		}
		for i := range got {
			if got[i] != full[i] {
				return fmt.Sprintf("budget %d: match %d is %s, unlimited budget gives %s", k, i, got[i], full[i])
			}
		}
		if len(got) < prev {
			return fmt.Sprintf("budget %d found %d matches, a smaller budget found %d", k, len(got), prev)
		}
		prev = len(got)
		if k > 16*len(text)+1000 && len(got) < len(full) {
			return fmt.Sprintf("budget %d, more than %d bytes of text can use, found %d matches, unlimited %d", k, len(text), len(got), len(full))
		}
		if len(got) < len(full) {
			st.info["searches cut short"]++
		}
	}
	return "ok"
}

// workPerByte bounds the work of a search, in preemption points per byte of text.
const workPerByte = 3_000

// ---- alternate metadata (C17) ------------------------------------------------------

var containers = map[int]*metadata.Container{}

// altContainer builds alternate metadata number k from the shipped collection: a
// subset of the regions with changed formats, prefixes and lengths. It is a function
// of k and the shipped data only.
func altContainer(k int) (*metadata.Container, error) {
	if c, ok := containers[k]; ok {
		return c, nil
	}
	coll, err := pn.MetadataCollection()
	if err != nil {
		return nil, err
	}
	r := zzsim.NewRNG(uint64(k) * 7919)
	if k == 8 || k == 9 {
		// as many regions and calling codes as the shipped metadata, but others
		nc := &pn.PhoneMetadataCollection{}
		cc := map[int][]string{}
		for i, m := range coll.GetMetadata() {
			if id := m.GetId(); id == "DE" || id == "FR" || id == "001" && i%2 == k-8 {
				x := proto.Clone(m).(*pn.PhoneMetadata)
				switch m.GetId() {
				case "DE":
					x.CountryCode = proto.Int32(int32(990 + k))
				case "FR":
					x.Id = proto.String(map[int]string{8: "QQ", 9: "QX"}[k])
				case "001":
					x.CountryCode = proto.Int32(m.GetCountryCode() + 100*int32(k-7))
				}
				m = x
			}
			nc.Metadata = append(nc.Metadata, m)
			code := int(m.GetCountryCode())
			if m.GetMainCountryForCode() {
				cc[code] = append([]string{m.GetId()}, cc[code]...)
			} else {
				cc[code] = append(cc[code], m.GetId())
			}
		}
		c, err := metadata.NewContainer(nc, cc)
		if err != nil {
			return nil, err
		}
		containers[k] = c
		return c, nil
	}
	if k == 6 || k == 7 {
		// the shipped collection itself under another assignment of calling codes to
		// regions, or with a region of its own added
		cc := map[int][]string{}
		for _, m := range coll.GetMetadata() {
			code := int(m.GetCountryCode())
			if m.GetMainCountryForCode() == (k == 7) {
				cc[code] = append([]string{m.GetId()}, cc[code]...)
			} else {
				cc[code] = append(cc[code], m.GetId())
			}
		}
		nc := coll
		if k == 6 {
			for code := range cc {
				if code%7 == 3 {
					delete(cc, code)
				}
			}
		} else {
			nc = &pn.PhoneMetadataCollection{Metadata: append([]*pn.PhoneMetadata{}, coll.GetMetadata()...)}
			for _, m := range coll.GetMetadata() {
				if m.GetId() == "DE" {
					x := proto.Clone(m).(*pn.PhoneMetadata)
					x.Id, x.CountryCode = proto.String("QQ"), proto.Int32(999)
					nc.Metadata = append(nc.Metadata, x)
					cc[999] = []string{"QQ"}
				}
			}
		}
		c, err := metadata.NewContainer(nc, cc)
		if err != nil {
			return nil, err
		}
		containers[k] = c
		return c, nil
	}
	nc := &pn.PhoneMetadataCollection{}
	cc := map[int][]string{}
	for i, m := range coll.GetMetadata() {
		if k == 4 && r.N(10) != 0 && m.GetId() != "US" && m.GetId() != "GB" && m.GetId() != "001" {
			continue // most regions absent
		}
		if k != 1 && k != 4 && r.N(5) == 0 && m.GetId() != "US" {
			continue // region absent in this metadata
		}
		c := proto.Clone(m).(*pn.PhoneMetadata)
		switch r.N(6) {
		case 0: // other formats
			if len(c.NumberFormat) > 0 {
				for _, f := range c.NumberFormat {
					f.Format = proto.String(strings.NewReplacer(" ", "/", "-", ".").Replace(f.GetFormat()))
				}
			}
		case 1: // other validity: borrow a neighbour's general description
			o := coll.GetMetadata()[(i+7)%len(coll.GetMetadata())]
			c.Mobile = proto.Clone(o.GetMobile()).(*pn.PhoneNumberDesc)
		case 2:
			if c.NationalPrefix != nil {
				c.NationalPrefix = proto.String("7")
				c.NationalPrefixForParsing = proto.String("7")
			}
		case 3:
			c.NumberFormat = nil
			c.IntlNumberFormat = nil
		}
		nc.Metadata = append(nc.Metadata, c)
		code := int(c.GetCountryCode())
		if c.GetMainCountryForCode() {
			cc[code] = append([]string{c.GetId()}, cc[code]...)
		} else {
			cc[code] = append(cc[code], c.GetId())
		}
	}
	if k == 5 { // the secondary regions of each calling code in another order
		for _, ids := range cc {
			if len(ids) > 2 {
				slices.Reverse(ids[1:])
			}
		}
	}
	c, err := metadata.NewContainer(nc, cc)
	if err != nil {
		return nil, err
	}
	containers[k] = c
	return c, nil
}

func useContainer(st *taskState, k int) string {
	c, err := altContainer(k)
	if err != nil {
		return "err:" + err.Error()
	}
	st.stack = append(st.stack, metadata.Use(c))
	return "used"
}

// reloadContainer loads the shipped metadata again (I=0: and drops it, 1: and
// activates it).
func reloadContainer(st *taskState, k int) string {
	c, err := metadata.Load()
	if err != nil {
		return "err:" + err.Error()
	}
	if k == 1 {
		st.stack = append(st.stack, metadata.Use(c))
	}
	return "reloaded"
}
