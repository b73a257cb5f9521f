package zzsim

import (
	"bytes"
	"compress/gzip"
	"encoding/binary"
	"errors"
	"io"
	"path"
	"slices"
	"strings"
)

// Fault is one planned fault on the shipped data.
type Fault struct {
	Kind  string `json:"kind"`            // readerr, flip, trunc, zero, garbage, cut, empty, pcut, beyond, short, gziperr
	File  string `json:"file"`            // suffix of the data file name, or "*"
	At    int    `json:"at,omitempty"`    // flip/trunc position (modulo length), gziperr byte offset
	Bit   int    `json:"bit,omitempty"`   // flip: bit; garbage: seed
	Count int    `json:"count,omitempty"` // transient faults: how many times it fires (0: for ever)
	Skip  int    `json:"skip,omitempty"`  // transient faults: let this many accesses pass first
	// Arrays: the entries of the table have several values each (kind beyond)
	Arrays bool `json:"arrays,omitempty"`
	After  bool `json:"after,omitempty"` // transient faults: only once the tasks have started
	fired  int
	seen   int
}

var kinds = [...]string{"readerr", "flip", "trunc", "zero", "garbage", "cut", "short", "gziperr", "empty", "pcut", "beyond"}

// Only one simulated task runs at a time, so the fault state needs no lock; the
// functions are not race-instrumented so that they add no ordering of their own.

//go:norace
func note(kind string) {
	for i, k := range kinds {
		if k == kind {
			fired[i]++
		}
	}
}

// ErrInjected is the error the fault layer returns.
var ErrInjected = errors.New("simulated I/O error")

var (
	faults   []*Fault
	shortOn  bool
	shortRNG = NewRNG(7)
	fired    [len(kinds)]int
	faultOff bool
	armed    bool
)

// ArmFaults lets the faults marked After begin.
//
//go:norace
func ArmFaults() { armed = true }

// SetFaults installs the fault plan. It must run before package initialisation of
// the code under test, which is why the plan comes from the environment (see boot.go).
//
//go:norace
func SetFaults(fs []*Fault, seed uint64) {
	faults = fs
	shortRNG = NewRNG(seed + 7)
	shortOn = false
	for _, f := range fs {
		if f.Kind == "short" {
			shortOn = true
		}
	}
}

// HealFaults ends every fault.
//
//go:norace
func HealFaults() {
	faultOff = true
	shortOn = false
}

// FaultsFired reports how often each kind fired.
func FaultsFired() map[string]int {
	m := map[string]int{}
	for i, v := range fired {
		if v > 0 {
			m[kinds[i]] = v
		}
	}
	return m
}

//go:norace
func (f *Fault) match(name string) bool {
	if f.File == "*" {
		return true
	}
	if f.File == path.Base(name) {
		return true
	}
	return strings.HasSuffix(name, f.File)
}

// due counts an access and says whether a transient fault fires on it.
//
//go:norace
func (f *Fault) due() bool {
	if f.After && !armed {
		return false
	}
	f.seen++
	if f.seen <= f.Skip {
		return false
	}
	if f.Count > 0 && f.fired >= f.Count {
		return false
	}
	f.fired++
	return true
}

// ReadFault returns the error to inject for a whole-file read.
//
//go:norace
func ReadFault(name string) error {
	if faultOff {
		return nil
	}
	for _, f := range faults {
		if f.Kind == "readerr" && f.match(name) && f.due() {
			note("readerr")
			return ErrInjected
		}
	}
	return nil
}

// Damage returns data as damaged by the plan (a copy when damaged).
//
//go:norace
func Damage(name string, data []byte) []byte {
	if faultOff {
		return data
	}
	for _, f := range faults {
		if !f.match(name) {
			continue
		}
		switch f.Kind {
		case "flip", "trunc", "zero", "garbage", "cut", "empty", "pcut", "beyond":
		default:
			continue
		}
		if !f.due() {
			continue
		}
		note(f.Kind)
		switch f.Kind {
		case "flip":
			c := append([]byte{}, data...)
			if len(c) > 0 {
				c[f.At%len(c)] ^= 1 << (f.Bit & 7)
			}
			data = c
		case "trunc":
			if len(data) > 0 {
				data = append([]byte{}, data[:f.At%len(data)]...)
			}
		case "cut":
			data = cutPayload(data, f.At, f.Bit)
		case "pcut":
			data = cutMessage(data, f.At)
		case "beyond":
			data = pointBeyond(data, f.At, f.Bit, f.Arrays)
		case "empty":
			data = cutPayload(data, 0, 1)
		case "zero":
			data = []byte{}
		case "garbage":
			c := append([]byte{}, data...)
			r := NewRNG(uint64(f.Bit))
			n := 1 + r.N(64)
			for i := 0; i < n && len(c) > 0; i++ {
				c[(f.At+i)%len(c)] = byte(r.U64())
			}
			data = c
		}
	}
	return data
}

// cutPayload shortens the uncompressed content, sometimes next to where a part of it ends,
// and compresses it again.
func cutPayload(data []byte, at, how int) []byte {
	r, err := gzip.NewReader(bytes.NewReader(data))
	if err != nil {
		return data
	}
	raw, err := io.ReadAll(r)
	if err != nil || len(raw) == 0 {
		return data
	}
	var b bytes.Buffer
	w := gzip.NewWriter(&b)
	at %= len(raw)
	if len(raw) > 16 && how%3 == 0 {
		places := []int{1, 3, 4, 5, len(raw) - 1, len(raw) - 2, len(raw) - 3, len(raw) - 4, len(raw) - 5}
		if size := int(binary.LittleEndian.Uint32(raw)); size >= 0 && size+12 < len(raw) {
			for i := -1; i <= 8; i++ {
				places = append(places, 4+size+i)
			}
		}
		at = places[at%len(places)]
	}
	w.Write(raw[:at])
	w.Close()
	return b.Bytes()
}

// pointBeyond makes a table announce more values or entries than it has, or an entry point
// beyond the values, and compresses it again. arrays: entries have several values.
func pointBeyond(data []byte, at, how int, arrays bool) []byte {
	r, err := gzip.NewReader(bytes.NewReader(data))
	if err != nil {
		return data
	}
	raw, err := io.ReadAll(r)
	if err != nil || len(raw) < 8 {
		return data
	}
	le := binary.LittleEndian
	size := int(le.Uint32(raw))
	if 8+size > len(raw) {
		return data
	}
	count := int(le.Uint32(raw[4+size:]))
	if count == 0 {
		return data
	}
	switch how % 4 {
	case 0: // more values than there is content
		le.PutUint32(raw, uint32(len(raw)-3+at%1000))
	case 1: // more entries
		le.PutUint32(raw[4+size:], uint32(count+1+at%1000))
	default:
		i, left := 8+size, count-at%count
		for k := at % count; ; k-- {
			_, n := binary.Uvarint(raw[i:])
			if n <= 0 {
				return data
			}
			i += n
			m := 1
			if arrays {
				if i >= len(raw) {
					return data
				}
				m = int(raw[i])
				i++
			}
			if i+2*m > len(raw) {
				return data
			}
			if k <= 0 && m > 0 {
				le.PutUint16(raw[i+2*(at/count%m):], 0xffff)
				if left--; how%4 == 2 || left <= 0 {
					break // one entry, or all from there on
				}
			}
			i += 2 * m
		}
	}
	var b bytes.Buffer
	w := gzip.NewWriter(&b)
	w.Write(raw)
	w.Close()
	return b.Bytes()
}

// cutMessage shortens content that is a sequence of length-delimited fields in the
// middle of one of them, and compresses it again. Any other content is left alone: what
// ends between two fields is a whole, shorter collection.
func cutMessage(data []byte, at int) []byte {
	r, err := gzip.NewReader(bytes.NewReader(data))
	if err != nil {
		return data
	}
	raw, err := io.ReadAll(r)
	if err != nil || len(raw) == 0 {
		return data
	}
	at %= len(raw)
	hit := false
	for i := 0; i < len(raw); {
		start := i
		if raw[i] != 0x0a {
			return data
		}
		i++
		n, shift := 0, 0
		for {
			if i >= len(raw) || shift > 28 {
				return data
			}
			c := raw[i]
			i++
			n |= int(c&0x7f) << shift
			shift += 7
			if c < 0x80 {
				break
			}
		}
		i += n
		if i > len(raw) {
			return data
		}
		if at > start && at < i {
			hit = true
		}
	}
	if !hit {
		return data
	}
	var b bytes.Buffer
	w := gzip.NewWriter(&b)
	w.Write(raw[:at])
	w.Close()
	return b.Bytes()
}

// EmbeddedBytes and EmbeddedString are called by the rewritten embed declarations.
func EmbeddedBytes(name string, b []byte) []byte {
	boot()
	if r, on := Replaced(name); on {
		b = r
	}
	return Damage(name, b)
}

func EmbeddedString(name string, s string) string {
	return string(EmbeddedBytes(name, []byte(s)))
}

var replaced map[string][]byte

// Replaced gives the content that stands for a shipped file; on is false when the
// shipped data is in use. A nil content means the file does not exist.
//
//go:norace
func Replaced(name string) (b []byte, on bool) {
	if replaced == nil {
		return nil, false
	}
	return replaced[path.Clean(name)], true
}

// ReplacedIn lists the replacement files of a directory.
func ReplacedIn(dir string) []string {
	var out []string
	for n := range replaced {
		if path.Dir(n) == dir {
			out = append(out, path.Base(n))
		}
	}
	slices.Sort(out)
	return out
}

// ShortReads reports whether reads are being cut short.
//
//go:norace
func ShortReads() bool {
	return shortOn && !faultOff
}

// FaultN draws from the fault generator.
//
//go:norace
func FaultN(n int) int {
	note("short")
	return shortRNG.N(n)
}

// StreamFault is asked by decompressing readers before each read at offset off.
//
//go:norace
func StreamFault(off int) error {
	if faultOff {
		return nil
	}
	for _, f := range faults {
		if f.Kind == "gziperr" && off >= f.At && f.due() {
			note("gziperr")
			return ErrInjected
		}
	}
	return nil
}
