// Package zmaphash is hash/maphash with seeds drawn from the run's seed.
package zmaphash

import (
	"fmt"

	"github.com/nyaruka/phonenumbers/v2/internal/zzsim"
)

type Seed struct{ s uint64 }

func MakeSeed() Seed { return Seed{zzsim.Rand64() | 1} }

func add(h uint64, b byte) uint64 { return (h ^ uint64(b)) * 0x100000001b3 }

func fin(h uint64) uint64 {
	h ^= h >> 33
	h *= 0xff51afd7ed558ccd
	h ^= h >> 33
	h *= 0xc4ceb9fe1a85ec53
	return h ^ h>>33
}

func String(s Seed, x string) uint64 {
	if s.s == 0 {
		panic("maphash: use of uninitialized Seed")
	}
	h := s.s ^ 0xcbf29ce484222325
	for i := 0; i < len(x); i++ {
		h = add(h, x[i])
	}
	return fin(h)
}

func Bytes(s Seed, x []byte) uint64 { return String(s, string(x)) }

func Comparable[T comparable](s Seed, v T) uint64 { return String(s, fmt.Sprintf("%#v", v)) }

func WriteComparable[T comparable](h *Hash, v T) { h.WriteString(fmt.Sprintf("%#v", v)) }

type Hash struct {
	seed Seed
	buf  []byte
}

func (h *Hash) init() {
	if h.seed.s == 0 {
		h.seed = MakeSeed()
	}
}

func (h *Hash) Write(b []byte) (int, error) {
	h.init()
	h.buf = append(h.buf, b...)
	return len(b), nil
}
func (h *Hash) WriteString(s string) (int, error) {
	h.init()
	h.buf = append(h.buf, s...)
	return len(s), nil
}
func (h *Hash) WriteByte(b byte) error { h.init(); h.buf = append(h.buf, b); return nil }
func (h *Hash) Reset()                 { h.init(); h.buf = h.buf[:0] }
func (h *Hash) Seed() Seed             { h.init(); return h.seed }
func (h *Hash) SetSeed(s Seed)         { h.seed = s; h.buf = h.buf[:0] }
func (h *Hash) Sum64() uint64          { h.init(); return Bytes(h.seed, h.buf) }
func (h *Hash) Size() int              { return 8 }
func (h *Hash) BlockSize() int         { return 128 }
func (h *Hash) Sum(b []byte) []byte {
	x := h.Sum64()
	for i := 0; i < 8; i++ {
		b = append(b, byte(x>>(8*i)))
	}
	return b
}
