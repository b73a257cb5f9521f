// Package zrand holds the simulated versions of the top-level math/rand functions.
package zrand

import "github.com/nyaruka/phonenumbers/v2/internal/zzsim"

func Int() int             { return int(zzsim.Rand64() >> 1) }
func Int63() int64         { return int64(zzsim.Rand64() >> 1) }
func Int64() int64         { return int64(zzsim.Rand64() >> 1) }
func Int31() int32         { return int32(zzsim.Rand64() >> 33) }
func Int32() int32         { return int32(zzsim.Rand64() >> 33) }
func Uint32() uint32       { return uint32(zzsim.Rand64() >> 32) }
func Uint64() uint64       { return zzsim.Rand64() }
func Intn(n int) int       { return int(zzsim.Rand64() % uint64(n)) }
func IntN(n int) int       { return int(zzsim.Rand64() % uint64(n)) }
func Int63n(n int64) int64 { return int64(zzsim.Rand64() % uint64(n)) }
func Int64N(n int64) int64 { return int64(zzsim.Rand64() % uint64(n)) }
func Int31n(n int32) int32 { return int32(zzsim.Rand64() % uint64(n)) }
func Int32N(n int32) int32 { return int32(zzsim.Rand64() % uint64(n)) }
func Float64() float64     { return float64(zzsim.Rand64()>>11) / (1 << 53) }
func Float32() float32     { return float32(zzsim.Rand64()>>40) / (1 << 24) }
func Seed(int64)           {}
func Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	Shuffle(n, func(i, j int) { p[i], p[j] = p[j], p[i] })
	return p
}
func Shuffle(n int, swap func(i, j int)) {
	for i := n - 1; i > 0; i-- {
		swap(i, int(zzsim.Rand64()%uint64(i+1)))
	}
}
