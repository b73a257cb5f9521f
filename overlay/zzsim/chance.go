package zzsim

import (
	"cmp"
	"fmt"
	"iter"
	"maps"
	"slices"
)

// Env is the simulated environment of a run besides the schedule.
type Env struct {
	MapSeed  uint64 `json:"mapSeed,omitempty"`  // 0: sorted order; else permuted
	RandSeed uint64 `json:"randSeed,omitempty"` // seeds package math/rand and pool behaviour
	Clock    int64  `json:"clock,omitempty"`    // start of simulated time
	TimeJump int64  `json:"timeJump,omitempty"` // clock moves this much at every read
}

var (
	env     Env
	mapRNG  = NewRNG(0)
	randRNG = NewRNG(1)
	// MapRanges and ClockReads count uses of the seams.
	MapRanges, ClockReads, RandReads, EnvReads int
)

// SetEnv installs the environment.
func SetEnv(e Env) {
	env = e
	mapRNG = NewRNG(e.MapSeed)
	randRNG = NewRNG(e.RandSeed + 1)
	if e.Clock != 0 {
		clock = e.Clock
	}
}

// Rand64 is the seeded randomness behind math/rand in the rewritten sources.
//
//go:norace
func Rand64() uint64 { RandReads++; return randRNG.U64() }

// Chance is true once in n times.
//
//go:norace
func Chance(n int) bool { return randRNG.U64()%uint64(n) == 0 }

// ReadClock is the clock as seen by the rewritten sources.
//
//go:norace
func ReadClock() int64 {
	ClockReads++
	clock += 1000 + env.TimeJump
	return clock
}

// EnvDraw is the seeded fact about the process environment called k; 0 means there is
// no simulated environment (package initialisation, solo references).
//
//go:norace
func EnvDraw(k string) uint64 {
	EnvReads++
	if env.RandSeed == 0 {
		return 0
	}
	h := env.RandSeed ^ 0xcbf29ce484222325
	for i := 0; i < len(k); i++ {
		h = (h ^ uint64(k[i])) * 0x100000001b3
	}
	r := RNG{s: h}
	return r.U64()>>1 | 1
}

// less gives keys a canonical order.
func less[K comparable](a, b K) int {
	switch x := any(a).(type) {
	case string:
		return cmp.Compare(x, any(b).(string))
	case int:
		return cmp.Compare(x, any(b).(int))
	case int32:
		return cmp.Compare(x, any(b).(int32))
	case int64:
		return cmp.Compare(x, any(b).(int64))
	case uint16:
		return cmp.Compare(x, any(b).(uint16))
	case uint64:
		return cmp.Compare(x, any(b).(uint64))
	case fmt.Stringer:
		return cmp.Compare(fmt.Sprintf("%v|%+v", x, x), fmt.Sprintf("%v|%+v", b, b))
	}
	return cmp.Compare(fmt.Sprintf("%#v", a), fmt.Sprintf("%#v", b))
}

//go:norace
func noteMapRange() (bool, uint64) {
	MapRanges++
	if env.MapSeed == 0 {
		return false, 0
	}
	return true, mapRNG.U64()
}

func orderedKeys[M ~map[K]V, K comparable, V any](m M) []K {
	keys := make([]K, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	slices.SortFunc(keys, less[K])
	if perm, s := noteMapRange(); perm {
		r := RNG{s: s}
		switch r.N(8) {
		case 0: // reversed
			slices.Reverse(keys)
		default:
			for i := len(keys) - 1; i > 0; i-- {
				j := r.N(i + 1)
				keys[i], keys[j] = keys[j], keys[i]
			}
		}
	}
	return keys
}

// Permute puts n things in an order decided by the simulator.
func Permute(n int, swap func(i, j int)) {
	if perm, s := noteMapRange(); perm {
		r := RNG{s: s}
		for i := n - 1; i > 0; i-- {
			swap(i, r.N(i+1))
		}
	}
}

// MapRange iterates a map in an order decided by the simulator.
func MapRange[M ~map[K]V, K comparable, V any](m M) iter.Seq2[K, V] {
	return func(yield func(K, V) bool) {
		for _, k := range orderedKeys(m) {
			v, ok := m[k]
			if !ok {
				continue
			}
			if !yield(k, v) {
				return
			}
		}
	}
}

// MapKeys is MapRange over keys only.
func MapKeys[M ~map[K]V, K comparable, V any](m M) iter.Seq[K] {
	return func(yield func(K) bool) {
		for _, k := range orderedKeys(m) {
			if _, ok := m[k]; !ok {
				continue
			}
			if !yield(k) {
				return
			}
		}
	}
}

// MapValues is MapRange over values only.
func MapValues[M ~map[K]V, K comparable, V any](m M) iter.Seq[V] {
	return func(yield func(V) bool) {
		for _, k := range orderedKeys(m) {
			v, ok := m[k]
			if !ok {
				continue
			}
			if !yield(v) {
				return
			}
		}
	}
}

// MapCount drives `for range m`.
func MapCount[M ~map[K]V, K comparable, V any](m M) iter.Seq[struct{}] {
	return func(yield func(struct{}) bool) {
		for range MapKeys(m) {
			if !yield(struct{}{}) {
				return
			}
		}
	}
}

var _ = maps.Keys[map[int]int]
