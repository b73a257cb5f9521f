// Package zsync replaces package sync in the rewritten sources: same semantics,
// but blocking goes through the simulator's scheduler.
package zsync

import (
	"fmt"
	"hash/maphash"
	"sort"
	"sync"
	"unsafe"

	"github.com/nyaruka/phonenumbers/v2/internal/zzsim"
)

type Locker = sync.Locker

// Mutex is a simulated sync.Mutex.
type Mutex struct{ locked bool }

//go:norace
func (m *Mutex) Lock() {
	zzsim.LockPoint(10)
	for m.locked {
		zzsim.Block(unsafe.Pointer(m), "waiting for a mutex", 11)
	}
	m.locked = true
	zzsim.Took(unsafe.Pointer(m))
	zzsim.RaceAcquire(unsafe.Pointer(m))
}

//go:norace
func (m *Mutex) TryLock() bool {
	zzsim.LockPoint(10)
	if m.locked {
		return false
	}
	m.locked = true
	zzsim.Took(unsafe.Pointer(m))
	zzsim.RaceAcquire(unsafe.Pointer(m))
	return true
}

//go:norace
func (m *Mutex) Unlock() {
	if !m.locked {
		zzsim.Fatal("misuse", "unlock of unlocked mutex")
	}
	zzsim.RaceRelease(unsafe.Pointer(m))
	m.locked = false
	zzsim.Gave(unsafe.Pointer(m))
	zzsim.Wake(unsafe.Pointer(m))
	zzsim.SyncPoint(12)
}

// RWMutex is a simulated sync.RWMutex; a waiting writer holds back new readers.
type RWMutex struct {
	w       bool
	r       int
	waiting int
	rs      byte // address used for reader-release edges
}

//go:norace
func (m *RWMutex) RLock() {
	zzsim.LockPoint(13)
	for m.w || m.waiting > 0 {
		zzsim.Block(unsafe.Pointer(m), "waiting for a read lock", 14)
	}
	m.r++
	zzsim.Took(unsafe.Pointer(m))
	zzsim.RaceAcquire(unsafe.Pointer(m))
}

//go:norace
func (m *RWMutex) TryRLock() bool {
	zzsim.LockPoint(13)
	if m.w || m.waiting > 0 {
		return false
	}
	m.r++
	zzsim.Took(unsafe.Pointer(m))
	zzsim.RaceAcquire(unsafe.Pointer(m))
	return true
}

//go:norace
func (m *RWMutex) RUnlock() {
	if m.r <= 0 {
		zzsim.Fatal("misuse", "RUnlock of unlocked RWMutex")
	}
	zzsim.RaceReleaseMerge(unsafe.Pointer(&m.rs))
	m.r--
	zzsim.Gave(unsafe.Pointer(m))
	zzsim.Wake(unsafe.Pointer(m))
	zzsim.SyncPoint(15)
}

//go:norace
func (m *RWMutex) Lock() {
	zzsim.LockPoint(16)
	m.waiting++
	for m.w || m.r > 0 {
		zzsim.Block(unsafe.Pointer(m), "waiting for a write lock", 17)
	}
	m.waiting--
	m.w = true
	zzsim.Took(unsafe.Pointer(m))
	zzsim.RaceAcquire(unsafe.Pointer(m))
	zzsim.RaceAcquire(unsafe.Pointer(&m.rs))
}

//go:norace
func (m *RWMutex) TryLock() bool {
	zzsim.LockPoint(16)
	if m.w || m.r > 0 {
		return false
	}
	m.w = true
	zzsim.Took(unsafe.Pointer(m))
	zzsim.RaceAcquire(unsafe.Pointer(m))
	zzsim.RaceAcquire(unsafe.Pointer(&m.rs))
	return true
}

//go:norace
func (m *RWMutex) Unlock() {
	if !m.w {
		zzsim.Fatal("misuse", "Unlock of unlocked RWMutex")
	}
	zzsim.RaceRelease(unsafe.Pointer(m))
	m.w = false
	zzsim.Gave(unsafe.Pointer(m))
	zzsim.Wake(unsafe.Pointer(m))
	zzsim.SyncPoint(18)
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// Once is a simulated sync.Once.
type Once struct {
	done bool
	m    Mutex
}

//go:norace
func (o *Once) isDone() bool { return o.done }

//go:norace
func (o *Once) setDone() {
	zzsim.RaceReleaseMerge(unsafe.Pointer(&o.done))
	o.done = true
}

//go:norace
func (o *Once) Do(f func()) {
	zzsim.SyncPoint(19)
	if o.isDone() {
		zzsim.RaceAcquire(unsafe.Pointer(&o.done))
		return
	}
	o.slow(f)
}

func (o *Once) slow(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.isDone() {
		defer o.setDone()
		f()
	}
}

// OnceFunc, OnceValue and OnceValues follow package sync, on a simulated Once.
func OnceFunc(f func()) func() {
	var (
		once  Once
		valid bool
		p     any
	)
	g := func() {
		defer func() {
			p = recover()
			if !valid {
				panic(p)
			}
		}()
		f()
		f = nil
		valid = true
	}
	return func() {
		once.Do(g)
		if !valid {
			panic(p)
		}
	}
}

func OnceValue[T any](f func() T) func() T {
	var (
		once   Once
		valid  bool
		p      any
		result T
	)
	g := func() {
		defer func() {
			p = recover()
			if !valid {
				panic(p)
			}
		}()
		result = f()
		f = nil
		valid = true
	}
	return func() T {
		once.Do(g)
		if !valid {
			panic(p)
		}
		return result
	}
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var (
		once  Once
		valid bool
		p     any
		r1    T1
		r2    T2
	)
	g := func() {
		defer func() {
			p = recover()
			if !valid {
				panic(p)
			}
		}()
		r1, r2 = f()
		f = nil
		valid = true
	}
	return func() (T1, T2) {
		once.Do(g)
		if !valid {
			panic(p)
		}
		return r1, r2
	}
}

// WaitGroup is a simulated sync.WaitGroup.
type WaitGroup struct{ n int }

//go:norace
func (wg *WaitGroup) Add(d int) {
	if d < 0 {
		zzsim.RaceReleaseMerge(unsafe.Pointer(wg))
	}
	wg.n += d
	if wg.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if wg.n == 0 {
		zzsim.Wake(unsafe.Pointer(wg))
	}
	zzsim.SyncPoint(20)
}

func (wg *WaitGroup) Done() { wg.Add(-1) }

func (wg *WaitGroup) Go(f func()) {
	wg.Add(1)
	zzsim.Go(func() {
		defer wg.Done()
		f()
	})
}

//go:norace
func (wg *WaitGroup) Wait() {
	zzsim.SyncPoint(21)
	for wg.n > 0 {
		zzsim.Block(unsafe.Pointer(wg), "waiting for a wait group", 22)
	}
	zzsim.RaceAcquire(unsafe.Pointer(wg))
}

// Cond is a simulated sync.Cond: as with the real one, Signal wakes the task that has
// waited longest, and nothing else does.
type Cond struct {
	L            Locker
	next, served uint64 // tickets drawn, tickets called
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

//go:norace
func (c *Cond) Wait() {
	t := c.next
	c.next++
	c.L.Unlock()
	for c.served <= t {
		zzsim.Block(unsafe.Pointer(c), "waiting for a condition", 23)
	}
	zzsim.RaceAcquire(unsafe.Pointer(c))
	c.L.Lock()
}

//go:norace
func (c *Cond) Signal() {
	zzsim.RaceReleaseMerge(unsafe.Pointer(c))
	if c.served < c.next {
		c.served++
		zzsim.Wake(unsafe.Pointer(c))
	}
	zzsim.SyncPoint(24)
}

//go:norace
func (c *Cond) Broadcast() {
	zzsim.RaceReleaseMerge(unsafe.Pointer(c))
	c.served = c.next
	zzsim.Wake(unsafe.Pointer(c))
	zzsim.SyncPoint(24)
}

// Pool is a simulated sync.Pool: what Get returns (a pooled item or a new one) is
// decided by the seed, and items are handed out most recently used first. As with
// the real one, Put of an item happens before the Get that returns it, and nothing
// else is ordered.
type Pool struct {
	New  func() any
	head *pooled
	n    int
}

type pooled struct {
	x    any
	next *pooled
}

//go:norace
func (p *Pool) take() (any, bool) {
	if p.head != nil && !zzsim.Chance(8) {
		e := p.head
		p.head = e.next
		p.n--
		zzsim.RaceAcquire(unsafe.Pointer(e))
		return e.x, true
	}
	return nil, false
}

func (p *Pool) Get() any {
	zzsim.SyncPoint(25)
	if x, ok := p.take(); ok {
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

//go:norace
func (p *Pool) Put(x any) {
	if x == nil {
		return
	}
	if p.n < 64 {
		e := &pooled{x: x, next: p.head}
		zzsim.RaceReleaseMerge(unsafe.Pointer(e))
		p.head = e
		p.n++
	}
	zzsim.SyncPoint(26)
}

// Map is a deterministic stand-in for sync.Map: a write happens before the reads
// that observe it, and nothing else is ordered.
type Map struct {
	b [64]*entry
}

type entry struct {
	k, v any
	next *entry
}

var hseed = maphash.MakeSeed()

func (m *Map) slot(k any) **entry { return &m.b[maphash.Comparable(hseed, k)%64] }

//go:norace
func (m *Map) find(k any) *entry {
	for e := *m.slot(k); e != nil; e = e.next {
		if e.k == k {
			return e
		}
	}
	return nil
}

//go:norace
func (m *Map) Load(k any) (any, bool) {
	zzsim.SyncPoint(27)
	if e := m.find(k); e != nil {
		zzsim.RaceAcquire(unsafe.Pointer(e))
		return e.v, true
	}
	return nil, false
}

//go:norace
func (m *Map) put(k, v any) {
	e := m.find(k)
	if e == nil {
		s := m.slot(k)
		e = &entry{k: k, next: *s}
		*s = e
	}
	zzsim.RaceReleaseMerge(unsafe.Pointer(e))
	e.v = v
}

func (m *Map) Store(k, v any) {
	zzsim.SyncPoint(28)
	m.put(k, v)
}

//go:norace
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	zzsim.SyncPoint(28)
	if e := m.find(k); e != nil {
		zzsim.RaceAcquire(unsafe.Pointer(e))
		return e.v, true
	}
	m.put(k, v)
	return v, false
}

//go:norace
func (m *Map) LoadAndDelete(k any) (any, bool) {
	zzsim.SyncPoint(28)
	for p := m.slot(k); *p != nil; p = &(*p).next {
		if e := *p; e.k == k {
			*p = e.next
			zzsim.RaceAcquire(unsafe.Pointer(e))
			return e.v, true
		}
	}
	return nil, false
}

func (m *Map) Delete(k any) { m.LoadAndDelete(k) }

//go:norace
func (m *Map) Swap(k, v any) (any, bool) {
	zzsim.SyncPoint(28)
	var old any
	e := m.find(k)
	if e != nil {
		zzsim.RaceAcquire(unsafe.Pointer(e))
		old = e.v
	}
	m.put(k, v)
	return old, e != nil
}

//go:norace
func (m *Map) CompareAndSwap(k, old, new any) bool {
	zzsim.SyncPoint(28)
	if e := m.find(k); e != nil && e.v == old {
		zzsim.RaceAcquire(unsafe.Pointer(e))
		m.put(k, new)
		return true
	}
	return false
}

//go:norace
func (m *Map) CompareAndDelete(k, old any) bool {
	zzsim.SyncPoint(28)
	if e := m.find(k); e != nil && e.v == old {
		m.LoadAndDelete(k)
		return true
	}
	return false
}

//go:norace
func (m *Map) Clear() { m.b = [64]*entry{} }

//go:norace
func (m *Map) keys() []any {
	var out []any
	for _, e := range m.b {
		for ; e != nil; e = e.next {
			out = append(out, e.k)
		}
	}
	return out
}

func (m *Map) Range(f func(k, v any) bool) {
	ks := m.keys()
	sort.Slice(ks, func(i, j int) bool { return fmt.Sprint(ks[i]) < fmt.Sprint(ks[j]) })
	zzsim.Permute(len(ks), func(i, j int) { ks[i], ks[j] = ks[j], ks[i] })
	for _, k := range ks {
		v, ok := m.Load(k)
		if !ok {
			continue
		}
		if !f(k, v) {
			return
		}
	}
}
