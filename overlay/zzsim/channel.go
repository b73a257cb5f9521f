package zzsim

import (
	"iter"
	"reflect"
	"unsafe"
)

// Channel operations of the rewritten sources go through the scheduler instead of
// blocking the only running thread. Buffered and closed channels are the real ones,
// polled; unbuffered channels rendezvous through the list of waiters kept here.

// A waiter is a send or receive that has not found its counterpart yet. The waiters of
// one select share a turn.
type waiter struct {
	ch   unsafe.Pointer
	send bool
	v    any
	idx  int
	t    *turn
}

type turn struct {
	done bool
	idx  int
	v    any
}

var waiters []*waiter

func chanPtr[C any](ch C) unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&ch)) }

var selKey byte // blocked select statements wait for progress on any channel

// moved wakes those waiting for channel c.
func moved(c unsafe.Pointer) {
	Wake(c)
	Wake(unsafe.Pointer(&selKey))
}

//go:norace
func addWaiter(w *waiter) {
	// not append(), whose copying the race detector sees
	n := make([]*waiter, len(waiters)+1)
	for i, x := range waiters {
		n[i] = x
	}
	n[len(waiters)] = w
	waiters = n
}

//go:norace
func dropTurn(t *turn) {
	k := 0
	for _, x := range waiters {
		if x.t != t {
			k++
		}
	}
	n := make([]*waiter, k)
	k = 0
	for _, x := range waiters {
		if x.t != t {
			n[k] = x
			k++
		}
	}
	waiters = n
}

// match finds the oldest waiter on c in the other direction and ends its wait; v is
// what it receives, if it receives.
//
//go:norace
func match(c unsafe.Pointer, send bool, v any) (*waiter, bool) {
	for _, w := range waiters {
		if w.ch == c && w.send != send && !w.t.done {
			w.t.done = true
			w.t.idx = w.idx
			w.t.v = v
			dropTurn(w.t)
			return w, true
		}
	}
	return nil, false
}

//go:norace
func (t *turn) over() bool { return t.done }

//go:norace
func (t *turn) result() (int, any) { return t.idx, t.v }

//go:norace
func (w *waiter) value() any { return w.v }

// SelCase is one case of a select statement.
type SelCase struct {
	c    unsafe.Pointer
	ch   reflect.Value
	send bool
	v    any
	rv   reflect.Value
	unb  bool
}

// SelRes says which case of a select went ahead.
type SelRes struct {
	I  int
	V  any
	OK bool
}

// SelSend is case ch <- v.
func SelSend[T any](ch chan<- T, v T) SelCase {
	c := SelCase{c: chanPtr(ch), send: true, v: v, unb: ch != nil && cap(ch) == 0}
	if ch != nil {
		c.ch, c.rv = reflect.ValueOf(ch), reflect.ValueOf(&v).Elem()
	}
	return c
}

// SelRecv is case <-ch.
func SelRecv[T any](ch <-chan T) SelCase {
	c := SelCase{c: chanPtr(ch), unb: ch != nil && cap(ch) == 0}
	if ch != nil {
		c.ch = reflect.ValueOf(ch)
	}
	return c
}

// SelVal is the value received by the case that went ahead.
func SelVal[T any](r SelRes) T {
	v, _ := r.V.(T)
	return v
}

// SelVal2 is SelVal and whether the channel was open.
func SelVal2[T any](r SelRes) (T, bool) { return SelVal[T](r), r.OK }

// attempt performs the case if it can go ahead now.
func (k *SelCase) attempt() (SelRes, bool) {
	if k.c == nil {
		return SelRes{}, false
	}
	if k.send {
		if k.ch.TrySend(k.rv) { // panics if closed
			moved(k.c)
			return SelRes{}, true
		}
		if k.unb {
			RaceReleaseMerge(k.c)
			if _, ok := match(k.c, true, k.v); ok {
				RaceAcquire(k.c)
				moved(k.c)
				return SelRes{}, true
			}
		}
		return SelRes{}, false
	}
	if k.unb {
		if w, ok := match(k.c, false, nil); ok {
			RaceAcquire(k.c)
			RaceReleaseMerge(k.c)
			moved(k.c)
			return SelRes{V: w.value(), OK: true}, true
		}
	}
	if v, ok := k.ch.TryRecv(); ok || v.IsValid() {
		moved(k.c)
		r := SelRes{OK: ok}
		if v.CanInterface() {
			r.V = v.Interface()
		}
		return r, true
	}
	return SelRes{}, false
}

// Sel is a select statement.
func Sel(def bool, cases ...SelCase) SelRes {
	SyncPoint(35)
	if !Active() {
		return selInactive(def, cases)
	}
	return sel(def, cases, unsafe.Pointer(&selKey), waitSel)
}

func sel(def bool, cases []SelCase, key unsafe.Pointer, what string) SelRes {
	at := 0
	if len(cases) > 1 {
		at = int(Rand64() % uint64(len(cases)))
	}
	try := func() (SelRes, bool) {
		for i := range cases {
			k := (at + i) % len(cases)
			if r, ok := cases[k].attempt(); ok {
				r.I = k
				return r, true
			}
		}
		return SelRes{I: -1}, false
	}
	for {
		if r, ok := try(); ok || def {
			return r
		}
		t := &turn{}
		for i := range cases {
			if cases[i].unb {
				if cases[i].send {
					RaceReleaseMerge(cases[i].c)
				}
				addWaiter(&waiter{ch: cases[i].c, send: cases[i].send, v: cases[i].v, idx: i, t: t})
			}
		}
		Block(key, what, 31)
		if t.over() {
			i, v := t.result()
			RaceAcquire(cases[i].c)
			return SelRes{I: i, V: v, OK: true}
		}
		dropTurn(t)
	}
}

// Before a run, while packages initialise, goroutines started so far run when somebody
// waits for them.
func selInactive(def bool, cases []SelCase) SelRes {
	for {
		for i := range cases {
			if r, ok := cases[i].attempt(); ok {
				r.I = i
				return r
			}
		}
		if def {
			return SelRes{I: -1}
		}
		if !runPending() {
			Fatal("deadlock", "waiting for a channel outside a simulated run")
		}
	}
}

// Send is ch <- v.
func Send[T any](ch chan<- T, v T) {
	SyncPoint(30)
	cases := [1]SelCase{SelSend(ch, v)}
	if !Active() {
		selInactive(false, cases[:])
		return
	}
	sel(false, cases[:], chanPtr(ch), waitSend)
}

// TrySend sends if that is possible at once.
func TrySend[T any](ch chan<- T, v T) {
	c := SelSend(ch, v)
	c.attempt()
}

// Recv2 is v, ok := <-ch.
func Recv2[T any](ch <-chan T) (T, bool) {
	SyncPoint(32)
	cases := [1]SelCase{SelRecv(ch)}
	var r SelRes
	if !Active() {
		r = selInactive(false, cases[:])
	} else {
		r = sel(false, cases[:], chanPtr(ch), waitRecv)
	}
	return SelVal[T](r), r.OK
}

// Recv is <-ch.
func Recv[T any](ch <-chan T) T {
	v, _ := Recv2(ch)
	return v
}

// CloseChan is close(ch).
func CloseChan[C any](ch C) {
	reflect.ValueOf(ch).Close()
	moved(chanPtr(ch))
	SyncPoint(34)
}

// RangeChan is for v := range ch.
func RangeChan[T any](ch <-chan T) iter.Seq[T] {
	return func(yield func(T) bool) {
		for {
			v, ok := Recv2(ch)
			if !ok || !yield(v) {
				return
			}
		}
	}
}

// SelectIdle is the default branch added to a blocking select whose cases could not be
// rewritten.
func SelectIdle() {
	if !Active() {
		if !runPending() {
			Fatal("deadlock", "waiting in select outside a simulated run")
		}
		return
	}
	Block(unsafe.Pointer(&selKey), waitSel, 35)
}
