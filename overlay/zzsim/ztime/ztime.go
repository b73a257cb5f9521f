// Package ztime holds the simulated versions of the package time functions that
// read or wait for the clock.
package ztime

import (
	"time"

	"github.com/nyaruka/phonenumbers/v2/internal/zzsim"
)

func Now() time.Time                         { return time.Unix(0, zzsim.ReadClock()).UTC() }
func Since(t time.Time) time.Duration        { return Now().Sub(t) }
func Until(t time.Time) time.Duration        { return t.Sub(Now()) }
func Sleep(d time.Duration)                  { zzsim.SleepFor(int64(d)) }
func After(d time.Duration) <-chan time.Time { return NewTimer(d).C }
func Tick(d time.Duration) <-chan time.Time  { return NewTicker(d).C }

// Timer is a simulated time.Timer.
type Timer struct {
	C <-chan time.Time
	c chan time.Time
	f func()
	n *int // generation: a stopped or reset timer's earlier task does nothing
	p bool // pending
}

func (t *Timer) start(d time.Duration) {
	g := *t.n
	t.p = true
	zzsim.Go(func() {
		zzsim.SleepFor(int64(d))
		if g != *t.n {
			return
		}
		t.p = false
		if t.f != nil {
			t.f()
		} else {
			zzsim.TrySend(t.c, Now())
		}
	})
}

func NewTimer(d time.Duration) *Timer {
	c := make(chan time.Time, 1)
	t := &Timer{C: c, c: c, n: new(int)}
	t.start(d)
	return t
}

func AfterFunc(d time.Duration, f func()) *Timer {
	t := &Timer{f: f, n: new(int)}
	t.start(d)
	return t
}

func (t *Timer) Stop() bool {
	was := t.p
	t.p = false
	*t.n++
	if t.c != nil {
		select {
		case <-t.c:
		default:
		}
	}
	return was
}

func (t *Timer) Reset(d time.Duration) bool {
	was := t.Stop()
	t.start(d)
	return was
}

// Ticker is a simulated time.Ticker.
type Ticker struct {
	C <-chan time.Time
	c chan time.Time
	n *int
}

func (t *Ticker) start(d time.Duration) {
	g := *t.n
	zzsim.Go(func() {
		for {
			zzsim.SleepFor(int64(d))
			if g != *t.n {
				return
			}
			zzsim.TrySend(t.c, Now())
		}
	})
}

func NewTicker(d time.Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	c := make(chan time.Time, 1)
	t := &Ticker{C: c, c: c, n: new(int)}
	t.start(d)
	return t
}

func (t *Ticker) Stop() { *t.n++ }

func (t *Ticker) Reset(d time.Duration) { t.Stop(); t.start(d) }
