// Package zztime replaces the clock and timers of package time during replay.
package zztime

import (
	"time"

	"github.com/QuangTung97/go-memcache/memcache/zzverif"
)

var base = time.Date(2011, 10, 1, 0, 0, 0, 0, time.UTC)

func Now() time.Time                         { return base.Add(time.Duration(zzverif.Now())) }
func Since(t time.Time) time.Duration        { return Now().Sub(t) }
func Until(t time.Time) time.Duration        { return t.Sub(Now()) }
func Sleep(d time.Duration)                  { zzverif.Sleep(int64(d)) }
func After(d time.Duration) <-chan time.Time { return NewTimer(d).C }
func Tick(d time.Duration) <-chan time.Time  { return NewTicker(d).C }

type Timer struct {
	C  <-chan time.Time
	c  chan time.Time
	id int
	f  func()
}

func fire(c chan time.Time) func() {
	return func() {
		select {
		case c <- Now():
		default:
		}
	}
}

func NewTimer(d time.Duration) *Timer {
	c := make(chan time.Time, 1)
	return &Timer{C: c, c: c, id: zzverif.AddTimer(int64(d), 0, fire(c))}
}

func AfterFunc(d time.Duration, f func()) *Timer {
	t := &Timer{f: f}
	t.id = zzverif.AddTimer(int64(d), 0, func() { zzverif.Go(f) })
	return t
}

func (t *Timer) Stop() bool {
	ok := zzverif.StopTimer(t.id)
	if !ok && t.c != nil && len(t.c) > 0 {
		<-t.c
		return true
	}
	return ok
}

func (t *Timer) Reset(d time.Duration) bool {
	r := t.Stop()
	if t.f != nil {
		f := t.f
		t.id = zzverif.AddTimer(int64(d), 0, func() { zzverif.Go(f) })
	} else {
		t.id = zzverif.AddTimer(int64(d), 0, fire(t.c))
	}
	return r
}

type Ticker struct {
	C  <-chan time.Time
	c  chan time.Time
	id int
}

func NewTicker(d time.Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	c := make(chan time.Time, 1)
	return &Ticker{C: c, c: c, id: zzverif.AddTimer(int64(d), int64(d), fire(c))}
}

func (t *Ticker) Stop() { zzverif.StopTimer(t.id) }
func (t *Ticker) Reset(d time.Duration) {
	zzverif.StopTimer(t.id)
	t.id = zzverif.AddTimer(int64(d), int64(d), fire(t.c))
}
