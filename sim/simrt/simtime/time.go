// Package simtime replaces package time: clocks and timers are virtual.
package simtime

import (
	"simrt"
	"time"
)

type Time = time.Time
type Duration = time.Duration

// Rounding of sleeps: an operating system timer never fires early and seldom
// exactly on time.
const slackUs = 50

func Now() Time             { simrt.Y(); return simrt.TimeNow() }
func Since(t Time) Duration { return Now().Sub(t) }
func Until(t Time) Duration { return t.Sub(Now()) }
func nowAt() Time           { return simrt.TimeNow() }
func Sleep(d Duration) {
	if d <= 0 {
		simrt.Yield()
		return
	}
	simrt.SleepNs(int64(d) + simrt.Slack())
}

// Timer follows the semantics of modules below go 1.23 (buffered channel).
type Timer struct {
	C <-chan Time
	c chan Time
	f func()
	t *simrt.Timer
}

func NewTimer(d Duration) *Timer {
	c := make(chan Time, 1)
	t := &Timer{C: c, c: c}
	t.arm(d)
	return t
}

func AfterFunc(d Duration, f func()) *Timer {
	t := &Timer{f: f}
	t.arm(d)
	return t
}

func (t *Timer) arm(d Duration) {
	if d < 0 {
		d = 0
	}
	sys := simrt.CurSys()
	t.t = simrt.AddTimer(simrt.NowNs()+int64(d)+simrt.Slack(), func() {
		if t.f != nil {
			simrt.GoAs(t.f, sys)
			return
		}
		simrt.TrySendRaw(t.c, nowAt())
	})
}

func (t *Timer) Stop() bool {
	simrt.Y()
	if t.t == nil {
		panic("time: Stop called on uninitialized Timer")
	}
	return simrt.DelTimer(t.t)
}

func (t *Timer) Reset(d Duration) bool {
	simrt.Y()
	if t.t == nil {
		panic("time: Reset called on uninitialized Timer")
	}
	w := simrt.DelTimer(t.t)
	t.arm(d)
	return w
}

func After(d Duration) <-chan Time { return NewTimer(d).C }

type Ticker struct {
	C <-chan Time
	c chan Time
	t *simrt.Timer
	n int64
	d int64
}

func NewTicker(d Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	c := make(chan Time, 1)
	t := &Ticker{C: c, c: c, d: int64(d)}
	t.n = simrt.NowNs() + t.d
	t.arm()
	return t
}

func (t *Ticker) arm() {
	t.t = simrt.AddTimer(t.n, func() {
		simrt.TrySendRaw(t.c, nowAt())
		t.n += t.d
		if now := simrt.PeekNs(); t.n < now {
			t.n += (now - t.n) / t.d * t.d
		}
		t.arm()
	})
}

func (t *Ticker) Stop() {
	simrt.Y()
	simrt.DelTimer(t.t)
}

func (t *Ticker) Reset(d Duration) {
	simrt.Y()
	if d <= 0 {
		panic("non-positive interval for Ticker.Reset")
	}
	simrt.DelTimer(t.t)
	t.d = int64(d)
	t.n = simrt.NowNs() + t.d
	t.arm()
}

func Tick(d Duration) <-chan Time {
	if d <= 0 {
		return nil
	}
	return NewTicker(d).C
}
