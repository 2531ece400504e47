// Package time is the simulated stand-in for the standard package.
package time

import (
	"simrt"
	std "time"
)

func Now() Time { return simrt.Now() }

func Since(t Time) Duration { return simrt.Now().Sub(t) }

func Until(t Time) Duration { return t.Sub(simrt.Now()) }

func Sleep(d Duration) { simrt.Sleep(d) }

// Timer is the simulated time.Timer.
type Timer struct {
	C <-chan Time
	c chan Time
	t *simrt.SimTimer
	f func()
}

func push(c chan Time) {
	select {
	case c <- simrt.Peek():
	default:
	}
}

func drain(c chan Time) {
	if c == nil {
		return
	}
	select {
	case <-c:
	default:
	}
}

func NewTimer(d Duration) *Timer {
	simrt.YS()
	c := make(chan Time, 1)
	t := &Timer{C: c, c: c}
	t.t = simrt.StartTimer(d, 0, func() { push(c) })
	return t
}

func AfterFunc(d Duration, f func()) *Timer {
	simrt.YS()
	t := &Timer{f: f}
	t.t = simrt.AfterFunc(d, f)
	return t
}

func After(d Duration) <-chan Time { return NewTimer(d).C }

func (t *Timer) Stop() bool {
	simrt.YS()
	was := t.t.Stop()
	if !was && t.c != nil && len(t.c) > 0 {
		was = true
	}
	drain(t.c)
	return was
}

func (t *Timer) Reset(d Duration) bool {
	simrt.YS()
	drain(t.c)
	return t.t.Reset(d)
}

// Ticker is the simulated time.Ticker.
type Ticker struct {
	C <-chan Time
	c chan Time
	t *simrt.SimTimer
}

func NewTicker(d Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	simrt.YS()
	c := make(chan Time, 1)
	return &Ticker{C: c, c: c, t: simrt.StartTimer(d, d, func() { push(c) })}
}

func Tick(d Duration) <-chan Time {
	if d <= 0 {
		return nil
	}
	return NewTicker(d).C
}

func (t *Ticker) Stop() {
	simrt.YS()
	t.t.Stop()
	drain(t.c)
}

func (t *Ticker) Reset(d Duration) {
	if d <= 0 {
		panic("non-positive interval for Ticker.Reset")
	}
	simrt.YS()
	drain(t.c)
	t.t.SetPeriod(d)
	t.t.Reset(d)
}

var _ std.Duration
