package main

import (
	"encoding/json"
	"fmt"
	"math"
	"time"

	"simrt"
	"simrt/context"

	"github.com/spacemonkeygo/monkit/v3"
	"github.com/spacemonkeygo/monkit/v3/environment"
	"github.com/spacemonkeygo/monkit/v3/monotime"
	"github.com/spacemonkeygo/monkit/v3/present"
)

func init() { register(&Scenario{ID: "P12", Body: p12}) }

var (
	prMultiStop  = probe("timer stopped by several goroutines")
	prBackwards  = probe("wall clock went back during a measured period")
	prZeroPeriod = probe("measured period of no length")
	prLongCall   = probe("measured period longer than an hour")
)

// within fails unless the reported duration d lies between the shortest and
// the longest possible true one.
func within(what string, d time.Duration, lo, hi int64) {
	if lo < 0 {
		lo = 0
	}
	if int64(d) < lo || int64(d) > hi {
		fail("wrong-duration", "%s is reported as %v; between %v and %v elapsed", what, d, time.Duration(lo), time.Duration(hi))
	}
	if d > time.Hour {
		hit(prLongCall)
	}
}

type durObs struct {
	got map[*monkit.Span]time.Duration
}

func (o *durObs) Start(s *monkit.Span) {}
func (o *durObs) Finish(s *monkit.Span, err error, panicked bool, finish time.Time) {
	o.got[s] = finish.Sub(s.Start())
}

func spread() int64 {
	return []int64{100, 1e3, 1e6, 1e9, 60e9, 3600e9}[plan(6)]
}

func p12() {
	if pchance(6) {
		// a clock so coarse that a period may seem to take no time
		simrt.SetTick(0)
	}
	start := now()
	reg := monkit.NewRegistry()
	sc := reg.ScopeNamed("s")
	var g group
	sp := spread()
	for w := between(1, 4); w > 0; w-- {
		for k := between(1, 3); k > 0; k-- {
			id := fmt.Sprintf("f%d.%d", w, k)
			o := genOutcome()
			naps := plan(4)
			switch plan(6) {
			case 0, 1:
				g.Go("call", func() { p12call(reg, sc.FuncNamed(id), o, naps, sp) })
			case 2:
				g.Go("observe", func() { p12observe(&sc.FuncNamed(id).FuncStats, o, naps, sp) })
			case 3, 4:
				stops := between(1, 4)
				g.Go("timer", func() { p12timer(sc.Timer(id), stops, naps, sp) })
			case 5:
				g.Go("uptime", func() {
					for i := 0; i <= naps; i++ {
						a := now()
						sts := collectStats(environment.Process())
						b := now()
						up, n := find(sts, "uptime")
						if n != 1 {
							fail("wrong-duration", "the process reports %d uptimes", n)
						}
						// rounded to a float of seconds
						within("the process uptime", time.Duration(math.Round(up*1e9)), a-start-1-a/1e12, b+1+b/1e12)
						nap(sp)
					}
				})
			}
		}
	}
	if plan(4) > 0 {
		clockFaults(&g, between(1, 6), sp)
	}
	g.Go("clock", func() {
		t0 := monotime.Now()
		m0 := now()
		last := t0
		for i := between(1, 5); i > 0; i-- {
			nap(sp)
			m1 := now()
			t := monotime.Now()
			m2 := now()
			if t.Before(last) {
				fail("clock-backwards", "the monotonic clock went from %v to %v", last, t)
			}
			last = t
			within("monotonic time", t.Sub(t0), m1-m0, m2-m0+1)
		}
	})
	g.Wait()
}

func p12call(reg *monkit.Registry, f *monkit.Func, o outcome, naps int, sp int64) {
	ctx := context.Context(context.Background())
	tr := monkit.NewTrace(monkit.NewId())
	obs := &durObs{got: map[*monkit.Span]time.Duration{}}
	tr.ObserveSpans(obs)
	var s *monkit.Span
	var t0, t1, t2, t3 int64
	guarded(func() {
		var err error
		t0 = now()
		exit := f.RemoteTrace(&ctx, 0, tr)
		t1 = now()
		w0 := simrt.Peek().Round(0)
		defer func() { t3 = now() }()
		defer exit(&err)
		defer func() { t2 = now() }()
		s = monkit.SpanFromCtx(ctx)
		for i := 0; i <= naps; i++ {
			a := now()
			d := s.Duration()
			within("the duration of a running span", d, a-t1, now()-t0)
			if env(4) == 0 {
				a := now()
				var w planWriter
				if err := present.SpansJSON(reg, &w); err != nil {
					fail("wrong-duration", "SpansJSON: %v", err)
				}
				b := now()
				var js []struct {
					Id      int64 `json:"id"`
					Elapsed int64 `json:"elapsed"`
				}
				if err := json.Unmarshal(w.buf, &js); err != nil {
					fail("wrong-duration", "SpansJSON: %v in %s", err, w.buf)
				}
				for _, x := range js {
					if x.Id == s.Id() {
						within("the elapsed time of a span in JSON", time.Duration(x.Elapsed), a-t1, b-t0)
					}
				}
			}
			nap(sp)
		}
		if simrt.Peek().Round(0).Before(w0) {
			hit(prBackwards)
		}
		o.act(&err)
	})
	d, ok := obs.got[s]
	if !ok {
		fail("wrong-duration", "an observer was not told of a finish")
	}
	within("a call's duration, as told to its observer,", d, t2-t1, t3-t0)
	checkOneTime(&f.FuncStats, o, t2-t1, t3-t0)
	if dd := timesOf(&f.FuncStats, o); dd != d {
		fail("wrong-duration", "a call's duration is recorded as %v, but its observer was told %v", dd, d)
	}
}

func timesOf(fs *monkit.FuncStats, o outcome) time.Duration {
	if o.kind == 0 {
		return fs.SuccessTimes().Recent
	}
	return fs.FailureTimes().Recent
}

func checkOneTime(fs *monkit.FuncStats, o outcome, lo, hi int64) {
	d, other := fs.SuccessTimes(), fs.FailureTimes()
	if o.kind != 0 {
		d, other = other, d
	}
	if d.Count != 1 || other.Count != 0 {
		fail("wrong-duration", "one call has %d and %d durations recorded", d.Count, other.Count)
	}
	within("a call's recorded duration", d.Recent, lo, hi)
	within("the sum of a call's durations", d.Sum, lo, hi)
	within("the lowest of a call's durations", d.Low, lo, hi)
	within("the highest of a call's durations", d.High, lo, hi)
}

func p12observe(fs *monkit.FuncStats, o outcome, naps int, sp int64) {
	var t0, t1, t2, t3 int64
	guarded(func() {
		var err error
		t0 = now()
		exit := fs.Observe()
		t1 = now()
		defer func() { t3 = now() }()
		defer exit(&err)
		defer func() { t2 = now() }()
		for i := 0; i <= naps; i++ {
			nap(sp)
		}
		o.act(&err)
	})
	checkOneTime(fs, o, t2-t1, t3-t0)
}

func p12timer(t *monkit.Timer, stops, naps int, sp int64) {
	a0 := now()
	rt := t.Start()
	a1 := now()
	var g group
	var got []time.Duration
	for i := 0; i < stops; i++ {
		stops := 1 + env(2)
		g.Go("stopper", func() {
			for i := 0; i < naps; i++ {
				b0 := now()
				e := rt.Elapsed()
				within("a running timer's elapsed time", e, b0-a1, now()-a0)
				nap(sp)
			}
			for i := 0; i < stops; i++ {
				b0 := now()
				d := rt.Stop()
				within("the time a stopped timer returns", d, b0-a1, now()-a0)
				got = append(got, d)
			}
		})
	}
	g.Wait()
	if stops > 1 {
		hit(prMultiStop)
	}
	b0 := now()
	if len(got) > 0 && got[0] == 0 {
		hit(prZeroPeriod)
	}
	within("a stopped timer's elapsed time", rt.Elapsed(), b0-a1, now()-a0)
	v := t.Values()
	if v.Count != 1 {
		fail("timer-count", "a timer started once and stopped %d times recorded %d durations", len(got), v.Count)
	}
	for _, d := range got {
		if d == v.Recent && d == v.Sum {
			return
		}
	}
	fail("timer-count", "a timer recorded %v (sum %v), its stops returned %v", v.Recent, v.Sum, got)
}

// planWriter collects what is written.
type planWriter struct {
	buf []byte
}

func (w *planWriter) Write(p []byte) (int, error) {
	simrt.Y()
	w.buf = append(w.buf, p...)
	return len(p), nil
}
