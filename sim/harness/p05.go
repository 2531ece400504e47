package main

import (
	"time"

	"simrt"
	"simrt/context"

	"github.com/spacemonkeygo/monkit/v3"
)

func init() { register(&Scenario{ID: "P05", Body: p05}) }

var (
	prAttachDuring = probe("observer attached or detached while a span started or finished")
	prManyObs      = probe("several observers attached to one trace at once")
	prSameObs      = probe("one observer attached twice to a trace")
	prCtxFinish    = probe("finish with a context returned by an observer")
)

// obsEvent is one notification an observer received.
type obsEvent struct {
	start    bool
	span     *monkit.Span
	ctx      context.Context
	err      error
	panicked bool
	finish   time.Time
	seq      uint64
	t        int64
}

// obs is one observer and its attachment window.
type obs struct {
	id             int
	withCtx        bool
	events         []obsEvent
	trace          *monkit.Trace
	a0, a1, d0, d1 uint64
	slow           int
	tokens         map[*monkit.Span]*panicVal
}

type obsKey struct{ o *obs }

func (o *obs) Start(s *monkit.Span) {
	o.events = append(o.events, obsEvent{start: true, span: s, seq: seq()})
	pause(o.slow)
}

func (o *obs) Finish(s *monkit.Span, err error, panicked bool, finish time.Time) {
	o.events = append(o.events, obsEvent{span: s, err: err, panicked: panicked, finish: finish, seq: seq(), t: now()})
	pause(o.slow)
}

// ctxObs is the context-aware form.
type ctxObs struct{ *obs }

func (o ctxObs) Start(ctx context.Context, s *monkit.Span) context.Context {
	if o.tokens == nil {
		o.tokens = map[*monkit.Span]*panicVal{}
	}
	tok := &panicVal{o.id}
	o.tokens[s] = tok
	c := context.WithValue(ctx, obsKey{o.obs}, tok)
	o.obs.Start(s)
	return c
}

func (o ctxObs) Finish(ctx context.Context, s *monkit.Span, err error, panicked bool, finish time.Time) {
	o.obs.Finish(s, err, panicked, finish)
	for i := range o.events {
		e := &o.events[i]
		if e.span == s && !e.start {
			e.ctx = ctx
		}
	}
}

func (o *obs) attach(t *monkit.Trace) func() {
	o.trace = t
	o.a0 = seq()
	var cancel func()
	if o.withCtx {
		cancel = t.ObserveSpansCtx(ctxObs{o})
	} else {
		cancel = t.ObserveSpans(o)
	}
	o.a1 = seq()
	return cancel
}

func (o *obs) detach(cancel func()) {
	o.d0 = seq()
	cancel()
	o.d1 = seq()
}

func p05() {
	w := newWorld(worldOpts{budget: 8, roots: 4, depth: 3, kinds: []int{kTask, kTask, kRemote, kRemote, kFuncTask, kReset, kHop}, async: 3, outcomes: pchance(2), wraps: pchance(4), rtraces: between(1, 2), deep: pchance(15)})
	var all []*obs
	nobs := between(1, 4)
	if pchance(10) {
		nobs = between(8, 24)
	}
	for i := 0; i < nobs; i++ {
		rounds := between(1, 3)
		twice := pchance(4)
		withCtx := plan(3) == 1
		slow := plan(4)
		w.g.Go("observer", func() {
			for k := 0; k < rounds; k++ {
				ts := append(w.traces(), w.rtraces...)
				o := &obs{id: len(all), withCtx: withCtx, slow: slow}
				all = append(all, o)
				cancel := o.attach(ts[env(len(ts))])
				pause(env(40))
				nap(w.sleepy)
				o.detach(cancel)
				if twice {
					cancel()
				}
			}
		})
	}
	var dups []*dupObs
	if pchance(3) {
		// one observer attached several times over
		d := &dupObs{obs: &obs{id: -1, slow: plan(3)}, trace: w.rtraces[plan(len(w.rtraces))]}
		withCtx := plan(2) == 1
		dups = append(dups, d)
		for k := between(2, 3); k > 0; k-- {
			hold, again := pchance(3), pchance(3)
			w.g.Go("same observer", func() {
				pause(env(20))
				win := &window{}
				d.wins = append(d.wins, win)
				win.a0 = seq()
				var cancel func()
				if withCtx {
					cancel = d.trace.ObserveSpansCtx(ctxObs{d.obs})
				} else {
					cancel = d.trace.ObserveSpans(d.obs)
				}
				win.a1 = seq()
				if hold {
					return
				}
				pause(env(40))
				nap(w.sleepy)
				win.d0 = seq()
				cancel()
				win.d1 = seq()
				if again {
					pause(env(40))
					cancel()
				}
			})
		}
	}
	if pchance(3) {
		// one observer attached before anything starts, until the end
		o := &obs{id: len(all), withCtx: pchance(2)}
		all = append(all, o)
		o.attach(w.rtraces[0])
	}
	if pchance(3) {
		// observers attached as soon as a trace starts
		w.r.ObserveTraces(func(t *monkit.Trace) {
			for _, r := range w.rtraces {
				if r == t {
					return
				}
			}
			o := &obs{id: len(all), withCtx: len(all)%2 == 1}
			all = append(all, o)
			o.attach(t)
		})
	}
	w.run()
	w.g.Wait()
	for _, d := range dups {
		d.check(w)
	}
	for _, o := range all {
		o.check(w)
		for _, p := range all {
			if p != o && p.trace == o.trace && p.a1 > o.a1 && (o.d0 == 0 || p.a1 < o.d0) {
				hit(prManyObs)
			}
		}
	}
}

// dupObs is an observer attached to one trace more than once: it is told as
// often as it is attached.
type dupObs struct {
	*obs
	trace *monkit.Trace
	wins  []*window
}

type window struct{ a0, a1, d0, d1 uint64 }

func (d *dupObs) check(w *world) {
	const inf = ^uint64(0)
	for _, n := range w.nodes {
		if n.span == nil || n.s3 == 0 {
			continue
		}
		var got, must, may [2]int
		for _, e := range d.events {
			if e.span == n.span {
				if e.start {
					got[0]++
				} else {
					got[1]++
				}
			}
		}
		for _, v := range d.wins {
			d0, d1 := v.d0, v.d1
			if d0 == 0 {
				d0, d1 = inf, inf
			}
			for i, at := range [2][2]uint64{{n.s0, n.s1}, {n.s2, n.s3}} {
				if n.trace != d.trace || at[0] > d1 || at[1] < v.a0 {
					continue
				}
				may[i]++
				if at[0] > v.a1 && at[1] < d0 {
					must[i]++
				}
			}
		}
		for i, what := range []string{"start", "finish"} {
			if must[i] > 1 {
				hit(prSameObs)
			}
			if got[i] < must[i] || got[i] > may[i] {
				fail("event-count", "an observer attached %d to %d times during the %s of %v was told of it %d times", must[i], may[i], what, n, got[i])
			}
		}
	}
}

// check compares what an observer was told with the history.
func (o *obs) check(w *world) {
	const inf = ^uint64(0)
	d0, d1 := o.d0, o.d1
	if d0 == 0 {
		d0, d1 = inf, inf
	}
	for _, n := range w.nodes {
		if n.span == nil {
			continue
		}
		var st, fi []obsEvent
		for _, e := range o.events {
			if e.span != n.span {
				continue
			}
			if e.start {
				st = append(st, e)
			} else {
				fi = append(fi, e)
			}
		}
		if n.trace != o.trace {
			if len(st)+len(fi) > 0 {
				fail("foreign-event", "observer %d was told of %v of another trace", o.id, n)
			}
			continue
		}
		if (n.s0 < o.a1 && n.s1 > o.a0) || (n.s0 < d1 && n.s1 > d0) || (n.s2 < o.a1 && n.s3 > o.a0) || (n.s2 < d1 && n.s3 > d0) {
			hit(prAttachDuring)
		}
		if len(st) > 1 || len(fi) > 1 {
			fail("event-twice", "observer %d was told %d times of the start and %d times of the finish of %v", o.id, len(st), len(fi), n)
		}
		if n.s0 > o.a1 && n.s1 < d0 && len(st) != 1 {
			fail("event-lost", "observer %d was attached during the whole start of %v but was not told of it", o.id, n)
		}
		if n.s2 > o.a1 && n.s3 < d0 && n.s3 != 0 && len(fi) != 1 {
			fail("event-lost", "observer %d was attached during the whole finish of %v but was not told of it", o.id, n)
		}
		if (n.s0 > d1 || n.s1 < o.a0) && len(st) > 0 {
			fail("event-outside", "observer %d was told of the start of %v, outside the time it was attached", o.id, n)
		}
		if (n.s2 > d1 || n.s3 < o.a0) && len(fi) > 0 {
			fail("event-outside", "observer %d was told of the finish of %v, outside the time it was attached", o.id, n)
		}
		for _, e := range st {
			if e.seq < n.s0 || e.seq > n.s1 {
				fail("event-late", "observer %d was told of the start of %v at another time", o.id, n)
			}
			if o.withCtx && n.kind != kNilCtx {
				if got := n.ctx.Value(obsKey{o}); got != o.tokens[n.span] {
					fail("observer-context", "%v did not receive the context returned by observer %d", n, o.id)
				}
			}
		}
		for _, e := range fi {
			if e.seq < n.s2 || e.seq > n.s3 {
				fail("event-late", "observer %d was told of the finish of %v at another time", o.id, n)
			}
			if !n.end.IsZero() && !n.end.Equal(e.finish) {
				fail("event-data", "observers were told that %v finished at %v and at %v", n, n.end, e.finish)
			}
			n.end = e.finish
			var wantErr error
			if n.o.kind == 1 || n.o.kind == 3 {
				wantErr = n.o.err
			}
			if e.err != wantErr || e.panicked != (n.o.kind >= 2) {
				fail("event-data", "observer %d was told that %v finished with error %v, panic %v; it finished with %v, %v", o.id, n, e.err, e.panicked, wantErr, n.o.kind >= 2)
			}
			if d := e.finish.Sub(n.span.Start()); d < 0 || int64(d) < n.t2-n.t1 || int64(d) > n.t3-n.t0 {
				fail("event-data", "observer %d was told a finish time %v after the start of %v, which took between %v and %v", o.id, d, n, time.Duration(n.t2-n.t1), time.Duration(n.t3-n.t0))
			}
			if o.withCtx && n.kind != kNilCtx {
				if e.ctx != n.ctx {
					fail("observer-context", "observer %d was not passed the context of %v on its finish", o.id, n)
				}
				hit(prCtxFinish)
			}
		}
	}
	for _, e := range o.events {
		if w.of(e.span) == nil {
			fail("foreign-event", "observer %d was told of an unknown span", o.id)
		}
	}
	_ = simrt.Active
}
