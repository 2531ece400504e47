package main

import (
	"simrt"
	"simrt/context"

	"github.com/spacemonkeygo/monkit/v3"
	"github.com/spacemonkeygo/monkit/v3/collect"
)

func init() { register(&Scenario{ID: "P06", Body: p06}) }

var (
	prRegDuring  = probe("watcher registered or cancelled while a trace began")
	prAllDuring  = probe("all traces observed while spans were running")
	prAllStart   = probe("all traces observed while a trace was beginning")
	prAllOrphans = probe("all traces observed while only orphans of a trace ran")
)

type watch struct {
	id             int
	seen           []*monkit.Trace
	a0, a1, d0, d1 uint64
}

func p06() {
	chain := pchance(4)
	if chain {
		p06chain()
		return
	}
	w := newWorld(worldOpts{budget: 8, roots: 4, depth: 3, kinds: []int{kTask, kTask, kTask, kRemote, kReset, kClear, kHop}, async: 2, outcomes: pchance(4), rtraces: between(1, 4)})
	var ws []*watch
	var all []*obs
	nw := between(0, 3)
	if pchance(10) {
		nw = between(9, 24)
	}
	for i := nw; i > 0; i-- {
		rounds := between(1, 2)
		slow := plan(3)
		w.g.Go("watcher", func() {
			for k := 0; k < rounds; k++ {
				x := &watch{id: len(ws)}
				ws = append(ws, x)
				pause(env(60))
				x.a0 = seq()
				cancel := w.r.ObserveTraces(func(t *monkit.Trace) {
					x.seen = append(x.seen, t)
					pause(slow)
				})
				x.a1 = seq()
				pause(env(80))
				nap(w.sleepy)
				x.d0 = seq()
				cancel()
				x.d1 = seq()
				if env(4) == 3 {
					cancel()
				}
			}
		})
	}
	na := between(0, 3)
	if pchance(15) {
		na = between(6, 16)
	}
	for i := na; i > 0; i-- {
		keep := pchance(3)
		w.g.Go("observer of all traces", func() {
			o := &obs{id: len(all)}
			all = append(all, o)
			pause(env(80))
			nap(w.sleepy)
			o.a0 = seq()
			cancel := collect.ObserveAllTraces(w.r, o)
			o.a1 = seq()
			pause(env(100))
			nap(w.sleepy)
			if keep {
				simrt.WaitUntil("work to finish", func() bool {
					for _, n := range w.nodes {
						if n.s3 == 0 {
							return false
						}
					}
					return true
				})
			}
			o.detach(cancel)
		})
	}
	w.run()
	w.g.Wait()
	for _, x := range ws {
		w.checkWatch(x)
	}
	for _, o := range all {
		w.checkAll(o)
	}
	checkDetached(w.r, append(w.traces(), w.rtraces...))
}

// beginnings lists the nodes that tell watchers of their trace.
func (w *world) beginnings(t *monkit.Trace) (out []*node) {
	for _, n := range w.nodes {
		if n.trace == t && n.cur == nil {
			out = append(out, n)
		}
	}
	return out
}

func (w *world) checkWatch(x *watch) {
	for _, t := range w.traces() {
		c := 0
		for _, s := range x.seen {
			if s == t {
				c++
			}
		}
		bs := w.beginnings(t)
		for _, n := range bs {
			if (n.s0 < x.a1 && n.s1 > x.a0) || (n.s0 < x.d1 && n.s1 > x.d0) {
				hit(prRegDuring)
			}
		}
		if len(bs) == 1 {
			n := bs[0]
			if n.s0 > x.a1 && n.s1 < x.d0 && c != 1 {
				fail("trace-missed", "watcher %d was registered during the whole start of the trace of %v but was told of it %d times", x.id, n, c)
			}
			if (n.s0 > x.d1 || n.s1 < x.a0) && c > 0 {
				fail("trace-outside", "watcher %d was told of the trace of %v, which began while it was not registered", x.id, n)
			}
			if c > 1 {
				fail("trace-twice", "watcher %d was told %d times of the trace of %v", x.id, c, n)
			}
			continue
		}
		// a trace handed in several times
		lo, hi := 0, 0
		for _, n := range bs {
			if n.s0 > x.a1 && n.s1 < x.d0 {
				lo = 1
			}
			if n.s0 < x.d1 && n.s1 > x.a0 {
				hi++
			}
		}
		if c < lo || c > hi {
			fail("trace-missed", "watcher %d was told %d times of a trace that began between %d and %d times while it was registered", x.id, c, lo, hi)
		}
	}
	for _, s := range x.seen {
		known := false
		for _, t := range w.traces() {
			known = known || t == s
		}
		if !known {
			fail("trace-unknown", "watcher %d was told of a trace that no span belongs to", x.id)
		}
	}
}

// checkAll decides what an observer of all traces had to be told.
func (w *world) checkAll(o *obs) {
	R := o.a1
	for _, t := range w.traces() {
		// from when on the trace is certainly covered
		cov := ^uint64(0)
		var first *node
		onlyOrphans := true
		ran := false
		for _, n := range w.byTrace(t) {
			if n.during(o.a0, R) {
				ran = true
				if n.cur == nil {
					onlyOrphans = false
				}
				if R < cov {
					cov = R
				}
			}
			if n.cur == nil && (n.s2 == 0 || n.s2 > R) {
				from := n.s1
				if from < R {
					from = R
				}
				if n.s0 < R && n.s1 > o.a0 {
					hit(prAllStart)
				}
				if from < cov {
					cov = from
				}
				if n.s0 > R && (first == nil || n.s0 < first.s0) {
					first = n
				}
			}
		}
		if ran {
			hit(prAllDuring)
			if onlyOrphans {
				hit(prAllOrphans)
			}
		}
		for _, m := range w.byTrace(t) {
			var st, fi int
			for _, e := range o.events {
				if e.span == m.span {
					if e.start {
						st++
					} else {
						fi++
					}
				}
			}
			if st > 1 || fi > 1 {
				fail("event-twice", "observer %d of all traces was told %d times of the start and %d times of the finish of %v", o.id, st, fi, m)
			}
			in := m.s0 > cov || m == first
			if in && m.s1 < o.d0 && st != 1 {
				fail("all-traces-missed", "observer %d of all traces was not told of the start of %v (started at event %d, trace covered from %d)", o.id, m, m.s0, cov)
			}
			if m.s2 > cov && m.s3 < o.d0 && m.s3 != 0 && fi != 1 {
				fail("all-traces-missed", "observer %d of all traces was not told of the finish of %v (event %d, trace covered from %d)", o.id, m, m.s2, cov)
			}
			if (m.s0 > o.d1 && st > 0) || (m.s2 > o.d1 && fi > 0) {
				fail("event-after-cancel", "observer %d of all traces was told of %v after it had been cancelled", o.id, m)
			}
		}
	}
}

// p06chain: a chain of calls of which all but the last finish, in whatever
// order, while all traces are being observed.
func p06chain() {
	w := newWorld(worldOpts{budget: 1, roots: 1, depth: 1, rtraces: 1})
	last := w.roots[0]
	last.naps = 0
	for i := between(1, 3); i > 0; i-- {
		n := &node{w: w, id: len(w.nodes), parent: last, async: !pchance(4)}
		w.nodes = append(w.nodes, n)
		last.kids = append(last.kids, n)
		last = n
	}
	after := &node{w: w, id: len(w.nodes), parent: last}
	w.nodes = append(w.nodes, after)
	last.kids = append(last.kids, after)
	var all []*obs
	nobs := between(1, 2)
	w.inside = func(n *node, ctx context.Context, errp *error) {
		if n == last {
			simrt.WaitUntil("all traces to be observed", func() bool {
				for _, o := range all {
					if o.a1 == 0 {
						return false
					}
				}
				return len(all) == nobs
			})
		}
	}
	for i := 0; i < nobs; i++ {
		late := plan(150)
		w.g.Go("observer of all traces", func() {
			o := &obs{id: len(all)}
			all = append(all, o)
			simrt.WaitUntil("the last call to start", func() bool { return last.s1 != 0 })
			pause(late)
			o.a0 = seq()
			cancel := collect.ObserveAllTraces(w.r, o)
			o.a1 = seq()
			simrt.WaitUntil("work to finish", func() bool { return last.s3 != 0 })
			o.detach(cancel)
		})
	}
	w.run()
	w.g.Wait()
	for _, o := range all {
		w.checkAll(o)
	}
	checkDetached(w.r, append(w.traces(), w.rtraces...))
}
