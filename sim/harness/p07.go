package main

import (
	"time"

	"simrt"
	"simrt/context"

	"github.com/spacemonkeygo/monkit/v3"
	"github.com/spacemonkeygo/monkit/v3/collect"
)

func init() { register(&Scenario{ID: "P07", Body: p07}) }

var (
	prMatched      = probe("a collection matched a span")
	prSubtree      = probe("a collected subtree of three or more spans")
	prCancelled    = probe("a collection was cancelled by its caller")
	prLoser        = probe("several spans matched at the same time")
	prExcluded     = probe("a descendant outlived the matched span")
	prCollectPanic = probe("collected work panicked")
)

// matching is one call of WatchForSpans or FindSpan.
type matching struct {
	fn       int // spans of this function match
	matched  []*monkit.Span
	calls    []*monkit.Span
	a0, a1   uint64
	x0       uint64 // cancelled by the caller
	tx, t1   int64
	spans    []*collect.FinishedSpan
	err      error
	finder   bool
	returned bool
}

// endObs notes when spans ended, and takes its time to.
type endObs struct {
	ends  map[*monkit.Span]time.Time
	delay int64
}

func (*endObs) Start(*monkit.Span) {}

func (o *endObs) Finish(s *monkit.Span, err error, panicked bool, finish time.Time) {
	if at, ok := o.ends[s]; ok && !at.Equal(finish) {
		fail("finish-time", "two observers were told that a span finished at %v and %v", at, finish)
	}
	o.ends[s] = finish
	nap(o.delay)
}

func p07() {
	w := newWorld(worldOpts{budget: 9, roots: 3, depth: 4, kinds: []int{kTask, kTask, kTask, kTask, kRemote, kReset, kHop, kHop}, async: 3, outcomes: pchance(2), wraps: pchance(4), rtraces: 3, wide: pchance(5), deep: pchance(8)})
	var ms []*matching
	for i := between(0, 2); i > 0; i-- {
		m := &matching{fn: plan(len(w.funcs)), finder: pchance(3)}
		late := plan(3)
		cancelAfter := plan(4)
		ms = append(ms, m)
		w.g.Go("collector", func() {
			pause(env(1 + late*60))
			ctx, cancel := context.WithCancel(context.Background())
			defer cancel()
			w.g.Go("caller", func() {
				if cancelAfter == 3 {
					pause(env(200))
				} else {
					// the caller gives up once all work is done
					simrt.WaitUntil("work to finish", func() bool {
						for _, n := range w.nodes {
							if n.s3 == 0 {
								return false
							}
						}
						return true
					})
					if m.returned {
						return
					}
				}
				m.x0, m.tx = seq(), now()
				simrt.Fault(FCancel)
				cancel()
			})
			match := func(s *monkit.Span) bool {
				m.calls = append(m.calls, s)
				if s.Func() != w.funcs[m.fn] {
					return false
				}
				m.matched = append(m.matched, s)
				return true
			}
			m.a0 = seq()
			if m.finder {
				collect.FindSpan(ctx, w.r, match)
			} else {
				m.spans, m.err = collect.WatchForSpans(ctx, w.r, match)
			}
			m.a1, m.t1 = seq(), now()
			m.returned = true
		})
	}
	// work collected from inside
	var cs []*collected
	w.inside = func(n *node, ctx context.Context, errp *error) {
		for _, c := range cs {
			if c.at == n {
				c.run(w, ctx)
			}
		}
	}
	for i := plan(3); i > 0; i-- {
		c := &collected{at: w.nodes[plan(len(w.nodes))], o: genOutcome()}
		if c.at.kind == kNilCtx {
			continue
		}
		budget := between(1, 4)
		for budget > 0 {
			k := w.gen(worldOpts{kinds: []int{kTask, kTask, kRemote, kHop}, async: 3, outcomes: true}, c.at, 2, &budget)
			c.kids = append(c.kids, k)
			if !k.async {
				k.async, k.late = false, false
			}
		}
		cs = append(cs, c)
	}
	// collectors attached to one trace by hand
	var ds []*byHand
	for i := plan(3); i > 0; i-- {
		d := &byHand{tr: w.rtraces[plan(len(w.rtraces))], fn: plan(len(w.funcs)), readers: plan(3), stop: pchance(4)}
		ds = append(ds, d)
		d.attach(w)
	}
	if pchance(8) {
		// nothing to collect from
		ran := 0
		bg := context.Background()
		if got := collect.CollectSpans(bg, func(ctx context.Context) { ran++ }); got != nil || ran != 1 {
			fail("collect-no-span", "work outside of any monitored call ran %d times and yielded %d spans", ran, len(got))
		}
		collect.FindSpan(bg, w.r, nil)
	}
	w.ends = map[*monkit.Span]time.Time{}
	var cancels []func()
	if pchance(3) {
		// others observe the traces, before or after the collectors
		watch := func(t *monkit.Trace) {
			cancels = append(cancels, t.ObserveSpans(&endObs{w.ends, w.sleepy}))
		}
		late := pchance(2)
		for _, t := range w.rtraces {
			watch(t)
		}
		w.g.Go("watcher", func() {
			if late {
				pause(env(100))
			}
			c := w.r.ObserveTraces(watch)
			cancels = append(cancels, c)
		})
	}
	w.run()
	w.g.Wait()
	for _, c := range cancels {
		c()
	}
	for _, m := range ms {
		w.checkMatching(m)
	}
	for _, d := range ds {
		d.check(w)
	}
	for _, c := range cs {
		c.check(w)
	}
	checkDetached(w.r, append(w.traces(), w.rtraces...))
	noLeaks()
}

func (w *world) checkMatching(m *matching) {
	if !m.returned {
		fail("not-returned", "a collection did not return")
	}
	for _, s := range m.calls {
		if n := w.of(s); n != nil && n.s0 > m.a1 {
			fail("event-after-return", "%v was shown to a collection that had already returned", n)
		}
	}
	if len(m.matched) > 1 {
		hit(prLoser)
	}
	if m.finder {
		if len(m.matched) == 0 && (m.x0 == 0 || m.x0 > m.a1) {
			fail("returned-early", "a search for a span returned without a match although its caller had not cancelled")
		}
		return
	}
	if m.err != nil {
		if m.x0 == 0 || m.x0 > m.a1 || m.err != context.Canceled || m.spans != nil {
			fail("collect-error", "a collection returned %v and %d spans (cancelled: %v)", m.err, len(m.spans), m.x0 != 0)
		}
		hit(prCancelled)
		return
	}
	if len(m.spans) == 0 {
		fail("collect-empty", "a collection returned no spans and no error")
	}
	root := m.spans[0]
	first := false
	for _, s := range m.matched {
		first = first || s == root.Span
	}
	if !first {
		fail("collect-root", "a collection is rooted at a span that was not matched")
	}
	hit(prMatched)
	// no other span had been matched and taken before: the first match whose
	// start had returned before the root's began would have won
	rn := w.of(root.Span)
	for _, s := range m.matched {
		if n := w.of(s); n != nil && rn != nil && n != rn && n.s1 < rn.s0 {
			fail("collect-root", "%v was matched before %v, which was collected", n, rn)
		}
	}
	w.checkTree(m.spans, rn, m.a1)
}

// checkTree compares collected spans with the subtree of root.
func (w *world) checkTree(got []*collect.FinishedSpan, root *node, ret uint64) {
	if root == nil {
		fail("collect-root", "a collection is rooted at an unknown span")
	}
	if root.s2 == 0 || root.s2 > ret {
		fail("collect-early", "a collection returned before %v finished", root)
	}
	seen := map[*monkit.Span]int{}
	for _, f := range got {
		seen[f.Span]++
		n := w.of(f.Span)
		if n == nil {
			fail("collect-foreign", "a collection contains an unknown span")
		}
		if n != root && !n.under(root) {
			fail("collect-foreign", "a collection of %v contains %v, which is not one of its descendants", root, n)
		}
		n.checkFinished(f)
		if at, ok := w.ends[f.Span]; ok && !at.Equal(f.Finish) {
			fail("collect-data", "%v was collected as finished at %v; another observer was told %v", n, f.Finish, at)
		}
	}
	for _, n := range w.nodes {
		if n.span == nil || (n != root && !n.under(root)) {
			continue
		}
		must, may := true, true
		for p := n; p != root; p = p.cur {
			must = must && p.s3 != 0 && p.s3 < root.s2
			may = may && p.s2 != 0 && p.s2 < root.s3
		}
		c := seen[n.span]
		if must && c != 1 {
			fail("collect-incomplete", "the collection of %v contains its descendant %v %d times", root, n, c)
		}
		if !may {
			hit(prExcluded)
			if c != 0 {
				fail("collect-foreign", "the collection of %v contains %v, which finished after it", root, n)
			}
		}
		if c > 1 {
			fail("collect-twice", "the collection of %v contains %v %d times", root, n, c)
		}
	}
	if len(got) > 2 {
		hit(prSubtree)
	}
}

func (n *node) checkFinished(f *collect.FinishedSpan) {
	var wantErr error
	if n.o.kind == 1 || n.o.kind == 3 {
		wantErr = n.o.err
	}
	if f.Err != wantErr || f.Panicked != (n.o.kind >= 2) {
		fail("collect-data", "%v was collected with error %v, panic %v; it finished with %v, %v", n, f.Err, f.Panicked, wantErr, n.o.kind >= 2)
	}
	if d := f.Finish.Sub(n.span.Start()); int64(d) < n.t2-n.t1 || int64(d) > n.t3-n.t0 {
		fail("collect-data", "%v was collected with a duration of %v but took between %v and %v", n, d, time.Duration(n.t2-n.t1), time.Duration(n.t3-n.t0))
	}
}

// byHand is a collector attached to one trace for as long as it has not got
// what it wants.
type byHand struct {
	c       *collect.SpanCollector
	tr      *monkit.Trace
	fn      int
	stop    bool // stopped at some time
	readers int
	matched []*monkit.Span
	cancel  func()
	x0      uint64 // stopped
	got     [][]*collect.FinishedSpan
	ret     uint64
}

func (d *byHand) attach(w *world) {
	d.c = collect.NewSpanCollector(func(s *monkit.Span) bool {
		if s.Func() != w.funcs[d.fn] {
			return false
		}
		d.matched = append(d.matched, s)
		return true
	})
	d.cancel = d.tr.ObserveSpans(d.c)
	over := false
	if d.stop {
		w.g.Go("stopper", func() {
			pause(env(200))
			if d.x0 == 0 {
				d.x0 = seq()
			}
			d.c.Stop()
			if env(2) == 0 {
				d.c.Stop()
			}
		})
	}
	w.g.Go("last stopper", func() {
		simrt.WaitUntil("work to finish", func() bool {
			for _, n := range w.nodes {
				if n.s3 == 0 {
					return false
				}
			}
			return true
		})
		if !over {
			if d.x0 == 0 {
				d.x0 = seq()
			}
			d.c.Stop()
		}
	})
	w.g.Go("taker", func() {
		simrt.Recv(d.c.Done())
		over = true
		d.ret = seq()
		var g group
		for i := 0; i < 1+d.readers; i++ {
			g.Go("reader", func() {
				got := d.c.Spans()
				d.got = append(d.got, got)
			})
		}
		g.Wait()
		d.cancel()
	})
}

func (d *byHand) check(w *world) {
	first := d.got[0]
	for _, got := range append(d.got, d.c.Spans()) {
		if d.x0 != 0 && d.x0 < d.ret {
			break // stopped, perhaps just when it was done
		}
		if len(got) != len(first) {
			fail("collect-unstable", "a finished collection yielded %d spans and later %d", len(first), len(got))
		}
		for i := range got {
			if got[i].Span != first[i].Span {
				fail("collect-unstable", "a finished collection yielded different spans")
			}
		}
	}
	if len(first) == 0 {
		if d.x0 == 0 || d.x0 > d.ret {
			fail("collect-empty", "a collection that nobody stopped was done without any spans")
		}
		return
	}
	root := w.of(first[0].Span)
	ok := false
	for _, s := range d.matched {
		ok = ok || s == first[0].Span
	}
	if !ok || root == nil || root.trace != d.tr {
		fail("collect-root", "a collection is rooted at a span that was not matched")
	}
	w.checkTree(first, root, d.ret)
	// sorted by start
	sorted := append([]*collect.FinishedSpan(nil), first...)
	collect.StartTimeSorter(sorted).Sort()
	for i, s := range sorted {
		if i > 0 && s.Span.Start().UnixNano() < sorted[i-1].Span.Start().UnixNano() {
			fail("collect-order", "sorted spans are not in the order of their starts")
		}
	}
}

// collected is one call of CollectSpans inside the span of a node.
type collected struct {
	at     *node
	o      outcome
	kids   []*node
	spans  []*collect.FinishedSpan
	root   *node
	c0, c1 uint64
	ran    bool
}

func (c *collected) run(w *world, ctx context.Context) {
	root := &node{w: w, id: len(w.nodes), cur: c.at, trace: c.at.trace, fn: -1, o: outcome{}}
	c.root = root
	if c.o.kind >= 2 {
		root.o = outcome{kind: 2}
	}
	before := monkit.SpanFromCtx(ctx)
	root.t0, root.s0 = now(), seq()
	pv, panicked := guarded(func() {
		c.spans = collect.CollectSpans(ctx, func(ctx context.Context) {
			root.t1, root.s1 = now(), seq()
			root.span = monkit.SpanFromCtx(ctx)
			if root.span == before {
				fail("collect-root", "collected work did not get a span of its own")
			}
			w.nodes = append(w.nodes, root)
			for _, k := range c.kids {
				k := k
				if k.async {
					w.g.Go("async", func() { w.exec(k, ctx, root) })
				} else {
					w.exec(k, ctx, root)
				}
			}
			root.t2, root.s2 = now(), seq()
			var err error
			c.o.act(&err)
		})
	})
	root.t3, root.s3 = now(), seq()
	c.ran = true
	if panicked != (c.o.kind >= 2) || pv != c.o.pv {
		fail("panic-changed", "collected work that ended with panic %v (%v) was seen ending with %v (%v)", c.o.pv, c.o.kind >= 2, pv, panicked)
	}
	if panicked {
		hit(prCollectPanic)
	}
}

func (c *collected) check(w *world) {
	if !c.ran || c.o.kind >= 2 {
		return // a panic takes the result away
	}
	if len(c.spans) == 0 {
		fail("collect-empty", "collecting around work returned no spans")
	}
	if c.spans[0].Span != c.root.span {
		fail("collect-root", "collecting around work is not rooted at the work's span")
	}
	w.checkTree(c.spans, c.root, c.root.s3)
}
