package main

import (
	"simrt"
	"simrt/context"

	"github.com/spacemonkeygo/monkit/v3"
)

func init() { register(&Scenario{ID: "P03", Body: p03}) }

var (
	prOrphanListed = probe("listing with an orphaned running span")
	prWide         = probe("many spans open under few parents")
	prForeign      = probe("listing of one registry while spans of another run")
	prDeepListed   = probe("listing with a steady span two levels down")
)

var spanKinds = []int{kTask, kFuncTask, kTask, kReset, kRemote, kClear, kTask, kHop}

func p03() {
	if pchance(5) {
		p03Churn()
		return
	}
	deep := pchance(8)
	w := newWorld(worldOpts{budget: 9, roots: 3, depth: 4, kinds: spanKinds, async: 3, outcomes: pchance(3), wraps: pchance(3), regs: true, wide: pchance(6), deep: deep})
	if pchance(4) || deep && pchance(2) {
		// listed from within
		last := w.nodes[len(w.nodes)-1]
		w.inside = func(n *node, ctx context.Context, errp *error) {
			if n == last {
				w.checkListing(false)
				w.checkListing(true)
			}
		}
	}
	w.run()
	for k := between(1, 2); k > 0; k-- {
		n := between(1, 5)
		w.g.Go("lister", func() {
			for i := 0; i < n; i++ {
				switch env(5) {
				case 0, 1:
					w.checkListing(false)
				case 2:
					w.checkListing(true)
				case 3:
					w.checkChildren()
				case 4:
					w.checkSpanCounts()
				}
				nap(w.sleepy)
				pause(env(12))
			}
		})
	}
	w.g.Wait()
	w.checkNothingLeft()
}

// p03Churn has many spans running under few parents, started and finished in
// any order by several goroutines.
func p03Churn() {
	w := newWorld(worldOpts{budget: 1, roots: 1, depth: 1, kinds: []int{kTask}, regs: true})
	w.nodes, w.roots = nil, nil
	type open struct {
		n    *node
		exit func(*error)
	}
	start := func(ctx context.Context, cur *node, kind int) (*node, open) {
		n := &node{w: w, id: len(w.nodes), kind: kind, fn: env(len(w.funcs))}
		if kind == kRemote {
			n.rt, n.pid = env(len(w.rtraces)), int64(env(9))
		}
		w.nodes = append(w.nodes, n)
		return n, open{n, w.start(n, &ctx, cur)}
	}
	end := func(o open) {
		var err error
		o.n.t2, o.n.s2 = now(), seq()
		o.exit(&err)
		o.n.t3, o.n.s3 = now(), seq()
	}
	// the parents
	parents := make([]open, between(1, 3))
	nodes := make([]*node, len(parents))
	ctx, cur := context.Context(context.Background()), (*node)(nil)
	for i := range parents {
		nodes[i], parents[i] = start(ctx, cur, kTask)
		ctx, cur = nodes[i].ctx, nodes[i]
	}
	workers := between(1, 3)
	for k := 0; k < workers; k++ {
		ops := 6 + 6*plan(6)
		grow := 1 + plan(3)
		w.g.Go("churner", func() {
			var mine []open
			for i := 0; i < ops; i++ {
				switch c := env(6); {
				case c <= grow || len(mine) == 0:
					p := nodes[env(len(nodes))]
					kind := kTask
					if env(8) == 7 {
						kind = []int{kReset, kRemote, kClear}[env(3)]
					}
					_, o := start(p.ctx, p, kind)
					mine = append(mine, o)
				case c == 5:
					switch env(4) {
					case 0:
						w.checkListing(false)
					case 1:
						w.checkListing(true)
					case 2:
						w.checkChildren()
					case 3:
						w.checkSpanCounts()
					}
				default:
					// the oldest, the newest or any
					j := 0
					switch env(3) {
					case 1:
						j = len(mine) - 1
					case 2:
						j = env(len(mine))
					}
					o := mine[j]
					mine = append(mine[:j:j], mine[j+1:]...)
					end(o)
				}
			}
			if len(mine) > 3 {
				hit(prWide)
			}
			w.checkListing(false)
			for _, o := range mine {
				end(o)
			}
		})
	}
	early := plan(len(parents) + 1)
	for i := 0; i < early; i++ {
		pause(env(30))
		end(parents[i])
	}
	w.g.Wait()
	w.checkListing(false)
	for _, o := range parents[early:] {
		end(o)
	}
	w.checkNothingLeft()
}

func (w *world) checkNothingLeft() {
	n := 0
	for _, r := range []*monkit.Registry{w.r, w.r2} {
		if r != nil {
			r.AllSpans(func(*monkit.Span) { n++ })
			r.RootSpans(func(*monkit.Span) { n++ })
		}
	}
	if n != 0 {
		fail("left-over", "%d spans are listed after every span has finished", n)
	}
	for _, t := range append(w.traces(), w.rtraces...) {
		if c := t.Spans(); c != 0 {
			fail("trace-count", "a trace counts %d running spans after every span has finished", c)
		}
	}
	for _, n := range w.nodes {
		if n.span != nil {
			c := 0
			n.span.Children(func(*monkit.Span) { c++ })
			if c != 0 {
				fail("left-over", "%v lists %d running children after every span has finished", n, c)
			}
		}
	}
}

// checkListing compares a listing of all spans, or of the root spans, with the
// history.
func (w *world) checkListing(rootsOnly bool) {
	var got []*monkit.Span
	r := w.r
	if w.r2 != nil && env(2) == 1 {
		r = w.r2
	}
	list := r.AllSpans
	if rootsOnly {
		list = r.RootSpans
	}
	// the callback may take its time
	slow := env(4) == 3
	a := seq()
	list(func(s *monkit.Span) {
		got = append(got, s)
		if slow {
			simrt.Y()
			nap(w.sleepy)
		}
	})
	b := seq()
	for _, n := range w.nodes {
		if n.span == nil {
			continue
		}
		c, at := 0, -1
		for i, s := range got {
			if s == n.span {
				c++
				at = i
			}
		}
		if n.before(a) && c > 0 {
			fail("finished-listed", "%v had finished before the listing began but is listed", n)
		}
		if !n.steady(a, b) {
			continue
		}
		isRoot := n.cur == nil || n.cur.before(a)
		want := 1
		if rootsOnly && !isRoot {
			want = 0
		}
		// a registry lists the roots that are its own, and what is below them
		top := n
		for top.cur != nil && !top.cur.before(a) {
			top = top.cur
		}
		if !w.in(top, r) {
			hit(prForeign)
			want = 0
		}
		if n.cur != nil && n.cur.cur != nil {
			hit(prDeepListed)
		}
		if c != want {
			fail("listing", "%v ran during the whole listing (root spans only: %v, its parent %s) and is listed %d times instead of %d", n, rootsOnly, n.parentState(a), c, want)
		}
		if n.cur != nil && n.cur.before(a) {
			hit(prOrphanListed)
			simrt.Fault(FOrphan)
			if !n.span.Orphaned() {
				fail("not-orphaned", "%v is not marked as orphaned although its parent has finished", n)
			}
		}
		if !rootsOnly && !isRoot && want == 1 {
			// under its parent: after it
			for i := at + 1; i < len(got); i++ {
				if got[i] == n.cur.span {
					fail("listing-order", "%v is listed before its parent", n)
				}
			}
		}
	}
	for _, s := range got {
		if n := w.of(s); n != nil && n.s0 > b {
			fail("listing", "%v is listed before it starts", n)
		}
	}
}

func (n *node) parentState(a uint64) string {
	switch {
	case n.cur == nil:
		return "does not exist"
	case n.cur.before(a):
		return "had finished"
	}
	return "is running"
}

// checkChildren lists the children of some span.
func (w *world) checkChildren() {
	p := w.nodes[env(len(w.nodes))]
	if p.span == nil {
		return
	}
	var got []*monkit.Span
	a := seq()
	p.span.Children(func(s *monkit.Span) { got = append(got, s) })
	b := seq()
	for _, n := range w.nodes {
		if n.span == nil {
			continue
		}
		c := 0
		for _, s := range got {
			if s == n.span {
				c++
			}
		}
		switch {
		case n.before(a) && c > 0:
			fail("finished-listed", "%v had finished but is listed as a child of %v", n, p)
		case n.cur != p && c > 0:
			fail("children", "%v is listed as a child of %v", n, p)
		case n.cur == p && n.during(a, b) && p.during(a, b) && c != 1:
			fail("children", "%v, running under the running %v, is listed %d times among its children", n, p, c)
		case c > 1:
			fail("children", "%v is listed %d times as a child of %v", n, c, p)
		}
	}
}

func (w *world) checkSpanCounts() {
	ts := w.traces()
	if len(ts) == 0 {
		return
	}
	t := ts[env(len(ts))]
	a := seq()
	v := t.Spans()
	b := seq()
	var lo, hi int64
	for _, n := range w.nodes {
		// a span that is being started is not yet known to be on any trace
		if n.trace == t && n.during(a, b) {
			lo++
		}
		if (n.trace == t || n.trace == nil) && n.touches(a, b) {
			hi++
		}
	}
	if v < lo || v > hi {
		fail("trace-count", "a trace counts %d running spans, but between %d and %d were running", v, lo, hi)
	}
}
