package main

import (
	"github.com/spacemonkeygo/monkit/v3"
)

func init() { register(&Scenario{ID: "P04", Body: p04}) }

var (
	prManyParents = probe("function with several distinct callers")
	prManyFuncs   = probe("many functions")
)

func p04() {
	opts := worldOpts{budget: 10, roots: 3, depth: 5, async: 3, outcomes: pchance(3), wraps: true, funcs: 4,
		kinds: []int{kTask, kTask, kFuncTask, kReset, kRemote, kClear, kNilCtx, kNilInner, kHop, kRemoteNil}}
	if pchance(8) {
		// many callers
		opts.hub, opts.budget, opts.roots, opts.depth, opts.funcs = true, 30, 16, 2, between(8, 16)
		opts.kinds = []int{kTask, kTask, kTask, kFuncTask, kReset}
		hit(prManyFuncs)
	}
	w := newWorld(opts)
	w.started = func(n *node) { n.checkLinks() }
	w.run()
	k := between(0, 3)
	w.g.Go("call graph reader", func() {
		for i := 0; i < k; i++ {
			w.checkParents(env(len(w.funcs)))
			pause(env(20))
			nap(w.sleepy)
		}
	})
	if pchance(3) {
		// the links do not change later, and observers do not disturb them
		for _, t := range w.rtraces {
			cancel := t.ObserveSpans(&nullObserver{})
			w.g.Go("detacher", func() { pause(env(100)); cancel() })
		}
	}
	w.g.Wait()
	for _, n := range w.nodes {
		if n.span != nil {
			n.checkLinks()
		}
	}
	// distinct new traces have distinct identities
	ts := w.traces()
	for i, t := range ts {
		for _, u := range ts[:i] {
			if t.Id() == u.Id() && !w.hopped(t) && !w.hopped(u) {
				fail("trace-identity", "two traces share the id %d", t.Id())
			}
		}
	}
	for i := range w.funcs {
		w.checkParents(i)
	}
}

func (n *node) checkLinks() {
	if n.span == nil {
		return
	}
	w := n.w
	if n.span.Func() != w.funcs[n.fn] {
		fail("wrong-func", "%v belongs to another function", n)
	}
	pid, ok := n.span.ParentId()
	switch {
	case n.kind == kRemote || n.kind == kHop || n.nilHow == 2 || n.kind == kRemoteNil && n.from != nil && n.from.span != nil:
		want := w.rtraces[n.rt]
		if n.kind == kHop {
			want = n.hop
		}
		if n.kind == kRemoteNil {
			want = n.from.trace
		}
		if n.trace != want {
			fail("wrong-trace", "%v was started on a given trace but runs in another one", n)
		}
		if !ok || pid != n.pid {
			fail("wrong-parent", "%v was given the remote parent %d but reports %d (%v)", n, n.pid, pid, ok)
		}
	case n.cur == nil:
		if n.kind == kRemoteNil {
			if !ok || pid != n.pid {
				fail("wrong-parent", "%v was given the remote parent %d but reports %d (%v)", n, n.pid, pid, ok)
			}
		} else if ok {
			fail("wrong-parent", "%v has no parent but reports %d", n, pid)
		}
		for _, m := range w.nodes {
			if m != n && m.span != nil && m.trace == n.trace && !m.under(n) {
				fail("wrong-trace", "%v begins a new trace but shares it with %v", n, m)
			}
		}
	default:
		if n.cur.span == nil {
			return
		}
		if !ok || pid != n.cur.span.Id() {
			fail("wrong-parent", "%v should have the parent %d (%v) but reports %d (%v)", n, n.cur.span.Id(), n.cur, pid, ok)
		}
		if n.trace != n.cur.trace {
			fail("wrong-trace", "%v is not in the trace of its parent %v", n, n.cur)
		}
	}
	if n.span.Trace() != n.trace {
		fail("wrong-trace", "%v changed its trace", n)
	}
}

// up is the node whose span gave n its trace.
func (n *node) up() *node {
	if n.kind == kRemoteNil {
		return n.from
	}
	return n.cur
}

// under tells whether n has p among its ancestors.
func (n *node) under(p *node) bool {
	for q := n.up(); q != nil; q = q.up() {
		if q == p {
			return true
		}
	}
	return false
}

func (w *world) checkParents(i int) {
	f := w.funcs[i]
	var got []*monkit.Func
	a := seq()
	f.Parents(func(p *monkit.Func) { got = append(got, p) })
	b := seq()
	cands := append([]*monkit.Func{nil}, w.funcs...)
	distinct := 0
	for _, p := range cands {
		must, may := false, false
		for _, n := range w.nodes {
			if n.fn != i || n.s0 == 0 {
				continue
			}
			var caller *monkit.Func
			if n.cur != nil {
				caller = w.funcs[n.cur.fn]
			}
			if caller != p {
				continue
			}
			must = must || (n.s1 != 0 && n.s1 < a)
			may = may || n.s0 < b
		}
		c := 0
		for _, g := range got {
			if g == p {
				c++
			}
		}
		if must {
			distinct++
		}
		name := "an entry marker"
		if p != nil {
			name = p.FullName()
		}
		switch {
		case must && c == 0:
			fail("call-graph", "%s has been called from %s, which its callers do not contain", f.FullName(), name)
		case !may && c > 0:
			fail("call-graph", "%s has never been called from %s, which its callers contain", f.FullName(), name)
		case c > 1:
			fail("call-graph", "%s lists %s %d times among its callers", f.FullName(), name, c)
		}
	}
	if distinct > 2 {
		hit(prManyParents)
	}
	for _, g := range got {
		known := false
		for _, p := range cands {
			known = known || p == g
		}
		if !known {
			fail("call-graph", "%s lists an unknown caller", f.FullName())
		}
	}
}

// hopped tells whether t was made for a hop, with the id of another trace.
func (w *world) hopped(t *monkit.Trace) bool {
	for _, n := range w.nodes {
		if n.hop != nil && n.hop == t {
			return true
		}
	}
	return false
}
