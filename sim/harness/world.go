package main

import (
	"fmt"
	"math"
	"time"

	"simrt"
	"simrt/context"

	"github.com/spacemonkeygo/monkit/v3"
)

// how a span of the workload is started
const (
	kTask       = iota // a Task of the scope
	kFuncTask          // Func.Task
	kReset             // Func.ResetTrace
	kRemote            // Func.RemoteTrace with a trace of the world
	kClear             // Task on a context whose span was cleared
	kNilCtx            // Task(nil)
	kNilInner          // Task(&ctx) with a nil ctx
	kHop               // Func.RemoteTrace with a new trace of the caller's trace id and span id, as after a hop to the same process
	kRemoteNil         // Func.RemoteTrace without a trace: the context's
	kScopedTask        // Task held in a variable, shared between goroutines
)

// node is one monitored call of the workload, planned beforehand, and its
// history once it has run.
type node struct {
	w       *world
	id      int
	kind    int
	fn      int
	wrap    int
	async   bool // runs in a goroutine of its own, which may outlive the parent
	late    bool // an async node that starts after its parent has finished
	o       outcome
	kids    []*node
	naps    int
	args    []interface{}
	rt      int   // remote trace index
	pid     int64 // remote parent id
	tid     int64 // trace id of a hop
	hop     *monkit.Trace
	parent  *node // the planned enclosing node (by program structure)
	cur     *node // expected parent span (by context)
	from    *node // node of the context's innermost span
	nilHow  int   // entry point used without a context
	span    *monkit.Span
	trace   *monkit.Trace
	ctx     context.Context
	s0, s1  uint64
	s2, s3  uint64
	t0, t1  int64
	t2, t3  int64
	annots  []string
	visited int
	end     time.Time // as observers were told
}

func (n *node) String() string { return fmt.Sprintf("span %d", n.id) }

// running for the whole of [a, b]
func (n *node) during(a, b uint64) bool { return n.s1 != 0 && n.s1 < a && (n.s2 == 0 || n.s2 > b) }

// finished before a
func (n *node) before(a uint64) bool { return n.s3 != 0 && n.s3 < a }

// possibly running at some point of [a, b]
func (n *node) touches(a, b uint64) bool { return n.s0 != 0 && n.s0 < b && (n.s3 == 0 || n.s3 > a) }

// steady: the span runs during all of [a, b] and its ancestors either do, or
// had finished before.
func (n *node) steady(a, b uint64) bool {
	if !n.during(a, b) {
		return false
	}
	for p := n.cur; p != nil; p = p.cur {
		if !p.during(a, b) && !p.before(a) {
			return false
		}
	}
	return true
}

type world struct {
	r       *monkit.Registry
	r2      *monkit.Registry // some scopes may belong to another registry
	scopes  []*monkit.Scope
	funcs   []*monkit.Func
	tasks   []monkit.Task
	nodes   []*node
	roots   []*node
	rtraces []*monkit.Trace
	g       group
	sleepy  int64
	ends    map[*monkit.Span]time.Time // as observers were told
	cancels bool
	// hooks
	inside  func(n *node, ctx context.Context, errp *error)
	started func(n *node)
	ended   func(n *node)
}

type worldOpts struct {
	budget   int // spans
	roots    int
	depth    int
	kinds    []int
	async    int // one in async nodes runs in its own goroutine (0: none)
	outcomes bool
	wraps    bool
	sleepy   []int64
	funcs    int
	rtraces  int
	regs     bool // functions may belong to several registries
	hub      bool // many functions call the same one
	wide     bool // some calls make many calls
	deep     bool // one chain of many nested calls
}

func newWorld(o worldOpts) *world {
	w := &world{r: monkit.NewRegistry()}
	ns := between(1, 2)
	for i := 0; i < ns; i++ {
		r := w.r
		if i > 0 && o.regs {
			switch plan(4) {
			case 1:
				// the same one by another name
				r = w.r.WithTransformers()
			case 2, 3:
				w.r2 = monkit.NewRegistry()
				r = w.r2
			}
		}
		w.scopes = append(w.scopes, r.ScopeNamed(fmt.Sprintf("scope%d", i)))
	}
	if o.funcs == 0 {
		o.funcs = 3
	}
	same := 1
	if ns > 1 && plan(3) == 1 {
		same = ns // functions of different scopes share their names
	}
	for i := 0; o.hub && i < o.funcs || !o.hub && i < between(1, o.funcs); i++ {
		name := fmt.Sprintf("f%d", i/same)
		f := w.scopes[i%ns].FuncNamed(name)
		w.funcs = append(w.funcs, f)
		w.tasks = append(w.tasks, w.scopes[i%ns].TaskNamed(name))
	}
	if pchance(4) {
		// a task named after the function that uses it
		i := plan(len(w.funcs))
		w.funcs[i] = w.scopes[0].FuncNamed("(*world).start")
		w.tasks[i] = w.scopes[0].Task()
	}
	if o.rtraces == 0 {
		o.rtraces = 2
	}
	for i := 0; i < o.rtraces; i++ {
		w.rtraces = append(w.rtraces, monkit.NewTrace(int64(1000+i)))
	}
	if o.sleepy == nil {
		o.sleepy = []int64{0, 0, 3, 1000}
	}
	w.sleepy = o.sleepy[plan(len(o.sleepy))]
	budget := between(1, o.budget)
	roots := between(1, o.roots)
	if o.hub {
		budget, roots = o.budget, o.roots
	}
	for i := 0; i < roots && len(w.nodes) < o.budget; i++ {
		w.roots = append(w.roots, w.gen(o, nil, o.depth, &budget))
	}
	if o.deep {
		w.deepen(o, between(15, 60))
	}
	return w
}

// deepen adds a chain of n nested calls below the last call made.
func (w *world) deepen(o worldOpts, n int) {
	p := w.nodes[len(w.nodes)-1]
	o.kinds, o.wide = []int{kTask, kFuncTask}, false
	for ; n > 0; n-- {
		one := 1
		k := w.gen(o, p, 1, &one)
		k.naps = 0
		k.late = k.late && pchance(10)
		if p.kind == kNilCtx {
			k.kind = kTask
		}
		p.kids = append(p.kids, k)
		p = k
	}
}

// remoteID is a span id of another process.
func remoteID() int64 {
	switch plan(8) {
	case 1:
		return 0
	case 2:
		return []int64{1, -1, math.MaxInt64, math.MinInt64}[plan(4)]
	}
	return int64(uint64(plan(1<<30))<<34 ^ uint64(plan(1<<30))<<4 ^ uint64(plan(16)))
}

func (w *world) gen(o worldOpts, parent *node, depth int, budget *int) *node {
	n := &node{w: w, id: len(w.nodes), parent: parent}
	w.nodes = append(w.nodes, n)
	*budget--
	n.kind = kTask
	if len(o.kinds) > 0 {
		n.kind = o.kinds[plan(len(o.kinds))]
	}
	n.fn = plan(len(w.funcs))
	if o.hub {
		n.fn = len(w.roots) % len(w.funcs)
		if parent != nil {
			n.fn = 0
		}
	}
	if o.outcomes {
		n.o = genOutcome()
	}
	if o.wraps {
		n.wrap = plan(7)
	}
	if parent != nil && o.async > 0 {
		n.async = pchance(o.async)
		if n.async {
			n.late = pchance(4)
		}
	}
	if n.kind == kNilCtx || n.kind == kNilInner {
		n.nilHow = plan(4)
	}
	if n.kind == kRemote || n.kind == kRemoteNil || n.nilHow == 2 {
		n.rt = plan(len(w.rtraces))
		n.pid = remoteID()
	}
	n.naps = plan(3)
	if o.wide && depth > 1 && n.kind != kNilCtx && pchance(3) {
		// leaves
		extra := between(4, 16)
		for k := extra; k > 0; k-- {
			n.kids = append(n.kids, w.gen(o, n, 1, &extra))
		}
	}
	if depth > 1 {
		for k := plan(4); k > 0 && *budget > 0; k-- {
			n.kids = append(n.kids, w.gen(o, n, depth-1, budget))
		}
	}
	return n
}

// run starts every root in a goroutine of its own.
func (w *world) run() {
	for _, n := range w.roots {
		n := n
		w.g.Go(fmt.Sprintf("root %d", n.id), func() { w.exec(n, context.Background(), nil) })
	}
}

type wrapCtx struct{ context.Context }

type ctxK struct{ n int }

func (w *world) wrapped(ctx context.Context, kind int) (context.Context, func()) {
	none := func() {}
	switch kind {
	case 1:
		return context.WithValue(ctx, ctxK{1}, "v"), none
	case 2:
		c, cancel := context.WithCancel(ctx)
		return c, cancel
	case 3:
		c, cancel := context.WithTimeout(ctx, time.Hour)
		return c, cancel
	case 4:
		return wrapCtx{ctx}, none
	case 5:
		c, cancel := context.WithCancel(wrapCtx{context.WithValue(ctx, ctxK{2}, "w")})
		return c, cancel
	}
	return ctx, none
}

// start calls the library to begin n's span on ctx; cur is the node of the
// innermost span of ctx.
func (w *world) start(n *node, ctx *context.Context, cur *node) (exit func(*error)) {
	n.cur, n.from = cur, cur
	f := w.funcs[n.fn]
	switch n.kind {
	case kClear:
		*ctx = monkit.ResetContextSpan(*ctx)
		n.cur = nil
	case kReset, kRemote, kHop, kRemoteNil:
		n.cur = nil
	case kNilCtx, kNilInner:
		n.cur = nil
	}
	if n.kind == kHop {
		n.tid, n.pid = 77, 78
		if cur != nil {
			n.tid, n.pid = cur.trace.Id(), cur.span.Id()
		}
		n.hop = monkit.NewTrace(n.tid)
	}
	n.t0, n.s0 = now(), seq()
	switch n.kind {
	case kHop:
		exit = f.RemoteTrace(ctx, n.pid, n.hop, n.args...)
	case kReset:
		exit = f.ResetTrace(ctx, n.args...)
	case kRemote:
		exit = f.RemoteTrace(ctx, n.pid, w.rtraces[n.rt], n.args...)
	case kFuncTask:
		exit = f.Task(ctx, n.args...)
	case kRemoteNil:
		exit = f.RemoteTrace(ctx, n.pid, nil, n.args...)
	case kNilCtx, kNilInner:
		c := ctx
		if n.kind == kNilCtx {
			c = nil
		} else {
			*c = nil
		}
		switch n.nilHow {
		case 0:
			exit = f.Task(c, n.args...)
		case 1:
			exit = w.tasks[n.fn](c, n.args...)
		case 2:
			exit = f.RemoteTrace(c, n.pid, w.rtraces[n.rt], n.args...)
		case 3:
			exit = f.ResetTrace(c, n.args...)
		}
	default:
		exit = w.tasks[n.fn](ctx, n.args...)
	}
	n.t1, n.s1 = now(), seq()
	if n.kind != kNilCtx {
		n.span = monkit.SpanFromCtx(*ctx)
		if n.span == nil {
			fail("no-span", "%v: the context of a monitored call carries no span", n)
		}
		n.trace = n.span.Trace()
	}
	n.ctx = *ctx
	if w.started != nil {
		w.started(n)
	}
	return exit
}

// in tells whether n's function belongs to registry r, which is r or r2.
func (w *world) in(n *node, r *monkit.Registry) bool {
	if w.r2 == nil {
		return true
	}
	return (w.funcs[n.fn].Scope() == w.scopes[1]) == (r == w.r2)
}

// exec runs the planned call n on ctx.
func (w *world) exec(n *node, ctx context.Context, cur *node) {
	pv, panicked := guarded(func() {
		var err error
		c, cancel := w.wrapped(ctx, n.wrap)
		defer cancel()
		exit := w.start(n, &c, cur)
		inner := n
		if n.kind == kNilCtx {
			// the caller has no context from this call: the enclosing one stays
			inner, c = cur, ctx
		}
		defer func() {
			n.t3, n.s3 = now(), seq()
			if w.ended != nil {
				w.ended(n)
			}
		}()
		defer exit(&err)
		defer func() { n.t2, n.s2 = now(), seq() }()
		for i := 0; i < n.naps; i++ {
			nap(w.sleepy)
		}
		if w.inside != nil {
			w.inside(n, c, &err)
		}
		for _, k := range n.kids {
			k := k
			if !k.async {
				w.exec(k, c, inner)
				continue
			}
			w.g.Go(fmt.Sprintf("async %d", k.id), func() {
				if k.late {
					simrt.WaitUntil("parent to finish", func() bool { return n.s3 != 0 })
				}
				w.exec(k, c, inner)
			})
		}
		n.o.act(&err)
	})
	if panicked != (n.o.kind >= 2) || pv != n.o.pv {
		fail("panic-changed", "%v: ended with panic %v (%v), seen by its caller as %v (%v)", n, n.o.pv, n.o.kind >= 2, pv, panicked)
	}
}

// byTrace lists the nodes that ran on trace t.
func (w *world) byTrace(t *monkit.Trace) (out []*node) {
	for _, n := range w.nodes {
		if n.trace == t {
			out = append(out, n)
		}
	}
	return out
}

func (w *world) of(s *monkit.Span) *node {
	for _, n := range w.nodes {
		if n.span == s {
			return n
		}
	}
	return nil
}

// traces lists the distinct traces used so far.
func (w *world) traces() (out []*monkit.Trace) {
next:
	for _, n := range w.nodes {
		if n.trace == nil {
			continue
		}
		for _, t := range out {
			if t == n.trace {
				continue next
			}
		}
		out = append(out, n.trace)
	}
	return out
}
