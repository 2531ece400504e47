package main

import (
	"fmt"
	"runtime"
	"time"

	"simrt"
	"simrt/context"

	"github.com/spacemonkeygo/monkit/v3"
)

func init() { register(&Scenario{ID: "P02", Body: p02}) }

var (
	prCancelInside   = probe("context cancelled while monitored calls ran in it")
	prObserverChange = probe("observer attached or detached between a call's start and end")
	prGoexit         = probe("a goroutine ended itself inside monitored calls")
	prRuntimePanic   = probe("monitored code died of a runtime error")
)

// layer is one derivation of a context.
type layer struct {
	kind  int
	key   int
	after time.Duration
}

const (
	lSpan = iota
	lValue
	lCancel
	lDeadline
	lReset
	lWrap
	lFuncSpan
	lResetTrace
	lRemote
	lStrValue
)

type strKey string

type expectCtx struct {
	keys   []interface{}
	vals   []interface{}
	dl     time.Time
	hasDL  bool
	cancel []*canceled // every cancellation this context is subject to
	span   bool
}

type canceled struct {
	at  uint64 // cancel called (event number), 0: not yet
	end uint64 // cancel returned
	dl  int64  // deadline in monotonic time, 0: none
}

type p02state struct {
	fs     []*monkit.Func
	tasks  []monkit.Task
	auto   monkit.Task
	nested bool
	stat   *monkit.FuncStats
	rt     *monkit.Trace
	traces []*monkit.Trace
	sleepy int64
	g      group
}

func p02() {
	st := &p02state{rt: monkit.NewTrace(77)}
	r := monkit.NewRegistry()
	sc := r.ScopeNamed("s")
	for i := 0; i < 2; i++ {
		st.fs = append(st.fs, sc.FuncNamed(fmt.Sprintf("f%d", i)))
		st.tasks = append(st.tasks, sc.TaskNamed(fmt.Sprintf("f%d", i)))
	}
	st.auto = sc.Task()
	st.stat = monkit.NewFuncStats(monkit.NewSeriesKey("x"))
	st.sleepy = []int64{0, 0, 5, 1000}[plan(4)]
	workers := between(1, 3)
	st.traces = append(st.traces, st.rt)
	cancelW := func() {}
	if pchance(2) {
		cancelW = r.ObserveTraces(func(t *monkit.Trace) { st.traces = append(st.traces, t) })
	}
	for i := 0; i < workers; i++ {
		var ls []layer
		n := between(1, 7)
		if pchance(15) {
			n = between(15, 50)
		}
		for k := n; k > 0; k-- {
			ls = append(ls, layer{kind: plan(10), key: plan(3), after: time.Duration(1+plan(2000)) * []time.Duration{1, time.Microsecond, time.Second}[plan(3)]})
		}
		var outs []outcome
		for range ls {
			o := genOutcome()
			if o.kind == 2 && plan(4) == 1 {
				o.kind = 4 // a runtime error
			}
			outs = append(outs, o)
		}
		nilErr := plan(3)
		st.g.Go("worker", func() {
			st.level(ls, outs, context.Background(), &expectCtx{}, nilErr)
		})
	}
	if pchance(4) {
		o := genOutcome()
		inner := plan(2)
		st.g.Go("leaver", func() { st.goexit(o, inner) })
	}
	nobs := between(0, 3)
	for i := 0; i < nobs; i++ {
		st.g.Go("observer", func() {
			for k := 0; k < 3; k++ {
				t := st.traces[env(len(st.traces))]
				var cancel func()
				if env(2) == 0 {
					cancel = t.ObserveSpans(&nullObserver{})
				} else {
					cancel = t.ObserveSpansCtx(&ctxObserver{})
				}
				pause(env(30))
				nap(st.sleepy)
				cancel()
				hit(prObserverChange)
			}
		})
	}
	st.g.Wait()
	cancelW()
	// the calls were counted as what they were, also with nil context or error
	for i, f := range st.fs {
		for how := 0; how < 5; how++ {
			f := f
			start := func(c *context.Context) func(*error) {
				switch how {
				case 0:
					return f.Task(c)
				case 1:
					return st.tasks[i](c, 1)
				case 2:
					return f.RemoteTrace(c, 5, st.rt, "x")
				case 3:
					return f.ResetTrace(c)
				}
				return st.auto(c)
			}
			if how == 4 {
				var c context.Context
				exit := start(&c)
				f = monkit.SpanFromCtx(c).Func()
				exit(nil)
			}
			before := f.Success()
			start(nil)(nil)
			var ctx context.Context
			start(&ctx)(nil)
			start(nil)(nil)
			if ctx == nil || ctx.Err() != nil || ctx.Done() != nil {
				fail("nil-context", "a nil context did not become a background context with a span: %v", ctx)
			}
			if _, ok := ctx.Deadline(); ok || ctx.Value(ctxK{1}) != nil {
				fail("nil-context", "a nil context did not become a background context with a span")
			}
			if s := monkit.SpanFromCtx(ctx); s == nil || s.Func() != f {
				fail("nil-context", "a nil context did not get the span of the call")
			} else if _, has := s.ParentId(); has != (how == 2) {
				fail("nil-context", "a call without a context has a parent")
			}
			if f.Success() != before+3 {
				fail("nil-error", "calls without an error pointer were not counted as successes")
			}
		}
		f.Parents(func(p *monkit.Func) {
			if p != nil && !st.nested {
				fail("nil-context", "a call without a context has a caller")
			}
		})
	}
}

// goexit: a goroutine that ends itself inside monitored calls is ended, runs
// its deferred functions, and finishes the calls.
func (st *p02state) goexit(o outcome, inner int) {
	hit(prGoexit)
	st.nested = true
	ran, left := 0, error(nil)
	var ctx context.Context = context.Background()
	defer func() {
		if r := recover(); r != nil {
			fail("panic-invented", "a goroutine that ended itself panicked with %v", r)
		}
		if ran != 2 {
			fail("deferred", "%d of 2 deferred functions of monitored calls had run when a goroutine ended", ran)
		}
		if left != o.err {
			fail("error-changed", "a call that set its error to %v and ended its goroutine was left with %v", o.err, left)
		}
		if s := monkit.SpanFromCtx(ctx); s == nil || s.Trace().Spans() != 0 {
			fail("goexit", "a call still runs after its goroutine ended")
		}
	}()
	func() {
		var err error
		defer func() { ran++; left = err }()
		if inner == 1 {
			defer st.stat.Observe()(&err)
		}
		defer st.fs[0].Task(&ctx)(&err)
		c := ctx
		defer func() { ran++ }()
		defer st.tasks[1](&c)(nil)
		err = o.err
		runtime.Goexit()
	}()
	fail("goexit", "a goroutine that ended itself inside a monitored call went on")
}

type nullObserver struct{}

func (*nullObserver) Start(s *monkit.Span)                                 {}
func (*nullObserver) Finish(s *monkit.Span, e error, p bool, f2 time.Time) {}

// ctxObserver replaces the context of the calls it sees by a wrapped one.
type ctxObserver struct{}

func (*ctxObserver) Start(ctx context.Context, s *monkit.Span) context.Context {
	return context.WithValue(ctx, strKey("observer"), s)
}
func (*ctxObserver) Finish(ctx context.Context, s *monkit.Span, e error, p bool, f2 time.Time) {}

func (st *p02state) check(ctx context.Context, e *expectCtx) {
	for i, k := range e.keys {
		want := e.vals[i]
		// a later value for the same key hides the earlier one
		for j := i + 1; j < len(e.keys); j++ {
			if e.keys[j] == k {
				want = e.vals[j]
			}
		}
		if got := ctx.Value(k); got != want {
			fail("context-value", "value of key %v is %v instead of %v", k, got, want)
		}
	}
	if v := ctx.Value(ctxK{99}); v != nil {
		fail("context-value", "value of an unknown key is %v", v)
	}
	dl, ok := ctx.Deadline()
	if ok != e.hasDL || (ok && !dl.Equal(e.dl)) {
		fail("context-deadline", "deadline is %v (%v) instead of %v (%v)", dl, ok, e.dl, e.hasDL)
	}
	a := seq()
	err := ctx.Err()
	b := seq()
	must, may := false, false
	for _, c := range e.cancel {
		must = must || (c.end != 0 && c.end < a)
		may = may || (c.at != 0 && c.at < b) || (c.dl != 0 && now() >= c.dl)
	}
	if must && err == nil {
		fail("context-cancel", "the context is not cancelled although one it derives from is")
	}
	if !may && err != nil {
		fail("context-cancel", "the context is cancelled (%v) although none it derives from is", err)
	}
	if must {
		hit(prCancelInside)
		if ctx.Done() == nil {
			fail("context-cancel", "a cancelled context has no Done channel")
		}
		if !canRecv(ctx.Done()) {
			fail("context-cancel", "the Done channel of a cancelled context is not closed")
		}
	}
	if e.span != (monkit.SpanFromCtx(ctx) != nil) {
		fail("context-span", "the context carries a span: %v, should be %v", !e.span, e.span)
	}
}

func (st *p02state) level(ls []layer, outs []outcome, ctx context.Context, e *expectCtx, nilErr int) {
	st.check(ctx, e)
	if len(ls) == 0 {
		return
	}
	l, o := ls[0], outs[0]
	ne := *e
	next := func(c context.Context) {
		nap(st.sleepy)
		st.level(ls[1:], outs[1:], c, &ne, nilErr)
		st.check(c, &ne)
	}
	switch l.kind {
	case lValue, lStrValue:
		var k interface{} = ctxK{l.key}
		if l.kind == lStrValue {
			k = strKey(fmt.Sprint("k", l.key))
		}
		v := &panicVal{len(ls)}
		ne.keys = append(append([]interface{}{}, e.keys...), k)
		ne.vals = append(append([]interface{}{}, e.vals...), v)
		next(context.WithValue(ctx, k, v))
		return
	case lCancel:
		c, cancel := context.WithCancel(ctx)
		rec := &canceled{}
		ne.cancel = append(append([]*canceled{}, e.cancel...), rec)
		do := func() {
			if rec.at == 0 {
				rec.at = seq()
			}
			simrt.Fault(FCancel)
			cancel()
			rec.end = seq()
		}
		if l.after%2 == 0 {
			st.g.Go("canceller", func() { pause(env(60)); nap(st.sleepy); do() })
		}
		next(c)
		do()
		return
	case lDeadline:
		at := simrt.Peek().Add(l.after)
		rec := &canceled{dl: now() + int64(l.after)}
		c, cancel := context.WithDeadline(ctx, at)
		ne.cancel = append(append([]*canceled{}, e.cancel...), rec)
		if !ne.hasDL || at.Before(ne.dl) {
			ne.dl, ne.hasDL = at, true
		}
		next(c)
		rec.at = seq()
		cancel()
		return
	case lReset:
		ne.span = false
		next(monkit.ResetContextSpan(ctx))
		return
	case lWrap:
		next(wrapCtx{ctx})
		return
	}
	// a monitored call
	st.nested = st.nested || ne.span
	ne.span = true
	var gotErr, leftErr error
	pv, panicked := guarded(func() {
		gotErr = func() (err error) {
			defer func() { leftErr = err }()
			c := ctx
			var exit func(*error)
			switch l.kind {
			case lFuncSpan:
				exit = st.fs[l.key%2].Task(&c, "arg", 7)
			case lResetTrace:
				exit = st.fs[l.key%2].ResetTrace(&c)
			case lRemote:
				exit = st.fs[l.key%2].RemoteTrace(&c, 5, st.rt)
			default:
				exit = st.tasks[l.key%2](&c)
			}
			if nilErr == 1 {
				defer exit(nil)
			} else {
				defer exit(&err)
			}
			if nilErr == 2 {
				defer st.stat.Observe()(&err)
			} else if nilErr == 1 && l.key == 1 {
				defer st.stat.Observe()(nil)
			}
			next(c)
			if o.kind == 4 {
				hit(prRuntimePanic)
				simrt.Fault(FWorkPanic)
				var a []int
				_ = a[len(ls)]
			}
			err = o.err
			o.act(&err)
			return err
		}()
	})
	if leftErr != o.err {
		fail("error-changed", "a call that set its error to %v (outcome %d) was left with %v", o.err, o.kind, leftErr)
	}
	switch o.kind {
	case 0, 1:
		if panicked {
			fail("panic-invented", "a call that returned was seen panicking with %v", pv)
		}
		if gotErr != o.err {
			fail("error-changed", "a call that returned %v was seen returning %v", o.err, gotErr)
		}
	case 4:
		re, ok := pv.(error)
		if !panicked || !ok || re.Error() != fmt.Sprintf("runtime error: index out of range [%d] with length 0", len(ls)) {
			fail("panic-changed", "a runtime error reached the caller as %v (%v)", pv, panicked)
		}
	default:
		if !panicked || pv != o.pv {
			fail("panic-changed", "a call that panicked with %v was seen ending with %v (%v)", o.pv, pv, panicked)
		}
	}
	st.check(ctx, e)
}
