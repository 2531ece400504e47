package main

import (
	"errors"
	"fmt"
	"io"
	"net/http"
	"net/url"
	"time"

	"simrt"
	"simrt/context"

	"github.com/spacemonkeygo/monkit/v3"
	"github.com/spacemonkeygo/monkit/v3/collect"
	mhttp "github.com/spacemonkeygo/monkit/v3/http"
	"github.com/spacemonkeygo/monkit/v3/present"
)

func init() { register(&Scenario{ID: "P18", Body: p18}) }

var (
	prCbPanic    = probe("a callback panicked")
	prCbReentry  = probe("a callback re-entered the library")
	prCbDeep     = probe("a callback re-entered the library from a re-entered callback")
	prCbSampling = probe("a sampling callback ran")
	prCbOther    = probe("an operation ran while another goroutine was inside a callback")
)

// storm is the shared state of a run of P18.
type storm struct {
	r, dr  *monkit.Registry // dr has a delta transformer
	tsrc   monkit.StatSource
	col    *collect.SpanCollector
	scs    []*monkit.Scope
	fns    []*monkit.Func
	traces []*monkit.Trace
	on     bool
	depth  map[int]int
	token  map[int]interface{} // panic a callback raised in this goroutine
	odds   int                 // one callback in odds acts
	allow  []int               // kinds of operations for re-entry
	inside int
	budget int

	incs   int64
	lo, hi []int64 // bounds for the finished calls of each function
	bad    map[error]bool
}

type stormErr struct{ st *storm }

func (e *stormErr) Error() string {
	e.st.hook("Error method")
	return "storm"
}

type namedStormErr struct{ st *storm }

func (e *namedStormErr) Error() string { return "named" }
func (e *namedStormErr) Name() (string, bool) {
	e.st.hook("Name method")
	return "N", true
}

// hook is called by every callback.
func (st *storm) hook(what string) {
	if st == nil || !st.on {
		return
	}
	st.inside++
	defer func() { st.inside-- }()
	simrt.Y()
	g := simrt.Cur()
	if st.budget <= 0 || env(st.odds) != st.odds-1 {
		return
	}
	st.budget--
	if env(2) == 0 {
		simrt.Fault(FCallbackPanic)
		hit(prCbPanic)
		t := &panicVal{int(seq())}
		st.token[g] = t
		panic(t)
	}
	if st.depth[g] >= 3 {
		return
	}
	simrt.Fault(FReentry)
	hit(prCbReentry)
	if st.depth[g] > 1 {
		hit(prCbDeep)
	}
	saved := st.token[g]
	delete(st.token, g)
	st.op(st.allow[env(len(st.allow))], env(1<<20))
	if saved != nil {
		st.token[g] = saved
	}
}

// op performs one operation and checks that panics pass unchanged.
func (st *storm) op(kind, x int) {
	g := simrt.Cur()
	st.depth[g]++
	defer func() { st.depth[g]-- }()
	if st.inside > st.depth[g]-1 {
		hit(prCbOther)
	}
	pv, panicked := guarded(func() { st.do(kind, x) })
	t, expected := st.token[g]
	delete(st.token, g)
	switch {
	case panicked && !expected:
		fail("unexpected-panic", "operation %d panicked with %v although no callback did", kind, pv)
	case !panicked && expected:
		fail("panic-swallowed", "a callback of operation %d panicked; the panic did not reach its caller", kind)
	case panicked && pv != t:
		fail("panic-changed", "a callback of operation %d panicked with %v; its caller saw %v", kind, t, pv)
	}
}

// work is a monitored call that may end with an error or a panic.
func (st *storm) work(f int, ctx context.Context, how, x int, body func(ctx context.Context)) {
	clean := true
	st.hi[f]++
	defer func() {
		if clean {
			st.lo[f]++
		}
	}()
	g := simrt.Cur()
	tok := func() interface{} { return st.token[g] }
	func() {
		var err error
		before := tok()
		var exit func(*error)
		func() {
			clean = false
			switch how % 4 {
			case 0:
				exit = st.fns[f].Task(&ctx)
			case 1:
				exit = st.fns[f].RemoteTrace(&ctx, 3, st.traces[x%len(st.traces)])
			case 2:
				exit = st.fns[f].ResetTrace(&ctx)
			case 3:
				exit = st.scs[f%len(st.scs)].TaskNamed(fmt.Sprintf("f%d", f))(&ctx)
			}
			clean = true
		}()
		_ = before
		defer func() {
			// the call counts unless finishing it was disturbed
			p := tok()
			clean = false
			exit(&err)
			clean = tok() == p
		}()
		switch x % 5 {
		case 1:
			err = io.EOF
		case 2:
			err = &stormErr{st}
		case 3:
			err = &namedStormErr{st}
		case 4:
			err = fmt.Errorf("wrapped: %w", errPlain)
		}
		if body != nil {
			body(ctx)
		}
	}()
}

type stormWriter struct{ st *storm }

func (w stormWriter) Write(p []byte) (int, error) {
	w.st.hook("writer")
	return len(p), nil
}

type stormObs struct{ st *storm }

func (o stormObs) Start(s *monkit.Span) { o.st.hook("observer start") }
func (o stormObs) Finish(s *monkit.Span, err error, panicked bool, finish time.Time) {
	o.st.hook("observer finish")
}

type stormObsCtx struct{ st *storm }

func (o stormObsCtx) Start(ctx context.Context, s *monkit.Span) context.Context {
	o.st.hook("context observer start")
	return context.WithValue(ctx, ctxK{9}, 1)
}
func (o stormObsCtx) Finish(ctx context.Context, s *monkit.Span, err error, panicked bool, finish time.Time) {
	o.st.hook("context observer finish")
}

type stormClient struct{ st *storm }

func (c stormClient) Do(req *http.Request) (*http.Response, error) {
	c.st.hook("http client")
	return &http.Response{StatusCode: 200}, nil
}

type stormStruct struct {
	A int
	B bool
}

const stormOps = 31

func (st *storm) do(kind, x int) {
	bg := context.Background()
	sc := st.scs[x%len(st.scs)]
	x /= 4
	statCb := func(monkit.SeriesKey, string, float64) { st.hook("statistics callback") }
	spanCb := func(s *monkit.Span) {
		st.hook("span callback")
		s.Annotations()
		s.Args()
		s.Orphaned()
	}
	switch kind {
	case 0:
		sc.Counter("c").Inc(1)
		st.incs++
	case 1:
		st.r.Stats(statCb)
	case 2:
		sc.Stats(statCb)
	case 3:
		st.r.RootSpans(func(s *monkit.Span) {
			spanCb(s)
			s.Children(spanCb)
		})
	case 4:
		st.r.AllSpans(spanCb)
	case 5:
		st.r.Funcs(func(f *monkit.Func) {
			st.hook("function callback")
			f.Parents(func(*monkit.Func) { st.hook("parent callback") })
		})
	case 6:
		st.r.Scopes(func(s *monkit.Scope) { st.hook("scope callback") })
	case 7, 8:
		st.work(x%len(st.fns), bg, x/3, x/7, func(ctx context.Context) { st.hook("work") })
	case 9:
		st.work(x%len(st.fns), bg, x/3, x/7, func(ctx context.Context) {
			st.work((x/2)%len(st.fns), ctx, 0, x/11, func(ctx context.Context) { st.hook("inner work") })
		})
	case 10:
		// metrics directly
		srcs := []monkit.StatSource{
			sc.Counter("c"), sc.IntVal("i"), sc.FloatVal("fl"), sc.BoolVal("b"), sc.DurationVal("d"), sc.StructVal("s"), sc.Timer("t"), sc.Meter("m"),
			monkit.StatSourceFromStruct(monkit.NewSeriesKey("x"), stormStruct{1, true}), st.fns[x%len(st.fns)],
		}
		srcs[x%len(srcs)].Stats(statCb)
	case 11:
		sc.IntVal("i").Observe(int64(x))
		sc.FloatVal("fl").Observe(float64(x))
		sc.BoolVal("b").Observe(x%2 == 0)
		sc.DurationVal("d").Observe(time.Duration(x))
		sc.StructVal("s").Observe(stormStruct{x, true})
		sc.Meter("m").Mark(1)
		sc.Event("e")
		sc.Timer("t").Start().Stop()
	case 12:
		sc.Gauge("g", func() float64 { st.hook("gauge"); return 1 })
	case 13:
		st.r.WithTransformers(monkit.CallbackTransformerFunc(func(cb func(monkit.SeriesKey, string, float64)) func(monkit.SeriesKey, string, float64) {
			st.hook("transformer")
			return func(k monkit.SeriesKey, f string, v float64) { st.hook("transformed callback"); cb(k, f, v) }
		}), monkit.NewDeltaTransformer()).Stats(statCb)
	case 14:
		w := stormWriter{st}
		switch x % 7 {
		case 0:
			present.SpansText(st.r, w)
		case 1:
			present.SpansDot(st.r, w)
		case 2:
			present.SpansJSON(st.r, w)
		case 3:
			present.FuncsText(st.r, w)
		case 4:
			present.FuncsDot(st.r, w)
		case 5:
			present.FuncsJSON(st.r, w)
		case 6:
			present.StatsJSON(st.r, w)
		}
	case 15:
		present.StatsText(st.r, stormWriter{st})
	case 16:
		t := st.traces[x%len(st.traces)]
		cancel := t.ObserveSpans(stormObs{st})
		defer cancel()
		st.work(x%len(st.fns), bg, 1, x, nil)
	case 17:
		t := st.traces[x%len(st.traces)]
		cancel := t.ObserveSpansCtx(stormObsCtx{st})
		defer cancel()
		st.work(x%len(st.fns), bg, 1, x, nil)
	case 18:
		cancel := st.r.ObserveTraces(func(t *monkit.Trace) { st.hook("trace watcher") })
		defer cancel()
		st.work(x%len(st.fns), bg, 2, x, nil)
	case 19:
		ctx := bg
		f := x % len(st.fns)
		st.hi[f]++
		exit := st.fns[f].Task(&ctx)
		g := simrt.Cur()
		defer func() {
			p := st.token[g]
			exit(nil)
			if st.token[g] == p {
				st.lo[f]++
			}
		}()
		collect.CollectSpans(ctx, func(ctx context.Context) {
			st.hook("collected work")
			st.work(x%len(st.fns), ctx, 0, x, nil)
		})
	case 20:
		cancel := collect.ObserveAllTraces(st.r, stormObs{st})
		defer cancel()
		st.work(x%len(st.fns), bg, x, x/3, nil)
	case 21:
		// a watch with a matcher that acts up in whatever starts spans
		ctx, cancel := context.WithCancel(bg)
		done := make(chan struct{})
		_ = done
		finished := false
		simrt.GoNamed("watch", func() {
			collect.WatchForSpans(ctx, st.r, func(s *monkit.Span) bool { st.hook("matcher"); return x%2 == 0 })
			finished = true
		})
		defer func() {
			cancel()
			simrt.WaitUntil("the watch to end", func() bool { return finished })
		}()
		pause(env(30))
		st.work(x%len(st.fns), bg, x, x/3, nil)
	case 22:
		t := monkit.NewTrace(int64(x))
		t.Set("k", x)
		t.GetAll()
		st.traces[x%len(st.traces)].Set(present.SampledKey, true)
		st.traces[x%len(st.traces)].Get(present.SampledKey)
	case 23:
		h := mhttp.TraceHandler(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) { st.hook("http handler") }), sc)
		h.ServeHTTP(&response{header: http.Header{}}, &http.Request{Method: "GET", Header: http.Header{}, URL: &url.URL{}})
	case 24:
		mhttp.TraceRequest(bg, sc, stormClient{st}, &http.Request{Method: "GET", Header: http.Header{}, URL: &url.URL{}})
	case 25:
		monkit.Collect(monkit.StatSourceFunc(func(cb func(monkit.SeriesKey, string, float64)) {
			st.hook("source")
			cb(monkit.NewSeriesKey("q"), "v", 1)
		}))
		st.fns[x%len(st.fns)].Errors()
		st.fns[x%len(st.fns)].SuccessTimes()
	case 26:
		// a transformer that is shared
		switch x % 4 {
		case 0:
			st.tsrc.Stats(statCb)
		case 1:
			present.StatsText(st.dr, stormWriter{st})
		default:
			st.dr.Stats(statCb)
		}
	case 27:
		// a collector that is shared
		f := x % len(st.fns)
		cancel := st.traces[0].ObserveSpans(st.col)
		defer cancel()
		st.work(f, bg, 1, 0, nil)
		st.col.Spans()
	case 28:
		ctx, cancel := context.WithCancel(bg)
		defer st.background("search", func() {
			collect.FindSpan(ctx, st.r, func(s *monkit.Span) bool { st.hook("finder's matcher"); return x%2 == 0 })
		}, cancel)()
		pause(env(30))
		st.work(x%len(st.fns), bg, x, x/3, nil)
	case 29:
		// a sampled request that comes with a sampling callback
		cancel := st.r.ObserveTraces(st.sampling)
		defer cancel()
		h := mhttp.TraceHandler(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) { st.hook("sampled http handler") }), sc)
		h.ServeHTTP(&response{header: http.Header{}}, &http.Request{Method: "GET", Header: http.Header{"Tracestate": {"sampled=true"}}, URL: &url.URL{}})
	case 30:
		// a query that samples the next trace
		w := &stormClosing{}
		path := []string{"/trace/remote", "/trace/json", "/trace/svg"}[x%3]
		p, _, err := present.FromRequest(st.r, path, url.Values{"regex": {"."}, "preselect": {"false"}})
		if err != nil {
			fail("query", "a query for %s is refused: %v", path, err)
		}
		defer st.background("query", func() { p(w) }, func() { w.closed = true })()
		pause(env(30))
		st.work(x%len(st.fns), bg, 1, x, nil)
	}
}

// sampling gives t a sampling callback.
func (st *storm) sampling(t *monkit.Trace) {
	t.Set(present.SampledCBKey, func(*monkit.Trace) {
		hit(prCbSampling)
		st.hook("sampling callback")
	})
}

// background runs f until stop; the returned function stops and awaits it.
func (st *storm) background(what string, f, stop func()) func() {
	finished := false
	simrt.GoNamed(what, func() {
		g := simrt.Cur()
		pv, panicked := guarded(f)
		if t, expected := st.token[g]; panicked != expected || panicked && pv != t {
			fail("panic-changed", "a %s panicked with %v; its callbacks with %v (%v)", what, pv, t, expected)
		}
		delete(st.token, g)
		finished = true
	})
	return func() {
		stop()
		simrt.WaitUntil("the "+what+" to end", func() bool { return finished })
	}
}

// stormClosing is a connection that fails once it is closed.
type stormClosing struct{ closed bool }

func (w *stormClosing) Write(p []byte) (int, error) {
	simrt.Y()
	if w.closed {
		return 0, errNet
	}
	return len(p), nil
}

func p18() {
	st := &storm{r: monkit.NewRegistry(), depth: map[int]int{}, token: map[int]interface{}{}, on: true, odds: []int{2, 3, 6, 20}[plan(4)], budget: 30}
	dt := monkit.NewDeltaTransformer()
	st.dr = st.r.WithTransformers(dt)
	st.tsrc = monkit.TransformStatSource(monkit.StatSourceFunc(func(cb func(monkit.SeriesKey, string, float64)) {
		st.hook("transformed source")
		cb(monkit.NewSeriesKey("ts"), "total", 1)
	}), dt)
	st.col = collect.NewSpanCollector(func(*monkit.Span) bool { st.hook("collector's matcher"); return env(3) == 2 })
	for i := 0; i < 2; i++ {
		st.scs = append(st.scs, st.r.ScopeNamed(fmt.Sprintf("s%d", i)))
	}
	for i := 0; i < 3; i++ {
		st.fns = append(st.fns, st.scs[i%2].FuncNamed(fmt.Sprintf("f%d", i)))
		st.traces = append(st.traces, monkit.NewTrace(int64(i+1)))
		st.sampling(st.traces[i])
	}
	st.lo, st.hi = make([]int64, 3), make([]int64, 3)
	st.scs[0].Chain(monkit.StatSourceFunc(func(cb func(monkit.SeriesKey, string, float64)) {
		st.hook("chained source")
		cb(monkit.NewSeriesKey("chained"), "v", 1)
	}))
	st.scs[1].Gauge("gg", func() float64 { st.hook("gauge"); return 1 })
	monkit.AddErrorNameHandler(func(err error) (string, bool) {
		st.hook("error name handler")
		return "", false
	})
	// a few spans that run all the time, so that listings have something
	ctx := context.Background()
	st.on = false
	exit := st.fns[0].Task(&ctx)
	ctx2 := ctx
	exit2 := st.fns[1].Task(&ctx2)
	st.on = true
	// the run concentrates on a few kinds of operations
	for k := between(1, 6); k > 0; k-- {
		st.allow = append(st.allow, plan(stormOps))
	}
	var g group
	for w := between(1, 3); w > 0; w-- {
		var kinds, xs []int
		for k := between(1, 5); k > 0; k-- {
			kinds = append(kinds, st.allow[plan(len(st.allow))])
			xs = append(xs, plan(1<<16))
		}
		g.Go(fmt.Sprintf("worker %d", w), func() {
			for i := range kinds {
				st.op(kinds[i], xs[i])
			}
		})
	}
	g.Wait()
	st.on = false
	exit2(nil)
	exit(nil)
	st.lo[0]++
	st.hi[0]++
	st.lo[1]++
	st.hi[1]++
	// everything still works
	try := append([]int{0, 1, 4, 5, 7}, st.allow...)
	for i := 0; i < 4; i++ {
		try = append(try, env(stormOps))
	}
	for _, k := range try {
		pv, panicked := guarded(func() {
			st.do(k, k)
			st.do(k, k+1)
		})
		if panicked {
			fail("wedged", "after callbacks panicked, operation %d panics: %v", k, pv)
		}
	}
	var incs int64
	for _, s := range st.scs {
		incs += s.Counter("c").Current()
	}
	if incs != st.incs {
		fail("data-lost", "counters were incremented %d times, their values add up to %d", st.incs, incs)
	}
	for i, f := range st.fns {
		n := f.Success() + f.Panics()
		for _, c := range f.Errors() {
			n += c
		}
		if n < st.lo[i] || n > st.hi[i] {
			fail("data-lost", "function %s: %d calls are recorded, %d to %d were made", f.FullName(), n, st.lo[i], st.hi[i])
		}
	}
	if errors.Is(nil, errPlain) {
		return
	}
}
