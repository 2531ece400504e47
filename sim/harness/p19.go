package main

import (
	"bytes"
	"fmt"
	"io"
	"net/http"
	"net/url"
	"time"

	"simrt"
	"simrt/context"
	simdebug "simrt/debug"
	simos "simrt/os"
	simsyscall "simrt/syscall"

	"github.com/spacemonkeygo/monkit/v3"
	"github.com/spacemonkeygo/monkit/v3/collect"
	"github.com/spacemonkeygo/monkit/v3/environment"
	mhttp "github.com/spacemonkeygo/monkit/v3/http"
	"github.com/spacemonkeygo/monkit/v3/present"
)

func init() { register(&Scenario{ID: "P19", Body: p19}) }

var (
	prMixOps   = probe("three or more goroutines used the library at the same time")
	prMixQuery = probe("a trace query ended in the mix")
	prMixEnv   = probe("environment metrics collected in the mix")
)

// The scenario also runs with the race detector, which sees the accesses of
// the library and of the standard library, but not those of the harness: its
// goroutines share nothing but objects of the library, and no maps, strings
// or growing slices of their own.

type mixFile struct{ data *bytes.Reader }

func (f *mixFile) Read(p []byte) (int, error) { return f.data.Read(p) }
func (f *mixFile) Readdirnames(n int) ([]string, error) {
	if f.data.Len() == 0 {
		return nil, io.EOF
	}
	f.data.ReadByte()
	return []string{"1"}, nil
}
func (f *mixFile) Close() error { return nil }

func mixOpen(name string) (simos.Handle, error) {
	switch name {
	case "/proc/self/stat":
		var b bytes.Buffer
		b.WriteString("1 (x) S")
		for i := 0; i < 49; i++ {
			b.WriteString(" 7")
		}
		return &mixFile{bytes.NewReader(b.Bytes())}, nil
	case "/proc/self/statm":
		return &mixFile{bytes.NewReader([]byte("1 2 3 4 5 6 7\n"))}, nil
	}
	return &mixFile{bytes.NewReader([]byte("xyz"))}, nil
}

func mixGC(s *simdebug.GCStats) {
	// never fewer than before; the last 256 pauses are kept
	n := int64(simrt.Mono() / 1000)
	s.NumGC = n
	if n > 256 {
		n = 256
	}
	for i := int64(0); i < n; i++ {
		s.Pause = append(s.Pause, time.Duration(i))
	}
}

type quietObs struct{}

func (quietObs) Start(s *monkit.Span) {
	s.Func().FullName()
	s.ParentId()
	s.Trace().Id()
}
func (quietObs) Finish(s *monkit.Span, err error, panicked bool, finish time.Time) {
	s.Annotations()
	s.Args()
	s.Duration()
	s.Orphaned()
}

type quietObsCtx struct{}

func (quietObsCtx) Start(ctx context.Context, s *monkit.Span) context.Context {
	return context.WithValue(ctx, ctxK{3}, 1)
}
func (quietObsCtx) Finish(ctx context.Context, s *monkit.Span, err error, panicked bool, finish time.Time) {
}

type quietClient struct{}

func (quietClient) Do(r *http.Request) (*http.Response, error) {
	return &http.Response{StatusCode: 200}, nil
}

// brokenAfter fails from its n-th write on.
type brokenAfter struct{ n int }

func (b *brokenAfter) Write(p []byte) (int, error) {
	b.n--
	if b.n < 0 {
		return 0, errSink
	}
	return len(p), nil
}

type mix struct {
	r       *monkit.Registry
	dr      *monkit.Registry // derived, with a delta transformer
	scs     [2]*monkit.Scope
	fns     [3]*monkit.Func
	task    monkit.Task
	traces  [3]*monkit.Trace
	ctx     context.Context // of a long running span
	rt      *monkit.RunningTimer
	ctr     *monkit.Counter
	meters  [2]*monkit.Meter
	fs      *monkit.FuncStats
	key     monkit.SeriesKey
	tags    *monkit.TagSet
	handler http.Handler
	col     *collect.SpanCollector
	reports [4]present.Result
	pages   http.Handler
	tsrc    monkit.StatSource
	mainG   int
}

const mixOps = 47

func (m *mix) call(how, x int, parent context.Context, body func(context.Context)) {
	ctx := parent
	var err error
	var exit func(*error)
	f := m.fns[x%3]
	switch how % 6 {
	case 0:
		exit = f.Task(&ctx, x, "arg")
	case 1:
		exit = f.RemoteTrace(&ctx, int64(x), m.traces[x%3])
	case 2:
		exit = f.ResetTrace(&ctx)
	case 3:
		exit = m.task(&ctx, x)
	case 4:
		exit = m.scs[x%2].TaskNamed("named")(&ctx)
	case 5:
		exit = m.scs[x%2].Func().Task(&ctx)
	}
	pv, panicked := guarded(func() {
		defer exit(&err)
		monkit.SpanFromCtx(ctx).Annotate("a", "b")
		if body != nil {
			body(ctx)
		}
		switch x % 7 {
		case 1:
			err = io.EOF
		case 2:
			err = &namedErr{"A"}
		case 3:
			panic(errPlain)
		case 4:
			err = errPlain
		}
	})
	if panicked && pv != errPlain {
		panic(pv)
	}
}

func (m *mix) do(kind, x int) {
	bg := context.Background()
	sc := m.scs[x%2]
	sink := func(k monkit.SeriesKey, f string, v float64) { _ = k.WithField(f) }
	var buf bytes.Buffer
	ctx := bg
	if x%3 == 1 {
		ctx = m.ctx
	}
	switch kind {
	case 0:
		m.call(x/2, x/3, ctx, nil)
	case 1:
		m.call(x/2, x/3, ctx, func(c context.Context) { m.call(x/5, x/7, c, func(c context.Context) { nap(1000) }) })
	case 2:
		m.call(x/2, x/3, ctx, func(c context.Context) { nap(3000) })
	case 3:
		m.r.Stats(sink)
	case 4:
		m.dr.Stats(sink)
	case 5:
		m.r.RootSpans(func(s *monkit.Span) { s.Children(func(s *monkit.Span) { s.Duration(); s.Annotations(); s.Args() }) })
	case 6:
		m.r.AllSpans(func(s *monkit.Span) { s.Orphaned(); s.ParentId(); s.Start(); s.Trace().Spans(); _ = s.String() })
	case 7:
		m.r.Funcs(func(f *monkit.Func) {
			f.Parents(func(p *monkit.Func) {})
			f.Current()
			f.Highwater()
			f.Success()
			f.Panics()
			f.Errors()
			f.SuccessTimes().Query(.5)
			f.FailureTimes().FullAverage()
			f.ShortName()
			f.FullName()
			f.Id()
		})
	case 8:
		m.r.Scopes(func(s *monkit.Scope) { s.Name() })
	case 9:
		c := sc.Counter("c", monkit.NewSeriesTag("k", "v"))
		c.Inc(1)
		c.Dec(2)
		c.Set(int64(x))
		c.High()
		c.Low()
		c.Current()
		m.ctr.Inc(1)
		if x%5 == 0 {
			m.ctr.Reset()
		}
	case 10:
		sc.IntVal("i").Observe(int64(x))
		sc.IntVal("i").Quantile(.9)
		sc.IntValf("i%d", x%2).Observe(1)
	case 11:
		sc.FloatVal("f").Observe(float64(x))
		sc.FloatVal("f").Quantile(.9)
	case 12:
		sc.BoolVal("b").Observe(x%2 == 0)
		sc.DurationVal("d").Observe(time.Duration(x))
		sc.DurationVal("d").Quantile(0)
	case 13:
		sc.StructVal("s").Observe(stormStruct{x, true})
	case 14:
		t := sc.Timer("t").Start()
		t.Elapsed()
		t.Stop()
		sc.Timer("t").Values().Query(1)
	case 15:
		m.rt.Stop()
		m.rt.Elapsed()
	case 16:
		m.meters[x%2].Mark(x)
		m.meters[x%2].Rate()
		m.meters[x%2].Total()
		if x%7 == 0 {
			m.meters[x%2].Reset(3)
		}
		if x%7 == 1 {
			m.meters[x%2].SetTotal(3)
		}
		sc.Meter("mm").Mark64(1)
		sc.Event("ev", monkit.NewSeriesTag("t", "u"))
	case 17:
		sc.Gauge("g", func() float64 { return float64(x) })
	case 18:
		sc.DiffMeter("dm", m.meters[0], m.meters[1])
	case 19:
		if x%4 == 0 {
			sc.Chain(monkit.StatSourceFromStruct(monkit.NewSeriesKey("ch"), stormStruct{1, false}))
		}
	case 20:
		done := m.fs.Observe()
		var err error
		if x%2 == 0 {
			err = io.EOF
		}
		done(&err)
		m.fs.Stats(sink)
		if x%5 == 0 {
			m.fs.Reset()
		}
	case 21:
		t := m.traces[x%3]
		t.Set("k", x)
		t.Get("k")
		t.GetAll()
		t.Id()
		t.Spans()
	case 22:
		cancel := m.traces[x%3].ObserveSpans(quietObs{})
		m.call(1, x, bg, nil)
		cancel()
		cancel()
	case 23:
		cancel := m.traces[x%3].ObserveSpansCtx(quietObsCtx{})
		nap(1000)
		cancel()
	case 24:
		cancel := m.r.ObserveTraces(func(t *monkit.Trace) { t.Set("seen", true) })
		m.call(2, x, bg, nil)
		cancel()
		cancel()
	case 25:
		cancel := collect.ObserveAllTraces(m.r, quietObs{})
		nap(1000)
		cancel()
	case 26:
		c, cancel := context.WithTimeout(bg, time.Duration(1+x%5000))
		spans, _ := collect.WatchForSpans(c, m.r, func(s *monkit.Span) bool { return x%3 > 0 })
		cancel()
		for _, s := range spans {
			s.Span.Annotations()
			s.Span.Duration()
		}
		if len(spans) > 0 {
			present.SpansToJSON(&buf, spans)
			present.SpansToSVG(&buf, spans)
		}
	case 27:
		c := ctx
		exit := m.fns[x%3].Task(&c)
		spans := collect.CollectSpans(c, func(c context.Context) { m.call(0, x/2, c, func(c context.Context) { m.call(0, 0, c, nil) }) })
		exit(nil)
		for _, s := range spans {
			s.Span.Args()
		}
	case 28:
		c, cancel := context.WithTimeout(bg, time.Duration(1+x%5000))
		collect.FindSpan(c, m.r, func(s *monkit.Span) bool { return x%3 > 0 })
		cancel()
	case 29:
		present.SpansText(m.r, &buf)
		present.FuncsText(m.r, &buf)
		present.StatsText(m.r, &buf)
	case 30:
		present.SpansJSON(m.r, &buf)
		present.FuncsJSON(m.r, &buf)
		present.StatsJSON(m.dr, &buf)
	case 31:
		present.SpansDot(m.r, &buf)
		present.FuncsDot(m.r, &buf)
		present.StatsOld(m.r, &buf)
	case 32:
		// a trace query; its client fails in the end
		w := &brokenAfter{x % 3}
		f, _, err := present.FromRequest(m.r, []string{"/trace/json", "/trace/svg", "/trace/remote"}[x%3], url.Values{"regex": {"f0"}, "preselect": {"false"}})
		if err == nil {
			f(w)
		}
		hit(prMixQuery)
	case 33:
		rec := &response{header: http.Header{}}
		q := []string{"/", "/ps", "/ps/json", "/funcs/dot", "/stats/json", "/nothing", "/trace/json", "/funcs"}[x%8]
		m.pages.ServeHTTP(rec, &http.Request{Method: "GET", URL: &url.URL{Path: q}})
	case 34:
		rec := &response{header: http.Header{}}
		h := http.Header{}
		switch x % 3 {
		case 1:
			h.Set("tracestate", "sampled=true")
		case 2:
			h.Set("traceparent", "00-0000000000000001-0000000000000002-01")
			h.Set("baggage", "k=v")
		}
		m.handler.ServeHTTP(rec, &http.Request{Method: "GET", URL: &url.URL{Path: "/"}, Header: h})
	case 35:
		m.traces[x%3].Set(present.SampledKey, x%2 == 0)
		c := bg
		exit := m.fns[0].RemoteTrace(&c, 1, m.traces[x%3])
		mhttp.TraceRequest(c, sc, quietClient{}, &http.Request{Method: "GET", URL: &url.URL{Path: "/"}, Header: http.Header{}})
		exit(nil)
	case 36:
		hit(prMixEnv)
		r := monkit.NewRegistry()
		environment.Register(r)
		r.Stats(sink)
	case 37:
		s := monkit.SpanFromCtx(m.ctx)
		s.Annotate("x", "y")
		s.Annotations()
		s.Duration()
		s.Children(func(*monkit.Span) {})
		_ = m.tags.String()
		m.tags.Set("a", "b").String()
		m.tags.All()
		_ = m.key.WithField("f")
		_ = m.key.WithTag("q", "r").String()
		monkit.NewId()
	case 38:
		monkit.AddErrorNameHandler(func(err error) (string, bool) { return "", false })
		monkit.Collect(m.r)
		nr := m.r.WithTransformers(monkit.NewDeltaTransformer())
		nr.Stats(sink)
		m.r.ScopeNamed("new").Func()
		m.scs[0].FuncNamed("f0").Stats(sink)
	case 39:
		m.col.Start(monkit.SpanFromCtx(m.ctx))
		m.col.ForceStart(monkit.SpanFromCtx(m.ctx))
		m.col.Spans()
		m.col.Done()
		m.col.Finish(monkit.SpanFromCtx(m.ctx), nil, false, time.Time{})
		m.col.Stop()
	case 40:
		m.chain(x, ctx, 3+x/2%2)
	case 42:
		m.reports[x%4](&buf)
		m.tsrc.Stats(sink)
	case 43:
		// the shared task, perhaps for the first time
		m.call(3, x/3, ctx, nil)
		m.call(3, x/7, bg, nil)
	case 45:
		// the parts of a span others use at the same time
		s := monkit.SpanFromCtx(m.ctx)
		if s == nil {
			return
		}
		info := mhttp.TraceInfoFromSpan(s)
		info.SetHeader(http.Header{})
		s.Value("k")
		s.Orphaned()
		s.Trace().Spans()
		s.Annotate("n", "v")
		s.Annotations()
		s.Func().Current()
		s.Func().Parents(func(*monkit.Func) {})
		s.Children(func(c *monkit.Span) { c.Orphaned(); c.Annotations(); c.Trace().GetAll() })
		m.call(x/2, x/3, monkit.ResetContextSpan(m.ctx), nil)
	case 46:
		// metrics of one's own, and derived keys
		key := m.key.WithTags(monkit.NewSeriesTag("i", "j"))
		mm := monkit.NewMeter(key)
		mm.Mark(x)
		m.meters[x%2].Mark(1)
		monkit.NewDiffMeter(key, mm, m.meters[x%2]).Stats(sink)
		m.tags.SetAll(map[string]string{"x": "y"}).String()
		m.tags.SetTags(monkit.NewSeriesTag("z", "=")).All()
		v := sc.FloatValf("float%d", x%2)
		v.Observe(1)
		v.Stats(sink)
		sc.BoolValf("bool%d", x%2).Observe(true)
		monkit.AddErrorNameHandler(func(error) (string, bool) { return "", false })
	case 44:
		// a name that is in use for another kind of source
		var name string
		switch x % 6 {
		case 0:
			name = "i"
			sc.IntVal(name).Observe(int64(x))
		case 1:
			name = "f"
			sc.FloatVal(name)
		case 2:
			name = "b"
			sc.BoolVal(name).Observe(true)
		case 3:
			name = "s"
			sc.StructVal(name)
		case 4:
			name = "mm"
			sc.Meter(name).Mark(1)
		case 5:
			name = "t"
			sc.Timer(name)
		}
		if _, panicked := guarded(func() {
			switch x / 6 % 3 {
			case 0:
				sc.Counter(name).Inc(1)
			case 1:
				sc.Gauge(name, func() float64 { return 1 })
			case 2:
				sc.DurationVal(name).Observe(1)
			}
		}); !panicked {
			fail("no-panic", "the name %q of another kind of source was accepted", name)
		}
	case 41:
		m.chain(x, ctx, 2)
		m.r.RootSpans(func(s *monkit.Span) { s.Orphaned() })
		m.chain(x/3, ctx, 3)
	}
}

// chain opens n spans, each a child of one before it, and finishes them in
// an order of x's.
func (m *mix) chain(x int, ctx context.Context, n int) {
	var ctxs [4]context.Context
	var exits [4]func(*error)
	for i := 0; i < n; i++ {
		c := ctx
		if i > 0 {
			c = ctxs[i-1]
			if x%11 == i {
				c = ctxs[0]
			}
		}
		ctxs[i] = c
		exits[i] = m.fns[(x/7+i)%3].Task(&ctxs[i])
	}
	down := x/16%2 == 0
	for k := 0; k < n; k++ {
		i := k
		if !down {
			i = (k*(1+x/32%2*2) + x/64) % n
		}
		if n == 3 && !down && x/32%2 == 1 {
			i = n - 1 - k
		}
		if e := exits[i]; e != nil {
			exits[i] = nil
			e(nil)
		}
	}
	for i := range exits {
		if exits[i] != nil {
			exits[i](nil)
		}
	}
}

func p19() {
	simos.SimOpen = mixOpen
	simdebug.SimGCStats = mixGC
	simsyscall.SimGetrusage = defaultRusage
	m := &mix{r: monkit.NewRegistry()}
	if plan(4) == 1 {
		m.r = monkit.Default
	}
	dt := monkit.NewDeltaTransformer()
	m.dr = m.r.WithTransformers(dt)
	for i := range m.scs {
		m.scs[i] = m.r.ScopeNamed(fmt.Sprintf("s%d", i))
	}
	for i := range m.fns {
		m.fns[i] = m.scs[i%2].FuncNamed(fmt.Sprintf("f%d", i), monkit.NewSeriesTag("t", "v"))
		m.traces[i] = monkit.NewTrace(int64(i))
	}
	m.task = m.scs[0].TaskNamed("shared")
	if plan(3) > 0 {
		// named when it is first used
		m.task = m.scs[0].Task()
	}
	for i, p := range []string{"/ps/text", "/funcs/json", "/stats/text", "/ps/dot"} {
		m.reports[i], _, _ = present.FromRequest(m.r, p, nil)
	}
	m.pages = present.HTTP(m.r)
	m.tsrc = monkit.TransformStatSource(monkit.StatSourceFromStruct(monkit.NewSeriesKey("ts"), struct{ total int64 }{5}), dt)
	m.ctx = context.Background()
	exit := m.fns[0].Task(&m.ctx, "shared")
	m.rt = m.scs[0].Timer("rt").Start()
	m.ctr = monkit.NewCounter(monkit.NewSeriesKey("own"))
	m.meters[0], m.meters[1] = m.scs[0].Meter("m0"), m.scs[1].Meter("m1")
	m.key = monkit.NewSeriesKey("k").WithTag("a", "b,c")
	m.fs = monkit.NewFuncStats(m.key)
	m.tags = m.key.Tags
	m.handler = mhttp.TraceHandler(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		c := r.Context()
		defer m.scs[1].TaskNamed("handler")(&c)(nil)
		w.Write([]byte("x"))
	}), m.scs[0], "k")
	m.col = collect.NewSpanCollector(nil)
	if plan(3) == 1 {
		environment.Register(m.r)
	}
	var allow []int
	for k := between(1, 6); k > 0; k-- {
		allow = append(allow, plan(mixOps))
	}
	workers := between(2, 4)
	var g group
	for w := 0; w < workers; w++ {
		var kinds, xs []int
		for k := between(1, 5); k > 0; k-- {
			kinds = append(kinds, allow[plan(len(allow))])
			xs = append(xs, plan(1<<16))
		}
		name := []string{"w0", "w1", "w2", "w3"}[w]
		g.Go(name, func() {
			for i := range kinds {
				pv, panicked := guarded(func() { m.do(kinds[i], xs[i]) })
				if panicked {
					fail("unexpected-panic", "operation %d panicked: %v", kinds[i], pv)
				}
			}
		})
	}
	if plan(2) == 1 {
		pause(plan(200))
		exit(nil)
		exit = nil
	}
	if workers > 2 {
		hit(prMixOps)
	}
	g.Wait()
	if exit != nil {
		exit(nil)
	}
	m.r.Stats(func(monkit.SeriesKey, string, float64) {})
	if n := m.traces[0].Spans() + m.traces[1].Spans() + m.traces[2].Spans(); n != 0 {
		fail("unfinished", "%d spans are counted as running after all calls returned", n)
	}
}
