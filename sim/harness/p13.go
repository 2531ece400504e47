package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"net/url"
	"sort"
	"strconv"
	"strings"
	"time"

	"simrt"
	"simrt/context"

	"github.com/spacemonkeygo/monkit/v3"
	"github.com/spacemonkeygo/monkit/v3/collect"
	"github.com/spacemonkeygo/monkit/v3/present"
)

func init() { register(&Scenario{ID: "P13", Body: p13}) }

var (
	prRepFault   = probe("write failed during a report")
	prRepChurn   = probe("report made while calls start and finish")
	prStructNil  = probe("struct value observed with a missing part")
	prRepNaN     = probe("report of a value that is not a number")
	prRepZeroDur = probe("all collected spans start and finish at the same instant")
	prRepOrphan  = probe("report shows an orphaned span")
	prRepCurrent = probe("report on a function that is running")
)

var nasty = []string{"plain", "a,b=c d", "quote\"d", "back\\slash", "new\nline", "<tag attr='x'>&amp;", "]]>", "\x00\x01", "inv\xff\xfealid", "ünï", "%s%d%!", "", "'); alert(1);//", "-->", "{{.}}", "\u2028\ufeff"}

func nastyName() string {
	if pchance(40) {
		return strings.Repeat("long", between(500, 3000))
	}
	return nasty[plan(len(nasty))]
}

var errSink = errors.New("sink failed")

// sink is the destination of a report, with faults.
type sink struct {
	ages   [][2]time.Duration // of the held spans, before and after
	buf    []byte
	n      int
	mode   int // 0 healthy, 1 fails from write at on, 2 fails only at write at, 3 tears write at
	at     int
	failed bool
	closed bool
	slow   int64
}

func (s *sink) Write(p []byte) (int, error) {
	simrt.Y()
	if s.closed {
		fail("write-after-return", "%q was written after the report had returned", p)
	}
	if s.slow > 0 {
		simrt.Fault(FSlowWriter)
		nap(s.slow)
	}
	n := s.n
	s.n++
	if (s.mode == 1 && n >= s.at) || (s.mode > 1 && n == s.at) {
		s.failed = true
		hit(prRepFault)
		switch s.mode {
		case 1:
			simrt.Fault(FWriteErr)
			return 0, errSink
		case 2:
			simrt.Fault(FTransient)
			return 0, errSink
		default:
			simrt.Fault(FTornWrite)
			k := len(p) / 2
			s.buf = append(s.buf, p[:k]...)
			return k, errSink
		}
	}
	s.buf = append(s.buf, p...)
	return len(p), nil
}

func newSink() *sink {
	s := &sink{}
	if pchance(2) {
		s.mode = 1 + plan(3)
		s.at = plan([]int{3, 12, 60}[plan(3)])
	}
	if pchance(6) {
		s.slow = 1000
	}
	return s
}

// asJSON is what a string becomes after a trip through JSON.
func asJSON(s string) string {
	b, _ := json.Marshal(s)
	var out string
	json.Unmarshal(b, &out)
	return out
}

type stableFunc struct {
	f                        *monkit.Func
	success, panics, current int64
	errs                     map[string]int64
	parents                  map[int64]bool
	entry                    bool
	high                     int64
}

type stableStat struct {
	line  string // key with field
	meas  string
	tags  map[string]string
	field string
	val   float64
}

type held struct {
	s      *monkit.Span
	fn     *monkit.Func // nil: its own
	parent *monkit.Span
	args   []string
	annots [][2]string
	remote bool
	pid    int64 // remote parent
	orphan bool
	root   bool
	at     int // where it is in a text
	indent int
}

type p13world struct {
	r     *monkit.Registry
	funcs []*stableFunc
	stats []stableStat
	held  []*held
	fins  []*collect.FinishedSpan
	busy  bool
}

func p13() {
	if pchance(4) {
		// a clock so coarse that things happen at the same instant
		simrt.SetTick(0)
	}
	w := &p13world{r: monkit.NewRegistry()}
	w.makeFuncs()
	w.makeStats()
	w.collectSome()
	var g group
	release := false
	ready := 0
	want := 0
	for k := plan(4); k > 0; k-- {
		depth := between(1, 3)
		if pchance(12) {
			depth = between(12, 40)
		}
		orphan := pchance(4)
		want++
		var hs []*held
		for d := 0; d < depth; d++ {
			h := &held{}
			if plan(2) == 1 {
				h.fn = w.funcs[plan(len(w.funcs))].f
			}
			if pchance(6) {
				h.remote, h.pid = true, remoteID()
			}
			for a := plan(3); a > 0; a-- {
				h.args = append(h.args, nastyName())
			}
			for a := plan(3); a > 0; a-- {
				h.annots = append(h.annots, [2]string{nastyName(), nastyName()})
			}
			if len(h.annots) > 0 && plan(3) == 1 {
				// the same annotation again, and the same name with another value
				h.annots = append(h.annots, h.annots[0], [2]string{h.annots[0][0], nastyName()})
			}
			hs = append(hs, h)
		}
		g.Go("holder", func() { w.hold(hs, orphan, &ready, &release) })
	}
	simrt.WaitUntil("holders", func() bool { return ready == want })
	for _, sf := range w.funcs {
		for _, h := range w.held {
			if h.s.Func() != sf.f {
				continue
			}
			hit(prRepCurrent)
			sf.current++
			if h.parent == nil {
				sf.entry = true
			} else {
				sf.parents[h.parent.Func().Id()] = true
			}
		}
		if sf.current > sf.high {
			sf.high = sf.current
		}
	}
	churn := plan(3)
	stop := false
	for i := 0; i < churn; i++ {
		w.busy = true
		hit(prRepChurn)
		sc := w.r.ScopeNamed(nastyName())
		g.Go("churn", func() {
			for k := 0; k < 6 && !stop; k++ {
				ctx := context.Context(context.Background())
				func() {
					defer sc.FuncNamed(fmt.Sprintf("churn%d", k)).Task(&ctx, "x")(nil)
					func() {
						var err error
						c := ctx
						defer sc.FuncNamed("churnchild").Task(&c)(&err)
						monkit.SpanFromCtx(c).Annotate("a", "b")
						pause(env(10))
						err = errPlain
					}()
					sc.Counter("c" + strconv.Itoa(k)).Inc(1)
					sc.FloatVal("fv").Observe(float64(k))
				}()
			}
		})
	}
	var rg group
	for k := between(1, 3); k > 0; k-- {
		var kinds []int
		var sinks []*sink
		for i := between(1, 3); i > 0; i-- {
			kinds = append(kinds, plan(12))
			sinks = append(sinks, newSink())
		}
		viaPath := plan(2) == 1
		rg.Go("reporter", func() {
			for i, kind := range kinds {
				w.report(kind, sinks[i], viaPath)
			}
		})
	}
	rg.Wait()
	stop = true
	release = true
	g.Wait()
}

func (w *p13world) makeFuncs() {
	n := between(1, 3)
	if pchance(12) {
		n = between(20, 100)
	}
	for i := 0; i < n; i++ {
		f := w.r.ScopeNamed(nastyName()).FuncNamed(fmt.Sprintf("%s%d", nastyName(), i))
		sf := &stableFunc{f: f, errs: map[string]int64{}, parents: map[int64]bool{}}
		w.funcs = append(w.funcs, sf)
	}
	for i, sf := range w.funcs {
		for k := plan(4); k > 0; k-- {
			var parent *stableFunc
			if i > 0 && plan(2) == 1 {
				parent = w.funcs[plan(i)]
			}
			kind := plan(3)
			name := nastyName()
			ctx := context.Context(context.Background())
			func() {
				if parent != nil {
					defer parent.f.Task(&ctx)(nil)
					parent.success++
					parent.entry = true
					if parent.high < 1 {
						parent.high = 1
					}
					sf.parents[parent.f.Id()] = true
				} else {
					sf.entry = true
				}
				sf.high = 1
				guarded(func() {
					var err error
					defer sf.f.Task(&ctx)(&err)
					switch kind {
					case 0:
						sf.success++
					case 1:
						err = &namedErr{name}
						sf.errs[name]++
					case 2:
						sf.panics++
						panic("x")
					}
				})
			}()
		}
	}
}

// makeStats registers metrics nobody changes, and notes what they report.
func (w *p13world) makeStats() {
	for k := plan(5); k > 0; k-- {
		sc := w.r.ScopeNamed("stable " + nastyName())
		name := nastyName() + strconv.Itoa(k)
		var tags []monkit.SeriesTag
		for t := plan(3); t > 0; t-- {
			tags = append(tags, monkit.NewSeriesTag(nastyName(), nastyName()))
		}
		var src monkit.StatSource
		switch plan(6) {
		case 0:
			c := sc.Counter(name, tags...)
			if plan(2) == 1 {
				c.Set(int64(plan(100)) - 50)
			} else {
				hit(prRepNaN)
			}
			src = c
		case 1:
			v := sc.FloatVal(name, tags...)
			v.Observe([]float64{1.5, math.Inf(1), math.Inf(-1), math.NaN(), -0.25, 1e300}[plan(6)])
			src = v
		case 2:
			v := sc.IntVal(name, tags...)
			v.Observe(int64(plan(1000)))
			src = v
		case 3:
			val := []float64{1, math.NaN(), math.Inf(1), -3}[plan(4)]
			sc.Gauge(name, func() float64 { return val })
			continue
		case 4:
			v := sc.BoolVal(name, tags...)
			v.Observe(plan(2) == 1)
			src = v
		case 5:
			v := sc.StructVal(name, tags...)
			val, want := genStruct()
			v.Observe(val)
			src = v
			got := fieldsOf(v)
			sort.Strings(got)
			sort.Strings(want)
			if fmt.Sprint(got) != fmt.Sprint(want) {
				fail("struct-fields", "a struct value reports %v where %v was observed", got, want)
			}
		}
		// what it reports, as seen through the registry
		for _, s := range collectStats(src) {
			key := s.key.WithTags(monkit.NewSeriesTag("scope", sc.Name()))
			w.stats = append(w.stats, stableStat{key.WithField(s.field), key.Measurement, key.Tags.All(), s.field, s.val})
		}
	}
}

type structInner struct {
	P *int
	Q int8
}

type structOuter struct {
	A  float64
	B  int
	N  *float64
	F  *bool
	S  structInner
	SP *structInner
	I  interface{}
	X  string
	Ig int       `monkit:"ignore"`
	T  time.Time `monkit:"ignore,whatever"`
	u  uint16
	PP **int
}

// genStruct makes a struct to observe, parts of which may be missing, and
// says what it should be reported as.
func genStruct() (val interface{}, want []string) {
	f := []float64{1, math.NaN(), math.Inf(-1)}[plan(3)]
	if plan(4) == 0 {
		return struct {
			A float64
			B int
		}{f, 7}, []string{fmt.Sprint("A=", f), "B=7"}
	}
	if plan(8) == 7 {
		hit(prStructNil)
		return (*structOuter)(nil), nil
	}
	o := &structOuter{A: f, B: plan(100), X: "x", Ig: 5, u: uint16(plan(9))}
	add := func(name string, v interface{}) { want = append(want, fmt.Sprint(name, "=", v)) }
	inner := func(name string, in *structInner) {
		in.Q = int8(plan(100))
		if plan(2) == 1 {
			n := plan(50)
			in.P = &n
			add(name+".P", n)
		} else {
			hit(prStructNil)
		}
		add(name+".Q", in.Q)
	}
	add("A", f)
	add("B", o.B)
	if plan(2) == 1 {
		n := float64(plan(50))
		o.N = &n
		add("N", n)
	} else {
		hit(prStructNil)
	}
	if p := plan(3); p > 0 {
		b := p == 2
		o.F = &b
		add("F", p-1)
	}
	inner("S", &o.S)
	if plan(2) == 1 {
		o.SP = new(structInner)
		inner("SP", o.SP)
	}
	if plan(3) == 2 {
		o.I = "text"
	}
	add("u", o.u)
	if p := plan(3); p > 0 {
		var ip *int
		if p == 2 {
			n := plan(50)
			ip = &n
			add("PP", n)
		}
		o.PP = &ip
	}
	switch plan(3) {
	case 0:
		return *o, want
	case 1:
		return &o, want
	}
	return o, want
}

// fieldsOf says what a source reports, in order.
func fieldsOf(src monkit.StatSource) (out []string) {
	for _, s := range collectStats(src) {
		out = append(out, fmt.Sprint(s.field, "=", s.val))
	}
	return out
}

// collectSome produces finished spans, as trace queries return them.
func (w *p13world) collectSome() {
	zero := pchance(4)
	name := nastyName()
	args := []interface{}{nastyName(), nastyName()}
	var kids []outcome
	var remotes []int64
	if pchance(4) {
		remotes = append(remotes, remoteID(), remoteID())
	}
	for k := plan(5); k > 0; k-- {
		kids = append(kids, genOutcome())
	}
	ctx := context.Context(context.Background())
	defer w.r.ScopeNamed("collect").FuncNamed("outer" + name).Task(&ctx)(nil)
	fins := collect.CollectSpans(ctx, func(ctx context.Context) {
		for i := range kids {
			o := kids[i]
			guarded(func() {
				var err error
				c := ctx
				defer w.r.ScopeNamed(name).FuncNamed("inner").Task(&c, args...)(&err)
				monkit.SpanFromCtx(c).Annotate(name, name)
				for k := 0; k < i; k++ {
					monkit.SpanFromCtx(c).Annotate(name, fmt.Sprint(k))
				}
				if !zero {
					nap(1000)
				}
				o.act(&err)
			})
		}
	})
	w.fins = fins
	for _, pid := range remotes {
		// spans that came from elsewhere
		c := context.Context(context.Background())
		exit := w.r.ScopeNamed(name).FuncNamed("remote").RemoteTrace(&c, pid, monkit.NewTrace(monkit.NewId()), args...)
		s := monkit.SpanFromCtx(c)
		exit(nil)
		w.fins = append(w.fins, &collect.FinishedSpan{Span: s, Finish: s.Start().Add(5)})
	}
	if len(fins) != len(kids)+1 {
		fail("report-input", "%d spans were collected of %d", len(fins), len(kids)+1)
	}
}

func (w *p13world) hold(hs []*held, orphan bool, ready *int, release *bool) {
	var rec func(i int, ctx context.Context, parent *held)
	rec = func(i int, ctx context.Context, parent *held) {
		h := hs[i]
		var args []interface{}
		for _, a := range h.args {
			args = append(args, a)
		}
		f := h.fn
		if f == nil {
			f = w.r.ScopeNamed("held").FuncNamed(fmt.Sprintf("h%d", i))
		}
		var exit func(*error)
		if h.remote {
			exit = f.RemoteTrace(&ctx, h.pid, monkit.NewTrace(monkit.NewId()), args...)
			parent = nil
		} else {
			exit = f.Task(&ctx, args...)
		}
		h.s = monkit.SpanFromCtx(ctx)
		for _, a := range h.annots {
			h.s.Annotate(a[0], a[1])
		}
		if parent != nil {
			h.parent = parent.s
		}
		h.root = parent == nil
		if i+1 == len(hs) {
			w.held = append(w.held, hs...)
			*ready++
			simrt.WaitUntil("release", func() bool { return *release })
		} else {
			rec(i+1, ctx, h)
		}
		exit(nil)
	}
	if orphan {
		hit(prRepOrphan)
		ctx := context.Context(context.Background())
		p := w.r.ScopeNamed("held").FuncNamed("parent")
		exitP := p.Task(&ctx)
		c := ctx
		h := hs[0]
		var args []interface{}
		for _, a := range h.args {
			args = append(args, a)
		}
		f := h.fn
		if f == nil {
			f = w.r.ScopeNamed("held").FuncNamed("orphan")
		}
		exit := f.Task(&c, args...)
		h.s = monkit.SpanFromCtx(c)
		h.parent = monkit.SpanFromCtx(ctx)
		h.orphan, h.root = true, true
		for _, a := range h.annots {
			h.s.Annotate(a[0], a[1])
		}
		exitP(nil)
		simrt.Fault(FOrphan)
		w.held = append(w.held, h)
		*ready++
		simrt.WaitUntil("release", func() bool { return *release })
		exit(nil)
		return
	}
	rec(0, context.Background(), nil)
}

var reportTypes = []string{"text/plain", "text/plain", "application/json", "text/plain", "text/plain", "application/json", "text/plain", "application/json"}
var reportPaths = []string{"/ps/text", "/ps/dot", "/ps/json", "/funcs", "/funcs/dot", "/funcs/json", "/stats", "/stats/json"}

func (w *p13world) report(kind int, s *sink, viaPath bool) {
	var err error
	for _, h := range w.held {
		s.ages = append(s.ages, [2]time.Duration{h.s.Duration()})
	}
	pv, panicked := guarded(func() {
		if viaPath && kind < len(reportPaths) {
			f, ct, e := present.FromRequest(w.r, reportPaths[kind], url.Values{})
			if want := reportTypes[kind]; e != nil || strings.TrimSpace(strings.SplitN(ct, ";", 2)[0]) != want {
				fail("report-error", "no report for %s as %s: %s, %v", reportPaths[kind], want, ct, e)
			}
			err = f(s)
			return
		}
		switch kind {
		case 0:
			err = present.SpansText(w.r, s)
		case 1:
			err = present.SpansDot(w.r, s)
		case 2:
			err = present.SpansJSON(w.r, s)
		case 3:
			err = present.FuncsText(w.r, s)
		case 4:
			err = present.FuncsDot(w.r, s)
		case 5:
			err = present.FuncsJSON(w.r, s)
		case 6:
			err = present.StatsText(w.r, s)
		case 7:
			err = present.StatsJSON(w.r, s)
		case 8, 9:
			err = present.SpansToSVG(s, append([]*collect.FinishedSpan(nil), w.fins...))
		case 10:
			err = present.SpansToJSON(s, append([]*collect.FinishedSpan(nil), w.fins...))
		case 11:
			var f present.Result
			f, _, err = present.FromRequest(w.r, []string{"", "/", "/nope", "/ps/nope", "/trace/svg"}[int(s.at)%5], url.Values{})
			if (err == nil) != (s.at%5 < 2) {
				fail("report-error", "path number %d: %v", s.at%5, err)
			}
			if err == nil {
				err = f(s)
			} else {
				err = nil
			}
		}
	})
	s.closed = true
	if panicked {
		fail("report-panic", "report %d panicked: %v", kind, pv)
	}
	if s.failed {
		if err == nil {
			fail("write-error-lost", "a write of report %d failed (write %d of %d, mode %d), but it returned no error", kind, s.at, s.n, s.mode)
		}
		return
	}
	if err != nil {
		fail("report-error", "report %d returned the error %v although no write failed", kind, err)
	}
	for i, h := range w.held {
		s.ages[i][1] = h.s.Duration()
	}
	w.check(kind, s.buf, s.ages)
}

// age checks that a duration shown for the held span i passed while the report was made.
func (h *held) age(kind int, shown string, ages [2]time.Duration) {
	if d, err := time.ParseDuration(shown); err != nil || d < ages[0] || d > ages[1] {
		fail("report-content", "report %d shows that span %d is %s old; it was %v to %v", kind, h.s.Id(), shown, ages[0], ages[1])
	}
}

// distJSON is how the JSON report shows a distribution of durations.
type distJSON struct {
	Average          int64
	ReservoirAverage int64 `json:"reservoir_average"`
	FullAverage      int64 `json:"full_average"`
	Max, Min, Recent int64
	Quantiles        map[string]int64
}

func (x *distJSON) check(id int64, d *monkit.DurationDist) {
	ok := x.Average == int64(d.FullAverage()) && x.FullAverage == int64(d.FullAverage()) && x.ReservoirAverage == int64(d.ReservoirAverage()) &&
		x.Max == int64(d.High) && x.Min == int64(d.Low) && x.Recent == int64(d.Recent) && len(x.Quantiles) == len(monkit.ObservedQuantiles)
	for _, q := range monkit.ObservedQuantiles {
		ok = ok && x.Quantiles[fmt.Sprintf("%.02f", q)] == int64(d.Query(q))
	}
	if !ok {
		fail("report-content", "the JSON of function %d shows durations %+v; they are %+v", id, *x, *d)
	}
}

// shownDist checks the lines "name: duration" at the start of s.
func shownDist(kind int, s string, d *monkit.DurationDist) {
	want := map[string]time.Duration{"avg": d.FullAverage(), "ravg": d.ReservoirAverage(), "recent": d.Recent, "sum": d.Sum}
	for _, q := range monkit.ObservedQuantiles {
		want[fmt.Sprintf("%.02f", q)] = d.Query(q)
	}
	n := len(want)
	for _, line := range strings.SplitN(s+strings.Repeat("\n", n), "\n", n+1)[:n] {
		i := strings.Index(line, ": ")
		if i < 0 {
			fail("report-content", "report %d shows the durations of a function as %.300q", kind, s)
		}
		name := strings.TrimSpace(line[:i])
		got, err := time.ParseDuration(line[i+2:])
		w, is := want[name]
		if err != nil || !is || got != w {
			fail("report-content", "report %d shows the durations of a function as %.300q, not %v", kind, s, want)
		}
		delete(want, name)
	}
}

func count(out []byte, what string) int { return bytes.Count(out, []byte(what)) }

func once(kind int, out []byte, what string) {
	if n := count(out, what); n != 1 {
		fail("report-content", "report %d contains %q %d times:\n%.2000s", kind, what, n, out)
	}
}

func (w *p13world) check(kind int, out []byte, ages [][2]time.Duration) {
	switch kind {
	case 0:
		for i, h := range w.held {
			extra := ")\n"
			if h.orphan {
				extra = ", orphaned)\n"
			}
			head := fmt.Sprintf("[%d,%d] %s(%s) (elapsed: ", h.s.Id(), h.s.Trace().Id(), h.s.Func().FullName(), strings.Join(h.s.Args(), ", "))
			once(kind, out, head)
			at := bytes.Index(out, []byte(head))
			for h.indent = 0; h.indent < at && out[at-h.indent-1] == ' '; h.indent++ {
			}
			h.at = at
			if at > h.indent && out[at-h.indent-1] != '\n' {
				fail("report-content", "report %d shows the span %q not on a line of its own", kind, head)
			}
			for _, p := range w.held {
				// outer calls come first
				if !h.root && p.s == h.parent && (p.at > at || p.indent >= h.indent) {
					fail("report-content", "the text shows span %q, called by %d, not below it", head, p.s.Id())
				}
			}
			if h.root && h.indent != 0 {
				fail("report-content", "the text shows span %q below another", head)
			}
			rest := out[at+len(head):]
			line := rest[:bytes.IndexByte(rest, '\n')+1]
			if !bytes.HasSuffix(line, []byte(extra)) || (!h.orphan && bytes.Contains(line, []byte("orphaned"))) {
				fail("report-content", "report %d shows the span %q as %q", kind, head, line)
			}
			h.age(kind, string(line[:len(line)-len(extra)]), ages[i])
			rest = rest[len(line):]
			for _, a := range h.annots {
				x := fmt.Sprintf("%s: %s\n", a[0], a[1])
				j := bytes.Index(rest, []byte(x))
				if j < 0 {
					fail("report-content", "report %d lacks the annotation %q of a span", kind, x)
				}
				rest = rest[j+len(x):]
			}
		}
	case 1:
		g := parseDot(kind, out)
		for i, h := range w.held {
			id := fmt.Sprintf("f%d", h.s.Id())
			if g.nodes[id] != 1 {
				fail("report-content", "the span graph has span %s %d times:\n%.2000s", id, g.nodes[id], out)
			}
			if !h.root && g.edges[fmt.Sprintf("f%d>%s", h.parent.Id(), id)] != 1 {
				fail("report-content", "the span graph has the edge to span %s %d times:\n%.2000s", id, g.edges[fmt.Sprintf("f%d>%s", h.parent.Id(), id)], out)
			}
			lab := undot(g.labels[id])
			want := fmt.Sprintf("%s(%s)\nelapsed: ", h.s.Func().FullName(), strings.Join(h.s.Args(), ", "))
			if !strings.HasPrefix(lab, want) || strings.Contains(lab, "\norphaned\n") != h.orphan {
				fail("report-content", "the span graph labels span %s %q, not %q", id, lab, want)
			}
			if e := strings.Index(lab[len(want):], "\n"); e < 0 {
				fail("report-content", "the span graph labels span %s %q", id, lab)
			} else {
				h.age(kind, lab[len(want):][:e], ages[i])
			}
			for _, a := range h.annots {
				if !strings.Contains(lab, fmt.Sprintf("%s: %s\n", a[0], a[1])) {
					fail("report-content", "the span graph lacks the annotation %q of span %s: %q", a, id, lab)
				}
			}
		}
	case 2:
		var js []struct {
			Id       int64  `json:"id"`
			ParentId *int64 `json:"parent_id"`
			Func     struct{ Package, Name string }
			Trace    struct{ Id int64 }
			Orphaned bool
			Start    int64
			Elapsed  time.Duration
			Args     []string
			Annots   [][]string `json:"annotations"`
		}
		decode(kind, out, &js)
		for i, h := range w.held {
			n := 0
			for _, x := range js {
				if x.Id != h.s.Id() {
					continue
				}
				n++
				h.age(kind, x.Elapsed.String(), ages[i])
				okParent := x.ParentId == nil && h.parent == nil || x.ParentId != nil && h.parent != nil && *x.ParentId == h.parent.Id()
				if h.remote && !h.orphan {
					okParent = x.ParentId != nil && *x.ParentId == h.pid
				}
				if !okParent || x.Func.Package != asJSON(h.s.Func().Scope().Name()) || x.Func.Name != asJSON(h.s.Func().ShortName()) ||
					x.Trace.Id != h.s.Trace().Id() || x.Orphaned != h.orphan || x.Start != h.s.Start().UnixNano() || x.Args == nil || x.Annots == nil || len(x.Args) != len(h.args) || len(x.Annots) != len(h.annots) {
					fail("report-content", "the JSON of span %d is wrong: %+v", x.Id, x)
				}
				for i, a := range h.args {
					// an argument is shown quoted, and that again as Go syntax
					if q := strconv.Quote(strconv.Quote(a)); x.Args[i] != q {
						fail("report-content", "the JSON of span %d shows the argument %q as %q", x.Id, a, x.Args[i])
					}
				}
				for i, a := range h.annots {
					if len(x.Annots[i]) != 2 || x.Annots[i][0] != asJSON(a[0]) || x.Annots[i][1] != asJSON(a[1]) {
						fail("report-content", "the JSON of span %d shows the annotation %q as %q", x.Id, a, x.Annots[i])
					}
				}
			}
			if n != 1 {
				fail("report-content", "the JSON of spans has span %d %d times:\n%.2000s", h.s.Id(), n, out)
			}
		}
	case 3:
		for _, f := range w.funcs {
			head := fmt.Sprintf("[%d] %s\n  parents: ", f.f.Id(), f.f.FullName())
			once(kind, out, head)
			rest := out[bytes.Index(out, []byte(head))+len(head):]
			eol := bytes.IndexByte(rest, '\n')
			got := map[string]bool{}
			for _, p := range strings.Split(string(rest[:eol]), ", ") {
				if p != "" && got[p] {
					fail("report-content", "the function text lists a parent twice: %q", rest[:eol])
				}
				got[p] = true
			}
			delete(got, "")
			if len(got) != len(f.parents)+b2i(f.entry) || got["entry"] != f.entry {
				fail("report-content", "the function text lists the parents %q of function %d; they are %v, entry %v", rest[:eol], f.f.Id(), f.parents, f.entry)
			}
			for p := range f.parents {
				if !got[fmt.Sprint(p)] {
					fail("report-content", "the function text lists the parents %q of function %d; they are %v", rest[:eol], f.f.Id(), f.parents)
				}
			}
			want := fmt.Sprintf("\n  current: %d, highwater: %d, success: %d, errors: %d, panics: %d\n", f.current, f.high, f.success, sumErrs(f.errs), f.panics)
			if !bytes.HasPrefix(rest[eol:], []byte(want)) {
				fail("report-content", "the function text shows %.200q, not %q", rest[eol:], want)
			}
			rest = rest[eol+len(want):]
			end := bytes.Index(rest, []byte("  success times:\n"))
			if end >= 0 {
				t := string(rest[end+len("  success times:\n"):])
				i := strings.Index(t, "  failure times:\n")
				if i < 0 {
					fail("report-content", "the function text lacks the failure times of function %d", f.f.Id())
				}
				shownDist(kind, t[:i], f.f.SuccessTimes())
				shownDist(kind, t[i+len("  failure times:\n"):], f.f.FailureTimes())
			}
			for _, e := range simrt.SortedKeys(f.errs) {
				n := f.errs[e]
				if x := fmt.Sprintf("  error %s: %d\n", e, n); end < 0 || !bytes.Contains(rest[:end], []byte(x)) {
					fail("report-content", "the function text lacks %q: %.300q", x, rest)
				}
			}
		}
	case 4:
		g := parseDot(kind, out)
		for _, f := range w.funcs {
			id := fmt.Sprintf("f%d", f.f.Id())
			if g.nodes[id] != 1 {
				fail("report-content", "the function graph has function %s %d times:\n%.2000s", id, g.nodes[id], out)
			}
			for p := range f.parents {
				if n := g.edges[fmt.Sprintf("f%d>%s", p, id)]; n != 1 {
					fail("report-content", "the function graph has the edge from f%d to %s %d times:\n%.2000s", p, id, n, out)
				}
			}
			if n := g.edges["r"+id[1:]+">"+id]; n != b2i(f.entry) {
				fail("report-content", "the function graph has an entry edge to %s %d times:\n%.2000s", id, n, out)
			}
			if n := g.in[id]; n != len(f.parents)+b2i(f.entry) {
				fail("report-content", "the function graph has %d edges into %s:\n%.2000s", n, id, out)
			}
			lab := undot(g.labels[id])
			want := fmt.Sprintf("%s\ncurrent: %d, highwater: %d, success: %d, errors: %d, panics: %d\n", f.f.FullName(), f.current, f.high, f.success, sumErrs(f.errs), f.panics)
			if !strings.HasPrefix(lab, want) {
				fail("report-content", "the function graph labels %s %q, not %q", id, lab, want)
			}
			for _, e := range simrt.SortedKeys(f.errs) {
				n := f.errs[e]
				if x := fmt.Sprintf("error %s: %d\n", e, n); !strings.Contains(lab, x) {
					fail("report-content", "the label of %s lacks %q: %q", id, x, lab)
				}
			}
			fails := sumErrs(f.errs) + f.panics
			i, j := strings.Index(lab, "success times:\n"), strings.Index(lab, "failure times:\n")
			if (i >= 0) != (f.success > 0) || (j >= 0) != (fails > 0) || i > j && j >= 0 {
				fail("report-content", "the label of %s, with %d successes and %d failures, shows success times: %v, failure times: %v", id, f.success, fails, i >= 0, j >= 0)
			}
			if j >= 0 {
				shownDist(kind, lab[j+len("failure times:\n"):], f.f.FailureTimes())
				lab = lab[:j]
			}
			if i >= 0 {
				shownDist(kind, lab[i+len("success times:\n"):], f.f.SuccessTimes())
			}
		}
	case 5:
		var js []struct {
			Id                                  int64
			ParentIds                           []int64 `json:"parent_ids"`
			Package, Name                       string
			Current, Highwater, Success, Panics int64
			Entry                               bool
			Errors                              map[string]int64
			SuccessTimes                        distJSON `json:"success_times"`
			FailureTimes                        distJSON `json:"failure_times"`
		}
		decode(kind, out, &js)
		for _, f := range w.funcs {
			n := 0
			for _, x := range js {
				if x.Id != f.f.Id() {
					continue
				}
				n++
				errs := map[string]int64{}
				for e, c := range f.errs {
					errs[asJSON(e)] += c
				}
				ok := x.Package == asJSON(f.f.Scope().Name()) && x.Name == asJSON(f.f.ShortName()) && x.Current == f.current && x.Highwater == f.high &&
					x.Success == f.success && x.Panics == f.panics && x.Entry == f.entry && len(x.ParentIds) == len(f.parents) && len(x.Errors) == len(errs)
				for _, p := range x.ParentIds {
					ok = ok && f.parents[p]
				}
				for e, c := range errs {
					ok = ok && x.Errors[e] == c
				}
				if !ok {
					fail("report-content", "the JSON of function %d is %+v, not %+v", x.Id, x, *f)
				}
				x.SuccessTimes.check(x.Id, f.f.SuccessTimes())
				x.FailureTimes.check(x.Id, f.f.FailureTimes())
			}
			if n != 1 {
				fail("report-content", "the JSON of functions has function %d %d times:\n%.2000s", f.f.Id(), n, out)
			}
		}
	case 6:
		for _, s := range w.stats {
			x := fmt.Sprintf("%s=%f\n", s.line, s.val)
			if n := count(out, x); n != 1 && !(n > 1 && w.ambiguous(x)) {
				fail("report-content", "report %d contains %q %d times:\n%.2000s", kind, x, n, out)
			}
		}
	case 7:
		var js [][]interface{}
		decode(kind, out, &js)
		for _, s := range w.stats {
			n := 0
			for _, x := range js {
				if len(x) != 4 || x[0] != asJSON(s.meas) || x[2] != asJSON(s.field) {
					continue
				}
				tags, ok := x[1].(map[string]interface{})
				want := map[string]string{}
				for k, v := range s.tags {
					want[asJSON(k)] = asJSON(v)
				}
				same := len(tags) == len(want)
				for k, v := range want {
					same = same && tags[k] == v
				}
				if !ok || !same {
					continue
				}
				v, isNum := x[3].(float64)
				if isNum && v == s.val || !isNum && (math.IsNaN(s.val) || math.IsInf(s.val, 0)) {
					n++
				} else if len(want) == len(s.tags) {
					fail("report-content", "the JSON of statistics shows %q as %v, not %v", s.line, x[3], s.val)
				}
			}
			if n != 1 {
				fail("report-content", "the JSON of statistics has %q %d times:\n%.2000s", s.line, n, out)
			}
		}
	case 8, 9:
		checkSVG(out, w.fins)
	case 10:
		var js []struct {
			Id            int64
			ParentId      *int64 `json:"parent_id"`
			Func          struct{ Package, Name string }
			Trace         struct{ Id int64 }
			Start, Finish int64
			Err           string
			Panicked      bool
			Orphaned      bool
			Args          []string
			Annotations   [][]string
		}
		decode(kind, out, &js)
		if len(js) != len(w.fins) {
			fail("report-content", "the JSON of %d collected spans has %d", len(w.fins), len(js))
		}
		for _, s := range w.fins {
			n := 0
			for _, x := range js {
				if x.Id != s.Span.Id() {
					continue
				}
				n++
				e := ""
				if s.Err != nil {
					e = asJSON(s.Err.Error())
				}
				pid, has := s.Span.ParentId()
				if x.Err != e || x.Panicked != s.Panicked || x.Start != s.Span.Start().UnixNano() || x.Finish != s.Finish.UnixNano() ||
					has != (x.ParentId != nil) || has && *x.ParentId != pid || len(x.Annotations) != len(s.Span.Annotations()) || len(x.Args) != len(s.Span.Args()) || x.Args == nil || x.Annotations == nil ||
					x.Func.Package != asJSON(s.Span.Func().Scope().Name()) || x.Func.Name != asJSON(s.Span.Func().ShortName()) || x.Trace.Id != s.Span.Trace().Id() || x.Orphaned {
					fail("report-content", "the JSON of collected span %d is wrong: %+v", x.Id, x)
				}
				for i, a := range s.Span.Annotations() {
					if y := x.Annotations[i]; len(y) != 2 || y[0] != asJSON(a.Name) || y[1] != asJSON(a.Value) {
						fail("report-content", "the JSON of collected span %d shows the annotation %q as %q", x.Id, a, y)
					}
				}
				for i, a := range s.Span.Args() {
					if q := strconv.Quote(a); x.Args[i] != q {
						fail("report-content", "the JSON of collected span %d shows the argument %q as %q", x.Id, a, x.Args[i])
					}
				}
			}
			if n != 1 {
				fail("report-content", "the JSON of collected spans has span %d %d times", s.Span.Id(), n)
			}
		}
	}
}

// ambiguous: the line also occurs as the end of another metric's line.
func (w *p13world) ambiguous(x string) bool {
	n := 0
	for _, s := range w.stats {
		if strings.HasSuffix(fmt.Sprintf("%s=%f\n", s.line, s.val), x) {
			n++
		}
	}
	return n > 1
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func sumErrs(m map[string]int64) (n int64) {
	for _, c := range m {
		n += c
	}
	return n
}

func decode(kind int, out []byte, into interface{}) {
	if err := json.Unmarshal(out, into); err != nil {
		fail("report-syntax", "report %d is not valid JSON: %v\n%.3000s", kind, err, out)
	}
}

type dotGraph struct {
	nodes  map[string]int
	edges  map[string]int
	in     map[string]int
	labels map[string]string
}

// parseDot reads a graph in the DOT language (the part without subgraphs).
func parseDot(kind int, out []byte) *dotGraph {
	g := &dotGraph{map[string]int{}, map[string]int{}, map[string]int{}, map[string]string{}}
	bad := func(why string) {
		fail("report-syntax", "report %d is not valid DOT: %s\n%.3000s", kind, why, out)
	}
	var toks []string
	for i := 0; i < len(out); {
		c := out[i]
		switch {
		case c == ' ' || c == '\n' || c == '\t' || c == '\r':
			i++
		case strings.IndexByte("{}[];=,", c) >= 0:
			toks = append(toks, string(c))
			i++
		case c == '-' && i+1 < len(out) && out[i+1] == '>':
			toks = append(toks, "->")
			i += 2
		case c == '"':
			j := i + 1
			for j < len(out) && out[j] != '"' {
				if out[j] == '\\' {
					j++
				}
				j++
			}
			if j >= len(out) {
				bad("unterminated string")
			}
			toks = append(toks, string(out[i:j+1]))
			i = j + 1
		default:
			j := i
			for j < len(out) && (out[j] == '_' || '0' <= out[j] && out[j] <= '9' || 'a' <= out[j] && out[j] <= 'z' || 'A' <= out[j] && out[j] <= 'Z' || out[j] >= 128) {
				j++
			}
			if j == i {
				bad(fmt.Sprintf("unexpected %q", c))
			}
			if id := string(out[i:j]); '0' <= id[0] && id[0] <= '9' && strings.Trim(id, "0123456789") != "" {
				bad("bad identifier " + id)
			}
			toks = append(toks, string(out[i:j]))
			i = j
		}
	}
	p := 0
	next := func() string {
		if p >= len(toks) {
			bad("unexpected end")
		}
		p++
		return toks[p-1]
	}
	expect := func(t string) {
		if x := next(); x != t {
			bad(fmt.Sprintf("%q instead of %q", x, t))
		}
	}
	isID := func(t string) bool { return strings.IndexAny(t[:1], "{}[];=,-") < 0 }
	expect("digraph")
	if !isID(next()) {
		bad("no graph name")
	}
	expect("{")
	for {
		t := next()
		if t == "}" {
			break
		}
		if !isID(t) {
			bad(fmt.Sprintf("unexpected %q", t))
		}
		switch n := next(); n {
		case "[":
			for {
				a := next()
				if a == "]" {
					break
				}
				expect("=")
				v := next()
				if !isID(a) || !isID(v) {
					bad("bad attribute")
				}
				if a == "label" {
					g.labels[t] = v
				}
				if toks[p] == "," {
					p++
				}
			}
			if t != "node" {
				g.nodes[t]++
			}
			expect(";")
		case "->":
			to := next()
			if !isID(to) {
				bad("bad edge")
			}
			g.edges[t+">"+to]++
			g.in[to]++
			expect(";")
		default:
			bad(fmt.Sprintf("unexpected %q", n))
		}
	}
	if p != len(toks) {
		bad("text after the end")
	}
	return g
}

// undot decodes a quoted label: character references and line ends.
func undot(s string) string {
	s = strings.TrimSuffix(strings.TrimPrefix(s, `"`), `"`)
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		if s[i] == '\\' && i+1 < len(s) {
			i++
			switch s[i] {
			case 'l', 'n', 'r':
				b.WriteByte('\n')
			default:
				b.WriteByte(s[i])
			}
			continue
		}
		if s[i] == '&' && i+2 < len(s) && s[i+1] == '#' {
			if j := strings.IndexByte(s[i:], ';'); j > 0 {
				if v, err := strconv.Atoi(s[i+2 : i+j]); err == nil && v < 256 {
					b.WriteByte(byte(v))
					i += j
					continue
				}
			}
		}
		b.WriteByte(s[i])
	}
	return b.String()
}
