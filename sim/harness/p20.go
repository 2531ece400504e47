package main

import (
	"fmt"
	"strings"
	"time"

	"simrt"
	"simrt/context"

	"github.com/spacemonkeygo/monkit/v3"
	"github.com/spacemonkeygo/monkit/v3/collect"
)

func init() { register(&Scenario{ID: "P20", Body: p20}) }

var (
	prSnapChange  = probe("data changed after a snapshot of it was taken")
	prSnapClobber = probe("caller modified a snapshot while others used the library")
	prSnapConc    = probe("snapshot taken while the data was being changed")
)

// ival is an operation's interval of event numbers.
type ival struct{ a, b uint64 }

// snapWorld is one function, span, trace, timer and collector shared by all
// goroutines, with the history of everything done to them.
type snapWorld struct {
	r     *monkit.Registry
	sc    *monkit.Scope
	f     *monkit.Func
	ctx   context.Context
	span  *monkit.Span
	tr    *monkit.Trace
	timer *monkit.Timer
	iv    *monkit.IntVal
	col   *collect.SpanCollector
	args  []interface{}
	want  []string // Args() in full

	errs   [3][]ival // calls that failed, by error
	oks    []ival
	fails  []ival
	times  []ival // timer stops
	notes  []noteRec
	sets   [3][]setRec
	kids   int
	rechk  []func() // re-examination of everything handed out so far
	poison int
}

type noteRec struct {
	name, val string
	at        ival
}

type setRec struct {
	val int
	at  ival
}

var snapErrs = []struct {
	err  error
	name string
}{{&namedErr{"A"}, "A"}, {&namedErr{"B"}, "B"}, {errPlain, "System Error"}}

// covered counts the operations certainly and possibly covered by a reading.
func covered(l []ival, at ival) (lo, hi int) {
	for _, x := range l {
		if x.b != 0 && x.b < at.a {
			lo++
		}
		if x.a < at.b {
			hi++
		}
	}
	if lo != hi {
		hit(prSnapConc)
	}
	return
}

func (w *snapWorld) call(kind int) {
	ctx := context.Background()
	exit := w.f.Task(&ctx)
	var err error
	l := &w.oks
	if kind > 0 {
		err = snapErrs[kind-1].err
		l = &w.errs[kind-1]
		w.fails = append(w.fails, ival{a: seq()})
	}
	*l = append(*l, ival{a: seq()})
	i, j := len(*l)-1, len(w.fails)-1
	exit(&err)
	(*l)[i].b = seq()
	if kind > 0 {
		w.fails[j].b = seq()
	}
}

// later keeps a check that is repeated after every further step.
func (w *snapWorld) later(f func()) { w.rechk = append(w.rechk, f) }

func (w *snapWorld) recheck() {
	for _, f := range w.rechk {
		f()
	}
}

func sameErrs(m map[string]int64, ks []string, vs []int64) bool {
	if len(m) != len(ks) {
		return false
	}
	for i, k := range ks {
		if m[k] != vs[i] {
			return false
		}
	}
	return true
}

func (w *snapWorld) readErrors(clobber bool) {
	at := ival{a: seq()}
	m := w.f.Errors()
	at.b = seq()
	sum := 0
	for k := range snapErrs {
		lo, hi := covered(w.errs[k], at)
		n, ok := m[snapErrs[k].name]
		if ok {
			sum++
		}
		if n < int64(lo) || n > int64(hi) {
			fail("error-counts", "Errors() says %d calls failed with %q; it was between %d and %d", n, snapErrs[k].name, lo, hi)
		}
	}
	if len(m) != sum {
		fail("error-counts", "Errors() returned %d names, %d of them are names of errors that happened: %s", len(m), sum, str(m))
	}
	if clobber {
		hit(prSnapClobber)
		w.poison++
		for k := range snapErrs {
			m[snapErrs[k].name] = 1 << 40
		}
		m[fmt.Sprintf("poison%d", w.poison)] = 7
		simrt.Y()
		delete(m, "A")
		return
	}
	ks := simrt.SortedKeys(m)
	var vs []int64
	for _, k := range ks {
		vs = append(vs, m[k])
	}
	w.later(func() {
		if !sameErrs(m, ks, vs) {
			fail("snapshot-changed", "the map returned by Errors() changed afterwards, from %v %v to %s", ks, vs, str(m))
		}
	})
}

func (w *snapWorld) readTrace(clobber bool) {
	at := ival{a: seq()}
	m := w.tr.GetAll()
	at.b = seq()
	for k := range w.sets {
		v, ok := m[ctxK{k}]
		okAny := !ok
		for _, s := range w.sets[k] {
			if s.at.b != 0 && s.at.b < at.a && !ok {
				fail("trace-values", "GetAll() lacks key %d, which was set before", k)
			}
			if ok && v == s.val && s.at.a < at.b {
				okAny = true
			}
		}
		if !okAny {
			fail("trace-values", "GetAll() says %v for key %d, which was never set to that", v, k)
		}
		if ok {
			k, v := k, v
			if !clobber {
				w.later(func() {
					if m[ctxK{k}] != v {
						fail("snapshot-changed", "the map returned by GetAll() changed afterwards: key %d from %v to %v", k, v, m[ctxK{k}])
					}
				})
			}
		}
	}
	n := len(m)
	if clobber && m != nil {
		hit(prSnapClobber)
		for k := range w.sets {
			m[ctxK{k}] = -1
		}
		m["poison"] = 1
		delete(m, ctxK{0})
		return
	}
	w.later(func() {
		if len(m) != n {
			fail("snapshot-changed", "the map returned by GetAll() changed afterwards: %d keys became %d", n, len(m))
		}
		if _, ok := m["poison"]; ok {
			fail("caller-change-leaks", "GetAll() returned a key that only another caller's copy had")
		}
	})
}

func (w *snapWorld) checkNotes(as []monkit.Annotation, at ival) {
	pos := map[string]int{}
	for i, a := range as {
		if _, dup := pos[a.Value]; dup {
			fail("annotations", "annotation %q is returned twice", a.Value)
		}
		pos[a.Value] = i
	}
	found := 0
	for i, n := range w.notes {
		p, ok := pos[n.val]
		if !ok {
			if n.at.b != 0 && n.at.b < at.a {
				fail("annotations", "annotation %q, made before, is missing among %d", n.val, len(as))
			}
			hit(prSnapConc)
			continue
		}
		found++
		if as[p].Name != n.name {
			fail("annotations", "annotation %q is returned with name %q instead of %q", n.val, as[p].Name, n.name)
		}
		for _, o := range w.notes[:i] {
			if q, ok := pos[o.val]; o.at.b != 0 && o.at.b < n.at.a && ok && q > p {
				fail("annotations", "annotation %q was made before %q but is returned after it", o.val, n.val)
			}
		}
	}
	if found != len(as) {
		fail("annotations", "%d annotations are returned, %d of them were made", len(as), found)
	}
}

func (w *snapWorld) readNotes(clobber bool) {
	at := ival{a: seq()}
	as := w.span.Annotations()
	at.b = seq()
	w.checkNotes(as, at)
	if clobber {
		hit(prSnapClobber)
		for i := range as {
			as[i] = monkit.Annotation{Name: "poison", Value: "poison"}
			simrt.Y()
		}
		_ = append(as, monkit.Annotation{Name: "poison", Value: "more"})
		return
	}
	n := len(as)
	// the caller may append to what it got
	mine := append(as, monkit.Annotation{Name: "mine", Value: str(w.poison)})
	w.poison++
	v := mine[n].Value
	want := append([]monkit.Annotation(nil), as...)
	w.later(func() {
		if len(mine) != n+1 || mine[n].Value != v {
			fail("snapshot-changed", "a slice appended to a result of Annotations() changed afterwards")
		}
		for i := range want {
			if as[i] != want[i] {
				fail("snapshot-changed", "the slice returned by Annotations() changed afterwards: %v became %v", want[i], as[i])
			}
		}
	})
}

func (w *snapWorld) readArgs(clobber bool) {
	as := w.span.Args()
	if len(as) != len(w.want) {
		fail("arguments", "Args() returned %v instead of %v", as, w.want)
	}
	for i := range as {
		if as[i] != w.want[i] {
			fail("arguments", "Args() returned %v instead of %v", as, w.want)
		}
	}
	if clobber {
		hit(prSnapClobber)
		for i := range as {
			as[i] = "poison"
			simrt.Y()
		}
		_ = append(as, "poison")
		return
	}
	// the caller may append to what it got
	mine := append(as, str(w.poison))
	w.poison++
	n, v := len(as), mine[len(as)]
	w.later(func() {
		if mine[n] != v {
			fail("snapshot-changed", "a slice appended to a result of Args() changed afterwards")
		}
		for i := range w.want {
			if as[i] != w.want[i] {
				fail("snapshot-changed", "the slice returned by Args() changed afterwards: %q became %q", w.want[i], as[i])
			}
		}
	})
}

// dur is a duration distribution that was handed out.
func (w *snapWorld) dur(what string, d *monkit.DurationDist, at ival, l []ival, clobber bool) {
	lo, hi := covered(l, at)
	if d.Count < int64(lo) || d.Count > int64(hi) {
		fail("distribution", "%s has %d values; it was between %d and %d", what, d.Count, lo, hi)
	}
	if clobber {
		hit(prSnapClobber)
		for i := 0; i < 5; i++ {
			d.Insert(-time.Hour)
		}
		if env(2) == 1 {
			d.Reset()
		}
		return
	}
	type view struct {
		c         int64
		lo, hi, s time.Duration
		rec, fa   time.Duration
		ra        time.Duration
		q         [5]time.Duration
	}
	look := func() (v view) {
		v = view{c: d.Count, lo: d.Low, hi: d.High, s: d.Sum, rec: d.Recent, fa: d.FullAverage(), ra: d.ReservoirAverage()}
		for i := range v.q {
			v.q[i] = d.Query(float64(i) / 4)
		}
		return
	}
	v := look()
	if v.c > 0 && (v.lo < 0 || v.q[0] < 0) {
		fail("caller-change-leaks", "%s contains a value only another caller's copy was given: %+v", what, v)
	}
	w.later(func() {
		if x := look(); x != v {
			fail("snapshot-changed", "%s changed after it was returned, from %+v to %+v", what, v, x)
		}
	})
}

func (w *snapWorld) readTimes(which int, clobber bool) {
	at := ival{a: seq()}
	var d *monkit.DurationDist
	switch which {
	case 0:
		d = w.f.SuccessTimes()
		at.b = seq()
		w.dur("SuccessTimes()", d, at, w.oks, clobber)
	case 1:
		d = w.f.FailureTimes()
		at.b = seq()
		w.dur("FailureTimes()", d, at, w.fails, clobber)
	case 2:
		d = w.timer.Values()
		at.b = seq()
		w.dur("Timer.Values()", d, at, w.times, clobber)
	}
}

func (w *snapWorld) readSpans(clobber bool) {
	ss := w.col.Spans()
	if len(ss) != w.kids+1 {
		fail("collected-spans", "Spans() returned %d spans instead of %d", len(ss), w.kids+1)
	}
	for i, s := range ss {
		if s == nil || s.Span == nil {
			fail("caller-change-leaks", "Spans() returned an entry another caller erased in its own copy")
		}
		for _, o := range ss[:i] {
			if o.Span == s.Span {
				fail("collected-spans", "Spans() returned a span twice")
			}
		}
	}
	if clobber {
		hit(prSnapClobber)
		for i := range ss {
			ss[i] = nil
			simrt.Y()
		}
		_ = append(ss, nil)
		return
	}
	want := append([]*collect.FinishedSpan(nil), ss...)
	w.later(func() {
		for i := range want {
			if ss[i] != want[i] {
				fail("snapshot-changed", "the slice returned by Spans() changed afterwards")
			}
		}
	})
}

func (w *snapWorld) readCollect(clobber bool) {
	m := monkit.Collect(w.r)
	if v, ok := m["poison"]; ok {
		fail("caller-change-leaks", "Collect() returned an entry another caller added to its own copy: %v", v)
	}
	if clobber {
		hit(prSnapClobber)
		m["poison"] = 1
		return
	}
	ks := simrt.SortedKeys(m)
	want := map[string]float64{}
	for _, k := range ks {
		want[k] = m[k]
	}
	w.later(func() {
		if len(m) != len(ks) {
			fail("snapshot-changed", "the map returned by Collect() changed afterwards")
		}
		for _, k := range ks {
			if m[k] != want[k] && m[k] == m[k] {
				fail("snapshot-changed", "the map returned by Collect() changed afterwards: %s from %v to %v", k, want[k], m[k])
			}
		}
	})
}

// keys derives series keys and tag sets from shared ones.
func (w *snapWorld) keys(base monkit.SeriesKey, tags *monkit.TagSet, n int) {
	in := map[string]string{"p": str(n), "q": "1"}
	t1 := tags.SetAll(in)
	s1 := t1.String()
	in["p"] = "poison"
	in["r"] = "poison"
	ts := []monkit.SeriesTag{monkit.NewSeriesTag("a", str(n)), monkit.NewSeriesTag("z", "2")}
	t2 := tags.SetTags(ts...)
	ts[0].Val = "poison"
	k1 := base.WithTags(monkit.NewSeriesTag("m", str(n)))
	k2 := base.WithTag("m", "other")
	_ = k2
	t3 := t1.Set("p", "changed")
	// from no tags at all
	var none *monkit.TagSet
	if n%2 == 1 {
		none = &monkit.TagSet{}
	}
	in0 := map[string]string{"p": str(n)}
	t4 := none.SetAll(in0)
	ts0 := []monkit.SeriesTag{monkit.NewSeriesTag("a", str(n))}
	t5 := none.SetTags(ts0...)
	t6 := none.Set("a", "0")
	early := n%3 == 0
	if early {
		_ = t4.String()
	}
	t7 := t4.Set("p", "changed")
	t8 := t4.SetAll(map[string]string{"y": "1"})
	in0["p"] = "poison"
	in0["r"] = "poison"
	ts0[0] = monkit.NewSeriesTag("poison", "poison")
	t9 := t1.SetAll(nil).SetTags()
	t10 := t9.Set("t", "1")
	want1, want2 := fmt.Sprintf("a=b,p=%d,q=1", n), fmt.Sprintf("a=%d,z=2", n)
	w.later(func() {
		if got := t1.String(); got != want1 || s1 != want1 || t1.Get("p") != str(n) || t1.Get("r") != "" || t1.Len() != 3 {
			fail("tags-changed", "a tag set made with SetAll is %q instead of %q", got, want1)
		}
		if got := t2.String(); got != want2 || t2.Get("a") != str(n) {
			fail("tags-changed", "a tag set made with SetTags is %q instead of %q", got, want2)
		}
		if got := t3.Get("p"); got != "changed" || t3.Get("q") != "1" {
			fail("tags-changed", "a tag set derived with Set says p=%q, q=%q", got, t3.Get("q"))
		}
		if got, want := t4.String(), fmt.Sprintf("p=%d", n); got != want || t4.Get("p") != str(n) || t4.Get("r") != "" || t4.Len() != 1 {
			fail("tags-changed", "a tag set made with SetAll of none is %q (p=%q) instead of %q", got, t4.Get("p"), want)
		}
		if got, want := t5.String(), fmt.Sprintf("a=%d", n); got != want || t5.Len() != 1 {
			fail("tags-changed", "a tag set made with SetTags of none is %q instead of %q", got, want)
		}
		if t6.String() != "a=0" || t7.String() != "p=changed" || t8.String() != fmt.Sprintf("p=%d,y=1", n) {
			fail("tags-changed", "tag sets a=0, p=changed and p=%d,y=1 are %q, %q and %q", n, t6, t7, t8)
		}
		if t9.String() != want1 || t10.String() != want1+",t=1" {
			fail("tags-changed", "tag sets %s and %s,t=1 are %q and %q", want1, want1, t9, t10)
		}
		if none.Len() != 0 || none.String() != "" {
			fail("tags-changed", "an empty tag set became %q when others were derived from it", none)
		}
		if got := tags.String(); got != "a=b" || tags.Len() != 1 {
			fail("tags-changed", "a tag set changed from a=b to %q when others were derived from it", got)
		}
		if got := base.String(); got != "base,a=b" {
			fail("tags-changed", "a series key changed from base,a=b to %q when others were derived from it", got)
		}
		if got, want := k1.String(), fmt.Sprintf("base,a=b,m=%d", n); got != want {
			fail("tags-changed", "a derived series key is %q instead of %q", got, want)
		}
	})
}

// manyTags derives a series key and a tag set with many tags.
func (w *snapWorld) manyTags() {
	var ts []monkit.SeriesTag
	want := ""
	n := between(9, 40)
	for i := 0; i < n; i++ {
		ts = append(ts, monkit.NewSeriesTag(fmt.Sprintf("t%02d", i), str(i)))
		want += fmt.Sprintf(",t%02d=%d", i, i)
	}
	k := monkit.NewSeriesKey("m").WithTags(ts...)
	t := (&monkit.TagSet{}).SetTags(ts[:n-1]...)
	in := map[string]string{}
	for _, x := range ts {
		in[x.Key] = x.Val
	}
	u := (*monkit.TagSet)(nil).SetAll(in)
	for i := range ts {
		ts[i] = monkit.NewSeriesTag("poison", "poison")
	}
	w.later(func() {
		if k.String() != "m"+want || k.Tags.Len() != n || k.Tags.Get("t08") != "8" {
			fail("tags-changed", "a series key with %d tags %s is %q", n, want, k)
		}
		if u.String() != want[1:] || u.Len() != n || t.Len() != n-1 || !strings.HasPrefix(want[1:], t.String()+",") {
			fail("tags-changed", "tag sets with %d and %d tags are %q and %q", n, n-1, u, t)
		}
	})
}

func p20() {
	w := &snapWorld{r: monkit.NewRegistry()}
	w.sc = w.r.ScopeNamed("s")
	w.f = w.sc.FuncNamed("f")
	w.timer = w.sc.Timer("t")
	switch plan(4) {
	case 3:
		for n := between(9, 40); n > 0; n-- {
			w.args, w.want = append(w.args, n), append(w.want, str(n))
		}
	case 1:
		w.args, w.want = []interface{}{"x", 3}, []string{`"x"`, "3"}
	case 2:
		w.args, w.want = []interface{}{[]uint8{1, 2}, "a", true}, []string{"[]uint8(0x0102)", `"a"`, "true"}
	}
	w.ctx = context.Background()
	exit := w.sc.FuncNamed("holder").Task(&w.ctx, w.args...)
	w.span = monkit.SpanFromCtx(w.ctx)
	w.tr = w.span.Trace()
	// a finished collection
	w.kids = plan(4)
	w.col = collect.NewSpanCollector(nil)
	cctx := context.Background()
	cexit := w.sc.FuncNamed("collected").Task(&cctx)
	cs := monkit.SpanFromCtx(cctx)
	w.col.ForceStart(cs)
	stop := cs.Trace().ObserveSpans(w.col)
	for i := 0; i < w.kids; i++ {
		c := cctx
		w.sc.FuncNamed("kid").Task(&c)(nil)
	}
	cexit(nil)
	stop()

	tags := (&monkit.TagSet{}).Set("a", "b")
	base := monkit.NewSeriesKey("base").WithTag("a", "b")

	if pchance(8) {
		// many of everything
		for n := between(20, 80); n > 0; n-- {
			w.notes = append(w.notes, noteRec{name: fmt.Sprintf("n%d", n%3), val: fmt.Sprintf("v%d", len(w.notes)), at: ival{a: seq()}})
			l := &w.notes[len(w.notes)-1]
			w.span.Annotate(l.name, l.val)
			l.at.b = seq()
		}
		w.manyTags()
	}

	// what this run is about
	var focus []int
	for k := between(1, 3); k > 0; k-- {
		focus = append(focus, plan(9))
	}
	var g group
	for wk := between(2, 4); wk > 0; wk-- {
		type op struct{ f, write, x int }
		var ops []op
		for k := between(1, 7); k > 0; k-- {
			ops = append(ops, op{focus[plan(len(focus))], plan(2), plan(12)})
		}
		g.Go("worker", func() {
			for _, o := range ops {
				clobber := o.x%3 == 2
				switch o.f {
				case 0:
					if o.write == 1 {
						w.call(1 + o.x%3)
					} else {
						w.readErrors(clobber)
					}
				case 1:
					if o.write == 1 {
						k := o.x % 3
						w.poison++
						v := w.poison
						w.sets[k] = append(w.sets[k], setRec{val: v, at: ival{a: seq()}})
						i := len(w.sets[k]) - 1
						w.tr.Set(ctxK{k}, v)
						w.sets[k][i].at.b = seq()
					} else {
						w.readTrace(clobber)
					}
				case 2:
					if o.write == 1 {
						n := len(w.notes)
						w.notes = append(w.notes, noteRec{name: fmt.Sprintf("n%d", n%[]int{3, 1000}[o.x%2]), val: fmt.Sprintf("v%d", n), at: ival{a: seq()}})
						w.span.Annotate(w.notes[n].name, w.notes[n].val)
						w.notes[n].at.b = seq()
					} else {
						w.readNotes(clobber)
					}
				case 3:
					w.readArgs(clobber)
				case 4:
					if o.write == 1 {
						w.call(0)
					} else {
						w.readTimes(0, clobber)
					}
				case 5:
					if o.write == 1 {
						w.call(1 + o.x%3)
					} else {
						w.readTimes(1, clobber)
					}
				case 6:
					if o.write == 1 {
						rt := w.timer.Start()
						i := len(w.times)
						w.times = append(w.times, ival{a: seq()})
						rt.Stop()
						w.times[i].b = seq()
					} else {
						w.readTimes(2, clobber)
					}
				case 7:
					if o.write == 1 {
						w.readCollect(clobber)
					} else {
						w.readSpans(clobber)
					}
				case 8:
					w.keys(base, tags, o.x)
				}
				if len(w.rechk) > 0 && o.write == 1 {
					hit(prSnapChange)
				}
				w.recheck()
			}
		})
	}
	g.Wait()
	// everything once more, now that nothing runs
	for _, c := range []bool{true, false} {
		w.readErrors(c)
		w.readTrace(c)
		w.readNotes(c)
		w.readArgs(c)
		w.readTimes(0, c)
		w.readTimes(1, c)
		w.readTimes(2, c)
		w.readSpans(c)
		w.readCollect(c)
		w.recheck()
	}
	exit(nil)
	w.recheck()
	w.readNotes(false)
	// a finished span can still be annotated
	for k := plan(3); k > 0; k-- {
		n := len(w.notes)
		w.notes = append(w.notes, noteRec{name: "late", val: fmt.Sprintf("v%d", n), at: ival{a: seq()}})
		w.span.Annotate(w.notes[n].name, w.notes[n].val)
		w.notes[n].at.b = seq()
	}
	w.readNotes(false)
	w.readArgs(false)
}
