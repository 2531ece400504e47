package main

import (
	"fmt"
	"time"

	"simrt"
	"simrt/context"

	"github.com/spacemonkeygo/monkit/v3"
)

func init() { register(&Scenario{ID: "P01", Body: p01}) }

var (
	prSnapDuring    = probe("statistics collected while calls were running")
	prHighContended = probe("high-water mark raised by concurrent starts")
	prCoarse        = probe("clock too coarse to time a short call")
	prFuncReset     = probe("function statistics reset while calls were running")
)

// call is one monitored call in the history.
type call struct {
	f              int
	o              outcome
	t0, t1, t2, t3 int64  // simulated time: start called, returned, exit called, returned
	s0, s1, s2, s3 uint64 // the same as event numbers; 0: not yet
}

type funcModel struct {
	name  string
	calls []*call
	fs    *monkit.FuncStats
	run   func(ctx *context.Context) func(*error)
	// extremes of the number of running calls so far
	defNow, posNow, defMax, posMax int64
	resets                         []*reset
	names                          map[string]bool // of errors returned
}

// reset is a reset of the statistics in the history.
type reset struct{ s0, s1 uint64 }

func (m *funcModel) enter(c *call) {
	if c.o.kind == 1 {
		if m.names == nil {
			m.names = map[string]bool{}
		}
		m.names[c.o.name] = true
	}
	m.calls = append(m.calls, c)
	m.posNow++
	m.posMax = maxi(m.posMax, m.posNow)
	c.t0, c.s0 = now(), seq()
}
func (m *funcModel) entered(c *call) {
	c.t1, c.s1 = now(), seq()
	m.defNow++
	m.defMax = maxi(m.defMax, m.defNow)
}
func (m *funcModel) leave(c *call) {
	c.t2, c.s2 = now(), seq()
	m.defNow--
}
func (m *funcModel) left(c *call) {
	c.t3, c.s3 = now(), seq()
	m.posNow--
}

type bounds struct{ lo, hi int64 }

func (b bounds) has(v float64) bool { return v >= float64(b.lo) && v <= float64(b.hi) }

// count bounds the number of finished calls that satisfy sel, for a reading
// between events a and b.
func (m *funcModel) count(a, b uint64, sel func(*call) bool) (r bounds) {
	for _, c := range m.calls {
		if !sel(c) {
			continue
		}
		kept, gone := true, false
		for _, x := range m.resets {
			kept = kept && (x.s0 > b || x.s1 != 0 && x.s1 < c.s2)
			gone = gone || c.s3 != 0 && c.s3 < x.s0 && x.s1 != 0 && x.s1 < a
		}
		if c.s3 != 0 && c.s3 < a && kept {
			r.lo++
		}
		if c.s2 != 0 && c.s2 < b && !gone {
			r.hi++
		}
	}
	return r
}

func (m *funcModel) running(a, b uint64) (r bounds) {
	for _, c := range m.calls {
		// running at some point of the reading / during all of it
		if c.s1 != 0 && c.s1 < a && (c.s2 == 0 || c.s2 > b) {
			r.lo++
		}
		if c.s0 < b && (c.s3 == 0 || c.s3 > a) {
			r.hi++
		}
	}
	return r
}

func isKind(k ...int) func(*call) bool {
	return func(c *call) bool {
		for _, x := range k {
			if c.o.kind == x {
				return true
			}
		}
		return false
	}
}

func isErr(name string) func(*call) bool {
	return func(c *call) bool { return c.o.kind == 1 && c.o.name == name }
}

func p01() {
	if pchance(6) {
		// a clock too coarse to tell the start of a short call from its end
		simrt.SetTick(0)
		hit(prCoarse)
	}
	r := monkit.NewRegistry()
	scope := r.ScopeNamed("s")
	nf := between(1, 3)
	models := make([]*funcModel, nf)
	for i := range models {
		m := &funcModel{name: fmt.Sprintf("f%d", i)}
		switch plan(4) {
		case 1:
			f := scope.FuncNamed(m.name)
			m.fs, m.run = &f.FuncStats, func(ctx *context.Context) func(*error) { return f.Task(ctx) }
		case 2:
			fs := monkit.NewFuncStats(monkit.NewSeriesKey("function").WithTag("name", m.name))
			m.fs, m.run = fs, func(*context.Context) func(*error) { return fs.Observe() }
		case 3:
			f := scope.FuncNamed(m.name)
			m.fs, m.run = &f.FuncStats, func(ctx *context.Context) func(*error) { return f.ResetTrace(ctx) }
		default:
			t := scope.TaskNamed(m.name)
			m.fs, m.run = &t.Func().FuncStats, func(ctx *context.Context) func(*error) { return t(ctx) }
		}
		models[i] = m
	}
	handled, names := make([]error, 2), make([]string, 2)
	if plan(3) == 1 {
		// error name handlers registered at the same time
		var g group
		for i := range handled {
			i := i
			name := fmt.Sprintf("handled%d", i)
			var e error = &plainErr{name}
			if i == 1 {
				e = &namedErr{"own name"} // handlers go first
			}
			handled[i], names[i] = e, name
			g.Go("handler", func() {
				monkit.AddErrorNameHandler(func(err error) (string, bool) {
					_ = err.Error() // handlers are asked about errors only
					if err == e {
						return name, true
					}
					return "declined", false
				})
			})
		}
		g.Wait()
		if plan(2) == 1 {
			// the most recently added handler is asked first
			names[0] = []string{"newest", ""}[plan(2)]
			newest := names[0]
			monkit.AddErrorNameHandler(func(err error) (string, bool) {
				if err == handled[0] {
					return newest, true
				}
				return "declined", false
			})
		}
	}
	var g group
	sleepy := []int64{0, 0, 5, 1000, int64(time.Second)}[plan(5)]
	nw := between(1, 4)
	many := pchance(12) // many names of errors
	for w := 0; w < nw; w++ {
		nc := between(1, 4)
		if many {
			nc = between(5, 40)
		}
		type step struct {
			c     *call
			depth int
		}
		var prog []step
		for i := 0; i < nc; i++ {
			o := genOutcome()
			if many && o.kind == 1 {
				o.name = fmt.Sprintf("error %d", plan(40))
				o.err = &namedErr{o.name}
			} else if o.kind == 1 && plan(3) == 1 {
				if i := plan(2); handled[i] != nil {
					o.err, o.name = handled[i], names[i]
				}
			}
			prog = append(prog, step{&call{f: plan(nf), o: o}, plan(3)})
		}
		g.Go("worker", func() {
			ctx := context.Context(context.Background())
			for i := 0; i < len(prog); i++ {
				// a call may contain the following ones
				n := prog[i].depth
				var inner []*call
				for k := 1; k <= n && i+k < len(prog); k++ {
					inner = append(inner, prog[i+k].c)
				}
				nested(models, ctx, append([]*call{prog[i].c}, inner...), sleepy)
				i += len(inner)
			}
		})
	}
	collections := between(0, 3)
	for k := 0; k < 1+plan(2); k++ {
		g.Go("collector", func() {
			for i := 0; i < collections; i++ {
				m := models[env(nf)]
				switch env(4) {
				case 0, 1:
					m.checkStats(false)
				case 2:
					m.checkGetters(false)
				case 3:
					a := seq()
					v := m.fs.Current()
					m.checkCurrent(float64(v), a, seq())
				}
				nap(sleepy)
			}
		})
	}
	if plan(4) == 1 {
		g.Go("resetter", func() {
			for i := 0; i < 2; i++ {
				m := models[env(nf)]
				if m.posNow > 0 {
					hit(prFuncReset)
				}
				nap(sleepy)
				x := &reset{s0: seq()}
				m.resets = append(m.resets, x)
				m.fs.Reset()
				x.s1 = seq()
			}
		})
	}
	g.Wait()
	for _, m := range models {
		m.checkStats(true)
		m.checkGetters(true)
		m.checkTimes()
	}
	if plan(4) == 1 {
		// reset while nothing runs: counting starts again
		m := models[0]
		m.fs.Reset()
		old := m.calls
		m.calls, m.defMax, m.posMax, m.resets = nil, 0, 0, nil
		m.checkStats(true)
		m.checkGetters(true)
		c := &call{o: old0(old)}
		nested(models, context.Background(), []*call{c}, sleepy)
		m.checkStats(true)
		m.checkGetters(true)
		m.checkTimes()
	}
}

func old0(cs []*call) outcome {
	if len(cs) > 0 {
		return cs[0].o
	}
	return outcome{}
}

// nested makes the calls cs, each inside the one before it.
func nested(ms []*funcModel, ctx context.Context, cs []*call, sleepy int64) {
	if len(cs) == 0 {
		return
	}
	c := cs[0]
	m := ms[c.f]
	pv, panicked := guarded(func() {
		var err error
		m.enter(c)
		exit := m.run(&ctx)
		m.entered(c)
		defer m.left(c)
		defer exit(&err)
		defer m.leave(c)
		nap(sleepy)
		nested(ms, ctx, cs[1:], sleepy)
		c.o.act(&err)
	})
	if panicked != (c.o.kind >= 2) || pv != c.o.pv {
		fail("panic-changed", "a call that ended with panic value %v (%v) was seen ending with %v (%v)", c.o.pv, c.o.kind >= 2, pv, panicked)
	}
}

func (m *funcModel) checkCurrent(v float64, a, b uint64) {
	if len(m.resets) > 0 {
		// which of the running calls the count leaves out is not specified
		return
	}
	if r := m.running(a, b); !r.has(v) {
		fail("current", "%s: running count %v, but between %d and %d calls were running", m.name, v, r.lo, r.hi)
	}
}

func (m *funcModel) checkStats(quiet bool) {
	a := seq()
	def0 := m.defMax
	if m.defNow > 0 {
		hit(prSnapDuring)
	}
	sts := collectStats(m.fs)
	b := seq()
	get := func(f string) float64 {
		n := 0
		var v float64
		for _, s := range sts {
			if s.field == f && s.key.Measurement == "function" && !hasTag(s.key, "error_name") {
				v = s.val
				n++
			}
		}
		if n != 1 {
			fail("stats-shape", "%s: field %q reported %d times", m.name, f, n)
		}
		return v
	}
	succ, errs, panics, fails, total := get("successes"), get("errors"), get("panics"), get("failures"), get("total")
	if total != succ+fails || fails != errs+panics {
		fail("inconsistent-snapshot", "%s: successes %v errors %v panics %v failures %v total %v", m.name, succ, errs, panics, fails, total)
	}
	var sum float64
	seen := []string{}
	for _, s := range sts {
		if n, is := s.key.Tags.All()["error_name"]; is && s.field == "count" && s.key.Measurement == "function" {
			sum += s.val
			for _, x := range seen {
				if x == n {
					fail("error-name-twice", "%s: error %q reported twice", m.name, n)
				}
			}
			seen = append(seen, n)
			if !m.names[n] {
				fail("error-count", "%s: an error named %q is reported, none was returned", m.name, n)
			}
			if bd := m.count(a, b, isErr(n)); !bd.has(s.val) {
				fail("error-count", "%s: %v errors named %q reported, between %d and %d happened", m.name, s.val, n, bd.lo, bd.hi)
			}
		}
	}
	if sum != errs {
		fail("inconsistent-snapshot", "%s: errors %v but the counts by name add up to %v", m.name, errs, sum)
	}
	for _, x := range []struct {
		what string
		v    float64
		k    []int
	}{{"successes", succ, []int{0}}, {"errors", errs, []int{1}}, {"panics", panics, []int{2, 3}}} {
		if bd := m.count(a, b, isKind(x.k...)); !bd.has(x.v) {
			fail("miscounted", "%s: %v %s reported, between %d and %d happened", m.name, x.v, x.what, bd.lo, bd.hi)
		}
	}
	// the duration counts belong to the same snapshot
	kinds := map[string]int{}
	for _, s := range sts {
		if s.field != "count" || s.key.Measurement != "function_times" {
			continue
		}
		kinds[s.key.Tags.Get("kind")]++
		want := succ
		if s.key.Tags.Get("kind") == "failure" {
			want = fails
		}
		if s.val != want {
			fail("inconsistent-snapshot", "%s: %v %s durations for %v calls", m.name, s.val, s.key.Tags.Get("kind"), want)
		}
	}
	if kinds["success"] != 1 || kinds["failure"] != 1 || len(kinds) != 2 {
		fail("stats-shape", "%s: the statistics have %d sets of success times and %d of failure times", m.name, kinds["success"], kinds["failure"])
	}
	m.checkCurrent(get("current"), a, b)
	m.checkHigh(get("highwater"), def0)
	if quiet && get("current") != 0 && len(m.resets) == 0 {
		fail("current", "%s: running count %v after every call finished", m.name, get("current"))
	}
}

func (m *funcModel) checkHigh(v float64, def0 int64) {
	if len(m.resets) > 0 {
		return
	}
	if v < float64(def0) || v > float64(m.posMax) {
		fail("highwater", "%s: high-water mark %v, but between %d and %d calls had been running at once", m.name, v, def0, m.posMax)
	}
	if m.posMax > 1 {
		hit(prHighContended)
	}
}

func (m *funcModel) checkGetters(quiet bool) {
	check := func(what string, get func() float64, sel func(*call) bool) {
		a := seq()
		v := get()
		if bd := m.count(a, seq(), sel); !bd.has(v) {
			fail("miscounted", "%s: %v %s, between %d and %d happened", m.name, v, what, bd.lo, bd.hi)
		}
	}
	check("successes", func() float64 { return float64(m.fs.Success()) }, isKind(0))
	check("panics", func() float64 { return float64(m.fs.Panics()) }, isKind(2, 3))
	check("success times", func() float64 { return float64(m.fs.SuccessTimes().Count) }, isKind(0))
	check("failure times", func() float64 { return float64(m.fs.FailureTimes().Count) }, isKind(1, 2, 3))
	a := seq()
	errs := m.fs.Errors()
	b := seq()
	for _, n := range simrt.SortedKeys(errs) {
		if !m.names[n] {
			fail("error-count", "%s: an error named %q is listed, none was returned", m.name, n)
		}
		if bd := m.count(a, b, isErr(n)); !bd.has(float64(errs[n])) {
			fail("error-count", "%s: %v errors named %q, between %d and %d happened", m.name, errs[n], n, bd.lo, bd.hi)
		}
	}
	for _, c := range m.calls {
		if c.o.kind == 1 && c.s3 != 0 && c.s3 < a {
			if errs[c.o.name] == 0 && m.count(a, b, isErr(c.o.name)).lo > 0 {
				fail("error-count", "%s: no error named %q reported after one happened (%v)", m.name, c.o.name, errs)
			}
		}
	}
	def0 := m.defMax
	m.checkHigh(float64(m.fs.Highwater()), def0)
	a = seq()
	v := float64(m.fs.Current())
	m.checkCurrent(v, a, seq())
}

// checkTimes compares the recorded durations with the history, after the end.
func (m *funcModel) checkTimes() {
	if len(m.resets) > 0 {
		return
	}
	for _, k := range []int{0, 1} {
		d := m.fs.SuccessTimes()
		sel := isKind(0)
		if k == 1 {
			d, sel = m.fs.FailureTimes(), isKind(1, 2, 3)
		}
		var lo, hi, minLo, minHi, maxLo, maxHi int64
		n := 0
		for _, c := range m.calls {
			if !sel(c) {
				continue
			}
			a, b := c.t2-c.t1, c.t3-c.t0
			lo += a
			hi += b
			if n == 0 || a < minLo {
				minLo = a
			}
			if n == 0 || b < minHi {
				minHi = b
			}
			maxLo, maxHi = maxi(maxLo, a), maxi(maxHi, b)
			n++
		}
		if d.Count != int64(n) {
			fail("miscounted", "%s: %d durations for %d calls", m.name, d.Count, n)
		}
		if n == 0 {
			continue
		}
		if int64(d.Sum) < lo || int64(d.Sum) > hi {
			fail("duration", "%s: durations sum to %v, the calls took between %v and %v", m.name, d.Sum, time.Duration(lo), time.Duration(hi))
		}
		if int64(d.Low) < minLo || int64(d.Low) > minHi || int64(d.High) < maxLo || int64(d.High) > maxHi {
			fail("duration", "%s: durations range over [%v, %v], expected a minimum in [%d, %d] and a maximum in [%d, %d]", m.name, d.Low, d.High, minLo, minHi, maxLo, maxHi)
		}
	}
}

func hasTag(k monkit.SeriesKey, name string) bool {
	_, ok := k.Tags.All()[name]
	return ok
}
