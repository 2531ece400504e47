package main

import (
	"math"
	"sort"
	"strings"
	"time"

	"simrt"

	"github.com/spacemonkeygo/monkit/v3"
)

func init() { register(&Scenario{ID: "P11", Body: p11, MaxSteps: 30000000}) }

var (
	prDistOver   = probe("more observations than the reservoir holds")
	prDistForget = probe("old observations must be forgotten")
	prDistReset  = probe("distribution reset")
	prDistCopy   = probe("distribution copied")
	prDistHuge   = probe("values at the ends of the 64-bit range")
	prDistMid    = probe("snapshot taken with observations in flight")
)

func p11() {
	switch {
	case pchance(12):
		p11forget()
	case plan(2) == 0:
		p11vals()
	default:
		p11dists()
	}
}

// distAPI hides the three kinds of distribution; values are whole numbers.
type distAPI struct {
	kind     string
	insert   func(int64)
	query    func(float64) float64
	stats    func(func(monkit.SeriesKey, string, float64))
	full     func() float64
	ravg     func() float64
	reset    func()
	copy     func() *distAPI
	fields   func() (low, high, recent float64, count int64, sum float64)
	scale    float64 // reported unit
	rounding float64
}

func intDistAPI(d *monkit.IntDist) *distAPI {
	return &distAPI{kind: "int", scale: 1, rounding: 1.01,
		insert: d.Insert, query: func(q float64) float64 { return float64(d.Query(q)) }, stats: d.Stats,
		full: func() float64 { return float64(d.FullAverage()) }, ravg: func() float64 { return float64(d.ReservoirAverage()) },
		reset: d.Reset, copy: func() *distAPI { return intDistAPI(d.Copy()) },
		fields: func() (float64, float64, float64, int64, float64) {
			return float64(d.Low), float64(d.High), float64(d.Recent), d.Count, float64(d.Sum)
		}}
}

func floatDistAPI(d *monkit.FloatDist) *distAPI {
	return &distAPI{kind: "float", scale: 1, rounding: 0,
		insert: func(v int64) { d.Insert(float64(v)) }, query: d.Query, stats: d.Stats,
		full: d.FullAverage, ravg: d.ReservoirAverage,
		reset: d.Reset, copy: func() *distAPI { return floatDistAPI(d.Copy()) },
		fields: func() (float64, float64, float64, int64, float64) { return d.Low, d.High, d.Recent, d.Count, d.Sum }}
}

func durDistAPI(d *monkit.DurationDist) *distAPI {
	return &distAPI{kind: "duration", scale: 1e9, rounding: 1.01,
		insert: func(v int64) { d.Insert(time.Duration(v)) }, query: func(q float64) float64 { return float64(d.Query(q)) }, stats: d.Stats,
		full: func() float64 { return float64(d.FullAverage()) }, ravg: func() float64 { return float64(d.ReservoirAverage()) },
		reset: d.Reset, copy: func() *distAPI { return durDistAPI(d.Copy()) },
		fields: func() (float64, float64, float64, int64, float64) {
			return float64(d.Low), float64(d.High), float64(d.Recent), d.Count, float64(d.Sum)
		}}
}

func newDist(kind int) *distAPI {
	key := monkit.NewSeriesKey("d")
	switch kind {
	case 0:
		return intDistAPI(monkit.NewIntDist(key))
	case 1:
		return floatDistAPI(monkit.NewFloatDist(key))
	}
	return durDistAPI(monkit.NewDurationDist(key))
}

// order statistics, to single precision
func order(kind string, vals []int64) []float64 {
	out := make([]float64, len(vals))
	for i, v := range vals {
		out[i] = float64(float32(v))
		if strings.HasPrefix(kind, "float") {
			out[i] = float64(float32(float64(v)))
		}
	}
	sort.Float64s(out)
	return out
}

func wantQuantile(sorted []float64, q float64) float64 {
	n := len(sorted)
	if n == 0 {
		return 0
	}
	if q <= 0 || n == 1 {
		return sorted[0]
	}
	if q >= 1 {
		return sorted[n-1]
	}
	x := q * float64(n-1)
	i := int(x)
	return sorted[i] + (x-float64(i))*(sorted[i+1]-sorted[i])
}

func closeTo(got, want, scale, rounding float64) bool {
	return math.Abs(got-want) <= rounding+2e-6*math.Max(math.Abs(want), scale)
}

func maxAbs(v []float64) float64 {
	if len(v) == 0 {
		return 0
	}
	return math.Max(math.Abs(v[0]), math.Abs(v[len(v)-1]))
}

var quantiles = []float64{0, .1, .5, .9, .99, 1, .25, .75, .333, .01, -1, 2}

// checkDist compares a distribution with every value inserted since it was
// new or reset.
func checkDist(d *distAPI, vals []int64, what string) {
	low, high, recent, count, sum := d.fields()
	var wl, wh, wr, ws float64
	if !strings.HasPrefix(d.kind, "float") {
		var n int64
		for _, v := range vals {
			n += v
		}
		ws = float64(n)
	}
	for i, v := range vals {
		f := float64(v)
		if i == 0 || f < wl {
			wl = f
		}
		if i == 0 || f > wh {
			wh = f
		}
		wr = f
		if strings.HasPrefix(d.kind, "float") {
			ws += f
		}
	}
	if count != int64(len(vals)) || low != wl || high != wh || recent != wr || sum != ws {
		fail("dist-aggregate", "%s: a %s distribution of %d values has count %d low %v high %v recent %v sum %v, not low %v high %v recent %v sum %v",
			what, d.kind, len(vals), count, low, high, recent, sum, wl, wh, wr, ws)
	}
	full := 0.0
	if count > 0 {
		full = ws / float64(count)
	}
	if got := d.full(); !(math.Abs(got-full) <= d.rounding+1e-9*math.Abs(full)) {
		fail("dist-average", "%s: the average of a %s distribution of %d values is %v, not %v", what, d.kind, len(vals), got, full)
	}
	sorted := order(d.kind, vals)
	if len(vals) <= monkit.ReservoirSize {
		for _, q := range quantiles {
			if got, want := d.query(q), wantQuantile(sorted, q); !closeTo(got, want, 0, d.rounding) {
				fail("quantile", "%s: quantile %v of a %s distribution of %d values is %v, not %v (values %v)", what, q, d.kind, len(vals), got, want, vals)
			}
		}
		avg := 0.0
		for _, v := range sorted {
			avg += v
		}
		if len(sorted) > 0 {
			avg /= float64(len(sorted))
		}
		if got := d.ravg(); !(math.Abs(got-avg) <= d.rounding+1e-4*maxAbs(sorted)) {
			fail("dist-average", "%s: the reservoir average of a %s distribution of %d values is %v, not %v", what, d.kind, len(vals), got, avg)
		}
		return
	}
	hit(prDistOver)
	known := map[float64]bool{}
	for _, v := range sorted {
		known[v] = true
	}
	prev := math.Inf(-1)
	for _, q := range []float64{0, .1, .25, .5, .75, .9, .99, 1} {
		got := d.query(q)
		if !(got >= prev) {
			fail("quantile", "%s: quantile %v of a %s distribution is %v, less than a lower quantile %v", what, q, d.kind, got, prev)
		}
		prev = got
		if !(got >= sorted[0]-d.rounding && got <= sorted[len(sorted)-1]+d.rounding) {
			fail("quantile", "%s: quantile %v of a %s distribution is %v, outside [%v, %v]", what, q, d.kind, got, sorted[0], sorted[len(sorted)-1])
		}
		if (q == 0 || q == 1) && !known[got] {
			fail("quantile", "%s: quantile %v of a %s distribution is %v, which was never observed", what, q, d.kind, got)
		}
	}
	if got := d.ravg(); !(got >= sorted[0]-d.rounding-1e-4*maxAbs(sorted) && got <= sorted[len(sorted)-1]+d.rounding+1e-4*maxAbs(sorted)) {
		fail("dist-average", "%s: the reservoir average of a %s distribution is %v, outside [%v, %v]", what, d.kind, got, sorted[0], sorted[len(sorted)-1])
	}
}

func checkDistStats(d *distAPI, vals []int64, what string) {
	var sts []stat
	d.stats(func(key monkit.SeriesKey, field string, val float64) { sts = append(sts, stat{key, field, val}) })
	checkSnapshotStats(d.kind, d.scale, d.rounding, sts, vals, what)
}

// checkSnapshotStats checks one collection of a distribution that holds vals
// (the last of which is a possible most recent one).
func checkSnapshotStats(kind string, scale, rounding float64, sts []stat, vals []int64, what string) {
	get := func(f string) float64 {
		v, n := find(sts, f)
		if n != 1 {
			fail("stats-shape", "%s: a %s distribution reports %q %d times: %v", what, kind, f, n, sts)
		}
		return v * scale
	}
	c, n := find(sts, "count")
	if n != 1 || c != float64(len(vals)) {
		fail("dist-aggregate", "%s: a %s distribution of %d values reports the count %v", what, kind, len(vals), c)
	}
	if len(vals) == 0 {
		if len(sts) != 1 {
			fail("stats-shape", "%s: an empty %s distribution reports %v", what, kind, sts)
		}
		return
	}
	if len(sts) != 12 {
		fail("stats-shape", "%s: a %s distribution reports %v", what, kind, sts)
	}
	sorted := order(kind, vals)
	var ws float64
	wl, wh := float64(vals[0]), float64(vals[0])
	var wn int64
	for _, v := range vals {
		wn += v
		ws += float64(v)
		wl = math.Min(wl, float64(v))
		wh = math.Max(wh, float64(v))
	}
	if !strings.HasPrefix(kind, "float") {
		ws = float64(wn)
	}
	near := func(a, b float64) bool { return math.Abs(a-b) <= 1e-12*math.Abs(b)+1e-6*(scale-1)/1e9 }
	if !near(get("sum"), ws) || !near(get("min"), wl) || !near(get("max"), wh) {
		fail("dist-aggregate", "%s: a %s distribution reports sum %v min %v max %v, not %v, %v, %v", what, kind, get("sum"), get("min"), get("max"), ws, wl, wh)
	}
	rm, rx := get("rmin"), get("rmax")
	if len(vals) <= monkit.ReservoirSize {
		for _, q := range []struct {
			f string
			q float64
		}{{"rmin", 0}, {"r10", .1}, {"r50", .5}, {"r90", .9}, {"r99", .99}, {"rmax", 1}} {
			if got, want := get(q.f), wantQuantile(sorted, q.q); !closeTo(got, want, 0, rounding) {
				fail("quantile", "%s: a %s distribution of %d values reports %s %v, not %v (values %v)", what, kind, len(vals), q.f, got, want, vals)
			}
		}
		avg := 0.0
		for _, v := range sorted {
			avg += v
		}
		avg /= float64(len(sorted))
		if got := get("ravg"); !(math.Abs(got-avg) <= rounding+1e-4*maxAbs(sorted)) {
			fail("dist-average", "%s: a %s distribution of %d values reports the average %v, not %v", what, kind, len(vals), got, avg)
		}
		return
	}
	tol := rounding + 1e-12*maxAbs(sorted)
	if !(rm >= sorted[0]-tol && rx <= sorted[len(sorted)-1]+tol) {
		fail("quantile", "%s: a %s distribution reports rmin %v rmax %v, outside [%v, %v]", what, kind, rm, rx, sorted[0], sorted[len(sorted)-1])
	}
	prev := rm
	for _, f := range []string{"r10", "r50", "r90", "r99", "rmax"} {
		got := get(f)
		if !(got >= prev-tol) {
			fail("quantile", "%s: a %s distribution reports quantiles out of order: %v", what, kind, sts)
		}
		prev = got
	}
}

func randMode() bool {
	if !pchance(6) {
		return false
	}
	simrt.Fault(FRandDegenerate)
	simrt.RandMode = 1 + plan(3)
	return true
}

// p11dists: one distribution, its copies and resets, against lists.
func p11dists() {
	randMode()
	// how many observations a reservoir remembers, 0 being all of them
	monkit.Window = []int64{1024, 1024, 0, 1, 64, 65, 128}[plan(7)]
	type pair struct {
		d    *distAPI
		vals []int64
		name string
	}
	pairs := []*pair{{newDist(plan(3)), nil, "original"}}
	gen := func() int64 {
		switch plan(6) {
		case 0:
			return int64(plan(5))
		case 1:
			return -int64(plan(1000))
		case 2:
			return int64(plan(1 << 24))
		case 3:
			return int64(1) << uint(plan(48))
		}
		return int64(plan(100))
	}
	n := between(1, 30)
	huge := pchance(4)
	for i := 0; i < n; i++ {
		p := pairs[plan(len(pairs))]
		if huge && plan(4) == 1 {
			// one of the largest or smallest values there are (a sum that
			// does not fit wraps around)
			v := int64(math.MaxInt64) - int64(plan(3))<<uint(plan(41))
			if plan(2) == 1 {
				v = -v - 1
			}
			hit(prDistHuge)
			p.d.insert(v)
			p.vals = append(p.vals, v)
		}
		switch plan(10) {
		case 0, 1, 2:
			v := gen()
			p.d.insert(v)
			p.vals = append(p.vals, v)
		case 3:
			for k := between(1, 90); k > 0; k-- {
				v := gen()
				p.d.insert(v)
				p.vals = append(p.vals, v)
			}
		case 4, 5:
			checkDist(p.d, p.vals, p.name)
		case 6:
			if len(pairs) < 5 {
				hit(prDistCopy)
				pairs = append(pairs, &pair{p.d.copy(), append([]int64(nil), p.vals...), "copy"})
			}
		case 7:
			if plan(3) == 0 {
				hit(prDistReset)
				p.d.reset()
				p.vals = nil
			}
		case 8:
			checkDistStats(p.d, p.vals, p.name)
		case 9:
			// fill to just around the reservoir size
			for k := between(62, 66) - len(p.vals); k > 0; k-- {
				v := gen()
				p.d.insert(v)
				p.vals = append(p.vals, v)
			}
		}
	}
	for _, p := range pairs {
		checkDistStats(p.d, p.vals, p.name)
		checkDist(p.d, p.vals, p.name)
	}
}

// p11forget: after long sustained new observations nothing old shows.
func p11forget() {
	hit(prDistForget)
	d := newDist(plan(3))
	copies := plan(2) == 1
	old := int64(between(1, 4096))
	for i := int64(0); i < old; i++ {
		v := int64(1000000)
		if i%2 == 0 {
			v = -1000000
		}
		d.insert(v)
		if i == 70 {
			d.query(.5)
		}
	}
	if copies {
		d = d.copy()
	}
	if plan(3) == 0 {
		d.query(.3)
	}
	for i := int64(0); i < 40000; i++ {
		d.insert(i % 100)
	}
	if lo, hi := d.query(0), d.query(1); !(lo >= 0 && hi <= 99) {
		fail("never-forgets", "a %s distribution still holds values from before 40000 newer ones: its quantiles go from %v to %v", d.kind, lo, hi)
	}
	if lo, hi := d.query(0), d.query(1); !(lo <= 60 && hi >= 40 && lo != hi) {
		fail("quantile", "the quantiles of a %s distribution of 0 to 99 go from %v to %v", d.kind, lo, hi)
	}
	low, high, recent, count, sum := d.fields()
	wl, wh, ws := float64(-1000000), float64(1000000), float64(40000/100*4950)
	if old == 1 {
		wh = 99
	}
	if old%2 == 1 {
		ws -= 1000000
	}
	if low != wl || high != wh || recent != 99 || count != old+40000 || sum != ws {
		fail("dist-aggregate", "a %s distribution has low %v high %v recent %v count %d sum %v after %d values, not low %v high %v recent 99 sum %v", d.kind, low, high, recent, count, sum, old+40000, wl, wh, ws)
	}
}

type valAPI struct {
	kind            string
	scale, rounding float64
	observe         func(int64)
	src             monkit.StatSource
	quantile        func(float64) float64
}

func newVal(sc *monkit.Scope, kind int) *valAPI {
	switch kind {
	case 0:
		v := sc.IntVal("v")
		return &valAPI{"integer value", 1, 1.01, v.Observe, v, func(q float64) float64 { return float64(v.Quantile(q)) }}
	case 1:
		v := sc.FloatVal("v")
		return &valAPI{"float value", 1, 0, func(x int64) { v.Observe(float64(x)) }, v, v.Quantile}
	}
	v := sc.DurationVal("v")
	return &valAPI{"duration value", 1e9, 1.01, func(x int64) { v.Observe(time.Duration(x)) }, v, func(q float64) float64 { return float64(v.Quantile(q)) }}
}

type valObs struct {
	v      int64
	s0, s1 uint64
}

type valSnap struct {
	a, b uint64
	set  uint64
}

// p11vals: concurrent observations of distinct powers of two, so that each
// reported sum tells exactly which observations a snapshot contains.
func p11vals() {
	randMode()
	r := monkit.NewRegistry()
	v := newVal(r.ScopeNamed("s"), plan(3))
	workers := between(1, 4)
	n := between(1, 40)
	obs := make([]*valObs, n)
	progs := make([][]int, workers)
	perm := make([]int, n)
	for i := range perm {
		perm[i] = i
	}
	for i := n - 1; i > 0; i-- {
		j := plan(i + 1)
		perm[i], perm[j] = perm[j], perm[i]
	}
	negs := plan(2) == 1
	for _, i := range perm {
		obs[i] = &valObs{v: 1 << uint(i)}
		if negs && plan(3) == 0 {
			obs[i].v = -obs[i].v
		}
		w := plan(workers)
		progs[w] = append(progs[w], i)
		for plan(3) == 2 {
			progs[w] = append(progs[w], -1-plan(2))
		}
	}
	var snaps []*valSnap
	var g group
	for w := range progs {
		prog := progs[w]
		g.Go("user", func() {
			for _, i := range prog {
				switch {
				case i >= 0:
					obs[i].s0 = seq()
					v.observe(obs[i].v)
					obs[i].s1 = seq()
				case i == -1:
					snaps = append(snaps, takeSnap(v, obs))
				default:
					a := seq()
					q := quantiles[env(len(quantiles))]
					got := v.quantile(q)
					lo, hi := 0.0, 0.0
					any := false
					for _, o := range obs {
						if o.s0 != 0 {
							lo, hi = math.Min(lo, float64(o.v)), math.Max(hi, float64(o.v))
							any = any || (o.s1 != 0 && o.s1 < a)
						}
					}
					if got < lo || got > hi || (any && !negs && got < 1-v.rounding) {
						fail("quantile", "quantile %v of an %s is %v while values in [%v, %v] were observed", q, v.kind, got, lo, hi)
					}
				}
			}
		})
	}
	g.Wait()
	last := takeSnap(v, obs)
	snaps = append(snaps, last)
	if last.set != 1<<uint(n)-1 {
		fail("lost-observation", "an %s reports %b of %d observations in the end", v.kind, last.set, n)
	}
	for i, x := range snaps {
		for _, y := range snaps[:i] {
			if x.set&^y.set != 0 && y.set&^x.set != 0 {
				fail("not-a-prefix", "two snapshots of an %s each contain an observation the other lacks: %b, %b", v.kind, x.set, y.set)
			}
			if (x.b < y.a && x.set&^y.set != 0) || (y.b < x.a && y.set&^x.set != 0) {
				fail("not-a-prefix", "a later snapshot of an %s lacks observations of an earlier one: %b, %b", v.kind, x.set, y.set)
			}
		}
	}
	var all []int64
	for _, o := range obs {
		all = append(all, o.v)
	}
	sorted := order(v.kind, all)
	for _, q := range quantiles {
		if got, want := v.quantile(q), wantQuantile(sorted, q); !closeTo(got, want, 0, v.rounding) {
			fail("quantile", "quantile %v of an %s of %d values is %v, not %v", q, v.kind, n, got, want)
		}
	}
}

func takeSnap(v *valAPI, obs []*valObs) *valSnap {
	s := &valSnap{a: seq()}
	sts := collectStats(v.src)
	s.b = seq()
	var vals []int64
	if c, _ := find(sts, "count"); c != 0 {
		f, _ := find(sts, "sum")
		sum := int64(math.Round(f * v.scale))
		for i, o := range obs {
			if sum>>uint(i)&1 == 1 {
				s.set |= 1 << uint(i)
				sum -= o.v
				vals = append(vals, o.v)
			}
		}
		if sum != 0 {
			fail("dist-aggregate", "an %s reports the sum %v, which no set of the observations has", v.kind, f*v.scale)
		}
	}
	if len(vals) < len(obs) {
		for _, o := range obs {
			if o.s0 != 0 && o.s1 == 0 {
				hit(prDistMid)
			}
		}
	}
	checkSnapshotStats(v.kind, v.scale, v.rounding, sts, vals, "snapshot")
	in := func(i int) bool { return s.set>>uint(i)&1 == 1 }
	re, n := find(sts, "recent")
	okRecent := n == 0
	for i, o := range obs {
		if in(i) && (o.s0 == 0 || o.s0 > s.b) {
			fail("not-a-prefix", "a snapshot of an %s contains an observation that had not been made", v.kind)
		}
		if !in(i) && o.s1 != 0 && o.s1 < s.a {
			fail("lost-observation", "a snapshot of an %s lacks an observation made before it", v.kind)
		}
		last := in(i)
		for j, p := range obs {
			if in(i) && !in(j) && p.s1 != 0 && p.s1 < o.s0 {
				fail("not-a-prefix", "a snapshot of an %s contains an observation but not an earlier one", v.kind)
			}
			if in(i) && in(j) && o.s1 != 0 && o.s1 < p.s0 {
				last = false
			}
		}
		if last && math.Round(re*v.scale) == float64(o.v) {
			okRecent = true
		}
	}
	if !okRecent {
		fail("recent", "an %s reports %v as most recent, which was not observed last", v.kind, re*v.scale)
	}
	return s
}
