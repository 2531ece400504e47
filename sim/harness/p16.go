package main

import (
	"fmt"
	"sort"

	"simrt"

	"github.com/spacemonkeygo/monkit/v3"
)

func init() { register(&Scenario{ID: "P16", Body: p16}) }

var (
	prDeltaConc  = probe("concurrent collections of one series through one delta transformer")
	prDeltaMany  = probe("a series with at least three deltas")
	prDeltaTwice = probe("a series reported twice in one collection")
	prDeltaLots  = probe("many series through one delta transformer")
	prDeltaNasty = probe("series whose names contain separators")
)

// dseries is one planned series of the source.
type dseries struct {
	key    monkit.SeriesKey
	name   string // canonical
	totals bool
	val    float64
	twice  bool
}

type dvalue struct {
	key   string
	field string
	val   float64
}

func canon(k monkit.SeriesKey) string {
	var ks []string
	for t := range k.Tags.All() {
		ks = append(ks, t)
	}
	sort.Strings(ks)
	s := fmt.Sprintf("%q", k.Measurement)
	for _, t := range ks {
		s += fmt.Sprintf(" %q=%q", t, k.Tags.All()[t])
	}
	return s
}

// coll is one collection through a delta transformer.
type coll struct {
	src, out []dvalue
	s0, s1   uint64
	log      int
}

type derived struct {
	r      *monkit.Registry
	prefix string
}

func p16() {
	r := monkit.NewRegistry()
	sc := r.ScopeNamed("s")
	pool := []monkit.SeriesKey{
		monkit.NewSeriesKey("a"),
		monkit.NewSeriesKey("a").WithTag("t", "v"),
		monkit.NewSeriesKey("a").WithTag("t", "w"),
		monkit.NewSeriesKey("b"),
		monkit.NewSeriesKey("a,t=v"),
		monkit.NewSeriesKey("a").WithTag("t", "v,u=x"),
		monkit.NewSeriesKey("a").WithTag("t", "v").WithTag("u", "x"),
		monkit.NewSeriesKey(`a\`).WithTag("t", "v"),
		monkit.NewSeriesKey("a total"),
		monkit.NewSeriesKey(""),
		monkit.NewSeriesKey("a").WithTag("t", "v u:x"),
		monkit.NewSeriesKey("a").WithTag("t", `v" "u":"x`),
		monkit.NewSeriesKey("a").WithTag("t", "v u=x"),
		monkit.NewSeriesKey("a t").WithTag("", "v"),
	}
	var srcs []*dseries
	seen := map[string]bool{}
	for k := between(1, 6); k > 0; k-- {
		key := pool[plan(len(pool))]
		if seen[canon(key)] {
			continue
		}
		if len(canon(key)) > len(`"a" "t"="v"`) {
			hit(prDeltaNasty)
		}
		seen[canon(key)] = true
		s := &dseries{key: key, name: canon(key), totals: plan(4) != 3, twice: pchance(5), val: float64(plan(100)) / 4}
		srcs = append(srcs, s)
	}
	if pchance(20) {
		hit(prDeltaLots)
		for n := []int{70, 70, 150, 300, 1200}[plan(5)]; n > 0; n-- {
			key := monkit.NewSeriesKey("many").WithTag("n", fmt.Sprint(n))
			srcs = append(srcs, &dseries{key: key, name: canon(key), totals: true, val: float64(n)})
		}
	}
	step := func(s *dseries) float64 {
		switch env(5) {
		case 1:
			s.val += float64(env(1000)) / 4
		case 2:
			s.val -= float64(env(100)) // a total that was reset
		case 3:
			s.val = 0
		case 4:
			s.val += 1 << 40
		}
		return s.val
	}
	source := monkit.StatSourceFunc(func(cb func(monkit.SeriesKey, string, float64)) {
		put := func(k monkit.SeriesKey, f string, v float64) {
			simrt.Y()
			cb(k, f, v)
		}
		for _, s := range srcs {
			put(s.key, "count", float64(env(9)))
			if !s.totals {
				put(s.key, "delta", float64(env(9)))
				put(s.key, "total2", float64(env(9)))
				put(s.key, "Total", float64(env(9)))
				continue
			}
			put(s.key, "total", step(s))
			if s.twice {
				hit(prDeltaTwice)
				put(s.key, "x", 1)
				put(s.key, "total", step(s))
			}
			put(s.key, "rate", float64(env(9)))
		}
	})
	// cur is what the collection of each goroutine reports, recorded before
	// it reaches the delta transformer
	cur := map[int]*coll{}
	rec := monkit.CallbackTransformerFunc(func(cb func(monkit.SeriesKey, string, float64)) func(monkit.SeriesKey, string, float64) {
		return func(k monkit.SeriesKey, f string, v float64) {
			c := cur[simrt.Cur()]
			c.src = append(c.src, dvalue{canon(k), f, v})
			cb(k, f, v)
		}
	})
	sc.Chain(source)

	// real metrics with totals
	fn, meter := sc.FuncNamed("f"), sc.Meter("m")
	real := plan(2) == 1

	// the ways to use a transformer
	nd := between(1, 2)
	views := make([]monkit.StatSource, nd)
	for i := range views {
		dt := monkit.NewDeltaTransformer()
		switch plan(4) {
		case 0:
			views[i] = r.WithTransformers(dt, rec)
		case 1:
			views[i] = monkit.TransformStatSource(source, dt, rec)
		case 2:
			views[i] = monkit.TransformStatSource(r, dt, rec)
		case 3:
			views[i] = r.WithTransformers(dt).WithTransformers(rec)
		}
	}
	scale := func(name string) monkit.CallbackTransformer {
		return monkit.CallbackTransformerFunc(func(cb func(monkit.SeriesKey, string, float64)) func(monkit.SeriesKey, string, float64) {
			return func(k monkit.SeriesKey, f string, v float64) { cb(k, name+f, v) }
		})
	}
	ders := []derived{{r, ""}}
	check := func(d derived) {
		n := 0
		d.r.Stats(func(k monkit.SeriesKey, f string, v float64) {
			n++
			if len(f) <= len(d.prefix) || f[:len(d.prefix)] != d.prefix || f[len(d.prefix)] >= '0' && f[len(d.prefix)] <= '9' {
				fail("derived", "through a registry with transformers that name fields %q a field arrived as %q", d.prefix, f)
			}
		})
		if n == 0 {
			fail("derived", "nothing was reported through a derived registry")
		}
		if d.r.ScopeNamed("s") != sc {
			fail("derived", "a derived registry has scopes of its own")
		}
	}
	var g group
	var colls []*coll
	collect := func(i int) {
		c := &coll{log: i, s0: seq()}
		colls = append(colls, c)
		me := simrt.Cur()
		cur[me] = c
		views[i].Stats(func(k monkit.SeriesKey, f string, v float64) {
			simrt.Y()
			c.out = append(c.out, dvalue{canon(k), f, v})
		})
		c.s1 = seq()
	}
	if real {
		ops := between(1, 5)
		g.Go("work", func() {
			for i := 0; i < ops; i++ {
				if env(2) == 0 {
					fn.Task(nil)(nil)
				} else {
					meter.Mark(env(9))
				}
				pause(env(20))
			}
		})
	}
	for w := between(1, 3); w > 0; w-- {
		uses := make([]int, between(1, 4))
		for i := range uses {
			uses[i] = plan(nd)
		}
		g.Go(fmt.Sprintf("collector %d", w), func() {
			for _, i := range uses {
				collect(i)
				pause(env(3))
			}
		})
	}
	for w := plan(3); w > 0; w-- {
		var from, cnt []int
		for n := between(1, 4); n > 0; n-- {
			from = append(from, plan(8))
			cnt = append(cnt, plan(4))
		}
		g.Go(fmt.Sprintf("deriver %d", w), func() {
			for i := range from {
				d := ders[from[i]%len(ders)]
				var ts []monkit.CallbackTransformer
				p := d.prefix
				for j := 0; j < cnt[i]; j++ {
					name := fmt.Sprintf("%d.%d:", seq(), j)
					ts = append(ts, scale(name))
					p += name
				}
				nr := d.r.WithTransformers(ts...)
				for j := range ts {
					ts[j] = scale("0overwritten:") // the slice is the caller's
				}
				ders = append(ders, derived{nr, p})
				check(ders[env(len(ders))])
			}
		})
	}
	g.Wait()
	for _, d := range ders {
		check(d)
	}
	for i := range views {
		collect(i)
	}

	// every original value passes in place, followed by at most one delta
	type sr struct {
		log  int
		name string
	}
	var order []sr
	totals := map[sr][]float64{}
	prevs := map[sr][]float64{}
	firsts := map[sr]int{}
	last := map[sr]float64{}
	sums := map[sr]float64{}
	first := map[sr]float64{}
	for i, a := range colls {
		for _, b := range colls[:i] {
			if a.log == b.log && a.s0 < b.s1 && b.s0 < a.s1 {
				hit(prDeltaConc)
			}
		}
	}
	for _, c := range colls {
		j := 0
		for i, e := range c.src {
			if j >= len(c.out) || c.out[j] != e {
				fail("passthrough", "value %d of a collection is %v; reported was %v", i, e, c.out)
			}
			j++
			if e.field != "total" {
				continue
			}
			k := sr{c.log, e.key}
			if totals[k] == nil {
				order = append(order, k)
			}
			totals[k] = append(totals[k], e.val)
			last[k] = e.val
			if j < len(c.out) && c.out[j].field == "delta" && c.out[j].key == e.key {
				d := c.out[j].val
				j++
				sums[k] += d
				prevs[k] = append(prevs[k], e.val-d)
			} else {
				firsts[k]++
				first[k] = e.val
			}
		}
		if j != len(c.out) {
			fail("passthrough", "a collection reported %v besides its values %v", c.out[j:], c.src)
		}
	}
	for _, k := range order {
		vs := totals[k]
		if firsts[k] != 1 {
			fail("delta-count", "series %s: %d totals were reported, %d of them without a delta", k.name, len(vs), firsts[k])
		}
		if sums[k] != last[k]-first[k] {
			fail("delta-sum", "series %s: totals went from %v to %v, the deltas add up to %v", k.name, first[k], last[k], sums[k])
		}
		if len(prevs[k]) > 2 {
			hit(prDeltaMany)
		}
		// each delta is the difference to another total, each used once
		left := map[float64]int{}
		for _, v := range vs {
			left[v]++
		}
		left[last[k]]--
		for _, p := range prevs[k] {
			left[p]--
			if left[p] < 0 {
				fail("delta-value", "series %s: a delta refers to the total %v, which was not the total before", k.name, p)
			}
		}
	}
}
