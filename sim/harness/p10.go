package main

import (
	"fmt"
	"math"
	"sort"
	"time"

	"simrt"

	"github.com/spacemonkeygo/monkit/v3"
)

func init() { register(&Scenario{ID: "P10", Body: p10, MaxSteps: 6000000}) }

var (
	prMeterOld   = probe("rate read after more than the whole window")
	prMeterLevel = probe("rate read after the activity level changed")
	prMeterMany  = probe("more than eight meters")
	prMeterLate  = probe("meter created after an hour")
	prDiffRate   = probe("difference of two rates that are not zero")
	prMeterIdle  = probe("rate read after an idle gap")
)

func p10() {
	switch plan(6) {
	case 0, 1, 2:
		p10atomic()
	case 3, 4:
		p10rates(true)
	case 5:
		p10rates(false)
	}
}

func checkRate(what string, rate float64) {
	if rate < 0 || math.IsNaN(rate) || math.IsInf(rate, 0) {
		fail("bad-rate", "%s reports the rate %v", what, rate)
	}
}

func meterStats(src monkit.StatSource) (rate, total float64) {
	sts := collectStats(src)
	r, n1 := find(sts, "rate")
	t, n2 := find(sts, "total")
	if n1 != 1 || n2 != 1 || len(sts) != 2 {
		fail("stats-shape", "a meter reports %v", sts)
	}
	return r, t
}

// p10atomic: a concurrent history of operations on one meter, with the
// background stepping going on, must be that of a number.
func p10atomic() {
	reg := monkit.NewRegistry()
	sc := reg.ScopeNamed("s")
	m := sc.Meter("m")
	other := sc.Meter("other")
	dm := monkit.NewDiffMeter(monkit.NewSeriesKey("d"), m, other)
	var init linState
	if pchance(3) {
		init[0] = int64(plan(1000)) - 500
		m.SetTotal(init[0])
	}
	neg := pchance(4)
	resets := pchance(3)
	var ops []*linOp
	var g group
	workers := between(1, 4)
	total := between(2, 16)
	type op struct {
		k, nap int
		v      int64
	}
	progs := make([][]op, workers)
	for i := 0; i < total; i++ {
		v := int64(plan(6))
		if neg && pchance(2) {
			v = -v
		}
		if pchance(10) {
			v = 1 << uint(30+plan(20))
		}
		w := plan(workers)
		progs[w] = append(progs[w], op{plan(8), plan(3), v})
	}
	var otherLo, otherHi, mLo, mHi int64 // bounds of the two totals
	mLo, mHi = init[0], init[0]
	quick := neg || resets
	for w := range progs {
		prog := progs[w]
		g.Go("user", func() {
			for _, p := range prog {
				if p.nap == 1 {
					nap(int64(25 * time.Minute))
				}
				v := p.v
				o := &linOp{s0: seq()}
				k := p.k
				if int64(int(v)) != v && k < 2 {
					k = 2 // only Mark64 takes it on a 32-bit machine
				}
				switch k {
				case 0, 1:
					mHi += v
					m.Mark(int(v))
					mLo += v
					o.name = fmt.Sprintf("Mark(%d)", v)
					o.apply = func(st linState) (linState, bool) { st[0] += v; return st, true }
				case 2:
					mHi += v
					m.Mark64(v)
					mLo += v
					o.name = fmt.Sprintf("Mark64(%d)", v)
					o.apply = func(st linState) (linState, bool) { st[0] += v; return st, true }
				case 3:
					t := m.Total()
					o.name = fmt.Sprintf("Total = %v", t)
					o.apply = func(st linState) (linState, bool) { return st, float64(st[0]) == t }
				case 4:
					r, t := meterStats(m)
					if !neg {
						checkRate("a meter", r)
					}
					o.name = fmt.Sprintf("Stats = rate %v total %v", r, t)
					o.apply = func(st linState) (linState, bool) { return st, float64(st[0]) == t }
				case 5:
					if !resets {
						r := m.Rate()
						if !neg {
							checkRate("a meter", r)
						}
						continue
					}
					m.Reset(v)
					o.name = fmt.Sprintf("Reset(%d)", v)
					o.apply = func(st linState) (linState, bool) { st[0] = v; return st, true }
				case 6:
					otherHi += 3
					other.Mark(3)
					otherLo += 3
					continue
				case 7:
					lo1, lo2 := mLo, otherLo
					r, t := meterStats(dm)
					if math.IsNaN(r) || math.IsInf(r, 0) {
						fail("bad-rate", "a difference meter reports the rate %v", r)
					}
					if !quick && (t < float64(lo1-otherHi) || t > float64(mHi-lo2)) {
						fail("diff-total", "a difference meter reports the total %v; the first meter was in [%d, %d], the second in [%d, %d]", t, lo1, mHi, lo2, otherHi)
					}
					continue
				}
				o.s1 = seq()
				ops = append(ops, o)
			}
		})
	}
	if steps := plan(6); steps > 0 {
		g.Go("time", func() {
			for i := 0; i < steps; i++ {
				pause(env(40))
				switch env(3) {
				case 0:
					simrt.AddTime(time.Duration(1+env(20)) * time.Minute)
				case 1:
					simrt.AddTime(10 * time.Minute)
				case 2:
					oneClockFault()
				}
			}
		})
	}
	g.Wait()
	// a long time later, so that everything leaves the window
	if plan(2) == 1 {
		for i := between(1, 30); i > 0; i-- {
			v := int64(i)
			m.Mark64(v)
			init[1] += v
			simrt.Sleep(10 * time.Minute)
		}
	}
	_, t := meterStats(m)
	t2 := m.Total()
	extra := init[1]
	init[1] = 0
	o := &linOp{s0: seq(), name: fmt.Sprintf("finally %v after %d more marks", t, extra)}
	o.apply = func(st linState) (linState, bool) {
		return st, float64(st[0]+extra) == t && float64(st[0]+extra) == t2
	}
	o.s1 = seq()
	ops = append(ops, o)
	if !linearizable(init, ops) {
		fail("lost-marks", "no order of these meter operations explains their results (initial total %d):%s", init[0], describeOps(ops))
	}
	checkDiffRate(dm, m, other)
	if _, dt := meterStats(dm); !resets && dt != t-float64(otherLo) {
		fail("diff-total", "a difference meter reports the total %v for meters at %v and %d", dt, t, otherLo)
	}
}

// checkDiffRate: with nothing going on, a difference meter reports the
// difference of the two rates.
func checkDiffRate(dm *monkit.DiffMeter, m1, m2 *monkit.Meter) {
	t0 := now()
	a1, a2 := m1.Rate(), m2.Rate()
	d, _ := meterStats(dm)
	b1, b2 := m1.Rate(), m2.Rate()
	near := func(x, y float64) bool {
		return math.Abs(x-y) <= 1e-3*(math.Abs(a1)+math.Abs(a2))
	}
	if now()-t0 > 1e6 || !near(a1, b1) || !near(a2, b2) {
		return // a step or time in between
	}
	if a1 != 0 && a2 != 0 {
		hit(prDiffRate)
	}
	if !near(d, a1-a2) {
		fail("diff-rate", "a difference meter reports the rate %v for meters at %v and %v", d, a1, a2)
	}
}

// meterMark is one recorded mark: made between t0 and t1.
type meterMark struct {
	t0, t1 int64
	n      int64
}

type simMeter struct {
	m      *monkit.Meter
	c0, c1 int64 // when it was created
	base   int64
	total  int64
	marks  []meterMark
	level  int
	sign   int64
	n      int64
	period int64
	gap    int64 // longest time without a mark so far
	last   int64
}

// rateBounds returns the least and greatest rate over the windows that end
// now and are between wmin and wmax long.
func (s *simMeter) rateBounds(n0, n1, wmin, wmax int64) (lo, hi float64) {
	lo, hi = math.Inf(1), 0
	sums := make([]int64, len(s.marks)+1)
	for i, k := range s.marks {
		sums[i+1] = sums[i] + k.n
	}
	eval := func(w int64) {
		if w < wmin {
			w = wmin
		}
		if w > wmax {
			w = wmax
		}
		if w <= 0 {
			return
		}
		// marks made certainly, and possibly, within the last w
		i := sort.Search(len(s.marks), func(i int) bool { return s.marks[i].t0 > n1-w+1e6 })
		j := sort.Search(len(s.marks), func(i int) bool { return s.marks[i].t1 >= n1-w-1e6 })
		cl, ch := sums[len(s.marks)]-sums[i], sums[len(s.marks)]-sums[j]
		lo = math.Min(lo, float64(cl)/(float64(w)/1e9))
		hi = math.Max(hi, float64(ch)/(float64(w)/1e9))
	}
	eval(wmin)
	eval(wmax)
	for _, k := range s.marks {
		// the count changes where a mark began and where it ended
		for _, t := range [2]int64{k.t0, k.t1} {
			if w := n1 - t; w >= wmin-1e7 && w <= wmax+1e7 {
				eval(w - 2e6)
				eval(w + 2e6)
			}
		}
	}
	return lo, hi
}

const minuteNS = int64(time.Minute)

// p10rates: several meters over simulated hours and days, rates checked
// against the recorded marks.
func p10rates(prompt bool) {
	simrt.Prompt(prompt)
	reg := monkit.NewRegistry()
	sc := reg.ScopeNamed("s")
	n := between(1, 4)
	if pchance(6) {
		n = between(9, 40)
		hit(prMeterMany)
	}
	if prompt && pchance(10) {
		// many more that nobody marks
		for k := between(50, 400); k > 0; k-- {
			monkit.NewMeter(monkit.NewSeriesKey("idle"))
		}
		hit(prMeterMany)
	}
	var g group
	long := pchance(3)
	var all []*simMeter
	for i := 0; i < n; i++ {
		i := i
		s := &simMeter{sign: 1, n: int64(between(1, 50)), period: int64(between(10, 300)) * 1e9}
		all = append(all, s)
		if pchance(6) {
			s.sign = -1 // counting down
		}
		late := int64(0)
		if pchance(2) {
			late = int64(plan(100)) * int64(time.Minute) / 4
		}
		if pchance(8) {
			late = int64(between(1, 12)) * int64(time.Hour)
		}
		if n > 8 {
			s.period = int64(between(200, 300)) * 1e9
		}
		hours := between(1, 9)
		if long && i == 0 {
			hours = between(10, 40)
			if s.period < 100e9 {
				s.period += 100e9
			}
		}
		if n > 8 {
			hours = between(1, 6)
		}
		steady := !pchance(4)
		jumps := pchance(3)
		g.Go("meter user", func() {
			if late > 0 {
				simrt.Sleep(time.Duration(late))
			}
			if late > int64(time.Hour) {
				hit(prMeterLate)
			}
			s.c0 = now()
			if i%2 == 0 {
				s.m = sc.Meter(fmt.Sprint("m", i))
			} else {
				s.m = monkit.NewMeter(monkit.NewSeriesKey("m"))
			}
			s.c1 = now()
			s.last = s.c1
			if env(4) == 3 {
				s.base = int64(env(1000))
				s.m.SetTotal(s.base)
			}
			end := s.c1 + int64(hours)*int64(time.Hour)
			nread := 0
			for now() < end {
				if chance(40) {
					s.n = int64(1 + env(200))
					s.level++
				}
				if !steady && chance(30) {
					simrt.Sleep(time.Duration(1+env(300)) * time.Minute)
				}
				if jumps && chance(20) {
					simrt.Fault(FWallBack)
					simrt.JumpWall(time.Duration(env(200)-100) * time.Hour)
				}
				if now()-s.c0 < 200*minuteNS && chance(15) {
					// nothing has left the window yet
					s.base = int64(env(1000))
					s.m.SetTotal(s.base)
				}
				t0 := now()
				if env(2) == 0 {
					s.m.Mark(int(s.sign * s.n))
				} else {
					s.m.Mark64(s.sign * s.n)
				}
				s.marks = append(s.marks, meterMark{t0, now(), s.n})
				if t0-s.last > s.gap {
					s.gap = t0 - s.last
				}
				s.last = now()
				s.total += s.n
				if chance(12) && nread < 40 {
					nread++
					s.read(prompt)
				}
				d := s.period
				if chance(3) {
					d = d/2 + env64(d/2)
				}
				simrt.Sleep(time.Duration(d))
			}
			s.read(prompt)
			if chance(3) {
				// idle afterwards
				simrt.Sleep(time.Duration(1+env(600)) * time.Minute)
				s.read(prompt)
				hit(prMeterIdle)
			}
			if chance(4) {
				// reset: like a new meter
				s.base, s.total, s.marks = int64(env(100)), 0, nil
				s.c0 = now()
				s.m.Reset(s.base)
				s.c1 = now()
				s.gap, s.last = 0, s.c1
				for k := 1 + env(20); k > 0; k-- {
					simrt.Sleep(time.Duration(1+env(5*60)) * time.Second)
					t0 := now()
					s.m.Mark(int(s.sign * 7))
					s.marks = append(s.marks, meterMark{t0, now(), 7})
					s.total += 7
					s.read(prompt)
				}
			}
		})
	}
	g.Wait()
	a, b := all[0].m, all[len(all)-1].m
	checkDiffRate(monkit.NewDiffMeter(monkit.NewSeriesKey("d"), a, b), a, b)
}

func (s *simMeter) read(prompt bool) {
	n0 := now()
	var rate, total float64
	if env(2) == 0 {
		rate, total = meterStats(s.m)
	} else {
		rate, total = s.m.Rate(), s.m.Total()
	}
	n1 := now()
	rate *= float64(s.sign)
	checkRate("a meter", rate)
	if total != float64(s.base+s.sign*s.total) {
		fail("lost-marks", "a meter that was marked %d times for %d (base %d) %v ago reports the total %v", len(s.marks), s.total, s.base, time.Duration(n1-s.c0), total)
	}
	age0, age1 := n0-s.c1, n1-s.c0
	if age0 < 1000 || n1-n0 > 1e6 || s.c1-s.c0 > 1e6 {
		// too young, or time passed during the reading
		return
	}
	const eps = 1e-6
	if s.total > 0 && rate == 0 {
		fail("zero-rate", "a meter %v old with %d marked reports no rate", time.Duration(age1), s.total)
	}
	if age1 < 225*minuteNS {
		lo, hi := float64(s.total)/(float64(age1)/1e9), float64(s.total)/(float64(age0)/1e9)
		if rate < lo*(1-eps) || rate > hi*(1+eps) {
			fail("young-rate", "a meter %v old with %d marked reports the rate %v, not %v", time.Duration(age1), s.total, rate, lo)
		}
		return
	}
	lo, hi := s.rateBounds(n0, n1, 225*minuteNS, age1)
	tol := eps
	if !prompt {
		// a delayed step attributes marks made meanwhile to the period before
		tol = 0.6
	}
	if rate < lo*(1-tol) || rate > hi*(1+eps) {
		fail("rate", "a meter %v old reports the rate %v; over no recent period was it outside [%v, %v]", time.Duration(age1), rate, lo, hi)
	}
	gap := s.gap
	if n1-s.last > gap {
		gap = n1 - s.last
	}
	if prompt && gap <= 6*minuteNS {
		if age1 > 260*minuteNS {
			hit(prMeterOld)
			if s.level > 0 {
				hit(prMeterLevel)
			}
		}
		w := int64(255) * minuteNS
		if w > age1 {
			w = age1
		}
		lo, hi := s.rateBounds(n0, n1, 220*minuteNS, w)
		if rate < lo*0.98 || rate > hi*1.02 {
			fail("stale-rate", "a steadily marked meter %v old reports the rate %v; over the last four hours it was within [%v, %v]", time.Duration(age1), rate, lo, hi)
		}
	}
}
