package main

import (
	"fmt"
	"math"

	"github.com/spacemonkeygo/monkit/v3"
)

func init() { register(&Scenario{ID: "P09", Body: p09}) }

var (
	prCtrOverlap  = probe("overlapping operations on one counter")
	prBoolOverlap = probe("overlapping observations of one flag")
)

// linOp is one completed operation of a history.
type linOp struct {
	name   string
	s0, s1 uint64
	// apply runs the operation on a state: the new state, and whether the
	// recorded result is the one the operation gives there.
	apply func(st linState) (linState, bool)
}

type linState [4]int64

// linearizable searches for an order of ops, consistent with real time, that
// explains every result.
func linearizable(init linState, ops []*linOp) bool {
	type key struct {
		mask uint32
		st   linState
	}
	dead := map[key]bool{}
	var search func(mask uint32, st linState) bool
	full := uint32(1)<<len(ops) - 1
	search = func(mask uint32, st linState) bool {
		if mask == full {
			return true
		}
		k := key{mask, st}
		if dead[k] {
			return false
		}
		// an operation may come next if no other pending one ended before it began
		end := ^uint64(0)
		for i, o := range ops {
			if mask&(1<<i) == 0 && o.s1 < end {
				end = o.s1
			}
		}
		for i, o := range ops {
			if mask&(1<<i) != 0 || o.s0 > end {
				continue
			}
			if ns, ok := o.apply(st); ok && search(mask|1<<i, ns) {
				return true
			}
		}
		dead[k] = true
		return false
	}
	return search(0, init)
}

func describeOps(ops []*linOp) string {
	s := ""
	for _, o := range ops {
		s += fmt.Sprintf("\n  [%d,%d] %s", o.s0, o.s1, o.name)
	}
	return s
}

func p09() {
	switch plan(4) {
	case 0, 1:
		p09counter()
	case 2:
		p09trace()
	case 3:
		p09flags()
	}
}

// counter states: value, lowest, highest, whether anything was set
func ctrSet(st linState, v int64) linState {
	if st[3] == 0 || v < st[1] {
		st[1] = v
	}
	if st[3] == 0 || v > st[2] {
		st[2] = v
	}
	st[0], st[3] = v, 1
	return st
}

func p09counter() {
	r := monkit.NewRegistry()
	c := r.ScopeNamed("s").Counter("c")
	var ops []*linOp
	var g group
	workers := between(1, 4)
	total := between(2, 16)
	progs := make([][][2]int64, workers)
	for i := 0; i < total; i++ {
		v := int64(plan(7)) - 3
		if pchance(8) {
			v = []int64{math.MaxInt64 / 4, math.MinInt64 / 4, 1 << 40}[plan(3)]
		}
		w := plan(workers)
		progs[w] = append(progs[w], [2]int64{int64(plan(9)), v})
	}
	for w := range progs {
		prog := progs[w]
		g.Go("user", func() {
			for _, p := range prog {
				v := p[1]
				o := &linOp{s0: seq()}
				switch p[0] {
				case 0:
					f := c.Set(v)
					o.name = fmt.Sprintf("Set(%d) = %d", v, f)
					o.apply = func(st linState) (linState, bool) { return ctrSet(st, v), st[0] == f }
				case 1, 2:
					cur := c.Inc(v)
					o.name = fmt.Sprintf("Inc(%d) = %d", v, cur)
					o.apply = func(st linState) (linState, bool) { return ctrSet(st, st[0]+v), st[0]+v == cur }
				case 3:
					cur := c.Dec(v)
					o.name = fmt.Sprintf("Dec(%d) = %d", v, cur)
					o.apply = func(st linState) (linState, bool) { return ctrSet(st, st[0]-v), st[0]-v == cur }
				case 4:
					cur := c.Current()
					o.name = fmt.Sprintf("Current = %d", cur)
					o.apply = func(st linState) (linState, bool) { return st, st[0] == cur }
				case 5:
					h := c.High()
					o.name = fmt.Sprintf("High = %d", h)
					o.apply = func(st linState) (linState, bool) { return st, st[2] == h }
				case 6:
					l := c.Low()
					o.name = fmt.Sprintf("Low = %d", l)
					o.apply = func(st linState) (linState, bool) { return st, st[1] == l }
				case 7:
					v, l, h := c.Reset()
					o.name = fmt.Sprintf("Reset = %d, %d, %d", v, l, h)
					o.apply = func(st linState) (linState, bool) {
						return linState{}, st[0] == v && st[1] == l && st[2] == h
					}
				case 8:
					sts := collectStats(c)
					h, n1 := find(sts, "high")
					l, n2 := find(sts, "low")
					v, n3 := find(sts, "value")
					if n1 != 1 || n2 != 1 || n3 != 1 || len(sts) != 3 {
						fail("stats-shape", "a counter reports %v", sts)
					}
					o.name = fmt.Sprintf("Stats = high %v low %v value %v", h, l, v)
					o.apply = func(st linState) (linState, bool) {
						if st[3] == 0 {
							return st, math.IsNaN(h) && math.IsNaN(l) && v == 0
						}
						return st, h == float64(st[2]) && l == float64(st[1]) && v == float64(st[0])
					}
				}
				o.s1 = seq()
				for _, p := range ops {
					if p.s1 > o.s0 {
						hit(prCtrOverlap)
					}
				}
				ops = append(ops, o)
			}
		})
	}
	g.Wait()
	// and the final values, read alone
	cur, hi, lo := c.Current(), c.High(), c.Low()
	o := &linOp{s0: seq(), name: fmt.Sprintf("finally %d, %d, %d", cur, hi, lo)}
	o.apply = func(st linState) (linState, bool) { return st, st[0] == cur && st[2] == hi && st[1] == lo }
	o.s1 = seq()
	ops = append(ops, o)
	if !linearizable(linState{}, ops) {
		fail("not-atomic", "no order of these counter operations explains their results:%s", describeOps(ops))
	}
}

func p09trace() {
	t := monkit.NewTrace(1)
	var ops []*linOp
	var g group
	workers := between(1, 4)
	total := between(2, 14)
	progs := make([][][3]int64, workers)
	for i := 0; i < total; i++ {
		w := plan(workers)
		progs[w] = append(progs[w], [3]int64{int64(plan(4)), int64(plan(3)), int64(1 + plan(4))})
	}
	keys := []interface{}{"a", ctxK{1}, "b"}
	const isNil = 4 // stands for a value that is nil
	num := func(v interface{}, ok bool) int64 {
		switch {
		case v == nil && ok:
			return isNil
		case v == nil:
			return 0
		}
		return v.(int64)
	}
	for w := range progs {
		prog := progs[w]
		g.Go("user", func() {
			for _, p := range prog {
				k, v := p[1], p[2]
				o := &linOp{s0: seq()}
				switch p[0] {
				case 0, 1:
					if v == isNil {
						t.Set(keys[k], nil)
					} else {
						t.Set(keys[k], v)
					}
					o.name = fmt.Sprintf("Set(%d, %d)", k, v)
					o.apply = func(st linState) (linState, bool) { st[k] = v; return st, true }
				case 2:
					got := num(t.Get(keys[k]), false)
					o.name = fmt.Sprintf("Get(%d) = %d", k, got)
					o.apply = func(st linState) (linState, bool) { return st, st[k]%isNil == got }
				case 3:
					all := t.GetAll()
					var got linState
					n := 0
					for i, k := range keys {
						v, ok := all[k]
						got[i] = num(v, ok)
						if got[i] != 0 {
							n++
						}
					}
					if n != len(all) {
						fail("trace-values", "unknown trace values: %v", all)
					}
					o.name = fmt.Sprintf("GetAll = %v", got)
					o.apply = func(st linState) (linState, bool) { return st, st == got }
				}
				o.s1 = seq()
				ops = append(ops, o)
			}
		})
	}
	g.Wait()
	if !linearizable(linState{}, ops) {
		fail("not-atomic", "no order of these operations on trace values explains their results:%s", describeOps(ops))
	}
}

type pairStruct struct {
	A, B int64
	C    bool
}

type flagObs struct {
	v      bool
	n      int64
	s0, s1 uint64
}

func p09flags() {
	r := monkit.NewRegistry()
	bv := r.ScopeNamed("s").BoolVal("b")
	sv := r.ScopeNamed("s").StructVal("st")
	var bo, so []*flagObs
	var g group
	for w := between(1, 4); w > 0; w-- {
		var prog []int
		for i := between(1, 6); i > 0; i-- {
			prog = append(prog, plan(6)+plan(8)/7)
		}
		g.Go("user", func() {
			for _, p := range prog {
				switch p {
				case 0, 1:
					o := &flagObs{v: p == 0}
					bo = append(bo, o)
					o.s0 = seq()
					bv.Observe(o.v)
					o.s1 = seq()
				case 2, 3:
					o := &flagObs{n: int64(len(so) + 1)}
					so = append(so, o)
					o.s0 = seq()
					if o.n%2 == 0 {
						sv.Observe(&pairStruct{o.n, -o.n, true})
					} else {
						sv.Observe(pairStruct{o.n, -o.n, false})
					}
					o.s1 = seq()
				case 6:
					o := &flagObs{}
					so = append(so, o)
					o.s0 = seq()
					sv.Observe(nil)
					o.s1 = seq()
				case 4:
					checkBool(bv, &bo)
				case 5:
					checkStruct(sv, &so)
				}
			}
		})
	}
	g.Wait()
	checkBool(bv, &bo)
	checkStruct(sv, &so)
}

// couldBeLast tells whether o may be the most recent observation for a
// reading in [a, b].
func couldBeLast(all []*flagObs, o *flagObs, a, b uint64) bool {
	if o.s0 == 0 || o.s0 > b {
		return false
	}
	for _, p := range all {
		if o.s1 != 0 && p.s0 > o.s1 && p.s1 != 0 && p.s1 < a {
			return false
		}
		if p.s0 < b && p != o && o.s0 < p.s1 && p.s0 < o.s1 {
			hit(prBoolOverlap)
		}
	}
	return true
}

func checkBool(bv *monkit.BoolVal, obs *[]*flagObs) {
	a := seq()
	sts := collectStats(bv)
	b := seq()
	tr, n1 := find(sts, "true")
	fa, n2 := find(sts, "false")
	di, n3 := find(sts, "disposition")
	re, n4 := find(sts, "recent")
	if n1 != 1 || n2 != 1 || n3 != 1 || n4 != 1 || len(sts) != 4 {
		fail("stats-shape", "a boolean value reports %v", sts)
	}
	for _, v := range []bool{true, false} {
		got := fa
		if v {
			got = tr
		}
		var lo, hi float64
		for _, o := range *obs {
			if o.v != v || o.s0 == 0 {
				continue
			}
			if o.s1 != 0 && o.s1 < a {
				lo++
			}
			if o.s0 < b {
				hi++
			}
		}
		if got < lo || got > hi {
			fail("flag-count", "a boolean value counts %v observations of %v, between %v and %v were made", got, v, lo, hi)
		}
	}
	if di != tr-fa {
		fail("flag-count", "a boolean value reports true %v, false %v and disposition %v", tr, fa, di)
	}
	ok := len(*obs) == 0 && re == 0
	none := true
	for _, o := range *obs {
		if o.s0 != 0 && o.s1 != 0 && o.s1 < a {
			none = false
		}
		if couldBeLast(*obs, o, a, b) && (re == 1) == o.v && (re == 0 || re == 1) {
			ok = true
		}
	}
	if !ok && !(none && re == 0) {
		fail("flag-recent", "a boolean value reports %v as most recent, which was not observed last", re)
	}
}

func checkStruct(sv *monkit.StructVal, obs *[]*flagObs) {
	a := seq()
	sts := collectStats(sv)
	b := seq()
	must := false
	for _, o := range *obs {
		must = must || (o.s1 != 0 && o.s1 < a)
	}
	for _, o := range *obs {
		if o.n == 0 && couldBeLast(*obs, o, a, b) {
			must = false
		}
	}
	if len(sts) == 0 {
		if must {
			fail("struct-recent", "a struct value reports nothing although one was observed")
		}
		return
	}
	A, n1 := find(sts, "A")
	B, n2 := find(sts, "B")
	C, n3 := find(sts, "C")
	if n1 != 1 || n2 != 1 || n3 != 1 || len(sts) != 3 {
		fail("stats-shape", "a struct value reports %v", sts)
	}
	for _, o := range *obs {
		if float64(o.n) == A {
			if B != -A || (C == 1) != (o.n%2 == 0) {
				fail("struct-torn", "a struct value mixes two observations: %v", sts)
			}
			if !couldBeLast(*obs, o, a, b) {
				fail("struct-recent", "a struct value reports observation %d, which was not the last", o.n)
			}
			return
		}
	}
	fail("struct-recent", "a struct value reports something never observed: %v", sts)
}
