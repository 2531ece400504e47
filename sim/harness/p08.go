package main

import (
	"context"
	"fmt"
	"strings"
	"time"

	"simrt"

	east "harness/callers/east/ops"
	west "harness/callers/west/ops"

	"github.com/spacemonkeygo/monkit/v3"
)

func init() { register(&Scenario{ID: "P08", Body: p08}) }

var (
	prCreateRace = probe("the same new metric requested concurrently")
	prConflict   = probe("a name requested as two kinds of metric")
	prMany       = probe("a registry with many metrics or scopes")
	prGaugeRepl  = probe("a gauge replaced")
	prCaller     = probe("a scope, function or task named after its caller")
	prCollDuring = probe("collection while metrics were being created")
)

const (
	mCounter = iota
	mMeter
	mIntVal
	mFloatVal
	mBoolVal
	mStructVal
	mDurationVal
	mTimer
	mDiffMeter
	mGauge
	mFunc
	nMetric
)

// series is what a name denotes: a scope, a name and tags (functions have
// names of their own).
type series struct {
	scope int
	name  string
	tags  []monkit.SeriesTag
	fn    bool
}

func (k *series) String() string {
	return fmt.Sprintf("scope%d/%q%v(func %v)", k.scope, k.name, k.tags, k.fn)
}

// request is one use of a name as a kind of metric.
type request struct {
	k        *series
	kind     int
	s0, s1   uint64
	obj      interface{}
	refused  bool
	gaugeVal float64
}

type observed struct{ X float64 }

// The functions of the package are those of its default registry.
func regStats(r *monkit.Registry, cb func(monkit.SeriesKey, string, float64)) {
	if r == monkit.Default && env(2) == 0 {
		monkit.Stats(cb)
		return
	}
	r.Stats(cb)
}

func regFuncs(r *monkit.Registry, cb func(*monkit.Func)) {
	if r == monkit.Default && env(2) == 0 {
		monkit.Funcs(cb)
		return
	}
	r.Funcs(cb)
}

func regScopes(r *monkit.Registry, cb func(*monkit.Scope)) {
	if r == monkit.Default && env(2) == 0 {
		monkit.Scopes(cb)
		return
	}
	r.Scopes(cb)
}

func regScope(r *monkit.Registry, name string) *monkit.Scope {
	if r == monkit.Default && env(2) == 0 {
		return monkit.ScopeNamed(name)
	}
	return r.ScopeNamed(name)
}

// checkCollect: with nothing going on, Collect returns what Stats reports.
func checkCollect(r *monkit.Registry) {
	type entry struct {
		n   int
		val float64
	}
	want := map[string]entry{}
	var order []string
	regStats(r, func(key monkit.SeriesKey, field string, val float64) {
		k := key.WithField(field)
		if strings.Contains(k, "\\\\") {
			return // names with a backslash may collide
		}
		if want[k].n == 0 {
			order = append(order, k)
		}
		want[k] = entry{want[k].n + 1, val}
	})
	got := monkit.Collect(r)
	for _, k := range order {
		v, ok := got[k]
		if w := want[k]; !ok || (w.n == 1 && v != w.val && !(v != v && w.val != w.val)) {
			fail("collect", "Collect reports %s as %v (%v), Stats as %v", k, v, ok, w.val)
		}
	}
	for _, k := range simrt.SortedKeys(got) {
		if _, ok := want[k]; !ok && !strings.Contains(k, "\\\\") {
			fail("collect", "Collect reports %s, which Stats does not", k)
		}
	}
}

// manyTags tag a metric.
var manyTags = func() (ts []monkit.SeriesTag) {
	for i := 0; i < 24; i++ {
		ts = append(ts, monkit.NewSeriesTag(fmt.Sprintf("t%d", i), fmt.Sprint(i)))
	}
	return ts
}()

// p08many: a scope with many metrics.
func p08many() {
	hit(prMany)
	r := monkit.NewRegistry()
	n := between(60, 250)
	byTag, perScope := plan(3) == 1, n
	if plan(3) == 1 {
		perScope = 1 + plan(9)
	}
	kind := plan(3)
	objs := make([]interface{}, n)
	get := func(i int) interface{} {
		sc := r.ScopeNamed(fmt.Sprintf("s%d", i/perScope))
		name, tags := fmt.Sprintf("m%d", i), []monkit.SeriesTag(nil)
		if byTag {
			name, tags = "m", append(tags, monkit.NewSeriesTag("i", fmt.Sprint(i)))
		}
		switch kind {
		case 0:
			return sc.Counter(name, tags...)
		case 1:
			return sc.Meter(name, tags...)
		}
		return sc.FuncNamed(name, tags...)
	}
	var g group
	for k := between(1, 3); k > 0; k-- {
		g.Go("user", func() {
			from := env(n)
			for i := 0; i < n; i++ {
				j := (from + i) % n
				x := get(j)
				if objs[j] == nil {
					objs[j] = x
				}
				if objs[j] != x {
					fail("two-objects", "metric %d of %d (kind %d) denotes two different metrics", j, n, kind)
				}
			}
		})
	}
	g.Wait()
	for i := range objs {
		if get(i) != objs[i] {
			fail("two-objects", "metric %d of %d (kind %d) denotes two different metrics", i, n, kind)
		}
		for j := range objs[:i] {
			if objs[i] == objs[j] {
				fail("same-object", "metrics %d and %d of %d (kind %d) are the same", i, j, n, kind)
			}
		}
	}
	seen := map[string]int{}
	total := 0
	field := []string{"value", "total", "current"}[kind]
	r.Stats(func(key monkit.SeriesKey, f string, val float64) {
		if f == field {
			seen[key.String()]++
			total++
		}
	})
	for _, k := range simrt.SortedKeys(seen) {
		if seen[k] != 1 {
			fail("collection", "%s was reported %d times", k, seen[k])
		}
	}
	if total != n {
		fail("collection", "%d metrics of a registry with %d metrics of kind %d were reported", total, n, kind)
	}
	listed, scopes := 0, 0
	r.Funcs(func(*monkit.Func) { listed++ })
	r.Scopes(func(*monkit.Scope) { scopes++ })
	if want := (n + perScope - 1) / perScope; scopes != want {
		fail("scope-list", "%d scopes of %d are listed", scopes, want)
	}
	if kind == 2 && listed != n {
		fail("function-list", "%d functions of %d are listed", listed, n)
	}
}

// p08callers: code asks for the scope of its package, and for the function or
// task it is in.
func p08callers() {
	hit(prCaller)
	r := monkit.NewRegistry()
	if plan(3) == 1 {
		r = monkit.Default
	}
	type pkg struct {
		path   string
		scopes []func(*monkit.Registry) *monkit.Scope
		funcs  []func(*monkit.Scope) (*monkit.Func, string)
		tasks  []func(*monkit.Scope, context.Context, []monkit.SeriesTag) (*monkit.Func, string)
		got    *monkit.Scope
	}
	pkgs := []*pkg{
		{path: east.Path(), scopes: east.Scopes, funcs: east.Funcs, tasks: east.Tasks},
		{path: west.Path(), scopes: west.Scopes, funcs: west.Funcs, tasks: west.Tasks},
	}
	other := r.ScopeNamed("other")
	fns := map[string]*monkit.Func{} // by scope and name and tags
	owner := map[*monkit.Func]string{}
	check := func(sc *monkit.Scope, what string, f *monkit.Func, name, path string, tags []monkit.SeriesTag) {
		if f == nil {
			fail("caller", "%s of %s is not of a function", what, name)
			return
		}
		short := strings.TrimPrefix(name, path+".")
		if f.Scope() != sc || f.ShortName() != short {
			fail("caller", "%s in %s of scope %s is named %s in scope %s", what, name, sc.Name(), f.ShortName(), f.Scope().Name())
		}
		key := fmt.Sprintf("%s %s %v", sc.Name(), short, tags)
		if o := fns[key]; o != nil && o != f {
			fail("two-objects", "%s in %s denotes two different functions", what, key)
		}
		if o := owner[f]; o != "" && o != key {
			fail("same-object", "%s and %s are the same function", o, key)
		}
		fns[key], owner[f] = f, key
		if x := sc.FuncNamed(short, tags...); x != f {
			fail("two-objects", "%s in %s is not the function of that name", what, key)
		}
	}
	var g group
	for n := between(1, 4); n > 0; n-- {
		type step struct{ pkg, kind, at, tag int }
		var steps []step
		for k := between(1, 8); k > 0; k-- {
			steps = append(steps, step{plan(2), plan(4), plan(1000), plan(3)})
		}
		g.Go("user", func() {
			for _, s := range steps {
				p := pkgs[s.pkg]
				sc := p.scopes[s.at%len(p.scopes)](r)
				if sc.Name() != p.path {
					fail("caller", "the scope of package %s is named %s (way %d)", p.path, sc.Name(), s.at%len(p.scopes))
				}
				if p.got == nil {
					p.got = sc
				}
				if p.got != sc {
					fail("two-objects", "the scope of package %s is two objects", p.path)
				}
				if x := r.ScopeNamed(p.path); x != sc {
					fail("two-objects", "the scope of package %s is not the scope of that name", p.path)
				}
				if s.at%7 == 0 {
					sc = other // a function may be of any scope
				}
				switch s.kind {
				case 0:
				case 1:
					f, name := p.funcs[s.at%len(p.funcs)](sc)
					check(sc, "Func", f, name, p.path, nil)
				default:
					var tags []monkit.SeriesTag
					if s.tag > 0 {
						tags = append(tags, monkit.NewSeriesTag("t", fmt.Sprint(s.tag)))
					}
					f, name := p.tasks[s.at%len(p.tasks)](sc, context.Background(), tags)
					check(sc, "Task", f, name, p.path, tags)
				}
			}
		})
	}
	g.Wait()
	if a, b := pkgs[0].got, pkgs[1].got; a != nil && a == b {
		fail("same-object", "packages %s and %s have the same scope", pkgs[0].path, pkgs[1].path)
	}
	listed := map[*monkit.Func]int{}
	regFuncs(r, func(f *monkit.Func) { listed[f]++ })
	for _, k := range simrt.SortedKeys(fns) {
		if listed[fns[k]] != 1 {
			fail("function-list", "%s is listed %d times", k, listed[fns[k]])
		}
	}
}

func p08() {
	if pchance(8) {
		p08callers()
		return
	}
	if pchance(12) {
		p08many()
		return
	}
	r := monkit.NewRegistry()
	if plan(4) == 1 {
		r = monkit.Default
	}
	nscopes := between(1, 2)
	// names that differ, but less than they seem
	t := func(k, v string) []monkit.SeriesTag { return []monkit.SeriesTag{monkit.NewSeriesTag(k, v)} }
	cand := []series{
		{name: "a"}, {name: "a", tags: t("k", "v")}, {name: "b"}, {name: "a,k=v"}, {name: "a", tags: t("k", "w")},
		{name: "a", tags: []monkit.SeriesTag{{Key: "k", Val: "v"}, {Key: "l", Val: "w"}}}, {name: "a", tags: t("k", "v,l=w")},
		{name: "a", tags: t("k=v,l", "w")}, {name: "func:a"}, {name: "func,a"}, {name: ""}, {name: "a\\"}, {name: "a", tags: t("k", "")}, {name: "a\\,k=v"}, {name: "func:"}, {name: "many", tags: manyTags},
	}
	var keys []*series
	for n := between(1, 5); n > 0; n-- {
		k := cand[plan(len(cand))]
		k.scope = plan(nscopes)
		keys = append(keys, &k)
		if pchance(3) {
			f := k
			f.fn = true
			keys = append(keys, &f)
		}
	}
	// the same series may have been drawn twice: unify
	for i, k := range keys {
		for _, j := range keys[:i] {
			if j.same(k) {
				keys[i] = j
				break
			}
		}
	}
	m1, m2 := monkit.NewMeter(monkit.NewSeriesKey("m1")), monkit.NewMeter(monkit.NewSeriesKey("m2"))
	var reqs []*request
	scopesSeen := make([][]*monkit.Scope, nscopes)
	var g group
	chains := make([]uint64, 0, 8)  // event numbers at which a chain had been added
	chains0 := make([]uint64, 0, 8) // and before it was
	workers := between(1, 4)
	mixed := pchance(2)
	for wi := 0; wi < workers; wi++ {
		var mine []*request
		for n := between(1, 5); n > 0; n-- {
			k := keys[plan(len(keys))]
			kind := mFunc
			if !k.fn {
				kind = plan(mFunc)
				if !mixed {
					kind = (len(k.name)*7 + len(k.tags)*3 + k.scope) % mFunc
				}
				if kind == mGauge && len(k.tags) > 0 {
					kind = mCounter
				}
			}
			q := &request{k: k, kind: kind}
			mine = append(mine, q)
			reqs = append(reqs, q)
		}
		chain := pchance(4)
		g.Go("user", func() {
			if chain {
				sc := regScope(r, "scope0")
				chains0 = append(chains0, seq())
				sc.Chain(monkit.StatSourceFunc(func(cb func(monkit.SeriesKey, string, float64)) {
					cb(monkit.NewSeriesKey("chained"), "n", 1)
				}))
				chains = append(chains, seq())
			}
			for _, q := range mine {
				q.gaugeVal = float64(1 + env(1000))
				sc := regScope(r, fmt.Sprintf("scope%d", q.k.scope))
				scopesSeen[q.k.scope] = append(scopesSeen[q.k.scope], sc)
				q.run(sc, m1, m2)
			}
		})
	}
	for n := between(0, 2); n > 0; n-- {
		g.Go("collector", func() {
			pause(env(100))
			checkCollection(r, keys, reqs, chains0, &chains)
			pause(env(50))
			checkLists(r, reqs, nscopes, scopesSeen)
		})
	}
	g.Wait()
	// the scope is still usable, and the name still denotes the same object
	for _, k := range keys {
		for _, q := range reqs {
			if q.k == k && !q.refused {
				again := &request{k: k, kind: q.kind, gaugeVal: 5}
				reqs = append(reqs, again)
				again.run(regScope(r, fmt.Sprintf("scope%d", k.scope)), m1, m2)
				break
			}
		}
	}
	for _, k := range keys {
		checkSeries(k, reqs)
	}
	for i, x := range reqs {
		for _, y := range reqs[:i] {
			if x.k != y.k && x.obj != nil && y.obj != nil && x.obj == y.obj {
				fail("same-object", "%v and %v are the same metric", x.k, y.k)
			}
		}
	}
	checkCollection(r, keys, reqs, chains0, &chains)
	checkLists(r, reqs, nscopes, scopesSeen)
	checkCollect(r)
	for i, ss := range scopesSeen {
		for _, s := range ss {
			if s != ss[0] || s.Name() != fmt.Sprintf("scope%d", i) {
				fail("scope-identity", "scope%d is more than one object, or has another name (%q)", i, s.Name())
			}
			for j, us := range scopesSeen[:i] {
				if len(us) > 0 && us[0] == s {
					fail("scope-identity", "scope%d and scope%d are the same object", i, j)
				}
			}
		}
	}
}

func (k *series) same(j *series) bool {
	if k.scope != j.scope || k.name != j.name || k.fn != j.fn || len(k.tags) != len(j.tags) {
		return false
	}
	for i := range k.tags {
		if k.tags[i] != j.tags[i] {
			return false
		}
	}
	return true
}

func (q *request) run(sc *monkit.Scope, m1, m2 *monkit.Meter) {
	k := q.k
	q.s0 = seq()
	pv, panicked := guarded(func() {
		switch q.kind {
		case mCounter:
			q.obj = sc.Counter(k.name, k.tags...)
		case mMeter:
			q.obj = sc.Meter(k.name, k.tags...)
		case mIntVal:
			q.obj = sc.IntVal(k.name, k.tags...)
		case mFloatVal:
			q.obj = sc.FloatVal(k.name, k.tags...)
		case mBoolVal:
			q.obj = sc.BoolVal(k.name, k.tags...)
		case mStructVal:
			v := sc.StructVal(k.name, k.tags...)
			v.Observe(observed{1})
			q.obj = v
		case mDurationVal:
			q.obj = sc.DurationVal(k.name, k.tags...)
		case mTimer:
			q.obj = sc.Timer(k.name, k.tags...)
		case mDiffMeter:
			sc.DiffMeter(k.name, m1, m2, k.tags...)
		case mGauge:
			v := q.gaugeVal
			sc.Gauge(k.name, func() float64 { return v })
		case mFunc:
			q.obj = sc.FuncNamed(k.name, k.tags...)
		}
	})
	q.s1 = seq()
	if panicked {
		msg, ok := pv.(string)
		if !ok || !strings.HasPrefix(msg, k.name+" already used for another stats source") {
			fail("panic", "requesting %v panicked with %v", k, pv)
		}
		q.refused = true
		q.obj = nil
	}
}

// checkSeries: the requests for one name agree with some order of creation.
func checkSeries(k *series, reqs []*request) {
	winner := -1
	var obj interface{}
	for _, q := range reqs {
		if q.k != k || q.s1 == 0 {
			continue
		}
		if q.refused {
			continue
		}
		if winner >= 0 && winner != q.kind {
			fail("two-kinds", "%v is in use as two kinds of metric", k)
		}
		winner = q.kind
		if q.kind == mGauge || q.kind == mDiffMeter {
			continue
		}
		if obj != nil && obj != q.obj {
			fail("two-objects", "%v denotes two different metrics", k)
		}
		obj = q.obj
	}
	for _, q := range reqs {
		if q.k == k && q.refused {
			hit(prConflict)
			if q.kind == winner || winner < 0 {
				fail("refused", "%v was refused as a kind of metric although it is not in use as another kind", k)
			}
			// somebody of the winning kind had begun before
			ok := false
			for _, p := range reqs {
				ok = ok || (p.k == k && !p.refused && p.s0 != 0 && p.s0 < q.s1)
			}
			if !ok {
				fail("refused", "%v was refused before anything used it", k)
			}
		}
		for _, p := range reqs {
			if p != q && p.k == k && q.k == k && p.s0 < q.s1 && q.s0 < p.s1 {
				hit(prCreateRace)
			}
		}
	}
}

// fields that identify one report of a metric of each kind
var oneField = map[int]string{mCounter: "value", mMeter: "total", mIntVal: "count", mFloatVal: "count", mBoolVal: "disposition", mStructVal: "X", mDurationVal: "count", mTimer: "count", mDiffMeter: "total", mGauge: "value", mFunc: "highwater"}

func checkCollection(r *monkit.Registry, keys []*series, reqs []*request, chains0 []uint64, chains *[]uint64) {
	a := seq()
	lo := 0
	for _, c := range *chains {
		if c < a {
			lo++
		}
	}
	var sts []stat
	regStats(r, func(key monkit.SeriesKey, field string, val float64) {
		sts = append(sts, stat{key, field, val})
	})
	b := seq()
	hi := 0
	chainN := 0
	for _, s := range sts {
		if s.key.Measurement == "chained" {
			chainN++
		}
	}
	_ = chains0
	hi = len(*chains) + 4
	if chainN < lo || chainN > hi {
		fail("chains", "%d reports of chained sources, at least %d were chained", chainN, lo)
	}
	for _, k := range keys {
		must, may := false, false
		kind := -1
		for _, q := range reqs {
			if q.k != k || q.s0 == 0 {
				continue
			}
			if q.s1 == 0 || !q.refused {
				may = may || q.s0 < b
			}
			if q.s1 != 0 && !q.refused {
				kind = q.kind
				must = must || q.s1 < a
			}
		}
		if kind < 0 {
			continue
		}
		n := 0
		var val float64
		for _, s := range sts {
			if s.field == oneField[kind] && k.matches(s.key) {
				n++
				val = s.val
			}
		}
		if must && n != 1 {
			fail("collection", "%v (kind %d) existed before a collection and was reported %d times", k, kind, n)
		}
		if n > 1 || (n > 0 && !may) {
			fail("collection", "%v (kind %d) was reported %d times", k, kind, n)
		}
		if !must && may {
			hit(prCollDuring)
		}
		if n == 1 && kind == mGauge {
			ok := false
			gauges := 0
			for _, q := range reqs {
				if q.k != k || q.kind != mGauge || q.s0 == 0 || q.refused {
					continue
				}
				gauges++
				if q.s0 > b || q.gaugeVal != val {
					continue
				}
				// not replaced by one that was complete before the reading
				hidden := false
				for _, p := range reqs {
					hidden = hidden || (p.k == k && p.kind == mGauge && !p.refused && p.s0 > q.s1 && q.s1 != 0 && p.s1 != 0 && p.s1 < a)
				}
				ok = ok || !hidden
			}
			if gauges > 1 {
				hit(prGaugeRepl)
			}
			if !ok {
				fail("gauge", "%v reports %v, which is not the value of its current gauge", k, val)
			}
		}
	}
	_ = simrt.Active
	_ = time.Now
}

func (k *series) matches(key monkit.SeriesKey) bool {
	n := len(k.tags) + 1
	if key.Tags.Get("scope") != fmt.Sprintf("scope%d", k.scope) {
		return false
	}
	if k.fn {
		if key.Measurement != "function" || key.Tags.Get("name") != k.name {
			return false
		}
		n++
	} else if key.Measurement != k.name {
		return false
	}
	if key.Tags.Len() != n {
		return false
	}
	all := key.Tags.All()
	for _, t := range k.tags {
		if v, ok := all[t.Key]; !ok || v != t.Val {
			return false
		}
	}
	return true
}

func checkLists(r *monkit.Registry, reqs []*request, nscopes int, scopesSeen [][]*monkit.Scope) {
	a := seq()
	var want []*monkit.Func
	for _, q := range reqs {
		if f, ok := q.obj.(*monkit.Func); ok && q.s1 != 0 && q.s1 < a {
			want = append(want, f)
		}
	}
	var fs []*monkit.Func
	regFuncs(r, func(f *monkit.Func) { fs = append(fs, f) })
	for _, f := range want {
		n := 0
		for _, x := range fs {
			if x == f {
				n++
			}
		}
		if n != 1 {
			fail("function-list", "function %s is listed %d times", f.FullName(), n)
		}
	}
	for i, f := range fs {
		for _, x := range fs[:i] {
			if x == f {
				fail("function-list", "function %s is listed twice", f.FullName())
			}
		}
	}
	have := make([]bool, nscopes)
	for i := range scopesSeen {
		have[i] = len(scopesSeen[i]) > 0
	}
	count := make([]int, nscopes)
	regScopes(r, func(s *monkit.Scope) {
		for i := range count {
			if s.Name() == fmt.Sprintf("scope%d", i) {
				count[i]++
			}
		}
	})
	for i, n := range count {
		if n > 1 || (have[i] && n != 1) {
			fail("scope-list", "scope%d is listed %d times", i, n)
		}
	}
}
