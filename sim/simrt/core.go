// Package simrt is the deterministic simulator the instrumented copy of
// monkit runs on. Goroutines are real, but exactly one runs at a time; every
// switch between them is decided here, from a recorded list of decisions.
package simrt

import (
	"fmt"
	"os"
	"runtime"
	"sort"
	"strings"
	"sync/atomic"
	"time"
	"unsafe"
)

// Decision is one deviation from the default schedule: when goroutine G makes
// its Step-th scheduling point, To runs next (To == toTimer: the clock is
// first advanced to the next timer). Every other scheduling point takes the
// default: keep running, or on a block the next runnable goroutine in id order.
type Decision struct {
	G    int32  `json:"g"`
	Step uint64 `json:"s"`
	To   int32  `json:"to"`
}

const toTimer = -1

const (
	stRunnable = iota
	stBlocked
	stDead
)

type G struct {
	id     int32
	Name   string
	wake   chan struct{}
	steps  uint64
	burst  int
	prio   int64
	state  uint8
	ready  func() bool
	why    string
	daemon bool
	dec    []Decision
	di     int
	killN  int
	tag    int64
}

func (g *G) ID() int { return int(g.id) }

// strategies
const (
	StratWalk = iota // random walk over all yield points
	StratPCT         // priorities with change points
	StratSync        // preempt only at synchronisation operations
	StratSeq         // never preempt: the baseline
	nStrat
)

// Config fixes one run completely.
type Config struct {
	Seed     uint64
	Strategy int // drawn from Seed when < 0
	Live     bool
	Plan     []uint32
	Env      []uint32
	Sched    []Decision
	MaxSteps uint64
	MaxSim   int64 // ns of simulated time
	Log      bool  // keep the event log text
}

type Violation struct {
	Class string
	Msg   string
}

// Result describes a finished run.
type Result struct {
	V         *Violation
	Plan, Env []uint32
	Sched     []Decision
	Steps     uint64
	Switches  uint64
	SimNS     int64
	Hash      uint64 // hash of the interleaving (switch sequence)
	LogHash   uint64 // hash of every scheduling and harness event
	Faults    [nFaultMax]uint32
	Probes    [nProbeMax]uint32
	Gs        int
	Log       []string
	Strategy  int
	Weird     int // ordering ties that could not be resolved deterministically
	Goroutine string
}

var (
	active   bool
	killing  bool
	ending   bool
	cg       *G
	gs       []*G // all goroutines of the run, by id
	nlive    int
	step     uint64
	swc      uint64
	cfg      Config
	res      *Result
	ctl      chan struct{}
	PlanS    *Stream
	EnvS     *Stream
	schedR   *Rng
	strat    int
	gap      int64 // points until the next random preemption
	meanGap  int
	pTimer   int // 1/pTimer of preemptions fire a timer instead
	changes  []uint64
	lowPrio  int64
	recheck  bool
	fairCap  int
	ihash    uint64
	lhash    uint64
	runEnd   int32
	runStart int32
	wallT0   atomic.Int64 // real ns when the current run started (watchdog)
)

const fnvPrime = 1099511628211

func mixI(v uint64) { ihash = (ihash ^ v) * fnvPrime }
func mixL(v uint64) { lhash = (lhash ^ v) * fnvPrime; lhash ^= lhash >> 29 }

// Run executes body as goroutine 0 of a fresh simulation.
func Run(c Config, body func()) *Result {
	if c.MaxSteps == 0 {
		c.MaxSteps = 3000000
	}
	if c.MaxSim == 0 {
		c.MaxSim = int64(400 * time.Hour)
	}
	cfg = c
	res = &Result{}
	ctl = make(chan struct{})
	killing, ending = false, false
	gs = nil
	nlive = 0
	step, swc, early = 0, 0, 0
	ihash, lhash = 14695981039346656037, 14695981039346656037
	PlanS = newStream(c.Seed*3+1, c.Plan, c.Live)
	EnvS = newStream(c.Seed*3+2, c.Env, c.Live)
	schedR = NewRng(c.Seed*3 + 3)
	schedR.Uint64()
	setupStrategy()
	resetClock()
	resetChans()
	resetPtrs()
	resetRec()
	resetRand()
	sort.Slice(cfg.Sched, func(i, j int) bool {
		a, b := cfg.Sched[i], cfg.Sched[j]
		if a.G != b.G {
			return a.G < b.G
		}
		if a.Step != b.Step {
			return a.Step < b.Step
		}
		return a.To < b.To // a timer first, then the switch
	})
	base := raceErrors()
	wallT0.Store(time.Now().UnixNano())
	active = true
	g0 := newG("main")
	RaceRelease(unsafe.Pointer(&runStart))
	raceDisable()
	startG(g0, func() {
		RaceAcquire(unsafe.Pointer(&runStart))
		body()
	})
	cg = g0
	g0.wake <- struct{}{}
	<-ctl
	raceEnable()
	// the run has ended: collect, then kill what is left
	if res.V == nil && raceErrors() > base {
		res.V = &Violation{Class: "data-race", Msg: "data race detected (see the report attached to the replay)"}
	}
	res.Plan, res.Env = PlanS.Rec, EnvS.Rec
	res.Steps, res.Switches = step, swc
	res.SimNS = nowMono
	res.Hash, res.LogHash = ihash, lhash
	res.Gs = len(gs)
	res.Strategy = strat
	killing = true
	raceDisable()
	for _, g := range gs {
		if g.state == stDead {
			continue
		}
		cg = g
		g.wake <- struct{}{}
		<-ctl
	}
	raceEnable()
	RaceAcquire(unsafe.Pointer(&runEnd))
	active, killing = false, false
	wallT0.Store(0)
	cg = nil
	return res
}

// Watchdog ends the process when one run takes more than limit of real time:
// that is trouble of the harness, never a verdict.
func Watchdog(limit time.Duration, onFire func()) {
	go func() {
		for {
			time.Sleep(limit / 8)
			t := wallT0.Load()
			if t != 0 && time.Since(time.Unix(0, t)) > limit {
				fmt.Fprintf(os.Stderr, "simrt: watchdog: run did not end within %v\n", limit)
				if onFire != nil {
					onFire()
				}
				os.Exit(3)
			}
		}
	}()
}

func setupStrategy() {
	strat = StratSeq
	gap = -1
	changes = changes[:0]
	pTimer = 0
	fairCap = 4000
	lowPrio = 0
	recheck = false
	if !cfg.Live {
		return
	}
	strat = cfg.Strategy
	if strat < 0 {
		// 50% random walk, 30% PCT, 20% sync-only
		switch k := schedR.N(10); {
		case k < 5:
			strat = StratWalk
		case k < 8:
			strat = StratPCT
		default:
			strat = StratSync
		}
	}
	switch strat {
	case StratWalk:
		meanGap = []int{2, 4, 8, 20, 60, 200, 800}[schedR.N(7)]
		drawGap()
	case StratSync:
		meanGap = []int{1, 2, 3, 8, 20}[schedR.N(5)]
		drawGap()
	case StratPCT:
		d := 1 + schedR.N(5)
		l := []int{60, 200, 600, 2000, 8000}[schedR.N(5)]
		for i := 0; i < d; i++ {
			changes = append(changes, uint64(schedR.N(l)))
		}
		sort.Slice(changes, func(i, j int) bool { return changes[i] < changes[j] })
	}
	pTimer = []int{0, 0, 40, 10, 4}[schedR.N(5)]
}

func drawGap() {
	if meanGap <= 1 {
		gap = 1
		return
	}
	gap = 1 + int64(schedR.N(2*meanGap-1))
}

func newG(name string) *G {
	g := &G{id: int32(len(gs)), Name: name, wake: make(chan struct{}, 1)}
	gs = append(gs, g)
	nlive++
	if strat == StratPCT {
		g.prio = int64(schedR.Uint64() >> 2)
		recheck = true
	}
	// decisions of this goroutine in a replay
	lo := sort.Search(len(cfg.Sched), func(i int) bool { return cfg.Sched[i].G >= g.id })
	hi := lo
	for hi < len(cfg.Sched) && cfg.Sched[hi].G == g.id {
		hi++
	}
	if !cfg.Live {
		g.dec = cfg.Sched[lo:hi]
	}
	return g
}

func startG(g *G, fn func()) {
	go func() {
		raceDisable()
		<-g.wake
		raceEnable()
		defer exitG(g)
		if killing {
			return
		}
		defer catch(g)
		fn()
	}()
}

func catch(g *G) {
	if r := recover(); r != nil {
		if killing || ending {
			return
		}
		report("panic", fmt.Sprintf("goroutine %q died of an unexpected panic: %v", g.Name, r), stack())
	}
}

func exitG(g *G) {
	if r := recover(); r != nil && !killing {
		report("panic", fmt.Sprintf("goroutine %q: panic while exiting: %v", g.Name, r), stack())
	}
	g.state = stDead
	nlive--
	RaceReleaseMerge(unsafe.Pointer(&runEnd))
	if killing || ending {
		raceDisable()
		ctl <- struct{}{}
		raceEnable()
		return
	}
	if g.id == 0 || res.V != nil {
		ending = true
		raceDisable()
		ctl <- struct{}{}
		raceEnable()
		return
	}
	g.steps++
	step++
	n := choose(g, true)
	if n == nil {
		ending = true
		raceDisable()
		ctl <- struct{}{}
		raceEnable()
		return
	}
	handTo(n, g)
	raceDisable()
	n.wake <- struct{}{}
	raceEnable()
}

// Go starts fn as a new simulated goroutine.
//
//go:noinline
func Go(fn func()) { GoNamed("", fn) }

// GoNamed is Go with a name for reports.
//
//go:noinline
func GoNamed(name string, fn func()) *G {
	if !active {
		go fn()
		return nil
	}
	if killing {
		return nil
	}
	if name == "" {
		_, file, line, _ := runtime.Caller(2)
		if i := strings.LastIndexByte(file, '/'); i >= 0 {
			file = file[i+1:]
		}
		name = fmt.Sprintf("%s:%d", file, line)
	}
	if len(gs) > 6000 {
		Fail("runaway", "more than 6000 goroutines were started; the last at %s", name)
	}
	g := newG(name)
	startG(g, fn)
	mixL(uint64(g.id) | 1<<40)
	Y()
	return g
}

func report(class, msg, st string) {
	if res.V == nil {
		if st != "" {
			msg += "\n" + st
		}
		res.V = &Violation{Class: class, Msg: msg}
	}
}

// Fail records a violation and ends the run.
//
//go:noinline
func Fail(class, format string, args ...interface{}) {
	if !active {
		panic("simrt.Fail outside a run: " + class + ": " + fmt.Sprintf(format, args...))
	}
	if killing || ending {
		runtime.Goexit()
	}
	report(class, fmt.Sprintf(format, args...), "")
	endRun()
}

// Failed reports whether a violation has been recorded.
func Failed() bool { return res != nil && res.V != nil }

// SoftFail records a violation without ending the run.
func SoftFail(class, format string, args ...interface{}) {
	if killing || ending {
		return
	}
	report(class, fmt.Sprintf(format, args...), "")
}

// endRun stops the whole run from the current goroutine.
func endRun() {
	ending = true
	g := cg
	g.state = stBlocked
	raceDisable()
	ctl <- struct{}{}
	<-g.wake
	raceEnable()
	runtime.Goexit()
}

func killedYield() {
	g := cg
	if g == nil {
		return
	}
	g.killN++
	if g.killN > 20000 {
		g.killN = 0
		runtime.Goexit()
	}
}

// Y is a scheduling point before an ordinary statement.
//
//go:noinline
func Y() {
	if !active {
		return
	}
	yield(false)
}

// YS is a scheduling point at a synchronisation operation.
//
//go:noinline
func YS() {
	if !active {
		return
	}
	yield(true)
}

// Y1 passes v through a scheduling point: it separates the read half of a
// read-modify-write from its write half.
//
//go:noinline
//go:norace
func Y1[T any](v T) T {
	Y()
	return v
}

func yield(sync bool) {
	if killing || ending {
		killedYield()
		return
	}
	g := cg
	g.steps++
	g.burst++
	step++
	if step > cfg.MaxSteps {
		report("no-progress", fmt.Sprintf("the run did not finish within %d scheduling points", cfg.MaxSteps), describe())
		endRun()
	}
	if g.burst > fairCap {
		// the fairness rule is a function of the execution, never recorded
		if cfg.Live && strat == StratPCT {
			lowPrio--
			g.prio = lowPrio
			recheck = true
		}
		fairSwitch(g)
		return
	}
	if !cfg.Live {
		for g.di < len(g.dec) && g.dec[g.di].Step <= g.steps {
			d := g.dec[g.di]
			g.di++
			if d.Step < g.steps {
				continue
			}
			if d.To == toTimer {
				takeTimer(g)
			} else if n := byID(d.To); n != nil && n != g && isRunnable(n) {
				note(g, d.To)
				switchTo(n)
				return
			}
		}
		return
	}
	switch strat {
	case StratWalk:
		gap--
		if gap > 0 {
			return
		}
		drawGap()
		preempt(g)
	case StratSync:
		if !sync {
			return
		}
		gap--
		if gap > 0 {
			return
		}
		drawGap()
		preempt(g)
	case StratPCT:
		if len(changes) > 0 && step >= changes[0] {
			changes = changes[1:]
			lowPrio--
			g.prio = lowPrio
			recheck = true
			if pTimer > 0 && schedR.N(pTimer) == 0 {
				takeTimer(g)
			}
		}
		if recheck {
			recheck = false
			if n := highest(nil); n != nil && n != g {
				note(g, n.id)
				switchTo(n)
			}
		}
	}
}

func preempt(g *G) {
	if pTimer > 0 && schedR.N(pTimer) == 0 {
		takeTimer(g)
		return
	}
	n := randomOther(g)
	if n == nil {
		return
	}
	note(g, n.id)
	switchTo(n)
}

// takeTimer advances the clock to the next timer while goroutines are runnable:
// everything else is being slow.
func takeTimer(g *G) {
	if len(timers) == 0 || prompt || early >= maxEarly {
		return
	}
	early++
	note(g, toTimer)
	probe(ProbeEarlyTimer)
	t := nowMono
	fireNext()
	// time that passed by the scheduler's choice does not use up the run's
	cfg.MaxSim += nowMono - t
}

// maxEarly bounds how often timers fire early in one run, so that periodic
// timers cannot run away with the clock while goroutines are starved.
const maxEarly = 200

var early int

var prompt bool

// Prompt makes timers fire only when every goroutine is blocked: nothing is
// slow, and simulated time passes only when it is waited for.
func Prompt(on bool) { prompt = on }

// fairSwitch is the default fairness rule (not recorded: it is a function of
// the execution so far).
func fairSwitch(g *G) {
	g.burst = 0
	if n := nextRunnable(g); n != nil {
		switchTo(n)
	}
}

func note(g *G, to int32) {
	if len(res.Sched) < 1<<20 {
		res.Sched = append(res.Sched, Decision{g.id, g.steps, to})
	}
}

func byID(id int32) *G {
	if id < 0 || int(id) >= len(gs) {
		return nil
	}
	return gs[id]
}

func isRunnable(g *G) bool {
	switch g.state {
	case stRunnable:
		return true
	case stBlocked:
		return g.ready != nil && g.ready()
	}
	return false
}

func nextRunnable(g *G) *G {
	n := len(gs)
	for i := 1; i < n; i++ {
		h := gs[(int(g.id)+i)%n]
		if h.state != stDead && isRunnable(h) {
			return h
		}
	}
	return nil
}

func randomOther(g *G) *G {
	n := 0
	var pick *G
	for _, h := range gs {
		if h != g && h.state != stDead && isRunnable(h) {
			n++
			if schedR.N(n) == 0 {
				pick = h
			}
		}
	}
	return pick
}

func highest(except *G) *G {
	var best *G
	for _, h := range gs {
		if h != except && h.state != stDead && isRunnable(h) && (best == nil || h.prio > best.prio) {
			best = h
		}
	}
	return best
}

// choose picks who runs when g cannot (or, for Gosched, should not) go on.
// self tells that g itself is not a candidate. It returns nil when the run
// must end.
func choose(g *G, self bool) *G {
	for {
		var n *G
		if !cfg.Live {
			for g.di < len(g.dec) && g.dec[g.di].Step < g.steps {
				g.di++
			}
			if g.di < len(g.dec) && g.dec[g.di].Step == g.steps {
				d := g.dec[g.di]
				g.di++
				if d.To != toTimer {
					if n = byID(d.To); n != nil && (n == g || !isRunnable(n)) {
						n = nil
					}
					if n != nil {
						note(g, n.id)
					}
				}
			}
			if n == nil {
				n = nextRunnable(g)
			}
		} else {
			def := nextRunnable(g)
			if def != nil {
				switch strat {
				case StratPCT:
					n = highest(g)
				case StratSeq:
					n = def
				default:
					n = randomOther(g)
				}
				if n != def {
					note(g, n.id)
				}
			}
		}
		if n == nil && isRunnable(g) {
			return g
		}
		if n != nil {
			return n
		}
		// nobody can run: time passes
		if !advance() {
			return nil
		}
	}
}

// advance jumps the clock to the next timer; false ends the run.
func advance() bool {
	if len(timers) == 0 {
		report("deadlock", "no goroutine can run and no timer is pending", describe())
		return false
	}
	if timers[0].at > cfg.MaxSim {
		report("stuck", fmt.Sprintf("the run did not finish within %v of simulated time", time.Duration(cfg.MaxSim)), describe())
		return false
	}
	fireNext()
	return true
}

func handTo(n, from *G) {
	n.state = stRunnable
	n.ready = nil
	n.burst = 0
	cg = n
	swc++
	mixI(uint64(from.id)<<48 ^ from.steps<<16 ^ uint64(n.id))
	mixL(uint64(from.id)<<48 ^ from.steps<<16 ^ uint64(n.id))
	if cfg.Log {
		logf("switch g%d@%d -> g%d", from.id, from.steps, n.id)
	}
}

func switchTo(n *G) {
	g := cg
	if n == g {
		g.state = stRunnable
		g.ready = nil
		return
	}
	handTo(n, g)
	raceDisable()
	n.wake <- struct{}{}
	<-g.wake
	raceEnable()
	if killing {
		runtime.Goexit()
	}
}

// block parks the current goroutine until unblock (or ready) makes it
// runnable and the scheduler picks it.
func block(why string, ready func() bool) {
	if killing || ending {
		runtime.Goexit()
	}
	g := cg
	g.state = stBlocked
	g.ready = ready
	g.why = why
	g.steps++
	step++
	if step > cfg.MaxSteps {
		report("no-progress", fmt.Sprintf("the run did not finish within %d scheduling points", cfg.MaxSteps), describe())
		endRun()
	}
	n := choose(g, true)
	if n == nil {
		endRun()
	}
	switchTo(n)
	g.why = ""
}

func unblock(g *G) {
	if g.state == stBlocked {
		g.state = stRunnable
		g.ready = nil
		recheck = true
	}
}

// Gosched lets somebody else run.
//
//go:noinline
func Gosched() {
	if !active {
		runtime.Gosched()
		return
	}
	if killing || ending {
		killedYield()
		killedYield()
		return
	}
	g := cg
	g.steps++
	step++
	if step > cfg.MaxSteps {
		report("no-progress", fmt.Sprintf("the run did not finish within %d scheduling points", cfg.MaxSteps), describe())
		endRun()
	}
	if cfg.Live && strat == StratPCT {
		lowPrio--
		g.prio = lowPrio
	}
	if nextRunnable(g) == nil {
		// a spinning goroutine with nobody else runnable: let time pass
		if len(timers) > 0 && timers[0].at <= cfg.MaxSim {
			g.burst++
			if g.burst > 64 {
				g.burst = 0
				fireNext()
			}
		}
		return
	}
	if n := choose(g, false); n != nil && n != g {
		switchTo(n)
	}
}

// Forever blocks the current goroutine for good.
func Forever() { block("forever", nil) }

// WaitUntil blocks the current goroutine until cond holds. cond is evaluated
// by the scheduler and must have no effects.
func WaitUntil(why string, cond func() bool) {
	if cond() {
		return
	}
	block(why, cond)
}

// Daemon marks the current goroutine as not counting for leak checks.
func Daemon() { cg.daemon = true }

// Live lists the names of live goroutines other than the caller.
func Live() (out []string) {
	for _, g := range gs {
		if g.state != stDead && g != cg && !g.daemon {
			out = append(out, g.Name)
		}
	}
	return out
}

// NumGoroutine is the number of live simulated goroutines.
func NumGoroutine() int { return nlive }

// Steps is the number of scheduling points so far in the run; LocalSteps the
// number made by the calling goroutine.
func Steps() uint64      { return step }
func LocalSteps() uint64 { return cg.steps }

// Cur is the id of the running goroutine.
func Cur() int { return int(cg.id) }

// Active reports whether a simulation is running.
func Active() bool { return active && !killing && !ending }

func describe() string {
	var b strings.Builder
	for _, g := range gs {
		if g.state == stDead {
			continue
		}
		st := "runnable"
		if g.state == stBlocked {
			st = "blocked on " + g.why
		}
		fmt.Fprintf(&b, "  goroutine %d %q: %s (after %d points)\n", g.id, g.Name, st, g.steps)
	}
	return b.String()
}

func stack() string {
	var pcs [64]uintptr
	n := runtime.Callers(3, pcs[:])
	fr := runtime.CallersFrames(pcs[:n])
	var b strings.Builder
	for {
		f, more := fr.Next()
		if f.Function != "" && !strings.HasPrefix(f.Function, "runtime.") && !strings.HasPrefix(f.Function, "simrt.") {
			file := f.File
			if i := strings.Index(file, "/monkit/"); i >= 0 {
				file = file[i+8:]
			}
			fmt.Fprintf(&b, "    %s (%s:%d)\n", f.Function, file, f.Line)
		}
		if !more {
			break
		}
	}
	return b.String()
}

func logf(format string, args ...interface{}) {
	if len(res.Log) < 200000 {
		res.Log = append(res.Log, fmt.Sprintf("%8d t=%-12d ", step, nowMono)+fmt.Sprintf(format, args...))
	}
}

// Logf adds a line to the event log of the run (never a source of decisions).
func Logf(format string, args ...interface{}) {
	if !active || killing || ending {
		return
	}
	if cfg.Log {
		logf("g%d "+format, append([]interface{}{cg.id}, args...)...)
	}
}

// Without returns a copy of s lacking its i-th element. It copies element by
// element: copy and append(a, b...) go through runtime functions that report
// their accesses to the race detector even in uninstrumented packages.
//
//go:norace
func Without[T any](s []T, i int) []T {
	out := make([]T, 0, len(s))
	for k := 0; k < len(s); k++ {
		if k != i {
			out = append(out, s[k])
		}
	}
	return out
}
