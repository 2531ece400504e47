package main

import (
	"errors"
	"fmt"
	"io"
	"math"
	"net"
	"os"
	"syscall"
	"time"

	"simrt"
	"simrt/context"
	simctx "simrt/context"
	simsyscall "simrt/syscall"

	"github.com/spacemonkeygo/monkit/v3"
)

// faults the simulator injects
const (
	FWallFwd = iota
	FWallBack
	FStall
	FWorkPanic
	FWorkErr
	FCancel
	FWriteErr
	FShortWrite
	FSlowWriter
	FOpenErr
	FReadErr
	FTornRead
	FDirErr
	FSyscallErr
	FRandFail
	FRandDegenerate
	FNetLoss
	FNetRespLoss
	FNetDup
	FNetDelay
	FNetReorder
	FNetCorrupt
	FHandlerPanic
	FCallbackPanic
	FReentry
	FTransient
	FOrphan
	FTornWrite
)

func init() {
	for i, n := range map[int]string{
		FWallFwd:        "wall clock jumps forward",
		FWallBack:       "wall clock jumps back",
		FStall:          "whole process stalls",
		FWorkPanic:      "monitored code panics",
		FWorkErr:        "monitored code fails",
		FCancel:         "caller cancels",
		FWriteErr:       "write fails",
		FShortWrite:     "short write",
		FSlowWriter:     "slow writer",
		FOpenErr:        "open fails",
		FReadErr:        "read fails",
		FTornRead:       "torn or truncated read",
		FDirErr:         "directory read fails",
		FSyscallErr:     "system call fails",
		FRandFail:       "randomness source fails",
		FRandDegenerate: "randomness source returns degenerate data",
		FNetLoss:        "request lost",
		FNetRespLoss:    "response lost",
		FNetDup:         "request duplicated",
		FNetDelay:       "message delayed",
		FNetReorder:     "requests reordered",
		FNetCorrupt:     "header corrupted",
		FHandlerPanic:   "handler panics",
		FCallbackPanic:  "user callback panics",
		FReentry:        "user callback re-enters the library",
		FTransient:      "transient error, later recovery",
		FOrphan:         "parent finishes before its child",
		FTornWrite:      "write torn: part accepted, then error",
	} {
		simrt.FaultNames[i] = n
	}
}

var nProbes = 1

// probe registers a named condition whose reaching is counted.
func probe(name string) int {
	nProbes++
	simrt.ProbeNames[nProbes-1] = name
	return nProbes - 1
}

func hit(p int) { simrt.Probe(p) }

func plan(n int) int { return simrt.PlanS.N(n) }
func env(n int) int  { return simrt.EnvS.N(n) }

// env64 is env for numbers an int may be too narrow for.
func env64(n int64) int64 {
	if n <= 1<<30 {
		return int64(env(int(n)))
	}
	k := (n + 0xffff) >> 16
	return (int64(env(1<<16))*k + env64(k)) % n
}

// one in n, as an environment choice (0, "no", is what minimisation aims at)
func chance(n int) bool { return env(n) == n-1 }

// pchance is chance for the plan.
func pchance(n int) bool { return plan(n) == n-1 }

// between returns a plan value in [lo, hi].
func between(lo, hi int) int { return lo + plan(hi-lo+1) }

func fail(class, format string, args ...interface{}) { simrt.Fail(class, format, args...) }

func now() int64 { return simrt.Mono() }

func seq() uint64 { return simrt.Seq(7) }

// group runs functions as simulated goroutines and waits for them.
type group struct {
	wg simrt.WaitGroup
	n  int
}

func (g *group) Go(name string, f func()) {
	g.n++
	g.wg.Add(1)
	simrt.GoNamed(name, func() {
		defer g.wg.Done()
		f()
	})
}

func (g *group) Wait() { g.wg.Wait() }

func pause(n int) {
	for i := 0; i < n; i++ {
		simrt.Y()
	}
}

// nap lets simulated time pass for the calling goroutine.
func nap(max int64) {
	if max <= 0 {
		return
	}
	simrt.Sleep(time.Duration(1 + env64(max)))
}

// clockFaults starts a goroutine that makes the wall clock jump and the whole
// process stall n times.
func clockFaults(g *group, n int, spread int64) {
	g.Go("clock faults", func() {
		for i := 0; i < n; i++ {
			if spread > 0 {
				nap(spread)
			}
			pause(env(40))
			oneClockFault()
		}
	})
}

func oneClockFault() {
	switch env(4) {
	case 1:
		simrt.Fault(FWallFwd)
		simrt.JumpWall(time.Duration(1+env(1000)) * []time.Duration{time.Microsecond, time.Second, time.Hour, 24 * time.Hour}[env(4)])
	case 2:
		simrt.Fault(FWallBack)
		simrt.JumpWall(-time.Duration(1+env(1000)) * []time.Duration{time.Microsecond, time.Second, time.Hour, 24 * time.Hour}[env(4)])
	case 3:
		simrt.Fault(FStall)
		simrt.AddTime(time.Duration(1+env(1000)) * []time.Duration{time.Microsecond, time.Millisecond, time.Second}[env(3)])
	}
}

func defaultRusage(who int, ru *simsyscall.Rusage) error {
	*ru = simsyscall.Rusage{}
	ru.Maxrss = 12345
	return nil
}

// outcomes of monitored work
type outcome struct {
	kind int // 0 success, 1 error, 2 panic, 3 panic with the error set as well
	err  error
	name string // expected error name
	pv   interface{}
}

type namedErr struct{ n string }

func (e *namedErr) Error() string        { return "named " + e.n }
func (e *namedErr) Name() (string, bool) { return e.n, true }

type plainErr struct{ s string }

func (e *plainErr) Error() string { return e.s }

type panicVal struct{ n int }

var errPlain = errors.New("plain")

func genOutcome() outcome {
	switch plan(6) {
	case 1, 2:
		e, n := genErr()
		return outcome{kind: 1, err: e, name: n}
	case 3:
		return outcome{kind: 2, pv: genPanic()}
	case 4:
		e, n := genErr()
		return outcome{kind: 3, err: e, name: n, pv: genPanic()}
	}
	return outcome{}
}

// coyErr implements the naming interface and declines to use it.
type coyErr struct{}

func (coyErr) Error() string        { return "coy" }
func (coyErr) Name() (string, bool) { return "not this", false }

// netErr is a network error of no type the library knows.
type netErr struct{}

func (netErr) Error() string   { return "net" }
func (netErr) Timeout() bool   { return true }
func (netErr) Temporary() bool { return false }

// errs are errors with the names their counts are reported under.
var errs = []struct {
	err  error
	name string
}{
	{errPlain, "System Error"},
	{io.EOF, "EOF"},
	{simctx.Canceled, "Canceled"},
	{simctx.DeadlineExceeded, "Timeout"},
	{&namedErr{"A"}, "A"},
	{&namedErr{"B"}, "B"},
	{io.ErrUnexpectedEOF, "Unexpected EOF Error"},
	{io.ErrShortWrite, "Short Write Error"},
	{io.ErrClosedPipe, "Closed Pipe Error"},
	{io.ErrNoProgress, "No Progress Error"},
	{io.ErrShortBuffer, "Short Buffer Error"},
	{syscall.ENOENT, "Errno"},
	{syscall.Errno(0), "Errno"},
	{net.UnknownNetworkError("u"), "Unknown Network Error"},
	{&net.AddrError{Err: "a"}, "Addr Error"},
	{net.InvalidAddrError("i"), "Invalid Addr Error"},
	{&net.OpError{Op: "o", Err: errPlain}, "Net Op Error"},
	{&net.ParseError{Type: "p"}, "Net Parse Error"},
	{&net.DNSError{Err: "d"}, "DNS Error"},
	{&net.DNSConfigError{Err: errPlain}, "DNS Config Error"},
	{netErr{}, "Network Error"},
	{os.NewSyscallError("s", syscall.ENOENT), "System Error"},
	{coyErr{}, "System Error"},
}

func genErr() (error, string) {
	k := plan(2 * len(errs))
	if k >= len(errs) {
		// the common ones
		k %= 9
	}
	return errs[k].err, errs[k].name
}

func genPanic() interface{} {
	switch plan(5) {
	case 1:
		return "boom"
	case 2:
		return 42
	case 3:
		return errPlain
	case 4:
		return &panicVal{2}
	}
	return &panicVal{1}
}

// act ends monitored work as the outcome says.
func (o *outcome) act(errp *error) {
	switch o.kind {
	case 1:
		simrt.Fault(FWorkErr)
		*errp = o.err
	case 2:
		simrt.Fault(FWorkPanic)
		panic(o.pv)
	case 3:
		simrt.Fault(FWorkPanic)
		*errp = o.err
		panic(o.pv)
	}
}

// guarded runs f and returns the panic value it ended with, if any.
func guarded(f func()) (pv interface{}, panicked bool) {
	panicked = true
	defer func() {
		if panicked {
			pv = recover()
		}
	}()
	f()
	panicked = false
	return
}

// stat is one reported statistic.
type stat struct {
	key   monkit.SeriesKey
	field string
	val   float64
}

func collectStats(s monkit.StatSource) (out []stat) {
	s.Stats(func(key monkit.SeriesKey, field string, val float64) {
		out = append(out, stat{key, field, val})
	})
	return out
}

func find(sts []stat, field string) (float64, int) {
	n := 0
	v := math.NaN()
	for _, s := range sts {
		if s.field == field {
			v = s.val
			n++
		}
	}
	return v, n
}

func str(v interface{}) string { return fmt.Sprint(v) }

func maxi(a, b int64) int64 {
	if a > b {
		return a
	}
	return b
}

// canRecv tells whether a receive from ch would not block.
func canRecv(ch <-chan struct{}) bool {
	select {
	case <-ch:
		return true
	default:
		return false
	}
}

// costOn returns the number of scheduling points of a monitored call on trace
// t, while nothing else runs: more than on a fresh trace means that something
// is attached to it.
func costOn(r *monkit.Registry, t *monkit.Trace) uint64 {
	f := r.ScopeNamed("cost").FuncNamed(fmt.Sprintf("f%d", simrt.Seq(9)))
	ctx := context.Background()
	a := simrt.LocalSteps()
	f.RemoteTrace(&ctx, 1, t)(nil)
	return simrt.LocalSteps() - a
}

func checkDetached(r *monkit.Registry, ts []*monkit.Trace) {
	base := costOn(r, monkit.NewTrace(1))
	for _, t := range ts {
		if c := costOn(r, t); c != base {
			fail("still-attached", "after everything was cancelled a call on a trace takes %d steps instead of %d: something is still attached to it", c, base)
		}
	}
}

// noLeaks fails if a goroutine other than the caller's is left.
func noLeaks() {
	for _, n := range simrt.Live() {
		if n != "AfterFunc" { // a timer of a context the harness made
			fail("goroutine-leak", "goroutine %q is still running after everything returned", n)
		}
	}
}
