// simrun explores simulated executions of one scenario, replays a recorded
// one, or minimises a failing one.
package main

import (
	"bufio"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"time"

	"simrt"
	simdebug "simrt/debug"
	simos "simrt/os"
	simruntime "simrt/runtime"
	simsyscall "simrt/syscall"
)

// Scenario is the system under test together with the checks of one property.
type Scenario struct {
	ID       string
	Body     func()
	MaxSteps uint64
	MaxSim   time.Duration
}

var scenarios = map[string]*Scenario{}

func register(s *Scenario) { scenarios[s.ID] = s }

// Replay is the replay file: everything that determines one execution.
type Replay struct {
	Property  string           `json:"property"`
	Scenario  string           `json:"scenario"`
	Class     string           `json:"class"`
	Message   string           `json:"message"`
	Mode      string           `json:"mode"` // normal or race
	Tags      string           `json:"tags"`
	Seed      uint64           `json:"seed"`
	Plan      []uint32         `json:"plan"`
	Env       []uint32         `json:"env"`
	Sched     []simrt.Decision `json:"schedule"`
	LogHash   string           `json:"log_hash"`
	Minimised bool             `json:"minimised"`
	Original  map[string]int   `json:"original_size"`
	Faults    map[string]int   `json:"faults"`
	Trace     []string         `json:"trace"`
	Level     int              `json:"level"`
}

type summary struct {
	Runs      int64            `json:"runs"`
	Steps     uint64           `json:"steps"`
	Switches  uint64           `json:"switches"`
	SimNS     float64          `json:"sim_ns"`
	Faults    map[string]int64 `json:"faults"`
	Probes    map[string]int64 `json:"probes"`
	ProbeRuns map[string]int64 `json:"probe_runs"`
	Strat     map[string]int64 `json:"strategies"`
	Gs        int64            `json:"goroutines"`
	MaxGs     int              `json:"max_goroutines"`
	Weird     int64            `json:"weird"`
	Checked   int64            `json:"determinism_reruns"`
	Mismatch  int64            `json:"determinism_mismatches"`
	Elapsed   float64          `json:"elapsed_s"`
	Next      uint64           `json:"next_seed"`
	Fail      *Replay          `json:"fail"`
	MaxRunMS  float64          `json:"max_run_ms"`
	Samples   []sample         `json:"samples"`
	Trivial   int64            `json:"trivial_runs"`
}

// sample is one run of the exploration, written out.
type sample struct {
	Seed       uint64           `json:"seed"`
	Strategy   string           `json:"strategy"`
	Goroutines int              `json:"goroutines"`
	Points     uint64           `json:"scheduling_points"`
	Deviations []simrt.Decision `json:"first_schedule_deviations"`
	NDev       int              `json:"schedule_deviations"`
	Plan       []uint32         `json:"first_plan_choices"`
	Env        []uint32         `json:"first_environment_choices"`
	Faults     map[string]int   `json:"faults"`
	Log        []string         `json:"event_log_excerpt"`
}

var stratNames = []string{"random walk", "pct", "sync-only", "sequential"}

func execute(s *Scenario, c simrt.Config) *simrt.Result {
	c.MaxSteps = s.MaxSteps
	c.MaxSim = int64(s.MaxSim)
	return simrt.Run(c, func() {
		defaultsForRun()
		resetPackages()
		s.Body()
	})
}

// defaultsForRun brings the harness-controlled environment to its defaults.
func defaultsForRun() {
	simos.SimOpen = nil
	simruntime.SimMemStats = nil
	simdebug.SimGCStats = nil
	simsyscall.SimGetrusage = defaultRusage
	simrt.SetTick(1)
}

func main() {
	scn := flag.String("scn", "", "scenario")
	from := flag.Uint64("from", 1, "first seed")
	stride := flag.Uint64("stride", 1, "distance between seeds")
	dur := flag.Float64("time", 10, "seconds to explore")
	maxRuns := flag.Int64("runs", 1<<40, "runs to explore")
	hashes := flag.String("hashes", "", "file for interleaving hashes")
	out := flag.String("out", "", "result file")
	replay := flag.String("replay", "", "replay this file")
	seed1 := flag.Uint64("seed", 0, "run one seed and print its log")
	minTime := flag.Float64("mintime", 15, "seconds to minimise")
	verify := flag.Int("verify", 25, "every n-th run is repeated to check determinism")
	nsamples := flag.Int("samples", 0, "runs to write out")
	ignore := flag.String("ignore", "", "comma separated violation classes that are known findings")
	flag.Parse()
	runtime.GOMAXPROCS(1)
	debug.SetGCPercent(400)
	simrt.Watchdog(60*time.Second, nil)

	if *replay != "" {
		doReplay(*replay, *out)
		return
	}
	s := scenarios[*scn]
	if s == nil {
		fmt.Fprintf(os.Stderr, "simrun: no scenario %q\n", *scn)
		os.Exit(2)
	}
	if *seed1 != 0 {
		r := execute(s, simrt.Config{Seed: *seed1, Strategy: -1, Live: true, Log: true})
		for _, l := range r.Log {
			fmt.Println(l)
		}
		fmt.Printf("steps=%d gs=%d sim=%v strat=%s loghash=%x weird=%d\n", r.Steps, r.Gs, time.Duration(r.SimNS), stratNames[r.Strategy], r.LogHash, r.Weird)
		if r.V != nil {
			fmt.Printf("VIOLATED %s: %s\n", r.V.Class, r.V.Msg)
		}
		return
	}
	known := map[string]bool{}
	for _, k := range strings.Split(*ignore, ",") {
		if k != "" {
			known[k] = true
		}
	}
	sum := &summary{Faults: map[string]int64{}, Probes: map[string]int64{}, ProbeRuns: map[string]int64{}, Strat: map[string]int64{}}
	start := time.Now()
	seen := map[uint64]struct{}{}
	seed := *from
	for ; sum.Runs < *maxRuns && time.Since(start).Seconds() < *dur; seed += *stride {
		t0 := time.Now()
		cfg := simrt.Config{Seed: seed, Strategy: -1, Live: true}
		r := execute(s, cfg)
		if ms := float64(time.Since(t0)) / 1e6; ms > sum.MaxRunMS {
			sum.MaxRunMS = ms
		}
		sum.add(r)
		if len(r.Sched) > 0 {
			seen[r.Hash] = struct{}{}
		} else {
			sum.Trivial++
		}
		if r.V != nil {
			if known[r.V.Class] {
				continue
			}
			sum.Fail = minimise(s, seed, r, time.Duration(*minTime*float64(time.Second)))
			break
		}
		if *verify > 0 && sum.Runs%int64(*verify) == 1 {
			// the same seed again, and the recorded execution again
			sum.Checked++
			r2 := execute(s, cfg)
			r3 := execute(s, simrt.Config{Seed: seed, Plan: r.Plan, Env: r.Env, Sched: r.Sched})
			if r2.LogHash != r.LogHash || r3.LogHash != r.LogHash {
				sum.Mismatch++
				fmt.Fprintf(os.Stderr, "simrun: seed %d is not deterministic (rerun %v, replay %v)\n", seed, r2.LogHash == r.LogHash, r3.LogHash == r.LogHash)
			}
		}
	}
	for i := 0; *nsamples > 0 && len(sum.Samples) < *nsamples && i < 40 && int64(i) < sum.Runs; i++ {
		// the first runs that are not trivial, once more with their event log
		sd := *from + uint64(i)**stride
		if r := execute(s, simrt.Config{Seed: sd, Strategy: -1, Live: true, Log: !simrt.RaceMode}); len(r.Sched) > 2 {
			f := map[string]int{}
			for i, n := range r.Faults {
				if n > 0 {
					f[simrt.FaultNames[i]] = int(n)
				}
			}
			sum.Samples = append(sum.Samples, sample{Seed: sd, Strategy: stratNames[r.Strategy], Goroutines: r.Gs, Points: r.Steps,
				Deviations: r.Sched[:min(len(r.Sched), 12)], NDev: len(r.Sched), Plan: r.Plan[:min(len(r.Plan), 40)], Env: r.Env[:min(len(r.Env), 40)], Faults: f, Log: r.Log[:min(len(r.Log), 60)]})
		}
	}
	sum.Next = seed
	sum.Elapsed = time.Since(start).Seconds()
	if *hashes != "" {
		f, err := os.Create(*hashes)
		if err == nil {
			w := bufio.NewWriter(f)
			for h := range seen {
				binary.Write(w, binary.LittleEndian, h)
			}
			w.Flush()
			f.Close()
		}
	}
	emit(*out, sum)
}

func emit(path string, v interface{}) {
	js, err := json.MarshalIndent(v, "", " ")
	if err != nil {
		fmt.Fprintln(os.Stderr, "simrun:", err)
		os.Exit(2)
	}
	if path == "" {
		fmt.Println(string(js))
		return
	}
	if err := os.WriteFile(path, js, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, "simrun:", err)
		os.Exit(2)
	}
}

func (s *summary) add(r *simrt.Result) {
	s.Runs++
	s.Steps += r.Steps
	s.Switches += r.Switches
	s.SimNS += float64(r.SimNS)
	s.Gs += int64(r.Gs)
	if r.Gs > s.MaxGs {
		s.MaxGs = r.Gs
	}
	s.Weird += int64(r.Weird)
	s.Strat[stratNames[r.Strategy]]++
	for i, n := range r.Faults {
		if n > 0 {
			s.Faults[simrt.FaultNames[i]] += int64(n)
		}
	}
	for i, n := range r.Probes {
		if n > 0 {
			s.Probes[simrt.ProbeNames[i]] += int64(n)
			s.ProbeRuns[simrt.ProbeNames[i]]++
		}
	}
}

func replayOf(s *Scenario, seed uint64, r *simrt.Result) *Replay {
	f := map[string]int{}
	for i, n := range r.Faults {
		if n > 0 {
			f[simrt.FaultNames[i]] = int(n)
		}
	}
	mode := "normal"
	if simrt.RaceMode {
		mode = "race"
	}
	return &Replay{Property: s.ID, Scenario: s.ID, Class: r.V.Class, Message: r.V.Msg, Mode: mode, Seed: seed,
		Plan: r.Plan, Env: r.Env, Sched: r.Sched, LogHash: fmt.Sprintf("%016x", r.LogHash), Faults: f}
}

// minimise shrinks the failing execution r of seed: schedule deviations,
// environment choices and plan choices, as long as the same class of violation
// still happens.
func minimise(s *Scenario, seed uint64, r *simrt.Result, limit time.Duration) *Replay {
	deadline := time.Now().Add(limit)
	class := r.V.Class
	orig := map[string]int{"plan": len(r.Plan), "env": len(r.Env), "schedule": len(r.Sched), "steps": int(r.Steps)}
	run := func(plan, env []uint32, sched []simrt.Decision) *simrt.Result {
		return execute(s, simrt.Config{Seed: seed, Plan: plan, Env: env, Sched: append([]simrt.Decision(nil), sched...)})
	}
	best := run(r.Plan, r.Env, r.Sched)
	if best.V == nil || best.V.Class != class {
		rp := replayOf(s, seed, r)
		rp.Message += "\n(the recorded execution did not reproduce it in this process)"
		rp.Original = orig
		return rp
	}
	plan, env, sched := trim(r.Plan), trim(r.Env), r.Sched
	try := func(p, e []uint32, sc []simrt.Decision) bool {
		if time.Now().After(deadline) {
			return false
		}
		x := run(p, e, sc)
		if x.V != nil && x.V.Class == class {
			best = x
			plan, env, sched = p, e, sc
			return true
		}
		return false
	}
	for round := 0; round < 4; round++ {
		size := cost(plan) + cost(env) + len(sched)
		// schedule
		for n := 1; n <= len(sched)*2 && len(sched) > 0 && time.Now().Before(deadline); {
			chunk := (len(sched) + n - 1) / n
			removed := false
			for i := 0; i < len(sched); {
				j := i + chunk
				if j > len(sched) {
					j = len(sched)
				}
				c := append(append([]simrt.Decision(nil), sched[:i]...), sched[j:]...)
				if try(plan, env, c) {
					removed = true
				} else {
					i = j
				}
			}
			if !removed || chunk > len(sched) {
				n *= 2
			}
			if chunk == 1 && !removed {
				break
			}
		}
		shrinkStream := func(get func() []uint32, set func([]uint32) bool) {
			// cut the tail, zero blocks, then lower single values
			for k := len(get()) / 2; k >= 1; k /= 2 {
				for len(get()) > k && set(append([]uint32(nil), get()[:len(get())-k]...)) {
				}
			}
			for size := 32; size >= 1; size /= 4 {
				for i := 0; i < len(get()) && time.Now().Before(deadline); i += size {
					j := i + size
					if j > len(get()) {
						j = len(get())
					}
					c := append([]uint32(nil), get()...)
					nz := false
					for k := i; k < j; k++ {
						if c[k] != 0 {
							nz = true
						}
						c[k] = 0
					}
					if nz {
						set(c)
					}
				}
			}
			for i := 0; i < len(get()) && time.Now().Before(deadline); i++ {
				for get()[i] > 1 {
					c := append([]uint32(nil), get()...)
					c[i] /= 2
					if !set(c) {
						break
					}
					if i >= len(get()) {
						break
					}
				}
			}
		}
		shrinkStream(func() []uint32 { return plan }, func(c []uint32) bool { return try(c, env, sched) })
		shrinkStream(func() []uint32 { return env }, func(c []uint32) bool { return try(plan, c, sched) })
		plan, env = trim(plan), trim(env)
		if cost(plan)+cost(env)+len(sched) >= size || time.Now().After(deadline) {
			break
		}
	}
	// keep only the decisions that were taken
	final := execute(s, simrt.Config{Seed: seed, Plan: plan, Env: env, Sched: append([]simrt.Decision(nil), sched...), Log: !simrt.RaceMode})
	if final.V == nil || final.V.Class != class {
		final = best
	}
	rp := replayOf(s, seed, final)
	rp.Plan, rp.Env, rp.Sched = plan, env, sched
	rp.Minimised = true
	rp.Original = orig
	rp.Trace = final.Log
	if len(rp.Trace) > 4000 {
		rp.Trace = append(append([]string{}, rp.Trace[:2000]...), rp.Trace[len(rp.Trace)-2000:]...)
	}
	return rp
}

func trim(a []uint32) []uint32 {
	n := len(a)
	for n > 0 && a[n-1] == 0 {
		n--
	}
	return append([]uint32(nil), a[:n]...)
}

func cost(a []uint32) int {
	n := len(a)
	for _, v := range a {
		if v != 0 {
			n += 2
		}
	}
	return n
}

func doReplay(path, out string) {
	js, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, "simrun:", err)
		os.Exit(2)
	}
	var rp Replay
	if err := json.Unmarshal(js, &rp); err != nil {
		fmt.Fprintln(os.Stderr, "simrun:", err)
		os.Exit(2)
	}
	s := scenarios[rp.Scenario]
	if s == nil {
		fmt.Fprintf(os.Stderr, "simrun: no scenario %q\n", rp.Scenario)
		os.Exit(2)
	}
	r := execute(s, simrt.Config{Seed: rp.Seed, Plan: rp.Plan, Env: rp.Env, Sched: append([]simrt.Decision(nil), rp.Sched...), Log: !simrt.RaceMode})
	res := map[string]interface{}{"reproduced": r.V != nil && r.V.Class == rp.Class, "class": "", "message": "",
		"log_hash": fmt.Sprintf("%016x", r.LogHash), "same_hash": fmt.Sprintf("%016x", r.LogHash) == rp.LogHash}
	if r.V != nil {
		res["class"], res["message"] = r.V.Class, r.V.Msg
	}
	if out == "" {
		for _, l := range r.Log {
			fmt.Println(l)
		}
	}
	emit(out, res)
	if r.V == nil {
		os.Exit(4)
	}
}

func sortedNames() []string {
	var out []string
	for k := range scenarios {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
