package main

import (
	"errors"
	"fmt"
	"hash/crc32"
	"io"
	"math"
	"os"
	"path/filepath"
	"strings"
	"time"

	"simrt"
	simdebug "simrt/debug"
	simos "simrt/os"
	simruntime "simrt/runtime"
	simsyscall "simrt/syscall"

	"github.com/spacemonkeygo/monkit/v3"
	"github.com/spacemonkeygo/monkit/v3/environment"
)

func init() { register(&Scenario{ID: "P17", Body: p17}) }

var (
	prEnvFail    = probe("a source failed during a collection")
	prEnvRecover = probe("a source failed in one collection and was reported in a later one")
	prEnvConc    = probe("environment collections at the same time")
	prEnvGC      = probe("several garbage collections between two collections")
	prEnvCRC     = probe("executable checksum reported")
	prEnvCRCFail = probe("executable checksum could not be computed")
)

var errOS = errors.New("input/output error")

const (
	osStat = iota
	osStatm
	osFds
	osExe
	osRusage
	osSources
)

var osNames = [osSources]string{"proc_stat", "proc_statm", "fds", "crc", "rusage"}
var osPaths = [osSources]string{"/proc/self/stat", "/proc/self/statm", "/proc/self/fd", "/proc/self/exe", ""}

// attempt is one reading of a source.
type attempt struct {
	src    int
	s0, s1 uint64
	ok     bool // everything was delivered
	want   map[string]float64
}

// simOS is the simulated operating system.
type simOS struct {
	mode     [osSources]int
	reads    []*attempt
	open     int
	version  int
	comm     string
	exe      []byte
	exeOpens int
	fds      int
	pauses   []time.Duration // most recent first
	numGC    int64
	gcSeq    []uint64
	gcRead   bool
	gcLost   int64 // pauses forgotten before anyone asked
	alloc    uint64
}

var statFields = strings.Fields("Pid Comm State Ppid Pgrp Session TtyNr Tpgid Flags Minflt Cminflt Majflt Cmajflt Utime Stime Cutime Cstime Priority Nice NumThreads Itrealvalue Starttime Vsize Rss Rsslim Startcode Endcode Startstack Kstkesp Kstkeip Signal Blocked Sigignore Sigcatch Wchan Nswap Cnswap ExitSignal Processor RtPriority Policy DelayAcctBlkioTicks GuestTime CguestTime")
var statmFields = strings.Fields("Size Resident Share Text Lib Data Dt")

func (o *simOS) content(src int) ([]byte, map[string]float64, []int) {
	o.version++
	want := map[string]float64{}
	var b strings.Builder
	var ends []int // where each field ends
	num := func(i int) int64 { return int64(o.version*1000 + i) }
	switch src {
	case osStat:
		for i, f := range statFields {
			switch f {
			case "Comm":
				fmt.Fprintf(&b, "(%s) ", o.comm)
			case "State":
				b.WriteString("S ")
				want[f] = 'S'
			case "Tpgid":
				b.WriteString("-1 ")
				want[f] = -1
			case "Rsslim":
				b.WriteString("18446744073709551615 ")
				want[f] = 18446744073709551615
			default:
				fmt.Fprintf(&b, "%d ", num(i))
				want[f] = float64(num(i))
			}
			ends = append(ends, b.Len()-1)
		}
		b.WriteString("1 2 3 4 5 6 7 0\n")
	case osStatm:
		for i, f := range statmFields {
			if i > 0 {
				b.WriteString(" ")
			}
			fmt.Fprintf(&b, "%d", num(i))
			want[f] = float64(num(i))
			ends = append(ends, b.Len())
		}
		b.WriteString("\n")
	case osExe:
		b.Write(o.exe)
		want["crc"] = float64(crc32.ChecksumIEEE(o.exe))
		ends = append(ends, b.Len())
	}
	return []byte(b.String()), want, ends
}

// fault modes of a source
const (
	omFine   = iota
	omOpen   // cannot be opened
	omRead   // the first read fails
	omLate   // a later read fails
	omTorn   // ends early
	omShort  // fine, but in small pieces
	omData   // the last piece comes together with an error
	omClosed // fine, but closing fails
	omModes
)

var fdNames []string

// handle is an open file.
type handle struct {
	o      *simOS
	a      *attempt
	data   []byte
	names  []string
	mode   int
	pos    int
	dir    bool
	closed bool
	n      int
}

func (o *simOS) Open(name string) (simos.Handle, error) {
	src := -1
	name = filepath.Clean(name)
	if rest, ok := strings.CutPrefix(name, fmt.Sprintf("/proc/%d/", os.Getpid())); ok {
		name = "/proc/self/" + rest
	}
	for i, p := range osPaths {
		if p == name {
			src = i
		}
	}
	if src < 0 {
		return nil, errOS
	}
	a := &attempt{src: src, s0: seq()}
	o.reads = append(o.reads, a)
	if src == osExe {
		o.exeOpens++
		if o.exeOpens > 1 {
			fail("checksum-again", "the executable is read a second time")
		}
	}
	m := o.mode[src]
	if m == omOpen {
		simrt.Fault(FOpenErr)
		a.s1 = seq()
		return nil, errOS
	}
	h := &handle{o: o, a: a, mode: m, dir: src == osFds}
	if h.dir {
		for len(fdNames) < o.fds {
			fdNames = append(fdNames, fmt.Sprint(len(fdNames)))
		}
		h.names = fdNames[:o.fds]
		a.want = map[string]float64{"count": float64(o.fds)}
	} else {
		var ends []int
		h.data, a.want, ends = o.content(src)
		if m == omTorn && src != osExe {
			// cut off inside or before some field but the last
			e := ends[env(len(ends)-1)]
			h.data = h.data[:e-env(2)]
		}
	}
	o.open++
	return h, nil
}

func (h *handle) fault() (bad bool, err error) {
	h.n++
	switch h.mode {
	case omRead:
		simrt.Fault(FReadErr)
		return true, errOS
	case omLate:
		if h.n > 1 {
			simrt.Fault(FReadErr)
			return true, errOS
		}
	}
	return false, nil
}

func (h *handle) Read(p []byte) (int, error) {
	if h.closed || h.dir {
		return 0, errOS
	}
	if bad, err := h.fault(); bad {
		h.a.s1 = seq()
		return 0, err
	}
	n := len(h.data) - h.pos
	if n > len(p) {
		n = len(p)
	}
	if (h.mode == omShort || h.mode == omLate || h.mode == omData) && n > 1 {
		n = 1 + env(n)
	}
	copy(p, h.data[h.pos:h.pos+n])
	h.pos += n
	if h.mode == omData && h.pos > len(h.data)/2 {
		simrt.Fault(FReadErr)
		h.a.s1 = seq()
		return n, errOS
	}
	if n == 0 {
		h.a.s1 = seq()
		h.a.ok = h.mode != omTorn || h.a.src == osExe
		if !h.a.ok {
			simrt.Fault(FTornRead)
		}
		return 0, io.EOF
	}
	return n, nil
}

func (h *handle) Readdirnames(n int) ([]string, error) {
	if h.closed || !h.dir {
		return nil, errOS
	}
	if bad, err := h.fault(); bad {
		simrt.Fault(FDirErr)
		h.a.s1 = seq()
		return nil, err
	}
	k := len(h.names) - h.pos
	if n > 0 && k > n {
		k = n
	}
	if h.mode != omFine && n > 0 && k > 1 {
		k = 1 + env(k)
	}
	out := h.names[h.pos : h.pos+k]
	h.pos += k
	if (h.mode == omData || h.mode == omTorn) && h.pos > len(h.names)/2 {
		simrt.Fault(FDirErr)
		h.a.s1 = seq()
		return out, errOS
	}
	if k == 0 && n > 0 {
		h.a.s1, h.a.ok = seq(), true
		return nil, io.EOF
	}
	if n <= 0 {
		h.a.s1, h.a.ok = seq(), true
	}
	return out, nil
}

func (h *handle) Close() error {
	if h.closed {
		return errOS
	}
	h.closed = true
	h.o.open--
	if h.a.s1 == 0 {
		h.a.s1 = seq()
	}
	if h.mode == omClosed {
		return errOS
	}
	return nil
}

// put stores into a field whose width depends on the architecture.
func put[T int32 | int64](p *T, v int) { *p = T(v) }

func (o *simOS) Getrusage(who int, ru *simsyscall.Rusage) error {
	a := &attempt{src: osRusage, s0: seq()}
	o.reads = append(o.reads, a)
	o.version++
	*ru = simsyscall.Rusage{}
	put(&ru.Maxrss, o.version*1000)
	put(&ru.Utime.Sec, o.version)
	put(&ru.Utime.Usec, o.version+1)
	put(&ru.Nivcsw, o.version+7)
	a.s1 = seq()
	if m := o.mode[osRusage]; m >= omOpen && m <= omTorn {
		simrt.Fault(FSyscallErr)
		return errOS
	}
	a.ok = true
	a.want = map[string]float64{"Maxrss": float64(ru.Maxrss), "Utime.Sec": float64(o.version), "Utime.Usec": float64(o.version + 1), "Nivcsw": float64(o.version + 7), "Minflt": 0, "Stime.Sec": 0}
	return nil
}

func (o *simOS) gc() {
	o.numGC++
	o.gcSeq = append(o.gcSeq, seq())
	p := time.Duration(1000 + len(o.gcSeq)*7)
	o.pauses = append([]time.Duration{p}, o.pauses...)
}

func (o *simOS) GCStats(s *simdebug.GCStats) {
	k := len(o.pauses)
	if !o.gcRead {
		o.gcRead = true
		if k > 256 {
			o.gcLost = int64(k - 256)
		}
	}
	if k > 256 {
		k = 256
	}
	s.NumGC = o.numGC
	s.Pause = append(s.Pause[:0], o.pauses[:k]...)
	s.PauseEnd = make([]time.Time, k)
	for _, p := range o.pauses {
		s.PauseTotal += p
	}
}

type envColl struct {
	s0, s1 uint64
	vals   map[string]map[string]float64
	dup    string
	g0, g1 int64
}

func p17() {
	o := &simOS{comm: []string{"prog", "my prog", "a) S 1 (b", ")", "", "x 1 2 3"}[plan(6)], fds: plan(40)}
	for k := plan(5); k > 0; k-- {
		o.exe = append(o.exe, make([]byte, between(1, 20000))...)
	}
	for i := range o.exe {
		o.exe[i] = byte(i * 7)
	}
	for i := plan(4); i > 0; i-- {
		o.gc()
	}
	if pchance(10) {
		for i := between(100, 600); i > 0; i-- {
			o.gc()
		}
	}
	burst := 0
	if pchance(6) {
		burst = between(1, 200)
	}
	if pchance(6) {
		o.fds = []int{4095, 4096, 4097, 5000, 9000, 20000}[plan(6)]
	}
	for i := range o.mode {
		if plan(3) == 2 {
			o.mode[i] = plan(omModes)
		}
	}
	simos.SimOpen = o.Open
	simsyscall.SimGetrusage = o.Getrusage
	simdebug.SimGCStats = o.GCStats
	simruntime.SimMemStats = func(m *simruntime.MemStats) { m.Alloc = 77; m.NumGC = uint32(o.numGC) }

	regs := []*monkit.Registry{monkit.NewRegistry()}
	environment.Register(regs[0])
	if plan(2) == 1 {
		regs = append(regs, monkit.NewRegistry())
		environment.Register(regs[1])
	}
	var g group
	var colls []*envColl
	collect := func(r *monkit.Registry) {
		c := &envColl{vals: map[string]map[string]float64{}, s0: seq(), g0: o.numGC}
		colls = append(colls, c)
		r.Stats(func(k monkit.SeriesKey, f string, v float64) {
			simrt.Y()
			m := c.vals[k.Measurement]
			if m == nil {
				m = map[string]float64{}
				c.vals[k.Measurement] = m
			}
			if _, ok := m[f]; ok {
				c.dup = k.Measurement + " " + f
			}
			m[f] = v
		})
		c.s1, c.g1 = seq(), o.numGC
	}
	for w := between(1, 3); w > 0; w-- {
		n := between(1, 4)
		r := regs[plan(len(regs))]
		g.Go(fmt.Sprintf("collector %d", w), func() {
			for i := 0; i < n; i++ {
				collect(r)
				nap(1000)
			}
		})
	}
	if n := plan(8); n > 0 {
		g.Go("operating system", func() {
			for i := 0; i < n; i++ {
				nap(1500)
				pause(env(50))
				switch env(3) {
				case 0:
					o.mode[env(osSources)] = omFine
				case 1:
					o.mode[env(osSources)] = env(omModes)
				case 2:
					for k := 1 + env(4) + burst; k > 0; k-- {
						o.gc()
					}
					burst = 0
				}
			}
		})
	}
	g.Wait()
	for i := range o.mode {
		o.mode[i] = omFine
	}
	for _, r := range regs {
		collect(r) // everything has recovered
	}
	if o.open != 0 {
		fail("handle-leak", "%d file handles are still open after all collections returned", o.open)
	}
	o.check(colls)
}

func (o *simOS) check(colls []*envColl) {
	failed := [osSources]bool{}
	var crc float64
	var exe *attempt
	for _, a := range o.reads {
		if a.src == osExe {
			exe = a
		}
	}
	if exe != nil && exe.ok {
		crc = exe.want["crc"]
		hit(prEnvCRC)
	} else {
		hit(prEnvCRCFail)
	}
	for i, c := range colls {
		for _, b := range colls[:i] {
			if b.s0 < c.s1 && c.s0 < b.s1 {
				hit(prEnvConc)
			}
		}
		if c.dup != "" {
			fail("reported-twice", "one collection reports %s twice", c.dup)
		}
		for src := 0; src < osSources; src++ {
			if src == osExe {
				v, ok := c.vals["process"]["crc"]
				if ok != (exe != nil && exe.ok) || ok && v != crc {
					fail("checksum", "the checksum %v was reported (%v); reading the executable succeeded: %v, its checksum is %v", v, ok, exe != nil && exe.ok, crc)
				}
				continue
			}
			got := c.vals[osNames[src]]
			anyOK, anyBad := false, false
			match := false
			for _, a := range o.reads {
				if a.src != src || a.s0 < c.s0 || a.s0 > c.s1 {
					continue
				}
				anyOK = anyOK || a.ok
				anyBad = anyBad || !a.ok
				if a.ok && got != nil {
					same := src == osRusage || len(a.want) == len(got)
					for f, v := range a.want {
						x, has := got[f]
						same = same && has && x == v
					}
					match = match || same
				}
			}
			switch {
			case got != nil && !anyOK:
				fail("failed-source", "%s was reported as %v although reading it failed", osNames[src], got)
			case got != nil && !match:
				fail("wrong-value", "%s was reported as %v, which is not what was read", osNames[src], got)
			case got == nil && !anyBad:
				fail("missing-source", "%s is not reported although reading it did not fail", osNames[src])
			}
			if got == nil {
				failed[src] = true
				hit(prEnvFail)
			} else if failed[src] {
				hit(prEnvRecover)
			}
		}
		p := c.vals["process"]
		if p["control"] != 1 {
			fail("missing-source", "the process control value is %v", p["control"])
		}
		if u, ok := p["uptime"]; !ok || u < 0 || math.IsNaN(u) {
			fail("missing-source", "the process uptime is %v (%v)", u, ok)
		}
		if n, ok := c.vals["goroutines"]["count"]; !ok || n < 1 {
			fail("missing-source", "the number of goroutines is %v (%v)", n, ok)
		}
		if n := c.vals["runtime_memstats"]["Alloc"]; n != 77 {
			fail("missing-source", "the allocated memory is %v", n)
		}
		n, ok := c.vals["runtime_gcstats"]["count"]
		if !ok {
			fail("missing-source", "garbage collection pauses are not reported")
		}
		if n > float64(c.g1-o.gcLost) || n < float64(c.g0-o.gcLost) {
			fail("gc-pauses", "a collection reports %v garbage collection pauses; there were %d when it began and %d when it ended, %d were forgotten", n, c.g0, c.g1, o.gcLost)
		}
		if c.g1 > c.g0+1 {
			hit(prEnvGC)
		}
		if c.g0 == c.g1 {
			var sum time.Duration
			for _, p := range o.pauses[len(o.pauses)-int(c.g0) : len(o.pauses)-int(o.gcLost)] {
				sum += p
			}
			if got := c.vals["runtime_gcstats"]["sum"]; !(math.Abs(got-sum.Seconds()) <= 1e-12+sum.Seconds()*1e-12) {
				fail("gc-pauses", "a collection reports garbage collection pauses of %v s altogether; there were %v", got, sum)
			}
		}
	}
}
