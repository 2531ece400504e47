package simrt

// Faults and probes are counted per run; names are registered by the harness.
const (
	nFaultMax = 48
	nProbeMax = 128
)

const (
	ProbeEarlyTimer = 0
)

var (
	FaultNames [nFaultMax]string
	ProbeNames [nProbeMax]string
)

func init() { ProbeNames[0] = "timer fired while goroutines were runnable" }

// Fault counts an injected fault of kind i.
func Fault(i int) {
	if active && !killing && !ending {
		res.Faults[i]++
		mixL(uint64(i) | 1<<41)
		if cfg.Log {
			logf("g%d FAULT %s", cg.id, FaultNames[i])
		}
	}
}

func probe(i int) {
	res.Probes[i]++
}

// Probe counts that a rare condition was reached.
func Probe(i int) {
	if active && !killing && !ending {
		res.Probes[i]++
	}
}

// Event sequence numbers: a total order of harness-visible events.
var eseq uint64

func resetRec() { eseq = 0 }

// Seq returns the next event sequence number and folds v into the log hash.
func Seq(v uint64) uint64 {
	eseq++
	mixL(v ^ eseq<<32)
	return eseq
}

// Event records a harness-visible event in the log and returns its number.
//
//go:noinline
func Event(format string, args ...interface{}) uint64 {
	eseq++
	h := uint64(14695981039346656037)
	for i := 0; i < len(format); i++ {
		h = (h ^ uint64(format[i])) * fnvPrime
	}
	mixL(h ^ eseq<<32)
	if cfg.Log && active && !killing && !ending {
		logf("g%d #%d "+format, append([]interface{}{cg.id, eseq}, args...)...)
	}
	return eseq
}

// MixLog folds a value into the log hash.
func MixLog(v uint64) { mixL(v) }

// randomness for the code under test
const (
	RandNormal = iota
	RandZero
	RandMax
	RandAlt
)

var (
	randR    *Rng
	RandMode int
	CryptoOK bool
	randN    uint64
)

func resetRand() {
	randR = NewRng(cfg.Seed*7 + 5)
	RandMode = RandNormal
	CryptoOK = true
	randN = 0
}

// Rand64 is the code under test's source of randomness.
//
//go:noinline
func Rand64() uint64 {
	randN++
	switch RandMode {
	case RandZero:
		return 0
	case RandMax:
		return ^uint64(0)
	case RandAlt:
		if randN&1 == 0 {
			return 0
		}
		return ^uint64(0)
	}
	if randR == nil {
		return 42
	}
	return randR.Uint64()
}
