// Package runtime is the simulated stand-in for the standard package.
package runtime

import (
	std "runtime"
	"simrt"
)

func Gosched() { simrt.Gosched() }

func NumGoroutine() int {
	simrt.YS()
	return simrt.NumGoroutine()
}

func GC() {}

// SimMemStats fills the memory statistics; set by the harness.
var SimMemStats func(*MemStats)

func ReadMemStats(m *MemStats) {
	simrt.YS()
	*m = MemStats{}
	if SimMemStats != nil {
		SimMemStats(m)
	}
}

var _ = std.Gosched
