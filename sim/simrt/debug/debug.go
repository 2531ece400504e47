// Package debug is the simulated stand-in for runtime/debug.
package debug

import (
	std "runtime/debug"
	"simrt"
)

// SimGCStats fills the collector statistics; set by the harness.
var SimGCStats func(*GCStats)

func ReadGCStats(s *GCStats) {
	simrt.YS()
	*s = GCStats{}
	if SimGCStats != nil {
		SimGCStats(s)
	}
}

func FreeOSMemory() {}

var _ = std.Stack
