// Package syscall is the simulated stand-in for the standard package.
package syscall

import (
	"simrt"
	std "syscall"
)

// SimGetrusage is the simulated system call; set by the harness.
var SimGetrusage func(who int, ru *Rusage) error

func Getrusage(who int, ru *Rusage) error {
	if SimGetrusage == nil {
		return std.Getrusage(who, ru)
	}
	simrt.YS()
	return SimGetrusage(who, ru)
}
