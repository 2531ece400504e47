package main

// replaced by the build with calls of every instrumented package's ZsimReset
func resetPackages() { panic("resets_gen.go was not generated") }
