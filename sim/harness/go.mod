module harness

go 1.24

require (
	github.com/spacemonkeygo/monkit/v3 v3.0.0
	simrt v0.0.0
)

// both are replaced by the build: the first by the instrumented copy of /repo
replace github.com/spacemonkeygo/monkit/v3 => ../../.build/monkit

replace simrt => ../simrt
