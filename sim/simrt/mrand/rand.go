// Package rand is the simulated stand-in for math/rand: the global functions
// draw from the run's seed; explicit sources stay real.
package rand

import (
	std "math/rand"
	"simrt"
)

func Uint64() uint64 { return simrt.Rand64() }
func Uint32() uint32 { return uint32(simrt.Rand64() >> 32) }
func Int63() int64   { return int64(simrt.Rand64() >> 1) }
func Int31() int32   { return int32(simrt.Rand64() >> 33) }
func Int() int       { return int(simrt.Rand64() >> 1) }
func Int63n(n int64) int64 {
	if n <= 0 {
		panic("invalid argument to Int63n")
	}
	return Int63() % n
}
func Int31n(n int32) int32 {
	if n <= 0 {
		panic("invalid argument to Int31n")
	}
	return int32(Int63() % int64(n))
}
func Intn(n int) int {
	if n <= 0 {
		panic("invalid argument to Intn")
	}
	return int(Int63() % int64(n))
}
func Float64() float64 { return float64(simrt.Rand64()>>11) / (1 << 53) }
func Float32() float32 { return float32(simrt.Rand64()>>40) / (1 << 24) }
func Perm(n int) []int {
	m := make([]int, n)
	for i := 0; i < n; i++ {
		j := Intn(i + 1)
		m[i] = m[j]
		m[j] = i
	}
	return m
}
func Shuffle(n int, swap func(i, j int)) {
	for i := n - 1; i > 0; i-- {
		swap(i, Intn(i+1))
	}
}
func NormFloat64() float64 { return Float64()*2 - 1 }
func ExpFloat64() float64  { return Float64() }
func Seed(seed int64)      {}
func Read(p []byte) (n int, err error) {
	for i := range p {
		p[i] = byte(simrt.Rand64() >> 56)
	}
	return len(p), nil
}

var _ std.Source
