// Package rand is the simulated stand-in for math/rand/v2.
package rand

import "simrt"

func Uint64() uint64 { return simrt.Rand64() }
func Uint32() uint32 { return uint32(simrt.Rand64() >> 32) }
func Uint() uint     { return uint(simrt.Rand64()) }
func Int64() int64   { return int64(simrt.Rand64() >> 1) }
func Int32() int32   { return int32(simrt.Rand64() >> 33) }
func Int() int       { return int(simrt.Rand64() >> 1) }
func pos(ok bool) {
	if !ok {
		panic("invalid argument")
	}
}
func Int64N(n int64) int64    { pos(n > 0); return Int64() % n }
func Uint64N(n uint64) uint64 { pos(n > 0); return Uint64() % n }
func Int32N(n int32) int32    { pos(n > 0); return int32(Int64() % int64(n)) }
func Uint32N(n uint32) uint32 { pos(n > 0); return uint32(Uint64() % uint64(n)) }
func IntN(n int) int          { pos(n > 0); return int(Int64() % int64(n)) }
func UintN(n uint) uint       { pos(n > 0); return uint(Uint64() % uint64(n)) }
func Float64() float64        { return float64(simrt.Rand64()>>11) / (1 << 53) }
func Float32() float32        { return float32(simrt.Rand64()>>40) / (1 << 24) }
func NormFloat64() float64    { return Float64()*2 - 1 }
func ExpFloat64() float64     { return Float64() }
func Perm(n int) []int {
	m := make([]int, n)
	for i := 0; i < n; i++ {
		j := IntN(i + 1)
		m[i] = m[j]
		m[j] = i
	}
	return m
}
func Shuffle(n int, swap func(i, j int)) {
	for i := n - 1; i > 0; i-- {
		swap(i, IntN(i+1))
	}
}
func N[I interface {
	~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr
}](n I) I {
	return I(Uint64N(uint64(n)))
}
