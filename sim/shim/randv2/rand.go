// Package rand replaces math/rand/v2 inside the simulator.
package rand

import "verif/simrt"

func u() uint64 { return simrt.AuxU64() }

func Int() int         { return int(u() >> 1) }
func Int64() int64     { return int64(u() >> 1) }
func Uint32() uint32   { return uint32(u() >> 32) }
func Uint64() uint64   { return u() }
func Float64() float64 { return float64(u()>>11) / (1 << 53) }
func IntN(n int) int {
	if n <= 0 {
		panic("invalid argument to IntN")
	}
	return int(u() % uint64(n))
}
func Int64N(n int64) int64    { return int64(IntN(int(n))) }
func Int32N(n int32) int32    { return int32(IntN(int(n))) }
func Uint32N(n uint32) uint32 { return uint32(u() % uint64(n)) }
func Uint64N(n uint64) uint64 { return u() % n }
func N[T ~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64](n T) T {
	return T(u() % uint64(n))
}
func Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	Shuffle(n, func(i, j int) { p[i], p[j] = p[j], p[i] })
	return p
}
func Shuffle(n int, swap func(i, j int)) {
	for i := n - 1; i > 0; i-- {
		swap(i, IntN(i+1))
	}
}
