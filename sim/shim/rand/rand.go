// Package rand replaces math/rand inside the simulator: one seeded stream per run.
package rand

import "verif/simrt"

func u() uint64 { return simrt.AuxU64() }

func Int() int         { return int(u() >> 1) }
func Int31() int32     { return int32(u() >> 33) }
func Int63() int64     { return int64(u() >> 1) }
func Uint32() uint32   { return uint32(u() >> 32) }
func Uint64() uint64   { return u() }
func Float64() float64 { return float64(u()>>11) / (1 << 53) }
func Float32() float32 { return float32(u()>>40) / (1 << 24) }
func Intn(n int) int {
	if n <= 0 {
		panic("invalid argument to Intn")
	}
	return int(u() % uint64(n))
}
func Int31n(n int32) int32 { return int32(Intn(int(n))) }
func Int63n(n int64) int64 { return int64(Intn(int(n))) }
func Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	Shuffle(n, func(i, j int) { p[i], p[j] = p[j], p[i] })
	return p
}
func Shuffle(n int, swap func(i, j int)) {
	for i := n - 1; i > 0; i-- {
		swap(i, Intn(i+1))
	}
}
func Read(p []byte) (int, error) {
	for i := range p {
		p[i] = byte(u() >> 56)
	}
	return len(p), nil
}
func Seed(int64) {}

type Source interface {
	Int63() int64
	Seed(int64)
}
type src struct{}

func (src) Int63() int64     { return Int63() }
func (src) Seed(int64)       {}
func NewSource(int64) Source { return src{} }

type Rand struct{}

func New(Source) *Rand                           { return &Rand{} }
func (*Rand) Int() int                           { return Int() }
func (*Rand) Intn(n int) int                     { return Intn(n) }
func (*Rand) Int31n(n int32) int32               { return Int31n(n) }
func (*Rand) Int63n(n int64) int64               { return Int63n(n) }
func (*Rand) Int63() int64                       { return Int63() }
func (*Rand) Uint32() uint32                     { return Uint32() }
func (*Rand) Uint64() uint64                     { return Uint64() }
func (*Rand) Float64() float64                   { return Float64() }
func (*Rand) Perm(n int) []int                   { return Perm(n) }
func (*Rand) Shuffle(n int, swap func(i, j int)) { Shuffle(n, swap) }
func (*Rand) Read(p []byte) (int, error)         { return Read(p) }
