package simrt

// RNG is a small deterministic generator (splitmix64); independent of the Go release.
type RNG struct{ s uint64 }

func NewRNG(seed uint64) *RNG { return &RNG{s: seed*0x9E3779B97F4A7C15 + 0xD1B54A32D192ED03} }

func (r *RNG) U64() uint64 {
	r.s += 0x9E3779B97F4A7C15
	z := r.s
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}

// N returns a value in [0,n).
func (r *RNG) N(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.U64() % uint64(n))
}

// Range returns a value in [a,b].
func (r *RNG) Range(a, b int) int { return a + r.N(b-a+1) }

func (r *RNG) F() float64 { return float64(r.U64()>>11) / (1 << 53) }

func (r *RNG) P(p float64) bool { return r.F() < p }

// Pick returns one of the values.
func Pick[T any](r *RNG, v ...T) T { return v[r.N(len(v))] }
