package main

// Rng is the only source of randomness in a simulated run (splitmix64).
type Rng struct{ s uint64 }

func NewRng(seed uint64) *Rng { return &Rng{s: seed} }

func mix64(z uint64) uint64 {
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func (r *Rng) U64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	return mix64(r.s)
}

// N returns a value in [0,n).
func (r *Rng) N(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.U64() % uint64(n))
}

func (r *Rng) N64(n int64) int64 {
	if n <= 0 {
		return 0
	}
	return int64(r.U64() % uint64(n))
}

// P is true with probability pct/100.
func (r *Rng) P(pct int) bool { return r.N(100) < pct }

func (r *Rng) Range(a, b int) int { return a + r.N(b-a+1) }

func pick[T any](r *Rng, xs ...T) T { return xs[r.N(len(xs))] }

func hashSeed(parts ...uint64) uint64 {
	h := uint64(0xcbf29ce484222325)
	for _, p := range parts {
		h = mix64(h ^ p + 0x9e3779b97f4a7c15)
	}
	return h
}

func strSeed(s string) uint64 {
	h := uint64(0xcbf29ce484222325)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 0x100000001b3
	}
	return h
}

// filler produces n reproducible bytes.
func filler(seed uint64, n int) []byte {
	out := make([]byte, n)
	r := NewRng(seed)
	i := 0
	for ; i+8 <= n; i += 8 {
		v := r.U64()
		out[i], out[i+1], out[i+2], out[i+3] = byte(v), byte(v>>8), byte(v>>16), byte(v>>24)
		out[i+4], out[i+5], out[i+6], out[i+7] = byte(v>>32), byte(v>>40), byte(v>>48), byte(v>>56)
	}
	for ; i < n; i++ {
		out[i] = byte(r.U64())
	}
	return out
}
