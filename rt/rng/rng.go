// Package rng is the simulator's only source of randomness: xoshiro256**
// seeded by splitmix64. One integer decides everything.
package rng

import "math"

type R struct{ s [4]uint64 }

func mix(x *uint64) uint64 {
	*x += 0x9e3779b97f4a7c15
	z := *x
	z = (z ^ z>>30) * 0xbf58476d1ce4e5b9
	z = (z ^ z>>27) * 0x94d049bb133111eb
	return z ^ z>>31
}

func New(seed uint64) *R {
	r := &R{}
	for i := range r.s {
		r.s[i] = mix(&seed)
	}
	return r
}

// Derive combines integers into a new seed.
func Derive(seed uint64, more ...uint64) uint64 {
	x := seed
	h := mix(&x)
	for _, m := range more {
		x ^= m * 0x9fb21c651e98df25
		h ^= mix(&x)
		x += h
	}
	return h
}

func rotl(x uint64, k uint) uint64 { return x<<k | x>>(64-k) }

//go:norace
func (r *R) U64() uint64 {
	s := &r.s
	res := rotl(s[1]*5, 7) * 9
	t := s[1] << 17
	s[2] ^= s[0]
	s[3] ^= s[1]
	s[1] ^= s[2]
	s[0] ^= s[3]
	s[2] ^= t
	s[3] = rotl(s[3], 45)
	return res
}

// Intn returns a number in [0,n).
//
//go:norace
func (r *R) Intn(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.U64() % uint64(n))
}

// Range returns a number in [lo,hi].
func (r *R) Range(lo, hi int) int { return lo + r.Intn(hi-lo+1) }

func (r *R) Float() float64 { return float64(r.U64()>>11) / (1 << 53) }

func (r *R) P(p float64) bool { return r.Float() < p }

// Geo draws a geometric-ish gap with the given mean (at least 1).
func (r *R) Geo(mean float64) int64 {
	u := r.Float()
	g := int64(-mean * math.Log(1-u))
	if g < 1 {
		g = 1
	}
	return g
}

func (r *R) Norm() float64 {
	s := 0.0
	for i := 0; i < 12; i++ {
		s += r.Float()
	}
	return s - 6
}

// Weighted picks an index with probability proportional to its weight.
func (r *R) Weighted(w []float64) int {
	sum := 0.0
	for _, x := range w {
		sum += x
	}
	u := r.Float() * sum
	for i, x := range w {
		if u < x {
			return i
		}
		u -= x
	}
	for i := len(w) - 1; i >= 0; i-- {
		if w[i] > 0 {
			return i
		}
	}
	return 0
}
