package mon

import "hash/fnv"

// Rng is a small deterministic generator (splitmix64); every random choice of
// a case derives from (VERIF_SEED, property, group, case index).
type Rng struct{ s uint64 }

func NewRng(seed uint64, parts ...string) *Rng {
	h := fnv.New64a()
	for _, p := range parts {
		h.Write([]byte(p))
		h.Write([]byte{0})
	}
	r := &Rng{s: seed*0x9E3779B97F4A7C15 ^ h.Sum64()}
	r.U64()
	r.U64()
	return r
}

func (r *Rng) U64() uint64 {
	r.s += 0x9E3779B97F4A7C15
	z := r.s
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}

// N returns a value in [0, n).
func (r *Rng) N(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.U64() % uint64(n))
}

// In returns a value in [lo, hi].
func (r *Rng) In(lo, hi int) int { return lo + r.N(hi-lo+1) }

// P is true with probability num/den.
func (r *Rng) P(num, den int) bool { return r.N(den) < num }

func (r *Rng) Bool() bool { return r.U64()&1 == 1 }

// Pick returns one of the ints.
func (r *Rng) Pick(xs ...int) int { return xs[r.N(len(xs))] }

// PickS returns one of the strings.
func (r *Rng) PickS(xs ...string) string { return xs[r.N(len(xs))] }
