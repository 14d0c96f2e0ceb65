package main

import "github.com/lestrrat-go/helium/zzsim"

// Src is the source of every choice of a run: a seeded PRNG whose draws are
// recorded, or a recorded list of draws. Small values are simple cases, so a
// failing list is minimised by deleting and lowering its elements.
type Src struct {
	rnd     *zzsim.Rand
	replay  []uint64
	replayR bool
	pos     int
	Rec     []uint64
}

func NewSrc(seed uint64) *Src { return &Src{rnd: zzsim.NewRand(seed)} }

func ReplaySrc(c []uint64) *Src { return &Src{replay: c, replayR: true} }

// N draws from 0..n-1.
func (s *Src) N(n int) int {
	if n <= 1 {
		return 0
	}
	var v uint64
	if s.replayR {
		if s.pos < len(s.replay) {
			v = s.replay[s.pos] % uint64(n)
		}
		s.pos++
	} else {
		v = s.rnd.Uint64() % uint64(n)
	}
	s.Rec = append(s.Rec, v)
	return int(v)
}

// Chance is true in about pct of 100 cases; false is the simple case.
func (s *Src) Chance(pct int) bool { return s.N(100) >= 100-pct }

// Range draws from lo..hi.
func (s *Src) Range(lo, hi int) int {
	if hi <= lo {
		return lo
	}
	return lo + s.N(hi-lo+1)
}

// Seed draws a PRNG seed.
func (s *Src) Seed() uint64 { return uint64(s.N(1 << 30)) }

func (s *Src) Pick(l []string) string { return l[s.N(len(l))] }

func mix(parts ...uint64) uint64 {
	h := uint64(0x9E3779B97F4A7C15)
	for _, p := range parts {
		h ^= p
		h = (h ^ (h >> 30)) * 0xBF58476D1CE4E5B9
		h = (h ^ (h >> 27)) * 0x94D049BB133111EB
		h ^= h >> 31
	}
	return h
}

func strHash(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h
}
