// Package engine is the simulator: recorded choices, a coroutine scheduler, nodes
// with their own package state, clocks and entropy, a faulty network, the seeded
// search, minimisation and replay.
package engine

import (
	"encoding/binary"
	"math/rand/v2"
)

// Src is the only source of decisions in a run. While searching, decisions come
// from a generator seeded with the run's seed and are recorded; while replaying they
// come from the record. A decision of 0 is always the simplest one.
type Src struct {
	rng    *rand.PCG
	Rec    []uint64
	replay []uint64
	pos    int
	beyond int
	isRep  bool
	Sink   func(v uint64) // called with every decision, if set
}

// NewSrc makes a searching source.
func NewSrc(seed uint64) *Src {
	return &Src{rng: rand.NewPCG(seed, 0x9e3779b97f4a7c15)}
}

// ReplaySrc makes a source that repeats a record (and then yields zeros).
func ReplaySrc(rec []uint64) *Src { return &Src{replay: rec, isRep: true} }

// Draw returns a decision in [0, n); n == 0 means any 64 bit value.
func (s *Src) Draw(n uint64) uint64 {
	var v uint64
	if s.isRep {
		if s.pos < len(s.replay) {
			v = s.replay[s.pos]
			s.pos++
		} else if s.beyond++; s.beyond > 50000 {
			panic(stopRun{}) // zeros for ever: the scenario is not going to end
		}
		if n != 0 && v >= n {
			v %= n
		}
	} else {
		if n == 1 {
			v = 0
		} else {
			v = s.rng.Uint64()
			if n != 0 {
				v %= n
			}
		}
	}
	s.Rec = append(s.Rec, v)
	if s.Sink != nil {
		s.Sink(v)
	}
	return v
}

// Intn returns a decision in [0, n).
func (s *Src) Intn(n int) int {
	if n <= 1 {
		return 0
	}
	return int(s.Draw(uint64(n)))
}

// Range returns a decision in [lo, hi].
func (s *Src) Range(lo, hi int) int { return lo + s.Intn(hi-lo+1) }

// Bool is true with probability num/den.
func (s *Src) Bool(num, den int) bool {
	return s.Draw(uint64(den)) >= uint64(den-num)
}

// Seed returns an arbitrary 64 bit value.
func (s *Src) Seed() uint64 { return s.Draw(0) }

// Weighted picks an index with the given weights.
func (s *Src) Weighted(w ...int) int {
	t := 0
	for _, x := range w {
		t += x
	}
	v := int(s.Draw(uint64(t)))
	for i, x := range w {
		if v < x {
			return i
		}
		v -= x
	}
	return len(w) - 1
}

// LogRange returns a value in [lo, hi], small ones and large ones equally likely by
// order of magnitude.
func (s *Src) LogRange(lo, hi int) int {
	bits := 0
	for (hi-lo)>>uint(bits) > 0 {
		bits++
	}
	if bits == 0 {
		return lo
	}
	b := s.Intn(bits + 1)
	if b == 0 {
		return lo
	}
	v := lo + (1 << uint(b-1)) + s.Intn(1<<uint(b-1))
	if v > hi {
		v = hi
	}
	return v
}

// Bytes returns n bytes expanded from a single decision.
func (s *Src) Bytes(n int) []byte {
	seed := s.Seed()
	return Expand(seed, n)
}

// Expand expands a seed.
func Expand(seed uint64, n int) []byte {
	b := make([]byte, n)
	if seed == 0 {
		return b
	}
	var k [32]byte
	binary.LittleEndian.PutUint64(k[:], seed)
	rand.NewChaCha8(k).Read(b)
	return b
}

// Perm returns a permutation of n elements; the identity is the simplest.
func (s *Src) Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	for i := n - 1; i > 0; i-- {
		j := i - s.Intn(i+1)
		p[i], p[j] = p[j], p[i]
	}
	return p
}
