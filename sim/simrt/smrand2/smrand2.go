// Package smrand2 replaces math/rand/v2 in the instrumented library.
package smrand2

import (
	"math/rand/v2"

	"verif.local/sim/simrt"
)

type (
	Rand    = rand.Rand
	Source  = rand.Source
	Zipf    = rand.Zipf
	PCG     = rand.PCG
	ChaCha8 = rand.ChaCha8
)

// State is the generator of the current node; the engine swaps it.
var State *rand.Rand

func g() *rand.Rand {
	if State == nil {
		seed := int64(1)
		if simrt.MathRandSeed != nil {
			seed = simrt.MathRandSeed()
		}
		State = rand.New(rand.NewPCG(uint64(seed), 77))
	}
	return State
}

func New(s Source) *Rand                                       { return rand.New(s) }
func NewPCG(a, b uint64) *PCG                                  { return rand.NewPCG(a, b) }
func NewChaCha8(seed [32]byte) *ChaCha8                        { return rand.NewChaCha8(seed) }
func NewZipf(r *Rand, s float64, v float64, imax uint64) *Zipf { return rand.NewZipf(r, s, v, imax) }
func Int() int                                                 { return g().Int() }
func IntN(n int) int                                           { return g().IntN(n) }
func Int32() int32                                             { return g().Int32() }
func Int32N(n int32) int32                                     { return g().Int32N(n) }
func Int64() int64                                             { return g().Int64() }
func Int64N(n int64) int64                                     { return g().Int64N(n) }
func Uint() uint                                               { return g().Uint() }
func UintN(n uint) uint                                        { return g().UintN(n) }
func Uint32() uint32                                           { return g().Uint32() }
func Uint32N(n uint32) uint32                                  { return g().Uint32N(n) }
func Uint64() uint64                                           { return g().Uint64() }
func Uint64N(n uint64) uint64                                  { return g().Uint64N(n) }
func Float64() float64                                         { return g().Float64() }
func Float32() float32                                         { return g().Float32() }
func NormFloat64() float64                                     { return g().NormFloat64() }
func ExpFloat64() float64                                      { return g().ExpFloat64() }
func Perm(n int) []int                                         { return g().Perm(n) }
func Shuffle(n int, swap func(i, j int))                       { g().Shuffle(n, swap) }
func N[I interface {
	~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr
}](n I) I {
	return I(g().Uint64N(uint64(n)))
}
