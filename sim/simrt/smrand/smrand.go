// Package smrand replaces math/rand in the instrumented library. The process-wide
// generator is seeded per node incarnation by the simulator.
package smrand

import (
	"math/rand"

	"verif.local/sim/simrt"
)

type (
	Rand     = rand.Rand
	Source   = rand.Source
	Source64 = rand.Source64
	Zipf     = rand.Zipf
)

// State is the generator of the current node; the engine swaps it.
var State *rand.Rand

func g() *rand.Rand {
	if State == nil {
		seed := int64(1)
		if simrt.MathRandSeed != nil {
			seed = simrt.MathRandSeed()
		}
		State = rand.New(rand.NewSource(seed))
	}
	return State
}

func New(s Source) *Rand                                       { return rand.New(s) }
func NewSource(seed int64) Source                              { return rand.NewSource(seed) }
func NewZipf(r *Rand, s float64, v float64, imax uint64) *Zipf { return rand.NewZipf(r, s, v, imax) }
func Seed(seed int64)                                          { State = rand.New(rand.NewSource(seed)) }
func Int63() int64                                             { return g().Int63() }
func Uint32() uint32                                           { return g().Uint32() }
func Uint64() uint64                                           { return g().Uint64() }
func Int31() int32                                             { return g().Int31() }
func Int() int                                                 { return g().Int() }
func Int63n(n int64) int64                                     { return g().Int63n(n) }
func Int31n(n int32) int32                                     { return g().Int31n(n) }
func Intn(n int) int                                           { return g().Intn(n) }
func Float64() float64                                         { return g().Float64() }
func Float32() float32                                         { return g().Float32() }
func Perm(n int) []int                                         { return g().Perm(n) }
func Shuffle(n int, swap func(i, j int))                       { g().Shuffle(n, swap) }
func Read(p []byte) (int, error)                               { return g().Read(p) }
func NormFloat64() float64                                     { return g().NormFloat64() }
func ExpFloat64() float64                                      { return g().ExpFloat64() }
