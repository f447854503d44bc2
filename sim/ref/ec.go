// Package ref holds small reference models written from the definitions, which share
// no code with the library under test.
package ref

import (
	"math/big"

	ristretto "github.com/bwesterb/go-ristretto"
)

// Point and Scalar are the group the proofs live in.
type (
	Point  = ristretto.Point
	Scalar = ristretto.Scalar
)

// Ell is the group order.
var Ell, _ = new(big.Int).SetString("7237005577332262213973186563042994240857116359379907606001950938285454250989", 10)

// S makes a scalar from an integer.
func S(n int64) Scalar {
	b := big.NewInt(n)
	b.Mod(b, Ell)
	return SBig(b)
}

// SBig makes a scalar from a big integer (mod the order).
func SBig(b *big.Int) Scalar {
	var s Scalar
	s.SetBigInt(new(big.Int).Mod(b, Ell))
	return s
}

// Mul, Add, Sub, Neg, Inv on scalars.
func Mul(a, b Scalar) (r Scalar) { r.Mul(&a, &b); return }

// Add adds.
func Add(a, b Scalar) (r Scalar) { r.Add(&a, &b); return }

// Sub subtracts.
func Sub(a, b Scalar) (r Scalar) { r.Sub(&a, &b); return }

// Neg negates.
func Neg(a Scalar) (r Scalar) { r.Neg(&a); return }

// Inv inverts.
func Inv(a Scalar) (r Scalar) { r.Inverse(&a); return }

// PMul multiplies a point.
func PMul(p Point, s Scalar) (r Point) { r.ScalarMult(&p, &s); return }

// PAdd adds points.
func PAdd(p, q Point) (r Point) { r.Add(&p, &q); return }

// PSub subtracts points.
func PSub(p, q Point) (r Point) { r.Sub(&p, &q); return }

// Base is the generator times s.
func Base(s Scalar) (r Point) { r.ScalarMultBase(&s); return }

// Degenerate tells whether p is no point at all (zero value or failed decoding).
func Degenerate(p *Point) bool { return p.Z.IsNonZeroI() == 0 }

// Zero is the neutral element.
func Zero() (p Point) { p.SetZero(); return }

// IsZero tells whether p is the neutral element.
func IsZero(p Point) bool {
	z := Zero()
	return !Degenerate(&p) && z.Equals(&p)
}

// MultiExp computes sum s_i p_i by buckets.
func MultiExp(s []Scalar, p []Point) Point {
	n := len(s)
	if n != len(p) {
		panic("ref: MultiExp lengths")
	}
	acc := Zero()
	if n == 0 {
		return acc
	}
	if n <= 8 {
		for i := range s {
			acc = PAdd(acc, PMul(p[i], s[i]))
		}
		return acc
	}
	c := 4
	for (1 << uint(c+2)) < n {
		c++
	}
	var raw [][]byte
	for i := range s {
		raw = append(raw, s[i].Bytes())
	}
	bit := func(b []byte, i int) int { return int(b[i>>3]>>uint(i&7)) & 1 }
	buckets := make([]Point, 1<<uint(c))
	used := make([]bool, 1<<uint(c))
	wins := (253 + c - 1) / c
	for w := wins - 1; w >= 0; w-- {
		for k := 0; k < c; k++ {
			acc.Add(&acc, &acc)
		}
		for i := range used {
			used[i] = false
		}
		for i := range raw {
			d := 0
			for k := c - 1; k >= 0; k-- {
				pos := w*c + k
				d <<= 1
				if pos < 256 {
					d |= bit(raw[i], pos)
				}
			}
			if d == 0 {
				continue
			}
			if used[d] {
				buckets[d].Add(&buckets[d], &p[i])
			} else {
				buckets[d].Set(&p[i])
				used[d] = true
			}
		}
		run, sum := Zero(), Zero()
		any := false
		for d := len(buckets) - 1; d > 0; d-- {
			if used[d] {
				run.Add(&run, &buckets[d])
				any = true
			}
			if any {
				sum.Add(&sum, &run)
			}
		}
		if any {
			acc.Add(&acc, &sum)
		}
	}
	return acc
}

var genCache = map[string][]Point{}

// Gens returns the first n generators of a label: each is derived from the encoding
// of the one before, the first from the label.
func Gens(label string, n int) []Point {
	if len(genCache) > 4000 {
		genCache = map[string][]Point{}
	}
	l := genCache[label]
	for len(l) < n {
		var p Point
		if len(l) == 0 {
			p.Derive([]byte(label))
		} else {
			p.Derive(l[len(l)-1].Bytes())
		}
		l = append(l, p)
	}
	genCache[label] = l
	return l[:n]
}

// ValueBase and BlindBase are the bases of commitments.
func ValueBase() (p Point) { p.Derive([]byte("blindPoint")); return }

// BlindBase is the standard generator.
func BlindBase() (p Point) { p.SetBase(); return }

// HashS derives a scalar.
func HashS(b ...[]byte) (s Scalar) {
	var x []byte
	for _, y := range b {
		x = append(x, y...)
	}
	s.Derive(x)
	return
}
