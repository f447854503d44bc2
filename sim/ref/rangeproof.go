package ref

import (
	"encoding/binary"
	"errors"
	"io"
	"math/big"
)

// N is the number of bits of a proven value, MaxM the largest number of values.
const (
	N    = 64
	MaxM = 16
)

// RP is a range proof in the open.
type RP struct {
	V            []Point
	A, S, T1, T2 Point
	Taux, Mu, T  Scalar
	IA, IB       Scalar
	L, R         []Point
}

// Encode writes the wire form.
func (p *RP) Encode(commits bool) []byte {
	var b []byte
	if commits {
		var n [4]byte
		binary.BigEndian.PutUint32(n[:], uint32(len(p.V)))
		b = append(b, n[:]...)
		for i := range p.V {
			b = append(b, p.V[i].Bytes()...)
		}
	}
	for _, q := range []Point{p.A, p.S, p.T1, p.T2} {
		b = append(b, q.Bytes()...)
	}
	for _, s := range []Scalar{p.Taux, p.Mu, p.T, p.IA, p.IB} {
		b = append(b, s.Bytes()...)
	}
	for i := range p.L {
		b = append(b, p.L[i].Bytes()...)
		b = append(b, p.R[i].Bytes()...)
	}
	return b
}

// Wire reads fields from bytes.
type Wire struct {
	B   []byte
	Pos int
	Err error
}

func (w *Wire) take(n int) []byte {
	if w.Err == nil && len(w.B)-w.Pos < n {
		w.Err = io.ErrUnexpectedEOF
	}
	if w.Err != nil {
		return make([]byte, n)
	}
	w.Pos += n
	return w.B[w.Pos-n : w.Pos]
}

// U32 reads a count.
func (w *Wire) U32() uint32 { return binary.BigEndian.Uint32(w.take(4)) }

// Point reads a point.
func (w *Wire) Point() (p Point) {
	var x [32]byte
	copy(x[:], w.take(32))
	if !p.SetBytes(&x) && w.Err == nil {
		w.Err = errors.New("not a point")
	}
	return
}

// Scalar reads a scalar.
func (w *Wire) Scalar() (s Scalar) {
	var x [32]byte
	copy(x[:], w.take(32))
	s.SetBytes(&x)
	return
}

// ParseRP reads the wire form.
func ParseRP(b []byte, commits bool) (*RP, error) {
	w := &Wire{B: b}
	p := &RP{}
	if commits {
		n := w.U32()
		for i := uint32(0); i < n && w.Err == nil; i++ {
			p.V = append(p.V, w.Point())
		}
	}
	p.A, p.S, p.T1, p.T2 = w.Point(), w.Point(), w.Point(), w.Point()
	p.Taux, p.Mu, p.T, p.IA, p.IB = w.Scalar(), w.Scalar(), w.Scalar(), w.Scalar(), w.Scalar()
	if w.Err != nil {
		return nil, w.Err
	}
	if (len(b)-w.Pos)%64 != 0 {
		return nil, errors.New("ragged")
	}
	for w.Pos < len(b) && w.Err == nil {
		p.L = append(p.L, w.Point())
		p.R = append(p.R, w.Point())
	}
	return p, w.Err
}

const label = "dusk.BulletProof.vec1"

func gens(nm int) ([]Point, []Point) {
	return Gens(label, nm), Gens(label+"\x01", nm)
}

func (p *RP) transcript() (y, z, x, w Scalar) {
	var b []byte
	for i := range p.V {
		b = append(b, p.V[i].Bytes()...)
	}
	b = append(b, p.A.Bytes()...)
	b = append(b, p.S.Bytes()...)
	y = HashS(b)
	z = HashS(y.Bytes())
	b = append(b, z.Bytes()...)
	b = append(b, p.T1.Bytes()...)
	b = append(b, p.T2.Bytes()...)
	x = HashS(b)
	b = append(b, x.Bytes()...)
	b = append(b, p.Taux.Bytes()...)
	b = append(b, p.Mu.Bytes()...)
	b = append(b, p.T.Bytes()...)
	w = HashS(b)
	return
}

func powers(a Scalar, n int) []Scalar {
	r := make([]Scalar, n)
	acc := S(1)
	for i := range r {
		r[i] = acc
		acc = Mul(acc, a)
	}
	return r
}

func sum(v []Scalar) Scalar {
	acc := S(0)
	for _, x := range v {
		acc = Add(acc, x)
	}
	return acc
}

func two64() Scalar { return SBig(new(big.Int).Lsh(big.NewInt(1), 64)) }

// delta(y,z) = (z-z^2) <1,y^nm> - sum_j z^(j+3) <1,2^n>
func delta(y, z Scalar, m int) Scalar {
	zz := Mul(z, z)
	d := Mul(Sub(z, zz), sum(powers(y, N*m)))
	ones := Sub(two64(), S(1))
	zj := Mul(zz, z)
	for j := 0; j < m; j++ {
		d = Sub(d, Mul(zj, ones))
		zj = Mul(zj, z)
	}
	return d
}

// zTwo is z^(j+2) 2^i for bit i of value j.
func zTwo(z Scalar, m int) []Scalar {
	r := make([]Scalar, 0, N*m)
	zj := Mul(z, z)
	two := powers(S(2), N)
	for j := 0; j < m; j++ {
		for i := 0; i < N; i++ {
			r = append(r, Mul(zj, two[i]))
		}
		zj = Mul(zj, z)
	}
	return r
}

// Verify decides the two equations of the proof separately. The string says why a
// proof is not valid.
func (p *RP) Verify() (bool, string) {
	m := len(p.V)
	lg := 0
	switch m {
	case 1:
		lg = 6
	case 2:
		lg = 7
	case 4:
		lg = 8
	case 8:
		lg = 9
	case 16:
		lg = 10
	default:
		return false, "number of commitments"
	}
	if len(p.L) != lg || len(p.R) != lg {
		return false, "size of the inner-product proof"
	}
	for _, l := range [][]Point{p.V, p.L, p.R, {p.A, p.S, p.T1, p.T2}} {
		for i := range l {
			if Degenerate(&l[i]) {
				return false, "degenerate point"
			}
		}
	}
	y, z, x, w := p.transcript()
	B, Bl := ValueBase(), BlindBase()
	// t B + taux Bl = sum z^(j+2) V_j + delta B + x T1 + x^2 T2
	{
		s := []Scalar{Sub(p.T, delta(y, z, m)), p.Taux, Neg(x), Neg(Mul(x, x))}
		q := []Point{B, Bl, p.T1, p.T2}
		zj := Mul(z, z)
		for j := range p.V {
			s = append(s, Neg(zj))
			q = append(q, p.V[j])
			zj = Mul(zj, z)
		}
		if !IsZero(MultiExp(s, q)) {
			return false, "polynomial commitment equation"
		}
	}
	// inner product
	nm := N * m
	u := make([]Scalar, lg)
	ui := make([]Scalar, lg)
	var tr []byte
	for k := 0; k < lg; k++ {
		tr = append(tr, p.L[k].Bytes()...)
		tr = append(tr, p.R[k].Bytes()...)
		u[k] = HashS(tr)
		ui[k] = Inv(u[k])
	}
	G, H := gens(nm)
	yi := powers(Inv(y), nm)
	zt := zTwo(z, m)
	var s []Scalar
	var q []Point
	sv := make([]Scalar, nm)
	sv[0] = S(1)
	for k := 0; k < lg; k++ {
		sv[0] = Mul(sv[0], ui[k])
	}
	for i := 1; i < nm; i++ {
		top := 0
		for 1<<uint(top+1) <= i {
			top++
		}
		uk := u[lg-1-top]
		sv[i] = Mul(sv[i-(1<<uint(top))], Mul(uk, uk))
	}
	for i := 0; i < nm; i++ {
		s = append(s, Add(Mul(p.IA, sv[i]), z))
		q = append(q, G[i])
	}
	for i := 0; i < nm; i++ {
		h := Mul(Sub(Mul(p.IB, sv[nm-1-i]), zt[i]), yi[i])
		s = append(s, Sub(h, z))
		q = append(q, H[i])
	}
	s = append(s, Mul(w, Sub(Mul(p.IA, p.IB), p.T)), p.Mu, S(-1), Neg(x))
	q = append(q, B, Bl, p.A, p.S)
	for k := 0; k < lg; k++ {
		s = append(s, Neg(Mul(u[k], u[k])), Neg(Mul(ui[k], ui[k])))
		q = append(q, p.L[k], p.R[k])
	}
	if !IsZero(MultiExp(s, q)) {
		return false, "inner product equation"
	}
	return true, ""
}

// Cheat describes how a dishonest prover deviates. The zero value is honest.
type Cheat struct {
	VOff   []Scalar // added to the committed values, while the bits stay
	Bits   func(aL, aR []Scalar)
	MuOff  Scalar // added to mu before the transcript is continued
	Weight func(x, y, z, w Scalar) Scalar
	TOff   Scalar // added to t before the transcript is continued
	AdaptX bool   // with VOff: T1 absorbs the error assuming a guessed x
	GuessX Scalar
	SkipIP bool // inner product part made of arbitrary points
	FixT   bool // t chosen such that the polynomial equation holds
}

// Prove makes a range proof; rnd supplies uniform scalars.
func Prove(v []Scalar, rnd func() Scalar, ch *Cheat) *RP {
	if ch == nil {
		ch = &Cheat{}
	}
	m := len(v)
	nm := N * m
	B, Bl := ValueBase(), BlindBase()
	p := &RP{}
	gam := make([]Scalar, m)
	for j := range v {
		gam[j] = rnd()
		x := v[j]
		if ch.VOff != nil {
			x = Add(x, ch.VOff[j%len(ch.VOff)])
		}
		p.V = append(p.V, PAdd(PMul(B, x), PMul(Bl, gam[j])))
	}
	aL, aR := make([]Scalar, 0, nm), make([]Scalar, 0, nm)
	for j := range v {
		b := v[j].BigInt()
		for i := 0; i < N; i++ {
			bit := S(int64(b.Bit(i)))
			aL = append(aL, bit)
			aR = append(aR, Sub(bit, S(1)))
		}
	}
	if ch.Bits != nil {
		ch.Bits(aL, aR)
	}
	G, H := gens(nm)
	GH := append(append(append([]Point(nil), G...), H...), Bl)
	alpha, rho := rnd(), rnd()
	sL, sR := make([]Scalar, nm), make([]Scalar, nm)
	for i := range sL {
		sL[i], sR[i] = rnd(), rnd()
	}
	p.A = MultiExp(append(append(append([]Scalar(nil), aL...), aR...), alpha), GH)
	p.S = MultiExp(append(append(append([]Scalar(nil), sL...), sR...), rho), GH)
	y, z, _, _ := p.transcript()
	yn := powers(y, nm)
	zt := zTwo(z, m)
	l0, r0, r1 := make([]Scalar, nm), make([]Scalar, nm), make([]Scalar, nm)
	t0, t1, t2 := S(0), S(0), S(0)
	for i := 0; i < nm; i++ {
		l0[i] = Sub(aL[i], z)
		r0[i] = Add(Mul(yn[i], Add(aR[i], z)), zt[i])
		r1[i] = Mul(yn[i], sR[i])
		t0 = Add(t0, Mul(l0[i], r0[i]))
		t1 = Add(t1, Add(Mul(l0[i], r1[i]), Mul(sL[i], r0[i])))
		t2 = Add(t2, Mul(sL[i], r1[i]))
	}
	tau1, tau2 := rnd(), rnd()
	c1 := t1
	if ch.AdaptX {
		// the verifier computes sum z^(j+2) v_j; hide the difference in T1
		diff := S(0)
		zj := Mul(z, z)
		for j := range v {
			diff = Add(diff, Mul(zj, ch.VOff[j%len(ch.VOff)]))
			zj = Mul(zj, z)
		}
		c1 = Sub(t1, Mul(diff, Inv(ch.GuessX)))
	}
	p.T1 = PAdd(PMul(B, c1), PMul(Bl, tau1))
	p.T2 = PAdd(PMul(B, t2), PMul(Bl, tau2))
	_, _, x, w0 := p.transcript()
	p.Taux = Add(Mul(tau1, x), Mul(tau2, Mul(x, x)))
	zj := Mul(z, z)
	tv := delta(y, z, m)
	for j := range v {
		p.Taux = Add(p.Taux, Mul(zj, gam[j]))
		vj := v[j]
		if ch.VOff != nil {
			vj = Add(vj, ch.VOff[j%len(ch.VOff)])
		}
		tv = Add(tv, Mul(zj, vj))
		zj = Mul(zj, z)
	}
	p.Mu = Add(alpha, Mul(rho, x))
	l, r := make([]Scalar, nm), make([]Scalar, nm)
	for i := range l {
		l[i] = Add(l0[i], Mul(x, sL[i]))
		r[i] = Add(r0[i], Mul(x, r1[i]))
	}
	p.T = S(0)
	for i := range l {
		p.T = Add(p.T, Mul(l[i], r[i]))
	}
	if ch.FixT {
		p.T = Add(Add(tv, Mul(x, c1)), Mul(Mul(x, x), t2))
	}
	p.T = Add(p.T, ch.TOff)
	if ch.Weight != nil {
		p.Mu = Add(p.Mu, ch.MuOff)
		p.Taux = Sub(p.Taux, Mul(ch.Weight(x, y, z, w0), ch.MuOff))
	} else {
		p.Mu = Add(p.Mu, ch.MuOff)
	}
	_, _, _, w := p.transcript()
	if ch.SkipIP {
		for k := 1; k < nm; k *= 2 {
			p.L = append(p.L, Base(rnd()))
			p.R = append(p.R, Base(rnd()))
		}
		p.IA, p.IB = rnd(), rnd()
		return p
	}
	Q := PMul(B, w)
	g := append([]Point(nil), G...)
	h := make([]Point, nm)
	yi := powers(Inv(y), nm)
	for i := range h {
		h[i] = PMul(H[i], yi[i])
	}
	var tr []byte
	for n := nm / 2; n >= 1; n /= 2 {
		ip := func(a, b []Scalar) Scalar {
			acc := S(0)
			for i := range a {
				acc = Add(acc, Mul(a[i], b[i]))
			}
			return acc
		}
		mix := func(a []Scalar, gp []Point, b []Scalar, hp []Point, c Scalar) Point {
			return MultiExp(append(append(append([]Scalar(nil), a...), b...), c), append(append(append([]Point(nil), gp...), hp...), Q))
		}
		L := mix(l[:n], g[n:], r[n:], h[:n], ip(l[:n], r[n:]))
		R := mix(l[n:], g[:n], r[:n], h[n:], ip(l[n:], r[:n]))
		p.L, p.R = append(p.L, L), append(p.R, R)
		tr = append(tr, L.Bytes()...)
		tr = append(tr, R.Bytes()...)
		u := HashS(tr)
		ui := Inv(u)
		for i := 0; i < n; i++ {
			l[i] = Add(Mul(l[i], u), Mul(l[n+i], ui))
			r[i] = Add(Mul(r[i], ui), Mul(r[n+i], u))
			g[i] = PAdd(PMul(g[i], ui), PMul(g[n+i], u))
			h[i] = PAdd(PMul(h[i], u), PMul(h[n+i], ui))
		}
		l, r, g, h = l[:n], r[:n], g[:n], h[:n]
	}
	p.IA, p.IB = l[0], r[0]
	return p
}

// Transcript returns the challenges y, z, x, w of the proof.
func (p *RP) Transcript() (y, z, x, w Scalar) { return p.transcript() }
