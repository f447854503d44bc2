package ref

// IP is an inner-product proof.
type IP struct {
	A, B Scalar
	L, R []Point
}

// Encode writes the proof.
func (p *IP) Encode() []byte {
	b := append(append([]byte(nil), p.A.Bytes()...), p.B.Bytes()...)
	for i := range p.L {
		b = append(b, p.L[i].Bytes()...)
		b = append(b, p.R[i].Bytes()...)
	}
	return b
}

// Clone copies the proof.
func (p *IP) Clone() *IP {
	return &IP{p.A, p.B, append([]Point(nil), p.L...), append([]Point(nil), p.R...)}
}

// IPCommit is the statement proven: a on G, b weighted by f on H, <a,b> on Q.
func IPCommit(G, H []Point, a, b, f []Scalar, Q Point) Point {
	c := S(0)
	var s []Scalar
	var q []Point
	for i := range a {
		c = Add(c, Mul(a[i], b[i]))
		s = append(s, a[i], Mul(b[i], f[i]))
		q = append(q, G[i], H[i])
	}
	return MultiExp(append(s, c), append(q, Q))
}

// IPProve proves it.
func IPProve(G, H []Point, a, b, f []Scalar, Q Point) *IP {
	p := &IP{}
	l, r := append([]Scalar(nil), a...), append([]Scalar(nil), b...)
	g, h := append([]Point(nil), G...), make([]Point, len(H))
	for i := range h {
		h[i] = PMul(H[i], f[i])
	}
	var tr []byte
	for n := len(g) / 2; n >= 1; n /= 2 {
		ip := func(a, b []Scalar) Scalar {
			acc := S(0)
			for i := range a {
				acc = Add(acc, Mul(a[i], b[i]))
			}
			return acc
		}
		mix := func(a []Scalar, gp []Point, b []Scalar, hp []Point, c Scalar) Point {
			return MultiExp(append(append(append([]Scalar(nil), a...), b...), c), append(append(append([]Point(nil), gp...), hp...), Q))
		}
		L := mix(l[:n], g[n:], r[n:], h[:n], ip(l[:n], r[n:]))
		R := mix(l[n:], g[:n], r[:n], h[n:], ip(l[n:], r[:n]))
		p.L, p.R = append(p.L, L), append(p.R, R)
		tr = append(append(tr, L.Bytes()...), R.Bytes()...)
		u := HashS(tr)
		ui := Inv(u)
		for i := 0; i < n; i++ {
			l[i] = Add(Mul(l[i], u), Mul(l[n+i], ui))
			r[i] = Add(Mul(r[i], ui), Mul(r[n+i], u))
			g[i] = PAdd(PMul(g[i], ui), PMul(g[n+i], u))
			h[i] = PAdd(PMul(h[i], u), PMul(h[n+i], ui))
		}
		l, r, g, h = l[:n], r[:n], g[:n], h[:n]
	}
	p.A, p.B = l[0], r[0]
	return p
}

// Verify folds the generators and the commitment round by round: a formulation other
// than the one of the library.
func (p *IP) Verify(G, H []Point, f []Scalar, Q, P Point) (bool, string) {
	n := len(G)
	if n == 0 || len(H) != n || len(f) < n || len(p.L) != len(p.R) || len(p.L) > 20 || n != 1<<uint(len(p.L)) {
		return false, "sizes"
	}
	for _, l := range [][]Point{G, H, p.L, p.R, {Q, P}} {
		for i := range l {
			if Degenerate(&l[i]) {
				return false, "degenerate point"
			}
		}
	}
	g, h := append([]Point(nil), G...), make([]Point, n)
	for i := range h {
		h[i] = PMul(H[i], f[i])
	}
	var tr []byte
	acc := P
	for k := range p.L {
		tr = append(append(tr, p.L[k].Bytes()...), p.R[k].Bytes()...)
		u := HashS(tr)
		ui := Inv(u)
		n /= 2
		for i := 0; i < n; i++ {
			g[i] = PAdd(PMul(g[i], ui), PMul(g[n+i], u))
			h[i] = PAdd(PMul(h[i], u), PMul(h[n+i], ui))
		}
		acc = PAdd(acc, PAdd(PMul(p.L[k], Mul(u, u)), PMul(p.R[k], Mul(ui, ui))))
	}
	want := PAdd(PAdd(PMul(g[0], p.A), PMul(h[0], p.B)), PMul(Q, Mul(p.A, p.B)))
	if !want.Equals(&acc) {
		return false, "equation"
	}
	return true, ""
}
