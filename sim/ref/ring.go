package ref

import "errors"

// MLSAG is a multilayer ring signature in the open.
type MLSAG struct {
	C    Scalar
	R    [][]Scalar
	Keys [][]Point
	Msg  []byte
}

// ParseMLSAG reads the wire form (the message is not part of it).
func ParseMLSAG(b []byte, keys bool) (*MLSAG, int, error) {
	w := &Wire{B: b}
	s := &MLSAG{}
	s.C = w.Scalar()
	n := w.U32()
	if w.Err != nil || n == 0 {
		return s, w.Pos, w.Err
	}
	k := w.U32()
	if w.Err == nil && k == 0 {
		return nil, w.Pos, errors.New("empty response vectors")
	}
	for i := uint32(0); i < n && w.Err == nil; i++ {
		var l []Scalar
		for j := uint32(0); j < k && w.Err == nil; j++ {
			l = append(l, w.Scalar())
		}
		s.R = append(s.R, l)
	}
	if keys {
		for i := uint32(0); i < n && w.Err == nil; i++ {
			var l []Point
			for j := uint32(0); j < k && w.Err == nil; j++ {
				l = append(l, w.Point())
			}
			s.Keys = append(s.Keys, l)
		}
	}
	return s, w.Pos, w.Err
}

// Encode is the inverse.
func (s *MLSAG) Encode(keys bool) []byte {
	b := append([]byte(nil), s.C.Bytes()...)
	b = append(b, u32(uint32(len(s.R)))...)
	if len(s.R) == 0 {
		return b
	}
	b = append(b, u32(uint32(len(s.R[0])))...)
	for _, l := range s.R {
		for i := range l {
			b = append(b, l[i].Bytes()...)
		}
	}
	if keys {
		for _, l := range s.Keys {
			for i := range l {
				b = append(b, l[i].Bytes()...)
			}
		}
	}
	return b
}

func u32(n uint32) []byte { return []byte{byte(n >> 24), byte(n >> 16), byte(n >> 8), byte(n)} }

// Verify follows the ring once around.
func (s *MLSAG) Verify(images []Point) bool {
	n := len(s.R)
	if n == 0 || len(s.Keys) != n || len(images) == 0 {
		return false
	}
	k := len(s.R[0])
	if len(images) > k {
		return false
	}
	for i := range images {
		if Degenerate(&images[i]) {
			return false
		}
	}
	for i := 0; i < n; i++ {
		if len(s.R[i]) != k || len(s.Keys[i]) != k {
			return false
		}
		for j := range s.Keys[i] {
			if Degenerate(&s.Keys[i][j]) {
				return false
			}
		}
	}
	c := s.C
	for i := 0; i < n; i++ {
		b := append([]byte(nil), s.Msg...)
		for j := 0; j < k; j++ {
			p := PAdd(Base(s.R[i][j]), PMul(s.Keys[i][j], c))
			b = append(b, p.Bytes()...)
		}
		for j := range images {
			var h Point
			h.Derive(s.Keys[i][j].Bytes())
			p := PAdd(PMul(h, s.R[i][j]), PMul(images[j], c))
			b = append(b, p.Bytes()...)
		}
		c = HashS(b)
	}
	return c.Equals(&s.C)
}

// Ring is a single-key ring signature.
type Ring struct {
	I    Point
	C    Scalar
	S    []Scalar
	Keys []Point
}

// Verify follows the ring once around.
func (s *Ring) Verify(msg []byte) bool {
	n := len(s.Keys)
	if n == 0 || len(s.S) != n || Degenerate(&s.I) {
		return false
	}
	c := s.C
	for i := 0; i < n; i++ {
		if Degenerate(&s.Keys[i]) {
			return false
		}
		var h Point
		h.Derive(s.Keys[i].Bytes())
		l := PAdd(Base(s.S[i]), PMul(s.Keys[i], c))
		r := PAdd(PMul(h, s.S[i]), PMul(s.I, c))
		c = HashS(msg, l.Bytes(), r.Bytes())
	}
	return c.Equals(&s.C)
}

// Image is the key image of a private key.
func Image(x Scalar) Point {
	pk := Base(x)
	var h Point
	h.Derive(pk.Bytes())
	return PMul(h, x)
}

// SignMLSAG signs in the open at position pos; images may be any points (a cheating signer
// claims images other than his own). nil means the genuine ones for the first nImg keys.
func SignMLSAG(msg []byte, priv []Scalar, ring [][]Point, pos int, nImg int, images []Point, rnd func() Scalar) (*MLSAG, []Point) {
	n, k := len(ring), len(priv)
	if images == nil {
		for j := 0; j < nImg; j++ {
			images = append(images, Image(priv[j]))
		}
	}
	s := &MLSAG{Msg: msg, Keys: ring, R: make([][]Scalar, n)}
	nonce := make([]Scalar, k)
	for j := range nonce {
		nonce[j] = rnd()
	}
	b := append([]byte(nil), msg...)
	for j := range nonce {
		p := Base(nonce[j])
		b = append(b, p.Bytes()...)
	}
	for j := range images {
		var h Point
		h.Derive(ring[pos][j].Bytes())
		p := PMul(h, nonce[j])
		b = append(b, p.Bytes()...)
	}
	c := HashS(b)
	for i := (pos + 1) % n; ; i = (i + 1) % n {
		if i == 0 {
			s.C = c
		}
		if i == pos {
			break
		}
		s.R[i] = make([]Scalar, k)
		b := append([]byte(nil), msg...)
		for j := 0; j < k; j++ {
			s.R[i][j] = rnd()
			p := PAdd(Base(s.R[i][j]), PMul(ring[i][j], c))
			b = append(b, p.Bytes()...)
		}
		for j := range images {
			var h Point
			h.Derive(ring[i][j].Bytes())
			p := PAdd(PMul(h, s.R[i][j]), PMul(images[j], c))
			b = append(b, p.Bytes()...)
		}
		c = HashS(b)
	}
	s.R[pos] = make([]Scalar, k)
	for j := 0; j < k; j++ {
		s.R[pos][j] = Sub(nonce[j], Mul(c, priv[j]))
	}
	return s, images
}

// SignRing is the single-key counterpart.
func SignRing(msg []byte, x Scalar, ring []Point, pos int, image *Point, rnd func() Scalar) *Ring {
	n := len(ring)
	s := &Ring{Keys: ring, S: make([]Scalar, n)}
	if image == nil {
		i := Image(x)
		image = &i
	}
	s.I = *image
	a := rnd()
	var h Point
	h.Derive(ring[pos].Bytes())
	l, r := Base(a), PMul(h, a)
	c := HashS(msg, l.Bytes(), r.Bytes())
	for i := (pos + 1) % n; ; i = (i + 1) % n {
		if i == 0 {
			s.C = c
		}
		if i == pos {
			break
		}
		s.S[i] = rnd()
		var h Point
		h.Derive(ring[i].Bytes())
		l := PAdd(Base(s.S[i]), PMul(ring[i], c))
		r := PAdd(PMul(h, s.S[i]), PMul(s.I, c))
		c = HashS(msg, l.Bytes(), r.Bytes())
	}
	s.S[pos] = Sub(a, Mul(c, x))
	return s
}

// Challenges lists the challenge of every member.
func (s *MLSAG) Challenges(images []Point) []Scalar {
	n := len(s.R)
	out := make([]Scalar, n)
	c := s.C
	for i := 0; i < n; i++ {
		out[i] = c
		b := append([]byte(nil), s.Msg...)
		for j := range s.R[i] {
			p := PAdd(Base(s.R[i][j]), PMul(s.Keys[i][j], c))
			b = append(b, p.Bytes()...)
		}
		for j := range images {
			var h Point
			h.Derive(s.Keys[i][j].Bytes())
			p := PAdd(PMul(h, s.R[i][j]), PMul(images[j], c))
			b = append(b, p.Bytes()...)
		}
		c = HashS(b)
	}
	return out
}

// Challenges lists the challenge of every member.
func (s *Ring) Challenges(msg []byte) []Scalar {
	out := make([]Scalar, len(s.Keys))
	c := s.C
	for i := range s.Keys {
		out[i] = c
		var h Point
		h.Derive(s.Keys[i].Bytes())
		l := PAdd(Base(s.S[i]), PMul(s.Keys[i], c))
		r := PAdd(PMul(h, s.S[i]), PMul(s.I, c))
		c = HashS(msg, l.Bytes(), r.Bytes())
	}
	return out
}
