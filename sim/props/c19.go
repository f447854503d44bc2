package props

import (
	"bytes"
	"fmt"

	"github.com/dusk-network/dusk-crypto/mlsag"
	"github.com/dusk-network/dusk-crypto/rangeproof"
	"github.com/dusk-network/dusk-crypto/rangeproof/innerproduct"
	"github.com/dusk-network/dusk-crypto/rangeproof/pedersen"

	"verif.local/sim/ref"
)

func init() {
	register(&Property{
		ID: "C19", Quick: 60000, Thorough: 2000000,
		Rule:     "Seeded populations of proofs, inner-product proofs, commitments, ring signatures, key vectors and response vectors on two nodes: honest ones, ones differing in one element, in the order, in one count or in the optional part only, of mixed origin, rebuilt in memory with other coordinates of the same points, sharing parts, copied; plus incompletely decoded and ragged ones. All pairs are compared in both directions and both modes, alone or interleaved with each other, and judged by their contents.",
		Scenario: c19,
	})
}

// content is what an object holds, in the open.
type content struct {
	kind  int // 0 range proof, 1 inner-product proof, 2 commitment, 3 signature, 4 keys, 5 responses
	rp    *ref.RP
	sig   *ref.MLSAG
	pts   []Point
	scs   []Scalar
	blind Scalar
}

var c19names = []string{"range proofs", "inner-product proofs", "commitments", "ring signatures", "key vectors", "response vectors"}

func (c *content) clone() *content {
	d := *c
	if c.rp != nil {
		p := *c.rp
		p.V = append([]Point(nil), p.V...)
		p.L = append([]Point(nil), p.L...)
		p.R = append([]Point(nil), p.R...)
		d.rp = &p
	}
	if c.sig != nil {
		s := *c.sig
		s.R = append([][]Scalar(nil), s.R...)
		s.Keys = append([][]Point(nil), s.Keys...)
		for i := range s.R {
			s.R[i] = append([]Scalar(nil), s.R[i]...)
		}
		for i := range s.Keys {
			s.Keys[i] = append([]Point(nil), s.Keys[i]...)
		}
		d.sig = &s
	}
	d.pts = append([]Point(nil), c.pts...)
	d.scs = append([]Scalar(nil), c.scs...)
	return &d
}

func newContent(r *Run, kind int) *content {
	c := &content{kind: kind}
	max := 12
	if r.Bool(1, 10) {
		max = 70
	}
	switch kind {
	case 0, 1:
		p := &ref.RP{}
		q, s := manyPoints(r, 4), manyScalars(r, 5)
		p.A, p.S, p.T1, p.T2 = q[0], q[1], q[2], q[3]
		p.Taux, p.Mu, p.T, p.IA, p.IB = s[0], s[1], s[2], s[3], s[4]
		n := smallCount(r, max)
		p.L, p.R = manyPoints(r, n), manyPoints(r, n)
		p.V = manyPoints(r, smallCount(r, max))
		if kind == 0 && r.Bool(1, 3) {
			ws := fixedProofs()
			p, _ = ref.ParseRP(ws[r.Intn(len(ws))], true)
		}
		c.rp = p
	case 2:
		c.pts = manyPoints(r, 1)
		c.blind = manyScalars(r, 1)[0]
	case 3:
		m := &ref.MLSAG{C: manyScalars(r, 1)[0]}
		n, k := smallCount(r, max), 1+r.Intn(4)
		for i := 0; i < n; i++ {
			m.R = append(m.R, manyScalars(r, k))
			m.Keys = append(m.Keys, manyPoints(r, k))
		}
		c.sig = m
	case 4:
		c.pts = manyPoints(r, smallCount(r, max))
	case 5:
		c.scs = manyScalars(r, smallCount(r, max))
	}
	if r.Bool(1, 3) { // a small world: parts are trivial or alike
		ps, ss := c.elements()
		b := r.Bytes(len(ps) + len(ss))
		few := manyPoints(r, 2)
		spec := []Scalar{ref.S(0), ref.S(0), ref.S(1), ref.Neg(ref.S(1))}
		for i := range ps {
			switch b[i] % 4 {
			case 0:
				*ps[i] = ref.Zero()
			case 1, 2:
				*ps[i] = few[b[i]>>7]
			}
		}
		for i := range ss {
			if k := b[len(ps)+i]; k%8 < 6 {
				*ss[i] = spec[(k>>3)%4]
			}
		}
	}
	return c
}

// elements lists all points and scalars.
func (c *content) elements() (ps []*Point, ss []*Scalar) {
	addP := func(l []Point) {
		for i := range l {
			ps = append(ps, &l[i])
		}
	}
	addS := func(l []Scalar) {
		for i := range l {
			ss = append(ss, &l[i])
		}
	}
	if p := c.rp; p != nil {
		if c.kind == 0 {
			ps = append(ps, &p.A, &p.S, &p.T1, &p.T2)
			addP(p.V)
			ss = append(ss, &p.Taux, &p.Mu, &p.T)
		}
		ss = append(ss, &p.IA, &p.IB)
		addP(p.L)
		addP(p.R)
	}
	if s := c.sig; s != nil {
		ss = append(ss, &s.C)
		for i := range s.R {
			addS(s.R[i])
		}
		for i := range s.Keys {
			addP(s.Keys[i])
		}
	}
	addP(c.pts)
	addS(c.scs)
	if c.kind == 2 {
		ss = append(ss, &c.blind)
	}
	return
}

// mutate returns a resembling content; it may be the same.
func (c *content) mutate(r *Run) *content {
	d := c.clone()
	ps, ss := d.elements()
	n := len(ps) + len(ss)
	pos := func(k int) int { // the ends are as likely as the middle
		switch r.Intn(3) {
		case 0:
			return k - 1
		case 1:
			return r.Intn(k)
		}
		return 0
	}
	switch r.Weighted(6, 3, 4, 3) {
	case 0: // one element
		if n == 0 {
			return d
		}
		i := r.Intn(n)
		if len(ps) > 0 && r.Bool(1, 3) {
			i = pos(len(ps))
		}
		if i < len(ps) {
			switch r.Intn(4) {
			case 0:
				*ps[i] = poolPoint(r)
			case 1:
				ps[i].Neg(ps[i])
			case 2:
				*ps[i] = ref.PAdd(*ps[i], ref.BlindBase())
			case 3:
				*ps[i] = ref.PAdd(*ps[i], *ps[i])
			}
			return d
		}
		x := ss[i-len(ps)]
		switch r.Intn(4) {
		case 0:
			*x = scalar(r)
		case 1:
			*x = ref.Neg(*x)
		case 2:
			*x = ref.Add(*x, ref.S(1))
		case 3: // one bit
			b := append([]byte(nil), x.Bytes()...)
			b[r.Intn(31)] ^= 1 << uint(r.Intn(8))
			var y [32]byte
			copy(y[:], b)
			x.SetBytes(&y)
		}
	case 1: // two elements exchanged
		if r.Bool(1, 2) && len(ps) > 1 {
			a, b := ps[r.Intn(len(ps))], ps[r.Intn(len(ps))]
			*a, *b = *b, *a
		} else if len(ss) > 1 {
			a, b := ss[r.Intn(len(ss))], ss[r.Intn(len(ss))]
			*a, *b = *b, *a
		}
	case 2: // counts
		d.resize(r)
	case 3: // the optional part only
		switch d.kind {
		case 0:
			d.rp.V = manyPoints(r, smallCount(r, 12))
		case 3:
			if len(d.sig.Keys) > 0 {
				i := pos(len(d.sig.Keys))
				d.sig.Keys[i] = manyPoints(r, len(d.sig.Keys[i]))
			}
		}
	}
	return d
}

func (c *content) resize(r *Run) {
	grow := r.Bool(1, 2)
	pl := func(l []Point) []Point {
		if grow {
			e := append(append([]Point(nil), l...), poolPoint(r))
			if len(l) > 0 && r.Bool(1, 2) {
				e[len(l)] = l[len(l)-1]
			}
			return e
		}
		if len(l) > 0 {
			if r.Bool(1, 3) {
				return l[1:]
			}
			return l[:len(l)-1]
		}
		return l
	}
	switch c.kind {
	case 0, 1:
		if c.kind == 0 && r.Bool(1, 3) {
			c.rp.V = pl(c.rp.V)
			return
		}
		l, q := c.rp.L, c.rp.R
		switch {
		case grow:
			c.rp.L, c.rp.R = append(append([]Point(nil), l...), poolPoint(r)), append(append([]Point(nil), q...), poolPoint(r))
		case len(l) > 0:
			c.rp.L, c.rp.R = l[:len(l)-1], q[:len(q)-1]
			if r.Bool(1, 3) {
				c.rp.L, c.rp.R = l[1:], q[1:]
			}
		}
	case 3:
		s := c.sig
		if grow {
			k := 1
			if len(s.R) > 0 {
				k = len(s.R[0])
			}
			s.R, s.Keys = append(s.R, manyScalars(r, k)), append(s.Keys, manyPoints(r, k))
			return
		}
		if len(s.R) == 0 {
			return
		}
		if r.Bool(1, 2) && len(s.R[0]) > 1 { // fewer keys per member
			for i := range s.R {
				s.R[i], s.Keys[i] = s.R[i][:len(s.R[i])-1], s.Keys[i][:len(s.Keys[i])-1]
			}
			return
		}
		s.R, s.Keys = s.R[:len(s.R)-1], s.Keys[:len(s.Keys)-1]
	case 4:
		c.pts = pl(c.pts)
	case 5:
		if grow {
			c.scs = append(append([]Scalar(nil), c.scs...), scalar(r))
		} else if len(c.scs) > 0 {
			c.scs = c.scs[:len(c.scs)-1]
		}
	}
}

func encPts(l []Point) (b []byte) {
	b = be32(uint32(len(l)))
	for i := range l {
		b = append(b, l[i].Bytes()...)
	}
	return
}

func encScs(l []Scalar) (b []byte) {
	b = be32(uint32(len(l)))
	for i := range l {
		b = append(b, l[i].Bytes()...)
	}
	return
}

// key is the identity of the content; two objects are equal if and only if these are.
func (c *content) key(optional bool) string {
	switch c.kind {
	case 0:
		return string(c.rp.Encode(optional))
	case 1:
		b := append(append([]byte(nil), c.rp.IA.Bytes()...), c.rp.IB.Bytes()...)
		return string(append(append(b, encPts(c.rp.L)...), encPts(c.rp.R)...))
	case 2:
		if optional {
			return string(append(encPts(c.pts), c.blind.Bytes()...))
		}
		return string(encPts(c.pts))
	case 3:
		return string(c.sig.Encode(optional))
	case 4:
		return string(encPts(c.pts))
	}
	return string(encScs(c.scs))
}

// alt gives the same point in other coordinates.
func alt(r *Run, p Point) Point {
	q := poolPoint(r)
	return ref.PSub(ref.PAdd(p, q), q)
}

type c19obj struct {
	c    *content
	o    interface{}
	how  string
	odd  bool // incomplete or ragged: only crashes and symmetry are judged
	full bool // the optional part is there
}

// make builds an object on a node.
func (c *content) build(r *Run, n *Node) *c19obj {
	x := &c19obj{c: c, how: "decoded", full: true}
	var cd *codec
	var wire []byte
	switch c.kind {
	case 0:
		x.full = r.Bool(4, 5)
		cd, wire = codecProof(x.full), c.rp.Encode(x.full)
	case 1:
		cd = codecIP()
		wire = (&ref.RP{A: ref.Zero(), S: ref.Zero(), T1: ref.Zero(), T2: ref.Zero(), IA: c.rp.IA, IB: c.rp.IB, L: c.rp.L, R: c.rp.R}).Encode(false)[7*32:]
	case 2:
		cd, wire = codecComm(), append([]byte(nil), c.pts[0].Bytes()...)
	case 3:
		x.full = r.Bool(4, 5)
		cd, wire = codecSig(x.full), c.sig.Encode(x.full)
	case 4:
		cd, wire = codecKeys(len(c.pts)), encPts(c.pts)[4:]
	case 5:
		cd, wire = codecResp(len(c.scs)), encScs(c.scs)[4:]
	}
	if r.Bool(1, 3) {
		switch c.kind {
		case 1:
			p := &innerproduct.Proof{A: c.rp.IA, B: c.rp.IB}
			for i := range c.rp.L {
				p.L, p.R = append(p.L, alt(r, c.rp.L[i])), append(p.R, alt(r, c.rp.R[i]))
			}
			x.o, x.how = p, "assembled"
			return x
		case 2:
			x.o, x.how = &pedersen.Commitment{Value: alt(r, c.pts[0]), BlindingFactor: c.blind}, "assembled"
			return x
		case 4:
			p := &mlsag.PubKeys{}
			r.MustDo(n, nil, "AddPubKey", func() {
				for i := range c.pts {
					p.AddPubKey(alt(r, c.pts[i]))
				}
			})
			x.o, x.how = p, "assembled"
			return x
		case 5:
			p := &mlsag.Responses{}
			r.MustDo(n, nil, "AddResponse", func() {
				for i := range c.scs {
					p.AddResponse(c.scs[i])
				}
			})
			x.o, x.how = p, "assembled"
			return x
		}
	}
	rd := newReader(r, wire)
	var err error
	r.MustDo(n, nil, "Decode", func() { x.o, err = cd.dec(rd, nil) })
	r.Check(err == nil, "decode-failed", "%s: an encoding cannot be decoded: %s", c19names[c.kind], errStr(err))
	switch c.kind {
	case 0:
		p := x.o.(*rangeproof.Proof)
		if !x.full && r.Bool(1, 2) { // the commitments arrived separately
			for i := range c.rp.V {
				p.V = append(p.V, pedersen.Commitment{Value: alt(r, c.rp.V[i]), BlindingFactor: scalar(r)})
			}
			x.full = true
		}
		if x.full && r.Bool(1, 2) { // the prover's copy knows its blinders
			for i := range p.V {
				p.V[i].BlindingFactor = scalar(r)
			}
			x.how = "prover's copy"
		}
		if r.Bool(1, 3) {
			p.A, p.T2 = alt(r, p.A), alt(r, p.T2)
			x.how = "recomputed"
		}
	case 2:
		x.o.(*pedersen.Commitment).BlindingFactor = c.blind
	case 3:
		s := x.o.(*mlsag.Signature)
		s.Msg = message(r, 20)
		if !x.full && len(c.sig.R) == 0 {
			x.full = true
		}
		if !x.full && r.Bool(1, 2) {
			r.MustDo(n, nil, "AddPubKey", func() {
				for _, l := range c.sig.Keys {
					var k mlsag.PubKeys
					for i := range l {
						k.AddPubKey(alt(r, l[i]))
					}
					s.PubKeys = append(s.PubKeys, k)
				}
			})
			x.full = true
			x.how = "keys added"
		}
	}
	return x
}

// spoil makes an object with missing or ragged parts.
func (x *c19obj) spoil(r *Run, n *Node) {
	x.odd = true
	switch o := x.o.(type) {
	case *rangeproof.Proof:
		switch r.Intn(4) {
		case 0:
			o.IPProof = nil
			x.how = "without inner-product proof"
		case 1:
			if o.IPProof != nil && len(o.IPProof.L) > 0 {
				o.IPProof.R = o.IPProof.R[:r.Intn(len(o.IPProof.R))]
			}
			x.how = "ragged"
		case 2:
			o.IPProof = &innerproduct.Proof{}
			x.how = "empty inner-product proof"
		case 3:
			x.o = &rangeproof.Proof{}
			x.how = "zero"
		}
	case *innerproduct.Proof:
		if r.Bool(1, 2) && len(o.L) > 0 {
			o.L = o.L[:r.Intn(len(o.L))]
		} else {
			o.R = append(append([]Point(nil), o.R...), poolPoint(r))
		}
		x.how = "ragged"
	case *pedersen.Commitment:
		x.o = &pedersen.Commitment{}
		x.how = "zero"
	case *mlsag.Signature:
		if r.Bool(1, 3) {
			x.o = &mlsag.Signature{}
			x.how = "zero"
			break
		}
		// broken off while decoding
		b := x.c.sig.Encode(true)
		s := &mlsag.Signature{}
		cut := b[:r.Intn(len(b)+1)]
		r.MustDo(n, nil, "Decode", func() { _ = s.Decode(bytes.NewReader(cut), true) })
		x.o, x.how = s, "broken off"
	case *mlsag.PubKeys:
		p := &mlsag.PubKeys{}
		r.MustDo(n, nil, "Decode", func() {
			_ = p.Decode(bytes.NewReader(encPts(x.c.pts)[4:]), uint32(len(x.c.pts)+1))
		})
		x.o, x.how = p, "broken off"
	case *mlsag.Responses:
		p := &mlsag.Responses{}
		r.MustDo(n, nil, "Decode", func() {
			_ = p.Decode(bytes.NewReader(encScs(x.c.scs)[4:]), uint32(len(x.c.scs)+1))
		})
		x.o, x.how = p, "broken off"
	}
	r.Fault("incomplete-object")
}

func c19eq(a, b interface{}, optional bool) bool {
	switch x := a.(type) {
	case *rangeproof.Proof:
		return x.Equals(*b.(*rangeproof.Proof), optional)
	case *innerproduct.Proof:
		return x.Equals(*b.(*innerproduct.Proof))
	case *pedersen.Commitment:
		if optional {
			return x.Equals(*b.(*pedersen.Commitment))
		}
		return x.EqualValue(*b.(*pedersen.Commitment))
	case *mlsag.Signature:
		return x.Equals(*b.(*mlsag.Signature), optional)
	case *mlsag.PubKeys:
		return x.Equals(*b.(*mlsag.PubKeys))
	case *mlsag.Responses:
		return x.Equals(*b.(*mlsag.Responses))
	}
	panic("c19eq")
}

func c19(r *Run, idx int) {
	nodes := []*Node{r.NewNode(), r.NewNode()}
	kind := r.Weighted(4, 3, 2, 5, 2, 2)
	pop := []*content{newContent(r, kind)}
	for i, k := 0, 1+r.Intn(5); i < k; i++ {
		switch r.Weighted(6, 2, 2) {
		case 0:
			pop = append(pop, pop[r.Intn(len(pop))].mutate(r))
		case 1:
			pop = append(pop, newContent(r, kind))
		case 2:
			pop = append(pop, pop[r.Intn(len(pop))])
		}
	}
	var objs []*c19obj
	for i, c := range pop {
		n := nodes[r.Intn(2)]
		x := c.build(r, n)
		if r.Bool(1, 10) {
			x.spoil(r, n)
		}
		r.Tracef("object %d: %s %s, %x", i, x.how, c19names[kind], hx([]byte(c.key(true))))
		objs = append(objs, x)
		if p, ok := x.o.(*rangeproof.Proof); ok && r.Bool(1, 8) && i > 0 && !x.odd && p.IPProof != nil {
			// a copy that shares its parts
			q := *p
			objs = append(objs, &c19obj{c: c, o: &q, how: "copy of " + x.how, full: x.full})
		}
	}
	s := r.NewSched()
	type cmp struct {
		i, j     int
		opt      bool
		ab, ba   bool
		finished bool
	}
	var all []*cmp
	for i := range objs {
		for j := i; j < len(objs); j++ {
			all = append(all, &cmp{i: i, j: j, opt: r.Bool(1, 2)})
		}
	}
	if len(all) > 24 {
		all = all[len(all)-24:]
	}
	for _, m := range all {
		m := m
		a, b := objs[m.i], objs[m.j]
		n := nodes[r.Intn(2)]
		what := fmt.Sprintf("comparing %s %d and %d (%s, %s; optional part %v)", c19names[kind], m.i, m.j, a.how, b.how, m.opt)
		t := s.Spawn(n, "compare", nil, func() {
			m.ab = c19eq(a.o, b.o, m.opt)
			m.ba = c19eq(b.o, a.o, m.opt)
		})
		s.PlanSites(t, c19sites())
		t.OnDone = func() {
			taskPanic(r, t, what)
			r.Check(m.ab == m.ba, "not-symmetric", "%s: %v in one direction, %v in the other", what, m.ab, m.ba)
			m.finished = true
			if m.i == m.j && !a.odd {
				r.Check(m.ab, "not-reflexive", "%s: an object differs from itself", what)
			}
			if a.odd || b.odd {
				return
			}
			want := a.c.key(m.opt) == b.c.key(m.opt)
			if m.opt && (!a.full || !b.full) && kind != 2 {
				want = a.c.key(false) == b.c.key(false) && a.optKey() == b.optKey()
			}
			r.Check(m.ab == want, "wrong-answer", "%s: answers %v but the contents say %v", what, m.ab, want)
			if want {
				r.Note("equal")
			} else {
				r.Note("different")
			}
		}
		if r.Bool(1, 2) {
			for k := r.Intn(4); k > 0; k-- {
				s.Step()
			}
		}
	}
	for s.Step() {
	}
	for _, m := range all {
		r.Check(m.finished, "no-progress", "a comparison did not finish")
	}
}

// optKey is the content of the optional part the object really has.
func (x *c19obj) optKey() string {
	switch x.c.kind {
	case 0:
		if !x.full {
			return string(encPts(nil))
		}
		return string(encPts(x.c.rp.V))
	case 3:
		if !x.full || len(x.c.sig.R) == 0 {
			return ""
		}
		var b []byte
		for _, l := range x.c.sig.Keys {
			b = append(b, encPts(l)...)
		}
		return string(b)
	}
	return ""
}

var c19siteList []uint32

func c19sites() []uint32 {
	if c19siteList == nil {
		c19siteList = append(append([]uint32(nil), sitesIn("rangeproof/")...), sitesIn("mlsag/")...)
	}
	return c19siteList
}
