package props

import (
	"bytes"
	"fmt"

	"github.com/dusk-network/dusk-crypto/rangeproof/innerproduct"

	"verif.local/sim/ref"
)

func init() {
	register(&Property{
		ID: "C23", Quick: 2400, Thorough: 80000,
		Rule:     "Seeded worlds of 1-3 nodes with 1-3 statements over vectors of 1-32 entries (now and then 64-256): proofs by the library and by an independent prover, sent over a faulty network, restarted nodes, verified in interleaved calls against the statement, an altered statement, another statement, and after alterations of the proof; every verdict must be the one of an independent verifier that folds generators round by round. Vectors of unfit lengths must be refused.",
		Scenario: c23,
	})
}

type ipStmt struct {
	id   int
	G, H []Point
	a, b []Scalar
	f    []Scalar
	Q, P Point
}

func (s *ipStmt) clone() *ipStmt {
	c := *s
	c.G, c.H = append([]Point(nil), s.G...), append([]Point(nil), s.H...)
	c.f = append([]Scalar(nil), s.f...)
	return &c
}

func newStmt(r *Run, id int) *ipStmt {
	n := 1 << uint(r.Weighted(2, 4, 4, 3, 1, 1))
	if id == 0 && r.Bool(1, 40) {
		n = 64 << uint(r.Weighted(3, 2, 1))
	}
	s := &ipStmt{id: id}
	if r.Bool(1, 3) {
		s.G, s.H = manyPoints(r, n), manyPoints(r, n)
	} else {
		rnd := scalarStream(r.Seed())
		for i := 0; i < n; i++ {
			s.G, s.H = append(s.G, ref.Base(rnd())), append(s.H, ref.Base(rnd()))
		}
	}
	s.a, s.b, s.f = manyScalars(r, n), manyScalars(r, n), manyScalars(r, n)
	switch r.Weighted(5, 1, 1, 1, 1) {
	case 1:
		for i := range s.f {
			s.f[i] = ref.S(1)
		}
	case 2:
		for i := range s.a {
			s.a[i] = ref.S(0)
		}
	case 3:
		for i := range s.b {
			s.b[i] = s.b[0]
		}
	case 4:
		for i := n / 2; i < n; i++ {
			s.a[i] = ref.S(0)
		}
	}
	s.Q = poolPoint(r)
	s.P = ref.IPCommit(s.G, s.H, s.a, s.b, s.f, s.Q)
	if r.Bool(1, 4) { // factors beyond the vectors are not used
		s.f = append(s.f, manyScalars(r, 1+r.Intn(2))...)
	}
	return s
}

// alterPoint gives a different point.
func alterPoint(r *Run, p *Point) {
	switch r.Intn(4) {
	case 0:
		*p = poolPoint(r)
	case 1:
		p.Neg(p)
	case 2:
		*p = ref.PAdd(*p, ref.BlindBase())
	case 3:
		*p = ref.PAdd(*p, *p)
	}
}

func alterScalar(r *Run, s *Scalar) {
	switch r.Intn(4) {
	case 0:
		*s = scalar(r)
	case 1:
		*s = ref.Neg(*s)
	case 2:
		*s = ref.Add(*s, ref.S(1))
	case 3:
		*s = ref.Add(*s, *s)
	}
}

type c23proof struct {
	st   *ipStmt
	p    *ref.IP
	wire []byte
	obj  *innerproduct.Proof // in memory, from the library
	by   string
}

// alter damages a proof or its statement and says how.
func c23alter(r *Run, s *ipStmt, p *ref.IP, other *ipStmt, op *ref.IP) string {
	rounds := len(p.L)
	switch r.Weighted(2, 4, 2, 2, 2, 3, 3, 2, 2, 2, 1, 3) {
	case 11:
		if rounds > 0 {
			return frozenIP(r, p.L, p.R, uPoint(r))
		}
	case 0:
		alterScalar(r, &p.A)
		return "a"
	case 1:
		if rounds > 0 {
			i := r.Intn(rounds)
			if r.Bool(1, 2) {
				alterPoint(r, &p.L[i])
				return "one L"
			}
			alterPoint(r, &p.R[i])
			return "one R"
		}
		alterScalar(r, &p.B)
		return "b"
	case 2:
		if rounds > 0 {
			i := r.Intn(rounds)
			p.L[i], p.R[i] = p.R[i], p.L[i]
		}
		return "L and R exchanged"
	case 3:
		if rounds > 1 {
			i, j := r.Intn(rounds), r.Intn(rounds)
			p.L[i], p.L[j] = p.L[j], p.L[i]
			p.R[i], p.R[j] = p.R[j], p.R[i]
		}
		return "rounds exchanged"
	case 4: // number of rounds
		if rounds > 0 && r.Bool(1, 2) {
			k := r.Intn(rounds)
			p.L, p.R = p.L[:k], p.R[:k]
			return "rounds cut off"
		}
		for k := 1 + r.Intn(3)*r.Intn(12); k > 0; k-- {
			p.L, p.R = append(p.L, poolPoint(r)), append(p.R, poolPoint(r))
		}
		return "rounds added"
	case 5:
		alterPoint(r, &s.P)
		return "commitment"
	case 6:
		i := r.Intn(len(s.G))
		switch r.Intn(3) {
		case 0:
			alterPoint(r, &s.G[i])
			return "one G"
		case 1:
			alterPoint(r, &s.H[i])
			return "one H"
		}
		alterScalar(r, &s.f[i])
		return "one factor"
	case 7:
		alterPoint(r, &s.Q)
		return "Q"
	case 8:
		if other != nil {
			*s = *other.clone()
		}
		return "another statement"
	case 9:
		if op != nil {
			*p = *op.Clone()
		}
		return "another proof"
	}
	alterScalar(r, &p.B)
	return "b"
}

func libIP(p *ref.IP) *innerproduct.Proof {
	return &innerproduct.Proof{A: p.A, B: p.B, L: append([]Point(nil), p.L...), R: append([]Point(nil), p.R...)}
}

func c23(r *Run, idx int) {
	var nodes []*Node
	for i, n := 0, 1+r.Intn(3); i < n; i++ {
		nodes = append(nodes, r.NewNode())
	}
	clocks(r, nodes...)
	net := newNet(r)
	s := r.NewSched()
	var stmts []*ipStmt
	for i, n := 0, 1+r.Intn(3); i < n; i++ {
		stmts = append(stmts, newStmt(r, i))
	}
	var proofs []*c23proof
	todo := 2 + r.Intn(3)

	publish := func(p *c23proof) {
		proofs = append(proofs, p)
		r.Mix(p.wire)
		for _, d := range nodes {
			net.Send(&Msg{From: 0, To: d.ID, Obj: p})
		}
	}
	generate := func() {
		st := stmts[r.Intn(len(stmts))]
		n := nodes[r.Intn(len(nodes))]
		if r.Bool(1, 5) {
			p := ref.IPProve(st.G, st.H, st.a, st.b, st.f, st.Q)
			publish(&c23proof{st: st, p: p, wire: p.Encode(), by: "the reference"})
			r.Note("reference-proof")
			return
		}
		G, H, a, b, f := st.G, st.H, st.a, st.b, st.f
		bad := ""
		if r.Bool(1, 6) { // unfit lengths
			k := r.Intn(len(G))
			switch r.Intn(8) {
			case 0:
				G, bad = G[:k], "G short"
			case 1:
				H, bad = H[:k], "H short"
			case 2:
				a, bad = a[:k], "a short"
			case 3:
				b, bad = b[:k], "b short"
			case 4:
				f, bad = f[:k], "factors short"
			case 5:
				G, H, a, b, f, bad = nil, nil, nil, nil, nil, "empty"
			case 6:
				a, b, bad = a[:k], b[:k], "a and b short"
			case 7:
				G, H = append(append([]Point(nil), G...), manyPoints(r, 1)...), append(append([]Point(nil), H...), manyPoints(r, 1)...)
				a, b = append(append([]Scalar(nil), a...), ref.S(1)), append(append([]Scalar(nil), b...), ref.S(1))
				f = append(append([]Scalar(nil), f...), ref.S(1))
				bad = "not a power of two"
				if len(G) == 2 {
					bad = ""
				}
			}
			if bad == "" {
				G, H, a, b, f = st.G, st.H, st.a, st.b, st.f
			}
		}
		var p *innerproduct.Proof
		var err error
		var wire bytes.Buffer
		var werr error
		t := s.Spawn(n, "generate", nil, func() {
			p, err = innerproduct.Generate(G, H, a, b, f, st.Q)
			if err == nil && p != nil {
				werr = p.Encode(&wire)
			}
		})
		s.PlanSites(t, sitesIn("rangeproof/innerproduct/"))
		r.Tracef("node %d proves statement %d of %d entries %s", n.ID, st.id, len(st.G), bad)
		t.OnDone = func() {
			if t.Killed {
				return
			}
			taskPanic(r, t, "Generate ("+bad+")")
			if bad != "" {
				r.Check(err != nil, "unfit-accepted", "Generate accepted vectors with %s: lengths G %d, H %d, a %d, b %d, factors %d", bad, len(G), len(H), len(a), len(b), len(f))
				r.Note("refused")
				return
			}
			r.Check(err == nil && p != nil && werr == nil, "prove-failed", "Generate over %d entries failed: %s %s", len(G), errStr(err), errStr(werr))
			q := &ref.IP{A: p.A, B: p.B, L: append([]Point(nil), p.L...), R: append([]Point(nil), p.R...)}
			ok, why := q.Verify(st.G, st.H, st.f, st.Q, st.P)
			r.Check(ok, "invalid-proof", "the proof of node %d over %d entries is not valid: %s", n.ID, len(st.G), why)
			r.Check(bytes.Equal(wire.Bytes(), q.Encode()), "bad-encoding", "the encoding of a proof over %d entries is not the standard one", len(G))
			r.Note("proof")
			publish(&c23proof{st: st, p: q, wire: append([]byte(nil), wire.Bytes()...), obj: p, by: fmt.Sprint("node ", n.ID)})
		}
	}
	verify := func(m *Msg) {
		pr := m.Obj.(*c23proof)
		n := nodes[m.To]
		st, p := pr.st.clone(), pr.p.Clone()
		how := ""
		if r.Bool(2, 3) {
			var o *ipStmt
			var op *ref.IP
			if len(stmts) > 1 {
				o = stmts[r.Intn(len(stmts))]
			}
			if len(proofs) > 1 {
				op = proofs[r.Intn(len(proofs))].p
			}
			how = c23alter(r, st, p, o, op)
			r.Fault("altered")
		} else {
			st = pr.st // shared
		}
		want, why := p.Verify(st.G, st.H, st.f, st.Q, st.P)
		mode := r.Weighted(3, 2, 1)
		rd := newReader(r, p.Encode())
		q := libIP(p)
		if mode == 2 {
			if how == "" && pr.obj != nil {
				q = pr.obj
			} else if how != "" && r.Bool(1, 3) { // uninitialised points
				switch {
				case len(q.L) > 0 && r.Bool(1, 2):
					q.L[r.Intn(len(q.L))] = Point{}
				case len(q.R) > 0:
					q.R[r.Intn(len(q.R))] = Point{}
				default:
					st = st.clone()
					st.P = Point{}
				}
				how += ", uninitialised point"
				want, why = false, "uninitialised"
			} else if how != "" && len(q.L) > 0 && r.Bool(1, 2) { // unequal numbers
				q.L = q.L[:len(q.L)-1]
				how += ", one L less"
				want, why = false, "unequal numbers"
			}
		}
		var got bool
		var derr error
		t := s.Spawn(n, "verify", nil, func() {
			if mode == 0 {
				q = &innerproduct.Proof{}
				if derr = q.Decode(rd); derr != nil {
					return
				}
			}
			got = q.Verify(st.G, st.H, q.L, q.R, st.f, st.Q, st.P, len(st.G))
		})
		s.PlanSites(t, sitesIn("rangeproof/innerproduct/"))
		what := fmt.Sprintf("verification by node %d of the proof of statement %d (%d entries) by %s, altered: %q", n.ID, pr.st.id, len(st.G), pr.by, how)
		r.Tracef("%s", what)
		t.OnDone = func() {
			if t.Killed {
				if how == "" {
					net.Send(m)
				}
				return
			}
			taskPanic(r, t, what)
			r.Check(derr == nil, "decode-failed", "%s: decoding failed: %s", what, errStr(derr))
			r.Check(got == want, "wrong-verdict", "%s: answers %v instead of %v (%s)", what, got, want, why)
			if want {
				r.Note("accepted")
			} else {
				r.Note("rejected")
			}
		}
	}
	for step := 0; step < 60000; step++ {
		faults := step < 2000
		if !faults && !net.Heal {
			net.Recover()
		}
		live := len(s.Live())
		switch {
		case todo > 0 && (live == 0 || r.Bool(1, 4)):
			todo--
			generate()
		case net.Pending() > 0 && (live == 0 || r.Bool(1, 4)):
			if m := net.Deliver(); m != nil {
				verify(m)
			}
		case faults && live > 0 && r.Bool(1, 60):
			r.Restart(nodes[r.Intn(len(nodes))])
		case faults && r.Bool(1, 60):
			net.Toggle(r.Intn(len(nodes)))
		default:
			if !s.Step() && todo == 0 && net.Pending() == 0 {
				if net.Heal {
					if len(proofs) > 0 && r.Bool(1, 3) {
						lifeIP(r, nodes[r.Intn(len(nodes))], proofs[r.Intn(len(proofs))], stmts[r.Intn(len(stmts))], proofs[r.Intn(len(proofs))].p)
					}
					return
				}
				net.Recover()
			}
		}
	}
	r.Check(false, "no-progress", "work was left after all faults had stopped")
}
