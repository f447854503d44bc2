package props

import (
	"bytes"
	"fmt"
	"math/big"
	"sort"
	"sync"

	ristretto "github.com/bwesterb/go-ristretto"
	"github.com/dusk-network/dusk-crypto/rangeproof"
	"github.com/dusk-network/dusk-crypto/rangeproof/innerproduct"
	"github.com/dusk-network/dusk-crypto/rangeproof/pedersen"

	"verif.local/sim/engine"
	"verif.local/sim/ref"
)

func init() {
	register(&Property{
		ID: "C02", Quick: 600, Thorough: 12000,
		Rule:     "Seeded adversaries alter, splice, drop, duplicate and reorder parts of proofs in memory and on the wire, prove out-of-range values and guess the verifier's weights; each verdict, taken on several nodes, histories, interleavings and verifier randomness, is compared with a reference verifier that decides both equations of the proof separately.",
		Assume:   []string{"a forgery that satisfies both reference equations is a discrete-logarithm break and not searched for"},
		Scenario: c02,
	})
}

// toLib makes the library's object for a proof in the open. The scalars only travel
// over the wire; points are put in directly, so that also degenerate ones get there.
func toLib(r *Run, p *ref.RP) (rangeproof.Proof, error) {
	q := *p
	one := ref.BlindBase()
	q.A, q.S, q.T1, q.T2 = one, one, one, one
	q.L, q.R, q.V = nil, nil, nil
	for i := 0; i < 6; i++ {
		q.L, q.R = append(q.L, one), append(q.R, one)
	}
	var lp rangeproof.Proof
	if err := lp.Decode(bytes.NewReader(q.Encode(false)), false); err != nil {
		return lp, err
	}
	lp.A, lp.S, lp.T1, lp.T2 = p.A, p.S, p.T1, p.T2
	for i := range p.V {
		lp.V = append(lp.V, pedersen.Commitment{Value: p.V[i]})
	}
	if lp.IPProof == nil {
		lp.IPProof = &innerproduct.Proof{}
	}
	lp.IPProof.L = append([]Point(nil), p.L...)
	lp.IPProof.R = append([]Point(nil), p.R...)
	return lp, nil
}

func cloneRP(p *ref.RP) *ref.RP { return engine.DeepCopy(p) }

// mutPoint alters a point.
func mutPoint(r *Run, p *Point, other Point) string {
	switch r.Intn(7) {
	case 0:
		*p = uPoint(r)
		return "random"
	case 1:
		*p = ref.Zero()
		return "neutral"
	case 2:
		*p = ref.PSub(ref.Zero(), *p)
		return "negated"
	case 3:
		*p = ref.PAdd(*p, ref.BlindBase())
		return "+blindbase"
	case 4:
		*p = ref.PAdd(*p, ref.ValueBase())
		return "+valuebase"
	case 5:
		*p = other
		return "other proof's"
	default:
		*p = Point{}
		return "degenerate"
	}
}

func mutScalar(r *Run, s *Scalar, other Scalar) string {
	switch r.Intn(6) {
	case 0:
		*s = ref.Add(*s, ref.S(1))
		return "+1"
	case 1:
		*s = ref.S(0)
		return "zero"
	case 2:
		*s = ref.Neg(*s)
		return "negated"
	case 3:
		*s = other
		return "other proof's"
	case 4:
		*s = ref.Add(*s, ref.SBig(new(big.Int).Lsh(big.NewInt(1), uint(r.Intn(252)))))
		return "+2^k"
	default:
		*s = uScalar(r)
		return "random"
	}
}

// tamperRP alters p in place and describes it.
func tamperRP(r *Run, p, o *ref.RP) string {
	pts := []*Point{&p.A, &p.S, &p.T1, &p.T2}
	opts := []*Point{&o.A, &o.S, &o.T1, &o.T2}
	scs := []*Scalar{&p.Taux, &p.Mu, &p.T, &p.IA, &p.IB}
	oscs := []*Scalar{&o.Taux, &o.Mu, &o.T, &o.IA, &o.IB}
	switch r.Weighted(4, 5, 4, 4, 3, 3, 3, 2, 2, 2, 5) {
	case 10: // both equations hold for the challenges of the proof as it was
		return frozenRP(r, p)
	case 0:
		i := r.Intn(4)
		return fmt.Sprintf("point %d %s", i, mutPoint(r, pts[i], *opts[r.Intn(4)]))
	case 1:
		i := r.Intn(5)
		return fmt.Sprintf("scalar %d %s", i, mutScalar(r, scs[i], *oscs[i]))
	case 2: // commitments
		if len(p.V) == 0 {
			p.V = append(p.V, uPoint(r))
			return "commitment added"
		}
		i := r.Intn(len(p.V))
		switch r.Intn(7) {
		case 0:
			p.V = append(p.V[:i:i], p.V[i+1:]...)
			return fmt.Sprintf("commitment %d dropped", i)
		case 1:
			p.V = append(p.V, p.V[i])
			return "commitment duplicated"
		case 2:
			j := r.Intn(len(p.V))
			p.V[i], p.V[j] = p.V[j], p.V[i]
			return fmt.Sprintf("commitments %d,%d swapped", i, j)
		case 3:
			p.V = append([]Point(nil), o.V...)
			return "commitments of the other proof"
		case 4: // value changed, in the exponent
			d := ref.S(int64(1 + r.Intn(4)))
			if r.Bool(1, 2) {
				d = ref.SBig(new(big.Int).Lsh(big.NewInt(1), uint(r.Intn(200))))
			}
			p.V[i] = ref.PAdd(p.V[i], ref.PMul(ref.ValueBase(), d))
			return fmt.Sprintf("commitment %d to another value", i)
		case 5: // pad to the next power of two
			for n := len(p.V); n > 0; n-- {
				p.V = append(p.V, ref.Zero())
			}
			return "neutral commitments appended"
		default:
			return fmt.Sprintf("commitment %d %s", i, mutPoint(r, &p.V[i], o.V[r.Intn(len(o.V))]))
		}
	case 3: // inner product points
		if len(p.L) == 0 {
			return "none"
		}
		k := r.Intn(len(p.L))
		switch r.Intn(8) {
		case 0:
			p.L[k], p.R[k] = p.R[k], p.L[k]
			return fmt.Sprintf("L%d,R%d swapped", k, k)
		case 1:
			j := r.Intn(len(p.L))
			p.L[k], p.L[j] = p.L[j], p.L[k]
			p.R[k], p.R[j] = p.R[j], p.R[k]
			return fmt.Sprintf("rounds %d,%d swapped", k, j)
		case 2:
			p.L = append(p.L[:k:k], p.L[k+1:]...)
			p.R = append(p.R[:k:k], p.R[k+1:]...)
			return fmt.Sprintf("round %d dropped", k)
		case 3:
			p.L = append(p.L, p.L[k])
			p.R = append(p.R, p.R[k])
			return fmt.Sprintf("round %d duplicated", k)
		case 4:
			p.L = p.L[:len(p.L)-1]
			return "L shorter than R"
		case 5:
			p.L, p.R = nil, nil
			return "no rounds"
		case 6:
			if len(o.R) > 0 {
				return fmt.Sprintf("R%d %s", k, mutPoint(r, &p.R[k], o.R[r.Intn(len(o.R))]))
			}
			return "none"
		default:
			if len(o.L) > 0 {
				return fmt.Sprintf("L%d %s", k, mutPoint(r, &p.L[k], o.L[r.Intn(len(o.L))]))
			}
			return "none"
		}
	case 4: // parts of the other proof
		switch r.Intn(6) {
		case 0:
			p.L, p.R, p.IA, p.IB = o.L, o.R, o.IA, o.IB
			return "inner product proof of the other"
		case 1:
			p.Taux, p.Mu, p.T = o.Taux, o.Mu, o.T
			return "scalars of the other"
		case 2:
			p.T1, p.T2 = o.T1, o.T2
			return "T1,T2 of the other"
		case 3:
			p.A, p.S = o.A, o.S
			return "A,S of the other"
		case 4:
			p.IA, p.IB = o.IA, o.IB
			return "a,b of the other"
		default:
			p.T1, p.T2, p.Taux, p.T = o.T1, o.T2, o.Taux, o.T
			return "polynomial part of the other"
		}
	case 5: // swaps within
		switch r.Intn(5) {
		case 0:
			p.A, p.S = p.S, p.A
			return "A,S swapped"
		case 1:
			p.T1, p.T2 = p.T2, p.T1
			return "T1,T2 swapped"
		case 2:
			p.IA, p.IB = p.IB, p.IA
			return "a,b swapped"
		case 3:
			p.Taux, p.Mu = p.Mu, p.Taux
			return "taux,mu swapped"
		default:
			p.T, p.Mu = p.Mu, p.T
			return "t,mu swapped"
		}
	case 6: // compensating pairs
		d := uScalar(r)
		switch r.Intn(7) {
		case 0:
			p.IA, p.IB = ref.Mul(p.IA, d), ref.Mul(p.IB, ref.Inv(d))
			return "a*d, b/d"
		case 1:
			p.IA, p.IB = ref.Neg(p.IA), ref.Neg(p.IB)
			return "-a, -b"
		case 2:
			p.Mu, p.Taux = ref.Add(p.Mu, d), ref.Sub(p.Taux, d)
			return "mu+d, taux-d"
		case 3:
			p.A = ref.PAdd(p.A, ref.PMul(ref.BlindBase(), d))
			p.Mu = ref.Add(p.Mu, d)
			return "A+dH, mu+d"
		case 4:
			p.T1 = ref.PAdd(p.T1, ref.PMul(ref.BlindBase(), d))
			p.T2 = ref.PSub(p.T2, ref.PMul(ref.BlindBase(), d))
			return "T1+dH, T2-dH"
		case 5:
			if len(p.V) > 1 {
				p.V[0] = ref.PAdd(p.V[0], ref.PMul(ref.ValueBase(), d))
				p.V[1] = ref.PSub(p.V[1], ref.PMul(ref.ValueBase(), d))
			}
			return "V0+dB, V1-dB"
		default:
			if len(p.L) > 1 {
				p.L[0] = ref.PAdd(p.L[0], ref.PMul(ref.BlindBase(), d))
				p.L[1] = ref.PSub(p.L[1], ref.PMul(ref.BlindBase(), d))
			}
			return "L0+dH, L1-dH"
		}
	case 7: // many at once
		s := ""
		for i := 0; i < 2+r.Intn(3); i++ {
			j := r.Intn(5)
			s += fmt.Sprintf("scalar %d %s;", j, mutScalar(r, scs[j], *oscs[j]))
		}
		return s
	case 8: // everything neutral or zero
		for _, q := range pts {
			*q = ref.Zero()
		}
		if r.Bool(1, 2) {
			for _, q := range scs {
				*q = ref.S(0)
			}
		}
		if r.Bool(1, 2) {
			for i := range p.L {
				p.L[i], p.R[i] = ref.Zero(), ref.Zero()
			}
		}
		if r.Bool(1, 2) {
			for i := range p.V {
				p.V[i] = ref.Zero()
			}
		}
		return "neutral elements everywhere"
	default: // degenerate points in several places
		k := 1 + r.Intn(3)
		for i := 0; i < k; i++ {
			l := append([]*Point{}, pts...)
			for j := range p.L {
				l = append(l, &p.L[j])
			}
			for j := range p.R {
				l = append(l, &p.R[j])
			}
			for j := range p.V {
				l = append(l, &p.V[j])
			}
			*l[r.Intn(len(l))] = Point{}
		}
		return "degenerate points"
	}
}

// dishonest makes a proof that does not follow the protocol.
func dishonest(r *Run) (*ref.RP, string) {
	m := 1
	if r.Bool(1, 4) {
		m = 2
	}
	v := make([]Scalar, m)
	for i := range v {
		v[i] = u64Scalar(amount(r))
	}
	rnd := scalarStream(r.Seed())
	off := func() []Scalar {
		switch r.Intn(4) {
		case 0:
			return []Scalar{ref.SBig(new(big.Int).Lsh(big.NewInt(1), 64))}
		case 1:
			return []Scalar{ref.S(-1)}
		case 2:
			return []Scalar{ref.S(1)}
		default:
			return []Scalar{ref.SBig(new(big.Int).Lsh(big.NewInt(1), uint(64+r.Intn(180))))}
		}
	}
	digits := func() func(aL, aR []Scalar) {
		k := r.Intn(6)
		pos := r.Intn(64)
		return func(aL, aR []Scalar) {
			switch k {
			case 0: // digit 2 on top: 2^64
				aL[63], aR[63] = ref.S(2), ref.S(1)
			case 1: // digit -1
				aL[pos], aR[pos] = ref.S(-1), ref.S(-2)
			case 2: // aL not a bit, aR = 0
				aL[pos], aR[pos] = ref.SBig(new(big.Int).Lsh(big.NewInt(1), 80)), ref.S(0)
			case 3: // aR not aL - 1
				aR[pos] = ref.Add(aR[pos], ref.S(1))
			case 4: // aL = 0 = aR
				aL[pos], aR[pos] = ref.S(0), ref.S(0)
			case 5: // aL = 1, aR = -1
				aL[pos], aR[pos] = ref.S(1), ref.S(-1)
			}
		}
	}
	weight := func() (func(x, y, z, w Scalar) Scalar, string) {
		k := r.Intn(9)
		return func(x, y, z, w Scalar) Scalar {
			return []Scalar{ref.S(0), ref.S(1), ref.S(2), ref.S(-1), x, y, z, w, ref.Mul(x, x)}[k]
		}, fmt.Sprint("weight", k)
	}
	switch r.Weighted(2, 3, 3, 2, 6, 2, 2, 2) {
	case 0:
		return ref.Prove(v, rnd, nil), "reference honest"
	case 1:
		return ref.Prove(v, rnd, &ref.Cheat{VOff: off()}), "other value committed"
	case 2:
		return ref.Prove(v, rnd, &ref.Cheat{VOff: off(), FixT: true}), "other value committed, t fixed"
	case 3:
		return ref.Prove(v, rnd, &ref.Cheat{Bits: digits(), FixT: r.Bool(1, 2)}), "digits are no bits"
	case 4:
		w, n := weight()
		return ref.Prove(v, rnd, &ref.Cheat{MuOff: uScalar(r), Weight: w}), "both equations off by a guessed " + n
	case 5:
		return ref.Prove(v, rnd, &ref.Cheat{VOff: off(), AdaptX: true, GuessX: ref.S(int64(1 + r.Intn(3))), FixT: true}), "guessed x"
	case 6:
		return ref.Prove(v, rnd, &ref.Cheat{SkipIP: true}), "arbitrary inner product part"
	default:
		return ref.Prove(v, rnd, &ref.Cheat{TOff: uScalar(r)}), "t off"
	}
}

// frozenRP alters a proof such that a verifier who uses the challenges of the old one
// finds nothing wrong.
func frozenRP(r *Run, p *ref.RP) string {
	y, z, x, w := p.Transcript()
	_ = y
	X, xi := uPoint(r), ref.Inv(x)
	d := uScalar(r)
	Bl, B := ref.BlindBase(), ref.ValueBase()
	if len(p.V) == 0 {
		return "none"
	}
	switch r.Intn(8) {
	case 0:
		p.T1, p.T2 = ref.PAdd(p.T1, X), ref.PSub(p.T2, ref.PMul(X, xi))
		return "T1, T2 balanced for the old challenges"
	case 1:
		p.A, p.S = ref.PAdd(p.A, X), ref.PSub(p.S, ref.PMul(X, xi))
		return "A, S balanced for the old challenges"
	case 2: // another value
		j := r.Intn(len(p.V))
		zj := ref.Mul(z, z)
		for i := 0; i < j; i++ {
			zj = ref.Mul(zj, z)
		}
		X = ref.PMul(B, d)
		p.V[j] = ref.PAdd(p.V[j], X)
		if r.Bool(1, 2) {
			p.T1 = ref.PSub(p.T1, ref.PMul(X, ref.Mul(zj, xi)))
		} else {
			p.T2 = ref.PSub(p.T2, ref.PMul(X, ref.Mul(zj, ref.Mul(xi, xi))))
		}
		return fmt.Sprintf("commitment %d to another value, balanced for the old challenges", j)
	case 3: // the same value blinded differently
		j := r.Intn(len(p.V))
		zj := ref.Mul(z, z)
		for i := 0; i < j; i++ {
			zj = ref.Mul(zj, z)
		}
		p.V[j] = ref.PAdd(p.V[j], ref.PMul(Bl, d))
		p.Taux = ref.Add(p.Taux, ref.Mul(zj, d))
		return fmt.Sprintf("commitment %d blinded differently, balanced for the old challenges", j)
	case 4:
		p.Taux = ref.Add(p.Taux, d)
		p.T1 = ref.PAdd(p.T1, ref.PMul(Bl, ref.Mul(d, xi)))
		return "taux, T1 balanced for the old challenges"
	case 5:
		p.Mu = ref.Add(p.Mu, d)
		p.S = ref.PAdd(p.S, ref.PMul(Bl, ref.Mul(d, xi)))
		return "mu, S balanced for the old challenges"
	case 6:
		p.T = ref.Add(p.T, d)
		p.T2 = ref.PAdd(p.T2, ref.PMul(B, ref.Mul(d, ref.Mul(xi, xi))))
		p.A = ref.PSub(p.A, ref.PMul(B, ref.Mul(w, d)))
		return "t, T2, A balanced for the old challenges"
	}
	if len(p.L) == 0 || len(p.L) != len(p.R) {
		return "none"
	}
	return frozenIP(r, p.L, p.R, X)
}

// frozenIP does so with one round of an inner-product argument.
func frozenIP(r *Run, L, R []Point, X Point) string {
	k := r.Intn(len(L))
	var tr []byte
	for i := 0; i <= k; i++ {
		tr = append(append(tr, L[i].Bytes()...), R[i].Bytes()...)
	}
	u := ref.HashS(tr)
	u2 := ref.Mul(u, u)
	L[k] = ref.PAdd(L[k], X)
	R[k] = ref.PSub(R[k], ref.PMul(X, ref.Mul(u2, u2)))
	return fmt.Sprintf("round %d balanced for the old challenges", k)
}

// learnt makes proofs in which the errors of the two equations cancel if the verifier
// uses the same weights as in an earlier verification of a proof with the same
// commitments.
func learnt(r *Run, n *Node) []*ref.RP {
	v := []Scalar{u64Scalar(amount(r))}
	seed, off := r.Seed(), uScalar(r)
	mk := func(d, c Scalar) *ref.RP {
		return ref.Prove(v, scalarStream(seed), &ref.Cheat{MuOff: d, Weight: func(x, y, z, w Scalar) Scalar { return c }})
	}
	p := mk(ref.S(0), ref.S(0))
	lp, err := toLib(r, p)
	if err != nil {
		return nil
	}
	onA, onT := map[string]Scalar{}, map[string]Scalar{}
	var ok bool
	var mu sync.Mutex
	r.MustDo(n, nil, "Verify", func() {
		ristretto.VerifMul = func(q *Point, s *Scalar) {
			mu.Lock()
			defer mu.Unlock()
			switch {
			case q.Equals(&p.A):
				onA[hx2(s.Bytes())] = *s
			case q.Equals(&p.T1):
				onT[hx2(s.Bytes())] = *s
			}
		}
		defer func() { ristretto.VerifMul = nil }()
		ok, err = rangeproof.Verify(lp)
	})
	r.Check(ok, "honest-rejected", "a proof of the reference prover is refused: %s", errStr(err))
	_, _, x, _ := p.Transcript()
	var l []*ref.RP
	for _, a := range sortedKeys(onA) {
		for _, t := range sortedKeys(onT) {
			if w := onT[t]; len(l) < 2 && w.IsNonZeroI() == 1 {
				l = append(l, mk(off, ref.Mul(onA[a], ref.Inv(ref.Mul(w, ref.Inv(x))))))
			}
		}
	}
	return l
}

func sortedKeys(m map[string]Scalar) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

var (
	bigSizes  = []int{4, 4, 8, 8, 16, 16}
	bigProofs = map[int]*ref.RP{}
)

// bigProof returns an aggregate proof of the reference prover, made once per process.
func bigProof(i int) *ref.RP {
	if bigProofs[i] == nil {
		v := make([]Scalar, bigSizes[i])
		for j := range v {
			v[j] = u64Scalar(uint64(i*104729+j) * 0x9e3779b97f4a7c15)
		}
		bigProofs[i] = ref.Prove(v, scalarStream(uint64(5000+i)), nil)
	}
	return bigProofs[i]
}

type c02job struct {
	what  string
	proof rangeproof.Proof
	want  bool
	why   string
}

func c02(r *Run, idx int) {
	nodes := []*Node{r.NewNode(), r.NewNode()}
	clocks(r, nodes...)
	prove := func() *ref.RP {
		m := 1
		switch r.Weighted(14, 4, 1) {
		case 1:
			m = 2
		case 2:
			m = 3 + r.Intn(2)
		}
		in := make([]Scalar, m)
		oor := false
		for i := range in {
			in[i] = u64Scalar(amount(r))
		}
		if r.Bool(1, 6) {
			oor = true
			b := new(big.Int).Lsh(big.NewInt(int64(1+r.Intn(3))), uint(64+r.Intn(186)))
			b.Add(b, new(big.Int).SetUint64(amount(r)))
			in[r.Intn(m)] = ref.SBig(b)
			r.Note("library asked to prove out of range")
		}
		var p rangeproof.Proof
		var err error
		var w bytes.Buffer
		r.MustDo(nodes[r.Intn(2)], nil, "Prove", func() {
			p, err = rangeproof.Prove(in, oor && r.Bool(1, 3))
			if err == nil {
				err = p.Encode(&w, true)
			}
		})
		if err != nil {
			return nil
		}
		q, e := ref.ParseRP(w.Bytes(), true)
		r.Check(e == nil, "encoding", "the encoding of a proof cannot be read: %v", e)
		return q
	}
	var pool []*ref.RP
	var jobs []*c02job
	addJob := func(p *ref.RP, what string) {
		lp, err := toLib(r, p)
		if err != nil {
			return
		}
		want, why := p.Verify()
		jobs = append(jobs, &c02job{what, lp, want, why})
	}
	big := r.Bool(1, 4) // aggregates of 4, 8 and 16 values, made by the reference prover
	extra := 6
	if big {
		extra = 3
		p := cloneRP(bigProof(r.Intn(len(bigSizes))))
		pool = append(pool, p)
		r.Note(fmt.Sprintf("aggregate of %d", len(p.V)))
		if r.Bool(1, 3) {
			addJob(cloneRP(p), "reference aggregate")
		}
	}
	for i := 0; i < 1+r.Weighted(2, 1) && !big; i++ {
		if p := prove(); p != nil {
			pool = append(pool, p)
			addJob(cloneRP(p), "proof of the library")
		}
	}
	for i := 0; i < r.Intn(2) && !big; i++ {
		p, what := dishonest(r)
		addJob(p, what)
		pool = append(pool, p)
	}
	if len(pool) == 0 {
		p, what := dishonest(r)
		addJob(p, what)
		pool = append(pool, p)
	}
	if !big && r.Bool(1, 6) {
		// an adversary who watches one verification and uses the weights he saw
		for _, p := range learnt(r, nodes[r.Intn(2)]) {
			addJob(p, "both equations off by the weights of another verification")
			r.Note("weights learnt")
		}
	}
	for i, n := 0, 3+r.Intn(extra); i < n; i++ {
		p := cloneRP(pool[r.Intn(len(pool))])
		o := pool[r.Intn(len(pool))]
		if r.Bool(1, 4) { // on the wire
			b := p.Encode(true)
			what := ""
			switch r.Intn(4) {
			case 0:
				k := r.Intn(len(b))
				b[k] ^= 1 << uint(r.Intn(8))
				what = fmt.Sprintf("bit flip in byte %d", k)
				r.Fault("bit-flip")
			case 1:
				b = b[:r.Intn(len(b))]
				what = fmt.Sprintf("truncated to %d", len(b))
				r.Fault("truncation")
			case 2:
				k := 32 * (1 + r.Intn(3))
				b = append(b, b[len(b)-k:]...)
				what = "tail repeated"
				r.Fault("byte-duplication")
			default:
				k := 4 + 32*r.Intn((len(b)-4)/32)
				j := 4 + 32*r.Intn((len(b)-4)/32)
				x := append([]byte(nil), b[k:k+32]...)
				copy(b[k:k+32], b[j:j+32])
				copy(b[j:j+32], x)
				what = fmt.Sprintf("fields at %d and %d exchanged", k, j)
				r.Fault("byte-reordering")
			}
			var lp rangeproof.Proof
			var err error
			r.MustDo(nodes[r.Intn(2)], nil, "Decode", func() { err = lp.Decode(newReader(r, b), true) })
			q, rerr := ref.ParseRP(b, true)
			if err != nil || rerr != nil {
				continue // judged by C13
			}
			want, why := q.Verify()
			jobs = append(jobs, &c02job{what, lp, want, why})
			continue
		}
		what := tamperRP(r, p, o)
		r.Fault("tampering")
		addJob(p, what)
	}
	if r.Bool(1, 5) {
		lifeRP(r, nodes[r.Intn(2)], pool[r.Intn(len(pool))], pool[r.Intn(len(pool))])
	}
	if r.Bool(1, 6) { // shapes only memory can have
		lp, _ := toLib(r, pool[0])
		switch r.Intn(3) {
		case 0:
			lp.IPProof = nil
		case 1:
			lp = rangeproof.Proof{}
		case 2:
			lp = rangeproof.Proof{V: lp.V, IPProof: &innerproduct.Proof{}}
		}
		jobs = append(jobs, &c02job{"incomplete object", lp, false, "incomplete"})
	}
	// verify, some of them twice, a few at a time
	var order []*c02job
	for _, j := range jobs {
		order = append(order, j)
		if r.Bool(1, 5) {
			order = append(order, j)
		}
	}
	perm := r.Perm(len(order))
	for at := 0; at < len(order); {
		k := 1 + r.Intn(3)
		s := r.NewSched()
		for ; k > 0 && at < len(order); k-- {
			j := order[perm[at]]
			at++
			n := nodes[r.Intn(2)]
			if r.Bool(1, 12) {
				r.Restart(n)
			}
			ent := r.Entropy()
			ent.Short = r.Bool(1, 8)
			var ok bool
			var err error
			t := s.Spawn(n, "verify", ent, func() { ok, err = rangeproof.Verify(j.proof) })
			s.PlanSites(t, sitesIn("rangeproof/"))
			t.OnDone = func() {
				if t.Killed {
					return
				}
				taskPanic(r, t, "Verify of a proof with "+j.what)
				acc := ok && err == nil
				r.Tracef("node %d: %s -> %v (reference %v %s)", n.ID, j.what, acc, j.want, j.why)
				if acc != j.want {
					if acc {
						r.Fail("forgery-accepted", "Verify accepts a proof with %s, which is not valid (%s)", j.what, j.why)
					}
					r.Fail("valid-rejected", "Verify rejects (%s) a proof (%s) that satisfies both equations", errStr(err), j.what)
				}
				r.Checks++
				if acc {
					r.Note("accepted")
				} else {
					r.Note("rejected")
				}
			}
		}
		s.Run()
		s.Close()
	}
}
