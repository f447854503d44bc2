package props

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math/big"
	"sync"

	ristretto "github.com/bwesterb/go-ristretto"
	"github.com/dusk-network/dusk-crypto/bls"
	"github.com/dusk-network/dusk-crypto/hash"
	"github.com/dusk-network/dusk-crypto/mlsag"
	"github.com/dusk-network/dusk-crypto/rangeproof"
	"github.com/dusk-network/dusk-crypto/rangeproof/pedersen"
	"github.com/dusk-network/dusk-crypto/ringsig/blsag"

	"verif.local/sim/engine"
	"verif.local/sim/ref"
)

func init() {
	register(&Property{
		ID: "C11", Quick: 2600, Thorough: 40000,
		Rule:     "Seeded histories of signing, committing, proving, verifying and key generation on nodes whose clocks are frozen or repeated and whose process-wide random state is the same after every restart, with a random source that delivers short reads. Nonces and blinders are recovered from the published values with the private keys and must be full-size and pairwise different over the whole history; every operation must draw at least as much as its secrets need; repeating it with the same source but another clock and process state must give the same result, with another source a result that shares no part. Key generation is run over chunked, failing and exhausted sources.",
		Assume:   []string{"256 bit values drawn from the source do not repeat by chance"},
		Scenario: c11,
	})
}

// drawn counts the secrets that can come from the reads of a stream.
func drawn(s *engine.Stream) int {
	n := 0
	for _, k := range s.Sizes {
		switch {
		case k > 64:
			n += k / 32
		case k >= 32:
			n++
		}
	}
	return n
}

// secretBook remembers all secrets of a history.
type secretBook struct {
	r    *Run
	seen map[string]string
}

func (b *secretBook) add(s Scalar, what string) {
	v := s.BigInt()
	w := new(big.Int).Sub(ref.Ell, v)
	b.r.Check(v.BitLen() > 180 && w.BitLen() > 180, "weak-secret", "%s is %s: not drawn in full", what, hx2(s.Bytes()))
	k := hx2(s.Bytes())
	if old, ok := b.seen[k]; ok {
		b.r.Fail("secret-reused", "%s equals %s", what, old)
	}
	b.seen[k] = what
	if old, ok := b.seen[hx2(func() []byte { n := ref.Neg(s); return n.Bytes() }())]; ok {
		b.r.Fail("secret-reused", "%s is the negative of %s", what, old)
	}
}

// secretOp is an operation that needs fresh secrets. run executes it; parts lists the
// published values that depend on its secrets; secrets reports the recovered ones.
type secretOp struct {
	name    string
	need    int // number of secrets
	run     func()
	panicOK bool
	err     func() error
	parts   func() []string
	secrets func(add func(Scalar, string))
	log     func(log []byte) // deeper look at what was drawn
}

func mkMlsag(r *Run, x, z Scalar, pool [][]Point, msg []byte) *secretOp {
	lib := libRing(pool)
	var sig *mlsag.Signature
	var img Point
	var err error
	var b bytes.Buffer
	var m *ref.MLSAG
	parse := func() {
		if m == nil {
			p, _, perr := ref.ParseMLSAG(b.Bytes(), true)
			r.Check(perr == nil, "bad-encoding", "a signature's encoding cannot be read: %s", errStr(perr))
			m = p
			m.Msg = msg
		}
	}
	own := memberText([]Point{ref.Base(x), ref.Base(z)})
	return &secretOp{
		name: fmt.Sprintf("mlsag signature, ring of %d", len(pool)+1),
		need: 2 * (len(pool) + 1),
		run: func() {
			m = nil
			b.Reset()
			d := mlsag.NewDualKey()
			d.SetPrimaryKey(x)
			d.SetCommToZero(z)
			d.SetMsg(msg)
			d.AddDecoys(lib)
			sig, img, err = d.Prove()
			if err == nil {
				err = sig.Encode(&b, true)
			}
		},
		err: func() error { return err },
		parts: func() []string {
			parse()
			l := []string{hx2(m.C.Bytes())}
			for i := range m.R {
				for j := range m.R[i] {
					l = append(l, hx2(m.R[i][j].Bytes()))
				}
			}
			return l
		},
		secrets: func(add func(Scalar, string)) {
			parse()
			cs := m.Challenges([]Point{img})
			for i := range m.R {
				signer := i < len(m.Keys) && memberText(m.Keys[i]) == own
				for j := range m.R[i] {
					if signer && j < 2 {
						add(ref.Add(m.R[i][j], ref.Mul(cs[i], []Scalar{x, z}[j])), fmt.Sprintf("signing nonce %d", j))
					} else {
						add(m.R[i][j], fmt.Sprintf("decoy response %d/%d", i, j))
					}
				}
			}
		},
	}
}

func mkBlsag(r *Run, x Scalar, mx []Point, msg []byte) *secretOp {
	var sig blsag.RingSignature
	own := ptText(ref.Base(x))
	return &secretOp{
		name: fmt.Sprintf("blsag signature, ring of %d", len(mx)+1),
		need: len(mx) + 1,
		run:  func() { sig = blsag.Sign(msg, mx, x) },
		err:  func() error { return nil },
		parts: func() []string {
			l := []string{hx2(sig.C.Bytes())}
			for i := range sig.S {
				l = append(l, hx2(sig.S[i].Bytes()))
			}
			return l
		},
		secrets: func(add func(Scalar, string)) {
			if len(sig.S) != len(sig.PubKeys) {
				return
			}
			m := &ref.Ring{I: sig.I, C: sig.C, S: sig.S, Keys: sig.PubKeys}
			cs := m.Challenges(msg)
			for i := range m.S {
				if ptText(m.Keys[i]) == own {
					add(ref.Add(m.S[i], ref.Mul(cs[i], x)), "signing nonce")
				} else {
					add(m.S[i], fmt.Sprintf("decoy response %d", i))
				}
			}
		},
	}
}

func mkCommit(r *Run, ped *pedersen.Pedersen, vecs [][]Scalar) *secretOp {
	var c pedersen.Commitment
	name := "CommitToScalar"
	if len(vecs) != 1 || len(vecs[0]) != 1 || r.Bool(1, 3) {
		name = fmt.Sprintf("CommitToVectors of %d", len(vecs))
	}
	vec := name != "CommitToScalar"
	return &secretOp{
		name: name,
		need: 1,
		run: func() {
			if vec {
				c = ped.CommitToVectors(vecs...)
			} else {
				c = ped.CommitToScalar(vecs[0][0])
			}
		},
		err: func() error { return nil },
		parts: func() []string {
			if vec && len(vecs) == 0 {
				return []string{hx2(c.BlindingFactor.Bytes())}
			}
			return []string{hx2(c.Value.Bytes()), hx2(c.BlindingFactor.Bytes())}
		},
		secrets: func(add func(Scalar, string)) { add(c.BlindingFactor, "blinder of "+name) },
	}
}

func mkProve(r *Run, vals []Scalar, debug bool) *secretOp {
	var p rangeproof.Proof
	var err error
	var b bytes.Buffer
	var q *ref.RP
	type mul struct {
		p Point
		s Scalar
	}
	var muls []mul
	var mu sync.Mutex
	m := 1
	for m < len(vals) {
		m *= 2
	}
	parse := func() {
		if q == nil {
			var perr error
			q, perr = ref.ParseRP(b.Bytes(), true)
			r.Check(perr == nil, "bad-encoding", "a proof's encoding cannot be read: %s", errStr(perr))
		}
	}
	op := &secretOp{
		name: fmt.Sprintf("range proof of %d values", len(vals)),
		need: 4 + m + 128*m,
		run: func() {
			q = nil
			b.Reset()
			muls = nil
			ristretto.VerifMul = func(q *Point, s *Scalar) {
				mu.Lock()
				defer mu.Unlock()
				muls = append(muls, mul{*q, *s})
			}
			defer func() { ristretto.VerifMul = nil }()
			p, err = rangeproof.Prove(vals, debug)
			ristretto.VerifMul = nil
			if err == nil {
				err = p.Encode(&b, true)
			}
		},
		err: func() error { return err },
		parts: func() []string {
			parse()
			var l []string
			for _, x := range q.V {
				l = append(l, hx2(x.Bytes()))
			}
			for _, x := range []Point{q.A, q.S, q.T1, q.T2} {
				l = append(l, hx2(x.Bytes()))
			}
			for _, x := range []Scalar{q.Taux, q.Mu, q.T, q.IA, q.IB} {
				l = append(l, hx2(x.Bytes()))
			}
			for i := range q.L {
				l = append(l, hx2(q.L[i].Bytes()), hx2(q.R[i].Bytes()))
			}
			return l
		},
		secrets: func(add func(Scalar, string)) {
			for i := range p.V {
				add(p.V[i].BlindingFactor, fmt.Sprintf("blinder of value %d", i))
			}
		},
	}
	op.log = func(log []byte) {
		parse()
		// the drawn scalars
		var e []Scalar
		at := map[string][]int{}
		for i := 0; i+64 <= len(log); i += 64 {
			var x [64]byte
			copy(x[:], log[i:])
			var s Scalar
			s.SetReduced(&x)
			k := hx2(s.Bytes())
			at[k] = append(at[k], len(e))
			e = append(e, s)
		}
		_, z, x, _ := q.Transcript()
		// mu = alpha + rho x, taux = sum z^(2+i) blinder_i + tau1 x + tau2 x^2
		rest := q.Taux
		zz := ref.Mul(z, z)
		used := map[int]string{}
		for i := range p.V {
			rest = ref.Sub(rest, ref.Mul(zz, p.V[i].BlindingFactor))
			zz = ref.Mul(zz, z)
			if l := at[hx2(p.V[i].BlindingFactor.Bytes())]; len(l) > 0 {
				used[l[0]] = fmt.Sprintf("the blinder of value %d", i)
			}
		}
		pair := func(target, f1, f2 Scalar, n1, n2 string) {
			// target = f1 e_i + f2 e_j
			inv := ref.Inv(f1)
			for j := range e {
				c := ref.Mul(ref.Sub(target, ref.Mul(f2, e[j])), inv)
				l, ok := at[hx2(c.Bytes())]
				if !ok {
					continue
				}
				i := l[0]
				r.Check(i != j, "secret-reused", "%s: %s equals %s", op.name, n1, n2)
				for _, k := range []int{i, j} {
					n := n1
					if k == j {
						n = n2
					}
					if o, ok := used[k]; ok {
						r.Fail("secret-reused", "%s: %s equals %s", op.name, n, o)
					}
					used[k] = n
				}
				r.Note("blinders-recovered")
				return
			}
			// a zero or constant part
			for j := range e {
				for _, f := range []Scalar{f1, f2} {
					t := ref.Mul(f, e[j])
					if t.Equals(&target) {
						r.Fail("weak-secret", "%s: one of %s and %s is zero", op.name, n1, n2)
					}
				}
			}
			r.Note("blinders-not-recovered")
		}
		pair(q.Mu, ref.S(1), x, "the blinder of A", "the blinder of S")
		pair(rest, x, ref.Mul(x, x), "the blinder of T1", "the blinder of T2")
		// S = rho B + <sL, G> + <sR, H>: a drawn scalar is the factor of one generator
		gens := ref.Gens("dusk.BulletProof.vec1", 64*m)
		gens = append(gens, ref.Gens("dusk.BulletProof.vec1\x01", 64*m)...)
		gens = append(gens, ref.BlindBase())
		index := map[string]int{}
		for i := range gens {
			index[string(gens[i].Bytes())] = i
		}
		factor := map[string]int{}
		for _, f := range muls {
			k := hx2(f.s.Bytes())
			if _, ok := at[k]; !ok {
				continue
			}
			g, ok := index[string(f.p.Bytes())]
			if !ok {
				continue
			}
			if old, ok := factor[k]; ok && old != g {
				r.Fail("secret-reused", "%s: one random scalar is the factor of the generators %d and %d", op.name, old, g)
			}
			factor[k] = g
		}
		r.Checks++
		if len(factor) >= 128*m {
			r.Note("blinding-vectors-recovered")
		}
	}
	return op
}

func mkVerify(r *Run, p rangeproof.Proof) *secretOp {
	var ok bool
	var err error
	return &secretOp{
		name: "range proof verification",
		need: 1,
		run:  func() { ok, err = rangeproof.Verify(p) },
		err: func() error {
			if !ok && err == nil {
				return errors.New("refused")
			}
			return err
		},
		parts:   func() []string { return nil },
		secrets: func(add func(Scalar, string)) {},
	}
}

func mkKey(r *Run) *secretOp {
	var pk *bls.PublicKey
	var err error
	return &secretOp{
		name: "bls.GenKeyPair(nil)",
		need: 1,
		run:  func() { pk, _, err = bls.GenKeyPair(nil) },
		err:  func() error { return err },
		parts: func() []string {
			return []string{hx2(pk.Marshal())}
		},
		secrets: func(add func(Scalar, string)) {},
	}
}

func drawOp(r *Run, x, z Scalar, heavy bool) *secretOp {
	w := 0
	if heavy {
		w = 6
	}
	switch r.Weighted(5, 5, 4, w, 2) {
	case 0:
		pool := decoyPool(r, ringSize(r)%9, nil)
		return mkMlsag(r, x, z, pool, message(r, 200))
	case 1:
		var mx []Point
		for i, n := 0, ringSize(r)%9; i < n; i++ {
			mx = append(mx, uPoint(r))
		}
		return mkBlsag(r, x, mx, message(r, 200))
	case 2:
		ped := pedersen.New(message(r, 40))
		var vecs [][]Scalar
		for i, n := 0, 1+r.Intn(3); i < n; i++ {
			var v []Scalar
			for j, k := 0, 1+r.Intn(4); j < k; j++ {
				v = append(v, scalar(r))
			}
			vecs = append(vecs, v)
		}
		return mkCommit(r, ped, vecs)
	case 3:
		var v []Scalar
		n := []int{1, 1, 2, 1, 3, 5, 6}[r.Weighted(3, 3, 3, 3, 3, 1, 1)]
		for i := 0; i < n; i++ {
			v = append(v, u64Scalar(amount(r)))
		}
		return mkProve(r, v, r.Bool(1, 4))
	default:
		return mkKey(r)
	}
}

var c11proof *rangeproof.Proof

func c11(r *Run, idx int) {
	var nodes []*Node
	for i, n := 0, 1+r.Intn(3); i < n; i++ {
		n := r.NewNode()
		r.SetBoot(n, 1)
		if r.Bool(1, 2) {
			r.Freeze(n)
		}
		nodes = append(nodes, n)
	}
	switch r.Weighted(6, 2, 1) {
	case 1:
		c11keys(r, nodes)
		return
	case 2:
		c11entropy(r, nodes)
		return
	}
	heavy := r.Bool(1, 4)
	x, z := secret(r), secret(r)
	if ptText(ref.Base(x)) == ptText(ref.Base(z)) {
		z = ref.Add(z, ref.S(5))
	}
	book := &secretBook{r, map[string]string{}}
	var published = map[string]string{}
	n := 2 + r.Intn(4)
	if heavy {
		n = 2
	}
	sameInputs := r.Bool(1, 2)
	var op0 *secretOp
	for i := 0; i < n; i++ {
		node := nodes[r.Intn(len(nodes))]
		if r.Bool(1, 3) {
			r.Restart(node)
			r.SetBoot(node, 1)
		}
		op := op0
		if op == nil || !sameInputs {
			op = drawOp(r, x, z, heavy)
			op0 = op
		}
		ent := r.Entropy()
		ent.Keep = true
		base := ent.Clone() // for repetition
		r.MustDo(node, ent, op.name, op.run)
		r.Check(op.err() == nil, "operation-failed", "%s failed: %s", op.name, errStr(op.err()))
		r.Note(op.name)
		r.Tracef("%s on node %d drew %d bytes", op.name, node.ID, ent.N)
		if engine.NonSerial() == "" {
			r.Check(ent.N >= 32*op.need && drawn(ent) >= op.need, "too-little-entropy", "%s drew %d bytes in %d reads, too little for %d secrets", op.name, ent.N, ent.Reads, op.need)
		}
		first := op.parts()
		op.secrets(func(s Scalar, what string) { book.add(s, op.name+" #"+fmt.Sprint(i)+": "+what) })
		if op.log != nil && engine.NonSerial() == "" {
			op.log(ent.Log)
		}
		for _, p := range first {
			r.Checks++
			if old, ok := published[p]; ok {
				r.Fail("secret-reused", "%s publishes the same value as %s", op.name, old)
			}
			published[p] = op.name
		}
		if engine.NonSerial() != "" {
			continue
		}
		// the same source, but another clock, another process and short reads
		if r.Bool(1, 2) && ent.KidReads == 0 {
			other := r.NewNode()
			r.SetBoot(other, int64(r.Seed()>>1))
			r.Jump(other, clockJump(r))
			if base.Short = r.Bool(1, 2); base.Short {
				r.Fault("short-entropy-read")
			}
			r.MustDo(other, base, op.name+" repeated", op.run)
			r.Check(op.err() == nil, "operation-failed", "%s failed with short reads from the random source: %s", op.name, errStr(op.err()))
			again := op.parts()
			r.Check(fmt.Sprint(again) == fmt.Sprint(first), "not-from-secure-source", "%s gives another result with the same random source but another clock, process state or read size: it depends on something else", op.name)
		}
		// the same circumstances, but another source
		if r.Bool(1, 2) {
			was := node.Froze
			r.Restart(node)
			r.SetBoot(node, 1)
			if !was {
				r.Freeze(node)
			}
			e2 := r.Entropy()
			e2.Short = r.Bool(1, 3)
			r.MustDo(node, e2, op.name+" with other randomness", op.run)
			node.Froze = was
			r.Check(op.err() == nil, "operation-failed", "%s failed: %s", op.name, errStr(op.err()))
			op.secrets(func(s Scalar, what string) { book.add(s, op.name+" #"+fmt.Sprint(i)+" repeated: "+what) })
			for _, p := range op.parts() {
				r.Checks++
				if old, ok := published[p]; ok {
					r.Fail("secret-reused", "%s with another random source publishes the same value as %s before", op.name, old)
				}
				published[p] = op.name
			}
		}
	}
	// verification of a range proof draws a fresh weight
	if heavy {
		if c11proof == nil {
			b := ref.Prove([]Scalar{ref.S(5)}, scalarStream(1), nil).Encode(true)
			var p rangeproof.Proof
			r.MustDo(nodes[0], nil, "Decode", func() {
				if err := p.Decode(bytes.NewReader(b), true); err != nil {
					r.Fail("operation-failed", "a reference proof cannot be decoded: %s", errStr(err))
				}
			})
			c11proof = &p
		}
		op := mkVerify(r, engine.DeepCopy(*c11proof))
		ent := r.Entropy()
		ent.Keep = true
		ent.Short = r.Bool(1, 3)
		r.MustDo(nodes[0], ent, op.name, op.run)
		r.Check(op.err() == nil, "operation-failed", "%s: %s", op.name, errStr(op.err()))
		r.Check(ent.N >= 32 || engine.NonSerial() != "", "too-little-entropy", "%s drew %d bytes: its weight is not fresh", op.name, ent.N)
	}
	// interleaved operations
	if !heavy && r.Bool(1, 2) {
		s := r.NewSched()
		for i, n := 0, 2+r.Intn(3); i < n; i++ {
			op := drawOp(r, x, z, false)
			node := nodes[r.Intn(len(nodes))]
			t := s.Spawn(node, op.name, nil, op.run)
			s.PlanSites(t, sitesIn("")) // anywhere
			k := i
			t.OnDone = func() {
				taskPanic(r, t, op.name)
				r.Check(op.err() == nil, "operation-failed", "%s failed: %s", op.name, errStr(op.err()))
				op.secrets(func(s Scalar, what string) { book.add(s, fmt.Sprintf("%s (interleaved %d): %s", op.name, k, what)) })
				for _, p := range op.parts() {
					r.Checks++
					if old, ok := published[p]; ok {
						r.Fail("secret-reused", "interleaved %s publishes the same value as %s", op.name, old)
					}
					published[p] = op.name
				}
			}
		}
		s.Run()
		s.Close()
	}
}

// c11keys runs key generation over hostile sources.
func c11keys(r *Run, nodes []*Node) {
	keys := map[string]string{}
	for i, n := 0, 2+r.Intn(3); i < n; i++ {
		node := nodes[r.Intn(len(nodes))]
		content := engine.Expand(r.Seed()|1, 4096)
		if r.Bool(1, 4) { // values at and beyond the group order come first
			for j, k := 0, 32*(1+r.Intn(3)); j < k; j++ {
				content[j] = 0xff
			}
			r.Note("rejected-candidates")
		}
		gen := func(src io.Reader, ent *engine.Stream) (string, error) {
			var pk *bls.PublicKey
			var sk *bls.SecretKey
			var err error
			var out string
			r.MustDo(node, ent, "bls.GenKeyPair", func() {
				pk, sk, err = bls.GenKeyPair(src)
			})
			if err != nil {
				r.Check(pk == nil && sk == nil, "key-despite-error", "GenKeyPair returns a key together with an error")
				return "", err
			}
			r.Check(pk != nil && sk != nil, "no-key", "GenKeyPair returns neither key nor error")
			r.MustDo(node, nil, "key use", func() {
				out = hx2(pk.Marshal())
				sig, serr := bls.UnsafeSign(sk, []byte("m"))
				if serr == nil {
					serr = bls.VerifyUnsafe(pk, []byte("m"), sig)
				}
				err = serr
			})
			r.Check(err == nil, "key-mismatch", "generated keys do not belong together: %s", errStr(err))
			return out, nil
		}
		ent := r.Entropy()
		plain := &faultyReader{data: content, failAt: -1, err: errInjected}
		k1, err := gen(plain, ent)
		r.Check(err == nil, "no-key", "GenKeyPair fails on an intact source: %s", errStr(err))
		r.Check(ent.N == 0, "other-source", "GenKeyPair drew %d bytes from the process's own source although one was handed over", ent.N)
		r.Check(plain.pos >= 32, "too-little-entropy", "GenKeyPair used only %d bytes of its source", plain.pos)
		if old, ok := keys[k1]; ok {
			r.Check(old == hx2(content), "secret-reused", "different source contents give the same key")
		}
		keys[k1] = hx2(content)
		// the same content in other pieces on another node
		node = nodes[r.Intn(len(nodes))]
		if r.Bool(1, 2) {
			r.Restart(node)
			r.SetBoot(node, int64(r.Seed()>>1))
			r.Jump(node, clockJump(r))
		}
		f := newReader(r, content)
		k2, err := gen(f, nil)
		r.Check(err == nil, "no-key", "GenKeyPair fails on a source with short reads: %s", errStr(err))
		r.Check(k1 == k2, "key-not-determined", "equal source contents give different keys")
		// every byte counts: another content gives another key
		if r.Bool(1, 2) && plain.pos <= 160 { // not read ahead
			c2 := append([]byte(nil), content...)
			lo := plain.pos - 32
			if lo < 0 {
				lo = 0
			}
			c2[lo+8+r.Intn(plain.pos-lo-8)] ^= 1 << uint(r.Intn(8))
			k3, err := gen(&faultyReader{data: c2, failAt: -1}, nil)
			r.Check(err == nil, "no-key", "GenKeyPair fails on an intact source: %s", errStr(err))
			r.Check(k3 != k1, "too-little-entropy", "changing one bit of the source content used does not change the key")
		}
		// failing and exhausted sources
		for j := 0; j < 3; j++ {
			f := newReader(r, content)
			cut := r.Intn(plain.pos + 8)
			switch r.Intn(4) {
			case 0:
				cut = plain.pos - 1
			case 1:
				cut = 0
			}
			if r.Bool(1, 2) {
				f.failAt = cut
				r.Fault("entropy-source-failure")
			} else {
				f.data = content[:cut]
				r.Fault("entropy-source-exhausted")
			}
			k, err := gen(f, nil)
			if err == nil {
				r.Check(cut >= 32, "key-from-failing-source", "GenKeyPair returns a key although its source ended after %d bytes", cut)
				r.Check(k == k1, "key-not-determined", "a source that fails after %d bytes gives another key", cut)
			} else {
				r.Check(cut < plain.pos, "no-key", "GenKeyPair fails although its source fails only after the %d bytes it needs", plain.pos)
			}
		}
	}
	// keys from the process's own source differ
	for i := 0; i < 2; i++ {
		node := nodes[r.Intn(len(nodes))]
		r.Restart(node)
		r.SetBoot(node, 1)
		ent := r.Entropy()
		ent.Short = r.Bool(1, 2)
		var pk *bls.PublicKey
		var err error
		r.MustDo(node, ent, "bls.GenKeyPair(nil)", func() { pk, _, err = bls.GenKeyPair(nil) })
		r.Check(err == nil, "no-key", "GenKeyPair(nil) fails: %s", errStr(err))
		r.Check(ent.N >= 32, "too-little-entropy", "GenKeyPair(nil) drew %d bytes", ent.N)
		k := hx2(pk.Marshal())
		_, ok := keys[k]
		r.Check(!ok, "secret-reused", "two generated keys are equal")
		keys[k] = fmt.Sprint(i)
	}
}

// c11entropy checks the entropy helper.
func c11entropy(r *Run, nodes []*Node) {
	for i, n := 0, 2+r.Intn(6); i < n; i++ {
		node := nodes[r.Intn(len(nodes))]
		size := msgLen(r, 70000)
		ent := r.Entropy()
		if ent.Short = r.Bool(1, 2); ent.Short {
			r.Fault("short-entropy-read")
		}
		want := make([]byte, size)
		cl := ent.Clone()
		for p := 0; p < size; {
			k, _ := cl.Read(want[p:])
			p += k
		}
		var got, got2 []byte
		var err error
		r.MustDo(node, ent, "hash.RandEntropy", func() { got, err = hash.RandEntropy(uint32(size)) })
		r.Check(err == nil, "entropy-error", "RandEntropy(%d) fails: %s", size, errStr(err))
		r.Check(len(got) == size, "entropy-length", "RandEntropy(%d) returns %d bytes", size, len(got))
		r.Check(bytes.Equal(got, want), "entropy-content", "RandEntropy(%d) does not return the bytes of the source", size)
		snap := append([]byte(nil), got...)
		r.MustDo(node, ent, "hash.RandEntropy", func() { got2, err = hash.RandEntropy(uint32(size)) })
		r.Check(err == nil && len(got2) == size, "entropy-length", "second RandEntropy(%d) returns %d bytes, %s", size, len(got2), errStr(err))
		r.Check(bytes.Equal(got, snap), "shared-buffer", "a second call of RandEntropy changes the result of the first")
		if size >= 16 {
			r.Check(!bytes.Equal(got2, got), "secret-reused", "two calls of RandEntropy return the same bytes")
		}
		r.Note("RandEntropy")
	}
}
