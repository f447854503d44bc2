package props

import (
	"bytes"
	"errors"
	"fmt"

	"github.com/dusk-network/dusk-crypto/bls"
	"github.com/dusk-network/dusk-crypto/hash"
	"github.com/dusk-network/dusk-crypto/merkletree"
	"github.com/dusk-network/dusk-crypto/mlsag"
	"github.com/dusk-network/dusk-crypto/rangeproof"
	"github.com/dusk-network/dusk-crypto/rangeproof/fiatshamir"
	generator "github.com/dusk-network/dusk-crypto/rangeproof/generators"
	"github.com/dusk-network/dusk-crypto/rangeproof/innerproduct"
	"github.com/dusk-network/dusk-crypto/rangeproof/pedersen"
	"github.com/dusk-network/dusk-crypto/ringsig/blsag"

	"verif.local/sim/engine"
	"verif.local/sim/ref"
)

// A soak is the long life of one process: hundreds or thousands of small requests, some of
// them repeated, some refused, the answers kept. What the process has served before must
// not show, and what it has handed out must stay as it was.

type heldResult struct {
	what string
	want string
	now  func() string
}

type soakWorld struct {
	k     int // counts large requests
	r     *Run
	n     *Node
	held  []heldResult
	book  *secretBook
	prove map[uint64]bool
}

type soakOp struct {
	name string
	cost int // rough time in microseconds
	run  func(w *soakWorld, seed uint64, fail bool)
}

func (w *soakWorld) do(what string, fn func()) { w.r.MustDo(w.n, nil, what, fn) }

func (w *soakWorld) hold(what string, now func() string) {
	w.held = append(w.held, heldResult{what, now(), now})
}

func (w *soakWorld) holdBytes(what string, b []byte) {
	w.hold(what, func() string { return hx2(b) })
}

func (w *soakWorld) check(ok bool, what string, args ...interface{}) {
	w.r.Check(ok, "long-history", "in a long-lived process: "+what, args...)
}

type soakPayload struct {
	h   []byte
	bad bool
}

func (p *soakPayload) CalculateHash() ([]byte, error) {
	if p.bad {
		return nil, errPayload
	}
	return p.h, nil
}

var soakOps = map[string]*soakOp{}

func soakAdd(name string, cost int, run func(w *soakWorld, seed uint64, fail bool)) {
	soakOps[name] = &soakOp{name, cost, run}
}

var soakRP []*ref.RP

func soakProofs() []*ref.RP {
	if soakRP == nil {
		for _, w := range fixedProofs()[:2] {
			p, err := ref.ParseRP(w, true)
			if err != nil {
				panic(err)
			}
			soakRP = append(soakRP, p)
		}
	}
	return soakRP
}

func init() {
	soakAdd("hash", 12, func(w *soakWorld, seed uint64, fail bool) {
		in := engine.Expand(seed|1, mod(seed>>8, 150))
		k := c18kinds[mod(seed, len(c18kinds))]
		want := k.ref(in)
		if fail {
			b := &badHash{Hash: &okHash{size: 8}, err: errInjected}
			var d []byte
			var err error
			w.do("PerformHash", func() { d, err = hash.PerformHash(b, append([]byte("x"), in...)) })
			w.check(errors.Is(err, errInjected) && len(d) == 0, "the failure of a hash object is reported as %s", errStr(err))
			return
		}
		var d []byte
		var err error
		w.do(k.name, func() { d, err = k.lib(in) })
		w.check(err == nil && bytes.Equal(d, want), "%s of %d bytes is %s (%s), not %s", k.name, len(in), hx(d), errStr(err), hx(want))
		w.holdBytes("digest", d)
		var ok, no bool
		w.do("Checksum", func() {
			c, _ := hash.Checksum(in)
			ok, no = hash.CompareChecksum(in, c), hash.CompareChecksum(in, c^1)
		})
		w.check(ok && !no, "a checksum is not recognised, or a wrong one is")
	})
	soakAdd("merkle", 300, func(w *soakWorld, seed uint64, fail bool) {
		n := 1 + mod(seed, 6)
		var pl []merkletree.Payload
		var hs [][]byte
		for i := 0; i < n; i++ {
			h := engine.Expand((seed>>3+uint64(i))|1, 32)
			hs = append(hs, h)
			pl = append(pl, &soakPayload{h: h})
		}
		var t *merkletree.Tree
		var err error
		if fail {
			bad := pl[mod(seed>>20, n)].(*soakPayload)
			bad.bad = true
			w.do("NewTree", func() { t, err = merkletree.NewTree(pl) })
			w.check(err != nil && t == nil, "building from a failing payload is not refused")
			bad.bad = false
		}
		w.do("NewTree", func() { t, err = merkletree.NewTree(pl) })
		w.check(err == nil, "building a tree fails: %s", errStr(err))
		if seed>>9&3 == 0 {
			w.do("RebuildTree", func() { err = t.RebuildTree() })
			w.check(err == nil, "rebuilding a tree fails: %s", errStr(err))
		}
		w.check(bytes.Equal(t.MerkleRoot, refRoot(hs)), "the root of %d payloads is wrong", n)
		in, out := &soakPayload{h: hs[mod(seed>>12, n)]}, &soakPayload{h: engine.Expand(seed^0x5555, 32)}
		w.hold("tree", func() string {
			var a, b, c bool
			var e [3]error
			w.do("checking a tree", func() {
				a, e[0] = merkletree.VerifyTree(t)
				b, e[1] = t.VerifyContent(in)
				c, e[2] = t.VerifyContent(out)
			})
			return fmt.Sprint(hx2(t.MerkleRoot), len(t.Leaves), a, b, c, e)
		})
		h := w.held[len(w.held)-1].want
		w.check(h == fmt.Sprint(hx2(refRoot(hs)), len(t.Leaves), true, true, false, [3]error{}), "the checks of a tree of %d payloads give %s", n, h)
	})
	soakAdd("transcript", 60, func(w *soakWorld, seed uint64, fail bool) {
		h := &fiatshamir.HashCacher{}
		var all []byte
		for i := 0; i < 1+mod(seed, 4); i++ {
			p := engine.Expand(seed>>2+uint64(i), mod(seed>>uint(4+i), 40))
			all = append(all, p...)
			w.do("Append", func() { h.Append(p) })
		}
		var c Scalar
		var b []byte
		w.do("Derive", func() { c, b = h.Derive(), h.Result() })
		w.check(c == ref.HashS(all), "the challenge of %d bytes is wrong", len(all))
		w.check(bytes.Equal(b, all), "the transcript of %d bytes reads differently", len(all))
		w.holdBytes("transcript", b)
		if fail {
			w.do("Clear", func() { h.Clear(); h.Append(all[:len(all)/2]); c = h.Derive() })
			w.check(c == ref.HashS(all[:len(all)/2]), "the challenge after clearing is wrong")
		}
	})
	soakAdd("generators", 500, func(w *soakWorld, seed uint64, fail bool) {
		label := engine.Expand(seed|1, 1+mod(seed, 20))
		k := 1 + mod(seed>>8, 6)
		var g *generator.Generator
		w.do("Compute", func() { g = generator.New(label); g.Compute(uint32(k)) })
		want := ref.Gens(string(label), k)
		now := func() string {
			s := ""
			for i := range g.Bases {
				s += hx2(g.Bases[i].Bytes())
			}
			return s
		}
		s := ""
		for i := range want {
			s += hx2(want[i].Bytes())
		}
		w.check(now() == s, "the %d generators of a label are wrong", k)
		w.hold("generators", now)
	})
	soakAdd("commitments", 900, func(w *soakWorld, seed uint64, fail bool) {
		label := engine.Expand(seed>>4|1, 1+mod(seed, 20))
		v := u64Scalar(seed)
		var c, d pedersen.Commitment
		vec := []Scalar{v, u64Scalar(seed >> 7)}
		w.do("Commit", func() {
			p := pedersen.New(label)
			c, d = p.CommitToScalar(v), p.CommitToVectors(vec)
		})
		wc := ref.PAdd(ref.PMul(ref.ValueBase(), v), ref.Base(c.BlindingFactor))
		w.check(c.Value.Equals(&wc), "a commitment does not open")
		g := ref.Gens(string(label), 2)
		wd := ref.PAdd(ref.Base(d.BlindingFactor), ref.PAdd(ref.PMul(g[0], vec[0]), ref.PMul(g[1], vec[1])))
		w.check(d.Value.Equals(&wd), "a commitment to a vector does not open")
		if w.book != nil {
			w.book.add(c.BlindingFactor, "blinder of a value")
			w.book.add(d.BlindingFactor, "blinder of a vector")
		}
	})
	type blsKey struct {
		pk *bls.PublicKey
		sk *bls.SecretKey
	}
	key := func(w *soakWorld, seed uint64) (k blsKey) {
		var err error
		w.do("GenKeyPair", func() { k.pk, k.sk, err = bls.GenKeyPair(engine.NewStream(seed|1, "soak")) })
		w.check(err == nil, "generating a key fails: %s", errStr(err))
		return
	}
	soakAdd("bls", 14000, func(w *soakWorld, seed uint64, fail bool) {
		k, o := key(w, seed), key(w, seed>>5)
		m, m2 := engine.Expand(seed^7, mod(seed, 40)), engine.Expand(seed^9, 41)
		var s *bls.Signature
		var a *bls.Apk
		var err, e1, e2, e3 error
		w.do("Sign", func() { s, err = bls.Sign(k.sk, k.pk, m); a = bls.NewApk(k.pk) })
		w.check(err == nil, "signing fails: %s", errStr(err))
		w.do("Verify", func() { e1 = bls.Verify(a, m, s) })
		w.check(e1 == nil, "a genuine signature is refused: %s", errStr(e1))
		if fail {
			w.do("Verify", func() { e2 = bls.Verify(a, m2, s) })
			w.check(e2 != nil, "a signature is accepted for another message")
		} else {
			w.do("Verify", func() {
				b := a.Copy()
				t := s.Copy()
				if e2 = b.Aggregate(o.pk); e2 != nil {
					return
				}
				e3 = bls.Verify(b, m, t)
				var x *bls.Signature
				if x, e2 = bls.Sign(o.sk, o.pk, m); e2 == nil {
					t.Aggregate(x)
					e2 = bls.Verify(b, m, t)
				}
			})
			w.check(e2 == nil, "a genuine aggregate is refused: %s", errStr(e2))
			w.check(e3 != nil, "a signature is accepted for a signer who did not sign")
		}
		w.hold("BLS objects", func() string {
			var l [][]byte
			w.do("Marshal", func() { l = [][]byte{s.Marshal(), s.Compress(), a.Marshal(), k.pk.Marshal()} })
			return fmt.Sprintf("%x", l)
		})
	})
	soakAdd("bls codec", 2500, func(w *soakWorld, seed uint64, fail bool) {
		k := key(w, seed)
		m := engine.Expand(seed^7, mod(seed, 40))
		var s, q *bls.Signature
		var err, e2 error
		var before, after, c, b, pb, tx []byte
		w.do("Sign", func() {
			s, err = bls.Sign(k.sk, k.pk, m)
			c, b, pb = s.Compress(), s.Marshal(), k.pk.Marshal()
			tx, _ = k.pk.MarshalText()
		})
		w.check(err == nil, "signing fails: %s", errStr(err))
		q = &bls.Signature{}
		w.do("Decompress", func() { err = q.Decompress(c); after = q.Marshal() })
		w.check(err == nil && bytes.Equal(after, b), "a signature does not survive compression (%s)", errStr(err))
		w.do("Unmarshal", func() { q, err = bls.UnmarshalSignature(b); after = q.Marshal() })
		w.check(err == nil && bytes.Equal(after, b), "a signature does not survive encoding (%s)", errStr(err))
		p := &bls.PublicKey{}
		w.do("UnmarshalText", func() { err = p.UnmarshalText(tx); after = p.Marshal() })
		w.check(err == nil && bytes.Equal(after, pb), "a key does not survive encoding (%s)", errStr(err))
		if fail {
			w.do("Decompress", func() {
				before = q.Marshal()
				err = q.Decompress(c[:mod(seed, len(c))])
				e2 = p.Unmarshal(pb[:mod(seed, len(pb))])
				after = q.Marshal()
			})
			w.check(err != nil && e2 != nil, "cut encodings are accepted")
			w.check(bytes.Equal(before, after), "a refused encoding changed the receiver")
			w.do("Marshal", func() { after = p.Marshal() })
			w.check(bytes.Equal(pb, after), "a refused encoding changed the receiver")
		}
		w.hold("BLS objects", func() string {
			var l [][]byte
			w.do("Marshal", func() { l = [][]byte{s.Marshal(), q.Compress(), p.Marshal(), k.pk.Marshal()} })
			return fmt.Sprintf("%x %x", l, [][]byte{c, b, pb, tx})
		})
	})
	soakAdd("mlsag", 2500, func(w *soakWorld, seed uint64, fail bool) {
		x := scalarStream(seed)
		a, z := x(), x()
		pool := [][]Point{{ref.Base(x()), ref.Base(x())}}
		if seed>>6&1 == 1 {
			pool = append(pool, []Point{ref.Base(x()), ref.Base(x())})
		}
		msg := engine.Expand(seed^7, mod(seed, 40))
		op := mkMlsag(w.r, a, z, pool, msg)
		if w.book != nil {
			w.do("Prove", op.run)
			w.check(op.err() == nil, "signing fails: %s", errStr(op.err()))
			op.secrets(w.book.add)
			return
		}
		var sig *mlsag.Signature
		var img Point
		var err error
		var b bytes.Buffer
		w.do("Prove", func() {
			d := mlsag.NewDualKey()
			d.SetPrimaryKey(a)
			d.SetCommToZero(z)
			d.SetMsg(msg)
			d.AddDecoys(libRing(pool))
			if sig, img, err = d.Prove(); err == nil {
				err = sig.Encode(&b, true)
			}
		})
		w.check(err == nil, "signing fails: %s", errStr(err))
		want := ref.Image(a)
		w.check(img.Equals(&want), "a key image is wrong")
		m, _, perr := ref.ParseMLSAG(b.Bytes(), true)
		w.check(perr == nil, "a signature's encoding cannot be read")
		w.check(multiset(m.Keys) == multiset(append([][]Point{{ref.Base(a), ref.Base(z)}}, pool...)), "the ring is not the decoys and the signer")
		w.hold("ring signature", func() string {
			var c bytes.Buffer
			var ok bool
			w.do("Verify", func() {
				if err = sig.Encode(&c, true); err == nil {
					ok, err = sig.Verify([]Point{img})
				}
			})
			return fmt.Sprint(hx2(c.Bytes()), ok, err)
		})
		w.check(w.held[len(w.held)-1].want == fmt.Sprint(hx2(b.Bytes()), true, nil), "a genuine signature is refused")
		if fail {
			var ok bool
			w.do("Verify", func() {
				t := &mlsag.Signature{}
				if err = t.Decode(bytes.NewReader(b.Bytes()), true); err == nil {
					t.Msg = append([]byte("!"), msg...)
					ok, err = t.Verify([]Point{img})
				}
			})
			w.check(!ok && err != nil, "a signature is accepted for another message")
			w.do("Verify", func() {
				t := &mlsag.Signature{Msg: msg}
				if err = t.Decode(bytes.NewReader(b.Bytes()), true); err == nil {
					ok, err = t.Verify([]Point{ref.Base(a)})
				}
			})
			w.check(!ok && err != nil, "a signature is accepted with another image")
			w.do("Decode", func() {
				t := &mlsag.Signature{}
				err = t.Decode(bytes.NewReader(b.Bytes()[:mod(seed, b.Len())]), true)
			})
			w.check(err != nil, "a cut signature is decoded")
		}
	})
	soakAdd("blsag", 1500, func(w *soakWorld, seed uint64, fail bool) {
		x := scalarStream(seed)
		a := x()
		var mx []Point
		for i := 0; i < mod(seed>>4, 3); i++ {
			mx = append(mx, ref.Base(x()))
		}
		msg := engine.Expand(seed^7, mod(seed, 40))
		if w.book != nil {
			op := mkBlsag(w.r, a, mx, msg)
			w.do("Sign", op.run)
			op.secrets(w.book.add)
			return
		}
		var sig blsag.RingSignature
		w.do("Sign", func() { sig = blsag.Sign(msg, mx, a) })
		want := ref.Image(a)
		w.check(sig.I.Equals(&want), "a key image is wrong")
		w.hold("ring signature", func() string {
			var ok bool
			w.do("Verify", func() { ok = blsag.Verify(msg, sig) })
			return fmt.Sprint(ringContent(msg, &sig), ok)
		})
		w.check(w.held[len(w.held)-1].want == fmt.Sprint(ringContent(msg, &sig), true), "a genuine signature is refused")
		if fail {
			var ok bool
			w.do("Verify", func() { ok = blsag.Verify(append([]byte("!"), msg...), sig) })
			w.check(!ok, "a signature is accepted for another message")
			t := cloneRing(&sig)
			t.S[0] = ref.Add(t.S[0], ref.S(1))
			w.do("Verify", func() { ok = blsag.Verify(msg, *t) })
			w.check(!ok, "an altered signature is accepted")
		}
	})
	soakAdd("inner product", 3500, func(w *soakWorld, seed uint64, fail bool) {
		rnd := scalarStream(seed)
		n := 1 << uint(mod(seed, 3))
		s := &ipStmt{Q: ref.Base(rnd())}
		for i := 0; i < n; i++ {
			s.G, s.H = append(s.G, ref.Base(rnd())), append(s.H, ref.Base(rnd()))
			s.a, s.b, s.f = append(s.a, rnd()), append(s.b, rnd()), append(s.f, rnd())
		}
		s.P = ref.IPCommit(s.G, s.H, s.a, s.b, s.f, s.Q)
		var p *innerproduct.Proof
		var err error
		var b bytes.Buffer
		if fail {
			w.do("Generate", func() { _, err = innerproduct.Generate(s.G, s.H, s.a, append(s.b, s.a[0]), s.f, s.Q) })
			w.check(err != nil, "vectors of unequal lengths are not refused")
		}
		w.do("Generate", func() {
			if p, err = innerproduct.Generate(s.G, s.H, s.a, s.b, s.f, s.Q); err == nil {
				err = p.Encode(&b)
			}
		})
		w.check(err == nil, "generating an argument of %d fails: %s", n, errStr(err))
		var ok, no bool
		w.do("Verify", func() {
			ok = p.Verify(s.G, s.H, p.L, p.R, s.f, s.Q, s.P, n)
			no = p.Verify(s.G, s.H, p.L, p.R, s.f, s.Q, ref.PAdd(s.P, s.Q), n)
		})
		w.check(ok, "a genuine argument of %d is refused", n)
		w.check(!no, "an argument of %d is accepted for another commitment", n)
		w.hold("argument", func() string {
			var c bytes.Buffer
			w.do("Encode", func() { err = p.Encode(&c) })
			return fmt.Sprint(hx2(c.Bytes()), err)
		})
	})
	soakAdd("range verify", 16000, func(w *soakWorld, seed uint64, fail bool) {
		p := cloneRP(soakProofs()[mod(seed, 2)])
		if fail || seed>>4&3 == 0 {
			d := scalarStream(seed)()
			switch mod(seed>>8, 4) {
			case 0:
				p.Taux = ref.Add(p.Taux, d)
			case 1:
				p.V[0] = ref.PAdd(p.V[0], ref.Base(d))
			case 2:
				p.L[mod(seed>>12, len(p.L))] = ref.Base(d)
			default:
				p.IA = d
			}
			fail = true
		}
		lp, err := toLib(w.r, p)
		if err != nil {
			return
		}
		var ok bool
		w.do("Verify", func() { ok, err = rangeproof.Verify(lp) })
		w.check(ok == !fail, "a range proof is judged %v (%s)", ok, errStr(err))
	})
	soakAdd("range prove", 45000, func(w *soakWorld, seed uint64, fail bool) {
		var err error
		if fail {
			w.do("Prove", func() { _, err = rangeproof.Prove(nil, false) })
			w.check(err != nil, "a proof of nothing is made")
			w.do("Prove", func() { _, err = rangeproof.Prove(make([]Scalar, 17), false) })
			w.check(err != nil, "a proof of 17 values is made")
			return
		}
		var ok bool
		if w.book != nil {
			op := mkProve(w.r, []Scalar{u64Scalar(seed)}, false)
			w.do("Prove", op.run)
			w.check(op.err() == nil, "proving fails: %s", errStr(op.err()))
			op.secrets(w.book.add)
			return
		}
		w.do("Prove", func() {
			var p rangeproof.Proof
			if p, err = rangeproof.Prove([]Scalar{u64Scalar(seed)}, false); err == nil {
				ok, err = rangeproof.Verify(p)
			}
		})
		w.check(ok && err == nil, "an honest range proof is not made or not accepted: %s", errStr(err))
	})
	soakAdd("range codec", 1200, func(w *soakWorld, seed uint64, fail bool) {
		k := mod(seed, len(fixedProofs()))
		b := append([]byte(nil), fixedProofs()[k]...)
		if seed>>4&1 == 1 { // another content
			q, _ := ref.ParseRP(b, true)
			q.Taux, q.A = scalarStream(seed)(), ref.Base(u64Scalar(seed))
			b = q.Encode(true)
		}
		var p, q rangeproof.Proof
		var err error
		var c bytes.Buffer
		w.do("Decode", func() {
			if err = p.Decode(bytes.NewReader(b), true); err == nil {
				err = p.Encode(&c, true)
			}
		})
		w.check(err == nil && bytes.Equal(b, c.Bytes()), "a proof does not survive encoding (%s)", errStr(err))
		if fail {
			cut := mod(seed>>8, 4+32*8)
			w.do("Decode", func() { err = q.Decode(bytes.NewReader(b[:cut]), true) })
			w.check(err != nil, "a proof cut at %d is decoded", cut)
		}
		var same, other bool
		w.do("Equals", func() {
			if err = q.Decode(bytes.NewReader(b), true); err == nil {
				same = p.Equals(q, true)
				q.T1 = q.T2
				other = p.Equals(q, true)
			}
		})
		w.check(err == nil && same && !other, "comparing proofs answers %v and %v (%s)", same, other, errStr(err))
		w.hold("decoded proof", func() string {
			var d bytes.Buffer
			w.do("Encode", func() { err = p.Encode(&d, true) })
			return fmt.Sprint(hx2(d.Bytes()), err)
		})
	})
	soakAdd("ring codec", 1500, func(w *soakWorld, seed uint64, fail bool) {
		x := scalarStream(seed)
		m := &ref.MLSAG{C: x(), Msg: []byte{}}
		for i := 0; i < 1+mod(seed, 3); i++ {
			m.R = append(m.R, []Scalar{x(), x()})
			m.Keys = append(m.Keys, []Point{ref.Base(x()), ref.Base(x())})
		}
		b := m.Encode(true)
		var s, t mlsag.Signature
		var err error
		var c bytes.Buffer
		w.do("Decode", func() {
			if err = s.Decode(bytes.NewReader(b), true); err == nil {
				err = s.Encode(&c, true)
			}
		})
		w.check(err == nil && bytes.Equal(b, c.Bytes()), "a ring signature does not survive encoding (%s)", errStr(err))
		if fail {
			cut := mod(seed>>8, len(b))
			w.do("Decode", func() { err = t.Decode(bytes.NewReader(b[:cut]), true) })
			w.check(err != nil, "a ring signature cut at %d of %d is decoded", cut, len(b))
		}
		var same, other bool
		w.do("Equals", func() {
			if err = t.Decode(bytes.NewReader(b), true); err == nil {
				same = s.Equals(t, true)
				t.PubKeys = t.PubKeys[:len(t.PubKeys)-1]
				other = s.Equals(t, true)
			}
		})
		w.check(err == nil && same && !other, "comparing ring signatures answers %v and %v (%s)", same, other, errStr(err))
		w.hold("decoded ring signature", func() string {
			var d bytes.Buffer
			w.do("Encode", func() { err = s.Encode(&d, true) })
			return fmt.Sprint(hx2(d.Bytes()), err)
		})
	})
	soakAdd("entropy", 15, func(w *soakWorld, seed uint64, fail bool) {
		n := 16 + mod(seed, 64)
		var b []byte
		var err error
		w.do("RandEntropy", func() { b, err = hash.RandEntropy(uint32(n)) })
		w.check(err == nil && len(b) == n, "asking for %d random bytes gives %d (%s)", n, len(b), errStr(err))
		k := "entropy " + hx2(b[:16])
		if w.book != nil {
			w.check(w.book.seen[k] == "", "the same random bytes are returned twice")
			w.book.seen[k] = "random bytes"
		}
		w.holdBytes("random bytes", b)
	})
	soakAdd("keygen", 1200, func(w *soakWorld, seed uint64, fail bool) {
		var pk *bls.PublicKey
		var err error
		if fail {
			w.do("GenKeyPair", func() { pk, _, err = bls.GenKeyPair(&dead{engine.NewStream(seed|1, "soak"), mod(seed, 8)}) })
			w.check(err != nil && pk == nil, "a key is made from a source that ends early")
			return
		}
		var b []byte
		w.do("GenKeyPair", func() {
			if pk, _, err = bls.GenKeyPair(nil); err == nil {
				b = pk.Marshal()
			}
		})
		w.check(err == nil, "generating a key fails: %s", errStr(err))
		if w.book != nil {
			w.check(w.book.seen["key "+hx2(b)] == "", "the same key is generated twice")
			w.book.seen["key "+hx2(b)] = "key"
		}
		if seed&1 == 0 {
			k1, k2 := key(w, seed), key(w, seed)
			var x, y []byte
			w.do("Marshal", func() { x, y = k1.pk.Marshal(), k2.pk.Marshal() })
			w.check(bytes.Equal(x, y), "equal sources give different keys")
		}
	})
}

var soakPlans = map[string][]string{
	"C01": {"range prove", "range verify"},
	"C02": {"range verify"},
	"C03": {"hash", "merkle", "generators", "commitments", "bls", "mlsag", "blsag", "inner product", "range verify", "range codec", "ring codec", "bls codec", "transcript"},
	"C04": {"bls"},
	"C05": {"bls"},
	"C06": {"bls codec"},
	"C07": {"mlsag"},
	"C08": {"blsag"},
	"C09": {"mlsag", "blsag"},
	"C11": {"mlsag", "blsag", "commitments", "entropy", "keygen", "range prove"},
	"C12": {"range codec", "ring codec"},
	"C13": {"range codec", "ring codec", "bls codec", "bls"},
	"C14": {"merkle"},
	"C15": {"merkle"},
	"C16": {"hash", "merkle", "generators", "commitments", "bls codec", "mlsag", "blsag", "inner product", "range codec", "ring codec", "transcript"},
	"C17": {"generators", "commitments"},
	"C18": {"hash"},
	"C19": {"range codec", "ring codec"},
	"C23": {"inner product"},
	"C24": {"transcript"},
}

// soakLen draws a number of calls, often one the source mentions.
func soakLen(r *Run) int {
	for i, d := 0, r.Bool(1, 2); d && i < 6; i++ {
		if v, ok := dictInt(r); ok && v >= 12 && v <= 9000 && r.Bool(2, 3) {
			return int(v) + r.Intn(12)
		}
	}
	return []int{40, 70, 140, 270, 530, 1040, 2100, 4200}[r.Intn(8)] + r.Intn(30)
}

func soak(r *Run, id string) {
	w := &soakWorld{r: r, n: r.NewNode()}
	if id == "C11" {
		w.book = &secretBook{r, map[string]string{}}
	}
	plan := soakPlans[id]
	names := []string{plan[r.Intn(len(plan))]}
	for len(names) < 3 && r.Bool(1, 3) {
		names = append(names, plan[r.Intn(len(plan))])
	}
	total := soakLen(r)
	rnd := engine.NewStream(r.Seed(), "soak")
	draw := func() uint64 {
		var b [8]byte
		_, _ = rnd.Read(b[:])
		v := uint64(0)
		for _, c := range b {
			v = v<<8 | uint64(c)
		}
		return v
	}
	often := r.Weighted(2, 2, 1) // how often requests come again
	bad := r.Weighted(2, 2, 1)   // how often requests are refused
	budget := 2500000
	if id == "C01" || id == "C02" {
		budget = 4000000
	}
	var old []uint64
	k := 0
	for ; k < total && budget > 0; k++ {
		v := draw()
		op := soakOps[names[v%uint64(len(names))]]
		seed := draw()
		if len(old) > 0 && v>>8%8 < []uint64{0, 2, 5}[often] {
			seed = old[draw()%uint64(len(old))]
		}
		if w.book == nil || v>>40%4 == 0 {
			old = append(old, seed)
		}
		op.run(w, seed, v>>16%16 < []uint64{0, 2, 8}[bad])
		budget -= op.cost
		if len(w.held) > 0 && v>>24%64 == 0 {
			h := w.held[draw()%uint64(len(w.held))]
			w.check(h.now() == h.want, "a %s handed out earlier has changed after %d calls", h.what, k)
		}
	}
	lim := len(w.held)
	step := 1
	if lim > 400 {
		step = lim / 400
	}
	for i := 0; i < lim; i += step {
		h := w.held[i]
		w.check(h.now() == h.want, "a %s handed out by call %d of %d has changed", h.what, i, k)
	}
	r.Note("long-history")
	for b := 64; b <= 4096; b *= 4 {
		if k >= b {
			r.Note(fmt.Sprintf("long-history-of-%d", b))
		}
	}
}

// withSoak gives a scenario an occasional long history.
func withSoak(p *Property) {
	inner, times := p.Scenario, 32
	switch p.ID { // the cheap ones more often
	case "C18", "C24":
		times = 400
	case "C14", "C15", "C17", "C12", "C19":
		times = 64
	}
	every := p.Quick / times
	if every < 4 {
		every = 4
	}
	p.Scenario = func(r *engine.Run, idx int) {
		if idx%every == every/2 {
			soak(r, p.ID)
			return
		}
		if k, n := idx/(4*every), giantPlans[p.ID]; len(n) > 0 && idx%(4*every) == every/4 {
			runGiant(r, p.ID, k)
			return
		}
		inner(r, idx)
	}
}
