package props

import (
	"bytes"
	"fmt"

	"github.com/dusk-network/dusk-crypto/bls"
	"github.com/dusk-network/dusk-crypto/hash"
	"github.com/dusk-network/dusk-crypto/merkletree"
	"github.com/dusk-network/dusk-crypto/mlsag"
	"github.com/dusk-network/dusk-crypto/rangeproof/fiatshamir"
	generator "github.com/dusk-network/dusk-crypto/rangeproof/generators"
	"github.com/dusk-network/dusk-crypto/rangeproof/innerproduct"
	"github.com/dusk-network/dusk-crypto/rangeproof/pedersen"
	"github.com/dusk-network/dusk-crypto/ringsig/blsag"

	"verif.local/sim/engine"
	"verif.local/sim/ref"
)

// A giant is one request that is far larger than usual: sizes beyond what one or two bytes
// can count.

// small, medium: beyond one byte; large: beyond two.
var (
	giantSmall  = []int{257, 256, 300, 511, 513, 255}
	giantMedium = []int{257, 1025, 256, 4097, 1000, 300}
	giantLarge  = []int{257, 65537, 1025, 65536, 4097, 65535, 256, 70000, 10000, 131073}
)

type giant struct {
	sizes []int
	run   func(w *soakWorld, n int)
}

var giants = map[string]*giant{}

func (w *soakWorld) big(ok bool, what string, args ...interface{}) {
	w.r.Check(ok, "large-request", "in a large request: "+what, args...)
}

func init() {
	giants["hash"] = &giant{append([]int{1 << 20, 3<<20 + 1}, giantLarge...), func(w *soakWorld, n int) {
		in := engine.Expand(w.r.Seed()|1, n)
		for _, k := range c18kinds {
			var d []byte
			var err error
			w.do(k.name, func() { d, err = k.lib(in) })
			w.big(err == nil && bytes.Equal(d, k.ref(in)), "%s of %d bytes is wrong (%s)", k.name, n, errStr(err))
			in[n-1] ^= 1
			var e []byte
			w.do(k.name, func() { e, _ = k.lib(in) })
			w.big(!bytes.Equal(d, e), "the last of %d bytes does not matter to %s", n, k.name)
			in[n-1] ^= 1
		}
		var ok, no bool
		w.do("Checksum", func() {
			c, _ := hash.Checksum(in)
			ok = hash.CompareChecksum(in, c)
			in[n-1] ^= 1
			no = hash.CompareChecksum(in, c)
		})
		w.big(ok && !no, "a checksum of %d bytes is not recognised, or a wrong one is", n)
	}}
	giants["merkle"] = &giant{giantLarge, func(w *soakWorld, n int) {
		var pl []merkletree.Payload
		var hs [][]byte
		all := engine.Expand(w.r.Seed()|1, 32*n)
		for i := 0; i < n; i++ {
			h := all[32*i : 32*i+32 : 32*i+32]
			hs = append(hs, h)
			pl = append(pl, &soakPayload{h: h})
		}
		root := refRoot(hs)
		var t *merkletree.Tree
		var err error
		w.do("NewTree", func() { t, err = merkletree.NewTree(pl) })
		w.big(err == nil, "building a tree of %d fails: %s", n, errStr(err))
		w.big(bytes.Equal(t.MerkleRoot, root), "the root of %d payloads is wrong", n)
		if w.r.Bool(1, 2) {
			w.do("RebuildTree", func() { err = t.RebuildTree() })
			w.big(err == nil && bytes.Equal(t.MerkleRoot, root), "the root of %d payloads is wrong after rebuilding (%s)", n, errStr(err))
		}
		verify := func() (ok bool) {
			w.do("VerifyTree", func() { ok, err = merkletree.VerifyTree(t) })
			w.big(err == nil, "verifying a tree of %d fails: %s", n, errStr(err))
			return
		}
		has := func(h []byte) (ok bool) {
			w.do("VerifyContent", func() { ok, err = t.VerifyContent(&soakPayload{h: h}) })
			w.big(err == nil, "asking a tree of %d for a payload fails: %s", n, errStr(err))
			return
		}
		w.big(verify(), "a tree of %d does not verify", n)
		places := []int{0, n - 1, n / 2, 255, 256, 65535, 65536, w.r.Intn(n)}
		for _, i := range places {
			if i < n {
				w.big(has(hs[i]), "payload %d of %d is not found", i, n)
			}
		}
		w.big(!has(engine.Expand(w.r.Seed(), 32)), "a foreign payload is found among %d", n)
		if n > 20000 {
			places = []int{places[w.r.Intn(len(places))], n - 1}
		}
		for _, i := range places {
			if i >= n {
				continue
			}
			p := pl[i].(*soakPayload)
			p.h = engine.Expand(w.r.Seed(), 32)
			w.big(!verify(), "altering payload %d of %d is not noticed", i, n)
			w.big(!has(p.h), "payload %d of %d is found although it was put there later", i, n)
			p.h = hs[i]
			p.bad = true
			var ok bool
			w.do("VerifyTree", func() { ok, err = merkletree.VerifyTree(t) })
			w.big(!ok && err != nil, "the failure of payload %d of %d is not reported", i, n)
			w.do("RebuildTree", func() { err = t.RebuildTree() })
			w.big(err != nil && bytes.Equal(t.MerkleRoot, root), "rebuilding does not report the failure of payload %d of %d", i, n)
			p.bad = false
		}
		w.big(verify(), "a restored tree of %d does not verify", n)
	}}
	giants["transcript"] = &giant{giantLarge, func(w *soakWorld, n int) {
		h := &fiatshamir.HashCacher{}
		all := engine.Expand(w.r.Seed()|1, n)
		one := w.r.Bool(1, 2)
		var c, d Scalar
		var b []byte
		w.do("Append", func() {
			if one {
				for i := range all {
					h.Append(all[i : i+1])
				}
			} else {
				h.Append(all[:n/2], all[n/2:])
			}
			c, b = h.Derive(), h.Result()
			h.Append([]byte{1})
			d = h.Derive()
		})
		w.big(c == ref.HashS(all) && bytes.Equal(b, all), "the transcript of %d bytes is wrong", n)
		w.big(d == ref.HashS(all, []byte{1}), "the transcript of %d bytes is wrong", n+1)
	}}
	giants["generators"] = &giant{[]int{257, 1025, 4097, 256, 3000, 8193}, func(w *soakWorld, n int) {
		label := engine.Expand(w.r.Seed()|1, 1+w.r.Intn(20))
		want := ref.Gens(string(label), n)
		var g *generator.Generator
		k := w.r.Intn(n)
		w.do("Compute", func() { g = generator.New(label); g.Compute(uint32(k)); g.Compute(uint32(n)) })
		w.big(len(g.Bases) >= n, "%d generators are computed as %d", n, len(g.Bases))
		for i := range want {
			w.big(g.Bases[i].Equals(&want[i]), "generator %d is wrong", i)
		}
		if n > 1100 {
			return
		}
		rnd := scalarStream(w.r.Seed())
		var v []Scalar
		for i := 0; i < n; i++ {
			v = append(v, rnd())
		}
		var c pedersen.Commitment
		w.do("Commit", func() { c = pedersen.New(label).CommitToVectors(v) })
		wc := ref.PAdd(ref.Base(c.BlindingFactor), ref.MultiExp(v, want))
		w.big(c.Value.Equals(&wc), "a commitment to a vector of %d does not open", n)
	}}
	giants["entropy"] = &giant{giantLarge, func(w *soakWorld, n int) {
		var b, d []byte
		var err error
		seed := w.r.Seed()
		w.r.MustDo(w.n, engine.NewStream(seed, "giant"), "RandEntropy", func() { b, err = hash.RandEntropy(uint32(n)) })
		w.big(err == nil && len(b) == n, "asking for %d random bytes gives %d (%s)", n, len(b), errStr(err))
		seen := map[string]int{}
		for i := 0; i+16 <= n; i += 16 {
			k := string(b[i : i+16])
			old, ok := seen[k]
			w.big(!ok, "bytes %d and %d of %d random bytes repeat", old, i, n)
			seen[k] = i
		}
		w.r.MustDo(w.n, engine.NewStream(seed, "giant"), "RandEntropy", func() { d, err = hash.RandEntropy(uint32(n)) })
		w.big(err == nil && bytes.Equal(b, d), "equal sources give different random bytes")
	}}
	points := func(w *soakWorld, n int) []Point {
		rnd := scalarStream(w.r.Seed())
		l := []Point{ref.Base(rnd())}
		step := ref.Base(rnd())
		for len(l) < n {
			l = append(l, ref.PAdd(l[len(l)-1], step))
		}
		return l
	}
	giants["codec"] = &giant{[]int{65537, 257, 65536, 1025, 70000, 256, 65535, 4097, 131073}, func(w *soakWorld, n int) {
		rnd := scalarStream(w.r.Seed())
		ps := points(w, n)
		enc := make([]byte, 0, 32*n+100)
		cut := w.r.Intn(32 * n)
		switch w.k % 5 {
		case 0: // commitments
			enc = append(enc, byte(n>>24), byte(n>>16), byte(n>>8), byte(n))
			cs := make([]pedersen.Commitment, n)
			for i := range ps {
				cs[i].Value = ps[i]
				enc = append(enc, ps[i].Bytes()...)
			}
			var b bytes.Buffer
			var err, e2 error
			var got []pedersen.Commitment
			r := bytes.NewReader(append(append([]byte(nil), enc...), 7))
			w.do("EncodeCommitments", func() {
				if err = pedersen.EncodeCommitments(&b, cs); err == nil {
					got, err = pedersen.DecodeCommitments(r)
				}
				_, e2 = pedersen.DecodeCommitments(bytes.NewReader(enc[:4+cut]))
			})
			w.big(err == nil && bytes.Equal(b.Bytes(), enc), "%d commitments are encoded wrongly (%s)", n, errStr(err))
			w.big(len(got) == n && r.Len() == 1, "%d commitments are decoded as %d", n, len(got))
			for i := range got {
				w.big(got[i].Value.Equals(&ps[i]), "commitment %d of %d is decoded wrongly", i, n)
			}
			w.big(e2 != nil, "%d commitments cut at byte %d are decoded", n, cut)
		case 1: // one key vector
			var k, q mlsag.PubKeys
			for i := range ps {
				enc = append(enc, ps[i].Bytes()...)
			}
			var b bytes.Buffer
			var err, e2 error
			var same, other bool
			w.do("Encode", func() {
				for i := range ps {
					k.AddPubKey(ps[i])
				}
				if err = k.Encode(&b); err == nil {
					err = q.Decode(bytes.NewReader(enc), uint32(n))
				}
				same = q.Equals(k) && k.Equals(q) && q.Len() == n
				var z mlsag.PubKeys
				e2 = z.Decode(bytes.NewReader(enc[:cut]), uint32(n))
				q.AddPubKey(ps[0])
				other = q.Equals(k) || k.Equals(q)
			})
			w.big(err == nil && bytes.Equal(b.Bytes(), enc) && same, "%d keys do not survive encoding (%s)", n, errStr(err))
			w.big(e2 != nil && !other, "%d keys cut at byte %d are decoded, or %d are equal to %d", n, cut, n+1, n)
		case 2: // one response vector
			var k, q mlsag.Responses
			var ss []Scalar
			for range ps {
				ss = append(ss, rnd())
				enc = append(enc, ss[len(ss)-1].Bytes()...)
			}
			var b bytes.Buffer
			var err, e2 error
			var same, other bool
			w.do("Encode", func() {
				for i := range ss {
					k.AddResponse(ss[i])
				}
				if err = k.Encode(&b); err == nil {
					err = q.Decode(bytes.NewReader(enc), uint32(n))
				}
				same = q.Equals(k) && k.Equals(q) && q.Len() == n
				var z mlsag.Responses
				e2 = z.Decode(bytes.NewReader(enc[:cut]), uint32(n))
				q[n-1] = ss[0]
				other = n > 1 && (q.Equals(k) || k.Equals(q))
			})
			w.big(err == nil && bytes.Equal(b.Bytes(), enc) && same, "%d responses do not survive encoding (%s)", n, errStr(err))
			w.big(e2 != nil && !other, "%d responses cut at byte %d are decoded, or different ones are equal", n, cut)
		case 3: // a ring signature: many members, or many keys per member
			m := &ref.MLSAG{C: rnd()}
			if w.r.Bool(1, 2) {
				for i := 0; i < n; i++ {
					m.R, m.Keys = append(m.R, []Scalar{rnd()}), append(m.Keys, []Point{ps[i]})
				}
			} else {
				m.R, m.Keys = [][]Scalar{nil}, [][]Point{ps}
				for range ps {
					m.R[0] = append(m.R[0], rnd())
				}
			}
			enc = m.Encode(true)
			var b bytes.Buffer
			var err, e2 error
			var same, other bool
			var s, t, z mlsag.Signature
			r := bytes.NewReader(append(append([]byte(nil), enc...), 7))
			cut = w.r.Intn(len(enc))
			w.do("Decode", func() {
				if err = s.Decode(r, true); err == nil {
					err = s.Encode(&b, true)
				}
				e2 = z.Decode(bytes.NewReader(enc[:cut]), true)
				_ = t.Decode(bytes.NewReader(enc), true)
				same = s.Equals(t, true)
				t.PubKeys = t.PubKeys[:len(t.PubKeys)-1]
				other = s.Equals(t, true)
			})
			w.big(err == nil && bytes.Equal(b.Bytes(), enc) && r.Len() == 1 && same && !other, "a ring signature with %d keys does not survive encoding (%s)", n, errStr(err))
			w.big(e2 != nil, "a ring signature with %d keys cut at byte %d is decoded", n, cut)
		default: // an inner-product proof
			p := &ref.IP{A: rnd(), B: rnd(), L: ps, R: points(w, n)}
			enc = p.Encode()
			var b bytes.Buffer
			var err error
			var q, t innerproduct.Proof
			var same, other bool
			w.do("Decode", func() {
				if err = q.Decode(bytes.NewReader(enc)); err == nil {
					err = q.Encode(&b)
				}
				_ = t.Decode(bytes.NewReader(enc))
				same = q.Equals(t)
				t.R[n-1] = t.L[0]
				other = q.Equals(t)
			})
			w.big(err == nil && bytes.Equal(b.Bytes(), enc) && same && !other, "an inner-product proof of %d rounds does not survive encoding (%s)", n, errStr(err))
		}
	}}
	giants["bls"] = &giant{giantSmall, func(w *soakWorld, n int) {
		rnd := engine.NewStream(w.r.Seed()|1, "giant")
		few := n
		if w.k%2 == 1 {
			few = []int{64, 1, 128, 2, 256, 100}[w.k/2%6]
		}
		var pks []*bls.PublicKey
		var sks []*bls.SecretKey
		var err error
		w.do("GenKeyPair", func() {
			for i := 0; i < n && err == nil; i++ {
				if i >= few { // signers who take part several times
					pks, sks = append(pks, pks[i-few]), append(sks, sks[i-few])
					continue
				}
				var pk *bls.PublicKey
				var sk *bls.SecretKey
				pk, sk, err = bls.GenKeyPair(rnd)
				pks, sks = append(pks, pk), append(sks, sk)
			}
		})
		w.big(err == nil, "generating keys fails: %s", errStr(err))
		msg := engine.Expand(w.r.Seed(), w.r.Intn(100))
		if w.r.Bool(1, 2) {
			msg = engine.Expand(w.r.Seed(), 65537)
		}
		var apk, short, rev *bls.Apk
		var sig *bls.Signature
		var v [5]error
		w.do("Aggregate", func() {
			if apk, err = bls.AggregateApk(pks); err != nil {
				return
			}
			if short, err = bls.AggregateApk(pks[:n-1]); err != nil {
				return
			}
			rev = bls.NewApk(pks[n-1])
			for i := n - 2; i >= 0; i-- {
				if err = rev.Aggregate(pks[i]); err != nil {
					return
				}
			}
			for i := range pks {
				var s *bls.Signature
				if s, err = bls.Sign(sks[i], pks[i], msg); err != nil {
					return
				}
				if sig == nil {
					sig = s
				} else {
					sig.Aggregate(s)
				}
			}
			v[0], v[1] = bls.Verify(apk, msg, sig), bls.Verify(short, msg, sig)
			if len(msg) > 0 {
				msg[len(msg)-1] ^= 1
				v[2] = bls.Verify(apk, msg, sig)
			} else {
				v[2] = bls.Verify(apk, []byte{1}, sig)
			}
		})
		w.big(err == nil && v[0] == nil, "a signature by %d signers is refused (%s, %s)", n, errStr(err), errStr(v[0]))
		w.big(bytes.Equal(apk.Marshal(), rev.Marshal()), "%d keys aggregate differently in another order", n)
		w.big(v[1] != nil, "a signature by %d signers is accepted for %d", n, n-1)
		w.big(v[2] != nil, "a signature of %d bytes is accepted for others", len(msg))
		// a batch over distinct messages
		var ms [][]byte
		var us []*bls.UnsafeSignature
		var sum *bls.UnsafeSignature
		w.do("UnsafeBatch", func() {
			for i := range pks {
				ms = append(ms, []byte(fmt.Sprint(i)))
				var u *bls.UnsafeSignature
				if u, err = bls.UnsafeSign(sks[i], ms[i]); err != nil {
					return
				}
				us = append(us, u)
			}
			if sum, err = bls.UnsafeBatch(us...); err != nil {
				return
			}
			v[0] = bls.VerifyUnsafeBatch(pks, ms, sum)
			v[1] = bls.VerifyUnsafeBatch(pks[:n-1], ms[:n-1], sum)
			old := ms[n-1]
			ms[n-1] = []byte("another")
			v[2] = bls.VerifyUnsafeBatch(pks, ms, sum)
			ms[n-1] = ms[0]
			v[3] = bls.VerifyUnsafeBatch(pks, ms, sum)
			ms[n-1] = old
			v[4] = bls.VerifyUnsafeBatch(pks[:n-1], ms, sum)
		})
		w.big(err == nil && v[0] == nil, "a batch of %d is refused (%s, %s)", n, errStr(err), errStr(v[0]))
		w.big(v[1] != nil && v[2] != nil && v[3] != nil && v[4] != nil, "an altered batch of %d is accepted %v", n, v[1:])
	}}
	giants["mlsag"] = &giant{giantMedium, func(w *soakWorld, n int) {
		if n > 1100 {
			n = 1025
		}
		rnd := scalarStream(w.r.Seed())
		a, z := rnd(), rnd()
		ps := points(w, 2*(n-1))
		var pool [][]Point
		for i := 0; i < n-1; i++ {
			pool = append(pool, ps[2*i:2*i+2])
		}
		msg := engine.Expand(w.r.Seed(), []int{40, 5000, 65537}[w.r.Intn(3)])
		var sig *mlsag.Signature
		var img Point
		var err, e2 error
		var ok, no, no2 bool
		var b bytes.Buffer
		w.do("Prove", func() {
			d := mlsag.NewDualKey()
			d.SetPrimaryKey(a)
			d.SetCommToZero(z)
			d.SetMsg(msg)
			d.AddDecoys(libRing(pool))
			if sig, img, err = d.Prove(); err != nil {
				return
			}
			if err = sig.Encode(&b, true); err != nil {
				return
			}
			ok, e2 = sig.Verify([]Point{img})
			sig.Msg = append([]byte(nil), msg...)
			sig.Msg[len(msg)-1] ^= 1
			no, _ = sig.Verify([]Point{img})
			sig.Msg = msg
			last := len(sig.PubKeys) - 1
			sig.PubKeys[last], sig.PubKeys[last-1] = sig.PubKeys[last-1], sig.PubKeys[last]
			no2, _ = sig.Verify([]Point{img})
		})
		w.big(err == nil && ok, "a signature in a ring of %d is not made or refused (%s, %s)", n, errStr(err), errStr(e2))
		want := ref.Image(a)
		w.big(img.Equals(&want), "a key image is wrong")
		m, _, perr := ref.ParseMLSAG(b.Bytes(), true)
		w.big(perr == nil && multiset(m.Keys) == multiset(append([][]Point{{ref.Base(a), ref.Base(z)}}, pool...)), "the ring of %d is not the decoys and the signer", n)
		w.big(!no && !no2, "an altered signature in a ring of %d is accepted", n)
	}}
	giants["blsag"] = &giant{giantMedium, func(w *soakWorld, n int) {
		if n > 1100 {
			n = 1025
		}
		a := scalarStream(w.r.Seed())()
		mx := points(w, n-1)
		msg := engine.Expand(w.r.Seed(), []int{40, 5000, 65537}[w.r.Intn(3)])
		var sig blsag.RingSignature
		var ok bool
		w.do("Sign", func() { sig = blsag.Sign(msg, mx, a); ok = blsag.Verify(msg, sig) })
		w.big(ok, "a signature in a ring of %d is refused", n)
		want := ref.Image(a)
		w.big(sig.I.Equals(&want), "a key image is wrong")
		w.big(multiset1(sig.PubKeys) == multiset1(append(append([]Point(nil), mx...), ref.Base(a))), "the ring of %d is not the decoys and the signer", n)
		m2 := append([]byte(nil), msg...)
		m2[len(m2)-1] ^= 1
		w.do("Verify", func() { ok = blsag.Verify(m2, sig) })
		w.big(!ok, "a signature of %d bytes is accepted for others", len(msg))
		t := cloneRing(&sig)
		i := []int{0, n - 1, w.r.Intn(n)}[w.r.Intn(3)]
		t.S[i] = ref.Add(t.S[i], ref.S(1))
		w.do("Verify", func() { ok = blsag.Verify(msg, *t) })
		w.big(!ok, "response %d of %d altered: accepted", i, n)
		t = cloneRing(&sig)
		t.PubKeys[i] = ref.PAdd(t.PubKeys[i], ref.Base(ref.S(1)))
		w.do("Verify", func() { ok = blsag.Verify(msg, *t) })
		w.big(!ok, "key %d of %d altered: accepted", i, n)
	}}
	giants["inner product"] = &giant{[]int{256, 512, 1024, 2048}, func(w *soakWorld, n int) {
		rnd := scalarStream(w.r.Seed())
		ps := points(w, 2*n+1)
		s := &ipStmt{Q: ps[2*n], G: ps[:n], H: ps[n : 2*n]}
		for i := 0; i < n; i++ {
			s.a, s.b, s.f = append(s.a, rnd()), append(s.b, rnd()), append(s.f, rnd())
		}
		s.P = ref.IPCommit(s.G, s.H, s.a, s.b, s.f, s.Q)
		var p *innerproduct.Proof
		var err error
		w.do("Generate", func() { p, err = innerproduct.Generate(s.G, s.H, s.a, s.b, s.f, s.Q) })
		w.big(err == nil, "generating an argument of %d fails: %s", n, errStr(err))
		q := &ref.IP{L: p.L, R: p.R, A: p.A, B: p.B}
		good, why := q.Verify(s.G, s.H, s.f, s.Q, s.P)
		w.big(good, "an argument of %d is wrong: %s", n, why)
		var ok bool
		i := []int{0, n - 1, n / 2, w.r.Intn(n)}[w.r.Intn(4)]
		verify := func() { ok = p.Verify(s.G, s.H, p.L, p.R, s.f, s.Q, s.P, n) }
		w.do("Verify", verify)
		w.big(ok, "a genuine argument of %d is refused", n)
		s.f[i] = ref.Add(s.f[i], ref.S(1))
		w.do("Verify", verify)
		w.big(!ok, "an argument of %d is accepted for another factor %d", n, i)
		s.f[i] = ref.Sub(s.f[i], ref.S(1))
		s.G[i] = ref.PAdd(s.G[i], s.Q)
		w.do("Verify", verify)
		w.big(!ok, "an argument of %d is accepted for another generator %d", n, i)
	}}
}

var giantPlans = map[string][]string{
	"C04": {"bls"},
	"C05": {"bls"},
	"C07": {"mlsag"},
	"C08": {"blsag"},
	"C09": {"mlsag", "blsag"},
	"C11": {"entropy"},
	"C12": {"codec"},
	"C13": {"codec"},
	"C14": {"merkle"},
	"C15": {"merkle"},
	"C17": {"generators"},
	"C18": {"hash"},
	"C19": {"codec"},
	"C23": {"inner product"},
	"C24": {"transcript"},
}

func runGiant(r *Run, id string, k int) {
	w := &soakWorld{r: r, n: r.NewNode()}
	plan := giantPlans[id]
	g := giants[plan[k%len(plan)]]
	w.k = k / len(plan)
	n := g.sizes[w.k%len(g.sizes)]
	if plan[k%len(plan)] == "codec" { // every kind with every size
		n = g.sizes[(w.k/5)%len(g.sizes)]
	}
	g.run(w, n)
	r.Note("large-request")
	if n > 65535 {
		r.Note("large-request-beyond-65535")
	}
}
