package props

import (
	"fmt"
	"math/big"

	"github.com/dusk-network/dusk-crypto/mlsag"
	"github.com/dusk-network/dusk-crypto/ringsig/blsag"

	"verif.local/sim/ref"
)

func init() {
	register(&Property{
		ID: "C09", Quick: 2400, Thorough: 90000,
		Rule:     "Seeded histories of signatures in both schemes by a few related keys on several nodes, with different rings, messages, clocks, restarts and interleavings: images must be equal exactly for equal keys. Each signature, and signatures forged by a cheating signer who claims another image at every ring position, is presented with wrong images and must be refused.",
		Scenario: c09,
	})
}

// badImage draws an image that is not the genuine one.
func badImage(r *Run, img Point, x Scalar, imgs []Point, keys []Point) (Point, string) {
	pk := ref.Base(x)
	switch r.Intn(10) {
	case 0:
		return ref.Zero(), "identity"
	case 1:
		return Point{}, "uninitialised"
	case 2: // what a failed decoding leaves behind
		var b [32]byte
		copy(b[:], badPointBytes(r))
		var p Point
		p.SetBytes(&b)
		return p, "undecodable"
	case 3:
		var p Point
		p.Neg(&img)
		return p, "negated"
	case 4:
		return ref.PAdd(img, img), "doubled"
	case 5:
		if len(imgs) > 0 {
			return imgs[r.Intn(len(imgs))], "another key's"
		}
	case 6:
		return pk, "public key"
	case 7:
		var h Point
		h.Derive(pk.Bytes())
		return h, "hash point"
	case 8:
		return ref.PAdd(img, ref.Base(ref.S(1))), "shifted"
	case 9:
		if len(keys) > 0 {
			return keys[r.Intn(len(keys))], "ring key"
		}
	}
	return uPoint(r), "random"
}

func c09(r *Run, idx int) {
	var nodes []*Node
	for i, n := 0, 1+r.Intn(3); i < n; i++ {
		nodes = append(nodes, r.NewNode())
	}
	clocks(r, nodes...)
	s := r.NewSched()
	// related keys
	var keys []Scalar
	seen := map[string]bool{}
	for len(keys) < 2+r.Intn(3) {
		x := secret(r)
		if len(keys) > 0 {
			last := keys[len(keys)-1]
			switch r.Intn(10) {
			case 6, 7: // equal up to one bit
				x = ref.Add(last, ref.SBig(new(big.Int).Lsh(big.NewInt(1), uint(r.Intn(251)))))
			case 8: // equal low or high part
				b := uScalar(r)
				k := 1 + r.Intn(30)
				var y [32]byte
				if r.Bool(1, 2) {
					copy(y[:k], last.Bytes()[:k])
					copy(y[k:], b.Bytes()[k:])
				} else {
					copy(y[:k], b.Bytes()[:k])
					copy(y[k:], last.Bytes()[k:])
				}
				y[31] &= 0x0f
				x.SetBytes(&y)
				x = ref.SBig(x.BigInt())
			case 0:
				x = ref.Neg(keys[0])
			case 1:
				x = ref.Add(keys[0], ref.S(1))
			case 2:
				x = ref.Add(keys[0], keys[0])
			case 3:
				x = ref.Inv(keys[0])
			}
		}
		if x.IsNonZeroI() == 0 || seen[hx2(x.Bytes())] {
			x = uScalar(r)
		}
		if seen[hx2(x.Bytes())] {
			x = ref.Add(x, ref.S(int64(len(keys)+7)))
			if seen[hx2(x.Bytes())] || x.IsNonZeroI() == 0 {
				continue
			}
		}
		seen[hx2(x.Bytes())] = true
		keys = append(keys, x)
	}
	image := map[string][2]string{} // scheme/key -> image, origin
	owner := map[string]string{}    // scheme/image -> key
	record := func(scheme string, x Scalar, img Point, from string) {
		k := scheme + hx2(x.Bytes())
		it := ptText(img)
		if old, ok := image[k]; ok {
			r.Check(old[0] == it, "unlinkable", "%s: two signatures by one key carry different images (%s and %s)", scheme, old[1], from)
			r.Note("linked")
		} else {
			image[k] = [2]string{it, from}
		}
		if o, ok := owner[scheme+it]; ok {
			r.Check(o == k, "falsely-linked", "%s: signatures by different keys carry the same image", scheme)
		}
		owner[scheme+it] = k
		r.Check(it != "degenerate" && it != ptText(ref.Zero()), "bad-image", "%s: the image is not a proper point", scheme)
	}
	var imgs []Point
	nsig := 3 + r.Intn(6)
	for i := 0; i < nsig; i++ {
		n := nodes[r.Intn(len(nodes))]
		k := r.Intn(len(keys))
		x := keys[k]
		msg := message(r, 400)
		ringN := ringSize(r) % 8
		from := fmt.Sprintf("node %d, ring of %d", n.ID, ringN+1)
		if r.Bool(1, 2) {
			z := secret(r)
			pool := decoyPool(r, ringN, [][]Point{{ref.Base(keys[0]), ref.Base(z)}})
			lib := libRing(pool)
			var sig *mlsag.Signature
			var img, direct Point
			var err error
			t := s.Spawn(n, "mlsag.Prove", nil, func() {
				d := mlsag.NewDualKey()
				d.SetPrimaryKey(x)
				d.SetCommToZero(z)
				d.SetMsg(msg)
				d.AddDecoys(lib)
				sig, img, err = d.Prove()
				direct = mlsag.CalculateKeyImage(x, ref.Base(x))
			})
			s.PlanSites(t, sitesIn("mlsag/"))
			t.OnDone = func() {
				if t.Killed {
					return
				}
				taskPanic(r, t, "mlsag signing")
				r.Check(err == nil, "sign-failed", "mlsag signing failed: %s", errStr(err))
				record("mlsag ", x, img, from)
				r.Check(ptText(direct) == ptText(img), "unlinkable", "CalculateKeyImage differs from the image of a signature by the same key")
				var ok bool
				r.MustDo(n, nil, "Verify", func() { ok, _ = sig.Verify([]Point{img}) })
				r.Check(ok, "genuine-rejected", "a genuine signature does not verify with its own image")
				for j := 0; j < 2; j++ {
					var ks []Point
					if len(pool) > 0 {
						ks = pool[r.Intn(len(pool))]
					}
					bad, what := badImage(r, img, x, imgs, ks)
					list := []Point{bad}
					if r.Bool(1, 5) {
						list = [][]Point{{img, bad}, {bad, img}, {img, img}, nil, {img, bad, img}}[r.Intn(5)]
						what += " list"
					}
					if memberText(list) == memberText([]Point{img}) {
						continue
					}
					r.MustDo(n, nil, "Verify with "+what+" image", func() { ok, _ = sig.Verify(list) })
					r.Check(!ok, "image-substituted", "mlsag: a signature (ring of %d) is accepted with a wrong image (%s)", len(pool)+1, what)
					r.Note("refused-" + what)
				}
				imgs = append(imgs, img)
			}
		} else {
			var mx []Point
			for j := 0; j < ringN; j++ {
				mx = append(mx, uPoint(r))
			}
			var sig blsag.RingSignature
			t := s.Spawn(n, "blsag.Sign", nil, func() { sig = blsag.Sign(msg, mx, x) })
			s.PlanSites(t, sitesIn("ringsig/"))
			t.OnDone = func() {
				if t.Killed {
					return
				}
				taskPanic(r, t, "blsag signing")
				record("blsag ", x, sig.I, from)
				var ok bool
				r.MustDo(n, nil, "Verify", func() { ok = blsag.Verify(msg, sig) })
				r.Check(ok, "genuine-rejected", "a genuine signature does not verify")
				for j := 0; j < 2; j++ {
					bad, what := badImage(r, sig.I, x, imgs, sig.PubKeys)
					if ptText(bad) == ptText(sig.I) {
						continue
					}
					c := cloneRing(&sig)
					c.I = bad
					r.MustDo(n, nil, "Verify with "+what+" image", func() { ok = blsag.Verify(msg, *c) })
					r.Check(!ok, "image-substituted", "blsag: a signature (ring of %d) is accepted with a wrong image (%s)", len(mx)+1, what)
					r.Note("refused-" + what)
				}
				imgs = append(imgs, sig.I)
			}
		}
		// some calls overlap, some follow one another; restarts in between
		for k := r.Intn(30); k > 0 && s.Step(); k-- {
		}
		if r.Bool(1, 6) {
			r.Restart(nodes[r.Intn(len(nodes))])
		}
		if r.Bool(1, 4) {
			r.Jump(nodes[r.Intn(len(nodes))], clockJump(r))
		}
	}
	s.Run()
	s.Close()
	// a cheating signer claims another image
	for i, n := 0, 1+r.Intn(3); i < n; i++ {
		node := nodes[r.Intn(len(nodes))]
		x := keys[r.Intn(len(keys))]
		ringN := 1 + r.Intn(5)
		pos := r.Intn(ringN)
		msg := message(r, 200)
		rnd := scalarStream(r.Seed())
		bad, what := badImage(r, ref.Image(x), x, imgs, nil)
		if ref.Degenerate(&bad) || ptText(bad) == ptText(ref.Image(x)) {
			continue
		}
		var ok bool
		if r.Bool(1, 3) {
			c09many(r, node, x, bad, what, msg, rnd)
			continue
		}
		if r.Bool(1, 2) {
			z := rnd()
			var ring [][]Point
			for j := 0; j < ringN; j++ {
				ring = append(ring, []Point{ref.Base(rnd()), ref.Base(rnd())})
			}
			ring[pos] = []Point{ref.Base(x), ref.Base(z)}
			m, im := ref.SignMLSAG(msg, []Scalar{x, z}, ring, pos, 1, []Point{bad}, rnd)
			r.MustDo(node, nil, "Verify", func() {
				if sig, err := libMLSAG(m); err == nil {
					ok, _ = sig.Verify(im)
				}
			})
			r.Check(!ok, "image-forged", "mlsag: a signer at place %d of %d gets a signature accepted under a %s image", pos, ringN, what)
		} else {
			var ring []Point
			for j := 0; j < ringN; j++ {
				ring = append(ring, ref.Base(rnd()))
			}
			ring[pos] = ref.Base(x)
			g := ref.SignRing(msg, x, ring, pos, &bad, rnd)
			sig := blsag.RingSignature{I: g.I, C: g.C, S: g.S, PubKeys: g.Keys}
			r.MustDo(node, nil, "Verify", func() { ok = blsag.Verify(msg, sig) })
			r.Check(!ok, "image-forged", "blsag: a signer at place %d of %d gets a signature accepted under a %s image", pos, ringN, what)
		}
		r.Note("cheating-signer")
	}
}

// c09many: a signer with several keys and an image for some of them.
func c09many(r *Run, node *Node, x Scalar, bad Point, what string, msg []byte, rnd func() Scalar) {
	k := 2 + r.Intn(4)
	nImg := 1 + r.Intn(k)
	at := r.Intn(nImg) // the place of x
	n := 1 + r.Intn(4)
	pos := r.Intn(n)
	ring := make([][]Point, n)
	priv := make([]Scalar, k)
	for i := range ring {
		for j := 0; j < k; j++ {
			y := rnd()
			if i == pos {
				if j == at {
					y = x
				}
				priv[j] = y
			}
			ring[i] = append(ring[i], ref.Base(y))
		}
	}
	verify := func(m *ref.MLSAG, im []Point) (ok bool) {
		r.MustDo(node, nil, "Verify", func() {
			if sig, err := libMLSAG(m); err == nil {
				ok, _ = sig.Verify(im)
			}
		})
		return
	}
	m, im := ref.SignMLSAG(msg, priv, ring, pos, nImg, nil, rnd)
	r.Check(verify(m, im), "image-refused", "a signature by %d keys is refused with their %d images", k, nImg)
	for j := range priv[:nImg] {
		var p Point
		r.MustDo(node, nil, "CalculateKeyImage", func() { p = mlsag.CalculateKeyImage(priv[j], ring[pos][j]) })
		r.Check(p.Equals(&im[j]), "not-linkable", "the image of key %d of %d is not that of the key", j, k)
	}
	im2 := append([]Point(nil), im...)
	im2[at] = bad
	r.Check(!verify(m, im2), "image-replaced", "a signature by %d keys is accepted with a %s image of key %d", k, what, at)
	if nImg > 1 {
		r.Check(!verify(m, im[:nImg-1]), "image-withheld", "a signature by %d keys is accepted without one of its images", k)
	}
	if nImg < k {
		r.Check(!verify(m, append(im2[:0:0], append(im, ref.Image(priv[nImg]))...)), "image-added", "a signature by %d keys is accepted with another image", k)
	}
	m, im = ref.SignMLSAG(msg, priv, ring, pos, nImg, im2, rnd)
	r.Check(!verify(m, im), "image-forged", "a signer of %d keys at place %d of %d gets a signature accepted under a %s image for key %d", k, pos, n, what, at)
	r.Note("several-images")
}
