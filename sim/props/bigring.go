package props

import (
	"bytes"

	"github.com/dusk-network/dusk-crypto/mlsag"
	"github.com/dusk-network/dusk-crypto/ringsig/blsag"

	"verif.local/sim/ref"
)

// bigSize draws a ring size around the widths of small counters.
func bigSize(r *Run) int {
	if v, ok := dictInt(r); ok && v > 40 && v < 1100 && r.Bool(1, 2) {
		return int(v)
	}
	return []int{63, 64, 127, 128, 254, 255, 256, 257, 300, 510, 511, 512, 520}[r.Intn(13)]
}

// bigMLSAG signs in a large ring, sends the signature, and has it verified whole and altered
// at a member anywhere in the ring.
func bigMLSAG(r *Run) {
	n := r.NewNode()
	x, z := secret(r), secret(r)
	size := bigSize(r)
	pts := manyPoints(r, 2*size)
	pool := make([][]Point, size)
	for i := range pool {
		pool[i] = pts[2*i : 2*i+2]
	}
	msg := message(r, 200)
	var sig *mlsag.Signature
	var img Point
	var err error
	var b bytes.Buffer
	r.MustDo(n, nil, "signing in a large ring", func() {
		d := mlsag.NewDualKey()
		d.SetPrimaryKey(x)
		d.SetCommToZero(z)
		d.SetMsg(msg)
		d.AddDecoys(libRing(pool))
		if sig, img, err = d.Prove(); err == nil {
			err = sig.Encode(&b, true)
		}
	})
	r.Check(err == nil, "sign-failed", "signing in a ring of %d failed: %s", size+1, errStr(err))
	m, k, perr := ref.ParseMLSAG(b.Bytes(), true)
	r.Check(perr == nil && k == b.Len(), "wrong-encoding", "the encoding of a signature in a ring of %d is not the defined one", size+1)
	m.Msg = msg
	r.Check(multiset(m.Keys) == multiset(append([][]Point{{ref.Base(x), ref.Base(z)}}, pool...)), "wrong-ring", "the ring of a signature over %d decoys is not the decoys and the signer", size)
	imgs := []Point{img}
	var ok bool
	r.Restart(n)
	r.MustDo(n, nil, "verifying in a large ring", func() {
		s := &mlsag.Signature{Msg: msg}
		if err = s.Decode(bytes.NewReader(b.Bytes()), true); err == nil {
			ok, err = s.Verify(imgs)
		}
	})
	r.Check(ok && err == nil, "genuine-rejected", "a genuine signature in a ring of %d is rejected: %s", size+1, errStr(err))
	want := sigContent(m, imgs)
	for i := 0; i < 2; i++ {
		t, ti, what := tamperMLSAG(r, m, imgs, nil)
		if i == 0 {
			t, ti, what = cloneMLSAG(m), imgs, "response"
			a := size - r.LogRange(0, size)
			c := r.Intn(len(t.R[a]))
			t.R[a][c] = tamperScalar(r, t.R[a][c], nil)
		}
		if sigContent(t, ti) == want {
			continue
		}
		ok = false
		r.MustDo(n, nil, "verifying in a large ring", func() {
			s, derr := libMLSAG(t)
			if derr == nil {
				ok, _ = s.Verify(ti)
			}
		})
		r.Check(!ok, "forgery-accepted", "a signature with altered %s (ring of %d) is accepted", what, size+1)
	}
	r.Note("large-ring")
	r.Tracef("ring of %d", size+1)
}

// bigBLSAG is the same for the single-key scheme.
func bigBLSAG(r *Run) {
	n := r.NewNode()
	x := secret(r)
	size := bigSize(r)
	mix := manyPoints(r, size)
	msg := message(r, 200)
	var sig blsag.RingSignature
	var ok bool
	r.MustDo(n, nil, "signing in a large ring", func() { sig = blsag.Sign(msg, append([]Point(nil), mix...), x) })
	r.Check(multiset1(sig.PubKeys) == multiset1(append(append([]Point(nil), mix...), ref.Base(x))), "wrong-ring", "the ring of a signature over %d decoys is not the decoys and the signer", size)
	r.Restart(n)
	r.MustDo(n, nil, "verifying in a large ring", func() { ok = blsag.Verify(msg, *cloneRing(&sig)) })
	r.Check(ok, "genuine-rejected", "a genuine signature in a ring of %d is rejected", size+1)
	want := ringContent(msg, &sig)
	for i := 0; i < 2; i++ {
		t, tm, what := tamperRing(r, cloneRing(&sig), msg, nil)
		if i == 0 {
			t, tm, what = cloneRing(&sig), msg, "response"
			a := len(t.S) - 1 - r.LogRange(0, len(t.S)-1)
			t.S[a] = tamperScalar(r, t.S[a], nil)
		}
		if ringContent(tm, t) == want {
			continue
		}
		r.MustDo(n, nil, "verifying in a large ring", func() { ok = blsag.Verify(tm, *t) })
		r.Check(!ok, "forgery-accepted", "a signature with altered %s (ring of %d) is accepted", what, size+1)
	}
	r.Note("large-ring")
	r.Tracef("ring of %d", size+1)
}
