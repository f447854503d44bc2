package props

import (
	"bytes"

	"github.com/dusk-network/dusk-crypto/rangeproof"
	"github.com/dusk-network/dusk-crypto/rangeproof/innerproduct"
	"github.com/dusk-network/dusk-crypto/ringsig/blsag"

	"verif.local/sim/ref"
)

// The life of one object in memory: it is checked, changed where it lies, checked again,
// and so on. Every verdict must be the one its content at that moment deserves.

func overPoints(dst *[]Point, src []Point) {
	if len(*dst) == len(src) {
		copy(*dst, src)
		return
	}
	*dst = append([]Point(nil), src...)
}

func overScalars(dst *[]Scalar, src []Scalar) {
	if len(*dst) == len(src) {
		copy(*dst, src)
		return
	}
	*dst = append([]Scalar(nil), src...)
}

func overBytes(dst *[]byte, src []byte) {
	if len(*dst) == len(src) {
		copy(*dst, src)
		return
	}
	*dst = append([]byte(nil), src...)
}

func overIP(dst *innerproduct.Proof, a, b Scalar, L, R []Point) {
	dst.A, dst.B = a, b
	overPoints(&dst.L, L)
	overPoints(&dst.R, R)
}

// overRP writes q over a proof, keeping what can be kept in its place. The scalars that are
// not exported get there by assignment only.
func overRP(r *Run, dst *rangeproof.Proof, old, q *ref.RP) bool {
	n, err := toLib(r, q)
	if err != nil {
		return false
	}
	if old.Taux != q.Taux || old.Mu != q.Mu || old.T != q.T {
		keepV, keepIP := dst.V, dst.IPProof
		*dst = n
		dst.V, dst.IPProof = keepV, keepIP
	}
	dst.A, dst.S, dst.T1, dst.T2 = n.A, n.S, n.T1, n.T2
	if len(dst.V) == len(n.V) {
		copy(dst.V, n.V)
	} else {
		dst.V = n.V
	}
	overIP(dst.IPProof, n.IPProof.A, n.IPProof.B, n.IPProof.L, n.IPProof.R)
	return true
}

// lifeRP goes through the life of a range proof.
func lifeRP(r *Run, n *Node, p, o *ref.RP) {
	lp, err := toLib(r, p)
	if err != nil {
		return
	}
	cur := cloneRP(p)
	for i, k := 0, 2+r.Intn(2); i <= k; i++ {
		what := "untouched"
		if i > 0 {
			next := cloneRP(p)
			what = "restored"
			if i%2 == 1 || r.Bool(1, 2) {
				if what = tamperRP(r, next, o); r.Bool(1, 3) {
					// only what lies behind the pointer
					q := cloneRP(p)
					q.IA, q.IB, q.L, q.R = next.IA, next.IB, next.L, next.R
					next = q
				}
			}
			if !overRP(r, &lp, cur, next) {
				return
			}
			cur = next
		}
		want, why := cur.Verify()
		var ok bool
		r.MustDo(n, nil, "Verify of a proof changed in place", func() { ok, err = rangeproof.Verify(lp) })
		r.Tracef("changed in place: %s -> %v (reference %v)", what, ok, want)
		r.Check((ok && err == nil) == want, "stale-verdict", "a proof that was checked before and then changed in place (%s) is judged %v instead of %v (%s)", what, ok, want, why)
	}
	r.Note("changed in place")
}

// lifeMLSAG goes through the life of a ring signature.
func lifeMLSAG(r *Run, n *Node, f *signed, other *ref.MLSAG) {
	sig, err := libMLSAG(cloneMLSAG(f.m))
	if err != nil {
		return
	}
	sig.Msg = append([]byte(nil), sig.Msg...)
	imgs := append([]Point(nil), f.imgs...)
	cur := f.m
	for i, k := 0, 2+r.Intn(4); i <= k; i++ {
		next, im, what := f.m, f.imgs, "restored"
		if i%2 == 1 || r.Bool(1, 3) {
			next, im, what = tamperMLSAG(r, f.m, f.imgs, other)
			if r.Bool(1, 2) { // only what is exported
				c := cloneMLSAG(f.m)
				c.Msg, c.Keys = next.Msg, next.Keys
				next = c
			}
		}
		if i == 0 {
			next, im, what = f.m, f.imgs, "untouched"
		}
		if !sameSecrets(cur, next) || r.Bool(1, 8) { // decoded into the same variable
			b := next.Encode(false)
			var derr error
			r.MustDo(n, nil, "Decode", func() { derr = sig.Decode(bytes.NewReader(b), false) })
			if derr != nil {
				return // judged by C12 and C13
			}
		}
		keys := libRing(next.Keys)
		if len(keys) == len(sig.PubKeys) {
			copy(sig.PubKeys, keys)
		} else {
			sig.PubKeys = keys
		}
		overBytes(&sig.Msg, next.Msg)
		overPoints(&imgs, im)
		cur = next
		accept := sigContent(cur, imgs) == f.content
		var ok bool
		r.MustDo(n, nil, "Verify of a signature changed in place", func() { ok, err = sig.Verify(imgs) })
		r.Tracef("changed in place: %s -> %v (expected %v)", what, ok, accept)
		if ok && !accept {
			if k := knownRearrangement(f.m, cur, f.imgs, imgs); k != "" {
				r.KnownFinding(k, "accepted")
				continue
			}
		}
		r.Check((ok && err == nil) == accept, "stale-verdict", "a signature that was checked before and then changed in place (%s) is judged %v (%s)", what, ok, errStr(err))
	}
	r.Note("changed in place")
}

// sameSecrets tells if the parts that are not exported agree.
func sameSecrets(a, b *ref.MLSAG) bool {
	if a.C != b.C || len(a.R) != len(b.R) {
		return false
	}
	for i := range a.R {
		if len(a.R[i]) != len(b.R[i]) {
			return false
		}
		for j := range a.R[i] {
			if a.R[i][j] != b.R[i][j] {
				return false
			}
		}
	}
	return true
}

// lifeBLSAG goes through the life of a single-key ring signature.
func lifeBLSAG(r *Run, n *Node, f *bsigned, other *bsigned) {
	sig := cloneRing(f.kept)
	msg := append([]byte(nil), f.msg...)
	for i, k := 0, 2+r.Intn(4); i <= k; i++ {
		next, m, what := f.kept, f.msg, "restored"
		if i%2 == 1 || (i > 0 && r.Bool(1, 3)) {
			next, m, what = tamperRing(r, cloneRing(f.kept), f.msg, other)
		}
		sig.I, sig.C = next.I, next.C
		overScalars(&sig.S, next.S)
		overPoints(&sig.PubKeys, next.PubKeys)
		overBytes(&msg, m)
		accept := ringContent(msg, sig) == f.content
		var ok bool
		r.MustDo(n, nil, "Verify of a signature changed in place", func() { ok = blsag.Verify(msg, *sig) })
		r.Tracef("changed in place: %s -> %v (expected %v)", what, ok, accept)
		if ok && !accept {
			if k := knownSingle(f.kept, sig, f.msg, msg); k != "" {
				r.KnownFinding(k, "accepted")
				continue
			}
		}
		r.Check(ok == accept, "stale-verdict", "a signature that was checked before and then changed in place (%s) is judged %v", what, ok)
	}
	r.Note("changed in place")
}

// lifeIP goes through the life of an inner-product argument and its statement.
func lifeIP(r *Run, n *Node, pr *c23proof, other *ipStmt, op *ref.IP) {
	q := libIP(pr.p)
	st := pr.st.clone()
	for i, k := 0, 2+r.Intn(3); i <= k; i++ {
		s, p, what := pr.st.clone(), pr.p.Clone(), "restored"
		if i%2 == 1 || (i > 0 && r.Bool(1, 3)) {
			what = c23alter(r, s, p, other, op)
		}
		overIP(q, p.A, p.B, p.L, p.R)
		overPoints(&st.G, s.G)
		overPoints(&st.H, s.H)
		overScalars(&st.f, s.f)
		st.Q, st.P = s.Q, s.P
		want, why := p.Verify(s.G, s.H, s.f, s.Q, s.P)
		var got bool
		r.MustDo(n, nil, "Verify of an argument changed in place", func() {
			got = q.Verify(st.G, st.H, q.L, q.R, st.f, st.Q, st.P, len(st.G))
		})
		r.Check(got == want, "stale-verdict", "an argument that was checked before and then changed in place (%s) is judged %v instead of %v (%s)", what, got, want, why)
	}
	r.Note("changed in place")
}
