package props

import (
	"bytes"
	"fmt"
	"strings"

	"github.com/dusk-network/dusk-crypto/ringsig/blsag"

	"verif.local/sim/engine"
	"verif.local/sim/ref"
)

func init() {
	register(&Property{
		ID: "C08", Quick: 3000, Thorough: 120000,
		Rule:     "Seeded worlds of 1-3 nodes sign with shared mixins in interleaved calls, restart, exchange signatures over a faulty network and verify them whole and tampered with (message, image, challenge, responses, keys, numbers, order, shapes, splices); a verdict must be positive exactly when the content is the signed one, and the ring must be the mixin plus the signer.",
		Scenario: c08,
	})
}

func ringContent(msg []byte, s *blsag.RingSignature) string {
	var b strings.Builder
	fmt.Fprintf(&b, "%x|%s|%x|", msg, ptText(s.I), s.C.Bytes())
	for i := range s.S {
		fmt.Fprintf(&b, "%x,", s.S[i].Bytes())
	}
	b.WriteByte('|')
	for i := range s.PubKeys {
		b.WriteString(ptText(s.PubKeys[i]) + ",")
	}
	return b.String()
}

func cloneRing(s *blsag.RingSignature) *blsag.RingSignature {
	return &blsag.RingSignature{I: s.I, C: s.C, S: append([]Scalar(nil), s.S...), PubKeys: append([]Point(nil), s.PubKeys...)}
}

type bsigned struct {
	sig     *blsag.RingSignature // the object handed out
	kept    *blsag.RingSignature // its content at signing time
	msg     []byte
	x       Scalar
	node    *Node
	inc     int
	content string
}

func refRing(s *blsag.RingSignature) *ref.Ring {
	return &ref.Ring{I: s.I, C: s.C, S: s.S, Keys: s.PubKeys}
}

// tamperRing alters a signature or its message.
func tamperRing(r *Run, s *blsag.RingSignature, msg []byte, other *bsigned) (*blsag.RingSignature, []byte, string) {
	c := cloneRing(s)
	m := append([]byte(nil), msg...)
	n := len(c.PubKeys)
	if n == 0 || len(c.S) == 0 {
		c.C = uScalar(r)
		return c, m, "challenge"
	}
	i, j := r.Intn(n), r.Intn(n)
	switch r.Weighted(3, 3, 4, 4, 4, 3, 4, 2, 3, 1) {
	case 0:
		return c, near(r, m), "message"
	case 1:
		c.C = tamperScalar(r, c.C, c.S)
		return c, m, "challenge"
	case 2:
		i %= len(c.S)
		c.S[i] = tamperScalar(r, c.S[i], c.S)
		return c, m, "response"
	case 3:
		c.PubKeys[i] = tamperPoint(r, c.PubKeys[i], c.PubKeys)
		return c, m, "ring-key"
	case 4:
		if r.Bool(1, 4) {
			c.I = Point{}
		} else {
			c.I = tamperPoint(r, c.I, c.PubKeys)
		}
		return c, m, "image"
	case 5:
		k := r.Intn(3)
		if k != 0 {
			c.PubKeys[i], c.PubKeys[j] = c.PubKeys[j], c.PubKeys[i]
		}
		if k != 1 && i < len(c.S) && j < len(c.S) {
			c.S[i], c.S[j] = c.S[j], c.S[i]
		}
		return c, m, "order"
	case 6:
		switch r.Intn(5) {
		case 0:
			c.PubKeys = append(c.PubKeys[:i:i], c.PubKeys[i+1:]...)
			if i < len(c.S) {
				c.S = append(c.S[:i:i], c.S[i+1:]...)
			}
		case 1:
			c.PubKeys = append(c.PubKeys, c.PubKeys[i])
			c.S = append(c.S, c.S[i%len(c.S)])
		case 2:
			c.PubKeys = append(c.PubKeys[:i:i], append([]Point{uPoint(r)}, c.PubKeys[i:]...)...)
			i %= len(c.S)
			c.S = append(c.S[:i:i], append([]Scalar{uScalar(r)}, c.S[i:]...)...)
		case 3:
			c.PubKeys, c.S = nil, nil
		default:
			c.PubKeys = append(c.PubKeys, uPoint(r))
			c.S = append(c.S, uScalar(r))
		}
		return c, m, "number"
	case 7:
		k := r.Intn(n)
		if len(c.S) == n {
			c.PubKeys = append(append([]Point(nil), c.PubKeys[k:]...), c.PubKeys[:k]...)
			c.S = append(append([]Scalar(nil), c.S[k:]...), c.S[:k]...)
		}
		return c, m, "rotation"
	case 8:
		switch r.Intn(5) {
		case 0:
			c.S = c.S[:len(c.S)-1]
		case 1:
			c.S = append(c.S, uScalar(r))
		case 2:
			c.PubKeys = c.PubKeys[:n-1]
		case 3:
			c.PubKeys = append(c.PubKeys, uPoint(r))
		default:
			if r.Bool(1, 2) {
				c.S = nil
			} else {
				c.PubKeys = nil
			}
		}
		return c, m, "shape"
	}
	if other != nil {
		o := cloneRing(other.kept)
		switch r.Intn(5) {
		case 0:
			c.C = o.C
		case 1:
			c.S = o.S
		case 2:
			c.PubKeys = o.PubKeys
		case 3:
			c.I = o.I
		default:
			m = append([]byte(nil), other.msg...)
		}
		return c, m, "splice"
	}
	return c, near(r, m), "message"
}

func rotateSingle(s *blsag.RingSignature, msg []byte, k int) *blsag.RingSignature {
	c := cloneRing(s)
	k %= len(c.S)
	ch := refRing(s).Challenges(msg)
	c.S = append(append([]Scalar(nil), c.S[k:]...), c.S[:k]...)
	c.PubKeys = append(append([]Point(nil), c.PubKeys[k:]...), c.PubKeys[:k]...)
	c.C = ch[k]
	return c
}

func repeatSingle(s *blsag.RingSignature, k int) *blsag.RingSignature {
	c := cloneRing(s)
	for i := 1; i < k; i++ {
		c.S, c.PubKeys = append(c.S, s.S...), append(c.PubKeys, s.PubKeys...)
	}
	return c
}

func knownSingle(s, want *blsag.RingSignature, msg, wantMsg []byte) string {
	n := len(s.S)
	if n == 0 || len(want.S) == 0 || len(want.S)%n != 0 || len(want.S) != len(want.PubKeys) {
		return ""
	}
	if n == 1 && len(want.S) == 1 && len(want.PubKeys) == 1 && bytes.Equal(msg, wantMsg) && s.C == want.C {
		a := &ref.MLSAG{Msg: msg, C: s.C, R: [][]Scalar{s.S}, Keys: [][]Point{s.PubKeys}}
		b := &ref.MLSAG{Msg: msg, C: s.C, R: [][]Scalar{want.S}, Keys: [][]Point{want.PubKeys}}
		if unboundKeys(a, b, []Point{s.I}, []Point{want.I}) {
			return "unbound-keys"
		}
	}
	t := ringContent(wantMsg, want)
	for k := 0; k < n; k++ {
		if t == ringContent(msg, repeatSingle(rotateSingle(s, msg, k), len(want.S)/n)) {
			if k > 0 {
				return "ring-rotation"
			}
			return "ring-repetition"
		}
	}
	return ""
}

func c08(r *Run, idx int) {
	if r.Bool(1, 60) {
		bigBLSAG(r)
		return
	}
	var nodes []*Node
	for i, n := 0, 1+r.Intn(3); i < n; i++ {
		nodes = append(nodes, r.NewNode())
	}
	clocks(r, nodes...)
	net := newNet(r)
	s := r.NewSched()
	var keys []Scalar
	for i, n := 0, 1+r.Intn(3); i < n; i++ {
		keys = append(keys, secret(r))
	}
	// one mixin buffer, of which calls use parts
	var mixin []Point
	for i, n := 0, ringSize(r); i < n; i++ {
		p := uPoint(r)
		switch r.Weighted(20, 1, 1, 1) {
		case 1:
			p = ref.Zero()
		case 2:
			if i > 0 {
				p = mixin[i-1]
			}
		case 3:
			p = ref.Base(keys[r.Intn(len(keys))])
		}
		mixin = append(mixin, p)
	}
	var all []*bsigned
	todo := 1 + r.Intn(4)

	sign := func() {
		n := nodes[r.Intn(len(nodes))]
		x := keys[r.Intn(len(keys))]
		lo := 0
		hi := len(mixin)
		if r.Bool(1, 3) && hi > 0 {
			lo = r.Intn(hi)
			hi = lo + r.Intn(hi-lo+1)
		}
		mx := mixin[lo:hi]
		if len(mx) == 0 && r.Bool(1, 2) {
			mx = nil
		}
		want := append([]Point(nil), mx...)
		msg := message(r, 1500)
		if r.Bool(1, 12) { // long
			msg = engine.Expand(r.Seed()|1, 1<<uint(12+r.Intn(5))+r.Intn(1200))
		}
		buf := spareBytes(r, msg)
		var sig blsag.RingSignature
		t := s.Spawn(n, "Sign", nil, func() { sig = blsag.Sign(buf, mx, x) })
		s.PlanSites(t, sitesIn("ringsig/"))
		t.OnDone = func() {
			if t.Killed {
				todo++
				return
			}
			taskPanic(r, t, "Sign")
			want = append(want, ref.Base(x))
			r.Check(multiset1(want) == multiset1(sig.PubKeys), "wrong-ring", "the ring of the signature is not the %d decoys plus the signer's key", len(want)-1)
			r.Check(len(sig.S) == len(sig.PubKeys), "wrong-ring", "%d responses for %d ring members", len(sig.S), len(sig.PubKeys))
			f := &bsigned{sig: &sig, kept: cloneRing(&sig), msg: msg, x: x, node: n, inc: n.Inc}
			f.content = ringContent(msg, &sig)
			all = append(all, f)
			r.Note("signed")
			r.Tracef("node %d signed in a ring of %d", n.ID, len(sig.S))
			r.Mix([]byte(f.content))
			for _, d := range nodes {
				net.Send(&Msg{From: n.ID, To: d.ID, Obj: f})
			}
			if r.Bool(1, 2) {
				scribble(buf)
			}
		}
	}

	verify := func(n *Node, f *bsigned) {
		mode := r.Weighted(2, 2, 5, 1, 1)
		sig, msg, what := f.kept, f.msg, "whole"
		if mode == 0 && f.inc == f.node.Inc && f.node == n {
			sig = f.sig
		} else {
			sig = cloneRing(f.kept)
		}
		var other *bsigned
		if len(all) > 1 {
			other = all[r.Intn(len(all))]
		}
		switch mode {
		case 2:
			sig, msg, what = tamperRing(r, sig, msg, other)
		case 3:
			sig, msg, what = tamperRing(r, sig, msg, other)
			var w2 string
			sig, msg, w2 = tamperRing(r, sig, msg, other)
			what += "+" + w2
		case 4:
			if len(f.kept.S) == 1 && r.Bool(1, 2) {
				m, im := shiftKey(r, &ref.MLSAG{Msg: msg, C: sig.C, R: [][]Scalar{sig.S}, Keys: [][]Point{sig.PubKeys}}, []Point{sig.I})
				if m != nil {
					sig, what = cloneRing(sig), "unbound-keys"
					sig.S, sig.PubKeys, sig.I = m.R[0], m.Keys[0], im[0]
				}
			} else if r.Bool(1, 2) {
				sig, what = repeatSingle(f.kept, 2+r.Intn(2)), "ring-repetition"
			} else {
				sig, what = rotateSingle(f.kept, msg, 1+r.Intn(len(f.kept.S))), "ring-rotation"
			}
		}
		accept := ringContent(msg, sig) == f.content
		var ok bool
		t := s.Spawn(n, "Verify", nil, func() { ok = blsag.Verify(msg, *sig) })
		s.PlanSites(t, sitesIn("ringsig/"))
		t.OnDone = func() {
			if t.Killed {
				return
			}
			taskPanic(r, t, "Verify ("+what+")")
			r.Tracef("node %d verifies (%s): %v", n.ID, what, ok)
			switch {
			case accept:
				r.Check(ok, "genuine-rejected", "a genuine signature (ring of %d) is rejected", len(f.kept.S))
				r.Note("accepted")
			case ok:
				k := knownSingle(f.kept, sig, f.msg, msg)
				r.Check(k != "", "forgery-accepted", "a signature with altered %s (ring of %d) is accepted", what, len(f.kept.S))
				r.KnownFinding(k, "accepted")
			default:
				r.Checks++
				r.Note("rejected-" + strings.Split(what, "+")[0])
			}
		}
	}

	extra := 4 + r.Intn(8)
	for step := 0; step < 40000; step++ {
		faults := step < 2500
		if !faults && !net.Heal {
			net.Recover()
		}
		live := len(s.Live())
		if todo > 0 && (live == 0 || r.Bool(1, 2)) {
			todo--
			sign()
			continue
		}
		if net.Pending() > 0 && (live == 0 || r.Bool(1, 3)) {
			m := net.Deliver()
			verify(nodes[m.To], m.Obj.(*bsigned))
			continue
		}
		if extra > 0 && len(all) > 0 && (live == 0 || r.Bool(1, 4)) {
			extra--
			verify(nodes[r.Intn(len(nodes))], all[r.Intn(len(all))])
			continue
		}
		if faults && r.Bool(1, 120) {
			r.Restart(nodes[r.Intn(len(nodes))])
			continue
		}
		if faults && r.Bool(1, 100) {
			net.Toggle(r.Intn(len(nodes)))
		}
		if !s.Step() && todo == 0 && net.Pending() == 0 && (extra == 0 || len(all) == 0) {
			if net.Heal {
				break
			}
			net.Recover()
		}
	}
	if len(all) > 0 && r.Bool(1, 3) {
		lifeBLSAG(r, nodes[r.Intn(len(nodes))], all[r.Intn(len(all))], all[r.Intn(len(all))])
	}
	for _, f := range all {
		r.Check(ringContent(f.msg, f.sig) == f.content, "signature-changed", "a signature changed after it was handed out")
	}
}

func multiset1(l []Point) string {
	var m [][]Point
	for _, p := range l {
		m = append(m, []Point{p})
	}
	return multiset(m)
}
