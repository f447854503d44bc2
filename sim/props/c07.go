package props

import (
	"bytes"
	"fmt"
	"sort"
	"strings"

	"github.com/dusk-network/dusk-crypto/mlsag"

	"verif.local/sim/engine"
	"verif.local/sim/ref"
)

func init() {
	register(&Property{
		ID: "C07", Quick: 2200, Thorough: 90000,
		Rule:     "Seeded worlds of 1-3 nodes run interleaved signing sessions over shared decoys step by step, abuse sessions and buffers afterwards, send signatures over a faulty network and verify them whole, after a round trip, and tampered with (message, challenge, responses, keys, images, shapes); a verdict must be positive exactly when the content is the signed one, and the ring must be the decoys plus the signer.",
		Scenario: c07,
	})
}

// ringSize draws the number of decoys.
func ringSize(r *Run) int {
	switch r.Weighted(2, 3, 5, 3, 1) {
	case 0:
		return 0
	case 1:
		return 1
	case 2:
		return 2 + r.Intn(3)
	case 3:
		return 5 + r.Intn(8)
	}
	if v, ok := dictInt(r); ok && v < 40 {
		return int(v)
	}
	return 15 + r.Intn(20)
}

// secret draws a non-zero private key.
func secret(r *Run) Scalar {
	for {
		s := scalar(r)
		if s.IsNonZeroI() != 0 {
			return s
		}
		return uScalar(r)
	}
}

func ptText(p Point) string {
	if ref.Degenerate(&p) {
		return "degenerate"
	}
	return hx2(p.Bytes())
}

func hx2(b []byte) string { return fmt.Sprintf("%x", b) }

// memberText identifies a ring member.
func memberText(keys []Point) string {
	s := ""
	for _, k := range keys {
		s += ptText(k) + "/"
	}
	return s
}

func multiset(l [][]Point) string {
	var t []string
	for _, m := range l {
		t = append(t, memberText(m))
	}
	sort.Strings(t)
	return strings.Join(t, " ")
}

// sigContent is everything a verdict depends on.
func sigContent(m *ref.MLSAG, images []Point) string {
	var b strings.Builder
	fmt.Fprintf(&b, "%x|%x|", m.Msg, m.C.Bytes())
	for _, l := range m.R {
		for i := range l {
			fmt.Fprintf(&b, "%x,", l[i].Bytes())
		}
		b.WriteByte(';')
	}
	for _, l := range m.Keys {
		b.WriteString(memberText(l) + ";")
	}
	b.WriteString("|" + memberText(images))
	return b.String()
}

func cloneMLSAG(m *ref.MLSAG) *ref.MLSAG {
	c := &ref.MLSAG{C: m.C, Msg: append([]byte(nil), m.Msg...)}
	for _, l := range m.R {
		c.R = append(c.R, append([]Scalar(nil), l...))
	}
	for _, l := range m.Keys {
		c.Keys = append(c.Keys, append([]Point(nil), l...))
	}
	return c
}

// tamperScalar changes a scalar.
func tamperScalar(r *Run, s Scalar, others []Scalar) Scalar {
	switch r.Intn(6) {
	case 0:
		return ref.Add(s, ref.S(1))
	case 1:
		return ref.Neg(s)
	case 2:
		return ref.S(0)
	case 3:
		if len(others) > 0 {
			return others[r.Intn(len(others))]
		}
	case 4:
		b := s.Bytes()
		var x [32]byte
		copy(x[:], b)
		x[r.Intn(31)] ^= 1 << uint(r.Intn(8))
		var t Scalar
		t.SetBytes(&x)
		return t
	}
	return uScalar(r)
}

func tamperPoint(r *Run, p Point, others []Point) Point {
	switch r.Intn(6) {
	case 0:
		return ref.PAdd(p, ref.Base(ref.S(1)))
	case 1:
		var n Point
		n.Neg(&p)
		return n
	case 2:
		return ref.Zero()
	case 3:
		if len(others) > 0 {
			return others[r.Intn(len(others))]
		}
	case 4:
		return ref.PAdd(p, p)
	}
	return uPoint(r)
}

// tamperMLSAG alters the signature, its message or the images.
func tamperMLSAG(r *Run, m *ref.MLSAG, images []Point, other *ref.MLSAG) (*ref.MLSAG, []Point, string) {
	c := cloneMLSAG(m)
	im := append([]Point(nil), images...)
	n := len(c.R)
	var allR []Scalar
	var allK []Point
	for i := range c.R {
		allR = append(allR, c.R[i]...)
		allK = append(allK, c.Keys[i]...)
	}
	i, j := r.Intn(n), r.Intn(n)
	switch r.Weighted(3, 3, 5, 5, 3, 3, 4, 2, 3, 1) {
	case 0:
		c.Msg = near(r, c.Msg)
		return c, im, "message"
	case 1:
		c.C = tamperScalar(r, c.C, allR)
		return c, im, "challenge"
	case 2:
		k := r.Intn(len(c.R[i]))
		c.R[i][k] = tamperScalar(r, c.R[i][k], allR)
		return c, im, "response"
	case 3:
		k := r.Intn(len(c.Keys[i]))
		c.Keys[i][k] = tamperPoint(r, c.Keys[i][k], allK)
		return c, im, "ring-key"
	case 4:
		switch r.Intn(3) {
		case 0:
			c.Keys[i], c.Keys[j] = c.Keys[j], c.Keys[i]
		case 1:
			c.R[i], c.R[j] = c.R[j], c.R[i]
		default:
			c.Keys[i], c.Keys[j] = c.Keys[j], c.Keys[i]
			c.R[i], c.R[j] = c.R[j], c.R[i]
		}
		return c, im, "order"
	case 5:
		switch r.Intn(4) {
		case 0:
			c.Keys = append(c.Keys[:i:i], c.Keys[i+1:]...)
			c.R = append(c.R[:i:i], c.R[i+1:]...)
		case 1:
			c.Keys = append(c.Keys, append([]Point(nil), c.Keys[i]...))
			c.R = append(c.R, append([]Scalar(nil), c.R[i]...))
		case 2:
			k := len(c.R[0])
			var ks []Point
			var rs []Scalar
			for x := 0; x < k; x++ {
				ks, rs = append(ks, uPoint(r)), append(rs, uScalar(r))
			}
			c.Keys = append(c.Keys[:i:i], append([][]Point{ks}, c.Keys[i:]...)...)
			c.R = append(c.R[:i:i], append([][]Scalar{rs}, c.R[i:]...)...)
		default:
			if len(c.Keys) > 0 {
				c.Keys = c.Keys[:len(c.Keys)-1]
			}
		}
		return c, im, "number"
	case 6:
		k := r.Intn(len(im))
		switch r.Intn(7) {
		case 0:
			im = nil
		case 1:
			im = append(im, im[k])
		case 2:
			im = append(im, uPoint(r))
		case 3:
			im[k] = Point{}
		case 4:
			im = append(im[:k:k], im[k+1:]...)
		case 5:
			im[0], im[k] = im[k], im[0]
			if k == 0 {
				im[0] = tamperPoint(r, im[0], im)
			}
		default:
			im[k] = tamperPoint(r, im[k], allK)
		}
		return c, im, "image"
	case 7:
		k := r.Intn(n)
		c.Keys = append(append([][]Point(nil), c.Keys[k:]...), c.Keys[:k]...)
		c.R = append(append([][]Scalar(nil), c.R[k:]...), c.R[:k]...)
		return c, im, "rotation"
	case 8: // members of differing sizes
		switch r.Intn(4) {
		case 0:
			c.Keys[i] = c.Keys[i][:1]
		case 1:
			c.Keys[i] = append(c.Keys[i], uPoint(r))
		case 2:
			c.Keys[i] = nil
		default:
			for x := range c.Keys {
				c.Keys[x] = c.Keys[x][:1]
			}
		}
		return c, im, "shape"
	}
	if other != nil {
		switch r.Intn(4) {
		case 0:
			c.C = other.C
		case 1:
			c.R = cloneMLSAG(other).R
		case 2:
			c.Keys = cloneMLSAG(other).Keys
		default:
			c.Msg = append([]byte(nil), other.Msg...)
		}
		return c, im, "splice"
	}
	c.Msg = near(r, c.Msg)
	return c, im, "message"
}

// libMLSAG builds the library's object for arbitrary content; nil if the library refuses to decode.
func libMLSAG(m *ref.MLSAG) (*mlsag.Signature, error) {
	k := 0
	if len(m.R) > 0 {
		k = len(m.R[0])
	}
	plain := len(m.Keys) == len(m.R)
	for _, l := range m.Keys {
		plain = plain && len(l) == k
	}
	s := &mlsag.Signature{}
	if err := s.Decode(bytes.NewReader(m.Encode(plain)), plain); err != nil {
		return nil, err
	}
	if !plain {
		s.PubKeys = libRing(m.Keys)
	}
	s.Msg = m.Msg
	return s, nil
}

func libRing(l [][]Point) []mlsag.PubKeys {
	var out []mlsag.PubKeys
	for _, m := range l {
		var p mlsag.PubKeys
		for _, k := range m {
			p.AddPubKey(k)
		}
		out = append(out, p)
	}
	return out
}

// signed is a finished signature as the world knows it.
type signed struct {
	sig     *mlsag.Signature
	imgs    []Point
	m       *ref.MLSAG // the content at signing time
	wire    []byte
	node    *Node
	inc     int
	content string
}

type msession struct {
	id     int
	node   *Node
	inc    int
	dk     *mlsag.DualKey
	x, z   Scalar
	ring   [][]Point // expected decoys
	msg    []byte
	msgBuf []byte
	steps  []int
	ragged bool
	zero   bool
	done   *signed
	busy   bool
	dead   bool
	proved bool
}

const (
	stKey = iota
	stComm
	stMsg
	stDecoys
	stDecoy
	stSub
	stProve
	stAbuseSub
	stAbuseMsg
	stAbuseDecoy
	stAbuseKey
	stAbuseBuf
	stAbuseProve
)

// decoyPool are key vectors offered to sessions.
func decoyPool(r *Run, n int, own [][]Point) [][]Point {
	var l [][]Point
	for i := 0; i < n; i++ {
		a, b := uPoint(r), uPoint(r)
		switch r.Weighted(20, 1, 1, 1, 1) {
		case 1:
			a = ref.Zero()
		case 2:
			b = a
		case 3:
			if i > 0 {
				a, b = l[i-1][0], l[i-1][1]
			}
		case 4:
			if len(own) > 0 {
				k := own[r.Intn(len(own))]
				a, b = k[0], k[1]
			}
		}
		l = append(l, []Point{a, b})
	}
	return l
}

func c07(r *Run, idx int) {
	if r.Bool(1, 90) {
		bigMLSAG(r)
		return
	}
	var nodes []*Node
	for i, n := 0, 1+r.Intn(3); i < n; i++ {
		nodes = append(nodes, r.NewNode())
	}
	clocks(r, nodes...)
	net := newNet(r)
	s := r.NewSched()
	nsess := 1 + r.Intn(3)
	// decoys are prepared once and fed to all sessions
	var own [][]Point
	var priv [][2]Scalar
	for i := 0; i < nsess; i++ {
		x, z := secret(r), secret(r)
		if i > 0 && r.Bool(1, 4) {
			x = priv[0][0]
		}
		priv = append(priv, [2]Scalar{x, z})
		own = append(own, []Point{ref.Base(x), ref.Base(z)})
	}
	pool := decoyPool(r, ringSize(r), own)
	libPool := libRing(pool)
	var sessions []*msession
	var all []*signed
	extraForeign := 0
	for i := 0; i < nsess; i++ {
		ss := &msession{id: i, node: nodes[r.Intn(len(nodes))], x: priv[i][0], z: priv[i][1]}
		if r.Bool(1, 25) {
			ss.zero = true
			if r.Bool(1, 2) {
				ss.x = ref.S(0)
			} else {
				ss.z = ref.S(0)
			}
		}
		ss.msg = message(r, 1500)
		if r.Bool(1, 12) { // long
			ss.msg = engine.Expand(r.Seed()|1, 1<<uint(12+r.Intn(5))+r.Intn(1200))
		}
		ss.msgBuf = spareBytes(r, ss.msg)
		pre := []int{stKey, stComm, stMsg}
		p := r.Perm(3)
		for _, k := range p {
			ss.steps = append(ss.steps, pre[k])
		}
		switch {
		case len(pool) == 0:
			if r.Bool(1, 2) {
				ss.steps = append(ss.steps, stDecoys)
			}
		case r.Bool(2, 3):
			ss.steps = append(ss.steps, stDecoys)
		default:
			for range pool {
				ss.steps = append(ss.steps, stDecoy)
			}
		}
		if r.Bool(1, 3) {
			ss.steps = append(ss.steps, stSub)
			if r.Bool(1, 4) {
				ss.steps = append(ss.steps, stDecoys)
			}
		}
		if r.Bool(1, 20) {
			ss.ragged = true
		}
		ss.steps = append(ss.steps, stProve)
		for k, n := 0, r.Intn(4); k < n; k++ {
			ss.steps = append(ss.steps, stAbuseSub+r.Intn(6))
		}
		sessions = append(sessions, ss)
	}

	runStep := func(ss *msession) {
		st := ss.steps[0]
		ss.steps = ss.steps[1:]
		if ss.dk == nil {
			ss.dk = mlsag.NewDualKey()
			ss.inc = ss.node.Inc
		}
		dk := ss.dk
		var fn func()
		after := func() {}
		name := ""
		switch st {
		case stKey:
			var p Point
			name, fn = "SetPrimaryKey", func() { p = dk.SetPrimaryKey(ss.x) }
			after = func() {
				r.Check(ptText(p) == ptText(ref.Base(ss.x)), "wrong-pubkey", "SetPrimaryKey returned another key's public key")
			}
		case stComm:
			var p Point
			name, fn = "SetCommToZero", func() { p = dk.SetCommToZero(ss.z) }
			after = func() {
				r.Check(ptText(p) == ptText(ref.Base(ss.z)), "wrong-pubkey", "SetCommToZero returned another key's public key")
			}
		case stMsg:
			name, fn = "SetMsg", func() { dk.SetMsg(ss.msgBuf) }
			after = func() {
				if r.Bool(1, 2) {
					scribble(ss.msgBuf) // the caller reuses its buffer
				}
			}
		case stDecoys:
			name, fn = "AddDecoys", func() { dk.AddDecoys(libPool) }
			for _, m := range pool {
				ss.ring = append(ss.ring, append([]Point(nil), m...))
			}
		case stDecoy:
			k := len(ss.ring) % len(pool)
			name, fn = "AddDecoy", func() { dk.AddDecoy(libPool[k]) }
			ss.ring = append(ss.ring, append([]Point(nil), pool[k]...))
		case stSub:
			p := uPoint(r)
			name, fn = "SubCommToZero", func() { dk.SubCommToZero(p) }
			for i := range ss.ring {
				ss.ring[i][1] = ref.PSub(ss.ring[i][1], p)
			}
		case stProve:
			if ss.ragged {
				odd := []int{0, 1, 3, 4}[r.Intn(4)]
				var k []Point
				for i := 0; i < odd; i++ {
					k = append(k, uPoint(r))
				}
				dk.AddDecoy(libRing([][]Point{k})[0])
			}
			var sig *mlsag.Signature
			var img Point
			var err, eerr error
			var wire bytes.Buffer
			name, fn = "Prove", func() {
				sig, img, err = dk.Prove()
				if err == nil {
					eerr = sig.Encode(&wire, true)
				}
			}
			after = func() {
				ss.proved = true
				if ss.zero {
					r.Note("refused-zero-key")
					r.Check(err != nil, "zero-key-accepted", "Prove signs with a zero key")
					return
				}
				if ss.ragged {
					r.Note("refused-ragged")
					r.Check(err != nil, "ragged-accepted", "Prove accepts ring members with differing numbers of keys")
					return
				}
				r.Check(err == nil, "sign-failed", "signing with %d decoys failed: %s", len(ss.ring), errStr(err))
				r.Check(eerr == nil, "encode-failed", "encoding a signature failed: %s", errStr(eerr))
				m, used, perr := ref.ParseMLSAG(wire.Bytes(), true)
				r.Check(perr == nil && used == wire.Len(), "bad-encoding", "the encoding of a new signature cannot be read: %s (%d of %d)", errStr(perr), used, wire.Len())
				m.Msg = append([]byte(nil), ss.msg...)
				want := append(append([][]Point(nil), ss.ring...), []Point{ref.Base(ss.x), ref.Base(ss.z)})
				r.Check(multiset(want) == multiset(m.Keys), "wrong-ring", "the ring of the signature is not the %d decoys plus the signer", len(ss.ring))
				r.Check(bytes.Equal(sig.Msg, ss.msg), "wrong-message", "the signature carries message %s instead of %s", hx(sig.Msg), hx(ss.msg))
				f := &signed{sig: sig, imgs: []Point{img}, m: m, wire: wire.Bytes(), node: ss.node, inc: ss.node.Inc}
				f.content = sigContent(m, []Point{img})
				ss.done = f
				all = append(all, f)
				r.Note(fmt.Sprintf("signed"))
				r.Mix(wire.Bytes())
				for _, n := range nodes {
					net.Send(&Msg{From: ss.node.ID, To: n.ID, Obj: f})
				}
			}
		case stAbuseSub:
			p := uPoint(r)
			name, fn = "SubCommToZero(after)", func() {
				if !ss.ragged {
					dk.SubCommToZero(p)
				}
			}
		case stAbuseMsg:
			m := near(r, ss.msg)
			name, fn = "SetMsg(after)", func() { dk.SetMsg(m) }
		case stAbuseDecoy:
			k := libRing([][]Point{{uPoint(r), uPoint(r)}})[0]
			name, fn = "AddDecoy(after)", func() { dk.AddDecoy(k) }
		case stAbuseKey:
			x := uScalar(r)
			name, fn = "SetPrimaryKey(after)", func() { dk.SetPrimaryKey(x) }
		case stAbuseBuf:
			name, fn = "scribble", func() { scribble(ss.msgBuf) }
		case stAbuseProve:
			name, fn = "Prove(again)", func() { _, _, _ = dk.Prove() }
		}
		ss.busy = true
		t := s.Spawn(ss.node, name, nil, fn)
		s.PlanSites(t, sitesIn("mlsag/"))
		t.OnDone = func() {
			ss.busy = false
			if t.Killed {
				ss.dead = true
				return
			}
			taskPanic(r, t, name)
			r.Tracef("session %d on node %d: %s", ss.id, ss.node.ID, name)
			after()
		}
	}

	verify := func(n *Node, f *signed) {
		mode := r.Weighted(2, 2, 1, 5, 1)
		if mode == 0 && (f.sig == nil || f.node != n || f.inc != n.Inc) {
			mode = 1
		}
		want := f.m
		images := f.imgs
		what := "whole"
		var other *ref.MLSAG
		if len(all) > 1 {
			other = all[r.Intn(len(all))].m
		}
		if mode >= 3 {
			var w2 string
			want, images, what = tamperMLSAG(r, f.m, images, other)
			if mode == 4 && len(want.R) > 0 && len(want.R) == len(want.Keys) && len(images) > 0 && len(want.Keys[0]) > 0 {
				ok := true
				for i := range want.Keys {
					ok = ok && len(want.Keys[i]) == len(want.R[i])
				}
				if ok {
					want, images, w2 = tamperMLSAG(r, want, images, other)
					what += "+" + w2
				}
			}
		}
		if r.Bool(1, 12) { // re-arrangements that keep the chain of challenges closed
			mode, images = 3, f.imgs
			if c, im := shiftKey(r, f.m, f.imgs); c != nil && r.Bool(1, 3) {
				want, images, what = c, im, "unbound-keys"
			} else if r.Bool(1, 2) {
				want, what = repeatRing(f.m, 2+r.Intn(2)), "ring-repetition"
			} else {
				want, what = rotateRing(f.m, images, 1+r.Intn(len(f.m.R))), "ring-rotation"
			}
		}
		accept := sigContent(want, images) == f.content
		rd := newReader(r, f.wire)
		var ok bool
		var err, derr error
		t := s.Spawn(n, "Verify", nil, func() {
			sig := f.sig
			switch mode {
			case 1:
				sig = &mlsag.Signature{Msg: append([]byte(nil), f.m.Msg...)}
				derr = sig.Decode(rd, true)
			case 2:
				sig = &mlsag.Signature{}
				derr = sig.Decode(bytes.NewReader(f.m.Encode(false)), false)
				sig.PubKeys = libRing(f.m.Keys)
				sig.Msg = f.m.Msg
			case 3, 4:
				sig, derr = libMLSAG(want)
			}
			if derr == nil {
				ok, err = sig.Verify(images)
			}
		})
		s.PlanSites(t, sitesIn("mlsag/"))
		t.OnDone = func() {
			if t.Killed {
				return
			}
			taskPanic(r, t, "Verify ("+what+")")
			r.Tracef("node %d verifies (%s): %v", n.ID, what, ok)
			if accept {
				r.Check(derr == nil, "decode-failed", "decoding an honest signature failed: %s", errStr(derr))
				r.Check(ok && err == nil, "genuine-rejected", "a genuine signature (ring of %d, mode %d) is rejected: %s", len(f.m.R), mode, errStr(err))
				r.Note("accepted")
			} else if k := ""; ok {
				if k = knownRearrangement(f.m, want, f.imgs, images); k == "" {
					r.Fail("forgery-accepted", "a signature with altered %s (ring of %d) is accepted", what, len(f.m.R))
				}
				r.KnownFinding(k, "accepted")
			} else {
				r.Check(!ok, "forgery-accepted", "a signature with altered %s (ring of %d) is accepted", what, len(f.m.R))
				if derr == nil {
					r.Check(err != nil, "no-failure-reported", "verification of altered %s reports no failure", what)
				}
				r.Note("rejected-" + strings.Split(what, "+")[0])
			}
		}
	}

	// signatures of other software, with any number of keys and images per member
	for i, n := 0, r.Weighted(4, 2, 1); i < n; i++ {
		rnd := scalarStream(r.Seed())
		k := 1 + r.Weighted(2, 2, 3, 2, 1)
		nImg := 1 + r.Intn(k)
		members, pos := 1+r.Weighted(1, 2, 2, 1, 1), 0
		pos = r.Intn(members)
		var priv []Scalar
		ring := make([][]Point, members)
		for a := range ring {
			for b := 0; b < k; b++ {
				x := rnd()
				if a == pos {
					priv = append(priv, x)
				}
				ring[a] = append(ring[a], ref.Base(x))
			}
		}
		m, imgs := ref.SignMLSAG(message(r, 200), priv, ring, pos, nImg, nil, rnd)
		f := &signed{imgs: imgs, m: m, wire: m.Encode(true), node: nodes[0], inc: -1}
		f.content = sigContent(m, imgs)
		all = append(all, f)
		r.Note(fmt.Sprintf("foreign signature with %d keys", k))
		for _, n := range nodes {
			net.Send(&Msg{From: nodes[0].ID, To: n.ID, Obj: f})
		}
		extraForeign++
	}
	extra := 4 + r.Intn(6) + 2*extraForeign
	for step := 0; step < 40000; step++ {
		faults := step < 2500
		if !faults && !net.Heal {
			net.Recover()
		}
		var ready []*msession
		for _, ss := range sessions {
			if !ss.busy && !ss.dead && len(ss.steps) > 0 {
				ready = append(ready, ss)
			}
		}
		live := len(s.Live())
		if len(ready) > 0 && (live == 0 || r.Bool(1, 2)) {
			runStep(ready[r.Intn(len(ready))])
			continue
		}
		if net.Pending() > 0 && (live == 0 || r.Bool(1, 3)) {
			m := net.Deliver()
			verify(nodes[m.To], m.Obj.(*signed))
			continue
		}
		if extra > 0 && len(all) > 0 && (live == 0 || r.Bool(1, 4)) {
			extra--
			verify(nodes[r.Intn(len(nodes))], all[r.Intn(len(all))])
			continue
		}
		if faults && r.Bool(1, 150) {
			n := nodes[r.Intn(len(nodes))]
			r.Restart(n)
			for _, ss := range sessions {
				if ss.node == n && ss.dk != nil {
					ss.dead = true
				}
			}
			continue
		}
		if faults && r.Bool(1, 100) {
			net.Toggle(r.Intn(len(nodes)))
		}
		if !s.Step() && len(ready) == 0 && net.Pending() == 0 && (extra == 0 || len(all) == 0) {
			if net.Heal {
				break
			}
			net.Recover()
		}
	}
	if len(all) > 0 && r.Bool(1, 3) {
		lifeMLSAG(r, nodes[r.Intn(len(nodes))], all[r.Intn(len(all))], all[r.Intn(len(all))].m)
	}
	// whatever happened to the sessions, the signatures are what they were
	for _, f := range all {
		if f.sig == nil || f.inc != f.node.Inc {
			continue
		}
		f := f
		var ok bool
		var err, eerr error
		var b bytes.Buffer
		r.MustDo(f.node, nil, "Verify", func() {
			eerr = f.sig.Encode(&b, true)
			ok, err = f.sig.Verify(f.imgs)
		})
		r.Check(eerr == nil && bytes.Equal(b.Bytes(), f.wire), "signature-changed", "a signature changed after its session was used further")
		r.Check(ok && err == nil, "genuine-rejected", "a signature no longer verifies after its session was used further: %s", errStr(err))
	}
}

// repeatRing goes around the ring k times.
func repeatRing(m *ref.MLSAG, k int) *ref.MLSAG {
	c := cloneMLSAG(m)
	for i := 1; i < k; i++ {
		d := cloneMLSAG(m)
		c.R, c.Keys = append(c.R, d.R...), append(c.Keys, d.Keys...)
	}
	return c
}

// rotateRing starts the ring at another member, with that member's challenge.
func rotateRing(m *ref.MLSAG, images []Point, k int) *ref.MLSAG {
	c := cloneMLSAG(m)
	k %= len(c.R)
	ch := m.Challenges(images)
	c.R = append(append([][]Scalar(nil), c.R[k:]...), c.R[:k]...)
	c.Keys = append(append([][]Point(nil), c.Keys[k:]...), c.Keys[:k]...)
	c.C = ch[k]
	return c
}

// knownRearrangement recognises the listed findings: the challenges do not bind the ring, so
// that starting it elsewhere or going around it several times leaves the signature valid.
// shiftKey changes a key and its response such that the points that are hashed stay the
// same. A key without an image can be changed in any ring; with images, in a ring of one.
func shiftKey(r *Run, m *ref.MLSAG, images []Point) (*ref.MLSAG, []Point) {
	c, im := cloneMLSAG(m), append([]Point(nil), images...)
	ch := m.Challenges(images)
	i := r.Intn(len(c.R))
	lo := len(im)
	if len(c.R) == 1 {
		lo = 0
	}
	if lo >= len(c.R[i]) || ch[i].IsNonZeroI() == 0 {
		return nil, nil
	}
	k, d, ci := lo+r.Intn(len(c.R[i])-lo), uScalar(r), ref.Inv(ch[i])
	c.R[i][k] = ref.Add(c.R[i][k], d)
	c.Keys[i][k] = ref.PSub(c.Keys[i][k], ref.Base(ref.Mul(d, ci)))
	if k < len(im) {
		var h, g Point
		h.Derive(m.Keys[i][k].Bytes())
		g.Derive(c.Keys[i][k].Bytes())
		im[k] = ref.PAdd(im[k], ref.PMul(ref.PSub(ref.PMul(h, m.R[i][k]), ref.PMul(g, c.R[i][k])), ci))
	}
	return c, im
}

// unboundKeys tells if two signatures differ in keys, responses and images only, and every
// point that is hashed is the same.
func unboundKeys(m, w *ref.MLSAG, images, wImages []Point) bool {
	n := len(m.R)
	if n == 0 || len(w.R) != n || len(w.Keys) != n || len(images) != len(wImages) || m.C != w.C || !bytes.Equal(m.Msg, w.Msg) {
		return false
	}
	for i := range w.R {
		if len(w.R[i]) != len(m.R[i]) || len(w.Keys[i]) != len(m.R[i]) || len(images) > len(m.R[i]) {
			return false
		}
		for j := range w.Keys[i] {
			if ref.Degenerate(&w.Keys[i][j]) {
				return false
			}
		}
	}
	for j := range wImages {
		if ref.Degenerate(&wImages[j]) {
			return false
		}
	}
	ch := m.Challenges(images)
	for i := range w.R {
		for j := range w.R[i] {
			a := ref.PAdd(ref.Base(m.R[i][j]), ref.PMul(m.Keys[i][j], ch[i]))
			b := ref.PAdd(ref.Base(w.R[i][j]), ref.PMul(w.Keys[i][j], ch[i]))
			if ref.Degenerate(&a) || !a.Equals(&b) {
				return false
			}
			if j < len(images) {
				var h, g Point
				h.Derive(m.Keys[i][j].Bytes())
				g.Derive(w.Keys[i][j].Bytes())
				a := ref.PAdd(ref.PMul(h, m.R[i][j]), ref.PMul(images[j], ch[i]))
				b := ref.PAdd(ref.PMul(g, w.R[i][j]), ref.PMul(wImages[j], ch[i]))
				if ref.Degenerate(&a) || !a.Equals(&b) {
					return false
				}
			}
		}
	}
	return true
}

func knownRearrangement(m, want *ref.MLSAG, images, wantImages []Point) string {
	if unboundKeys(m, want, images, wantImages) {
		return "unbound-keys"
	}
	n := len(m.R)
	if n == 0 || len(want.R) == 0 || len(want.R)%n != 0 || len(want.R) != len(want.Keys) || memberText(images) != memberText(wantImages) {
		return ""
	}
	t := sigContent(want, wantImages)
	for k := 0; k < n; k++ {
		rot := rotateRing(m, images, k)
		if t == sigContent(repeatRing(rot, len(want.R)/n), images) {
			if k > 0 {
				return "ring-rotation"
			}
			return "ring-repetition"
		}
	}
	return ""
}

func scribble(b []byte) {
	b = b[:cap(b)]
	for i := range b {
		b[i] ^= 0x5a
	}
}

var _ = engine.NonSerial
