package props

import (
	"bytes"
	"fmt"
	"math/big"
	"strings"

	"github.com/dusk-network/bn256"
	"github.com/dusk-network/dusk-crypto/bls"
	"github.com/dusk-network/dusk-crypto/hash"
	"github.com/dusk-network/dusk-crypto/merkletree"
	"github.com/dusk-network/dusk-crypto/mlsag"
	"github.com/dusk-network/dusk-crypto/rangeproof"
	"github.com/dusk-network/dusk-crypto/rangeproof/fiatshamir"
	"github.com/dusk-network/dusk-crypto/rangeproof/innerproduct"
	"github.com/dusk-network/dusk-crypto/rangeproof/pedersen"
	"github.com/dusk-network/dusk-crypto/rangeproof/vector"
	"github.com/dusk-network/dusk-crypto/ringsig/blsag"

	"verif.local/sim/engine"
	"verif.local/sim/ref"
)

func init() {
	register(&Property{
		ID: "C16", Quick: 4800, Thorough: 200000,
		Rule:     "Seeded histories of several signing, committing, proving, tree and aggregation sessions fed from the same argument pools (slices cut out of common buffers, so that spare capacity is a neighbour), one call at a time or interleaved at statement granularity, with callers altering and reusing their buffers in between. After every call all arguments (to full capacity) and all results handed out so far are compared with their snapshots; every result is judged against what its own session was fed.",
		Scenario: c16,
	})
}

// watched is something that must keep its value.
type watched struct {
	name string
	dump func() string
	want string
	dead bool
}

type c16world struct {
	r       *Run
	n       *Node
	watches []*watched
	// argument pools; everything is cut out of one buffer per type
	bytesA  []byte
	scA     []Scalar
	ptA     []Point
	pkA     []mlsag.PubKeys
	payA    []merkletree.Payload
	blsPK   []*bls.PublicKey
	blsSK   []*bls.SecretKey
	blsSig  []*bls.Signature
	blsU    []*bls.UnsafeSignature
	apkA    []*bls.Apk
	g2A     []*bn256.G2
	msgsA   [][]byte
	duals   []*dualSession
	trees   []*mtree
	rp      []rangeproof.Proof
	sigs    []*mlsag.Signature
	sigImg  []Point
	pend    []func() // checks of the current group of calls
	heavy   int
	busyDua map[*dualSession]bool
	busyTre map[*mtree]bool
}

// dualSession is a signing session and what it was fed.
type dualSession struct {
	d      *mlsag.DualKey
	x, z   Scalar
	hx, hz bool
	msg    []byte
	ring   [][]Point
	done   bool
}

func dumpPoints(l []Point) string {
	var b strings.Builder
	for i := range l {
		fmt.Fprintf(&b, "%s,", ptText(l[i]))
	}
	return b.String()
}

func dumpScalars(l []Scalar) string {
	var b strings.Builder
	for i := range l {
		fmt.Fprintf(&b, "%x,", l[i].Bytes())
	}
	return b.String()
}

func dumpKeys(l []mlsag.PubKeys) string {
	var b bytes.Buffer
	for i := range l {
		fmt.Fprintf(&b, "%d:", l[i].Len())
		_ = l[i].Encode(&b)
	}
	return b.String()
}

func (w *c16world) watch(name string, dump func() string) *watched {
	x := &watched{name: name, dump: dump}
	w.r.MustDo(w.n, nil, "reading "+name, func() { x.want = dump() })
	w.watches = append(w.watches, x)
	return x
}

// settle compares everything with its snapshot.
func (w *c16world) settle(after string) {
	var bad *watched
	var got string
	w.r.MustDo(w.n, nil, "reading", func() {
		for _, x := range w.watches {
			if x.dead {
				continue
			}
			if g := x.dump(); g != x.want && bad == nil {
				bad, got = x, g
			}
		}
	})
	w.r.Checks += len(w.watches)
	if bad != nil {
		w.r.Fail("modified", "%s changed %s: %s instead of %s", after, bad.name, diffText(got, bad.want), diffText(bad.want, got))
	}
}

// again takes the present value as the new one (the caller itself changed it).
func (w *c16world) again(x *watched) {
	w.r.MustDo(w.n, nil, "reading", func() { x.want = x.dump() })
}

func newC16(r *Run) *c16world {
	w := &c16world{r: r, n: r.NewNode()}
	w.bytesA = r.Bytes(600)
	w.ptA = manyPoints(r, 80)
	w.scA = manyScalars(r, 80)
	rnd := manyPoints(r, 40)
	for i := 0; i < 20; i++ {
		w.pkA = append(w.pkA, libKeys(rnd[2*i:2*i+2]))
	}
	hb := r.Bytes(32*14 + 100)
	for i := 0; i < 14; i++ {
		w.payA = append(w.payA, &mpay{h: hb[32*i : 32*i+32]})
	}
	w.watch("the bytes arguments are cut from", func() string { return fmt.Sprintf("%x", w.bytesA) })
	w.watch("the scalars arguments are cut from", func() string { return dumpScalars(w.scA) })
	w.watch("the points arguments are cut from", func() string { return dumpPoints(w.ptA) })
	w.watch("the decoy vectors", func() string { return dumpKeys(w.pkA) })
	w.watch("the payload hashes", func() string { return fmt.Sprintf("%x", hb) })
	w.watch("the payload list", func() string { return fmt.Sprint(w.payA) })
	return w
}

// c16bls is the length of the lists, over c16keys keys.
const (
	c16bls  = 24
	c16keys = 8
)

// blsReady makes the BLS keys and signatures when the first call needs them.
func (w *c16world) blsReady() {
	if w.blsPK != nil {
		return
	}
	w.r.MustDo(w.n, nil, "GenKeyPair", func() {
		for i := 0; i < c16bls; i++ {
			w.msgsA = append(w.msgsA, w.bytesA[20*i:20*i+5+i%10])
			if j := i - c16keys; j >= 0 {
				w.blsPK, w.blsSK = append(w.blsPK, w.blsPK[j]), append(w.blsSK, w.blsSK[j])
				w.apkA, w.g2A = append(w.apkA, w.apkA[j]), append(w.g2A, w.g2A[j])
				w.blsSig, w.blsU = append(w.blsSig, w.blsSig[j]), append(w.blsU, w.blsU[j])
				continue
			}
			pk, sk, err := bls.GenKeyPair(engine.NewStream(uint64(i)+5, "key"))
			if err != nil {
				panic(err)
			}
			w.blsPK, w.blsSK = append(w.blsPK, pk), append(w.blsSK, sk)
			w.apkA = append(w.apkA, bls.NewApk(pk))
			g := new(bn256.G2)
			if _, err := g.Unmarshal(pk.Marshal()); err != nil {
				panic(err)
			}
			w.g2A = append(w.g2A, g)
			s, _ := bls.Sign(sk, pk, []byte("m"))
			u, _ := bls.UnsafeSign(sk, []byte{byte(i)})
			w.blsSig, w.blsU = append(w.blsSig, s), append(w.blsU, u)
		}
	})
	pks, sigs, us, apks, gs := w.blsPK, w.blsSig, w.blsU, w.apkA, w.g2A
	w.watch("the BLS keys and signatures", func() string {
		s := ""
		for i := range pks {
			if j := i - c16keys; j >= 0 {
				s += fmt.Sprint(pks[i] == pks[j], sigs[i] == sigs[j], us[i] == us[j], apks[i] == apks[j], gs[i] == gs[j], " ")
				continue
			}
			s += fmt.Sprintf("%x %x %x %x %x ", pks[i].Marshal(), sigs[i].Marshal(), us[i].Marshal(), apks[i].Marshal(), gs[i].Marshal())
		}
		return s
	})
	ms := w.msgsA
	heads := make([]*byte, len(ms))
	for i := range ms {
		heads[i] = &ms[i][0]
	}
	w.watch("the list of messages", func() string {
		s := ""
		for i := range ms {
			s += fmt.Sprint(len(ms[i]), cap(ms[i]), len(ms[i]) > 0 && &ms[i][0] == heads[i], " ")
		}
		return s
	})
}

// cuts of the pools
func (w *c16world) msg() []byte {
	n := msgLen(w.r, 150)
	i := w.r.Intn(len(w.bytesA) - n)
	return w.bytesA[i : i+n]
}

func (w *c16world) scs(n int) []Scalar {
	i := w.r.Intn(len(w.scA) - n)
	return w.scA[i : i+n]
}

func (w *c16world) pts(n int) []Point {
	i := w.r.Intn(len(w.ptA) - n)
	return w.ptA[i : i+n]
}

func (w *c16world) result(name string, dump func() string) { w.watch("a result: "+name, dump) }

// call is a call to make and the judgement of its result.
type c16call struct {
	name string
	do   func()
	then func()
}

func c16(r *Run, idx int) {
	w := newC16(r)
	for i, k := 0, 5+r.Intn(9); i < k; i++ {
		w.busyDua, w.busyTre = map[*dualSession]bool{}, map[*mtree]bool{}
		var cs []*c16call
		m := 1
		if engine.NonSerial() == "" && r.Bool(1, 3) {
			m = 2 + r.Intn(2)
		}
		for j := 0; j < m; j++ {
			if c := w.draw(); c != nil {
				cs = append(cs, c)
			}
		}
		names := ""
		for _, c := range cs {
			r.Note(c.name)
			names += c.name + "+"
		}
		names = strings.TrimSuffix(names, "+")
		if len(cs) == 1 {
			r.MustDo(w.n, nil, cs[0].name, cs[0].do)
		} else if len(cs) > 1 {
			s := r.NewSched()
			var ts []*engine.Task
			for _, c := range cs {
				t := s.Spawn(w.n, c.name, nil, c.do)
				s.PlanSites(t, libSites())
				ts = append(ts, t)
			}
			s.Run()
			for j, t := range ts {
				taskPanic(r, t, cs[j].name)
			}
			s.Close()
			r.Note("interleaved")
		}
		w.settle(names)
		for _, c := range cs {
			if c.then != nil {
				c.then()
			}
		}
		if r.Bool(1, 4) {
			w.reuse()
		}
	}
	// sessions that are still open finish
	for _, d := range w.duals {
		if !d.done {
			c := w.prove(d)
			r.MustDo(w.n, nil, c.name, c.do)
			w.settle(c.name)
			c.then()
		}
	}
}

func libSites() []uint32 {
	var l []uint32
	for _, p := range []string{"mlsag/", "rangeproof/", "ringsig/", "merkletree/", "bls/", "hash/"} {
		l = append(l, sitesIn(p)...)
	}
	return l
}

// reuse lets the callers alter their own buffers: nothing handed out may change, and no
// session that already took its arguments may notice.
func (w *c16world) reuse() {
	r := w.r
	r.Fault("caller-reuses-buffer")
	switch r.Intn(4) {
	case 0:
		i, n := r.Intn(300), 1+r.Intn(300)
		for j := i; j < i+n; j++ {
			w.bytesA[j] ^= byte(r.Intn(2) + 1)
		}
		w.again(w.watches[0])
	case 1:
		for j, n := r.Intn(60), 1+r.Intn(20); n > 0; n-- {
			w.scA[j+n-1] = ref.Add(w.scA[j+n-1], ref.S(1))
		}
		w.again(w.watches[1])
	case 2:
		for j, n := r.Intn(60), 1+r.Intn(20); n > 0; n-- {
			w.ptA[j+n-1] = ref.PAdd(w.ptA[j+n-1], ref.BlindBase())
		}
		w.again(w.watches[2])
	case 3:
		// the elements of the decoy list are replaced
		for j, n := r.Intn(15), 1+r.Intn(5); n > 0; n-- {
			w.pkA[j+n-1] = libKeys([]Point{poolPoint(r), poolPoint(r)})
		}
		w.again(w.watches[3])
	}
	w.settle("reusing a buffer of the caller")
}

func (w *c16world) draw() *c16call {
	r := w.r
	switch r.Weighted(8, 3, 3, 2, 2, 4, 4, 2, 3, 2, 1) {
	case 0:
		return w.dualCall()
	case 1:
		return w.pedersenCall()
	case 2:
		return w.ipCall()
	case 3:
		return w.blsagCall()
	case 4:
		return w.vectorCall()
	case 5:
		return w.treeCall()
	case 6:
		return w.blsCall()
	case 7:
		return w.hashCall()
	case 8:
		return w.codecCall()
	case 9:
		return w.sigCall()
	}
	return w.proofCall()
}

// ---- signing sessions -------------------------------------------------------

func pubPoints(k *mlsag.PubKeys) []Point {
	var b bytes.Buffer
	_ = k.Encode(&b)
	wr := &ref.Wire{B: b.Bytes()}
	var l []Point
	for wr.Pos < len(wr.B) && wr.Err == nil {
		l = append(l, wr.Point())
	}
	return l
}

func (w *c16world) dualCall() *c16call {
	r := w.r
	var d *dualSession
	if len(w.duals) > 0 && r.Bool(3, 4) {
		d = w.duals[r.Intn(len(w.duals))]
	}
	if d == nil || w.busyDua[d] {
		if len(w.duals) > 4 {
			return nil
		}
		d = &dualSession{d: mlsag.NewDualKey()}
		w.duals = append(w.duals, d)
	}
	w.busyDua[d] = true
	switch r.Weighted(2, 2, 3, 4, 3, 3) {
	case 0:
		k := w.scA[r.Intn(len(w.scA))]
		if k.IsNonZeroI() == 0 {
			k = ref.S(7)
		}
		if !d.done {
			d.x, d.hx = k, true
		}
		var p Point
		return &c16call{"SetPrimaryKey", func() { p = d.d.SetPrimaryKey(k) }, func() {
			want := ref.Base(k)
			r.Check(p.Equals(&want), "wrong-result", "SetPrimaryKey returned another public key")
		}}
	case 1:
		k := w.scA[r.Intn(len(w.scA))]
		if k.IsNonZeroI() == 0 {
			k = ref.S(9)
		}
		if !d.done {
			d.z, d.hz = k, true
		}
		var p Point
		return &c16call{"SetCommToZero", func() { p = d.d.SetCommToZero(k) }, func() {
			want := ref.Base(k)
			r.Check(p.Equals(&want), "wrong-result", "SetCommToZero returned another public key")
		}}
	case 2:
		m := w.msg()
		if !d.done {
			d.msg = append([]byte(nil), m...)
		}
		return &c16call{"SetMsg", func() { d.d.SetMsg(m) }, nil}
	case 3:
		if len(d.ring) > 14 {
			return nil
		}
		i := r.Intn(len(w.pkA) - 1)
		n := 1 + r.Intn(min(5, len(w.pkA)-i))
		l := w.pkA[i : i+n]
		if !d.done {
			for j := range l {
				d.ring = append(d.ring, pubPoints(&l[j]))
			}
		}
		if n == 1 {
			return &c16call{"AddDecoy", func() { d.d.AddDecoy(l[0]) }, nil}
		}
		return &c16call{"AddDecoys", func() { d.d.AddDecoys(l) }, nil}
	case 4:
		p := w.ptA[r.Intn(len(w.ptA))]
		if !d.done {
			for i := range d.ring {
				d.ring[i] = []Point{d.ring[i][0], ref.PSub(d.ring[i][1], p)}
			}
		}
		return &c16call{"SubCommToZero", func() { d.d.SubCommToZero(p) }, nil}
	}
	if d.done {
		return nil
	}
	return w.prove(d)
}

func (w *c16world) prove(d *dualSession) *c16call {
	r := w.r
	d.done = true
	if !d.hx {
		d.x = ref.S(11)
		d.d.SetPrimaryKey(d.x)
	}
	if !d.hz {
		d.z = ref.S(13)
		d.d.SetCommToZero(d.z)
	}
	var sig *mlsag.Signature
	var img Point
	var err error
	return &c16call{"DualKey.Prove", func() { sig, img, err = d.d.Prove() }, func() {
		r.Check(err == nil, "sign-failed", "signing over %d decoys failed: %s", len(d.ring), errStr(err))
		var b bytes.Buffer
		r.MustDo(w.n, nil, "Encode", func() { err = sig.Encode(&b, true) })
		m, _, perr := ref.ParseMLSAG(b.Bytes(), true)
		r.Check(err == nil && perr == nil, "sign-failed", "the signature cannot be encoded")
		m.Msg = sig.Msg
		r.Check(bytes.Equal(sig.Msg, d.msg), "session-influenced", "a signature carries message %s although its session was given %s", hx(sig.Msg), hx(d.msg))
		want := map[string]int{}
		for _, k := range append(d.ring, []Point{ref.Base(d.x), ref.Base(d.z)}) {
			want[memberText(k)]++
		}
		for _, k := range m.Keys {
			want[memberText(k)]--
		}
		for _, v := range want {
			r.Check(v == 0, "session-influenced", "the ring of a signature (%d members) is not what its session was given", len(m.Keys))
		}
		wi := ref.Image(d.x)
		r.Check(img.Equals(&wi), "session-influenced", "the key image is not that of the session's key")
		r.Check(m.Verify([]Point{img}), "session-influenced", "the signature of a session over %d decoys is not valid", len(d.ring))
		w.result("a ring signature", func() string {
			var b bytes.Buffer
			_ = sig.Encode(&b, true)
			return fmt.Sprintf("%x %x %s", b.Bytes(), sig.Msg, ptText(img))
		})
		w.sigs, w.sigImg = append(w.sigs, sig), append(w.sigImg, img)
	}}
}

// sigCall verifies, compares and takes keys from signatures handed out.
func (w *c16world) sigCall() *c16call {
	r := w.r
	if len(w.sigs) == 0 {
		return nil
	}
	i, j := r.Intn(len(w.sigs)), r.Intn(len(w.sigs))
	s, o := w.sigs[i], w.sigs[j]
	switch r.Intn(3) {
	case 0:
		pts := append([]Point{w.sigImg[i]}, w.ptA[:4]...)
		im := pts[:1]
		var ok bool
		return &c16call{"Signature.Verify", func() { ok, _ = s.Verify(im) }, func() {
			r.Check(ok, "session-influenced", "a signature handed out earlier no longer verifies")
			r.Check(dumpPoints(pts[1:]) == dumpPoints(w.ptA[:4]), "modified", "Signature.Verify wrote behind the key images")
		}}
	case 1:
		var e bool
		return &c16call{"Signature.Equals", func() { e = s.Equals(*o, true) }, func() {
			r.Check(e == (i == j) || s == o, "wrong-result", "two different signatures are equal")
		}}
	}
	// the ring of a signature becomes the decoys of a new session
	d := &dualSession{d: mlsag.NewDualKey()}
	if len(w.duals) > 6 || len(s.PubKeys) > 12 {
		return nil
	}
	for k := range s.PubKeys {
		d.ring = append(d.ring, pubPoints(&s.PubKeys[k]))
	}
	w.duals = append(w.duals, d)
	w.busyDua[d] = true
	r.Note("ring-of-a-signature-as-decoys")
	return &c16call{"AddDecoys", func() { d.d.AddDecoys(s.PubKeys) }, nil}
}

// ---- commitments and proofs ---------------------------------------------------

func (w *c16world) pedersenCall() *c16call {
	r := w.r
	n := 1 + r.Intn(12)
	i := r.Intn(len(w.bytesA) - n)
	label := w.bytesA[i : i+n : i+n+r.Intn(3)*20%(len(w.bytesA)-i-n+1)]
	lab := string(label)
	switch r.Intn(2) {
	case 0:
		v := w.scA[r.Intn(len(w.scA))]
		var c pedersen.Commitment
		return &c16call{"CommitToScalar", func() { c = pedersen.New(label).CommitToScalar(v) }, func() {
			want := ref.PAdd(ref.PMul(ref.ValueBase(), v), ref.PMul(ref.BlindBase(), c.BlindingFactor))
			r.Check(c.Value.Equals(&want), "wrong-result", "a commitment does not open")
		}}
	}
	var vs [][]Scalar
	for j, k := 0, 1+r.Intn(4); j < k; j++ {
		vs = append(vs, w.scs(r.Intn(5)))
	}
	all := append(vs, [][]Scalar{{ref.S(1)}, {ref.S(2)}}...)
	var c pedersen.Commitment
	return &c16call{"CommitToVectors", func() { c = pedersen.New(label).CommitToVectors(all[:len(vs)]...) }, func() {
		want := ref.PMul(ref.BlindBase(), c.BlindingFactor)
		for j, v := range vs {
			l := lab
			if j > 0 {
				l += string([]byte{byte(j)})
			}
			want = ref.PAdd(want, ref.MultiExp(v, ref.Gens(l, len(v))))
		}
		r.Check(c.Value.Equals(&want), "wrong-result", "a commitment to %d vectors does not open", len(vs))
		r.Check(len(all[len(vs)]) == 1 && all[len(vs)][0].Equals(ptr(ref.S(1))), "modified", "CommitToVectors wrote behind its vectors")
	}}
}

func ptr(s Scalar) *Scalar { return &s }

func (w *c16world) ipCall() *c16call {
	r := w.r
	n := 1 << uint(1+r.Intn(3))
	G, H := w.pts(n), w.pts(n)
	a, b, f := w.scs(n), w.scs(n), w.scs(n)
	zero := false
	for i := 0; i < n; i++ {
		zero = zero || f[i].IsNonZeroI() == 0
	}
	if r.Bool(1, 6) {
		// vectors with zeros, out of the caller's own memory
		a, b, f = append([]Scalar(nil), a...), append([]Scalar(nil), b...), append([]Scalar(nil), f...)
		for k := 0; k < 3; k++ {
			v := [][]Scalar{a, b, f}[r.Intn(3)]
			v[r.Intn(n)] = []Scalar{ref.S(0), ref.S(1)}[r.Intn(2)]
		}
		for i := 0; i < n; i++ {
			zero = zero || f[i].IsNonZeroI() == 0
		}
		aa, bb, ff := a, b, f
		w.watch("the vectors of an inner product", func() string { return dumpScalars(aa) + dumpScalars(bb) + dumpScalars(ff) })
	}
	Q := w.ptA[r.Intn(len(w.ptA))]
	var p *innerproduct.Proof
	var err error
	return &c16call{"innerproduct.Generate", func() { p, err = innerproduct.Generate(G, H, a, b, f, Q) }, func() {
		if zero {
			return // only the arguments matter
		}
		r.Check(err == nil, "prove-failed", "innerproduct.Generate failed: %s", errStr(err))
		w.result("an inner-product proof", func() string {
			var b bytes.Buffer
			_ = p.Encode(&b)
			return fmt.Sprintf("%x", b.Bytes())
		})
		pt := ref.Zero()
		for i := 0; i < n; i++ {
			pt = ref.PAdd(pt, ref.PAdd(ref.PMul(G[i], a[i]), ref.PMul(H[i], ref.Mul(b[i], f[i]))))
			pt = ref.PAdd(pt, ref.PMul(Q, ref.Mul(a[i], b[i])))
		}
		L, R := p.L, p.R
		var ok bool
		r.MustDo(w.n, nil, "innerproduct.Verify", func() { ok = p.Verify(G, H, L, R, f, Q, pt, n) })
		r.Check(ok, "wrong-result", "an inner-product proof of size %d over reused arguments does not verify", n)
		w.settle("innerproduct.Verify")
	}}
}

func (w *c16world) blsagCall() *c16call {
	r := w.r
	m := w.msg()
	mm := append([]byte(nil), m...)
	mix := w.pts(r.Intn(6))
	in := append([]Point(nil), mix...)
	x := w.scA[r.Intn(len(w.scA))]
	if x.IsNonZeroI() == 0 {
		x = ref.S(3)
	}
	var s blsag.RingSignature
	return &c16call{"blsag.Sign", func() { s = blsag.Sign(m, mix, x) }, func() {
		rs := &ref.Ring{I: s.I, C: s.C, S: append([]Scalar(nil), s.S...), Keys: append([]Point(nil), s.PubKeys...)}
		r.Check(rs.Verify(mm), "session-influenced", "a ring signature over %d decoys is not valid", len(in))
		want := map[string]int{ptText(ref.Base(x)): 1}
		for _, p := range in {
			want[ptText(p)]++
		}
		for _, p := range s.PubKeys {
			want[ptText(p)]--
		}
		for _, v := range want {
			r.Check(v == 0, "session-influenced", "the ring of a signature is not the given one")
		}
		w.result("a bLSAG signature", func() string {
			return dumpPoints(s.PubKeys) + dumpScalars(s.S) + ptText(s.I) + dumpScalars([]Scalar{s.C})
		})
		var ok bool
		r.MustDo(w.n, nil, "blsag.Verify", func() { ok = blsag.Verify(m, s) })
		r.Check(ok, "session-influenced", "a ring signature does not verify")
		w.settle("blsag.Verify")
	}}
}

func (w *c16world) vectorCall() *c16call {
	r := w.r
	n := 1 + r.Intn(8)
	a, b, s := w.scs(n), w.scs(n), w.scA[r.Intn(len(w.scA))]
	p := w.pts(n)
	k := uint32(r.Intn(n + 1))
	switch r.Intn(11) {
	case 0:
		return &c16call{"vector.Add", func() { _, _ = vector.Add(a, b) }, nil}
	case 1:
		return &c16call{"vector.Sub", func() { _, _ = vector.Sub(a, b) }, nil}
	case 2:
		return &c16call{"vector.AddScalar", func() { _ = vector.AddScalar(a, s) }, nil}
	case 3:
		return &c16call{"vector.SubScalar", func() { _ = vector.SubScalar(a, s) }, nil}
	case 4:
		return &c16call{"vector.MulScalar", func() { _ = vector.MulScalar(a, s) }, nil}
	case 5:
		return &c16call{"vector.Neg", func() { _ = vector.Neg(a) }, nil}
	case 6:
		return &c16call{"vector.Hadamard", func() { _, _ = vector.Hadamard(a, b) }, nil}
	case 7:
		return &c16call{"vector.InnerProduct", func() { _, _ = vector.InnerProduct(a, b) }, nil}
	case 8:
		return &c16call{"vector.Exp", func() { _, _ = vector.Exp(a, p, n, 1) }, nil}
	case 9:
		return &c16call{"vector.Split", func() { _, _, _ = vector.SplitPoints(p, k); _, _, _ = vector.SplitScalars(a, k) }, nil}
	}
	m1, m2 := w.msg(), w.msg()
	cat := append(append([]byte(nil), m1...), m2...)
	var x, y Scalar
	return &c16call{"fiatshamir", func() {
		h, g := fiatshamir.HashCacher{Cache: []byte{}}, fiatshamir.HashCacher{}
		h.Append(m1, m2)
		x = h.Derive()
		g.Append(m1)
		g.Append(m2)
		h.Clear()
		h.Append([]byte("other"))
		y = g.Derive()
	}, func() {
		want := ref.HashS(cat)
		r.Check(x.Equals(&want) && y.Equals(&want), "session-influenced", "a transcript gives another challenge")
	}}
}

// proofCall makes, verifies and encodes range proofs.
func (w *c16world) proofCall() *c16call {
	r := w.r
	if len(w.rp) == 0 || r.Bool(1, 3) {
		if w.heavy > 0 {
			return nil
		}
		w.heavy++
		if r.Bool(2, 3) { // decoded instead of made
			b := append([]byte(nil), fixedProofs()[r.Intn(3)]...)
			var p rangeproof.Proof
			var err error
			return &c16call{"rangeproof.Decode", func() { err = p.Decode(bytes.NewReader(b), true) }, func() {
				r.Check(err == nil, "decode-failed", "decoding a proof failed: %s", errStr(err))
				w.rp = append(w.rp, p)
				w.result("a range proof", func() string { return dumpRP(&p) })
				for i := range b { // the receive buffer is used again
					b[i] = 0xee
				}
				w.settle("reusing a receive buffer")
			}}
		}
		vals := make([]Scalar, 3)
		for i := range vals {
			vals[i] = u64Scalar(amount(r))
		}
		m := 1 + r.Intn(2)
		in := vals[:m]
		before := dumpScalars(vals)
		var p rangeproof.Proof
		var err error
		return &c16call{"rangeproof.Prove", func() { p, err = rangeproof.Prove(in, r.Tier == "x") }, func() {
			r.Check(err == nil, "prove-failed", "proving %d values failed: %s", m, errStr(err))
			r.Check(dumpScalars(vals) == before, "modified", "rangeproof.Prove changed the values it was given")
			r.Check(len(p.V) == m, "wrong-result", "a proof of %d values has %d commitments", m, len(p.V))
			for i := range in {
				want := ref.PAdd(ref.PMul(ref.ValueBase(), in[i]), ref.PMul(ref.BlindBase(), p.V[i].BlindingFactor))
				r.Check(p.V[i].Value.Equals(&want), "session-influenced", "commitment %d of a proof does not open to its value", i)
			}
			w.rp = append(w.rp, p)
			w.result("a range proof", func() string { return dumpRP(&p) })
		}}
	}
	p := w.rp[r.Intn(len(w.rp))]
	var ok bool
	var err error
	return &c16call{"rangeproof.Verify", func() { ok, err = rangeproof.Verify(p) }, func() {
		r.Check(ok && err == nil, "session-influenced", "a proof handed out earlier no longer verifies: %s", errStr(err))
	}}
}

func dumpRP(p *rangeproof.Proof) string {
	var b bytes.Buffer
	_ = p.Encode(&b, true)
	s := fmt.Sprintf("%x", b.Bytes())
	for i := range p.V {
		s += fmt.Sprintf(" %x", p.V[i].BlindingFactor.Bytes())
	}
	return s
}

// ---- trees, BLS, hashes, codecs -------------------------------------------------

func (w *c16world) treeCall() *c16call {
	r := w.r
	i := r.Intn(len(w.payA) - 1)
	n := 1 + r.Intn(len(w.payA)-i-1)
	pl := w.payA[i : i+n]
	var hs [][]byte
	for _, p := range pl {
		hs = append(hs, append([]byte(nil), p.(*mpay).h...))
	}
	var m *mtree
	if len(w.trees) > 0 && r.Bool(2, 3) {
		m = w.trees[r.Intn(len(w.trees))]
		if w.busyTre[m] {
			return nil
		}
		w.busyTre[m] = true
	}
	handOut := func(t *merkletree.Tree) {
		root := t.MerkleRoot
		w.result("a Merkle root", func() string { return fmt.Sprintf("%x", root) })
		leaves, top := t.Leaves, t.Root
		w.result("the leaves and the root of a tree", func() string {
			out := ""
			for _, l := range leaves {
				out += fmt.Sprintf("%x %v ", l.Hash, l.IsDup)
				for p := l.Parent; p != nil; p = p.Parent {
					out += fmt.Sprintf("%x ", p.Hash)
				}
			}
			return out + fmt.Sprintf("%x", top.Hash)
		})
	}
	if m == nil {
		var t *merkletree.Tree
		var err error
		return &c16call{"NewTree", func() { t, err = merkletree.NewTree(pl) }, func() {
			r.Check(err == nil && bytes.Equal(t.MerkleRoot, refRoot(hs)), "session-influenced", "a tree of %d payloads has another root (%s)", n, errStr(err))
			handOut(t)
			w.trees = append(w.trees, &mtree{n: w.n, t: t, hs: hs})
		}}
	}
	var err error
	switch r.Intn(4) {
	case 0:
		return &c16call{"RebuildTreeUsing", func() { err = m.t.RebuildTreeUsing(pl) }, func() {
			m.hs = hs
			r.Check(err == nil && bytes.Equal(m.t.MerkleRoot, refRoot(m.hs)), "session-influenced", "a rebuilt tree has another root (%s)", errStr(err))
			handOut(m.t)
		}}
	case 1:
		return &c16call{"RebuildTree", func() { err = m.t.RebuildTree() }, func() {
			r.Check(err == nil && bytes.Equal(m.t.MerkleRoot, refRoot(m.hs)), "session-influenced", "a rebuilt tree has another root (%s)", errStr(err))
			handOut(m.t)
		}}
	case 2:
		var ok bool
		return &c16call{"VerifyTree", func() { ok, err = merkletree.VerifyTree(m.t) }, func() {
			r.Check(ok && err == nil && bytes.Equal(m.t.MerkleRoot, refRoot(m.hs)), "session-influenced", "a tree no longer verifies (%s)", errStr(err))
		}}
	}
	var ok bool
	q := pl[0]
	return &c16call{"VerifyContent", func() { ok, err = m.t.VerifyContent(q) }, func() {
		r.Check(err == nil && ok == contains(m.hs, hs[0]), "session-influenced", "a tree answers membership wrongly (%s)", errStr(err))
	}}
}

func (w *c16world) blsCall() *c16call {
	r := w.r
	w.blsReady()
	i, j := r.Intn(c16bls), r.Intn(c16bls)
	// some neighbours out of a list
	cut := func() (lo, hi int) {
		n := 1 + r.Weighted(2, 3, 3, 2, 2, 1, 1, 1)
		if r.Bool(1, 6) {
			n = 9 + r.Intn(c16bls-8)
		}
		lo = r.Intn(c16bls - n + 1)
		return lo, lo + n
	}
	keepSig := func(name string, f func() []byte) {
		w.result(name, func() string { return fmt.Sprintf("%x", f()) })
	}
	switch r.Intn(12) {
	case 0:
		m := w.msg()
		var s *bls.Signature
		var err error
		return &c16call{"bls.Sign", func() { s, err = bls.Sign(w.blsSK[i], w.blsPK[i], m) }, func() {
			r.Check(err == nil, "sign-failed", "bls.Sign failed")
			keepSig("a BLS signature", func() []byte { return s.Marshal() })
		}}
	case 1:
		lo, hi := cut()
		l := w.blsPK[lo:hi]
		var a *bls.Apk
		var err error
		return &c16call{"AggregateApk", func() { a, err = bls.AggregateApk(l) }, func() {
			r.Check(err == nil, "aggregate-failed", "AggregateApk failed")
			keepSig("an aggregated key", func() []byte { return a.Marshal() })
			// its session goes on with a copy
			var c *bls.Apk
			r.MustDo(w.n, nil, "Apk.Copy", func() { c = a.Copy(); err = c.Aggregate(w.blsPK[j]) })
			w.settle("aggregating into a copy")
		}}
	case 2: // a receiver takes others in; the others stay
		var c *bls.Signature
		return &c16call{"Signature.Aggregate", func() {
			c = w.blsSig[i].Copy()
			c.Aggregate(w.blsSig[j])
			_ = c.Add(w.blsPK[j], w.blsU[i])
		}, func() {
			keepSig("an aggregated signature", func() []byte { return c.Marshal() })
		}}
	case 3:
		lo, hi := cut()
		var u *bls.UnsafeSignature
		var err error
		return &c16call{"UnsafeBatch", func() { u, err = bls.UnsafeBatch(w.blsU[lo:hi]...) }, func() {
			r.Check(err == nil, "aggregate-failed", "UnsafeBatch failed")
			// the result becomes the receiver of something else
			b := w.blsU[j].Marshal()
			r.MustDo(w.n, nil, "UnsafeSignature.Unmarshal", func() { err = u.Unmarshal(b) })
			r.Check(err == nil, "decode-failed", "Unmarshal failed")
			w.settle("UnsafeSignature.Unmarshal into the result of UnsafeBatch")
			_ = u
		}}
	case 4: // decoding from a buffer that is used again
		buf := append(w.blsPK[i].Marshal(), make([]byte, 30)...)
		b := buf[:len(buf)-30]
		var pk *bls.PublicKey
		var err error
		return &c16call{"UnmarshalPk", func() { pk, err = bls.UnmarshalPk(b) }, func() {
			r.Check(err == nil, "decode-failed", "UnmarshalPk failed")
			r.Check(bytes.Equal(b, w.blsPK[i].Marshal()) && bytes.Equal(buf[len(b):], make([]byte, 30)), "modified", "UnmarshalPk changed its buffer")
			keepSig("a decoded key", func() []byte { return pk.Marshal() })
			for x := range buf {
				buf[x] = 0x55
			}
			w.settle("reusing a receive buffer")
		}}
	case 5:
		buf := append(w.blsSig[i].Compress(), make([]byte, 40)...)
		orig := append([]byte(nil), buf...)
		b := buf[:len(buf)-40]
		var s *bls.Signature
		var err error
		return &c16call{"UnmarshalSignature", func() { s, err = bls.UnmarshalSignature(b) }, func() {
			r.Check(err == nil, "decode-failed", "UnmarshalSignature failed")
			r.Check(bytes.Equal(buf, orig), "modified", "UnmarshalSignature changed its buffer")
			keepSig("a decoded signature", func() []byte { return s.Marshal() })
			for x := range buf {
				buf[x] = 0x55
			}
			w.settle("reusing a receive buffer")
		}}
	case 6: // bytes handed out belong to the caller
		var b, c, t []byte
		return &c16call{"Marshal", func() {
			b, c = w.blsPK[i].Marshal(), w.blsSig[j].Compress()
			t, _ = w.blsPK[j].MarshalText()
		}, func() {
			for _, s := range [][]byte{b, c, t} {
				for x := range s {
					s[x] ^= 0xff
				}
			}
			w.settle("the caller altering encodings it was given")
		}}
	case 7:
		lo, hi := cut()
		k := r.Intn(c16bls - (hi - lo) + 1)
		return &c16call{"VerifyBatch", func() { _ = bls.VerifyBatch(w.apkA[lo:hi], w.msgsA[k:k+hi-lo], w.blsSig[i]) }, nil}
	case 8:
		lo, hi := cut()
		k := r.Intn(c16bls - (hi - lo) + 1)
		return &c16call{"VerifyUnsafeBatch", func() { _ = bls.VerifyUnsafeBatch(w.blsPK[lo:hi], w.msgsA[k:k+hi-lo], w.blsU[i]) }, nil}
	case 9: // calls that only read, and calls that fail
		m := w.msg()
		return &c16call{"bls.Verify", func() {
			_ = bls.Verify(w.apkA[i], m, w.blsSig[j])
			_ = bls.Verify(w.apkA[i], []byte("m"), w.blsSig[i])
			_ = bls.VerifyUnsafe(w.blsPK[i], m, w.blsU[j])
			_ = bls.VerifyBatch(w.apkA[:2], w.msgsA[:3], w.blsSig[i])
			_ = bls.VerifyUnsafeBatch(w.blsPK[:2], [][]byte{m, m}, w.blsU[i])
			_, _ = bls.UnmarshalPk(m)
			_, _ = bls.UnmarshalSignature(m)
			_, _ = bls.UnsafeSign(w.blsSK[i], m)
		}, nil}
	case 10:
		lo, hi := cut()
		k := r.Intn(c16bls - (hi - lo) + 1)
		c := w.blsU[i].Compress()
		orig := append([]byte(nil), c...)
		return &c16call{"VerifyCompressed", func() {
			_ = bls.VerifyCompressed(w.g2A[lo:hi], w.msgsA[k:k+hi-lo], c, i&1 == 0)
		}, func() {
			r.Check(bytes.Equal(c, orig), "modified", "VerifyCompressed changed the signature bytes")
		}}
	}
	cb := append(w.blsU[i].Compress(), 7, 7, 7)
	orig := append([]byte(nil), cb...)
	g := []*bn256.G2{new(bn256.G2).ScalarBaseMult(big.NewInt(5)), nil}
	before := fmt.Sprintf("%x", g[0].Marshal())
	return &c16call{"VerifyCompressed", func() {
		_ = bls.VerifyCompressed(g[:1], [][]byte{{byte(i)}}, cb[:33], true)
	}, func() {
		r.Check(bytes.Equal(cb, orig) && fmt.Sprintf("%x", g[0].Marshal()) == before && g[1] == nil, "modified", "VerifyCompressed changed its arguments")
	}}
}

func (w *c16world) hashCall() *c16call {
	r := w.r
	m := w.msg()
	fs := []func([]byte) ([]byte, error){hash.Blake2b256, hash.Blake2b512, hash.Sha3256, hash.Sha3512, hash.Xxhash}
	k := r.Intn(len(fs))
	var d []byte
	return &c16call{"hash", func() { d, _ = fs[k](m) }, func() {
		w.result("a digest", func() string { return fmt.Sprintf("%x", d) })
	}}
}

// codecCall decodes from a buffer used again, and encodes what was decoded.
func (w *c16world) codecCall() *c16call {
	r := w.r
	c, b := sample(r)
	if len(b) > 6000 {
		return nil
	}
	buf := append(append([]byte(nil), b...), 9, 9, 9)
	var o interface{}
	var err error
	return &c16call{"Decode", func() { o, err = c.dec(bytes.NewReader(buf[:len(b)]), nil) }, func() {
		r.Check(err == nil, "decode-failed", "decoding a %s failed: %s", c.kind, errStr(err))
		r.Check(bytes.Equal(buf[:len(b)], b), "modified", "decoding a %s changed the received bytes", c.kind)
		own := len(w.watches)
		w.result("a decoded "+c.kind, func() string {
			x, _ := c.bytes(o)
			return fmt.Sprintf("%x", x)
		})
		for i := range buf {
			buf[i] = 0xdd
		}
		w.settle("reusing a receive buffer")
		var e bool
		r.MustDo(w.n, nil, "Equals", func() { e = c.eq(o, o) })
		r.Check(e, "wrong-result", "a %s does not equal itself", c.kind)
		w.settle("comparing and encoding")
		// the next one of its kind goes into the same variable, copied out before
		if o2, b2, ok := again(r, c); ok {
			keep := shallow(o)
			w.result("a copy of a decoded "+c.kind, func() string {
				x, _ := c.bytes(keep)
				return fmt.Sprintf("%x", x)
			})
			w.watches[own].dead = true
			r.MustDo(w.n, nil, "Decode", func() { o, err = o2.dec(bytes.NewReader(b2), o) })
			r.Check(err == nil, "decode-failed", "decoding a %s into a used one failed: %s", c.kind, errStr(err))
			w.settle("decoding another into the same variable")
		}
	}}
}
