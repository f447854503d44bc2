package props

import (
	"bytes"
	"encoding/base64"
	"encoding/binary"
	"fmt"
	"math/big"
	"runtime"

	"github.com/dusk-network/bn256"
	"github.com/dusk-network/dusk-crypto/bls"
	"github.com/dusk-network/dusk-crypto/mlsag"
	"github.com/dusk-network/dusk-crypto/rangeproof"
	"github.com/dusk-network/dusk-crypto/rangeproof/innerproduct"
	"github.com/dusk-network/dusk-crypto/rangeproof/pedersen"

	"verif.local/sim/engine"
	"verif.local/sim/ref"
	"verif.local/sim/simrt"
)

func init() {
	register(&Property{
		ID: "C13", Quick: 100000, Thorough: 700000,
		Rule:     "Seeded message streams to a node: honest encodings of every kind, damaged by bit flips, truncation, extension, deleted, repeated and foreign pieces, invalid and non-canonical points and scalars, hostile counts, text damage, decoded by every decoder through chunked and failing streams and handed to every consumer. Panics, statements executed and bytes allocated are bounded; accepted bytes must re-encode to the reference decoder's reading; honest messages in between must be served as ever.",
		Scenario: c13,
	})
}

// hostileCount draws a value for a count field.
func hostileCount(r *Run, n int) uint32 {
	switch r.Weighted(2, 2, 2, 3, 2) {
	case 0:
		return uint32(r.Intn(4))
	case 1:
		return []uint32{0xffffffff, 0x7fffffff, 0x80000000, 0xfffffffe, 0x08000000, 0x04000001}[r.Intn(6)]
	case 2:
		return 1<<uint(r.Intn(32)) + uint32(r.Intn(3)) - 1
	case 3:
		return uint32(n/32 + r.Intn(5) - 2)
	}
	v, _ := dictInt(r)
	return uint32(v)
}

var ellLE = func() []byte {
	b := ref.Ell.Bytes()
	o := make([]byte, 32)
	for i := range b {
		o[len(b)-1-i] = b[i]
	}
	return o
}()

// piece draws 32 bytes with a meaning.
func piece(r *Run) []byte {
	switch r.Intn(8) {
	case 0:
		return make([]byte, 32)
	case 1:
		return bytes.Repeat([]byte{0xff}, 32)
	case 2:
		return badPointBytes(r)
	case 3: // a scalar that is not reduced
		b := append([]byte(nil), ellLE...)
		b[0] += byte(r.Intn(4))
		return b
	case 4:
		b := append([]byte(nil), ellLE...)
		b[0] += byte(r.Intn(4))
		b[31] |= byte(r.Intn(8) << 5)
		return b
	case 5:
		p := poolPoint(r)
		return p.Bytes()
	case 6: // field element out of range
		b := bytes.Repeat([]byte{0xff}, 32)
		b[31] = 0x7f
		b[0] = byte(0xed + r.Intn(18))
		return b
	}
	return r.Bytes(32)
}

// mutate damages an encoding.
func mutate(r *Run, b []byte, foreign func() []byte) []byte {
	b = append([]byte(nil), b...)
	for i, k := 0, 1+r.Weighted(5, 2, 1); i < k; i++ {
		at := 0
		if len(b) > 0 {
			at = r.Intn(len(b))
		}
		switch r.Weighted(4, 3, 3, 4, 4, 2, 2, 2, 2, 1, 2) {
		case 0: // flip
			if len(b) > 0 {
				b[at] ^= 1 << uint(r.Intn(8))
			}
			r.Fault("bit-flip")
		case 1:
			b = b[:cutPos(r, len(b))]
			r.Fault("truncation")
		case 2:
			n := 1 + r.LogRange(0, 300)
			if r.Bool(1, 2) {
				b = append(b, make([]byte, n)...)
			} else {
				b = append(b, r.Bytes(n)...)
			}
			r.Fault("extension")
		case 3: // a count
			p := []int{0, 0, 32, 36, 40, 4}[r.Intn(6)]
			if r.Bool(1, 3) {
				p = at
			}
			if p+4 <= len(b) {
				binary.BigEndian.PutUint32(b[p:], hostileCount(r, len(b)))
			}
			r.Fault("hostile-count")
		case 4: // replace a piece
			if len(b) >= 32 {
				p := 32*r.Intn(len(b)/32) + []int{0, 0, 4, 8}[r.Intn(4)]
				if p+32 > len(b) {
					p = len(b) - 32
				}
				copy(b[p:], piece(r))
			}
			r.Fault("foreign-piece")
		case 5: // delete
			n := []int{1, 4, 32, 64}[r.Intn(4)]
			if at+n <= len(b) {
				b = append(b[:at:at], b[at+n:]...)
			}
			r.Fault("deletion")
		case 6: // repeat
			n := []int{1, 4, 32, 64}[r.Intn(4)]
			if at+n <= len(b) {
				b = append(b[:at+n:at+n], b[at:]...)
			}
			r.Fault("repetition")
		case 7: // splice
			f := foreign()
			if len(f) > 0 {
				b = append(b[:at:at], f[r.Intn(len(f)):]...)
			}
			r.Fault("splice")
		case 8: // overwrite with something of the same size
			if len(b) > 0 {
				n := min(len(b)-at, 1+r.LogRange(0, 64))
				c := byte([]int{0, 0xff, 0x80, 1}[r.Intn(4)])
				for j := at; j < at+n; j++ {
					b[j] = c
				}
			}
			r.Fault("overwrite")
		case 9:
			b = r.Bytes(r.Intn([]int{5, 40, 400}[r.Intn(3)]))
			r.Fault("random-bytes")
		case 10: // words the library knows, alone, in front, behind, around or inside
			t := token(r)
			switch r.Intn(6) {
			case 0:
				b = t
			case 1:
				b = append(t, b...)
			case 2:
				b = append(b, t...)
			case 3:
				b = append(append(append([]byte(nil), t...), b...), t...)
			case 4:
				b = append(append(append([]byte(nil), b[:at]...), t...), b[at:]...)
			case 5:
				b = append(append([]byte(nil), t...), token(r)...)
			}
			r.Fault("stray-token")
		}
	}
	return b
}

// token is a word from the library's source, or a byte with a meaning somewhere.
func token(r *Run) []byte {
	switch r.Intn(3) {
	case 0:
		if d := simrt.Inst.DictStrs; len(d) > 0 {
			return []byte(d[r.Intn(len(d))])
		}
	case 1:
		if v, ok := dictInt(r); ok {
			return []byte{byte(v)}
		}
	}
	const p = "\"'{}[]()<>,;:=+-_/.#%&$*?!@^|~` \n\r\t\x00\xff0xX"
	return []byte{p[r.Intn(len(p))]}
}

// metered runs a call on hostile data and bounds what it costs.
func metered(r *Run, n *Node, what string, size int, steps int64, fn func()) {
	// Bytes allocated include bookkeeping of the simulator, far below the bound.
	limit := uint64(1<<20 + 512*size)
	var a, b runtime.MemStats
	r.StepLim = steps
	runtime.ReadMemStats(&a)
	o := r.Do(n, nil, fn)
	runtime.ReadMemStats(&b)
	r.StepLim = 0
	r.Checks += 3
	if o.Panic != "" {
		k := engine.PanicKind(o.Panic)
		if k == "stall" {
			r.Fail("stall", "%s (%d bytes received): still running after %d statements", what, size, steps)
		}
		r.Fail(k, "%s (%d bytes received): %s", what, size, o.Panic)
	}
	if d := b.TotalAlloc - a.TotalAlloc; d > limit {
		r.Fail("bloat", "%s: more than %d bytes allocated for %d bytes received", what, limit, size)
	}
}

func c13(r *Run, idx int) {
	n := r.NewNode()
	if idx%1500 == 7 {
		c13growth(r, n)
		return
	}
	var held []interface{} // objects decoded earlier, by kind
	var heldC []*codec
	for i, k := 0, 2+r.Intn(4); i < k; i++ {
		if r.Bool(1, 3) {
			c13bls(r, n)
			continue
		}
		c, b := sample(r)
		if c.kind[:4] == "ring" && r.Bool(1, 2) {
			b = madeSig(r, c)
		}
		if r.Bool(1, 12) {
			c, _ = sample(r) // bytes of another kind
			r.Fault("wrong-kind")
		}
		if c.vec && r.Bool(1, 3) { // the count comes from elsewhere
			k := int(hostileCount(r, len(b)))
			if c.kind[len(c.kind)-4:] == "keys" {
				c = codecKeys(k)
			} else {
				c = codecResp(k)
			}
			r.Fault("hostile-count")
		}
		h := mutate(r, b, func() []byte { _, f := sample(r); return f })
		rd := newReader(r, h)
		var o interface{}
		var err error
		metered(r, n, "decoding a hostile "+c.kind, len(h), 200000+200*int64(len(h)), func() { o, err = c.dec(rd, nil) })
		if err != nil {
			r.Note("rejected")
			r.Tracef("%s of %d bytes rejected: %s", c.kind, len(h), errStr(err))
		} else {
			used, canon, perr := c.parse(h)
			r.Check(perr == nil, "accepted-garbage", "decoding %d hostile bytes as a %s succeeds although they are none (%s)", len(h), c.kind, errStr(perr))
			r.Check(rd.pos == used, "wrong-length", "decoding a hostile %s consumed %d bytes instead of %d", c.kind, rd.pos, used)
			var out []byte
			metered(r, n, "re-encoding a hostile "+c.kind, len(h), 200000+200*int64(len(h)), func() { out, err = c.bytes(o) })
			r.Check(err == nil && bytes.Equal(out, canon), "misread", "a hostile %s accepted from %s re-encodes to %s (%s)", c.kind, hx(h), diffAt(out, canon), errStr(err))
			r.Mix(out)
			r.Note("accepted")
			c13consume(r, n, c, o, h)
			for j := range held {
				if heldC[j].kindClass() == c.kindClass() {
					metered(r, n, "comparing a hostile "+c.kind, len(h), 2e6, func() {
						c.eq(o, held[j])
						c.eq(held[j], o)
					})
				}
			}
			held, heldC = append(held, o), append(heldC, c)
		}
		// honest messages are served in between
		if r.Bool(1, 2) {
			c2, b2 := sample(r)
			o2 := mustDecode(r, n, c2, newReader(r, b2), nil, "after hostile bytes")
			mustEncode(r, n, c2, o2, b2, "after hostile bytes")
			held, heldC = append(held, o2), append(heldC, c2)
		}
	}
}

// c13growth gives the node an honest object and one four times as long: what it costs may
// grow by four and something, not by sixteen.
func c13growth(r *Run, n *Node) {
	what := r.Intn(5)
	s := 32 + r.Intn(9)
	rnd := scalarStream(uint64(r.Intn(1 << 30)))
	build := func(n int) (*codec, []byte, []Point) {
		switch what {
		case 0, 1:
			var ring [][]Point
			for i := 0; i < n; i++ {
				ring = append(ring, []Point{ref.Base(rnd())})
			}
			x := rnd()
			pos := r.Intn(n)
			ring[pos][0] = ref.Base(x)
			sig, im := ref.SignMLSAG([]byte("m"), []Scalar{x}, ring, pos, 1, nil, rnd)
			c := codecSig(true)
			return c, sig.Encode(true), im
		case 2:
			b := be32(uint32(n))
			for i := 0; i < n; i++ {
				p := ref.Base(rnd())
				b = append(b, p.Bytes()...)
			}
			return codecComms(), b, nil
		case 3:
			var b []byte
			for i := 0; i < n; i++ {
				p := ref.Base(rnd())
				b = append(b, p.Bytes()...)
			}
			return codecKeys(n), b, nil
		}
		var b []byte
		for i := 0; i < 2; i++ {
			x := rnd()
			b = append(b, x.Bytes()...)
		}
		for i := 0; i < 2*n; i++ {
			p := ref.Base(rnd())
			b = append(b, p.Bytes()...)
		}
		return codecIP(), b, nil
	}
	var cost [2][4]int64
	for i, k := range []int{s, 4 * s} {
		c, b, im := build(k)
		_, canon, err := c.parse(b)
		if err != nil || !bytes.Equal(canon, b) {
			panic("growth: " + c.kind + " is no encoding")
		}
		var o, o2 interface{}
		do := func(j int, what string, fn func()) {
			s := r.Steps
			r.MustDo(n, nil, what, fn)
			cost[i][j] = r.Steps - s
		}
		var e1, e2 error
		do(0, "decoding", func() { o, e1 = c.dec(bytes.NewReader(b), nil) })
		r.Check(e1 == nil, "decode-failed", "decoding an intact %s of %d bytes failed: %s", c.kind, len(b), errStr(e1))
		o2 = mustDecode(r, n, c, bytes.NewReader(b), nil, "growth")
		var out []byte
		do(1, "encoding", func() { out, e2 = c.bytes(o) })
		r.Check(e2 == nil && bytes.Equal(out, b), "misread", "a %s of %d bytes re-encodes to %s", c.kind, len(b), diffAt(out, b))
		var eq bool
		do(2, "comparing", func() { eq = c.eq(o, o2) })
		r.Check(eq, "not-equal", "two decodings of one %s are not equal", c.kind)
		if sig, ok := o.(*mlsag.Signature); ok && what == 0 {
			sig.Msg = []byte("m")
			var ok bool
			var err error
			do(3, "verifying", func() { ok, err = sig.Verify(im) })
			r.Check(ok && err == nil, "refused", "a ring of %d: a genuine signature is refused: %s", k, errStr(err))
		}
	}
	for j, name := range []string{"decoding", "encoding", "comparing", "verifying"} {
		r.Tracef("%s kind %d: %d and %d statements", name, what, cost[0][j], cost[1][j])
		r.Check(cost[1][j] <= 7*cost[0][j]+2000, "superlinear", "%s %d elements takes %d statements, %d of them %d", name, s, cost[0][j], 4*s, cost[1][j])
	}
	r.Note("growth")
}

// madeSig is the encoding of a valid signature.
func madeSig(r *Run, c *codec) []byte {
	sampleSigs()
	s := sigPool[r.Intn(len(sigPool))]
	return s.Encode(c.kind == codecSig(true).kind)
}

var sigPool []*ref.MLSAG
var sigImages [][]Point

func sampleSigs() []*ref.MLSAG {
	if sigPool == nil {
		rnd := scalarStream(99)
		for _, n := range []int{1, 2, 3, 5} {
			for _, k := range []int{1, 2, 3} {
				var ring [][]Point
				var priv []Scalar
				for i := 0; i < n; i++ {
					var v []Point
					for j := 0; j < k; j++ {
						v = append(v, ref.Base(rnd()))
					}
					ring = append(ring, v)
				}
				for j := 0; j < k; j++ {
					x := rnd()
					priv = append(priv, x)
					ring[n/2][j] = ref.Base(x)
				}
				s, im := ref.SignMLSAG([]byte("m"), priv, ring, n/2, k, nil, rnd)
				sigPool = append(sigPool, s)
				sigImages = append(sigImages, im)
			}
		}
	}
	return sigPool
}

// c13consume hands an accepted object to its consumers.
func c13consume(r *Run, n *Node, c *codec, o interface{}, h []byte) {
	sz := len(h)
	switch x := o.(type) {
	case *rangeproof.Proof:
		if r.Bool(1, 2) {
			var ok bool
			var err error
			metered(r, n, "verifying a hostile range proof", sz+64<<10, 20e6, func() { ok, err = rangeproof.Verify(*x) })
			r.Tracef("verify: %v %s", ok, errStr(err))
			r.Note("verify-proof")
		}
		metered(r, n, "encoding a hostile range proof", sz, 20e6, func() {
			var b bytes.Buffer
			_ = x.Encode(&b, true)
			_ = x.Encode(&b, false)
		})
		metered(r, n, "comparing a hostile range proof", sz, 20e6, func() {
			y := rangeproof.Proof{}
			_, _, _, _ = x.Equals(y, true), x.Equals(y, false), y.Equals(*x, true), y.Equals(*x, false)
			_ = x.Equals(*x, true)
		})
	case *innerproduct.Proof:
		metered(r, n, "comparing a hostile inner-product proof", sz, 20e6, func() {
			y := innerproduct.Proof{}
			_, _, _ = x.Equals(y), y.Equals(*x), x.Equals(*x)
		})
		// as such, over vectors of any size
		k := 1 << uint(r.Intn(5))
		if r.Bool(1, 2) && len(x.L) < 7 {
			k = 1 << uint(len(x.L))
		}
		G, H, f := manyPoints(r, k), manyPoints(r, k), manyScalars(r, k)
		var okIP bool
		metered(r, n, "verifying a hostile inner-product proof", sz+64<<10, 20e6, func() {
			okIP = x.Verify(G, H, x.L, x.R, f, ref.BlindBase(), G[0], k)
		})
		_ = okIP
		// inside a range proof
		p := rangeproof.Proof{IPProof: x}
		for i, m := 0, r.Intn(18); i < m; i++ {
			p.V = append(p.V, pedersen.Commitment{Value: poolPoint(r)})
		}
		var ok bool
		metered(r, n, "verifying a range proof with a hostile inner-product proof", sz+64<<10, 20e6, func() { ok, _ = rangeproof.Verify(p) })
		_ = ok
	case *mlsag.Signature:
		sampleSigs()
		images := []Point{}
		if r.Bool(1, 2) {
			images = sigImages[r.Intn(len(sigPool))]
		} else {
			for i, m := 0, r.Intn(4); i < m; i++ {
				images = append(images, poolPoint(r))
			}
		}
		if r.Bool(1, 2) {
			x.Msg = message(r, 100)
		}
		if len(x.PubKeys) == 0 && r.Bool(1, 2) {
			// keys supplied by the receiver, as for a signature encoded without them
			s := sigPool[r.Intn(len(sigPool))]
			for _, v := range s.Keys {
				x.PubKeys = append(x.PubKeys, libKeys(v))
			}
		}
		metered(r, n, "verifying a hostile ring signature", sz+64<<10, 2e6, func() { _, _ = x.Verify(images) })
		metered(r, n, "comparing a hostile ring signature", sz+64<<10, 2e6, func() {
			y := mlsag.Signature{}
			_, _, _, _ = x.Equals(y, true), x.Equals(y, false), y.Equals(*x, true), y.Equals(*x, false)
			var b bytes.Buffer
			_ = x.Encode(&b, true)
			_ = x.Encode(&b, false)
		})
		r.Note("verify-signature")
	case *mlsag.PubKeys:
		metered(r, n, "using hostile keys", sz, 2e6, func() {
			y := mlsag.PubKeys{}
			_, _ = x.Equals(y), y.Equals(*x)
			if x.Len() > 0 {
				x.OutputKey()
			}
		})
	case *mlsag.Responses:
		metered(r, n, "using hostile responses", sz, 2e6, func() {
			y := mlsag.Responses{}
			_, _ = x.Equals(y), y.Equals(*x)
		})
	case *pedersen.Commitment:
		metered(r, n, "using a hostile commitment", sz, 2e6, func() {
			y := pedersen.Commitment{}
			_, _, _ = x.EqualValue(y), y.EqualValue(*x), x.Equals(*x)
		})
	}
}

func libKeys(v []Point) mlsag.PubKeys {
	k := mlsag.PubKeys{}
	for _, p := range v {
		k.AddPubKey(p)
	}
	return k
}

// ---- BLS ----------------------------------------------------------------

type blsPool struct {
	pk, sig, comp, text [][]byte
}

var blsSamples *blsPool

func blsBytes() *blsPool {
	if blsSamples == nil {
		p := &blsPool{}
		for i := int64(1); i <= 6; i++ {
			k := new(big.Int).Exp(big.NewInt(i+2), big.NewInt(150), bn256.Order)
			g2 := new(bn256.G2).ScalarBaseMult(k)
			g1 := new(bn256.G1).ScalarBaseMult(k)
			p.pk = append(p.pk, g2.Marshal())
			p.sig = append(p.sig, g1.Marshal())
			p.comp = append(p.comp, g1.Compress())
			p.text = append(p.text, []byte(base64.RawURLEncoding.EncodeToString(g2.Marshal())))
		}
		p.pk = append(p.pk, new(bn256.G2).ScalarBaseMult(new(big.Int)).Marshal())
		p.sig = append(p.sig, new(bn256.G1).ScalarBaseMult(new(big.Int)).Marshal())
		p.text = append(p.text, []byte(base64.RawURLEncoding.EncodeToString(p.pk[6])))
		blsSamples = p
	}
	return blsSamples
}

// blsField writes coordinates no honest encoder writes.
func blsField(r *Run, b []byte) []byte {
	b = append([]byte(nil), b...)
	p, _ := new(big.Int).SetString("65000549695646603732796438742359905742825358107623003571877145026864184071783", 10)
	off := 0
	if len(b) == 129 {
		off = 1
	}
	n := (len(b) - off) / 32
	if n == 0 {
		return b
	}
	at := off + 32*r.Intn(n)
	v := new(big.Int).SetBytes(b[at : at+32])
	switch r.Intn(4) {
	case 0: // the same coordinate, not reduced
		v.Add(v, p)
	case 1:
		v.Sub(p, v)
	case 2:
		v.SetInt64(int64(r.Intn(3)))
	case 3:
		v.Sub(p, big.NewInt(int64(r.Intn(3))))
	}
	if v.BitLen() <= 256 {
		v.FillBytes(b[at : at+32])
	}
	if len(b) == 33 && r.Bool(1, 2) {
		b[32] = byte(r.Intn(4))
	}
	r.Fault("foreign-coordinate")
	return b
}

// refG1 and refG2 read bytes with the group library alone.
func refG1(comp bool, b []byte) (canon []byte, ok bool) {
	defer func() {
		if e := recover(); e != nil {
			canon, ok = nil, false
		}
	}()
	b = append([]byte(nil), b...)
	if comp {
		p, err := bn256.Decompress(b)
		if err != nil {
			return nil, false
		}
		return p.Marshal(), true
	}
	p := new(bn256.G1)
	if _, err := p.Unmarshal(b); err != nil {
		return nil, false
	}
	return p.Marshal(), true
}

func refG2(b []byte) (canon []byte, ok bool) {
	defer func() {
		if e := recover(); e != nil {
			canon, ok = nil, false
		}
	}()
	p := new(bn256.G2)
	if _, err := p.Unmarshal(append([]byte(nil), b...)); err != nil {
		return nil, false
	}
	return p.Marshal(), true
}

func c13bls(r *Run, n *Node) {
	pool := blsBytes()
	class := r.Weighted(3, 3, 3, 2)
	list := [][][]byte{pool.pk, pool.sig, pool.comp, pool.text}[class]
	b := list[r.Intn(len(list))]
	foreign := func() []byte {
		l := [][][]byte{pool.pk, pool.sig, pool.comp, pool.text}[r.Intn(4)]
		return l[r.Intn(len(l))]
	}
	var h []byte
	switch r.Weighted(6, 3, 1) {
	case 0:
		h = mutate(r, b, foreign)
	case 1:
		if class == 3 {
			raw, _ := base64.RawURLEncoding.DecodeString(string(b))
			h = []byte(base64.RawURLEncoding.EncodeToString(blsField(r, raw)))
		} else {
			h = blsField(r, b)
		}
	case 2:
		h = foreign()
		r.Fault("wrong-kind")
	}
	if class == 3 && r.Bool(1, 5) { // hardly any text
		h = nil
		for k := r.Weighted(1, 4, 2, 1); k > 0; k-- {
			h = append(h, token(r)...)
		}
		r.Fault("stray-token")
	} else if class == 3 && r.Bool(1, 3) && len(h) > 0 { // characters of other alphabets
		h = append([]byte(nil), h...)
		h[r.Intn(len(h))] = []byte("+/=\n\r -_~\x00\xff")[r.Intn(11)]
		r.Fault("text-damage")
	}
	if r.Bool(1, 12) { // far longer than anything honest
		n := []int{129, 192, 257, 300, 343, 400, 513, 1025, 4097, 65537}[r.Intn(10)]
		h = append([]byte(nil), h...)
		for len(h) < n {
			switch {
			case class == 3 && r.Bool(1, 2):
				h = append(h, b...)
			case class == 3:
				h = append(h, bytes.Repeat([]byte("A"), n-len(h))...)
			case r.Bool(1, 2):
				h = append(h, make([]byte, n-len(h))...)
			default:
				h = append(h, b...)
			}
		}
		if r.Bool(1, 2) {
			h = h[:n]
		}
		r.Fault("oversized")
	}
	sz := len(h)
	const lim = 5e6
	var okpk *bls.PublicKey
	var oksig *bls.Signature
	accept := func(what string, err error, canon []byte, ok bool, got func() []byte) bool {
		if err != nil {
			r.Note("rejected")
			return false
		}
		r.Check(ok, "accepted-garbage", "%s accepts %d hostile bytes that are no point: %s", what, sz, hx(h))
		var out []byte
		metered(r, n, "re-encoding after "+what, sz, lim, func() { out = got() })
		r.Check(bytes.Equal(out, canon), "misread", "%s of %s re-encodes to %s", what, hx(h), diffAt(out, canon))
		r.Mix(out)
		r.Note("accepted")
		return true
	}
	switch class {
	case 0:
		canon, ok := refG2(h)
		switch r.Intn(3) {
		case 0:
			var pk *bls.PublicKey
			var err error
			metered(r, n, "UnmarshalPk", sz, lim, func() { pk, err = bls.UnmarshalPk(h) })
			if accept("UnmarshalPk", err, canon, ok, func() []byte { return pk.Marshal() }) {
				okpk = pk
			}
		case 1:
			var apk *bls.Apk
			var err error
			metered(r, n, "UnmarshalApk", sz, lim, func() { apk, err = bls.UnmarshalApk(h) })
			if accept("UnmarshalApk", err, canon, ok, func() []byte { return apk.Marshal() }) {
				metered(r, n, "using a hostile apk", sz, lim, func() {
					_ = apk.Copy()
					okpk = apk.PublicKey
				})
			}
		case 2:
			var apk *bls.Apk
			var err error
			base := pool.pk[0]
			metered(r, n, "AggregateBytes", sz, lim, func() {
				pk, e := bls.UnmarshalPk(base)
				if e != nil {
					panic(e)
				}
				apk = bls.NewApk(pk)
				err = apk.AggregateBytes(h)
			})
			r.Check(err != nil || ok, "accepted-garbage", "Apk.AggregateBytes accepts %s, which is no point", hx(h))
			if err == nil {
				// as if the canonical bytes had been given
				var want []byte
				metered(r, n, "AggregateBytes", sz, lim, func() {
					pk, _ := bls.UnmarshalPk(base)
					a := bls.NewApk(pk)
					if a.AggregateBytes(canon) == nil {
						want = a.Marshal()
					}
				})
				r.Check(bytes.Equal(want, apk.Marshal()), "misread", "Apk.AggregateBytes of %s differs from that of its canonical form", hx(h))
			}
		}
	case 1, 2:
		comp := class == 2
		canon, ok := refG1(comp && len(h) == 33, h)
		switch r.Intn(4) {
		case 0: // Unmarshal takes both forms
			canon, ok = refG1(len(h) == 33, h)
			var s *bls.Signature
			var err error
			metered(r, n, "UnmarshalSignature", sz, lim, func() { s, err = bls.UnmarshalSignature(h) })
			if accept("UnmarshalSignature", err, canon, ok, func() []byte { return s.Marshal() }) {
				oksig = s
			}
		case 1:
			canon, ok = refG1(true, h)
			s, u := &bls.Signature{}, &bls.UnsafeSignature{}
			var e1, e2 error
			metered(r, n, "Decompress", sz, lim, func() { e1, e2 = s.Decompress(h), u.Decompress(h) })
			if accept("Signature.Decompress", e1, canon, ok, func() []byte { return s.Marshal() }) {
				oksig = s
			}
			accept("UnsafeSignature.Decompress", e2, canon, ok, func() []byte { return u.Marshal() })
		case 2:
			canon, ok = refG1(false, h)
			u := &bls.UnsafeSignature{}
			var err error
			metered(r, n, "UnsafeSignature.Unmarshal", sz, lim, func() { err = u.Unmarshal(h) })
			if accept("UnsafeSignature.Unmarshal", err, canon, ok, func() []byte { return u.Marshal() }) {
				metered(r, n, "using a hostile signature", sz, lim, func() {
					_ = u.Compress()
					_, _ = bls.UnsafeBatch(u, u)
					pk, _ := bls.UnmarshalPk(pool.pk[1])
					_ = bls.VerifyUnsafe(pk, []byte("m"), u)
				})
			}
		case 3:
			canon, ok = refG1(len(h) == 33, h)
			var err error
			var s *bls.Signature
			metered(r, n, "Signature.AggregateBytes", sz, lim, func() {
				s, _ = bls.UnmarshalSignature(pool.sig[0])
				err = s.AggregateBytes(h)
			})
			r.Check(err != nil || ok, "accepted-garbage", "Signature.AggregateBytes accepts %s, which is no point", hx(h))
			if err == nil {
				var want []byte
				metered(r, n, "Signature.AggregateBytes", sz, lim, func() {
					a, _ := bls.UnmarshalSignature(pool.sig[0])
					if a.AggregateBytes(canon) == nil {
						want = a.Marshal()
					}
				})
				r.Check(bytes.Equal(want, s.Marshal()), "misread", "Signature.AggregateBytes of %s differs from that of its canonical form", hx(h))
			}
		}
		if comp && r.Bool(1, 3) {
			p := new(bn256.G2)
			_, _ = p.Unmarshal(append([]byte(nil), pool.pk[0]...))
			var err error
			metered(r, n, "VerifyCompressed", sz, lim, func() {
				err = bls.VerifyCompressed([]*bn256.G2{p}, [][]byte{[]byte("m")}, h, r.Bool(1, 2))
			})
			r.Check(err != nil, "accepted-garbage", "VerifyCompressed accepts %s for a message nobody signed", hx(h))
		}
	case 3:
		raw, derr := base64.RawURLEncoding.DecodeString(string(h))
		canon, ok := refG2(raw)
		pk := &bls.PublicKey{}
		var err error
		metered(r, n, "UnmarshalText", sz, lim, func() { err = pk.UnmarshalText(h) })
		if accept("PublicKey.UnmarshalText", err, canon, ok && derr == nil, func() []byte { return pk.Marshal() }) {
			okpk = pk
		}
	}
	if okpk != nil && r.Bool(1, 2) {
		metered(r, n, "using a hostile public key", sz, lim, func() {
			apk := bls.NewApk(okpk)
			_ = apk.Aggregate(okpk)
			_ = okpk.Aggregate(okpk)
			_, _ = okpk.MarshalText()
			s, _ := bls.UnmarshalSignature(pool.sig[0])
			_ = bls.Verify(apk, []byte("m"), s)
			_ = bls.VerifyBatch([]*bls.Apk{apk, apk}, [][]byte{[]byte("m"), []byte("n")}, s)
		})
		r.Note("verify-bls")
	}
	if oksig != nil && r.Bool(1, 2) {
		metered(r, n, "using a hostile signature", sz, lim, func() {
			_ = oksig.Copy()
			_ = oksig.Compress()
			pk, _ := bls.UnmarshalPk(pool.pk[0])
			apk := bls.NewApk(pk)
			if err := bls.Verify(apk, []byte("m"), oksig); err == nil {
				panic(fmt.Sprint("accepted a signature nobody made"))
			}
			oksig.Aggregate(oksig)
		})
		r.Note("verify-bls")
	}
	// an honest key is read as ever
	if r.Bool(1, 2) {
		b := pool.pk[r.Intn(len(pool.pk))]
		var pk *bls.PublicKey
		var err error
		r.MustDo(n, nil, "UnmarshalPk", func() { pk, err = bls.UnmarshalPk(b) })
		r.Check(err == nil && bytes.Equal(pk.Marshal(), b), "decode-failed", "an honest public key is not read after hostile bytes: %s", errStr(err))
	}
}
