package props

import (
	"bytes"
	"errors"
	"io"
	"math/big"

	"github.com/dusk-network/bn256"
	"github.com/dusk-network/dusk-crypto/bls"
	"github.com/dusk-network/dusk-crypto/hash"
	"github.com/dusk-network/dusk-crypto/merkletree"
	"github.com/dusk-network/dusk-crypto/mlsag"
	"github.com/dusk-network/dusk-crypto/rangeproof"
	generator "github.com/dusk-network/dusk-crypto/rangeproof/generators"
	"github.com/dusk-network/dusk-crypto/rangeproof/innerproduct"
	"github.com/dusk-network/dusk-crypto/rangeproof/pedersen"
	"github.com/dusk-network/dusk-crypto/rangeproof/vector"
	"github.com/dusk-network/dusk-crypto/ringsig/blsag"

	"verif.local/sim/engine"
	"verif.local/sim/ref"
)

// The calls below fail, or take other ways through the library than the well-behaved ones of ops.go:
// whatever a failing call leaves behind, the calls around it must not notice.

// badPayload fails to hash itself.
type badPayload struct{}

func (badPayload) CalculateHash() ([]byte, error) { return nil, errors.New("no hash") }

// dead is a source of randomness, or a connection, that gives up after n bytes.
type dead struct {
	src io.Reader
	n   int
}

func (d *dead) Read(p []byte) (int, error) {
	if d.n <= 0 {
		return 0, errors.New("gone")
	}
	if len(p) > d.n {
		p = p[:d.n]
	}
	n, err := d.src.Read(p)
	d.n -= n
	return n, err
}

func (d *dead) Write(p []byte) (int, error) {
	if len(p) > d.n {
		n := d.n
		d.n = 0
		return n, errors.New("gone")
	}
	d.n -= len(p)
	return len(p), nil
}

// cutOrFlip damages a copy of b.
func cutOrFlip(b []byte, seed uint64) []byte {
	c := append([]byte(nil), b...)
	if len(c) == 0 {
		return c
	}
	switch mod(seed, 4) {
	case 0:
		return c[:mod(seed>>8, len(c))]
	case 1:
		return append(c, byte(seed>>8))
	case 2:
		c[mod(seed>>8, len(c))] ^= 1 << uint(mod(seed>>32, 8))
	default:
		for i := range c {
			c[i] = 0xff
		}
	}
	return c
}

func init() {
	B := func(name string, run func(sh *Shared, seed uint64, x *res)) {
		addOp("bls", "bls."+name, true, 1, run)
	}
	B("VerifyBatch wrong", func(sh *Shared, seed uint64, x *res) {
		switch mod(seed, 5) {
		case 0: // repeated message
			x.e(bls.VerifyBatch(sh.ApkB, [][]byte{sh.Msgs[0], sh.Msgs[1], sh.Msgs[0]}, sh.BAgg))
		case 1: // exchanged
			x.e(bls.VerifyBatch(sh.ApkB, [][]byte{sh.Msgs[1], sh.Msgs[0], sh.Msgs[2]}, sh.BAgg))
		case 2: // one too few
			x.e(bls.VerifyBatch(sh.ApkB, sh.Msgs[:2], sh.BAgg))
		case 3: // nothing
			x.e(bls.VerifyBatch(nil, nil, sh.BAgg))
		default:
			x.e(bls.VerifyBatch(sh.ApkB[:2], sh.Msgs[:2], sh.BAgg))
		}
	})
	B("VerifyUnsafeBatch wrong", func(sh *Shared, seed uint64, x *res) {
		switch mod(seed, 5) {
		case 0:
			x.e(bls.VerifyUnsafeBatch(sh.PK, [][]byte{sh.Msgs[0], sh.Msgs[1], sh.Msgs[1]}, sh.UAgg))
		case 1:
			x.e(bls.VerifyUnsafeBatch(sh.PK, [][]byte{sh.Msgs[2], sh.Msgs[0], sh.Msgs[1]}, sh.UAgg))
		case 2:
			x.e(bls.VerifyUnsafeBatch(sh.PK, sh.Msgs[:2], sh.UAgg))
		case 3:
			x.e(bls.VerifyUnsafeBatch(nil, nil, sh.UAgg))
		default:
			x.e(bls.VerifyUnsafeBatch(sh.PK[:2], sh.Msgs[:2], sh.UAgg))
		}
	})
	B("VerifyCompressed wrong", func(sh *Shared, seed uint64, x *res) {
		c := sh.UAgg.Compress()
		switch mod(seed, 4) {
		case 0:
			x.e(bls.VerifyCompressed(sh.G2, sh.Msgs, cutOrFlip(c, seed>>8), seed>>4&1 == 0))
		case 1:
			x.e(bls.VerifyCompressed(sh.G2, sh.Msgs[:2], c, seed>>4&1 == 0))
		case 2:
			x.e(bls.VerifyCompressed(sh.G2, [][]byte{sh.Msgs[0], sh.Msgs[0], sh.Msgs[2]}, c, seed>>4&1 == 0))
		default:
			x.e(bls.VerifyCompressed([]*bn256.G2{sh.G2[1], sh.G2[0], sh.G2[2]}, sh.Msgs, c, seed>>4&1 == 0))
		}
	})
	B("decode damaged", func(sh *Shared, seed uint64, x *res) {
		k := mod(seed, 3)
		if pk, err := bls.UnmarshalPk(cutOrFlip(sh.PKB[k], seed>>8)); err == nil {
			x.b(pk.Marshal())
		} else {
			x.e(err)
		}
		if a, err := bls.UnmarshalApk(cutOrFlip(sh.PKB[k], seed>>9)); err == nil {
			x.b(a.Marshal())
		} else {
			x.e(err)
		}
		if s, err := bls.UnmarshalSignature(cutOrFlip(sh.SigB[k], seed>>10)); err == nil {
			x.b(s.Marshal())
		} else {
			x.e(err)
		}
		s := sh.Sig[k].Copy()
		err := s.Decompress(cutOrFlip(sh.CompB[k], seed>>11))
		x.e(err)
		u := &bls.UnsafeSignature{}
		if err := u.Decompress(cutOrFlip(sh.CompB[k], seed>>12)); err == nil {
			x.b(u.Marshal())
		} else {
			x.e(err)
		}
		var pk bls.PublicKey
		if err := pk.UnmarshalText(cutOrFlip(sh.TextB[k], seed>>13)); err == nil {
			x.b(pk.Marshal())
		} else {
			x.e(err)
		}
		a := sh.Apk.Copy()
		x.e(a.AggregateBytes(cutOrFlip(sh.PKB[k], seed>>14)))
		x.b(sh.Apk.Marshal())
		x.e(sh.Sig[k].Copy().AggregateBytes(cutOrFlip(sh.SigB[k], seed>>15)))
	})
	B("AggregateApk wrong", func(sh *Shared, seed uint64, x *res) {
		_, err := bls.AggregateApk(nil)
		x.e(err)
		_, err = bls.UnsafeBatch()
		x.e(err)
		a, err := bls.AggregateApk([]*bls.PublicKey{sh.PK[mod(seed, 3)], sh.PK[mod(seed, 3)]})
		x.e(err)
		if err == nil {
			x.b(a.Marshal())
		}
	})
	B("GenKeyPair from a failing reader", func(sh *Shared, seed uint64, x *res) {
		pk, _, err := bls.GenKeyPair(&dead{engine.NewStream(seed, "dead"), mod(seed, 40)})
		x.e(err)
		if err == nil {
			x.b(pk.Marshal())
		}
	})

	P := func(name string, cost int, run func(sh *Shared, seed uint64, x *res)) {
		addOp("rp", "rangeproof."+name, true, cost, run)
	}
	P("Prove(17)", 2, func(sh *Shared, seed uint64, x *res) {
		v := make([]Scalar, 17+mod(seed, 3))
		for i := range v {
			v[i] = u64Scalar(seed + uint64(i))
		}
		_, err := rangeproof.Prove(v, false)
		x.e(err)
	})
	P("Decode damaged", 1, func(sh *Shared, seed uint64, x *res) {
		k := mod(seed, 4)
		var p rangeproof.Proof
		err := p.Decode(bytes.NewReader(cutOrFlip(sh.RPWire[k], seed>>8)), true)
		x.e(err)
		if err == nil {
			var b bytes.Buffer
			x.e(p.Encode(&b, true))
			x.b(b.Bytes())
		}
		var q rangeproof.Proof
		x.e(q.Decode(&dead{bytes.NewReader(sh.RPWire[k]), mod(seed>>20, 1400)}, true))
	})
	P("Encode to a failing writer", 1, func(sh *Shared, seed uint64, x *res) {
		k := mod(seed, 4)
		x.e(sh.RP[k].Encode(&dead{n: mod(seed>>4, 700)}, seed>>3&1 == 0))
		x.e(pedersen.EncodeCommitments(&dead{n: mod(seed>>16, 200)}, sh.Comms))
	})
	P("Verify malformed", 1, func(sh *Shared, seed uint64, x *res) {
		p := engine.DeepCopy(&sh.RP[mod(seed, 4)])
		switch mod(seed>>4, 5) {
		case 0:
			p.V = nil
		case 1:
			p.IPProof.L = p.IPProof.L[:len(p.IPProof.L)-1]
		case 2:
			p.IPProof.L = nil
			p.IPProof.R = nil
		case 3:
			p.V = append(p.V, p.V[0])
		default:
			p.IPProof = nil
		}
		ok, err := rangeproof.Verify(*p)
		x.ok(ok)
		x.e(err)
	})
	P("Generator other labels", 1, func(sh *Shared, seed uint64, x *res) {
		for i := 0; i < 2; i++ {
			l := engine.Expand(uint64(mod(seed>>uint(8*i), 5)), 1+mod(seed>>uint(8*i), 5))
			g := generator.New(l)
			g.Compute(uint32(1 + mod(seed>>uint(16+8*i), 5)))
			for j := range g.Bases {
				x.pt(g.Bases[j])
			}
			x.pt(g.Iterate())
			g.Clear()
			x.pt(g.Iterate())
		}
	})
	addOp("rp", "pedersen.Commit other labels", false, 1, func(sh *Shared, seed uint64, x *res) {
		for i := 0; i < 2; i++ {
			l := engine.Expand(uint64(mod(seed>>uint(8*i), 5)), 1+mod(seed>>uint(8*i), 5))
			ped := pedersen.New(l)
			c := ped.CommitToScalar(u64Scalar(seed >> 7))
			x.pt(c.Value)
			x.sc(c.BlindingFactor)
			c = ped.CommitToVectors([]Scalar{u64Scalar(seed), u64Scalar(seed + 1)}, []Scalar{u64Scalar(seed)})
			x.pt(c.Value)
		}
	})
	P("InnerProduct wrong", 1, func(sh *Shared, seed uint64, x *res) {
		rnd := scalarStream(seed)
		n := 2 + mod(seed, 3)
		var G, H []Point
		var a, b, f []Scalar
		for i := 0; i < n; i++ {
			G, H = append(G, ref.Base(rnd())), append(H, ref.Base(rnd()))
			a, b, f = append(a, rnd()), append(b, rnd()), append(f, rnd())
		}
		switch mod(seed>>8, 4) {
		case 0:
			G = G[1:]
		case 1:
			b = b[1:]
		case 2:
			f = f[1:]
		default:
			G, H, a, b, f = nil, nil, nil, nil, nil
		}
		_, err := innerproduct.Generate(G, H, a, b, f, ref.Base(rnd()))
		x.e(err)
		ip := engine.DeepCopy(sh.RP[mod(seed, 3)].IPProof)
		ip.L = ip.L[:mod(seed>>16, len(ip.L))]
		x.ok(ip.Verify(G, H, ip.L, ip.R, f, ref.Base(rnd()), ref.Base(rnd()), n))
	})
	P("vectors", 1, func(sh *Shared, seed uint64, x *res) {
		rnd := scalarStream(seed)
		n := 1 + mod(seed, 4)
		var a, b []Scalar
		var pts []Point
		for i := 0; i < n; i++ {
			a, b, pts = append(a, rnd()), append(b, rnd()), append(pts, ref.Base(rnd()))
		}
		dump := func(v []Scalar, err error) {
			x.e(err)
			for i := range v {
				x.sc(v[i])
			}
		}
		dump(vector.Add(a, b))
		dump(vector.Sub(a, b))
		dump(vector.Hadamard(a, b))
		dump(vector.AddScalar(a, b[0]), nil)
		dump(vector.SubScalar(a, b[0]), nil)
		dump(vector.MulScalar(a, b[0]), nil)
		dump(vector.ScalarPowers(a[0], uint32(n)), nil)
		dump(vector.Add(a, b[1:]))
		dump(vector.Hadamard(a[1:], b))
		s, err := vector.InnerProduct(a, b)
		x.sc(s)
		x.e(err)
		_, err = vector.InnerProduct(a, b[1:])
		x.e(err)
		p, err := vector.Exp(a, pts, n, 1)
		x.e(err)
		x.pt(p)
	})
	addOp("rp", "rangeproof.BitCommit wrong", true, 1, func(sh *Shared, seed uint64, x *res) {
		bc := rangeproof.BitCommit(new(big.Int).SetUint64(seed))
		x.e(bc.Debug(new(big.Int).SetUint64(seed ^ 1)))
	})

	M := func(name string, run func(sh *Shared, seed uint64, x *res)) {
		addOp("mlsag", "mlsag."+name, true, 1, run)
	}
	M("Verify wrong", func(sh *Shared, seed uint64, x *res) {
		s := engine.DeepCopy(sh.MSig[mod(seed, 2)])
		img := []Point{sh.MImg[mod(seed, 2)]}
		switch mod(seed>>8, 5) {
		case 0:
			s.Msg = append(s.Msg, 1)
		case 1:
			img = append(img, img[0])
		case 2:
			img = nil
		case 3:
			s.Msg = nil
		default:
			s.Msg = sh.Msgs[2]
		}
		ok, err := s.Verify(img)
		x.ok(ok)
		x.e(err)
	})
	M("Decode damaged", func(sh *Shared, seed uint64, x *res) {
		w := cutOrFlip(sh.MWire[mod(seed, 2)], seed>>8)
		var s mlsag.Signature
		err := s.Decode(bytes.NewReader(w), true)
		x.e(err)
		if err == nil {
			var b bytes.Buffer
			x.e(s.Encode(&b, true))
			x.b(b.Bytes())
		}
		x.e(sh.MSig[mod(seed, 2)].Encode(&dead{n: mod(seed>>16, 300)}, true))
	})
	M("Prove without", func(sh *Shared, seed uint64, x *res) {
		d := mlsag.NewDualKey()
		if seed&1 == 0 {
			d.SetPrimaryKey(sh.Primary[0])
		}
		if seed&2 == 0 {
			d.AddDecoys(sh.Decoys)
		}
		_, _, err := d.Prove() // no message, or no decoys, or a key too few
		x.e(err)
	})
	addOp("blsag", "blsag.Verify wrong", true, 1, func(sh *Shared, seed uint64, x *res) {
		s := engine.DeepCopy(&sh.BSig[mod(seed, 2)])
		m := sh.BMsg[mod(seed, 2)]
		switch mod(seed>>8, 4) {
		case 0:
			s.S = s.S[:len(s.S)-1]
		case 1:
			s.PubKeys = append(s.PubKeys[1:], s.PubKeys[0])
		case 2:
			m = append(append([]byte(nil), m...), 0)
		default:
			s.I = sh.BSig[mod(seed+1, 2)].I
		}
		x.ok(blsag.Verify(m, *s))
		x.ok(blsag.Verify(nil, *s))
	})
	K := func(name string, run func(sh *Shared, seed uint64, x *res)) {
		addOp("merkle", "merkletree."+name, true, 1, run)
	}
	K("NewTree wrong", func(sh *Shared, seed uint64, x *res) {
		_, err := merkletree.NewTree(nil)
		x.e(err)
		l := append([]merkletree.Payload(nil), sh.Payloads...)
		l[mod(seed, len(l))] = badPayload{}
		_, err = merkletree.NewTree(l)
		x.e(err)
		t, err := merkletree.NewTree(sh.Payloads)
		x.e(err)
		x.e(t.RebuildTreeUsing(l))
		ok, err := sh.Tree.VerifyContent(badPayload{})
		x.ok(ok)
		x.e(err)
	})
	addOp("hash", "hash.CompareChecksum wrong", true, 1, func(sh *Shared, seed uint64, x *res) {
		c, err := hash.Checksum(sh.Msgs[mod(seed, 3)])
		x.e(err)
		x.ok(hash.CompareChecksum(sh.Msgs[mod(seed, 3)], c^1))
		d, err := hash.Sha3256(engine.Expand(seed, 3000+mod(seed, 2000)))
		x.e(err)
		x.b(d)
		d, err = hash.Blake2b256(engine.Expand(seed, 3000+mod(seed, 2000)))
		x.e(err)
		x.b(d)
	})
}
