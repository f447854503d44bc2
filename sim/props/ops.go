package props

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"math/big"
	"sort"
	"strings"

	"github.com/dusk-network/bn256"
	"github.com/dusk-network/dusk-crypto/bls"
	"github.com/dusk-network/dusk-crypto/hash"
	"github.com/dusk-network/dusk-crypto/merkletree"
	"github.com/dusk-network/dusk-crypto/mlsag"
	"github.com/dusk-network/dusk-crypto/rangeproof"
	generator "github.com/dusk-network/dusk-crypto/rangeproof/generators"
	"github.com/dusk-network/dusk-crypto/rangeproof/innerproduct"
	"github.com/dusk-network/dusk-crypto/rangeproof/pedersen"
	"github.com/dusk-network/dusk-crypto/ringsig/blsag"

	"verif.local/sim/engine"
	"verif.local/sim/ref"
)

// leafData is a well-behaved payload whose hash lives in a buffer with spare capacity.
type leafData struct {
	Text []byte
	H    []byte
}

func (l *leafData) CalculateHash() ([]byte, error) { return l.H, nil }

// Shared are objects several calls use at the same time and nobody modifies.
type Shared struct {
	Msgs [][]byte
	// bls
	PK    []*bls.PublicKey
	SK    []*bls.SecretKey
	Apk   *bls.Apk
	ApkB  []*bls.Apk
	Sig   []*bls.Signature
	Agg   *bls.Signature
	BAgg  *bls.Signature
	USig  []*bls.UnsafeSignature
	UAgg  *bls.UnsafeSignature
	G2    []*bn256.G2
	PKB   [][]byte
	SigB  [][]byte
	CompB [][]byte
	TextB [][]byte
	// range proofs
	RP     []rangeproof.Proof
	RPWire [][]byte
	Comms  []pedersen.Commitment
	Label  []byte
	// rings
	Decoys  []mlsag.PubKeys
	Primary []Scalar
	MSig    []*mlsag.Signature
	MImg    []Point
	MWire   [][]byte
	Mixin   []Point
	BSig    []blsag.RingSignature
	BMsg    [][]byte
	// merkle
	Payloads []merkletree.Payload
	Tree     *merkletree.Tree
	Tree2    *merkletree.Tree
}

var rpWires [][]byte

// fixedProofs are made by the reference prover, once per process.
func fixedProofs() [][]byte {
	if rpWires == nil {
		for i, m := range []int{1, 1, 2, 4} {
			rnd := scalarStream(uint64(1000 + i))
			v := make([]Scalar, m)
			for j := range v {
				v[j] = u64Scalar(uint64(i*7919+j)*0x9e3779b97f4a7c15 + uint64(j))
			}
			rpWires = append(rpWires, ref.Prove(v, rnd, nil).Encode(true))
		}
	}
	return rpWires
}

// buildShared prepares the objects for the families in use.
func buildShared(r *Run, fam map[string]bool) *Shared {
	sh := &Shared{}
	for i := 0; i < 3; i++ {
		m := message(r, 300)
		m = append(m, byte(i)) // distinct
		sh.Msgs = append(sh.Msgs, spareBytes(r, m))
	}
	fail := func(what string, err error) {
		if err != nil {
			r.Fail("setup", "%s: %v", what, err)
		}
	}
	if fam["bls"] {
		r.MustDo(r.Base(), nil, "bls preparations", func() {
			for i := 0; i < 3; i++ {
				pk, sk, err := bls.GenKeyPair(nil)
				fail("GenKeyPair", err)
				sh.PK, sh.SK = append(sh.PK, pk), append(sh.SK, sk)
				s, err := bls.Sign(sk, pk, sh.Msgs[0])
				fail("Sign", err)
				sh.Sig = append(sh.Sig, s)
				u, err := bls.UnsafeSign(sk, sh.Msgs[i])
				fail("UnsafeSign", err)
				sh.USig = append(sh.USig, u)
				sh.ApkB = append(sh.ApkB, bls.NewApk(pk))
				g := new(bn256.G2)
				_, err = g.Unmarshal(pk.Marshal())
				fail("G2", err)
				sh.G2 = append(sh.G2, g)
				sh.PKB = append(sh.PKB, pk.Marshal())
				sh.SigB = append(sh.SigB, s.Marshal())
				sh.CompB = append(sh.CompB, s.Compress())
				tx, err := pk.MarshalText()
				fail("MarshalText", err)
				sh.TextB = append(sh.TextB, tx)
				sb, err := bls.Sign(sk, pk, sh.Msgs[i])
				fail("Sign", err)
				if i == 0 {
					sh.Agg, sh.BAgg = s.Copy(), sb
				} else {
					sh.Agg.Aggregate(s)
					sh.BAgg.Aggregate(sb)
				}
			}
			var err error
			sh.Apk, err = bls.AggregateApk(sh.PK)
			fail("AggregateApk", err)
			sh.UAgg, err = bls.UnsafeBatch(sh.USig...)
			fail("UnsafeBatch", err)
		})
	}
	if fam["rp"] {
		r.MustDo(r.Base(), nil, "range proof preparations", func() {
			for _, w := range fixedProofs() {
				w = append([]byte(nil), w...)
				var p rangeproof.Proof
				fail("Decode", p.Decode(bytes.NewReader(w), true))
				sh.RP, sh.RPWire = append(sh.RP, p), append(sh.RPWire, w)
				sh.Comms = append(sh.Comms, p.V...)
			}
		})
		sh.Label = spareBytes(r, append([]byte("label"), byte(r.Intn(250))))
	}
	if fam["mlsag"] {
		x := scalarStream(r.Seed())
		n := 1 + r.Intn(4)
		for i := 0; i < n; i++ {
			var k mlsag.PubKeys
			k.AddPubKey(ref.Base(x()))
			k.AddPubKey(ref.Base(x()))
			sh.Decoys = append(sh.Decoys, k)
		}
		for i := 0; i < 4; i++ {
			sh.Primary = append(sh.Primary, x())
		}
		r.MustDo(r.Base(), nil, "mlsag preparations", func() {
			for i := 0; i < 2; i++ {
				d := mlsag.NewDualKey()
				d.SetPrimaryKey(sh.Primary[2*i])
				d.SetCommToZero(sh.Primary[2*i+1])
				d.SetMsg(sh.Msgs[i])
				d.AddDecoys(sh.Decoys)
				s, img, err := d.Prove()
				fail("mlsag Prove", err)
				var b bytes.Buffer
				fail("mlsag Encode", s.Encode(&b, true))
				sh.MSig, sh.MImg, sh.MWire = append(sh.MSig, s), append(sh.MImg, img), append(sh.MWire, b.Bytes())
			}
		})
	}
	if fam["blsag"] {
		x := scalarStream(r.Seed())
		n := 1 + r.Intn(4)
		for i := 0; i < n; i++ {
			sh.Mixin = append(sh.Mixin, ref.Base(x()))
		}
		sh.Primary = append(sh.Primary, x())
		r.MustDo(r.Base(), nil, "blsag preparations", func() {
			for i := 0; i < 2; i++ {
				sh.BSig = append(sh.BSig, blsag.Sign(sh.Msgs[i], sh.Mixin, x()))
				sh.BMsg = append(sh.BMsg, sh.Msgs[i])
			}
		})
	}
	if fam["merkle"] {
		n := 1 + r.Intn(9)
		for i := 0; i < n; i++ {
			h := engine.Expand(r.Seed()|1, 32)
			sh.Payloads = append(sh.Payloads, &leafData{Text: []byte{byte(i)}, H: spareBytes(r, h)})
		}
		r.MustDo(r.Base(), nil, "merkle preparations", func() {
			t, err := merkletree.NewTree(sh.Payloads)
			fail("NewTree", err)
			sh.Tree = t
			t2, err := merkletree.NewTree(sh.Payloads[:1+len(sh.Payloads)/2])
			fail("NewTree", err)
			sh.Tree2 = t2
		})
	}
	return sh
}

// res collects the results of a call as text.
type res struct{ parts []string }

func (x *res) b(b []byte)  { x.parts = append(x.parts, hex.EncodeToString(b)) }
func (x *res) ok(v bool)   { x.parts = append(x.parts, fmt.Sprint(v)) }
func (x *res) e(err error) { x.parts = append(x.parts, fmt.Sprint("err=", err != nil)) }
func (x *res) sc(s Scalar) { x.b(s.Bytes()) }
func (x *res) pt(p Point) {
	if ref.Degenerate(&p) {
		x.parts = append(x.parts, "degenerate")
		return
	}
	x.b(p.Bytes())
}
func (x *res) String() string { return strings.Join(x.parts, " ") }

// Op is a call into the library.
type Op struct {
	Name string
	Fam  string
	Det  bool // result does not depend on randomness
	Cost int  // relative
	Run  func(sh *Shared, seed uint64, x *res)
}

func mod(seed uint64, n int) int { return int(seed % uint64(n)) }

var ops []*Op

func addOp(fam, name string, det bool, cost int, run func(sh *Shared, seed uint64, x *res)) {
	ops = append(ops, &Op{Name: name, Fam: fam, Det: det, Cost: cost, Run: run})
}

func treeDump(x *res, t *merkletree.Tree) {
	x.b(t.MerkleRoot)
	x.parts = append(x.parts, fmt.Sprint(len(t.Leaves)))
	for _, l := range t.Leaves {
		x.b(l.Hash)
	}
}

func init() {
	// --- bls
	B := func(name string, det bool, run func(sh *Shared, seed uint64, x *res)) {
		addOp("bls", "bls."+name, det, 1, run)
	}
	B("GenKeyPair", false, func(sh *Shared, seed uint64, x *res) {
		pk, _, err := bls.GenKeyPair(nil)
		x.e(err)
		x.b(pk.Marshal())
	})
	B("GenKeyPair(reader)", true, func(sh *Shared, seed uint64, x *res) {
		pk, sk, err := bls.GenKeyPair(engine.NewStream(seed, "key"))
		x.e(err)
		x.b(pk.Marshal())
		s, err := bls.UnsafeSign(sk, sh.Msgs[0])
		x.e(err)
		x.b(s.Marshal())
	})
	B("Sign", true, func(sh *Shared, seed uint64, x *res) {
		k := mod(seed, 3)
		s, err := bls.Sign(sh.SK[k], sh.PK[k], sh.Msgs[mod(seed>>8, 3)])
		x.e(err)
		x.b(s.Marshal())
	})
	B("UnsafeSign", true, func(sh *Shared, seed uint64, x *res) {
		s, err := bls.UnsafeSign(sh.SK[mod(seed, 3)], sh.Msgs[mod(seed>>8, 3)])
		x.e(err)
		x.b(s.Compress())
	})
	B("Verify", true, func(sh *Shared, seed uint64, x *res) {
		x.e(bls.Verify(sh.Apk, sh.Msgs[mod(seed, 2)], sh.Agg))
	})
	B("Verify single", true, func(sh *Shared, seed uint64, x *res) {
		x.e(bls.Verify(sh.ApkB[mod(seed, 3)], sh.Msgs[0], sh.Sig[mod(seed>>4, 3)]))
	})
	B("VerifyBatch", true, func(sh *Shared, seed uint64, x *res) {
		x.e(bls.VerifyBatch(sh.ApkB, sh.Msgs, sh.BAgg))
	})
	B("VerifyUnsafe", true, func(sh *Shared, seed uint64, x *res) {
		k := mod(seed, 3)
		x.e(bls.VerifyUnsafe(sh.PK[k], sh.Msgs[k], sh.USig[mod(seed>>4, 3)]))
	})
	B("VerifyUnsafeBatch", true, func(sh *Shared, seed uint64, x *res) {
		x.e(bls.VerifyUnsafeBatch(sh.PK, sh.Msgs, sh.UAgg))
	})
	B("VerifyCompressed", true, func(sh *Shared, seed uint64, x *res) {
		c := sh.UAgg.Compress()
		x.b(c)
		x.e(bls.VerifyCompressed(sh.G2, sh.Msgs, c, seed&1 == 0))
	})
	B("NewApk", true, func(sh *Shared, seed uint64, x *res) { x.b(bls.NewApk(sh.PK[mod(seed, 3)]).Marshal()) })
	B("AggregateApk", true, func(sh *Shared, seed uint64, x *res) {
		a, err := bls.AggregateApk(sh.PK)
		x.e(err)
		x.b(a.Marshal())
	})
	B("Apk.Copy+Aggregate", true, func(sh *Shared, seed uint64, x *res) {
		a := sh.Apk.Copy()
		x.e(a.Aggregate(sh.PK[mod(seed, 3)]))
		x.e(a.AggregateBytes(sh.PKB[mod(seed>>4, 3)]))
		x.b(a.Marshal())
		x.b(sh.Apk.Marshal())
	})
	B("PublicKey.Aggregate", true, func(sh *Shared, seed uint64, x *res) {
		x.b(sh.PK[mod(seed, 3)].Aggregate(sh.PK[mod(seed>>4, 3)]).Marshal())
	})
	B("PublicKey marshal", true, func(sh *Shared, seed uint64, x *res) {
		k := mod(seed, 3)
		x.b(sh.PK[k].Marshal())
		t, err := sh.PK[k].MarshalText()
		x.e(err)
		x.b(t)
		x.b(sh.Apk.Marshal())
	})
	B("PublicKey unmarshal", true, func(sh *Shared, seed uint64, x *res) {
		k := mod(seed, 3)
		pk, err := bls.UnmarshalPk(sh.PKB[k])
		x.e(err)
		x.b(pk.Marshal())
		x.e(pk.UnmarshalText(sh.TextB[mod(seed>>4, 3)]))
		x.b(pk.Marshal())
		a, err := bls.UnmarshalApk(sh.PKB[k])
		x.e(err)
		x.b(a.Marshal())
	})
	B("Signature.Copy+Aggregate", true, func(sh *Shared, seed uint64, x *res) {
		s := sh.Sig[mod(seed, 3)].Copy()
		s.Aggregate(sh.Sig[mod(seed>>4, 3)])
		x.e(s.AggregateBytes(sh.SigB[mod(seed>>8, 3)]))
		x.e(s.AggregateBytes(sh.CompB[mod(seed>>12, 3)]))
		x.e(s.Add(sh.PK[mod(seed>>16, 3)], sh.USig[mod(seed>>20, 3)]))
		x.b(s.Marshal())
	})
	B("Signature encode", true, func(sh *Shared, seed uint64, x *res) {
		k := mod(seed, 3)
		x.b(sh.Sig[k].Marshal())
		x.b(sh.Sig[k].Compress())
		x.b(sh.Agg.Marshal())
		x.b(sh.USig[k].Compress())
		x.b(sh.USig[k].Marshal())
	})
	B("Signature decode", true, func(sh *Shared, seed uint64, x *res) {
		s, err := bls.UnmarshalSignature(sh.SigB[mod(seed, 3)])
		x.e(err)
		x.b(s.Marshal())
		x.e(s.Decompress(sh.CompB[mod(seed>>4, 3)]))
		x.b(s.Marshal())
		u := &bls.UnsafeSignature{}
		x.e(u.Unmarshal(sh.SigB[mod(seed>>8, 3)]))
		x.b(u.Marshal())
	})
	B("UnsafeBatch", true, func(sh *Shared, seed uint64, x *res) {
		u, err := bls.UnsafeBatch(sh.USig[:1+mod(seed, 3)]...)
		x.e(err)
		x.b(u.Marshal())
		x.b(bls.UnsafeAggregate(u, sh.USig[2]).Marshal())
	})
	// --- range proofs
	P := func(name string, det bool, cost int, run func(sh *Shared, seed uint64, x *res)) {
		addOp("rp", "rangeproof."+name, det, cost, run)
	}
	prove := func(m int) func(sh *Shared, seed uint64, x *res) {
		return func(sh *Shared, seed uint64, x *res) {
			v := make([]Scalar, m)
			for i := range v {
				v[i] = u64Scalar(seed * uint64(2*i+1))
			}
			p, err := rangeproof.Prove(v, seed&3 == 0)
			x.e(err)
			var b bytes.Buffer
			if err == nil {
				x.e(p.Encode(&b, true))
			}
			x.b(b.Bytes())
		}
	}
	P("Prove(1)", false, 12, prove(1))
	P("Prove(2)", false, 22, prove(2))
	P("Prove(0)", true, 1, prove(0))
	P("Verify", true, 4, func(sh *Shared, seed uint64, x *res) {
		ok, err := rangeproof.Verify(sh.RP[mod(seed, 3)])
		x.ok(ok)
		x.e(err)
	})
	P("Verify(4)", true, 8, func(sh *Shared, seed uint64, x *res) {
		ok, err := rangeproof.Verify(sh.RP[3])
		x.ok(ok)
		x.e(err)
	})
	P("Verify damaged", true, 4, func(sh *Shared, seed uint64, x *res) {
		p := sh.RP[mod(seed, 3)]
		q := sh.RP[mod(seed+1, 3)]
		p.A = q.A
		ok, err := rangeproof.Verify(p)
		x.ok(ok)
		x.e(err)
	})
	P("Encode+Equals", true, 1, func(sh *Shared, seed uint64, x *res) {
		k := mod(seed, 4)
		var b, c bytes.Buffer
		x.e(sh.RP[k].Encode(&b, true))
		x.e(sh.RP[k].Encode(&c, false))
		x.b(b.Bytes())
		x.b(c.Bytes())
		for i := range sh.RP {
			x.ok(sh.RP[k].Equals(sh.RP[i], true))
			x.ok(sh.RP[k].IPProof.Equals(*sh.RP[i].IPProof))
		}
		x.ok(sh.Comms[k].EqualValue(sh.Comms[mod(seed>>8, len(sh.Comms))]))
	})
	P("Decode", true, 1, func(sh *Shared, seed uint64, x *res) {
		k := mod(seed, 4)
		var p rangeproof.Proof
		x.e(p.Decode(bytes.NewReader(sh.RPWire[k]), true))
		var b bytes.Buffer
		x.e(p.Encode(&b, true))
		x.b(b.Bytes())
	})
	P("Commitments", true, 1, func(sh *Shared, seed uint64, x *res) {
		var b bytes.Buffer
		x.e(pedersen.EncodeCommitments(&b, sh.Comms))
		x.b(b.Bytes())
		c, err := pedersen.DecodeCommitments(bytes.NewReader(b.Bytes()))
		x.e(err)
		x.ok(len(c) == len(sh.Comms))
		for i := range c {
			x.pt(c[i].Value)
		}
	})
	P("CommitToScalar", false, 1, func(sh *Shared, seed uint64, x *res) {
		ped := pedersen.New(sh.Label)
		for i := 0; i < 3; i++ {
			c := ped.CommitToScalar(u64Scalar(seed + uint64(i)))
			x.pt(c.Value)
			x.sc(c.BlindingFactor)
		}
	})
	P("CommitToVectors", false, 2, func(sh *Shared, seed uint64, x *res) {
		ped := pedersen.New(sh.Label)
		rnd := scalarStream(seed)
		var vs [][]Scalar
		for i := 0; i < 1+mod(seed, 3); i++ {
			var v []Scalar
			for j := 0; j < 1+mod(seed>>8, 5); j++ {
				v = append(v, rnd())
			}
			vs = append(vs, v)
		}
		for i := 0; i < 2; i++ {
			c := ped.CommitToVectors(vs...)
			x.pt(c.Value)
			x.sc(c.BlindingFactor)
		}
	})
	P("Generator", true, 1, func(sh *Shared, seed uint64, x *res) {
		g := generator.New(sh.Label)
		g.Compute(uint32(1 + mod(seed, 7)))
		for i := range g.Bases {
			x.pt(g.Bases[i])
		}
	})
	P("InnerProduct", true, 4, func(sh *Shared, seed uint64, x *res) {
		n := 1 << uint(1+mod(seed, 3))
		rnd := scalarStream(seed)
		var G, H []Point
		var a, b, f []Scalar
		c := ref.S(0)
		for i := 0; i < n; i++ {
			G, H = append(G, ref.Base(rnd())), append(H, ref.Base(rnd()))
			a, b, f = append(a, rnd()), append(b, rnd()), append(f, rnd())
			c = ref.Add(c, ref.Mul(a[i], b[i]))
		}
		Q := ref.Base(rnd())
		p, err := innerproduct.Generate(G, H, a, b, f, Q)
		x.e(err)
		var w bytes.Buffer
		x.e(p.Encode(&w))
		x.b(w.Bytes())
		pt := ref.PMul(Q, c)
		for i := 0; i < n; i++ {
			pt = ref.PAdd(pt, ref.PAdd(ref.PMul(G[i], a[i]), ref.PMul(H[i], ref.Mul(b[i], f[i]))))
		}
		x.ok(p.Verify(G, H, p.L, p.R, f, Q, pt, n))
		x.ok(p.Verify(G, H, p.L, p.R, f, Q, ref.PAdd(pt, Q), n))
	})
	P("BitCommit", true, 1, func(sh *Shared, seed uint64, x *res) {
		bc := rangeproof.BitCommit(new(big.Int).SetUint64(seed))
		for i := range bc.AL {
			x.sc(bc.AL[i])
			x.sc(bc.AR[i])
		}
		x.e(bc.Debug(new(big.Int).SetUint64(seed)))
	})
	// --- mlsag
	M := func(name string, det bool, cost int, run func(sh *Shared, seed uint64, x *res)) {
		addOp("mlsag", "mlsag."+name, det, cost, run)
	}
	M("Prove", false, 2, func(sh *Shared, seed uint64, x *res) {
		d := mlsag.NewDualKey()
		p := d.SetPrimaryKey(sh.Primary[mod(seed, 4)])
		x.pt(p)
		q := d.SetCommToZero(sh.Primary[mod(seed>>4, 4)])
		x.pt(q)
		d.SetMsg(sh.Msgs[mod(seed>>8, 3)])
		d.AddDecoys(sh.Decoys)
		if seed>>12&1 == 1 {
			d.SubCommToZero(q)
		}
		s, img, err := d.Prove()
		x.e(err)
		if err != nil {
			return
		}
		var b bytes.Buffer
		x.e(s.Encode(&b, true))
		x.b(b.Bytes())
		x.pt(img)
		ok, err := s.Verify([]Point{img})
		x.ok(ok)
		x.e(err)
	})
	M("Verify", true, 1, func(sh *Shared, seed uint64, x *res) {
		ok, err := sh.MSig[mod(seed, 2)].Verify([]Point{sh.MImg[mod(seed>>4, 2)]})
		x.ok(ok)
		x.e(err)
	})
	M("Encode+Equals", true, 1, func(sh *Shared, seed uint64, x *res) {
		for _, s := range sh.MSig {
			var b bytes.Buffer
			x.e(s.Encode(&b, seed&1 == 0))
			x.b(b.Bytes())
			x.ok(s.Equals(*sh.MSig[mod(seed, 2)], true))
		}
		x.ok(sh.Decoys[0].Equals(sh.Decoys[len(sh.Decoys)-1]))
	})
	M("Decode", true, 1, func(sh *Shared, seed uint64, x *res) {
		var s mlsag.Signature
		x.e(s.Decode(bytes.NewReader(sh.MWire[mod(seed, 2)]), true))
		s.Msg = sh.Msgs[mod(seed, 2)]
		var b bytes.Buffer
		x.e(s.Encode(&b, true))
		x.b(b.Bytes())
		ok, err := s.Verify([]Point{sh.MImg[mod(seed, 2)]})
		x.ok(ok)
		x.e(err)
	})
	M("CalculateKeyImage", true, 1, func(sh *Shared, seed uint64, x *res) {
		k := sh.Primary[mod(seed, 4)]
		x.pt(mlsag.CalculateKeyImage(k, ref.Base(k)))
	})
	// --- blsag
	addOp("blsag", "blsag.Sign", false, 1, func(sh *Shared, seed uint64, x *res) {
		s := blsag.Sign(sh.Msgs[mod(seed, 3)], sh.Mixin, sh.Primary[len(sh.Primary)-1])
		x.pt(s.I)
		x.sc(s.C)
		for i := range s.S {
			x.sc(s.S[i])
		}
		for i := range s.PubKeys {
			x.pt(s.PubKeys[i])
		}
		x.ok(blsag.Verify(sh.Msgs[mod(seed, 3)], s))
	})
	addOp("blsag", "blsag.Verify", true, 1, func(sh *Shared, seed uint64, x *res) {
		x.ok(blsag.Verify(sh.BMsg[mod(seed, 2)], sh.BSig[mod(seed>>4, 2)]))
	})
	// --- merkle
	K := func(name string, run func(sh *Shared, seed uint64, x *res)) {
		addOp("merkle", "merkletree."+name, true, 1, run)
	}
	K("NewTree", func(sh *Shared, seed uint64, x *res) {
		t, err := merkletree.NewTree(sh.Payloads[:1+mod(seed, len(sh.Payloads))])
		x.e(err)
		treeDump(x, t)
	})
	K("VerifyTree", func(sh *Shared, seed uint64, x *res) {
		ok, err := merkletree.VerifyTree(sh.Tree)
		x.ok(ok)
		x.e(err)
		ok, err = merkletree.VerifyTree(sh.Tree2)
		x.ok(ok)
		x.e(err)
	})
	K("VerifyContent", func(sh *Shared, seed uint64, x *res) {
		ok, err := sh.Tree2.VerifyContent(sh.Payloads[mod(seed, len(sh.Payloads))])
		x.ok(ok)
		x.e(err)
		ok, err = sh.Tree.VerifyContent(&leafData{H: engine.Expand(seed|1, 32)})
		x.ok(ok)
		x.e(err)
	})
	K("Rebuild", func(sh *Shared, seed uint64, x *res) {
		t, err := merkletree.NewTree(sh.Payloads)
		x.e(err)
		x.e(t.RebuildTreeUsing(sh.Payloads[mod(seed, len(sh.Payloads)):]))
		x.e(t.RebuildTree())
		treeDump(x, t)
	})
	K("NodeHash", func(sh *Shared, seed uint64, x *res) {
		h, err := merkletree.VerifyNode(sh.Tree.Root)
		x.b(h)
		x.e(err)
		h, err = merkletree.CalculateNodeHash(sh.Tree.Root)
		x.b(h)
		x.e(err)
	})
	// --- hash
	H := func(name string, f func([]byte) ([]byte, error)) {
		addOp("hash", "hash."+name, true, 1, func(sh *Shared, seed uint64, x *res) {
			d, err := f(sh.Msgs[mod(seed, 3)])
			e, err2 := f(engine.Expand(seed, mod(seed>>8, 400)))
			x.b(d)
			x.e(err)
			x.b(e)
			x.e(err2)
		})
	}
	H("Blake2b256", hash.Blake2b256)
	H("Blake2b512", hash.Blake2b512)
	H("Sha3256", hash.Sha3256)
	H("Sha3512", hash.Sha3512)
	H("Xxhash", hash.Xxhash)
	addOp("hash", "hash.Checksum", true, 1, func(sh *Shared, seed uint64, x *res) {
		c, err := hash.Checksum(sh.Msgs[mod(seed, 3)])
		x.parts = append(x.parts, fmt.Sprint(c))
		x.e(err)
		x.ok(hash.CompareChecksum(sh.Msgs[mod(seed>>4, 3)], c))
	})
	addOp("hash", "hash.RandEntropy", false, 1, func(sh *Shared, seed uint64, x *res) {
		b, err := hash.RandEntropy(uint32(mod(seed, 100)))
		x.b(b)
		x.e(err)
	})
}

func opFamilies() []string {
	m := map[string]bool{}
	for _, o := range ops {
		m[o.Fam] = true
	}
	var l []string
	for f := range m {
		l = append(l, f)
	}
	sort.Strings(l)
	return l
}

func opsOf(fams map[string]bool) []*Op {
	var l []*Op
	for _, o := range ops {
		if fams[o.Fam] {
			l = append(l, o)
		}
	}
	return l
}
