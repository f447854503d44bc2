package props

import (
	"bytes"
	"fmt"
	"math"
	"math/big"
	"time"

	ristretto "github.com/bwesterb/go-ristretto"
	"github.com/dusk-network/dusk-crypto/mlsag"
	"github.com/dusk-network/dusk-crypto/ringsig/blsag"

	"verif.local/sim/ref"
)

func init() {
	register(&Property{
		ID: "C10", Quick: 200, Thorough: 8000,
		Rule:     "Each seeded run makes 60-400 signatures with one scheme and ring size while the clock is frozen, steps regularly, jumps, or the process restarts before every signature with the same process-wide random state; places, consecutive places and places against published values must be uniform (chi-square, threshold beyond 1e-12), responses must be distinct, non-zero, full-size and equally distributed for signer and decoys. Twenty of 200 runs count the places of 3,000 to 100,000 signatures each, made with a fast stand-in for the group arithmetic.",
		Assume:   []string{"a uniform place is rejected by the statistical tests with probability below 1e-9 per check execution"},
		Scenario: c10,
	})
}

// uneven tells if counts with equal expectations are not credible.
func uneven(counts []int) (bool, string) {
	n := 0
	for _, c := range counts {
		n += c
	}
	k := len(counts)
	if k < 2 {
		return false, ""
	}
	e := float64(n) / float64(k)
	if e >= 12 {
		x := 0.0
		for _, c := range counts {
			x += (float64(c) - e) * (float64(c) - e) / e
		}
		df := float64(k - 1)
		if lim := df + 8*math.Sqrt(2*df) + 40; x > lim {
			return true, fmt.Sprintf("chi-square %.0f (limit %.0f), counts %v", x, lim, counts)
		}
		return false, ""
	}
	// few samples: no single place may dominate
	for i, c := range counts {
		// k * C(n,c) / k^c
		lg, _ := math.Lgamma(float64(n + 1))
		lc, _ := math.Lgamma(float64(c + 1))
		ln, _ := math.Lgamma(float64(n - c + 1))
		p := math.Log(float64(k)) + lg - lc - ln - float64(c)*math.Log(float64(k))
		if c > 0 && p < -30 {
			return true, fmt.Sprintf("place %d occurs %d times in %d", i, c, n)
		}
	}
	return false, ""
}

// ks tells if counts cannot come from equally likely places in their order.
func ks(counts []int) (bool, string) {
	n, k := 0, len(counts)
	for _, c := range counts {
		n += c
	}
	d, sum := 0.0, 0
	for i, c := range counts {
		sum += c
		if x := math.Abs(float64(sum)/float64(n) - float64(i+1)/float64(k)); x > d {
			d = x
		}
	}
	// P(D > d) < 2 exp(-2 n d^2)
	if e := 2 * float64(n) * d * d; e > 24 { // p below 1e-10
		return true, fmt.Sprintf("the distribution of %d places over %d departs by %.3f", n, k, d)
	}
	return false, ""
}

// bitSkew finds a bit that is not equally often set and clear. Bits above 2^248 are left out,
// as the group order is not a power of two.
func bitSkew(bits []int, n int) (bool, string) {
	if n < 100 {
		return false, ""
	}
	for i, c := range bits {
		if x := math.Abs(float64(c)-float64(n)/2) / math.Sqrt(float64(n)/4); x > 9 {
			return true, fmt.Sprintf("bit %d is set in %d of %d", i, c, n)
		}
	}
	return false, ""
}

type c10stat struct {
	sigBits []int
	decBits []int
	nSig    int
	nDec    int
	rel     map[string]bool
	n       int
	pos     []int
	seenR   map[string]string
	sigTop  []int
	decTop  []int
	sigPar  []int
	decPar  []int
	withC   []int
	withS   []int
	posHist []int
}

func (st *c10stat) response(r *Run, s Scalar, who string) {
	t := hx2(s.Bytes())
	r.Checks++
	if old, ok := st.seenR[t]; ok {
		r.Fail("repeated-response", "a %s response equals a %s response", who, old)
	}
	st.seenR[t] = who
	v := s.BigInt()
	w := new(big.Int).Sub(ref.Ell, v)
	if v.BitLen() < 180 || w.BitLen() < 180 {
		r.Fail("degenerate-response", "a %s response is %s: not a random scalar", who, t)
	}
	top := new(big.Int).Mul(v, big.NewInt(8))
	top.Div(top, ref.Ell)
	k := int(top.Int64())
	bits := st.sigBits
	if who == "signer" {
		st.sigTop[k]++
		st.sigPar[v.Bit(0)]++
		st.nSig++
	} else {
		st.decTop[k]++
		st.decPar[v.Bit(0)]++
		st.nDec++
		bits = st.decBits
	}
	for i := range bits {
		bits[i] += int(v.Bit(i))
	}
}

// relations looks for a relation between the responses of a member that others share.
func (st *c10stat) relations(r *Run, l []Scalar) {
	if len(l) < 2 {
		return
	}
	a, b := l[0], l[1]
	r.Checks++
	for _, d := range []Scalar{ref.HashS(a.Bytes()), ref.Add(a, a), ref.Mul(a, a), ref.Inv(a)} {
		if d.Equals(&b) {
			r.Fail("related-responses", "a member's second response is a function of its first")
		}
	}
	for i, d := range []Scalar{ref.Sub(b, a), ref.Add(b, a), ref.Mul(b, ref.Inv(a))} {
		k := fmt.Sprint(i, hx2(d.Bytes()))
		if st.rel[k] {
			r.Fail("related-responses", "two members' responses are related in the same way")
		}
		st.rel[k] = true
	}
}

func smod(s Scalar, n int) int {
	return int(new(big.Int).Mod(s.BigInt(), big.NewInt(int64(n))).Int64())
}

// add registers a signature: challenge, responses per member, ring, the signer's keys.
func (st *c10stat) add(r *Run, c Scalar, resp [][]Scalar, ring [][]Point, own []Point) {
	pos := -1
	for i := range ring {
		if memberText(ring[i]) == memberText(own) {
			r.Check(pos < 0, "ring-altered", "the signer occurs twice in the ring")
			pos = i
		}
	}
	r.Check(pos >= 0, "ring-altered", "the signer is not in the ring")
	st.pos[pos]++
	st.posHist = append(st.posHist, pos)
	st.withC[pos*st.n+smod(c, st.n)]++
	st.withS[pos*st.n+smod(resp[0][0], st.n)]++
	st.response(r, c, "challenge")
	for i := range resp {
		if st.n < 40 {
			st.relations(r, resp[i])
		}
		for j := range resp[i] {
			who := "decoy"
			if i == pos {
				who = "signer"
			}
			st.response(r, resp[i][j], who)
		}
	}
}

func (st *c10stat) judge(r *Run, what string) {
	test := func(kind string, c []int) {
		r.Checks++
		if bad, t := uneven(c); bad {
			r.Fail(kind, "%s: %s", what, t)
		}
	}
	test("predictable-place", st.pos)
	if st.n <= 4 {
		pairs := make([]int, st.n*st.n)
		for i := 1; i < len(st.posHist); i++ {
			pairs[st.posHist[i-1]*st.n+st.posHist[i]]++
		}
		test("predictable-place-sequence", pairs)
		test("place-depends-on-challenge", st.withC)
		test("place-depends-on-response", st.withS)
	}
	test("uneven-signer-responses", st.sigTop)
	test("uneven-signer-responses", st.sigPar)
	test("uneven-decoy-responses", st.decTop)
	test("uneven-decoy-responses", st.decPar)
	r.Checks += 3
	if bad, t := ks(st.pos); bad {
		r.Fail("predictable-place", "%s: %s", what, t)
	}
	if bad, t := bitSkew(st.sigBits, st.nSig); bad {
		r.Fail("uneven-signer-responses", "%s: %s", what, t)
	}
	if bad, t := bitSkew(st.decBits, st.nDec); bad {
		r.Fail("uneven-decoy-responses", "%s: %s", what, t)
	}
}

// c10places makes very many signatures with the group arithmetic replaced by a stand-in
// (the signatures are worthless, the places in them are not): small departures from equal
// frequencies, as a place taken modulo a few random bits has, need large numbers.
func c10places(r *Run, k int) {
	scheme := k % 2
	n := []int{3, 5, 6, 7, 11, 13, 20, 45, 100, 180}[(k/2)%10]
	if n > 3 && r.Bool(1, 2) {
		n += r.Intn(n/6 + 2)
	}
	work := 700000
	if r.Tier == "thorough" && k != 18 {
		work *= 4
	}
	if k == 18 { // enough to see a shuffle by single bytes
		n, work = 200+r.Intn(4), work*18
	}
	count := work / (n + 4)
	defer func() { ristretto.VerifCheap = false }()
	what := fmt.Sprintf("%s, ring of %d, %d signatures", []string{"mlsag", "blsag"}[scheme], n, count)
	rnd := scalarStream(r.Seed())
	var ring [][]Point
	var mx []Point
	for i := 0; i < n-1; i++ {
		m := []Point{ref.Base(rnd()), ref.Base(rnd())}
		ring, mx = append(ring, m), append(mx, m[0])
	}
	var base Point
	base.SetBase()
	own := libRing([][]Point{{base, base}})[0]
	lib := libRing(ring)
	x, z := rnd(), rnd()
	ristretto.VerifCheap = true
	node := r.NewNode()
	r.SetBoot(node, 1)
	if r.Bool(1, 2) {
		r.Freeze(node)
	}
	restart := r.Bool(1, 2)
	pos, pairs := make([]int, n), make([]int, n*n)
	last, unfit := -1, false
	for done := 0; done < count && !unfit; {
		if restart {
			r.Restart(node)
			r.SetBoot(node, 1)
		}
		r.MustDo(node, nil, "signing", func() {
			for i := 0; i < 40; i++ {
				at, found := -1, 0
				if scheme == 0 {
					d := mlsag.NewDualKey()
					d.SetPrimaryKey(x)
					d.SetCommToZero(z)
					d.SetMsg([]byte("m"))
					d.AddDecoys(lib)
					sig, _, err := d.Prove()
					if err != nil || len(sig.PubKeys) != n {
						unfit = true
						return
					}
					for j := range sig.PubKeys {
						if sig.PubKeys[j].Equals(own) {
							at = j
							found++
						}
					}
				} else {
					sig := blsag.Sign([]byte("m"), mx, x)
					if len(sig.PubKeys) != n {
						unfit = true
						return
					}
					for j := range sig.PubKeys {
						if sig.PubKeys[j] == base {
							at = j
							found++
						}
					}
				}
				if found != 1 {
					unfit = true
					return
				}
				pos[at]++
				if last >= 0 {
					pairs[last*n+at]++
				}
				last = at
				done++
			}
		})
	}
	if unfit { // the changed code notices the stand-in: nothing can be said here
		r.Note("stand-in-unfit")
		return
	}
	r.Note("places-with-stand-in-arithmetic")
	r.Checks += count
	r.Tracef("%s", what)
	if bad, t := uneven(pos); bad {
		r.Fail("predictable-place", "%s: %s", what, t)
	}
	if bad, t := ks(pos); bad {
		r.Fail("predictable-place", "%s: %s", what, t)
	}
	if bad, t := uneven(pairs); bad {
		r.Fail("predictable-place-sequence", "%s: %s", what, t)
	}
}

func c10(r *Run, idx int) {
	if k := idx % 200; k < 20 {
		c10places(r, (38-k)%20)
		return
	}
	scheme := r.Intn(2)
	n, count := 0, 0
	switch r.Weighted(4, 4, 2, 1) {
	case 0:
		n, count = 2, 200
	case 1:
		n, count = 3, 300
	case 2:
		n, count = 4+r.Intn(3), 330
	default:
		n, count = 7+r.Intn(30), 50
	}
	if r.Tier == "thorough" {
		count *= 2
	}
	// a few runs with many places: there, a place taken modulo a few random bits shows
	switch big := idx%200 - 20; {
	case big == 0 || big == 1:
		scheme, n, count = big, 176+r.Intn(10), 80
	case big == 2:
		scheme, n, count = 1, 102+r.Intn(6), 150
	}
	x, z := secret(r), secret(r)
	own := []Point{ref.Base(x), ref.Base(z)}
	if scheme == 1 {
		own = own[:1]
	}
	mk := func() [][]Point {
		rnd := scalarStream(r.Seed())
		var l [][]Point
		for i := 0; i < n-1; i++ {
			m := []Point{ref.Base(rnd()), ref.Base(rnd())}
			if scheme == 1 {
				m = m[:1]
			}
			l = append(l, m)
		}
		switch r.Intn(3) { // order of the decoys
		case 1:
			sortMembers(l, false)
		case 2:
			sortMembers(l, true)
		}
		return l
	}
	ring := mk()
	fixedRing := r.Bool(2, 3) || n > 40
	fixedMsg := r.Bool(2, 3)
	msg := message(r, 200)
	clockMode := r.Intn(4) // frozen, fixed steps, running, jumping
	restartMode := r.Weighted(2, 2, 1)
	concurrent := r.Bool(1, 3)
	if n > 80 {
		concurrent, restartMode = false, 2
	}
	node := r.NewNode()
	r.SetBoot(node, 1)
	step := []time.Duration{0, 1, time.Microsecond, time.Millisecond, time.Second}[r.Intn(5)]
	if clockMode <= 1 {
		r.Freeze(node)
	}
	st := &c10stat{n: n, pos: make([]int, n), seenR: map[string]string{}, sigTop: make([]int, 8), decTop: make([]int, 8), sigPar: make([]int, 2), decPar: make([]int, 2), withC: make([]int, n*n), withS: make([]int, n*n), sigBits: make([]int, 248), decBits: make([]int, 248), rel: map[string]bool{}}
	what := fmt.Sprintf("%s, ring of %d, clock mode %d, restart mode %d", []string{"mlsag", "blsag"}[scheme], n, clockMode, restartMode)
	r.Note([]string{"mlsag", "blsag"}[scheme])
	r.Tracef("%s", what)
	spawn := func() (func(), func()) {
		if !fixedRing {
			ring = mk()
		}
		if !fixedMsg {
			msg = message(r, 200)
		}
		m, rg := msg, ring
		if scheme == 0 {
			lib := libRing(rg)
			var b bytes.Buffer
			var err error
			return func() {
					d := mlsag.NewDualKey()
					d.SetPrimaryKey(x)
					d.SetCommToZero(z)
					d.SetMsg(m)
					d.AddDecoys(lib)
					var sig *mlsag.Signature
					sig, _, err = d.Prove()
					if err == nil {
						err = sig.Encode(&b, true)
					}
				}, func() {
					r.Check(err == nil, "sign-failed", "signing failed: %s", errStr(err))
					p, _, perr := ref.ParseMLSAG(b.Bytes(), true)
					r.Check(perr == nil, "bad-encoding", "encoding cannot be read: %s", errStr(perr))
					r.Check(multiset(append(append([][]Point(nil), rg...), own)) == multiset(p.Keys), "ring-altered", "ring members are not carried unmodified")
					st.add(r, p.C, p.R, p.Keys, own)
				}
		}
		var mx []Point
		for _, l := range rg {
			mx = append(mx, l[0])
		}
		var sig blsag.RingSignature
		return func() { sig = blsag.Sign(m, mx, x) }, func() {
			var ks [][]Point
			var rs [][]Scalar
			for i := range sig.PubKeys {
				ks = append(ks, []Point{sig.PubKeys[i]})
			}
			for i := range sig.S {
				rs = append(rs, []Scalar{sig.S[i]})
			}
			r.Check(len(ks) == len(rs), "ring-altered", "%d responses for %d keys", len(rs), len(ks))
			r.Check(multiset(append(append([][]Point(nil), rg...), own)) == multiset(ks), "ring-altered", "ring members are not carried unmodified")
			st.add(r, sig.C, rs, ks, own)
		}
	}
	for i := 0; i < count; {
		if restartMode == 1 || (restartMode == 2 && i%8 == 0) {
			r.Restart(node)
			r.SetBoot(node, 1) // an unseeded process-wide generator starts the same way each time
		}
		if clockMode == 1 {
			r.Jump(node, step)
		}
		if clockMode == 3 && i%16 == 0 {
			r.Jump(node, clockJump(r))
		}
		if concurrent {
			s := r.NewSched()
			var after []func()
			for k := 0; k < 3; k++ {
				fn, done := spawn()
				t := s.Spawn(node, "sign", nil, fn)
				after = append(after, func() {
					taskPanic(r, t, "signing")
					done()
				})
			}
			// a few switches are enough: cheap runs
			for k := 0; k < 12 && s.Step(); k++ {
			}
			for _, t := range s.Live() {
				_ = t
			}
			s.Run()
			s.Close()
			for _, f := range after {
				f()
			}
			i += 3
			continue
		}
		fn, done := spawn()
		r.MustDo(node, nil, "signing", fn)
		done()
		i++
	}
	st.judge(r, what)
}

func sortMembers(l [][]Point, desc bool) {
	for i := range l {
		for j := i + 1; j < len(l); j++ {
			if (memberText(l[i]) > memberText(l[j])) != desc {
				l[i], l[j] = l[j], l[i]
			}
		}
	}
}
