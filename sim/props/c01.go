package props

import (
	"bytes"

	"github.com/dusk-network/dusk-crypto/rangeproof"
)

func init() {
	register(&Property{
		ID: "C01", Quick: 720, Thorough: 12000,
		Rule:     "Seeded worlds of 1-3 nodes proving lists of 0-20 values in interleaved calls, sending encoded and in-memory proofs over a lossy, duplicating, reordering, partitioned network, restarting mid-call; every delivered proof must be accepted.",
		Scenario: c01,
	})
}

// provableCount draws the length of a list of values; long lists are expensive.
func provableCount(r *Run, budget *int) int {
	var m int
	switch r.Weighted(9, 7, 5, 3, 1, 2) {
	case 0:
		m = 1
	case 1:
		m = 2
	case 2:
		m = 3 + r.Intn(2)
	case 3:
		m = 0
		if r.Bool(1, 2) {
			m = 17 + r.Intn(4)
			if r.Bool(1, 4) {
				v, _ := dictInt(r)
				m = 17 + int(v%200)
			}
		}
	case 4:
		m = 5 + r.Intn(4)
	case 5:
		m = 9 + r.Intn(8)
	}
	cost := 1
	for cost < m {
		cost *= 2
	}
	if m > 16 {
		cost = 0
	}
	if cost > *budget {
		m, cost = 1, 1
	}
	*budget -= cost
	return m
}

type c01proof struct {
	vals    []uint64
	wire    []byte // with commitments
	bare    []byte // without
	proof   rangeproof.Proof
	from    int
	okBy    map[int]bool
	pending map[int]bool
}

func c01(r *Run, idx int) {
	nodes := []*Node{}
	for i, n := 0, 1+r.Intn(3); i < n; i++ {
		nodes = append(nodes, r.NewNode())
	}
	clocks(r, nodes...)
	net := newNet(r)
	s := r.NewSched()
	budget := []int{4, 18, 9}[r.Weighted(9, 1, 3)]
	todo := 1 + r.Intn(3) + budget/9
	verifies := 0
	live := func() int { return len(s.Live()) }

	startProve := func() {
		n := nodes[r.Intn(len(nodes))]
		m := provableCount(r, &budget)
		vals := make([]uint64, m)
		in := make([]Scalar, m, m+r.Intn(3)*8)
		rep := r.Weighted(4, 1, 2, 1) // distinct, all equal, runs of equal values, any earlier value
		for i := range vals {
			vals[i] = amount(r)
			switch {
			case i == 0:
			case rep == 1, rep == 2 && r.Bool(1, 2):
				vals[i] = vals[i-1]
			case rep == 3 && r.Bool(1, 2):
				vals[i] = vals[r.Intn(i)]
			}
			in[i] = u64Scalar(vals[i])
		}
		debug := r.Bool(1, 4)
		r.Tracef("node %d proves %v debug=%v", n.ID, vals, debug)
		var p rangeproof.Proof
		var err error
		var wire, bare bytes.Buffer
		var e1, e2 error
		ent := r.Entropy()
		if r.Bool(1, 6) {
			ent.Short = true
			r.Fault("entropy-short-read")
		}
		t := s.Spawn(n, "prove", ent, func() {
			p, err = rangeproof.Prove(in, debug)
			if err == nil {
				e1 = p.Encode(&wire, true)
				e2 = p.Encode(&bare, false)
			}
		})
		s.PlanSites(t, sitesIn("rangeproof/"))
		t.OnDone = func() {
			if t.Killed {
				return
			}
			taskPanic(r, t, "Prove")
			if m == 0 || m > 16 {
				r.Note("refused-size")
				r.Check(err != nil, "size-accepted", "Prove accepted %d values", m)
				return
			}
			r.Check(err == nil, "prove-failed", "Prove(%v, debug=%v) failed: %s", vals, debug, errStr(err))
			r.Check(e1 == nil && e2 == nil, "encode-failed", "Encode of an honest proof failed: %s %s", errStr(e1), errStr(e2))
			r.Note("proof")
			r.Mix(wire.Bytes())
			pr := &c01proof{vals: vals, wire: wire.Bytes(), bare: bare.Bytes(), proof: p, from: n.ID, okBy: map[int]bool{}}
			// to every node, itself included
			for _, d := range nodes {
				net.Send(&Msg{From: n.ID, To: d.ID, Obj: pr})
			}
		}
	}

	startVerify := func(m *Msg) {
		pr := m.Obj.(*c01proof)
		n := nodes[m.To]
		if pr.okBy[n.ID] && verifies > 8 {
			return
		}
		verifies++
		mode := r.Weighted(3, 2, 2)
		var ok bool
		var err, derr error
		rd := newReader(r, pr.wire)
		if mode == 2 {
			rd = newReader(r, pr.bare)
		}
		t := s.Spawn(n, "verify", nil, func() {
			var q rangeproof.Proof
			switch mode {
			case 0:
				derr = q.Decode(rd, true)
			case 1:
				q = pr.proof
			case 2: // commitments travel separately
				derr = q.Decode(rd, false)
				q.V = pr.proof.V
			}
			if derr == nil {
				ok, err = rangeproof.Verify(q)
			}
		})
		s.PlanSites(t, sitesIn("rangeproof/"))
		r.Tracef("node %d verifies proof of %v (mode %d, copy %v)", n.ID, pr.vals, mode, m.Copy)
		t.OnDone = func() {
			if t.Killed {
				net.Send(&Msg{From: m.From, To: m.To, Obj: pr}) // asks again after its restart
				return
			}
			taskPanic(r, t, "Verify of an honest proof")
			r.Check(derr == nil, "decode-failed", "node %d cannot decode an honest proof of %v: %s", n.ID, pr.vals, errStr(derr))
			r.Check(ok && err == nil, "honest-rejected", "node %d rejects an honest proof of %d values %v made by node %d (mode %d): %s", n.ID, len(pr.vals), pr.vals, pr.from, mode, errStr(err))
			r.Note("verified")
			if n.ID != pr.from {
				r.Note("verified-elsewhere")
			}
			pr.okBy[n.ID] = true
		}
	}

	for step := 0; step < 60000; step++ {
		faults := step < 3000
		if !faults && !net.Heal {
			net.Recover()
		}
		if todo > 0 && (live() == 0 || r.Bool(1, 3)) {
			todo--
			startProve()
			continue
		}
		if net.Pending() > 0 && (live() == 0 || r.Bool(1, 3)) {
			startVerify(net.Deliver())
			continue
		}
		if faults && live() > 0 && r.Bool(1, 100) {
			r.Restart(nodes[r.Intn(len(nodes))])
			continue
		}
		if faults && r.Bool(1, 100) {
			net.Toggle(r.Intn(len(nodes)))
			continue
		}
		if faults && r.Bool(1, 100) {
			r.Jump(nodes[r.Intn(len(nodes))], clockJump(r))
		}
		if !s.Step() {
			if todo == 0 && net.Pending() == 0 {
				if net.Heal {
					return
				}
				net.Recover()
			}
		}
	}
	r.Check(false, "no-progress", "work was left after all faults had stopped")
}
