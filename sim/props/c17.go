package props

import (
	"bytes"
	"fmt"

	"github.com/dusk-network/dusk-crypto/rangeproof/pedersen"

	generator "github.com/dusk-network/dusk-crypto/rangeproof/generators"

	"verif.local/sim/ref"
	"verif.local/sim/simrt"
)

func init() {
	register(&Property{
		ID: "C17", Quick: 14000, Thorough: 250000,
		Rule:     "Seeded histories of generator extension, clearing and iteration, scalar and vector commitments on several committers per node and label, one call at a time or interleaved at statement granularity, with node restarts; commitments travel encoded over a lossy, duplicating, reordering network and are summed by the receivers. Every commitment, every generator and every sum is recomputed from the definition.",
		Scenario: c17,
	})
}

// committer is a Pedersen object on a node.
type committer struct {
	n       *Node
	inc     int
	label   string
	p       *pedersen.Pedersen
	g       *generator.Generator // p's or a free-standing one
	writers int                  // calls in progress that may extend the generators
	readers int
}

// opening is what a commitment claims to contain.
type opening struct {
	scalar bool
	v      Scalar
	label  string
	vs     [][]Scalar
	blind  Scalar
	wire   []byte
	from   int
}

func (o *opening) point() Point {
	p := ref.PMul(ref.BlindBase(), o.blind)
	if o.scalar {
		return ref.PAdd(p, ref.PMul(ref.ValueBase(), o.v))
	}
	var s []Scalar
	var g []Point
	for i, v := range o.vs {
		l := o.label
		if i > 0 {
			l += string([]byte{byte(i)})
		}
		s = append(s, v...)
		g = append(g, ref.Gens(l, len(v))...)
	}
	return ref.PAdd(p, ref.MultiExp(s, g))
}

func (o *opening) text() string {
	if o.scalar {
		return "a scalar"
	}
	var n []int
	for _, v := range o.vs {
		n = append(n, len(v))
	}
	return fmt.Sprintf("vectors of lengths %v under label %x", n, o.label)
}

// sum of two openings of the same sort.
func (o *opening) plus(q *opening) *opening {
	x := &opening{scalar: o.scalar, label: o.label, blind: ref.Add(o.blind, q.blind), v: ref.Add(o.v, q.v)}
	for i := 0; i < len(o.vs) || i < len(q.vs); i++ {
		var a, b, c []Scalar
		if i < len(o.vs) {
			a = o.vs[i]
		}
		if i < len(q.vs) {
			b = q.vs[i]
		}
		for j := 0; j < len(a) || j < len(b); j++ {
			s := ref.S(0)
			if j < len(a) {
				s = ref.Add(s, a[j])
			}
			if j < len(b) {
				s = ref.Add(s, b[j])
			}
			c = append(c, s)
		}
		x.vs = append(x.vs, c)
	}
	return x
}

func samePt(a, b Point) bool {
	return !ref.Degenerate(&a) && bytes.Equal(a.Bytes(), b.Bytes())
}

func c17label(r *Run, have []string) string {
	switch r.Weighted(4, 2, 2, 2, 1) {
	case 1: // resembles the label of a further vector of another
		if len(have) > 0 {
			return have[r.Intn(len(have))] + string([]byte{byte(r.Intn(3))})
		}
	case 2:
		if d := simrt.Inst.DictStrs; len(d) > 0 {
			return d[r.Intn(len(d))]
		}
	case 3:
		return string(r.Bytes(msgLen(r, 300)))
	case 4:
		return ""
	}
	return fmt.Sprintf("label %d", r.Intn(6))
}

func c17len(r *Run) int {
	switch r.Weighted(6, 4, 2, 1) {
	case 0:
		return r.Intn(5)
	case 1:
		return 1 + r.Intn(17)
	case 2:
		return r.Intn(80)
	}
	if v, ok := dictInt(r); ok {
		return int(v % 150)
	}
	return 0
}

func c17(r *Run, idx int) {
	var nodes []*Node
	for i, n := 0, 1+r.Intn(3); i < n; i++ {
		nodes = append(nodes, r.NewNode())
	}
	clocks(r, nodes...)
	net := newNet(r)
	s := r.NewSched()
	var labels []string
	for i, n := 0, 1+r.Intn(4); i < n; i++ {
		labels = append(labels, c17label(r, labels))
	}
	var cs []*committer
	var have []*opening
	got := map[int][]*opening{} // what a node has received
	budget := 400               // points to multiply
	newCommitter := func() *committer {
		c := &committer{n: nodes[r.Intn(len(nodes))], label: labels[r.Intn(len(labels))]}
		c.inc = c.n.Inc
		// the label may sit in a larger buffer of which nobody writes the used part
		lab := spareBytes(r, []byte(c.label))
		bare := r.Bool(1, 6)
		r.MustDo(c.n, nil, "New", func() {
			if bare {
				c.g = generator.New(lab)
			} else {
				c.p = pedersen.New(lab)
				c.g = c.p.BaseVector
			}
		})
		cs = append(cs, c)
		r.Tracef("committer %d on node %d label %x", len(cs)-1, c.n.ID, c.label)
		return c
	}
	// gens checks the generators of c.
	gens := func(c *committer, after string) {
		b := c.g.Bases
		w := ref.Gens(c.label, len(b))
		for i := range b {
			r.Check(samePt(b[i], w[i]), "wrong-generator", "after %s generator %d of %d for label %x is not the one its label and position determine", after, i, len(b), c.label)
		}
		if c.p != nil {
			r.Check(samePt(c.p.BlindPoint, ref.BlindBase()) && samePt(c.p.BasePoint, ref.ValueBase()), "wrong-base", "after %s the bases of a committer with label %x changed", after, c.label)
		}
	}
	settle := func(c *committer, o *opening, val Point, what string) {
		r.Check(!ref.Degenerate(&val), "no-point", "%s: a commitment to %s is no point", what, o.text())
		want := o.point()
		r.Check(samePt(val, want), "does-not-open", "%s: a commitment to %s does not open with the blinder it reports (committer had %d generators)", what, o.text(), len(c.g.Bases))
		o.wire = append([]byte(nil), val.Bytes()...)
		o.from = c.n.ID
		have = append(have, o)
		r.Mix(o.wire)
		for _, d := range nodes {
			net.Send(&Msg{From: c.n.ID, To: d.ID, Obj: o})
		}
	}
	// start begins a call; it ends at some later step.
	start := func() {
		var free []*committer
		for _, c := range cs {
			if c.writers == 0 && c.inc == c.n.Inc {
				free = append(free, c)
			}
		}
		if len(free) == 0 || (len(cs) < 6 && r.Bool(1, 4)) {
			free = []*committer{newCommitter()}
		}
		c := free[r.Intn(len(free))]
		ent := r.Entropy()
		if r.Bool(1, 8) {
			ent.Short = true
			r.Fault("entropy-short-read")
		}
		before := len(c.g.Bases)
		var done func()
		var call func()
		writes := true
		name := ""
		op := r.Weighted(4, 6, 3, 2, 2, 1)
		if c.p == nil && op < 2 {
			op = 2 + r.Intn(3)
		}
		if c.readers > 0 && (c.p == nil || op != 0) {
			if c.p == nil {
				return
			}
			op = 0
		}
		switch op {
		case 0:
			writes = false
			o := &opening{scalar: true, v: scalar(r), vs: nil}
			var cm pedersen.Commitment
			name = "CommitToScalar"
			call = func() { cm = c.p.CommitToScalar(o.v) }
			done = func() {
				o.blind = cm.BlindingFactor
				settle(c, o, cm.Value, name)
			}
		case 1:
			o := &opening{label: c.label}
			k := r.Weighted(1, 6, 6, 3, 2)
			if r.Bool(1, 60) {
				k = 5 + r.Intn(200)
			}
			total := 0
			for i := 0; i < k; i++ {
				n := c17len(r)
				if k > 8 {
					n = r.Intn(2)
				}
				if total += n; total > budget {
					n, total = 0, budget
				}
				o.vs = append(o.vs, manyScalars(r, n))
				if i > 0 && r.Bool(1, 6) {
					o.vs[i] = o.vs[i-1]
				}
			}
			budget -= total
			in := make([][]Scalar, len(o.vs))
			for i := range in {
				in[i] = append(make([]Scalar, 0, len(o.vs[i])+r.Intn(2)*4), o.vs[i]...)
			}
			var cm pedersen.Commitment
			name = "CommitToVectors"
			call = func() { cm = c.p.CommitToVectors(in...) }
			done = func() {
				o.blind = cm.BlindingFactor
				settle(c, o, cm.Value, name)
			}
		case 2:
			n := c17len(r)
			name = fmt.Sprintf("Compute(%d)", n)
			call = func() { c.g.Compute(uint32(n)) }
			done = func() {
				r.Check(len(c.g.Bases) == before+n, "wrong-count", "Compute(%d) on %d generators left %d", n, before, len(c.g.Bases))
			}
		case 3:
			name = "Clear"
			call = func() { c.g.Clear() }
			done = func() {
				r.Check(len(c.g.Bases) == 0, "wrong-count", "Clear left %d generators", len(c.g.Bases))
			}
		case 4:
			name = "Iterate"
			var p Point
			k := before
			call = func() { p = c.g.Iterate() }
			done = func() {
				r.Check(samePt(p, ref.Gens(c.label, k+1)[k]), "wrong-generator", "Iterate after %d generators of label %x is not the next one", k, c.label)
			}
		case 5: // one at a time, by hand
			name = "Iterate and append"
			k := before
			call = func() { c.g.Bases = append(c.g.Bases, c.g.Iterate()) }
			done = func() {
				r.Check(len(c.g.Bases) == k+1, "wrong-count", "one more than %d generators are %d", k, len(c.g.Bases))
			}
		}
		if writes {
			c.writers++
		} else {
			c.readers++
		}
		r.Tracef("node %d label %x: %s with %d generators", c.n.ID, c.label, name, before)
		t := s.Spawn(c.n, name, ent, call)
		s.PlanSites(t, sitesIn("rangeproof/"))
		t.OnDone = func() {
			if writes {
				c.writers--
			} else {
				c.readers--
			}
			taskPanic(r, t, name)
			gens(c, name)
			done()
			r.Note(name)
		}
	}
	receive := func(m *Msg) {
		o := m.Obj.(*opening)
		n := nodes[m.To]
		var c pedersen.Commitment
		var err error
		rd := newReader(r, o.wire)
		r.MustDo(n, nil, "Decode", func() { err = c.Decode(rd) })
		r.Check(err == nil, "decode-failed", "a commitment to %s cannot be decoded: %s", o.text(), errStr(err))
		r.Check(bytes.Equal(c.Value.Bytes(), o.wire), "decode-differs", "a commitment changed on its way")
		got[n.ID] = append(got[n.ID], o)
		// sums of what arrived, duplicates included
		l := got[n.ID]
		if len(l) < 2 || !r.Bool(1, 2) {
			return
		}
		q := l[r.Intn(len(l))]
		if q.scalar != o.scalar || q.label != o.label {
			return
		}
		var d pedersen.Commitment
		r.MustDo(n, nil, "Decode", func() { err = d.Decode(bytes.NewReader(q.wire)) })
		sum := ref.PAdd(c.Value, d.Value)
		x := o.plus(q)
		r.Check(samePt(sum, x.point()), "not-additive", "the sum of commitments to %s and %s does not open to the sums", o.text(), q.text())
		r.Note("sum")
		if o.from != q.from {
			r.Note("sum-across-nodes")
		}
	}
	todo := 3 + r.Intn(10)
	for step := 0; step < 20000; step++ {
		faults := step < 1500
		if !faults && !net.Heal {
			net.Recover()
		}
		live := len(s.Live())
		switch {
		case todo > 0 && (live == 0 || r.Bool(1, 3)):
			todo--
			start()
		case net.Pending() > 0 && r.Bool(1, 3):
			receive(net.Deliver())
		case faults && r.Bool(1, 60):
			n := nodes[r.Intn(len(nodes))]
			r.Restart(n)
			delete(got, n.ID)
			for _, c := range cs {
				if c.n == n {
					c.writers, c.readers = 0, 0
				}
			}
		case faults && r.Bool(1, 60):
			net.Toggle(r.Intn(len(nodes)))
		case !s.Step():
			if todo == 0 && net.Pending() == 0 {
				if net.Heal {
					return
				}
				net.Recover()
			}
		}
	}
	r.Check(false, "no-progress", "calls did not finish")
}
