package props

import (
	"bytes"
	"errors"
	"strings"

	"github.com/dusk-network/dusk-crypto/merkletree"
	"golang.org/x/crypto/sha3"

	"verif.local/sim/engine"
)

func init() {
	register(&Property{
		ID: "C14", Quick: 80000, Thorough: 1500000,
		Rule:     "Seeded histories of tree operations on several nodes: builds from payload lists of all sizes (repeated payloads, hashes of differing lengths, hashes living in one shared buffer, nested trees as payloads), rebuilds, in-place rebuilds, restarts, interleaved with concurrent verification and membership checks. Roots are compared with a reference tree built on the standard SHA3-256, verdicts with list membership.",
		Scenario: c14,
	})
	register(&Property{
		ID: "C15", Quick: 80000, Thorough: 1500000,
		Rule:     "Seeded histories on trees whose payloads fail at chosen calls (with or without partial results) in any operation, and whose payloads, stored interior hashes, children and stated root are altered and restored one by one or together. Errors must surface, failed rebuilds must leave the tree as it was, verdicts must fall with the alteration and come back when it is undone.",
		Scenario: c15,
	})
}

// mfault decides which of the coming hash calculations fails.
type mfault struct {
	armed   bool
	left    int
	hit     bool
	partial bool
	err     error
}

func (f *mfault) fire() bool {
	if !f.armed {
		return false
	}
	f.left--
	if f.left >= 0 {
		return false
	}
	f.armed, f.hit = false, true
	return true
}

// mpay is a payload with a given digest.
type mpay struct {
	h     []byte // value; the returned slice may have spare capacity
	fresh bool
	f     *mfault
	sub   *merkletree.Tree // nested tree
	stuck error            // every calculation fails
}

// upay is a payload of a value type that cannot be compared; dpay one of a value type that can.
type upay struct {
	h []byte
	f *mfault
}

func (p upay) CalculateHash() ([]byte, error) { return (&mpay{h: p.h, f: p.f}).CalculateHash() }

type dpay [32]byte

func (p dpay) CalculateHash() ([]byte, error) { return p[:], nil }

// fpay is a function.
type fpay func() ([]byte, error)

func (p fpay) CalculateHash() ([]byte, error) { return p() }

// kinds puts payloads of other types in the place of some.
func (w *mworld) kinds(hs [][]byte) []merkletree.Payload {
	r := w.r
	pl := w.wrap(hs)
	mode := r.Intn(4)
	sel := r.Bytes(len(hs))
	for i, h := range hs {
		h := h
		k := int(sel[i]) % 4
		if mode < 3 {
			k = mode
		}
		switch k {
		case 0:
			pl[i] = upay{h: h, f: w.fault}
		case 1:
			if len(h) == 32 {
				var d dpay
				copy(d[:], h)
				pl[i] = d
			}
		case 2:
			pl[i] = fpay(func() ([]byte, error) { return (&mpay{h: h, f: w.fault}).CalculateHash() })
		}
	}
	return pl
}

func (p *mpay) CalculateHash() ([]byte, error) {
	if p.stuck != nil {
		return nil, p.stuck
	}
	if p.f != nil && p.f.fire() {
		if p.f.partial {
			return p.h, p.f.err
		}
		return nil, p.f.err
	}
	if p.sub != nil {
		return merkletree.VerifyNode(p.sub.Root)
	}
	if p.fresh {
		return append([]byte(nil), p.h...), nil
	}
	return p.h, nil
}

// refRoot is the definition of the root.
func refRoot(hs [][]byte) []byte {
	l := append([][]byte(nil), hs...)
	for first := true; first || len(l) > 1; first = false {
		if len(l)%2 == 1 {
			l = append(l, l[len(l)-1])
		}
		var up [][]byte
		for i := 0; i < len(l); i += 2 {
			h := sha3.New256()
			h.Write(l[i])
			h.Write(l[i+1])
			up = append(up, h.Sum(nil))
		}
		l = up
	}
	return l[0]
}

type mworld struct {
	r     *Run
	vals  [][]byte
	arena []byte
	fault *mfault
	depth int
}

func newMWorld(r *Run) *mworld {
	w := &mworld{r: r, fault: &mfault{}}
	n := 3 + r.Intn(12)
	mode := r.Weighted(5, 2, 1)
	for i := 0; i < n; i++ {
		l := 32
		switch mode {
		case 1:
			l = []int{0, 1, 31, 32, 33, 64, 20}[r.Intn(7)]
		case 2:
			l = r.Intn(3)
		}
		v := r.Bytes(l)
		if i > 0 && l > 0 && r.Bool(1, 4) { // resembles an earlier one
			v = near(r, w.vals[r.Intn(i)])
		}
		w.vals = append(w.vals, v)
	}
	return w
}

func mcount(r *Run) int {
	switch r.Weighted(4, 4, 3, 1, 1) {
	case 0:
		return 1 + r.Intn(5)
	case 1:
		return 1 + r.Intn(20)
	case 2:
		k := 1<<uint(r.Intn(8)) + r.Intn(3) - 1
		if k < 1 {
			k = 1
		}
		return k
	case 3:
		if v, ok := dictInt(r); ok {
			return 1 + int(v%300)
		}
	}
	if r.Bool(1, 40) {
		return 1<<uint(8+r.Intn(4)) + r.Intn(5) - 2
	}
	return 1 + r.Intn(300)
}

// list draws payloads; their values are returned next to them.
func (w *mworld) list(n int) ([]merkletree.Payload, [][]byte) {
	r := w.r
	hs := make([][]byte, n)
	uniq := r.Bool(1, 2)
	sel := r.Bytes(n)
	seed := r.Bytes(16)
	for i := range hs {
		if uniq || sel[i]%4 == 0 {
			b := sha3.Sum256(append(seed, byte(i), byte(i>>8)))
			hs[i] = b[:]
		} else {
			hs[i] = w.vals[int(sel[i])%len(w.vals)]
		}
	}
	if n > 1 && r.Bool(1, 4) { // the list ends with a repetition
		hs[n-1] = hs[n-2]
	}
	for k := r.Weighted(5, 2, 1, 1); n > 1 && k > 0; k-- { // runs of equal values
		a := r.Intn(n)
		b := a + 1 + r.Intn(8)
		if r.Bool(1, 3) {
			b = a + 1 + r.Intn(n)
		}
		for i := a + 1; i <= b && i < n; i++ {
			hs[i] = hs[a]
		}
		r.Note("equal-run")
	}
	return w.wrap(hs), hs
}

// wrap makes payload objects: fresh slices, retained slices, or neighbours in one buffer.
func (w *mworld) wrap(hs [][]byte) []merkletree.Payload {
	r := w.r
	pl := make([]merkletree.Payload, len(hs))
	mode := r.Intn(3)
	var arena []byte
	for _, h := range hs {
		arena = append(arena, h...)
	}
	arena = append(arena, make([]byte, 200)...)
	pos := 0
	for i, h := range hs {
		p := &mpay{f: w.fault}
		switch mode {
		case 0:
			p.h, p.fresh = append([]byte(nil), h...), true
		case 1:
			p.h = append([]byte(nil), h...)
		case 2: // spare capacity reaches into the neighbour
			p.h = arena[pos : pos+len(h)]
			pos += len(h)
		}
		pl[i] = p
	}
	return pl
}

func contains(hs [][]byte, h []byte) bool {
	for _, x := range hs {
		if bytes.Equal(x, h) {
			return true
		}
	}
	return false
}

// probe draws a value to ask for.
func (w *mworld) probe(hs [][]byte) []byte {
	r := w.r
	switch r.Weighted(4, 2, 3, 1) {
	case 0:
		return hs[r.Intn(len(hs))]
	case 1:
		return w.vals[r.Intn(len(w.vals))]
	case 2:
		return near(r, hs[r.Intn(len(hs))])
	}
	if r.Bool(1, 2) {
		return refRoot(hs) // an inner value is no member
	}
	return r.Bytes(32)
}

type mtree struct {
	n    *Node
	t    *merkletree.Tree
	hs   [][]byte
	pl   []merkletree.Payload
	dead bool
	repl bool // leaves of an altered tree no longer hold the listed payloads
}

// verdicts checks a tree that nobody altered.
func (w *mworld) verdicts(m *mtree, what string) {
	r := w.r
	want := refRoot(m.hs)
	r.Check(bytes.Equal(m.t.MerkleRoot, want), "wrong-root", "%s: a tree of %d payloads has root %s, not %s", what, len(m.hs), hx(m.t.MerkleRoot), hx(want))
	var ok bool
	var err error
	r.MustDo(m.n, nil, "VerifyTree", func() { ok, err = merkletree.VerifyTree(m.t) })
	r.Check(ok && err == nil, "valid-rejected", "%s: a valid tree of %d payloads does not verify (%v, %s)", what, len(m.hs), ok, errStr(err))
	for i, k := 0, 1+r.Intn(4); i < k; i++ {
		x := w.probe(m.hs)
		in := contains(m.hs, x)
		var q merkletree.Payload = &mpay{h: x}
		if r.Bool(1, 3) && in {
			for j, h := range m.hs {
				if bytes.Equal(h, x) {
					q = m.pl[j]
				}
			}
		}
		r.MustDo(m.n, nil, "VerifyContent", func() { ok, err = m.t.VerifyContent(q) })
		r.Check(err == nil && ok == in, "wrong-membership", "%s: membership of %s in a tree of %d payloads is answered %v (%s) instead of %v", what, hx(x), len(m.hs), ok, errStr(err), in)
		if in {
			r.Note("member")
		} else {
			r.Note("non-member")
		}
	}
	r.Check(bytes.Equal(m.t.MerkleRoot, want), "wrong-root", "%s: checks changed the root", what)
	r.Mix(want)
}

func (w *mworld) build(n *Node, pl []merkletree.Payload, hs [][]byte, what string) *mtree {
	r := w.r
	var t *merkletree.Tree
	var err error
	r.MustDo(n, nil, "NewTree", func() { t, err = merkletree.NewTree(pl) })
	r.Check(err == nil && t != nil, "build-failed", "%s: building from %d payloads failed: %s", what, len(pl), errStr(err))
	if len(hs)%2 == 1 {
		r.Note("odd-build")
	}
	return &mtree{n: n, t: t, hs: hs, pl: append([]merkletree.Payload(nil), pl...)}
}

func c14(r *Run, idx int) {
	w := newMWorld(r)
	nodes := []*Node{r.NewNode()}
	if r.Bool(1, 3) {
		nodes = append(nodes, r.NewNode())
	}
	clocks(r, nodes...)
	var trees []*mtree
	for i, k := 0, 3+r.Intn(6); i < k; i++ {
		n := nodes[r.Intn(len(nodes))]
		var m *mtree
		if len(trees) > 0 {
			m = trees[r.Intn(len(trees))]
		}
		op := r.Weighted(4, 3, 3, 1, 1, 2, 1, 1, 1, 1)
		if m == nil || m.dead {
			op = 0
		}
		switch op {
		case 0:
			pl, hs := w.list(mcount(r))
			m := w.build(n, pl, hs, "fresh build")
			if r.Bool(1, 3) { // the caller goes on using its list
				for i := range pl {
					pl[i] = &mpay{h: []byte("other")}
				}
				r.Note("list-reused")
			}
			trees = append(trees, m)
			w.verdicts(m, "fresh build")
			r.Note("build")
		case 1: // rebuild with another list
			pl, hs := w.list(mcount(r))
			if r.Bool(1, 3) { // a subset or a permutation of the old one
				pl, hs = nil, nil
				for _, j := range r.Perm(len(m.hs))[:1+r.Intn(len(m.hs))] {
					pl, hs = append(pl, m.pl[j]), append(hs, m.hs[j])
				}
			}
			if r.Bool(1, 4) { // append to what the tree holds
				x, y := w.list(1 + r.Intn(3))
				pl = append(append([]merkletree.Payload(nil), m.pl...), x...)
				hs = append(append([][]byte(nil), m.hs...), y...)
			}
			var err error
			r.MustDo(m.n, nil, "RebuildTreeUsing", func() { err = m.t.RebuildTreeUsing(pl) })
			r.Check(err == nil, "build-failed", "rebuilding with %d payloads failed: %s", len(pl), errStr(err))
			m.pl, m.hs = append([]merkletree.Payload(nil), pl...), hs
			w.verdicts(m, "rebuild")
			r.Note("rebuild")
		case 2:
			var err error
			for j, c := 0, 1+r.Intn(3); j < c; j++ {
				r.MustDo(m.n, nil, "RebuildTree", func() { err = m.t.RebuildTree() })
				r.Check(err == nil, "build-failed", "rebuilding a tree of %d payloads in place failed: %s", len(m.hs), errStr(err))
				w.verdicts(m, "in-place rebuild")
			}
			r.Note("rebuild-in-place")
		case 3: // payloads change, rebuild follows
			j := r.Intn(len(m.pl))
			p := m.pl[j].(*mpay)
			if p.sub != nil {
				break
			}
			p.h = near(r, m.hs[j])
			hs := append([][]byte(nil), m.hs...)
			for i := range m.pl {
				if m.pl[i] == m.pl[j] {
					hs[i] = append([]byte(nil), p.h...)
				}
			}
			for _, o := range trees { // trees sharing the payload object are no longer intact
				if o != m {
					for i := range o.pl {
						if o.pl[i] == m.pl[j] {
							o.dead = true
						}
					}
				}
			}
			var err error
			r.MustDo(m.n, nil, "RebuildTree", func() { err = m.t.RebuildTree() })
			r.Check(err == nil, "build-failed", "rebuilding in place failed: %s", errStr(err))
			m.hs = hs
			w.verdicts(m, "in-place rebuild after a change")
			r.Note("payload-update")
		case 4: // nothing to build from
			var t *merkletree.Tree
			var e1, e2 error
			pl := [][]merkletree.Payload{nil, {}}[r.Intn(2)]
			r.MustDo(m.n, nil, "building from nothing", func() {
				t, e1 = merkletree.NewTree(pl)
				e2 = m.t.RebuildTreeUsing(pl)
			})
			r.Check(e1 != nil && t == nil && e2 != nil, "empty-accepted", "building from no payload is not refused (%s, %s)", errStr(e1), errStr(e2))
			w.verdicts(m, "after a refused rebuild")
			r.Note("empty")
		case 5: // concurrent checks
			w.concurrent(m, trees)
		case 6: // the same content on another node, also after a restart
			r.Restart(n)
			for _, o := range trees {
				if o.n == n {
					o.dead = true // memory is gone
				}
			}
			m2 := w.build(n, w.wrap(m.hs), m.hs, "build after restart")
			r.Check(bytes.Equal(m2.t.MerkleRoot, m.t.MerkleRoot), "wrong-root", "two nodes disagree on the root of the same payloads")
			w.verdicts(m2, "build after restart")
			trees = append(trees, m2)
		case 7: // a tree of trees
			sub := m
			if w.depth > 3 {
				break
			}
			w.depth++
			pl, hs := w.list(1 + r.Intn(6))
			j := r.Intn(len(pl))
			pl[j] = &mpay{sub: sub.t, f: w.fault}
			hs[j] = append([]byte(nil), sub.t.MerkleRoot...)
			m2 := w.build(m.n, pl, hs, "tree of trees")
			w.verdicts(m2, "tree of trees")
			m2.dead = true // depends on sub staying as it is
			r.Note("nested")
		case 9: // payloads of other types
			_, hs := w.list(1 + r.Intn(12))
			var m2 *mtree
			if r.Bool(1, 2) {
				m2 = w.build(m.n, w.kinds(hs), hs, "build from other payload types")
			} else {
				m2 = w.build(m.n, w.wrap(hs), hs, "build")
				pl := w.kinds(hs)
				var err error
				r.MustDo(m.n, nil, "RebuildTreeUsing", func() { err = m2.t.RebuildTreeUsing(pl) })
				r.Check(err == nil, "build-failed", "rebuilding with %d payloads failed: %s", len(pl), errStr(err))
				m2.pl = pl
			}
			w.verdicts(m2, "other payload types")
			var err error
			r.MustDo(m.n, nil, "RebuildTree", func() { err = m2.t.RebuildTree() })
			r.Check(err == nil, "build-failed", "rebuilding in place failed: %s", errStr(err))
			w.verdicts(m2, "other payload types after a rebuild")
			r.Note("other-payload-types")
		case 8: // node functions
			var h []byte
			var err error
			r.MustDo(m.n, nil, "VerifyNode", func() { h, err = merkletree.VerifyNode(m.t.Root) })
			r.Check(err == nil && bytes.Equal(h, refRoot(m.hs)), "wrong-root", "VerifyNode of the root gives %s (%s)", hx(h), errStr(err))
			r.MustDo(m.n, nil, "CalculateNodeHash", func() { h, err = merkletree.CalculateNodeHash(m.t.Root) })
			r.Check(err == nil && bytes.Equal(h, refRoot(m.hs)), "wrong-root", "CalculateNodeHash of the root gives %s (%s)", hx(h), errStr(err))
		}
	}
	for _, m := range trees {
		if !m.dead {
			w.verdicts(m, "at the end")
		}
	}
}

// concurrent interleaves checks of one tree with checks and builds of others.
func (w *mworld) concurrent(m *mtree, trees []*mtree) {
	r := w.r
	s := r.NewSched()
	type res struct {
		t    *engine.Task
		what string
		good func() string
	}
	var l []*res
	sites := sitesIn("merkletree/")
	for i, k := 0, 2+r.Intn(3); i < k; i++ {
		o := m
		if r.Bool(1, 4) {
			o = trees[r.Intn(len(trees))]
		}
		if o.dead || o.n != m.n {
			o = m
		}
		x := &res{}
		var ok bool
		var err error
		switch r.Weighted(3, 4, 2) {
		case 0:
			x.what = "VerifyTree"
			x.t = s.Spawn(o.n, x.what, nil, func() { ok, err = merkletree.VerifyTree(o.t) })
			x.good = func() string {
				if !ok || err != nil {
					return "a valid tree does not verify"
				}
				return ""
			}
		case 1:
			v := w.probe(o.hs)
			in := contains(o.hs, v)
			q := &mpay{h: v}
			x.what = "VerifyContent"
			x.t = s.Spawn(o.n, x.what, nil, func() { ok, err = o.t.VerifyContent(q) })
			x.good = func() string {
				if err != nil || ok != in {
					return "membership answered wrongly"
				}
				return ""
			}
		case 2:
			var t *merkletree.Tree
			pl := m.pl
			x.what = "NewTree"
			x.t = s.Spawn(m.n, x.what, nil, func() { t, err = merkletree.NewTree(pl) })
			x.good = func() string {
				if err != nil || !bytes.Equal(t.MerkleRoot, refRoot(m.hs)) {
					return "wrong root"
				}
				return ""
			}
		}
		s.PlanSites(x.t, sites)
		l = append(l, x)
	}
	s.Run()
	for _, x := range l {
		taskPanic(r, x.t, x.what)
	}
	s.Close()
	for _, x := range l {
		g := x.good()
		r.Check(g == "", "wrong-under-concurrency", "%s next to %d other calls: %s", x.what, len(l)-1, g)
	}
	r.Note("concurrent")
}

// ---- C15 ------------------------------------------------------------------

var errPayload = errors.New("payload hash failure 7741")

// fails runs an operation in which the k-th hash calculation fails.
func (w *mworld) fails(n *Node, what string, k int, fn func() (bool, error)) (hit bool) {
	r := w.r
	*w.fault = mfault{armed: true, left: k, partial: r.Bool(1, 3), err: errPayload}
	var ok bool
	var err error
	r.MustDo(n, nil, what+" with a failing payload", func() { ok, err = fn() })
	hit = w.fault.hit
	w.fault.armed = false
	if !hit {
		r.Check(err == nil, "spurious-error", "%s fails although no payload did: %s", what, errStr(err))
		return false
	}
	r.Fault("payload-failure")
	r.Check(err != nil && (errors.Is(err, errPayload) || strings.Contains(err.Error(), "7741")), "error-lost", "%s: hash calculation %d failed but the call reports %s", what, k, errStr(err))
	r.Check(!ok, "error-lost", "%s: hash calculation %d failed but the call still answers yes", what, k)
	return true
}

// mstate is the content of a tree.
type mstate struct {
	mr     []byte
	data   []merkletree.Payload
	leaves [][]byte
	inner  [][]byte
}

func snapTree(t *merkletree.Tree) *mstate {
	s := &mstate{mr: append([]byte(nil), t.MerkleRoot...)}
	for _, l := range t.Leaves {
		s.data = append(s.data, l.Data)
		s.leaves = append(s.leaves, append([]byte(nil), l.Hash...))
	}
	for _, n := range interior(t) {
		s.inner = append(s.inner, append([]byte(nil), n.Hash...))
	}
	return s
}

func (s *mstate) same(t *merkletree.Tree) bool {
	o := snapTree(t)
	if !bytes.Equal(o.mr, s.mr) || len(o.data) != len(s.data) || len(o.inner) != len(s.inner) {
		return false
	}
	for i := range s.data {
		if o.data[i] != s.data[i] || !bytes.Equal(o.leaves[i], s.leaves[i]) {
			return false
		}
	}
	for i := range s.inner {
		if !bytes.Equal(o.inner[i], s.inner[i]) {
			return false
		}
	}
	return true
}

// interior lists the inner nodes, each once.
func interior(t *merkletree.Tree) []*merkletree.Node {
	var l []*merkletree.Node
	seen := map[*merkletree.Node]bool{}
	var walk func(n *merkletree.Node)
	walk = func(n *merkletree.Node) {
		if n == nil || n.IsLeaf || seen[n] {
			return
		}
		seen[n] = true
		l = append(l, n)
		walk(n.Left)
		walk(n.Right)
	}
	walk(t.Root)
	return l
}

func c15(r *Run, idx int) {
	w := newMWorld(r)
	n := r.NewNode()
	cnt := mcount(r)
	if cnt > 80 {
		cnt = 1 + cnt%80
	}
	pl, hs := w.list(cnt)
	// a build that fails
	if r.Bool(1, 3) {
		k := r.Intn(cnt)
		if r.Bool(1, 4) {
			k = r.Intn(3 * cnt)
		}
		var t *merkletree.Tree
		if w.fails(n, "NewTree", k, func() (bool, error) {
			var err error
			t, err = merkletree.NewTree(pl)
			return t != nil, err
		}) {
			r.Note("failed-build")
		}
	}
	m := w.build(n, pl, hs, "build")
	w.verdicts(m, "build")
	for i, k := 0, 1+r.Intn(5); i < k; i++ {
		if r.Bool(1, 2) {
			w.failingOps(m)
		} else {
			w.tamper(m)
		}
	}
	w.verdicts(m, "at the end")
}

func (w *mworld) failingOps(m *mtree) {
	r := w.r
	k := r.Intn(len(m.hs) + 2)
	if r.Bool(1, 5) {
		k = r.Intn(3*len(m.hs) + 4)
	}
	if r.Bool(1, 5) {
		k = 0
	}
	before := snapTree(m.t)
	switch r.Intn(8) {
	case 6: // a payload that fails for good
		p := m.pl[r.Intn(len(m.pl))].(*mpay)
		p.stuck = errPayload
		call := []struct {
			what string
			fn   func() (bool, error)
		}{
			{"VerifyContent of the failing payload", func() (bool, error) { return m.t.VerifyContent(p) }},
			{"VerifyTree", func() (bool, error) { return merkletree.VerifyTree(m.t) }},
			{"RebuildTree", func() (bool, error) { return false, m.t.RebuildTree() }},
			{"NewTree", func() (bool, error) { t, err := merkletree.NewTree(m.pl); return t != nil, err }},
		}[r.Intn(4)]
		var ok bool
		var err error
		r.MustDo(m.n, nil, call.what, func() { ok, err = call.fn() })
		p.stuck = nil
		r.Fault("payload-failure")
		r.Check(err != nil && strings.Contains(err.Error(), "7741"), "error-lost", "%s: hashing a payload fails every time but the call reports %s", call.what, errStr(err))
		r.Check(!ok, "error-lost", "%s: hashing a payload fails every time but the call still answers yes", call.what)
		r.Check(before.same(m.t), "not-atomic", "a failed %s changed the tree", call.what)
		r.Note("stuck-payload")
	case 7: // payloads of other types that fail
		_, hs := w.list(1 + r.Intn(8))
		pl := w.kinds(hs)
		m2 := w.build(m.n, pl, hs, "build from other payload types")
		q := pl[r.Intn(len(pl))]
		k := r.Intn(len(hs) + 2)
		w.fails(m.n, "NewTree", k, func() (bool, error) { t, err := merkletree.NewTree(pl); return t != nil && err != nil, err })
		w.fails(m.n, "VerifyTree", k, func() (bool, error) { return merkletree.VerifyTree(m2.t) })
		w.fails(m.n, "VerifyContent", k, func() (bool, error) { return m2.t.VerifyContent(q) })
		w.fails(m.n, "RebuildTree", k, func() (bool, error) { return false, m2.t.RebuildTree() })
		w.verdicts(m2, "other payload types after failures")
		r.Note("other-payload-types")
	case 0:
		npl, nhs := w.list(1 + r.Intn(20))
		if w.fails(m.n, "RebuildTreeUsing", k%(len(npl)+2), func() (bool, error) { return false, m.t.RebuildTreeUsing(npl) }) {
			r.Check(before.same(m.t), "not-atomic", "a failed rebuild with %d payloads changed a tree of %d", len(npl), len(m.hs))
		} else {
			m.pl, m.hs = npl, nhs
		}
	case 1:
		if w.fails(m.n, "RebuildTree", k, func() (bool, error) { return false, m.t.RebuildTree() }) {
			r.Check(before.same(m.t), "not-atomic", "a failed in-place rebuild changed a tree of %d payloads", len(m.hs))
		}
	case 2:
		w.fails(m.n, "VerifyTree", k, func() (bool, error) { return merkletree.VerifyTree(m.t) })
		r.Check(before.same(m.t), "not-atomic", "a failed verification changed the tree")
	case 3:
		var q merkletree.Payload = &mpay{h: w.probe(m.hs), f: w.fault}
		if r.Bool(1, 3) {
			q = m.pl[r.Intn(len(m.pl))]
		}
		w.fails(m.n, "VerifyContent", k, func() (bool, error) { return m.t.VerifyContent(q) })
		r.Check(before.same(m.t), "not-atomic", "a failed membership check changed the tree")
	case 4:
		in := interior(m.t)
		x := in[r.Intn(len(in))]
		var h []byte
		w.fails(m.n, "VerifyNode", k%8, func() (bool, error) {
			var err error
			h, err = merkletree.VerifyNode(x)
			return len(h) > 0 && err != nil, err
		})
	case 5:
		x := m.t.Leaves[r.Intn(len(m.t.Leaves))]
		w.fails(m.n, "CalculateNodeHash", 0, func() (bool, error) {
			_, err := merkletree.CalculateNodeHash(x)
			return false, err
		})
	}
	w.verdicts(m, "after a failure")
}

// expectations on an altered tree
func (w *mworld) judge(m *mtree, what string) {
	r := w.r
	cur := make([][]byte, len(m.t.Leaves))
	for i, l := range m.t.Leaves {
		cur[i] = l.Data.(*mpay).h
	}
	tampered := false
	bad := map[*merkletree.Node]bool{}
	// An interior hash is wrong if it follows from no reading of the nodes below it: the
	// payloads of leaves, and of inner nodes the stored hash or what lies below it.
	join := func(a, b []byte) []byte {
		h := sha3.New256()
		h.Write(a)
		h.Write(b)
		return h.Sum(nil)
	}
	var full func(c *merkletree.Node) []byte
	full = func(c *merkletree.Node) []byte {
		if c.IsLeaf {
			return c.Data.(*mpay).h
		}
		return join(full(c.Left), full(c.Right))
	}
	readings := func(c *merkletree.Node) [][]byte {
		if c.IsLeaf {
			return [][]byte{c.Data.(*mpay).h}
		}
		return [][]byte{c.Hash, join(c.Left.Hash, c.Right.Hash), full(c)}
	}
	for _, x := range interior(m.t) {
		fits := false
		for i, a := range readings(x.Left) {
			for j, b := range readings(x.Right) {
				ok := bytes.Equal(join(a, b), x.Hash)
				fits = fits || ok
				if i == 0 && j == 0 && !ok {
					tampered = true
				}
			}
		}
		if !fits {
			bad[x] = true
		}
	}
	rootOK := bytes.Equal(refRoot(cur), m.t.MerkleRoot)
	if !m.repl && rootOK { // what the caller handed over counts, wherever the tree keeps it
		own := make([][]byte, len(m.pl))
		for i, p := range m.pl {
			own[i] = p.(*mpay).h
		}
		rootOK = bytes.Equal(refRoot(own), m.t.MerkleRoot)
	}
	var ok bool
	var err error
	r.MustDo(m.n, nil, "VerifyTree", func() { ok, err = merkletree.VerifyTree(m.t) })
	r.Check(err == nil, "spurious-error", "VerifyTree fails although no payload did: %s", errStr(err))
	if !rootOK {
		r.Check(!ok, "tampering-missed", "%s: VerifyTree accepts a tree of %d leaves whose payloads do not give the stated root", what, len(cur))
	} else if !tampered {
		r.Check(ok, "valid-rejected", "%s: VerifyTree rejects an intact tree", what)
	}
	for i, k := 0, 1+r.Intn(5); i < k; i++ {
		v := cur[r.Intn(len(cur))]
		if r.Bool(1, 3) {
			v = w.probe(m.hs)
		}
		some, allBad := false, true
		for _, l := range m.t.Leaves {
			if bytes.Equal(l.Data.(*mpay).h, v) {
				some = true
				hit := false
				for p := l.Parent; p != nil; p = p.Parent {
					hit = hit || bad[p]
				}
				allBad = allBad && hit
			}
		}
		q := &mpay{h: v}
		r.MustDo(m.n, nil, "VerifyContent", func() { ok, err = m.t.VerifyContent(q) })
		r.Check(err == nil, "spurious-error", "VerifyContent fails although no payload did: %s", errStr(err))
		if !some {
			r.Check(!ok, "wrong-membership", "%s: membership of a value no leaf has is affirmed", what)
		} else if allBad {
			r.Check(!ok, "tampering-missed", "%s: membership is affirmed although the hashes above every such leaf of %d were altered", what, len(cur))
		} else if !tampered && rootOK {
			r.Check(ok, "wrong-membership", "%s: membership of a contained value is denied", what)
		}
	}
}

// tamper alters, judges, restores in some order, judges again.
func (w *mworld) tamper(m *mtree) {
	r := w.r
	// the payload objects must have their own bytes, so that an alteration is one
	leaves := m.t.Leaves
	var undo []func()
	for i, k := 0, 1+r.Weighted(4, 2, 1); i < k; i++ {
		switch r.Weighted(4, 5, 3, 2, 2) {
		case 0: // a payload changes its value
			p := leaves[r.Intn(len(leaves))].Data.(*mpay)
			if r.Bool(1, 2) {
				p = m.pl[r.Intn(len(m.pl))].(*mpay)
			}
			old := p.h
			p.h = near(r, old)
			undo = append(undo, func() { p.h = old })
			r.Fault("payload-altered")
		case 1: // a stored interior hash
			in := interior(m.t)
			x := in[r.Intn(len(in))]
			if r.Bool(1, 2) {
				old := x.Hash
				x.Hash = near(r, old)
				if r.Bool(1, 4) {
					y := in[r.Intn(len(in))]
					x.Hash = y.Hash
				}
				if r.Bool(1, 8) {
					x.Hash = nil
				}
				undo = append(undo, func() { x.Hash = old })
			} else if len(x.Hash) > 0 {
				j, b := r.Intn(len(x.Hash)), byte(1+r.Intn(255))
				h := x.Hash
				h[j] ^= b
				undo = append(undo, func() { h[j] ^= b })
			}
			r.Fault("interior-hash-altered")
		case 2: // the stated root
			if r.Bool(1, 2) {
				old := m.t.MerkleRoot
				m.t.MerkleRoot = near(r, old)
				if r.Bool(1, 5) {
					m.t.MerkleRoot = nil
				}
				undo = append(undo, func() { m.t.MerkleRoot = old })
			} else if h := m.t.MerkleRoot; len(h) > 0 {
				j, b := r.Intn(len(h)), byte(1+r.Intn(255))
				h[j] ^= b
				undo = append(undo, func() { h[j] ^= b })
			}
			r.Fault("root-altered")
		case 3: // a leaf gets another payload
			l := leaves[r.Intn(len(leaves))]
			old := l.Data
			m.repl = true
			l.Data = &mpay{h: w.probe(m.hs), f: w.fault}
			undo = append(undo, func() { l.Data = old })
			r.Fault("leaf-replaced")
		case 4: // two leaves exchange their payloads
			a, b := leaves[r.Intn(len(leaves))], leaves[r.Intn(len(leaves))]
			a.Data, b.Data = b.Data, a.Data
			m.repl = true
			undo = append(undo, func() { a.Data, b.Data = b.Data, a.Data })
			r.Fault("leaves-exchanged")
		}
	}
	w.judge(m, "altered tree")
	for i := len(undo) - 1; i >= 0; i-- {
		undo[i]()
		if i > 0 && r.Bool(1, 2) {
			w.judge(m, "partly restored tree")
		}
	}
	m.repl = false
	w.verdicts(m, "restored tree")
}
