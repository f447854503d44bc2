package props

import (
	"fmt"

	"verif.local/sim/engine"
)

func init() {
	register(&Property{
		ID: "C03", Quick: 4000, Thorough: 90000,
		Rule:     "Seeded sets of 2-6 calls drawn from a table of all operations, on shared and private arguments, are interleaved at statement granularity on one node (quanta, or preemption at chosen statements); every call must return what it returns alone with the same arguments and randomness, and no two calls may access a map or memory of more than one word without synchronisation, one of them writing (vector clocks over the simulated sync primitives).",
		Assume:   []string{"statements of the ristretto and field-arithmetic dependencies are atomic; statements of the library and of bn256's group layer are not", "interleavings are sequentially consistent"},
		Scenario: c03,
	})
}

type c03call struct {
	op    *Op
	seed  uint64
	want  string
	got   res
	loose bool
	vis   []uint32
	ent   int
}

func c03(r *Run, idx int) {
	// families in use
	fl := opFamilies()
	fam := map[string]bool{}
	fam[fl[r.Intn(len(fl))]] = true
	if r.Bool(1, 3) {
		fam[fl[r.Intn(len(fl))]] = true
	}
	// now and then the expensive calls only, in pairs
	heavy := r.Bool(1, 10) && engine.NonSerial() == ""
	if heavy {
		fam = map[string]bool{"rp": true}
	}
	sh := buildShared(r, fam)
	table := opsOf(fam)
	n := 2 + r.Intn(5)
	if heavy {
		var l []*Op
		for _, o := range table {
			if o.Cost > 3 {
				l = append(l, o)
			}
		}
		table = l
		n = 2 + r.Weighted(3, 1)
	}
	focus := r.Weighted(2, 2, 1) // any, two kinds, one kind
	var calls []*c03call
	var a, b *Op
	cost := 0
	for i := 0; i < n; i++ {
		var op *Op
		for {
			op = table[r.Intn(len(table))]
			if (op.Cost > 8 && !heavy && !r.Bool(1, 3)) || cost+op.Cost > 40 {
				if cost+op.Cost <= 40 || cost > 20 {
					op = nil
					if cost > 20 {
						break
					}
				}
				continue
			}
			if engine.NonSerial() != "" && !op.Det {
				continue
			}
			break
		}
		if op == nil {
			break
		}
		switch {
		case i == 0:
			a = op
		case i == 1:
			b = op
		}
		if focus == 2 && i > 0 && cost+a.Cost <= 40 {
			op = a
		}
		if focus == 1 && i > 1 {
			if r.Bool(1, 2) && cost+a.Cost <= 40 {
				op = a
			} else if cost+b.Cost <= 40 {
				op = b
			}
		}
		cost += op.Cost
		calls = append(calls, &c03call{op: op, seed: r.Seed()})
	}
	entSeed := r.Seed()
	stream := func(i int) *engine.Stream {
		s := engine.NewStream(entSeed, fmt.Sprint("call", i))
		s.Short = entSeed&7 == 1
		return s
	}
	// each alone, on a pristine node with its own copy of the arguments
	for i, c := range calls {
		c := c
		mine := engine.DeepCopy(sh)
		var x res
		s := r.NewSolo()
		ent := stream(i)
		t := s.Spawn(r.NewNode(), c.op.Name, ent, func() { c.op.Run(mine, c.seed, &x) })
		c.vis = visitedDuring(func() { s.Run() })
		taskPanic(r, t, c.op.Name+" alone")
		s.Close()
		c.want = x.String()
		c.loose = ent.KidReads > 0
		r.Note(c.op.Name)
	}
	// all at once
	node := r.NewNode()
	rounds := 1
	if r.Bool(1, 3) {
		rounds = 2 // again on the same node: state left behind by the first round
	}
	for k := 0; k < rounds; k++ {
		s := r.NewSched()
		s.Races()
		for i, c := range calls {
			c := c
			c.got = res{}
			t := s.Spawn(node, c.op.Name, stream(i), func() { c.op.Run(sh, c.seed, &c.got) })
			s.PlanSites(t, c.vis)
			t.OnDone = func() {
				taskPanic(r, t, c.op.Name+" concurrently")
				g := c.got.String()
				r.Tracef("%s done: %s", t, clipText(g))
				if c.loose { // its own goroutines draw from the source: their order shows
					return
				}
				r.Check(g == c.want, "concurrent-difference", "%s returned %s when interleaved with %s, but %s alone", c.op.Name, diffText(g, c.want), otherNames(calls, c), diffText(c.want, g))
			}
		}
		s.Run()
		race := s.Race()
		s.Close()
		r.Checks++
		if race != "" {
			r.Fail("data-race", "%s", race)
		}
	}
}

func clipText(s string) string {
	if len(s) > 60 {
		return s[:60]
	}
	return s
}

// diffText shows the surroundings of the first difference.
func diffText(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	j := i - 8
	if j < 0 {
		j = 0
	}
	e := i + 24
	if e > len(a) {
		e = len(a)
	}
	return fmt.Sprintf("[at %d] ..%s..", i, a[j:e])
}

func otherNames(calls []*c03call, me *c03call) string {
	s := ""
	for _, c := range calls {
		if c != me {
			s += c.op.Name + ","
		}
	}
	return s
}
