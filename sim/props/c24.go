package props

import (
	"bytes"
	"fmt"

	"github.com/dusk-network/dusk-crypto/rangeproof/fiatshamir"

	"verif.local/sim/ref"
)

func init() {
	register(&Property{
		ID: "C24", Quick: 150000, Thorough: 5000000,
		Rule:     "Seeded histories of appending, deriving, reading and clearing on 1-5 transcripts, in interleaved calls on 1-2 nodes with restarts, while the appended buffers are overwritten afterwards and share memory; every challenge and every byte read must be the one determined by the bytes appended since the last clearing.",
		Scenario: c24,
	})
}

type c24tr struct {
	h     *fiatshamir.HashCacher
	model []byte
	node  int
	busy  bool
	given []c24given // results handed out before
}

type c24given struct {
	b    []byte
	want []byte
}

func c24(r *Run, idx int) {
	var nodes []*Node
	for i, n := 0, 1+r.Intn(2); i < n; i++ {
		nodes = append(nodes, r.NewNode())
	}
	s := r.NewSched()
	var trs []*c24tr
	open := func() {
		t := &c24tr{node: r.Intn(len(nodes))}
		switch r.Intn(3) {
		case 0:
			t.h = &fiatshamir.HashCacher{}
		case 1:
			t.h = &fiatshamir.HashCacher{Cache: []byte{}}
		case 2:
			m := message(r, 300)
			t.h = &fiatshamir.HashCacher{Cache: append([]byte(nil), m...)}
			t.model = append(t.model, m...)
		}
		trs = append(trs, t)
	}
	for i, n := 0, 1+r.Intn(5); i < n; i++ {
		open()
	}
	buf := message(r, 700) // appended values are parts of one buffer of the caller
	if len(buf) < 64 {
		buf = append(buf, r.Bytes(64)...)
	}
	value := func() []byte {
		switch r.Weighted(3, 3, 1, 1) {
		case 0:
			a := r.Intn(len(buf))
			return buf[a : a+r.Intn(len(buf)-a+1)]
		case 1:
			p := poolPoint(r)
			return p.Bytes()
		case 2:
			return nil
		}
		return message(r, 2000)
	}
	op := func() {
		var free []*c24tr
		for _, t := range trs {
			if !t.busy {
				free = append(free, t)
			}
		}
		if len(free) == 0 {
			s.Step()
			return
		}
		t := free[r.Intn(len(free))]
		n := nodes[t.node]
		t.busy = true
		what, run, done := "", func() {}, func() {}
		switch r.Weighted(6, 5, 2, 1) {
		case 0:
			var vals [][]byte
			for i, k := 0, r.Weighted(1, 5, 3, 1); i < k; i++ {
				vals = append(vals, value())
			}
			var in [][]byte
			for _, v := range vals {
				in = append(in, append([]byte(nil), v...))
				t.model = append(t.model, v...)
			}
			reused := r.Bool(1, 2)
			if !reused {
				// buffers the caller keeps for itself
				for i := range vals {
					vals[i] = append([]byte(nil), vals[i]...)
				}
			}
			what = fmt.Sprintf("Append of %d values", len(vals))
			run = func() { t.h.Append(vals...) }
			done = func() {
				for i := range vals {
					r.Check(bytes.Equal(vals[i], in[i]), "input-modified", "Append modified value %d", i)
				}
				if !reused {
					for _, v := range vals { // the caller goes on using its buffers
						for j := range v {
							v[j] ^= 0xa5
						}
					}
				}
			}
		case 1:
			want := ref.HashS(append([]byte(nil), t.model...))
			var got, again Scalar
			what = "Derive"
			run = func() { got = t.h.Derive(); again = t.h.Derive() }
			done = func() {
				r.Mix(got.Bytes())
				r.Check(got.Equals(&want), "wrong-challenge", "the challenge of a transcript of %d bytes is not the one of its bytes", len(t.model))
				r.Check(again.Equals(&want), "wrong-challenge", "deriving again from a transcript of %d bytes gives another challenge", len(t.model))
				r.Note("derive")
			}
		case 2:
			var got []byte
			what = "Result"
			run = func() { got = t.h.Result() }
			done = func() {
				r.Check(bytes.Equal(got, t.model), "wrong-content", "a transcript of %d bytes returns other content: %s", len(t.model), diffAt(got, t.model))
				t.given = append(t.given, c24given{got, append([]byte(nil), got...)})
				r.Note("result")
			}
		case 3:
			what = "Clear"
			t.model = nil
			run = func() { t.h.Clear() }
			r.Note("clear")
		}
		k := s.Spawn(n, what, nil, run)
		s.PlanSites(k, sitesIn("rangeproof/fiatshamir/"))
		k.OnDone = func() {
			t.busy = false
			if k.Killed { // the transcript is lost with its process
				t.h, t.model, t.given = &fiatshamir.HashCacher{}, nil, nil
				return
			}
			taskPanic(r, k, what)
			done()
			for _, g := range t.given {
				r.Check(bytes.Equal(g.b, g.want), "result-changed", "bytes returned before changed during %s", what)
			}
		}
	}
	for i, k := 0, 4+r.Intn(24); i < k; i++ {
		op()
		for j := r.Intn(4); j > 0; j-- {
			s.Step()
		}
		if r.Bool(1, 20) {
			n := r.Intn(len(nodes))
			r.Restart(nodes[n])
			for _, t := range trs {
				if t.node == n {
					t.h, t.model, t.given, t.busy = &fiatshamir.HashCacher{}, nil, nil, false
				}
			}
		}
	}
	s.Run()
	for _, t := range trs {
		r.Check(!t.busy, "no-progress", "a call did not finish")
	}
}
