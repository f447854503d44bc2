package props

import (
	"bytes"
	"encoding/binary"
	"errors"
	"io"

	"github.com/dusk-network/dusk-crypto/hash"

	"verif.local/sim/ref"
)

func init() {
	register(&Property{
		ID: "C18", Quick: 400000, Thorough: 12000000,
		Rule:     "Seeded histories of digest, checksum and comparison calls on one or two nodes, one at a time or interleaved at statement granularity over shared input buffers, with hash objects that fail, write short or fail after writing everything injected in between, callers that scribble over digests they were handed and over their input buffers afterwards, and node restarts. Digests are compared with independent implementations written from the specifications.",
		Scenario: c18,
	})
}

// badHash is a hash object that fails.
type badHash struct {
	hash.Hash
	failAt int // number of the Write that fails, from 0; <0: none
	mode   int // 0: nothing written, 1: part written, 2: everything written and an error
	err    error
	writes int
	failed bool
	once   bool // only one Write fails
	seen   []byte
}

func (b *badHash) Write(p []byte) (int, error) {
	k := b.writes
	b.writes++
	if b.failAt >= 0 && (k == b.failAt || k > b.failAt && !b.once) {
		b.failed = true
		n := 0
		switch b.mode {
		case 1:
			n = len(p) / 2
		case 2:
			n = len(p)
		}
		if b.Hash != nil {
			_, _ = b.Hash.Write(p[:n])
		}
		return n, b.err
	}
	b.seen = append(b.seen, p...)
	return b.Hash.Write(p)
}

// okHash is an ordinary hash object for PerformHash: a plain reference digest.
type okHash struct {
	buf  []byte
	size int
	id   byte
}

func (o *okHash) Write(p []byte) (int, error) { o.buf = append(o.buf, p...); return len(p), nil }
func (o *okHash) Sum(b []byte) []byte {
	return append(b, ref.Blake2b(o.size, append([]byte{o.id}, o.buf...))...)
}
func (o *okHash) Reset()         { o.buf = nil }
func (o *okHash) Size() int      { return o.size }
func (o *okHash) BlockSize() int { return 64 }

type customErr struct{ s string }

func (c *customErr) Error() string { return c.s }

var c18kinds = []struct {
	name string
	lib  func([]byte) ([]byte, error)
	ref  func([]byte) []byte
}{
	{"Blake2b256", hash.Blake2b256, func(b []byte) []byte { return ref.Blake2b(32, b) }},
	{"Blake2b512", hash.Blake2b512, func(b []byte) []byte { return ref.Blake2b(64, b) }},
	{"Sha3256", hash.Sha3256, func(b []byte) []byte { return ref.Sha3(32, b) }},
	{"Sha3512", hash.Sha3512, func(b []byte) []byte { return ref.Sha3(64, b) }},
	{"Xxhash", hash.Xxhash, ref.XXH64},
}

type handed struct {
	what string
	got  []byte // as handed out
	want []byte
}

func c18(r *Run, idx int) {
	nodes := []*Node{r.NewNode()}
	if r.Bool(1, 3) {
		nodes = append(nodes, r.NewNode())
	}
	s := r.NewSched()
	max := 600
	if r.Bool(1, 10) {
		max = 9000
		if r.Bool(1, 20) {
			max = 150000
		}
	}
	// input buffer; messages are pieces of it
	buf := message(r, max)
	if r.Bool(1, 8) {
		buf = nil
	}
	input := func() []byte {
		switch r.Weighted(4, 3, 2, 1) {
		case 0:
			return buf
		case 1:
			if len(buf) > 0 {
				i := r.Intn(len(buf))
				j := i + r.Intn(len(buf)-i+1)
				return buf[i:j]
			}
		case 2:
			return near(r, buf)
		case 3:
			return message(r, max)
		}
		return nil
	}
	var out []handed
	settle := func(after string) {
		for i := range out {
			h := &out[i]
			r.Check(bytes.Equal(h.got, h.want), "result-changed", "after %s a digest handed out by %s is no longer what it was", after, h.what)
		}
	}
	hand := func(what string, got []byte, want []byte) {
		r.Mix(got)
		if len(out) > 12 {
			out = out[1:]
		}
		out = append(out, handed{what, got, append([]byte(nil), want...)})
		if r.Bool(1, 4) && len(out) > 0 { // a caller scribbles over what it owns
			k := r.Intn(len(out))
			h := &out[k]
			c := h.got[:cap(h.got)]
			for i := range c {
				c[i] ^= 0x5a
			}
			h.want = append([]byte(nil), h.got...)
			r.Fault("caller-scribbles-on-digest")
		}
	}
	var last []byte // input of the last call
	lastN, lastOp, lastKind, repeat := 0, 0, 0, false
	start := func() {
		ni := r.Intn(len(nodes))
		in := input()
		op := r.Weighted(8, 4, 4, 4)
		kind := r.Intn(len(c18kinds))
		if repeat {
			ni, in, op, kind = lastN, last, lastOp, lastKind
			repeat = false
			r.Note("same-call-on-changed-buffer")
		}
		n := nodes[ni]
		last, lastN, lastOp, lastKind = in, ni, op, kind
		snap := append([]byte(nil), in[:cap(in)]...)
		var call, done func()
		name := ""
		switch op {
		case 0:
			k := c18kinds[kind]
			var d []byte
			var err error
			name = k.name
			want := k.ref(in)
			call = func() { d, err = k.lib(in) }
			done = func() {
				r.Check(err == nil, "spurious-error", "%s of %d bytes fails: %s", name, len(in), errStr(err))
				r.Check(bytes.Equal(d, want), "wrong-digest", "%s of %d bytes is %s, not %s", name, len(in), hx(d), hx(want))
				hand(name, d, want)
			}
		case 1: // checksum
			var c uint32
			var err error
			name = "Checksum"
			want := binary.BigEndian.Uint32(ref.XXH64(in)[:4])
			call = func() { c, err = hash.Checksum(in) }
			done = func() {
				r.Check(err == nil && c == want, "wrong-checksum", "Checksum of %d bytes is %08x (%s), not %08x", len(in), c, errStr(err), want)
			}
		case 2: // comparison
			sum := binary.BigEndian.Uint32(ref.XXH64(in)[:4])
			probe := sum
			switch r.Weighted(4, 4, 2, 1, 1, 2) {
			case 1:
				probe ^= 1 << uint(r.Intn(32))
			case 2: // of other data
				probe = binary.BigEndian.Uint32(ref.XXH64(near(r, in))[:4])
			case 3: // another byte order
				probe = binary.LittleEndian.Uint32(ref.XXH64(in)[:4])
			case 4: // other bytes of the digest
				probe = binary.BigEndian.Uint32(ref.XXH64(in)[4:])
			case 5:
				probe = []uint32{0, 1, 0xffffffff, sum + 1, sum & 0xffff, sum &^ 0xff}[r.Intn(6)]
			}
			name = "CompareChecksum"
			var ok bool
			call = func() { ok = hash.CompareChecksum(in, probe) }
			done = func() {
				r.Check(ok == (probe == sum), "wrong-comparison", "CompareChecksum of %d bytes with checksum %08x against %08x answers %v", len(in), sum, probe, ok)
				r.Note("comparison-" + map[bool]string{true: "equal", false: "different"}[ok])
			}
		case 3: // a supplied hash object
			h := &okHash{size: 1 + r.Intn(64), id: byte(r.Intn(256))}
			want := ref.Blake2b(h.size, append([]byte{h.id}, in...))
			errs := []error{errInjected, io.EOF, io.ErrShortWrite, &customErr{"bad"}, errors.New("")}
			b := &badHash{Hash: h, failAt: -1, err: errs[r.Intn(len(errs))]}
			if r.Bool(2, 3) {
				b.failAt = r.Weighted(6, 2, 1, 1)
				b.once = r.Bool(1, 2)
				b.mode = r.Intn(3)
				r.Fault("hash-object-fails")
				if b.mode == 1 {
					r.Fault("hash-object-writes-short")
				}
			}
			var d []byte
			var err error
			name = "PerformHash"
			call = func() { d, err = hash.PerformHash(b, in) }
			done = func() {
				if b.failed {
					r.Check(err != nil, "error-lost", "a hash object failed with %q and PerformHash reports none", errStr(b.err))
					r.Check(errors.Is(err, b.err), "error-replaced", "a hash object failed with %q and PerformHash reports %q", errStr(b.err), errStr(err))
					r.Check(len(d) == 0, "digest-despite-failure", "a hash object failed and PerformHash still returns %d bytes", len(d))
					r.Note("failure-reported")
					return
				}
				r.Check(err == nil, "spurious-error", "PerformHash fails with a good hash object: %s", errStr(err))
				r.Check(bytes.Equal(d, want), "wrong-digest", "PerformHash of %d bytes is not the object's digest", len(in))
				hand(name, d, want)
			}
		}
		r.Tracef("node %d %s of %d bytes %s", n.ID, name, len(in), hx(in))
		t := s.Spawn(n, name, nil, call)
		s.PlanSites(t, sitesIn("hash/"))
		t.OnDone = func() {
			taskPanic(r, t, name)
			done()
			r.Check(bytes.Equal(in[:cap(in)], snap), "input-changed", "%s changed its input of %d bytes", name, len(in))
			settle(name)
			r.Note(name)
		}
	}
	todo := 2 + r.Intn(8)
	for step := 0; step < 4000; step++ {
		live := len(s.Live())
		switch {
		case live == 0 && todo > 0 && len(last) > 0 && r.Bool(1, 3): // the caller changes its buffer and asks again
			last[r.Intn(len(last))] ^= byte(1 + r.Intn(255))
			r.Fault("caller-reuses-buffer")
			settle("reusing the input buffer")
			repeat = true
			todo--
			start()
		case live == 0 && len(buf) > 0 && r.Bool(1, 8): // the caller reuses its buffer
			buf[r.Intn(len(buf))] ^= byte(1 + r.Intn(255))
			r.Fault("caller-reuses-buffer")
			settle("reusing the input buffer")
		case todo > 0 && (live == 0 || r.Bool(1, 2)):
			todo--
			start()
		case live > 0 && r.Bool(1, 40):
			r.Restart(nodes[r.Intn(len(nodes))])
		case !s.Step():
			if todo == 0 {
				settle("the end")
				return
			}
		}
	}
	r.Check(false, "no-progress", "calls did not finish")
}
