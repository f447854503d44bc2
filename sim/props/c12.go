package props

import (
	"bytes"
	"io"

	"github.com/dusk-network/dusk-crypto/mlsag"
	"github.com/dusk-network/dusk-crypto/rangeproof/pedersen"

	"verif.local/sim/engine"
	"verif.local/sim/ref"
)

func init() {
	register(&Property{
		ID: "C12", Quick: 40000, Thorough: 600000,
		Rule:     "Seeded streams of objects of all encodable kinds: bytes delivered one by one, in arbitrary chunks, together with the end of the stream, with empty reads, over a bounded connection between two interleaved tasks; streams that fail or end at every kind of position; writers that fail, are full or write short at every kind of position. Decoded objects must equal and re-encode to the reference encoding, consume exactly their bytes, and every failure must surface as an error.",
		Scenario: c12,
	})
}

func c12(r *Run, idx int) {
	node := r.NewNode()
	other := r.NewNode()
	switch r.Weighted(5, 3, 3, 3, 2) {
	case 0:
		c12roundtrip(r, node)
	case 1:
		c12framing(r, node)
	case 2:
		c12readerFaults(r, node)
	case 3:
		c12writerFaults(r, node)
	case 4:
		if engine.NonSerial() != "" {
			c12roundtrip(r, node)
			return
		}
		c12pipe(r, node, other)
	}
}

func mustDecode(r *Run, n *Node, c *codec, rd io.Reader, used interface{}, what string) interface{} {
	var o interface{}
	var err error
	r.MustDo(n, nil, "decoding "+c.kind, func() { o, err = c.dec(rd, used) })
	r.Check(err == nil, "decode-failed", "%s: decoding an intact %s failed: %s", what, c.kind, errStr(err))
	return o
}

func mustEncode(r *Run, n *Node, c *codec, o interface{}, want []byte, what string) {
	var b []byte
	var err error
	r.MustDo(n, nil, "encoding "+c.kind, func() { b, err = c.bytes(o) })
	r.Check(err == nil, "encode-failed", "%s: encoding a %s failed: %s", what, c.kind, errStr(err))
	r.Check(bytes.Equal(b, want), "encoding-differs", "%s: a %s encodes to %s instead of %s", what, c.kind, diffAt(b, want), "its definition")
	r.Mix(b)
}

func diffAt(a, b []byte) string {
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i] != b[i] {
			return hx(a) + " (first difference at byte " + itoa(i) + " of " + itoa(len(b)) + ")"
		}
	}
	return itoa(len(a)) + " bytes instead of " + itoa(len(b))
}

func itoa(n int) string { return string(appendInt(nil, n)) }

func appendInt(b []byte, n int) []byte {
	if n < 0 {
		return appendInt(append(b, '-'), -n)
	}
	if n >= 10 {
		b = appendInt(b, n/10)
	}
	return append(b, byte('0'+n%10))
}

func c12roundtrip(r *Run, n *Node) {
	for i, k := 0, 1+r.Intn(4); i < k; i++ {
		c, b := sample(r)
		r.Note(c.kindClass())
		rd := newReader(r, b)
		var used, keep interface{}
		var keepC *codec
		var keepB []byte
		if r.Bool(1, 3) { // a receiver that held something else, of which a copy is kept
			if c2, b2, ok := again(r, c); ok {
				used = mustDecode(r, n, c2, bytes.NewReader(b2), nil, "preparation")
				keep, keepC, keepB = shallow(used), c2, b2
				r.Note("used-receiver")
			}
		}
		o := mustDecode(r, n, c, rd, used, "chunked delivery")
		if keep != nil {
			mustEncode(r, n, keepC, keep, keepB, "copied before its variable was decoded into again")
		}
		r.Check(rd.pos == len(b), "wrong-length", "decoding a %s consumed %d of %d bytes", c.kind, rd.pos, len(b))
		mustEncode(r, n, c, o, b, "after decoding")
		if r.Bool(1, 2) {
			r.Restart(n)
		}
		o2 := mustDecode(r, n, c, bytes.NewReader(b), nil, "plain delivery")
		var e1, e2 bool
		r.MustDo(n, nil, "Equals", func() { e1, e2 = c.eq(o, o2), c.eq(o2, o) })
		r.Check(e1 && e2, "not-equal", "two decodings of one %s are not equal (%v, %v)", c.kind, e1, e2)
		mustEncode(r, n, c, o, b, "after comparing")
	}
	// objects that were made, not decoded
	if r.Bool(1, 3) {
		switch r.Intn(2) {
		case 0:
			x, z := secret(r), secret(r)
			pool := decoyPool(r, ringSize(r), nil)
			msg := message(r, 100)
			var sig *mlsag.Signature
			var err error
			r.MustDo(n, nil, "signing", func() {
				d := mlsag.NewDualKey()
				d.SetPrimaryKey(x)
				d.SetCommToZero(z)
				d.SetMsg(msg)
				d.AddDecoys(libRing(pool))
				sig, _, err = d.Prove()
			})
			r.Check(err == nil, "sign-failed", "signing failed: %s", errStr(err))
			c := codecSig(true)
			var b []byte
			r.MustDo(n, nil, "encoding", func() { b, err = c.bytes(sig) })
			r.Check(err == nil, "encode-failed", "encoding a signature failed: %s", errStr(err))
			k, canon, perr := c.parse(b)
			r.Check(perr == nil && k == len(b) && bytes.Equal(canon, b), "encoding-differs", "the encoding of a made signature is not the defined one (%s)", errStr(perr))
			o := mustDecode(r, n, c, newReader(r, b), nil, "made signature")
			var e1, e2 bool
			r.MustDo(n, nil, "Equals", func() { e1, e2 = c.eq(o, sig), c.eq(sig, o) })
			r.Check(e1 && e2, "not-equal", "a decoded signature does not equal the one encoded")
		default:
			var cs []pedersen.Commitment
			m := r.Intn(5)
			r.MustDo(n, nil, "committing", func() {
				p := pedersen.New([]byte("x"))
				for i := 0; i < m; i++ {
					cs = append(cs, p.CommitToScalar(ref.S(int64(i))))
				}
			})
			b := be32(uint32(m))
			for i := range cs {
				b = append(b, cs[i].Value.Bytes()...)
			}
			c := codecComms()
			mustEncode(r, n, c, cs, b, "made commitments")
			o := mustDecode(r, n, c, newReader(r, b), nil, "made commitments")
			r.Check(c.eq(o, cs), "not-equal", "decoded commitments do not equal those encoded")
		}
		r.Note("made-object")
	}
}

func (c *codec) kindClass() string {
	switch {
	case len(c.kind) > 10 && c.kind[:10] == "vector of ":
		if c.kind[len(c.kind)-4:] == "keys" {
			return "vector of keys"
		}
		return "vector of responses"
	}
	return c.kind
}

// c12framing puts several objects on one stream.
func c12framing(r *Run, n *Node) {
	var cs []*codec
	var ends []int
	var all []byte
	var each [][]byte
	k := 2 + r.Intn(5)
	for len(cs) < k {
		c, b := sample(r)
		if !c.delim && len(cs) < k-1 {
			continue
		}
		cs = append(cs, c)
		all = append(all, b...)
		each = append(each, b)
		ends = append(ends, len(all))
	}
	last := cs[k-1]
	if last.delim && r.Bool(1, 2) {
		all = append(all, r.Bytes(1+r.Intn(80))...)
	}
	rd := newReader(r, all)
	var objs []interface{}
	for i, c := range cs {
		o := mustDecode(r, n, c, rd, nil, "object "+itoa(i)+" on a shared stream")
		r.Check(rd.pos == ends[i], "wrong-length", "object %d on a stream, a %s, took %d bytes instead of %d", i, c.kind, rd.pos-(ends[i]-len(each[i])), len(each[i]))
		objs = append(objs, o)
	}
	for i, c := range cs {
		mustEncode(r, n, c, objs[i], each[i], "object "+itoa(i)+" from a shared stream")
	}
	// and the way back: all on one writer
	var out bytes.Buffer
	for i, c := range cs {
		var err error
		r.MustDo(n, nil, "encoding", func() { err = c.enc(objs[i], &out) })
		r.Check(err == nil, "encode-failed", "encoding a %s failed: %s", c.kind, errStr(err))
	}
	r.Check(bytes.Equal(out.Bytes(), all[:ends[k-1]]), "encoding-differs", "objects encoded one after another differ from their encodings")
	r.Note("framed-stream")
}

// cutPos draws a position in an encoding: ends, element borders and their neighbours.
func cutPos(r *Run, n int) int {
	if n == 0 {
		return 0
	}
	switch r.Weighted(2, 1, 3, 4) {
	case 0:
		return n - 1 - r.Intn(min(n, 3))
	case 1:
		return r.Intn(min(n, 5))
	case 2:
		p := 32*r.Intn(n/32+1) + []int{0, 0, 1, -1, 4, 8, 36, 40}[r.Intn(8)]
		if p < 0 || p >= n {
			p = n - 1
		}
		return p
	}
	return r.Intn(n)
}

func c12readerFaults(r *Run, n *Node) {
	for i, k := 0, 2+r.Intn(4); i < k; i++ {
		c, b := sample(r)
		if len(b) == 0 {
			continue
		}
		rd := newReader(r, b)
		cut := cutPos(r, len(b))
		var used interface{}
		if r.Bool(1, 3) {
			used = mustDecode(r, n, c, bytes.NewReader(b), nil, "preparation")
		}
		must := true
		if r.Bool(1, 2) {
			rd.failAt = cut
			if r.Bool(1, 3) { // at the end: an undelimited object reads on to the end of the stream
				rd.failAt = len(b)
				must = !c.delim
			}
			if r.Bool(1, 2) {
				rd.err = io.ErrUnexpectedEOF
			}
			if r.Bool(1, 3) {
				rd.err = io.ErrClosedPipe
			}
			r.Fault("reader-failure")
			if rd.failAt == len(b) && c.delim {
				rd.eofWith = r.Bool(1, 2)
			}
		} else {
			rd.data = b[:cut]
			r.Fault("truncated-stream")
			if !c.delim && cut >= c.tail && (cut-c.tail)%64 == 0 {
				must = false // the bytes are those of a shorter object
			}
		}
		if rd.failAt >= 0 && r.Bool(1, 3) {
			// the stream goes on: a decoder may go on as well, but not lose or repeat bytes
			rd.once = true
			rd.err = ioErr(r)
			r.Fault("transient-reader-failure")
		}
		var o interface{}
		var err error
		r.MustDo(n, nil, "decoding a broken stream of a "+c.kind, func() { o, err = c.dec(rd, used) })
		if rd.once {
			if err == nil {
				mustEncode(r, n, c, o, b, "a stream that failed once at byte "+itoa(rd.failAt))
			}
		} else if must {
			at := rd.failAt
			if at < 0 {
				at = len(rd.data)
			}
			r.Check(err != nil, "silent-failure", "decoding a %s of %d bytes reports no error although the stream broke at byte %d", c.kind, len(b), at)
		} else if rd.failAt >= 0 {
			r.Check(err == nil, "decode-failed", "decoding a %s fails although its bytes were all delivered: %s", c.kind, errStr(err))
		}
		if err == nil && rd.failAt >= 0 && !rd.once {
			mustEncode(r, n, c, o, b, "stream failing behind the object")
		}
		// the same node decodes the next stream as if nothing had happened
		o = mustDecode(r, n, c, newReader(r, b), nil, "after a broken stream")
		mustEncode(r, n, c, o, b, "after a broken stream")
	}
}

func c12writerFaults(r *Run, n *Node) {
	for i, k := 0, 2+r.Intn(4); i < k; i++ {
		c, b := sample(r)
		o := mustDecode(r, n, c, bytes.NewReader(b), nil, "preparation")
		w := &faultyWriter{limit: cutPos(r, len(b)), short: r.Bool(1, 2)}
		if len(b) == 0 || r.Bool(1, 6) {
			w.limit = len(b) + r.Intn(3)
		}
		pre := 0
		if r.Bool(1, 3) { // the writer already holds something
			pre = r.Intn(40)
			w.buf.Write(make([]byte, pre))
			w.limit += pre
		}
		if r.Bool(1, 3) {
			w.once = true
			w.err = ioErr(r)
			r.Fault("transient-writer-failure")
		}
		var err error
		r.MustDo(n, nil, "encoding to a failing writer", func() { err = c.enc(o, w) })
		if w.hit && w.once {
			// an encoder may go on, but what it reports as written must be written
			r.Check(err != nil || bytes.Equal(w.buf.Bytes()[pre:], b), "silent-failure", "encoding a %s of %d bytes to a writer that fails once after %d reports no error, and wrote something else", c.kind, len(b), w.limit-pre)
		} else if w.limit-pre < len(b) {
			if w.short {
				r.Fault("short-write")
			} else {
				r.Fault("writer-failure")
			}
			r.Check(err != nil, "silent-failure", "encoding a %s of %d bytes to a writer that fails after %d reports no error", c.kind, len(b), w.limit-pre)
		} else {
			r.Check(err == nil, "encode-failed", "encoding a %s of %d bytes to a writer with room for %d fails: %s", c.kind, len(b), w.limit-pre, errStr(err))
			r.Check(bytes.Equal(w.buf.Bytes()[pre:], b), "encoding-differs", "encoding of a %s to a nearly full writer differs", c.kind)
		}
		mustEncode(r, n, c, o, b, "after a failed write")
	}
}

// c12pipe connects an encoding and a decoding task on two nodes.
func c12pipe(r *Run, a, b *Node) {
	var cs []*codec
	var each [][]byte
	var objs []interface{}
	total := 0
	k := 1 + r.Intn(3)
	for len(cs) < k {
		c, w := sample(r)
		if (!c.delim && len(cs) < k-1) || len(w) > 4000 {
			continue
		}
		cs = append(cs, c)
		each = append(each, w)
		objs = append(objs, mustDecode(r, a, c, bytes.NewReader(w), nil, "preparation"))
		total += len(w)
	}
	p := &pipe{cap: 1 + r.LogRange(0, 200), breakN: -1}
	if total > 0 && r.Bool(1, 3) {
		p.breakN = r.Intn(total)
		r.Fault("connection-break")
	}
	s := r.NewSched()
	var werr, rerr error
	var got []interface{}
	wt := s.Spawn(a, "encode", nil, func() {
		for i, c := range cs {
			if werr = c.enc(objs[i], p); werr != nil {
				break
			}
		}
		p.closed = true
	})
	rt := s.Spawn(b, "decode", nil, func() {
		for _, c := range cs {
			var o interface{}
			if o, rerr = c.dec(p, nil); rerr != nil {
				p.broken = true
				return
			}
			got = append(got, o)
		}
	})
	s.Run()
	taskPanic(r, wt, "encoding")
	taskPanic(r, rt, "decoding")
	s.Close()
	r.Note("connection")
	if p.breakN >= 0 {
		r.Check(werr != nil, "silent-failure", "encoding reports no error although the connection broke after %d of %d bytes", p.breakN, total)
		r.Check(rerr != nil, "silent-failure", "decoding reports no error although the connection broke after %d of %d bytes", p.breakN, total)
		return
	}
	r.Check(werr == nil, "encode-failed", "encoding to a connection failed: %s", errStr(werr))
	r.Check(rerr == nil, "decode-failed", "decoding from a connection failed: %s", errStr(rerr))
	for i, c := range cs {
		mustEncode(r, b, c, got[i], each[i], "over a connection")
		var e1 bool
		r.MustDo(b, nil, "Equals", func() { e1 = c.eq(got[i], objs[i]) })
		r.Check(e1, "not-equal", "a %s received over a connection does not equal the one sent", c.kind)
	}
}
