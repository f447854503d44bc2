package props

import (
	"bytes"
	"fmt"
	"io"
	"reflect"

	"github.com/dusk-network/dusk-crypto/mlsag"
	"github.com/dusk-network/dusk-crypto/rangeproof"
	"github.com/dusk-network/dusk-crypto/rangeproof/innerproduct"
	"github.com/dusk-network/dusk-crypto/rangeproof/pedersen"

	"verif.local/sim/ref"
	"verif.local/sim/simrt"
)

// codec is one encodable kind of object with its parameters fixed.
type codec struct {
	vec   bool // a vector whose count is not in the encoding
	kind  string
	delim bool // the encoding says where it ends
	// tail is the length of the part before the trailing list of an undelimited object.
	tail int
	dec  func(rd io.Reader, used interface{}) (interface{}, error)
	enc  func(o interface{}, w io.Writer) error
	eq   func(a, b interface{}) bool
	// parse is the reference decoder: consumed bytes and canonical encoding.
	parse func(b []byte) (int, []byte, error)
}

func codecProof(commits bool) *codec {
	c := &codec{kind: fmt.Sprintf("range proof (commitments %v)", commits)}
	c.dec = func(rd io.Reader, used interface{}) (interface{}, error) {
		p := &rangeproof.Proof{}
		if used != nil {
			p = used.(*rangeproof.Proof)
		}
		return p, p.Decode(rd, commits)
	}
	c.enc = func(o interface{}, w io.Writer) error { return o.(*rangeproof.Proof).Encode(w, commits) }
	c.eq = func(a, b interface{}) bool {
		return a.(*rangeproof.Proof).Equals(*b.(*rangeproof.Proof), commits)
	}
	c.parse = func(b []byte) (int, []byte, error) {
		p, err := ref.ParseRP(b, commits)
		if err != nil {
			return 0, nil, err
		}
		return len(b), p.Encode(commits), nil
	}
	return c
}

func codecIP() *codec {
	return &codec{kind: "inner-product proof", tail: 64,
		dec: func(rd io.Reader, used interface{}) (interface{}, error) {
			p := &innerproduct.Proof{}
			if used != nil {
				p = used.(*innerproduct.Proof)
			}
			return p, p.Decode(rd)
		},
		enc: func(o interface{}, w io.Writer) error { return o.(*innerproduct.Proof).Encode(w) },
		eq: func(a, b interface{}) bool {
			return a.(*innerproduct.Proof).Equals(*b.(*innerproduct.Proof))
		},
		parse: func(b []byte) (int, []byte, error) {
			w := &ref.Wire{B: b}
			var out []byte
			for i := 0; i < 2; i++ {
				s := w.Scalar()
				out = append(out, s.Bytes()...)
			}
			if w.Err == nil && (len(b)-64)%64 != 0 {
				return 0, nil, io.ErrUnexpectedEOF
			}
			for w.Err == nil && w.Pos < len(b) {
				p := w.Point()
				out = append(out, p.Bytes()...)
			}
			return len(b), out, w.Err
		},
	}
}

func codecComm() *codec {
	return &codec{kind: "commitment", delim: true,
		dec: func(rd io.Reader, used interface{}) (interface{}, error) {
			p := &pedersen.Commitment{}
			if used != nil {
				p = used.(*pedersen.Commitment)
			}
			return p, p.Decode(rd)
		},
		enc:   func(o interface{}, w io.Writer) error { return o.(*pedersen.Commitment).Encode(w) },
		eq:    func(a, b interface{}) bool { return a.(*pedersen.Commitment).EqualValue(*b.(*pedersen.Commitment)) },
		parse: parsePoints(1),
	}
}

func parsePoints(n int) func(b []byte) (int, []byte, error) {
	return func(b []byte) (int, []byte, error) {
		w := &ref.Wire{B: b}
		var out []byte
		for i := 0; i < n && w.Err == nil; i++ {
			p := w.Point()
			out = append(out, p.Bytes()...)
		}
		return w.Pos, out, w.Err
	}
}

func codecComms() *codec {
	return &codec{kind: "list of commitments", delim: true,
		dec: func(rd io.Reader, used interface{}) (interface{}, error) {
			l, err := pedersen.DecodeCommitments(rd)
			return l, err
		},
		enc: func(o interface{}, w io.Writer) error {
			return pedersen.EncodeCommitments(w, o.([]pedersen.Commitment))
		},
		eq: func(a, b interface{}) bool {
			x, y := a.([]pedersen.Commitment), b.([]pedersen.Commitment)
			if len(x) != len(y) {
				return false
			}
			for i := range x {
				if !x[i].EqualValue(y[i]) {
					return false
				}
			}
			return true
		},
		parse: func(b []byte) (int, []byte, error) {
			w := &ref.Wire{B: b}
			n := w.U32()
			if w.Err != nil {
				return 0, nil, w.Err
			}
			k, out, err := 0, []byte(nil), error(nil)
			if uint64(n)*32 > uint64(len(b)) {
				// too short; still report an error
				return 0, nil, io.ErrUnexpectedEOF
			}
			k, out, err = parsePoints(int(n))(b[4:])
			return 4 + k, append(be32(n), out...), err
		},
	}
}

func codecSig(keys bool) *codec {
	return &codec{kind: fmt.Sprintf("ring signature (keys %v)", keys), delim: true,
		dec: func(rd io.Reader, used interface{}) (interface{}, error) {
			p := &mlsag.Signature{}
			if used != nil {
				p = used.(*mlsag.Signature)
			}
			return p, p.Decode(rd, keys)
		},
		enc: func(o interface{}, w io.Writer) error { return o.(*mlsag.Signature).Encode(w, keys) },
		eq: func(a, b interface{}) bool {
			return a.(*mlsag.Signature).Equals(*b.(*mlsag.Signature), keys)
		},
		parse: func(b []byte) (int, []byte, error) {
			m, n, err := ref.ParseMLSAG(b, keys)
			if err != nil {
				return 0, nil, err
			}
			return n, m.Encode(keys), nil
		},
	}
}

func codecKeys(n int) *codec {
	return &codec{kind: fmt.Sprintf("vector of %d keys", n), delim: true, vec: true,
		dec: func(rd io.Reader, used interface{}) (interface{}, error) {
			p := &mlsag.PubKeys{}
			return p, p.Decode(rd, uint32(n))
		},
		enc:   func(o interface{}, w io.Writer) error { return o.(*mlsag.PubKeys).Encode(w) },
		eq:    func(a, b interface{}) bool { return a.(*mlsag.PubKeys).Equals(*b.(*mlsag.PubKeys)) },
		parse: parsePoints(n),
	}
}

func codecResp(n int) *codec {
	return &codec{kind: fmt.Sprintf("vector of %d responses", n), delim: true, vec: true,
		dec: func(rd io.Reader, used interface{}) (interface{}, error) {
			p := &mlsag.Responses{}
			return p, p.Decode(rd, uint32(n))
		},
		enc: func(o interface{}, w io.Writer) error { return o.(*mlsag.Responses).Encode(w) },
		eq:  func(a, b interface{}) bool { return a.(*mlsag.Responses).Equals(*b.(*mlsag.Responses)) },
		parse: func(b []byte) (int, []byte, error) {
			w := &ref.Wire{B: b}
			var out []byte
			for i := 0; i < n && w.Err == nil; i++ {
				s := w.Scalar()
				out = append(out, s.Bytes()...)
			}
			return w.Pos, out, w.Err
		},
	}
}

var ptPool []Point
var scPool []Scalar

// poolPoint draws a point, cheaply.
func poolPoint(r *Run) Point {
	if ptPool == nil {
		rnd := scalarStream(77)
		for i := 0; i < 64; i++ {
			ptPool = append(ptPool, ref.Base(rnd()))
		}
		ptPool[0] = ref.Zero()
		ptPool[1] = ref.BlindBase()
		ptPool[2] = ref.ValueBase()
	}
	return ptPool[r.Intn(len(ptPool))]
}

// manyPoints draws n points from the pool with a single decision.
func manyPoints(r *Run, n int) []Point {
	poolPoint(r)
	b := engineExpand(r, n)
	l := make([]Point, n)
	for i := range l {
		l[i] = ptPool[int(b[i])%len(ptPool)]
	}
	return l
}

func engineExpand(r *Run, n int) []byte { return r.Bytes(n) }

func manyScalars(r *Run, n int) []Scalar {
	rnd := scalarStream(r.Seed())
	l := make([]Scalar, n)
	for i := range l {
		l[i] = rnd()
	}
	for k := 0; k < 2 && n > 0; k++ {
		if r.Bool(1, 3) {
			l[r.Intn(n)] = scalar(r)
		}
	}
	return l
}

func smallCount(r *Run, max int) int {
	switch r.Weighted(2, 4, 3, 2) {
	case 0:
		return r.Intn(2)
	case 1:
		return 1 + r.Intn(6)
	case 2:
		return r.Intn(max/4 + 1)
	}
	if v, ok := dictInt(r); ok && r.Bool(1, 2) {
		return int(v % uint64(max+1))
	}
	return r.Intn(max + 1)
}

// sample draws a kind of object and a valid encoding of one.
func sample(r *Run) (*codec, []byte) {
	big := 60
	if r.Bool(1, 12) {
		big = 700
	}
	switch r.Weighted(4, 2, 2, 4, 6, 2, 2) {
	case 0:
		commits := r.Bool(2, 3)
		c := codecProof(commits)
		var b []byte
		if r.Bool(1, 2) {
			ws := fixedProofs()
			b = ws[r.Intn(len(ws))]
			if !commits {
				p, _ := ref.ParseRP(b, true)
				b = p.Encode(false)
			} else {
				b = append([]byte(nil), b...)
			}
		} else {
			p := &ref.RP{}
			if commits {
				p.V = manyPoints(r, smallCount(r, 40))
			}
			q := manyPoints(r, 4)
			s := manyScalars(r, 5)
			p.A, p.S, p.T1, p.T2 = q[0], q[1], q[2], q[3]
			p.Taux, p.Mu, p.T, p.IA, p.IB = s[0], s[1], s[2], s[3], s[4]
			n := smallCount(r, 40)
			p.L, p.R = manyPoints(r, n), manyPoints(r, n)
			b = p.Encode(commits)
		}
		p, _ := ref.ParseRP(b, commits)
		c.tail = len(b) - 64*len(p.L)
		return c, b
	case 1:
		c := codecIP()
		var b []byte
		for _, s := range manyScalars(r, 2) {
			b = append(b, s.Bytes()...)
		}
		for _, p := range manyPoints(r, 2*smallCount(r, 40)) {
			b = append(b, p.Bytes()...)
		}
		return c, b
	case 2:
		p := poolPoint(r)
		return codecComm(), append([]byte(nil), p.Bytes()...)
	case 3:
		n := smallCount(r, big)
		b := be32(uint32(n))
		for _, p := range manyPoints(r, n) {
			b = append(b, p.Bytes()...)
		}
		return codecComms(), b
	case 4:
		keys := r.Bool(2, 3)
		m := &ref.MLSAG{}
		m.C = manyScalars(r, 1)[0]
		n, k := smallCount(r, big/2), 1+r.Intn(3)
		if n > 0 && r.Bool(1, 8) {
			k = 1 + r.Intn(20)
		}
		for i := 0; i < n; i++ {
			m.R = append(m.R, manyScalars(r, k))
			m.Keys = append(m.Keys, manyPoints(r, k))
		}
		return codecSig(keys), m.Encode(keys)
	case 5:
		n := smallCount(r, big)
		var b []byte
		for _, p := range manyPoints(r, n) {
			b = append(b, p.Bytes()...)
		}
		return codecKeys(n), b
	}
	n := smallCount(r, big)
	var b []byte
	for _, p := range manyScalars(r, n) {
		b = append(b, p.Bytes()...)
	}
	return codecResp(n), b
}

// encodeToBytes is used for comparisons.
func (c *codec) bytes(o interface{}) ([]byte, error) {
	var b bytes.Buffer
	err := c.enc(o, &b)
	return b.Bytes(), err
}

// pipe is a connection between two tasks with a bounded buffer.
type pipe struct {
	buf    []byte
	cap    int
	closed bool
	broken bool // the reader is gone
	total  int
	breakN int // the connection breaks after so many bytes, if >= 0
}

func (p *pipe) Read(b []byte) (int, error) {
	if len(b) == 0 {
		return 0, nil
	}
	for len(p.buf) == 0 {
		if p.broken {
			return 0, errInjected
		}
		if p.closed {
			return 0, io.EOF
		}
		simrt.Block()
	}
	n := copy(b, p.buf)
	p.buf = p.buf[n:]
	simrt.Moved = true
	return n, nil
}

func (p *pipe) Write(b []byte) (int, error) {
	w := 0
	for len(b) > 0 {
		if p.broken {
			return w, errInjected
		}
		if p.breakN >= 0 && p.total >= p.breakN {
			p.broken = true
			return w, errInjected
		}
		room := p.cap - len(p.buf)
		if p.breakN >= 0 && p.breakN-p.total < room {
			room = p.breakN - p.total
		}
		if room == 0 {
			simrt.Block()
			continue
		}
		if room > len(b) {
			room = len(b)
		}
		p.buf = append(p.buf, b[:room]...)
		p.total += room
		simrt.Moved = true
		w += room
		b = b[room:]
	}
	return w, nil
}

// shallow copies the object itself, not what it refers to, as an assignment does.
func shallow(o interface{}) interface{} {
	v := reflect.ValueOf(o)
	if v.Kind() != reflect.Ptr {
		return o
	}
	c := reflect.New(v.Type().Elem())
	c.Elem().Set(v.Elem())
	return c.Interface()
}

// again draws another object of the same kind, if the kind is one whose decoder replaces
// what the receiver holds.
func again(r *Run, c *codec) (*codec, []byte, bool) {
	if c.vec || c.kind == codecComms().kind {
		return nil, nil, false
	}
	for i := 0; i < 6; i++ {
		if c2, b := sample(r); c2.kind == c.kind {
			return c2, b, true
		}
	}
	return nil, nil, false
}
