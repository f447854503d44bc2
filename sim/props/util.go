package props

import (
	"bytes"
	"encoding/binary"
	"encoding/hex"
	"errors"
	"fmt"
	"io"
	"math/big"
	"strings"
	"syscall"

	ristretto "github.com/bwesterb/go-ristretto"

	"verif.local/sim/engine"
	"verif.local/sim/ref"
	"verif.local/sim/simrt"
)

type (
	// Run is a simulated execution.
	Run = engine.Run
	// Node is a simulated process.
	Node = engine.Node
	// Point is a ristretto point.
	Point = ristretto.Point
	// Scalar is a ristretto scalar.
	Scalar = ristretto.Scalar
)

func hx(b []byte) string {
	if len(b) > 12 {
		return hex.EncodeToString(b[:12]) + fmt.Sprintf("..(%d)", len(b))
	}
	return hex.EncodeToString(b)
}

// dictInt draws a number found in the source.
func dictInt(r *Run) (uint64, bool) {
	d := simrt.Inst.DictInts
	if len(d) == 0 {
		return 0, false
	}
	v := d[r.Intn(len(d))]
	switch r.Intn(3) {
	case 1:
		v++
	case 2:
		v--
	}
	return v, true
}

// amount draws a value in [0, 2^64): zeros, powers of two and their neighbours,
// numbers from the source, sparse and dense patterns, uniform ones.
func amount(r *Run) uint64 {
	switch r.Weighted(2, 5, 2, 2, 4, 2, 2, 4) {
	case 0:
		return uint64(r.Intn(4))
	case 7:
		return r.Seed()
	case 1:
		k := uint(r.Intn(65))
		var p uint64
		if k < 64 {
			p = 1 << k
		}
		return p + uint64(r.Intn(5)) - 2
	case 2:
		v, _ := dictInt(r)
		return v
	case 3:
		return ^uint64(0) - uint64(r.Intn(4))
	case 4:
		bits := uint(1 + r.Intn(64))
		return r.Seed() >> (64 - bits)
	case 5: // sparse
		v := uint64(0)
		for i, k := 0, 1+r.Intn(4); i < k; i++ {
			v |= 1 << uint(r.Intn(64))
		}
		return v
	default: // bytes of ones
		v := uint64(0)
		m := r.Intn(256)
		for i := uint(0); i < 8; i++ {
			if m>>i&1 == 1 {
				v |= 0xff << (8 * i)
			}
		}
		return v
	}
}

func u64Scalar(v uint64) Scalar {
	return ref.SBig(new(big.Int).SetUint64(v))
}

// scalar draws an arbitrary scalar, special ones included.
func scalar(r *Run) Scalar {
	switch r.Weighted(8, 1, 1, 1, 1, 1) {
	case 1:
		return ref.S(int64(r.Intn(3)))
	case 2:
		return ref.S(-int64(1 + r.Intn(3)))
	case 3:
		return u64Scalar(amount(r))
	case 4: // close to 2^252
		b := new(big.Int).Lsh(big.NewInt(1), uint(r.Intn(253)))
		b.Add(b, big.NewInt(int64(r.Intn(5)-2)))
		return ref.SBig(b)
	case 5:
		b := new(big.Int).Rsh(ref.Ell, 1)
		b.Add(b, big.NewInt(int64(r.Intn(3))))
		return ref.SBig(b)
	}
	return uScalar(r)
}

// uScalar draws a uniform non-zero scalar.
func uScalar(r *Run) Scalar {
	b := new(big.Int).SetBytes(r.Bytes(48))
	b.Mod(b, new(big.Int).Sub(ref.Ell, big.NewInt(1)))
	b.Add(b, big.NewInt(1))
	return ref.SBig(b)
}

// scalars derived from one decision, for reference provers.
func scalarStream(seed uint64) func() Scalar {
	n := uint64(0)
	return func() Scalar {
		n++
		b := engine.Expand(seed*0x9e3779b97f4a7c15+n+1, 48)
		return ref.SBig(new(big.Int).SetBytes(b))
	}
}

func uPoint(r *Run) Point { return ref.Base(uScalar(r)) }

// badPoints are encodings no point has.
func badPointBytes(r *Run) []byte {
	for {
		b := r.Bytes(32)
		if r.Bool(1, 4) {
			for i := range b {
				b[i] = 0xff
			}
			b[r.Intn(32)] ^= byte(1 + r.Intn(255))
		}
		var x [32]byte
		copy(x[:], b)
		var p Point
		if !p.SetBytes(&x) {
			return b
		}
	}
}

// msgLen draws a length: short ones, block sizes of the hashes and neighbours,
// numbers from the source, powers of two.
func msgLen(r *Run, max int) int {
	n := 0
	switch r.Weighted(3, 4, 2, 2, 2) {
	case 0:
		n = r.Intn(8)
	case 1:
		bs := []int{32, 64, 72, 104, 128, 136, 144, 168, 200, 256, 512, 1024, 4096}
		n = bs[r.Intn(len(bs))] + r.Intn(5) - 2
	case 2:
		v, _ := dictInt(r)
		n = int(v % uint64(max+1))
	case 3:
		n = 1<<uint(r.Intn(17)) + r.Intn(3) - 1
	case 4:
		n = r.Intn(200)
	}
	if n < 0 {
		n = 0
	}
	if n > max {
		n %= max + 1
	}
	return n
}

// message draws a message.
func message(r *Run, max int) []byte {
	n := msgLen(r, max)
	switch r.Weighted(6, 1, 1, 1) {
	case 1: // constant bytes
		b := make([]byte, n)
		c := byte(r.Intn(256))
		for i := range b {
			b[i] = c
		}
		return b
	case 2: // text from the source
		if d := simrt.Inst.DictStrs; len(d) > 0 {
			return []byte(d[r.Intn(len(d))])
		}
	case 3: // long common prefix
		b := make([]byte, n)
		if n > 0 {
			b[n-1] = byte(1 + r.Intn(255))
		}
		return b
	}
	b := engine.Expand(r.Seed()|1, n)
	return b
}

// near makes a different message that resembles m.
func near(r *Run, m []byte) []byte {
	c := append([]byte(nil), m...)
	switch r.Intn(7) {
	case 0:
		if len(c) > 0 {
			c[r.Intn(len(c))] ^= 1 << uint(r.Intn(8))
			return c
		}
	case 1:
		return append(c, 0)
	case 2:
		if len(c) > 0 {
			return c[:len(c)-1]
		}
	case 3:
		if len(c) > 0 {
			c[len(c)-1] ^= byte(1 + r.Intn(255))
			return c
		}
	case 4:
		if len(c) > 0 {
			c[0] ^= byte(1 + r.Intn(255))
			return c
		}
	case 5:
		if len(c) > 1 {
			i := r.Intn(len(c) - 1)
			if c[i] != c[i+1] {
				c[i], c[i+1] = c[i+1], c[i]
				return c
			}
		}
	}
	return append(c, byte(r.Intn(256)))
}

// spare puts x at the start of a buffer with spare capacity.
func spareBytes(r *Run, x []byte) []byte {
	k := r.Intn(3) * 40
	b := make([]byte, len(x)+k)
	copy(b, x)
	for i := len(x); i < len(b); i++ {
		b[i] = byte(0xa0 + i)
	}
	return b[:len(x)]
}

// ---- streams --------------------------------------------------------------

var errInjected = errors.New("injected fault")

// faultyReader delivers data in pieces.
type faultyReader struct {
	data    []byte
	pos     int
	plan    []int // sizes of the next reads; then everything
	eofWith bool  // the end is reported together with the last data
	failAt  int   // position at which reads fail, or -1
	err     error
	once    bool // the stream goes on after the failure
	failed  bool
	zeroes  int // number of reads returning (0, nil) before the data
	Over    int
	Reads   int
}

func (f *faultyReader) Read(b []byte) (int, error) {
	f.Reads++
	if len(b) == 0 {
		return 0, nil
	}
	if f.zeroes > 0 {
		f.zeroes--
		return 0, nil
	}
	end := len(f.data)
	fail := f.failAt >= 0 && f.failAt <= end && !(f.once && f.failed)
	if fail {
		end = f.failAt
	}
	if f.pos >= end {
		f.Over++
		if fail {
			f.failed = true
			return 0, f.err
		}
		return 0, io.EOF
	}
	n := end - f.pos
	if len(f.plan) > 0 {
		if f.plan[0] < n {
			n = f.plan[0]
		}
		f.plan = f.plan[1:]
	}
	if n > len(b) {
		n = len(b)
	}
	copy(b, f.data[f.pos:f.pos+n])
	f.pos += n
	if f.eofWith && f.pos >= end {
		if fail {
			f.failed = true
			return n, f.err
		}
		return n, io.EOF
	}
	return n, nil
}

// newReader plans a chunked stream over data.
func newReader(r *Run, data []byte) *faultyReader {
	f := &faultyReader{data: data, failAt: -1, err: errInjected}
	switch r.Weighted(2, 2, 2, 2) {
	case 1: // byte by byte
		for i := 0; i < len(data); i++ {
			f.plan = append(f.plan, 1)
		}
		r.Fault("byte-wise-delivery")
	case 2:
		for i := 0; i < len(data); {
			n := 1 + r.LogRange(0, 100)
			f.plan = append(f.plan, n)
			i += n
		}
		r.Fault("chunked-delivery")
	case 3:
		n := []int{31, 32, 33, 63, 64, 65, 4, 36}[r.Intn(8)]
		for i := 0; i < len(data); i += n {
			f.plan = append(f.plan, n)
		}
		r.Fault("chunked-delivery")
	}
	if r.Bool(1, 3) {
		f.eofWith = true
		r.Fault("eof-with-data")
	}
	if r.Bool(1, 6) {
		f.zeroes = 1 + r.Intn(3)
		r.Fault("empty-read")
	}
	return f
}

// faultyWriter accepts limit bytes and then fails.
type faultyWriter struct {
	buf   bytes.Buffer
	limit int // -1: unlimited
	short bool
	hit   bool
	once  bool // it takes everything after the failure
	err   error
}

// tempErr is a failure that calls itself temporary.
type tempErr struct{}

func (tempErr) Error() string   { return "injected temporary fault" }
func (tempErr) Temporary() bool { return true }
func (tempErr) Timeout() bool   { return true }

// ioErr draws a failure.
func ioErr(r *Run) error {
	return []error{errInjected, tempErr{}, syscall.EINTR, syscall.EAGAIN, io.ErrShortWrite, io.ErrNoProgress, io.ErrClosedPipe}[r.Intn(7)]
}

func (w *faultyWriter) Write(b []byte) (int, error) {
	if w.limit < 0 || w.buf.Len()+len(b) <= w.limit || (w.hit && w.once) {
		return w.buf.Write(b)
	}
	w.hit = true
	n := 0
	if w.short {
		n = w.limit - w.buf.Len()
		w.buf.Write(b[:n])
		if w.err != nil {
			return n, w.err
		}
		return n, io.ErrShortWrite
	}
	if w.err != nil {
		return 0, w.err
	}
	return 0, errInjected
}

// ---- network --------------------------------------------------------------

// Msg is in flight.
type Msg struct {
	ID      int
	From    int
	To      int
	Kind    string
	Data    []byte
	Obj     interface{}
	Damaged bool
	Copy    bool
}

// Net loses, duplicates, delays, reorders and damages messages, and is partitioned.
type Net struct {
	r     *Run
	q     []*Msg
	lost  []*Msg
	next  int
	Lossy int // percent
	Dup   int
	Part  map[int]bool // nodes in the minority side
	Heal  bool
}

func newNet(r *Run) *Net {
	n := &Net{r: r, Part: map[int]bool{}}
	n.Lossy = []int{0, 5, 20, 50}[r.Intn(4)]
	n.Dup = []int{0, 10, 30}[r.Intn(3)]
	return n
}

// Send puts a message into flight.
func (n *Net) Send(m *Msg) {
	n.next++
	m.ID = n.next
	if !n.Heal && n.r.Bool(n.Lossy, 100) {
		n.r.Fault("message-loss")
		n.lost = append(n.lost, m)
		return
	}
	n.q = append(n.q, m)
	if !n.Heal && n.r.Bool(n.Dup, 100) {
		n.r.Fault("message-duplication")
		c := *m
		c.Copy = true
		n.q = append(n.q, &c)
	}
}

// Toggle changes the partition.
func (n *Net) Toggle(node int) {
	n.r.Fault("partition")
	n.Part[node] = !n.Part[node]
}

// Recover ends all faults; what was lost is sent again.
func (n *Net) Recover() {
	n.Heal = true
	n.Part = map[int]bool{}
	n.q = append(n.q, n.lost...)
	n.lost = nil
}

// Pending counts deliverable messages.
func (n *Net) Pending() int {
	k := 0
	for _, m := range n.q {
		if n.Part[m.From] == n.Part[m.To] {
			k++
		}
	}
	return k
}

// Deliver picks a message.
func (n *Net) Deliver() *Msg {
	var idx []int
	for i, m := range n.q {
		if n.Part[m.From] == n.Part[m.To] {
			idx = append(idx, i)
		}
	}
	if len(idx) == 0 {
		return nil
	}
	k := n.r.Intn(len(idx))
	if k > 0 {
		n.r.Fault("message-reordering")
	}
	m := n.q[idx[k]]
	n.q = append(n.q[:idx[k]], n.q[idx[k]+1:]...)
	return m
}

// ---- clocks ---------------------------------------------------------------

// clocks gives nodes skewed, frozen or jumping clocks.
func clocks(r *Run, nodes ...*Node) {
	for _, n := range nodes {
		switch r.Weighted(3, 2, 1) {
		case 1:
			r.Jump(n, clockJump(r))
		case 2:
			r.Freeze(n)
		}
	}
}

func be32(n uint32) []byte {
	var b [4]byte
	binary.BigEndian.PutUint32(b[:], n)
	return b[:]
}

func pick(r *Run, n int) int { return r.Intn(n) }

func errStr(e error) string {
	if e == nil {
		return "<nil>"
	}
	s := e.Error()
	if len(s) > 80 {
		s = s[:80]
	}
	return s
}

// mustNoPanic evaluates the outcome of a task.
func taskPanic(r *Run, t *engine.Task, what string) {
	r.Checks++
	if t.Panic != "" && t.Panic != "stop" {
		r.Fail(engine.PanicKind(t.Panic), "%s: %s", what, t.Panic)
	}
}

// visitedDuring runs fn and returns the statements it executed.
func visitedDuring(fn func()) []uint32 {
	before := make([]uint32, len(simrt.Inst.Sites))
	for i := range before {
		before[i] = simrt.Tab[i].Count
	}
	fn()
	var l []uint32
	for i := range before {
		if simrt.Tab[i].Count != before[i] {
			l = append(l, uint32(i))
		}
	}
	return l
}

var siteLists = map[string][]uint32{}

// sitesIn lists the statements of files with the given prefix.
func sitesIn(prefix string) []uint32 {
	if l, ok := siteLists[prefix]; ok {
		return l
	}
	var l []uint32
	for i, s := range simrt.Inst.Sites {
		if strings.HasPrefix(s, prefix) {
			l = append(l, uint32(i))
		}
	}
	siteLists[prefix] = l
	return l
}
