package engine

import (
	"crypto/sha256"
	"encoding/binary"
	"math/rand/v2"
	"sync"
)

// Stream is a simulated entropy source: an endless pseudo-random byte stream that
// may deliver short reads.
type Stream struct {
	mu    sync.Mutex
	seed  [32]byte
	c     *rand.ChaCha8
	N     int // bytes delivered
	Reads int
	Short bool
	sh    *rand.PCG
	kids  uint64
	up    *Stream
	// KidReads counts the reads by goroutines the owner started. Which of them draws what
	// may then depend on their order.
	KidReads int
	Keep     bool
	Log      []byte // all bytes delivered, if Keep
	Sizes    []int  // requested sizes, if Keep
}

// Clone makes a stream with the same content from the beginning.
func (s *Stream) Clone() *Stream {
	c := &Stream{seed: s.seed}
	c.reset()
	return c
}

// NewStream derives a stream from a seed and a label.
func NewStream(seed uint64, label string) *Stream {
	h := sha256.New()
	var b [8]byte
	binary.LittleEndian.PutUint64(b[:], seed)
	h.Write(b[:])
	h.Write([]byte(label))
	s := &Stream{}
	h.Sum(s.seed[:0])
	s.reset()
	return s
}

func (s *Stream) reset() {
	s.c = rand.NewChaCha8(s.seed)
	s.sh = rand.NewPCG(binary.LittleEndian.Uint64(s.seed[:8]), 3)
}

// Child derives the stream of the next goroutine started by the owner.
func (s *Stream) Child() *Stream {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.kids++
	h := sha256.New()
	h.Write(s.seed[:])
	var b [8]byte
	binary.LittleEndian.PutUint64(b[:], s.kids)
	h.Write(b[:])
	c := &Stream{Short: s.Short, up: s}
	h.Sum(c.seed[:0])
	c.reset()
	return c
}

// Read implements io.Reader.
func (s *Stream) Read(b []byte) (int, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	n := len(b)
	if s.Short && n > 1 {
		n = 1 + int(s.sh.Uint64()%uint64(n))
	}
	s.c.Read(b[:n])
	s.N += n
	s.Reads++
	if s.Keep {
		s.Log = append(s.Log, b[:n]...)
		s.Sizes = append(s.Sizes, len(b))
	}
	for u := s.up; u != nil; u = u.up {
		u.mu.Lock()
		u.N += n
		u.Reads++
		u.KidReads++
		if u.Keep {
			u.Log = append(u.Log, b[:n]...)
			u.Sizes = append(u.Sizes, len(b))
		}
		u.mu.Unlock()
	}
	return n, nil
}
