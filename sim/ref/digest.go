package ref

import (
	"encoding/binary"
	"math/bits"
)

// BLAKE2b, SHA-3 and xxHash written from their specifications.

var b2iv = [8]uint64{
	0x6a09e667f3bcc908, 0xbb67ae8584caa73b, 0x3c6ef372fe94f82b, 0xa54ff53a5f1d36f1,
	0x510e527fade682d1, 0x9b05688c2b3e6c1f, 0x1f83d9abfb41bd6b, 0x5be0cd19137e2179,
}

var b2sigma = [10][16]byte{
	{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15},
	{14, 10, 4, 8, 9, 15, 13, 6, 1, 12, 0, 2, 11, 7, 5, 3},
	{11, 8, 12, 0, 5, 2, 15, 13, 10, 14, 3, 6, 7, 1, 9, 4},
	{7, 9, 3, 1, 13, 12, 11, 14, 2, 6, 5, 10, 4, 0, 15, 8},
	{9, 0, 5, 7, 2, 4, 10, 15, 14, 1, 11, 12, 6, 8, 3, 13},
	{2, 12, 6, 10, 0, 11, 8, 3, 4, 13, 7, 5, 15, 14, 1, 9},
	{12, 5, 1, 15, 14, 13, 4, 10, 0, 7, 6, 3, 9, 2, 8, 11},
	{13, 11, 7, 14, 12, 1, 3, 9, 5, 0, 15, 4, 8, 6, 2, 10},
	{6, 15, 14, 9, 11, 3, 0, 8, 12, 2, 13, 7, 1, 4, 10, 5},
	{10, 2, 8, 4, 7, 6, 1, 5, 15, 11, 9, 14, 3, 12, 13, 0},
}

// Blake2b computes an unkeyed BLAKE2b digest of size bytes (RFC 7693).
func Blake2b(size int, msg []byte) []byte {
	h := b2iv
	h[0] ^= 0x01010000 ^ uint64(size)
	compress := func(block []byte, t uint64, last bool) {
		var m, v [16]uint64
		for i := range m {
			m[i] = binary.LittleEndian.Uint64(block[8*i:])
		}
		copy(v[:8], h[:])
		copy(v[8:], b2iv[:])
		v[12] ^= t
		if last {
			v[14] = ^v[14]
		}
		mix := func(a, b, c, d int, x, y uint64) {
			v[a] += v[b] + x
			v[d] = bits.RotateLeft64(v[d]^v[a], -32)
			v[c] += v[d]
			v[b] = bits.RotateLeft64(v[b]^v[c], -24)
			v[a] += v[b] + y
			v[d] = bits.RotateLeft64(v[d]^v[a], -16)
			v[c] += v[d]
			v[b] = bits.RotateLeft64(v[b]^v[c], -63)
		}
		for i := 0; i < 12; i++ {
			s := b2sigma[i%10]
			mix(0, 4, 8, 12, m[s[0]], m[s[1]])
			mix(1, 5, 9, 13, m[s[2]], m[s[3]])
			mix(2, 6, 10, 14, m[s[4]], m[s[5]])
			mix(3, 7, 11, 15, m[s[6]], m[s[7]])
			mix(0, 5, 10, 15, m[s[8]], m[s[9]])
			mix(1, 6, 11, 12, m[s[10]], m[s[11]])
			mix(2, 7, 8, 13, m[s[12]], m[s[13]])
			mix(3, 4, 9, 14, m[s[14]], m[s[15]])
		}
		for i := range h {
			h[i] ^= v[i] ^ v[i+8]
		}
	}
	t := uint64(0)
	rest := msg
	for len(rest) > 128 {
		t += 128
		compress(rest[:128], t, false)
		rest = rest[128:]
	}
	var block [128]byte
	copy(block[:], rest)
	compress(block[:], t+uint64(len(rest)), true)
	var out [64]byte
	for i := range h {
		binary.LittleEndian.PutUint64(out[8*i:], h[i])
	}
	return append([]byte(nil), out[:size]...)
}

var keccakRC = func() (rc [24]uint64) {
	lfsr := byte(1)
	for i := range rc {
		for j := uint(0); j < 7; j++ {
			if lfsr&1 == 1 {
				rc[i] |= 1 << (1<<j - 1)
			}
			if lfsr&0x80 != 0 {
				lfsr = lfsr<<1 ^ 0x71
			} else {
				lfsr <<= 1
			}
		}
	}
	return
}()

func keccakF(a *[5][5]uint64) { // a[x][y]
	for round := 0; round < 24; round++ {
		var c [5]uint64
		for x := 0; x < 5; x++ {
			c[x] = a[x][0] ^ a[x][1] ^ a[x][2] ^ a[x][3] ^ a[x][4]
		}
		for x := 0; x < 5; x++ {
			d := c[(x+4)%5] ^ bits.RotateLeft64(c[(x+1)%5], 1)
			for y := 0; y < 5; y++ {
				a[x][y] ^= d
			}
		}
		x, y, cur := 1, 0, a[1][0]
		for t := 0; t < 24; t++ {
			x, y = y, (2*x+3*y)%5
			cur, a[x][y] = a[x][y], bits.RotateLeft64(cur, (t+1)*(t+2)/2%64)
		}
		for y := 0; y < 5; y++ {
			var row [5]uint64
			for x := 0; x < 5; x++ {
				row[x] = a[x][y]
			}
			for x := 0; x < 5; x++ {
				a[x][y] = row[x] ^ ^row[(x+1)%5]&row[(x+2)%5]
			}
		}
		a[0][0] ^= keccakRC[round]
	}
}

// Sha3 computes a SHA3 digest of size bytes (FIPS 202).
func Sha3(size int, msg []byte) []byte {
	rate := 200 - 2*size
	b := append(append([]byte(nil), msg...), 6)
	for len(b)%rate != 0 {
		b = append(b, 0)
	}
	b[len(b)-1] |= 0x80
	var a [5][5]uint64
	for ; len(b) > 0; b = b[rate:] {
		for i := 0; i < rate/8; i++ {
			a[i%5][i/5] ^= binary.LittleEndian.Uint64(b[8*i:])
		}
		keccakF(&a)
	}
	out := make([]byte, 200)
	for i := 0; i < 25; i++ {
		binary.LittleEndian.PutUint64(out[8*i:], a[i%5][i/5])
	}
	return out[:size:size]
}

// XXH64 computes the 64-bit xxHash with seed 0, in big-endian order.
func XXH64(msg []byte) []byte {
	const (
		p1 = 11400714785074694791
		p2 = 14029467366897019727
		p3 = 1609587929392839161
		p4 = 9650029242287828579
		p5 = 2870177450012600261
	)
	var one uint64 = p1
	round := func(acc, in uint64) uint64 { return bits.RotateLeft64(acc+in*p2, 31) * p1 }
	n := uint64(len(msg))
	var h uint64
	b := msg
	if len(b) >= 32 {
		v := [4]uint64{one + p2, p2, 0, -one}
		for ; len(b) >= 32; b = b[32:] {
			for i := range v {
				v[i] = round(v[i], binary.LittleEndian.Uint64(b[8*i:]))
			}
		}
		h = bits.RotateLeft64(v[0], 1) + bits.RotateLeft64(v[1], 7) + bits.RotateLeft64(v[2], 12) + bits.RotateLeft64(v[3], 18)
		for i := range v {
			h = (h^round(0, v[i]))*p1 + p4
		}
	} else {
		h = p5
	}
	h += n
	for ; len(b) >= 8; b = b[8:] {
		h = bits.RotateLeft64(h^round(0, binary.LittleEndian.Uint64(b)), 27)*p1 + p4
	}
	if len(b) >= 4 {
		h = bits.RotateLeft64(h^uint64(binary.LittleEndian.Uint32(b))*p1, 23)*p2 + p3
		b = b[4:]
	}
	for _, c := range b {
		h = bits.RotateLeft64(h^uint64(c)*p5, 11) * p1
	}
	h = (h ^ h>>33) * p2
	h = (h ^ h>>29) * p3
	h ^= h >> 32
	var out [8]byte
	binary.BigEndian.PutUint64(out[:], h)
	return out[:]
}
