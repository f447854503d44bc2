package engine

import "time"

// Shrink minimises a record of decisions. test runs a candidate and returns the
// decisions actually consumed and whether the same violation occurred.
func Shrink(rec []uint64, deadline time.Time, test func([]uint64) ([]uint64, bool)) ([]uint64, int) {
	best := append([]uint64(nil), rec...)
	tries := 0
	less := func(a, b []uint64) bool {
		if len(a) != len(b) {
			return len(a) < len(b)
		}
		for i := range a {
			if a[i] != b[i] {
				return a[i] < b[i]
			}
		}
		return false
	}
	try := func(c []uint64) bool {
		if time.Now().After(deadline) {
			return false
		}
		tries++
		used, ok := test(c)
		if !ok {
			return false
		}
		// trailing zeros are implied
		for len(used) > 0 && used[len(used)-1] == 0 {
			used = used[:len(used)-1]
		}
		if less(used, best) {
			best = append([]uint64(nil), used...)
			return true
		}
		return false
	}
	try(best)
	for {
		start := append([]uint64(nil), best...)
		// cut the tail
		for n := len(best) / 2; n >= 1; n /= 2 {
			for len(best) > n && try(best[:len(best)-n]) {
			}
		}
		// delete blocks
		for _, k := range []int{64, 16, 8, 4, 2, 1} {
			for i := len(best) - k; i >= 0; i -= k {
				if i+k > len(best) {
					continue
				}
				c := append(append([]uint64(nil), best[:i]...), best[i+k:]...)
				try(c)
			}
		}
		// zero blocks, then single values
		for _, k := range []int{32, 8, 2, 1} {
			for i := 0; i+k <= len(best); i += k {
				c := append([]uint64(nil), best...)
				ch := false
				for j := i; j < i+k; j++ {
					ch = ch || c[j] != 0
					c[j] = 0
				}
				if ch {
					try(c)
				}
			}
		}
		// smaller values
		for i := 0; i < len(best); i++ {
			for d := uint(1); d < 64 && i < len(best) && best[i] != 0; d *= 2 {
				c := append([]uint64(nil), best...)
				c[i] >>= d
				if !try(c) {
					break
				}
			}
			if i < len(best) && best[i] > 0 {
				c := append([]uint64(nil), best...)
				c[i]--
				try(c)
			}
		}
		if time.Now().After(deadline) || !less(best, start) {
			return best, tries
		}
	}
}
