package props

import "time"

func clockJump(r *Run) time.Duration {
	d := time.Duration(r.Seed()>>1) % (40 * 365 * 24 * time.Hour)
	if r.Bool(1, 2) {
		d = -d
	}
	return d
}
