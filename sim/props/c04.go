package props

import "encoding/base64"

func textDecode(b []byte) ([]byte, error) {
	return base64.RawURLEncoding.DecodeString(string(b))
}

func textEncode(b []byte) []byte {
	return []byte(base64.RawURLEncoding.EncodeToString(b))
}

func init() {
	register(&Property{
		ID: "C04", Quick: 2800, Thorough: 120000,
		Rule:     "Seeded worlds of 1-3 nodes hold keys, aggregate keys and signatures next to their formal values (linear combinations over signer, weight and message); contributions are signed, aggregated by every route, compressed, sent over a faulty network, resumed from disk after crashes, in interleaved calls; equal formal values must have equal bytes, different ones different bytes, and every verdict must be the one the formal values give.",
		Scenario: func(r *Run, idx int) { newBWorld(r, "C04").run(30 + r.Intn(30)) },
	})
	register(&Property{
		ID: "C05", Quick: 2800, Thorough: 60000,
		Rule:   "The same worlds with an attacker who negates, scales and mixes keys and signatures, builds rogue keys, drops, adds, swaps and repeats batch entries and presents unweighted contributions; a verdict must be positive exactly when the formal values agree.",
		Assume: []string{"the attacker does not use discrete logarithms of message hashes (known finding dlog-forgery reproduces that attack separately)"},
		Scenario: func(r *Run, idx int) {
			w := newBWorld(r, "C05")
			w.run(30 + r.Intn(30))
			w.dlogForgery()
		},
	})
	register(&Property{
		ID: "C06", Quick: 4000, Thorough: 60000,
		Rule:     "The same worlds with damaged, truncated, extended and foreign encodings decoded and aggregated into live objects, copies taken and mutated, and calls interleaved; after every group of calls every object must have exactly the value the model predicts.",
		Scenario: func(r *Run, idx int) { newBWorld(r, "C06").run(30 + r.Intn(30)) },
	})
}
