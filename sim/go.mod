module verif.local/sim

go 1.23

require (
	github.com/bwesterb/go-ristretto v1.1.0
	github.com/dusk-network/bn256 v0.5.1-lattices
	github.com/dusk-network/dusk-crypto v0.0.0
	golang.org/x/crypto v0.0.0-20200128174031-69ecbb4d6d5d
)

require github.com/pkg/errors v0.8.1 // indirect

replace github.com/dusk-network/dusk-crypto => /repo
