module verif/mc

go 1.27

godebug randseednop=0

require (
	github.com/OneOfOne/xxhash v1.2.5
	github.com/bwesterb/go-ristretto v1.1.0
	github.com/dusk-network/bn256 v0.5.1-lattices
	github.com/dusk-network/dusk-crypto v0.0.0
	golang.org/x/crypto v0.0.0-20200128174031-69ecbb4d6d5d
)

require (
	github.com/pkg/errors v0.8.1 // indirect
	golang.org/x/sys v0.0.0-20200124204421-9fbb57f87de9 // indirect
)

replace github.com/dusk-network/dusk-crypto => /repo
