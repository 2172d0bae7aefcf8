module verif

go 1.26.0

require (
	github.com/ethereum/go-ethereum v1.9.10
	github.com/ing-bank/zkrp v0.0.0
	golang.org/x/sys v0.49.0
	pgregory.net/rapid v1.3.0
)

replace github.com/ing-bank/zkrp => /repo
