module github.com/taurusgroup/frost-ed25519/pkg/verif

go 1.26.0

require (
	filippo.io/edwards25519 v1.0.0-rc.1
	github.com/taurusgroup/frost-ed25519 v0.0.0
	pgregory.net/rapid v1.3.0
)

replace github.com/taurusgroup/frost-ed25519 => /repo
