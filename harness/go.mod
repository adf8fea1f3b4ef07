module verif/harness

go 1.14

require (
	filippo.io/edwards25519 v1.0.0-rc.1
	github.com/taurusgroup/frost-ed25519 v0.0.0
)

replace github.com/taurusgroup/frost-ed25519 => /repo
