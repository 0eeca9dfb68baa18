package proto

import (
	"math/big"

	"github.com/taurusgroup/frost-ed25519/pkg/eddsa"
	"github.com/taurusgroup/frost-ed25519/pkg/frost/party"
	"github.com/taurusgroup/frost-ed25519/pkg/verif/sim"
)

func newShare(id uint16, x *big.Int) *eddsa.SecretShare {
	return eddsa.NewSecretShare(party.ID(id), sim.Scalar(x))
}
