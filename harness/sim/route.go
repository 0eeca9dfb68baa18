package sim

import (
	"crypto/sha512"
	"math/big"

	"github.com/taurusgroup/frost-ed25519/pkg/ristretto"
	"github.com/taurusgroup/frost-ed25519/pkg/verif/ref"
)

// Route recomputes e without changing its value.
func Route(e *ristretto.Element, r int) (*ristretto.Element, error) {
	o := &ristretto.Element{}
	one, _ := ristretto.NewScalar().SetCanonicalBytes(ref.ScalarBytes(big.NewInt(1)))
	switch r % 8 {
	case 0:
		return o.SetCanonicalBytes(e.Bytes())
	case 1:
		o.Negate(e)
		return o.Negate(o), nil
	case 2:
		o.Add(e, ristretto.NewGeneratorElement())
		return o.Subtract(o, ristretto.NewGeneratorElement()), nil
	case 3: // 8^-1 * (8 * e): loses any torsion component
		e8, _ := ristretto.NewScalar().SetCanonicalBytes(ref.ScalarBytes(big.NewInt(8)))
		i8, _ := ristretto.NewScalar().SetCanonicalBytes(ref.ScalarBytes(ref.EightInv))
		o.ScalarMult(e8, e)
		return o.ScalarMult(i8, o), nil
	case 4:
		return o.ScalarMult(one, e), nil
	case 5: // via an element that was hashed to the group
		h := &ristretto.Element{}
		d := sha512.Sum512([]byte("route"))
		if _, err := h.SetUniformBytes(d[:]); err != nil {
			return nil, err
		}
		o.Add(e, h)
		c := &ristretto.Element{}
		if _, err := c.SetCanonicalBytes(h.Bytes()); err != nil {
			return nil, err
		}
		return o.Subtract(o, c), nil
	case 6:
		tx, err := e.MarshalText()
		if err != nil {
			return nil, err
		}
		return o, o.UnmarshalText(tx)
	default:
		m, _ := ristretto.NewScalar().SetCanonicalBytes(ref.ScalarBytes(new(big.Int).Sub(ref.Q, big.NewInt(1))))
		o.ScalarMult(m, e) // (q-1) * e = -e
		return o.Negate(o), nil
	}
}
