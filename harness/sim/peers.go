package sim

import (
	"math/big"

	"github.com/taurusgroup/frost-ed25519/pkg/verif/ref"
)

// Peers stands for all other parties of one session, made from the reference model. Their
// first messages are known from the start; signing responses once the session has committed.
type Peers struct {
	Self  uint16
	IDs   []uint16
	T     uint16
	Seed  uint64
	Sign  bool
	Keys  *Keys
	Msg   []byte
	coef  map[uint16][]*big.Int
	view  *ref.SignView
	SelfC *ref.Msg // the session's first message
}

// Others lists the peers' IDs.
func (p *Peers) Others() []uint16 {
	var out []uint16
	for _, id := range p.IDs {
		if id != p.Self {
			out = append(out, id)
		}
	}
	return out
}

// Poly is a peer's polynomial.
func (p *Peers) Poly(id uint16) []*big.Int {
	if p.coef == nil {
		p.coef = map[uint16][]*big.Int{}
	}
	if p.coef[id] == nil {
		for i := 0; i <= int(p.T); i++ {
			p.coef[id] = append(p.coef[id], ref.Expand(p.Seed+uint64(id)<<16, "peer", i))
		}
	}
	return p.coef[id]
}

// First is a peer's first message; bad makes it invalid.
func (p *Peers) First(id uint16, bad bool) []byte {
	if p.Sign {
		d, e := p.nonces(id)
		D, E := ref.BaseMul(d), ref.BaseMul(e)
		if bad {
			E = ref.Identity()
		}
		return ref.MsgS1(id, D, E)
	}
	co := p.Poly(id)
	s, r := ref.Prove(id, ref.ZeroCtx, co[0], ref.Expand(p.Seed+uint64(id)<<16, "k", 0))
	if bad {
		r = ref.AddQ(r, big.NewInt(1))
	}
	var cm []*ref.Pt
	for _, c := range co {
		cm = append(cm, ref.BaseMul(c))
	}
	return ref.MsgKG1(id, s, r, cm)
}

func (p *Peers) nonces(id uint16) (d, e *big.Int) {
	return ref.Expand(p.Seed+uint64(id)<<16, "d", 0), ref.Expand(p.Seed+uint64(id)<<16, "e", 0)
}

// View is the signing view, once the session's commitments are known.
func (p *Peers) View() *ref.SignView {
	if p.view == nil && p.SelfC != nil {
		c := map[uint16]ref.Commit{p.Self: {D: p.SelfC.D, E: p.SelfC.E}}
		for _, id := range p.Others() {
			d, e := p.nonces(id)
			c[id] = ref.Commit{D: ref.BaseMul(d), E: ref.BaseMul(e)}
		}
		p.view = ref.NewSignView(p.IDs, p.Msg, p.Keys.Group, c)
	}
	return p.view
}

// Second is a peer's second message to the session. ok is false when it cannot be made valid
// yet (a signing response before the session has committed).
func (p *Peers) Second(id uint16, bad bool) (b []byte, ok bool) {
	if p.Sign {
		v := p.View()
		if v == nil {
			return ref.MsgS2(id, ref.Expand(p.Seed, "wrong", int(id))), bad
		}
		d, e := p.nonces(id)
		z := v.Response(id, d, e, p.Keys.Secret[id])
		if bad {
			z = ref.AddQ(z, big.NewInt(1))
		}
		return ref.MsgS2(id, z), true
	}
	x := ref.Eval(p.Poly(id), big.NewInt(int64(p.Self)))
	if bad {
		x = ref.AddQ(x, big.NewInt(1))
	}
	return ref.MsgKG2(id, p.Self, x), true
}
