// Package sim drives real sessions of the library: single nodes, whole networks under a
// generated schedule, and reference-made peers that can misbehave.
package sim

import (
	"crypto/rand"
	"fmt"
	"math/big"
	"time"

	"github.com/taurusgroup/frost-ed25519/pkg/eddsa"
	"github.com/taurusgroup/frost-ed25519/pkg/frost"
	"github.com/taurusgroup/frost-ed25519/pkg/frost/keygen"
	"github.com/taurusgroup/frost-ed25519/pkg/frost/party"
	"github.com/taurusgroup/frost-ed25519/pkg/frost/sign"
	"github.com/taurusgroup/frost-ed25519/pkg/helpers"
	"github.com/taurusgroup/frost-ed25519/pkg/messages"
	"github.com/taurusgroup/frost-ed25519/pkg/ristretto"
	"github.com/taurusgroup/frost-ed25519/pkg/state"
	"github.com/taurusgroup/frost-ed25519/pkg/verif/lib"
	"github.com/taurusgroup/frost-ed25519/pkg/verif/ref"
)

// IDs converts to the library's party list, keeping order.
func IDs(ids []uint16) party.IDSlice {
	out := make(party.IDSlice, len(ids))
	for i, id := range ids {
		out[i] = party.ID(id)
	}
	return out
}

// Scalar converts to a library scalar.
func Scalar(k *big.Int) *ristretto.Scalar {
	s, err := ristretto.NewScalar().SetCanonicalBytes(ref.ScalarBytes(k))
	if err != nil {
		panic(err)
	}
	return s
}

// Elem converts to a library element.
func Elem(p *ref.Pt) *ristretto.Element {
	e := ristretto.NewIdentityElement()
	if _, err := e.SetCanonicalBytes(ref.Encode(p)); err != nil {
		panic(err)
	}
	return e
}

// Pt converts a library element.
func Pt(e *ristretto.Element) *ref.Pt {
	p, ok := ref.Decode(e.Bytes())
	if !ok {
		panic(fmt.Sprintf("element encodes to %x, which is not a canonical encoding", e.Bytes()))
	}
	return p
}

// Int converts a library scalar.
func Int(s *ristretto.Scalar) *big.Int { return ref.Int(s.Bytes()) }

// Node is one session at one party.
type Node struct {
	ID   uint16
	St   *state.State
	KG   *keygen.Output
	SG   *sign.Output
	Rand *lib.Stream // the party's entropy; nil: the system's
	// Ptrs holds every message value the session returned, Sent its encoding at that time.
	Ptrs []*messages.Message
	Sent [][]byte
}

// Seed makes the node's entropy the process's.
func (n *Node) Seed() { n.seed() }

func (n *Node) seed() {
	if n.Rand != nil {
		rand.Reader = n.Rand
	}
}

// NewKeygen creates a key generation session.
func NewKeygen(id uint16, ids []uint16, t uint16, d time.Duration, rnd *lib.Stream) (*Node, error) {
	n := &Node{ID: id, Rand: rnd}
	n.seed()
	var err error
	n.St, n.KG, err = frost.NewKeygenState(party.ID(id), IDs(ids), party.Size(t), d)
	return n, err
}

// NewSign creates a signing session.
func NewSign(ids []uint16, sk *eddsa.SecretShare, pub *eddsa.Public, msg []byte, d time.Duration, rnd *lib.Stream) (*Node, error) {
	n := &Node{ID: uint16(sk.ID), Rand: rnd}
	n.seed()
	var err error
	n.St, n.SG, err = frost.NewSignState(IDs(ids), sk, pub, msg, d)
	return n, err
}

// Handle decodes and delivers one wire message.
func (n *Node) Handle(b []byte) error {
	n.seed()
	var m messages.Message
	buf := append([]byte{}, b...)
	if err := m.UnmarshalBinary(buf); err != nil {
		return err
	}
	scribble(buf) // the buffer is the caller's to reuse
	return n.St.HandleMessage(&m)
}

func scribble(b []byte) {
	for i := range b {
		b[i] ^= 0xa5
	}
}

// Step calls ProcessAll once and encodes what it returns.
func (n *Node) Step() [][]byte {
	n.seed()
	var out [][]byte
	for _, m := range n.St.ProcessAll() {
		b, err := m.MarshalBinary()
		if err != nil {
			panic(fmt.Sprintf("a returned message does not encode: %v", err))
		}
		own := append([]byte{}, b...)
		scribble(b)
		n.Ptrs = append(n.Ptrs, m)
		n.Sent = append(n.Sent, own)
		out = append(out, own)
	}
	return out
}

// Drive processes until no more progress is made.
func (n *Node) Drive() [][]byte {
	var out [][]byte
	for i := 0; i < 8; i++ {
		o := n.Step()
		out = append(out, o...)
		if n.St.IsFinished() || len(o) == 0 {
			break
		}
	}
	return out
}

// Finished reports termination and the error.
func (n *Node) Finished() (bool, error) {
	if !n.St.IsFinished() {
		return false, nil
	}
	return true, n.St.WaitForError()
}

// Blame decodes a session error.
func Blame(err error) (id uint16, round int, ok bool) {
	switch e := err.(type) {
	case *state.Error:
		return uint16(e.PartyID), e.RoundNumber, true
	case state.Error:
		return uint16(e.PartyID), e.RoundNumber, true
	}
	return 0, 0, false
}

// Keys is a threshold key in reference and library form.
type Keys struct {
	IDs    []uint16
	T      uint16
	Coef   []*big.Int // empty for DKG keys
	Secret map[uint16]*big.Int
	Pub    map[uint16]*ref.Pt
	Group  *ref.Pt
	Shares map[uint16]*eddsa.SecretShare
	Public *eddsa.Public
}

// Deal makes dealer keys from a seed with the reference arithmetic.
func Deal(ids []uint16, t uint16, seed uint64) *Keys {
	k := &Keys{IDs: ref.Sorted(ids), T: t, Secret: map[uint16]*big.Int{}, Pub: map[uint16]*ref.Pt{}, Shares: map[uint16]*eddsa.SecretShare{}}
	for j := 0; j <= int(t); j++ {
		k.Coef = append(k.Coef, ref.Expand(seed, "deal", j))
	}
	els := map[party.ID]*ristretto.Element{}
	for _, id := range k.IDs {
		x := ref.Eval(k.Coef, big.NewInt(int64(id)))
		k.Secret[id] = x
		k.Pub[id] = ref.BaseMul(x)
		k.Shares[id] = eddsa.NewSecretShare(party.ID(id), Scalar(x))
		els[party.ID(id)] = Elem(k.Pub[id])
	}
	k.Group = ref.BaseMul(k.Coef[0])
	pub, err := eddsa.NewPublic(els, party.Size(t))
	if err != nil {
		panic(fmt.Sprintf("NewPublic refuses a valid key: %v", err))
	}
	k.Public = pub
	return k
}

// DKG runs an honest in-order key generation and returns the keys.
func DKG(ids []uint16, t uint16, seed uint64) (*Keys, error) {
	nodes, err := KeygenNodes(ids, t, seed)
	if err != nil {
		return nil, err
	}
	if err := Lockstep(nodes, 3); err != nil {
		return nil, err
	}
	return KeysFrom(nodes)
}

// KeysFrom collects key generation outputs.
func KeysFrom(nodes []*Node) (*Keys, error) {
	k := &Keys{Secret: map[uint16]*big.Int{}, Pub: map[uint16]*ref.Pt{}, Shares: map[uint16]*eddsa.SecretShare{}}
	for _, n := range nodes {
		if n.KG.SecretKey == nil || n.KG.Public == nil {
			return nil, fmt.Errorf("party %d has no key generation output", n.ID)
		}
		k.IDs = append(k.IDs, n.ID)
		k.Secret[n.ID] = Int(&n.KG.SecretKey.Secret)
		k.Pub[n.ID] = ref.BaseMul(k.Secret[n.ID])
		k.Shares[n.ID] = n.KG.SecretKey
	}
	k.Public = nodes[0].KG.Public
	k.T = uint16(k.Public.Threshold)
	g := new(big.Int)
	sub := k.IDs[:int(k.T)+1]
	for _, id := range sub {
		g = ref.AddQ(g, ref.MulQ(ref.Lagrange(id, sub), k.Secret[id]))
	}
	k.Group = ref.BaseMul(g)
	return k, nil
}

// KeygenNodes creates one session per party with its own entropy.
func KeygenNodes(ids []uint16, t uint16, seed uint64) ([]*Node, error) {
	var nodes []*Node
	for _, id := range ids {
		n, err := NewKeygen(id, ids, t, 0, lib.NewStream(seed*131071+uint64(id)))
		if err != nil {
			return nil, fmt.Errorf("party %d: %w", id, err)
		}
		nodes = append(nodes, n)
	}
	return nodes, nil
}

// SignNodes creates one session per signer with its own entropy.
func SignNodes(k *Keys, signers []uint16, msg []byte, seed uint64) ([]*Node, error) {
	var nodes []*Node
	for _, id := range signers {
		n, err := NewSign(signers, k.Shares[id], k.Public, msg, 0, lib.NewStream(seed*131071+uint64(id)+7))
		if err != nil {
			return nil, fmt.Errorf("signer %d: %w", id, err)
		}
		nodes = append(nodes, n)
	}
	return nodes, nil
}

// Lockstep runs rounds in order, delivering everything to everyone it is meant for.
func Lockstep(nodes []*Node, rounds int) error {
	var in [][]byte
	for r := 0; r < rounds; r++ {
		var out [][]byte
		for _, n := range nodes {
			for _, b := range in {
				if For(b, n.ID) {
					if err := n.Handle(b); err != nil {
						return fmt.Errorf("party %d refuses a genuine message %s: %w", n.ID, lib.Clip(b), err)
					}
				}
			}
			out = append(out, n.Step()...)
		}
		in = out
	}
	for _, n := range nodes {
		done, err := n.Finished()
		if err != nil {
			return fmt.Errorf("party %d: honest session failed: %w", n.ID, err)
		}
		if !done {
			return fmt.Errorf("party %d: honest session did not finish", n.ID)
		}
	}
	return nil
}

// Routine runs rounds in order through helpers.PartyRoutine, which skips nothing: messages for
// others and a party's own are handed to it too.
func Routine(nodes []*Node, rounds int) error {
	var in [][]byte
	for r := 0; r < rounds; r++ {
		var next [][]byte
		for _, n := range nodes {
			n.seed()
			out, err := helpers.PartyRoutine(in, n.St)
			if err != nil {
				return fmt.Errorf("party %d: PartyRoutine fails on genuine messages: %w", n.ID, err)
			}
			n.Sent = append(n.Sent, out...)
			next = append(next, out...)
		}
		in = next
	}
	for _, n := range nodes {
		done, err := n.Finished()
		if err != nil {
			return fmt.Errorf("party %d: honest session failed: %w", n.ID, err)
		}
		if !done {
			return fmt.Errorf("party %d: honest session did not finish", n.ID)
		}
	}
	return nil
}

// For reports whether an encoded message is meant for id.
func For(b []byte, id uint16) bool {
	m, ok := ref.ParseHeader(b)
	return ok && m.From != id && (m.To == 0 || m.To == id)
}
