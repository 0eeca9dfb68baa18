package sim

import (
	"bytes"
	"crypto/ed25519"
	"fmt"
	"math/big"

	"github.com/taurusgroup/frost-ed25519/pkg/eddsa"
	"github.com/taurusgroup/frost-ed25519/pkg/verif/ref"
)

// Broadcasts parses the KeyGen1 messages the nodes sent.
func Broadcasts(nodes []*Node) (map[uint16]*ref.Msg, error) {
	m := map[uint16]*ref.Msg{}
	for _, n := range nodes {
		for _, b := range n.Sent {
			p, ok := ref.Parse(b)
			if !ok {
				return nil, fmt.Errorf("party %d sent a malformed message %x", n.ID, b)
			}
			if p.Type == ref.KG1 {
				m[n.ID] = p
			}
		}
	}
	return m, nil
}

// CheckKeygen checks the outputs of the given honest nodes against everyone's broadcast
// commitments: same public data, shares on the summed polynomial, matching secrets.
func CheckKeygen(nodes []*Node, ids []uint16, t uint16, bc map[uint16]*ref.Msg) error {
	ids = ref.Sorted(ids)
	sum := make([]*ref.Pt, int(t)+1)
	for i := range sum {
		sum[i] = ref.Identity()
	}
	for _, id := range ids {
		m := bc[id]
		if m == nil {
			return fmt.Errorf("party %d broadcast no commitments", id)
		}
		if len(m.Commits) != int(t)+1 {
			return fmt.Errorf("party %d committed to %d coefficients, want %d", id, len(m.Commits), t+1)
		}
		for i := range sum {
			sum[i] = ref.Add(sum[i], m.Commits[i])
		}
	}
	groupEd := ref.EncodeEd(sum[0])
	want := map[uint16][]byte{}
	wantPt := map[uint16]*ref.Pt{}
	for _, id := range ids {
		wantPt[id] = ref.EvalExp(sum, big.NewInt(int64(id)))
		want[id] = ref.Encode(wantPt[id])
	}
	for _, n := range nodes {
		done, err := n.Finished()
		if !done || err != nil {
			return fmt.Errorf("party %d: finished=%v err=%v", n.ID, done, err)
		}
		if n.KG.Public == nil || n.KG.SecretKey == nil {
			return fmt.Errorf("party %d: success without output", n.ID)
		}
		if err := CheckPublic(n.KG.Public, ids, t, groupEd, want); err != nil {
			return fmt.Errorf("party %d: %w", n.ID, err)
		}
		sk := n.KG.SecretKey
		if uint16(sk.ID) != n.ID {
			return fmt.Errorf("party %d: secret share carries ID %d", n.ID, sk.ID)
		}
		if !bytes.Equal(ref.Encode(ref.BaseMul(Int(&sk.Secret))), want[n.ID]) {
			return fmt.Errorf("party %d: secret share does not match its public share", n.ID)
		}
		if !bytes.Equal(sk.Public.Bytes(), want[n.ID]) {
			return fmt.Errorf("party %d: SecretShare.Public is not its public share", n.ID)
		}
	}
	return nil
}

// CheckPublic compares public data with what it should be.
func CheckPublic(p *eddsa.Public, ids []uint16, t uint16, groupEd []byte, want map[uint16][]byte) error {
	if len(p.PartyIDs) != len(ids) {
		return fmt.Errorf("public data lists parties %v, want %v", p.PartyIDs, ids)
	}
	for i, id := range ids {
		if uint16(p.PartyIDs[i]) != id {
			return fmt.Errorf("public data lists parties %v, want %v", p.PartyIDs, ids)
		}
	}
	if uint16(p.Threshold) != t {
		return fmt.Errorf("public data has threshold %d, want %d", p.Threshold, t)
	}
	if len(p.Shares) != len(ids) {
		return fmt.Errorf("public data has %d shares, want %d", len(p.Shares), len(ids))
	}
	for id, e := range p.Shares {
		w, ok := want[uint16(id)]
		if !ok || e == nil || !bytes.Equal(e.Bytes(), w) {
			return fmt.Errorf("public share of %d is wrong", id)
		}
	}
	if p.GroupKey == nil {
		return fmt.Errorf("no group key")
	}
	if !bytes.Equal(p.GroupKey.ToEd25519(), groupEd) {
		return fmt.Errorf("group key %x, want %x", []byte(p.GroupKey.ToEd25519()), groupEd)
	}
	return nil
}

// CheckInterpolation checks which subsets of the secret shares reconstruct the group secret.
// pick chooses subsets when there are too many.
func CheckInterpolation(k *Keys, groupEd []byte, pick []int) (int, error) {
	n, t := len(k.IDs), int(k.T)
	checked := 0
	test := func(sub []uint16) error {
		checked++
		s := new(big.Int)
		for _, id := range sub {
			s = ref.AddQ(s, ref.MulQ(ref.Lagrange(id, sub), k.Secret[id]))
		}
		same := bytes.Equal(ref.EncodeEd(ref.BaseMul(s)), groupEd)
		if len(sub) > t && !same {
			return fmt.Errorf("shares of %v (threshold %d) do not interpolate to the group secret", sub, t)
		}
		if len(sub) <= t && same {
			return fmt.Errorf("only %d shares %v already give the group secret (threshold %d)", len(sub), sub, t)
		}
		return nil
	}
	if n <= 5 {
		for m := 1; m < 1<<uint(n); m++ {
			if err := test(subset(k.IDs, m)); err != nil {
				return checked, err
			}
		}
		return checked, nil
	}
	if err := test(k.IDs); err != nil {
		return checked, err
	}
	for i := 0; i+1 < len(pick); i += 2 {
		m := subset(k.IDs, pick[i])
		if len(m) == 0 {
			continue
		}
		// force the boundary sizes
		switch pick[i+1] % 3 {
		case 0:
			m = sized(k.IDs, pick[i], t+1)
		case 1:
			m = sized(k.IDs, pick[i], t)
		}
		if len(m) == 0 {
			continue
		}
		if err := test(m); err != nil {
			return checked, err
		}
	}
	return checked, nil
}

func subset(ids []uint16, mask int) []uint16 {
	var out []uint16
	for i, id := range ids {
		if mask>>uint(i%30)&1 == 1 {
			out = append(out, id)
		}
	}
	return out
}

func sized(ids []uint16, start, size int) []uint16 {
	var out []uint16
	for i := 0; i < size && i < len(ids); i++ {
		out = append(out, ids[(start+i)%len(ids)])
	}
	return ref.Sorted(out)
}

// CheckSignature checks one output signature with the standard verifier.
func CheckSignature(sig *eddsa.Signature, group []byte, msg []byte) error {
	b := sig.ToEd25519()
	if len(b) != 64 {
		return fmt.Errorf("signature has %d bytes", len(b))
	}
	if !ed25519.Verify(group, msg, b) {
		return fmt.Errorf("crypto/ed25519 rejects the signature %x for message %x under %x", b, msg, group)
	}
	return nil
}
