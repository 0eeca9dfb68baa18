package proto

import (
	"bytes"
	"crypto/ed25519"
	"fmt"
	"math/big"
	"testing"

	"github.com/taurusgroup/frost-ed25519/pkg/eddsa"
	"github.com/taurusgroup/frost-ed25519/pkg/verif/lib"
	"github.com/taurusgroup/frost-ed25519/pkg/verif/ref"
	"github.com/taurusgroup/frost-ed25519/pkg/verif/sim"
	"pgregory.net/rapid"
)

// maxN is the largest generated party count.
func maxN() int {
	if lib.Thorough() {
		return 12
	}
	return 7
}

func keysFor(g sim.Group, dkg bool) (*sim.Keys, error) {
	if dkg && g.T > 0 {
		return sim.DKG(g.IDs, g.T, g.Seed)
	}
	return sim.Deal(g.IDs, g.T, g.Seed), nil
}

// ---- C01 ----

type signCase struct {
	G       sim.Group
	DKG     bool
	Signers []uint16
	Msg     []byte
	Other   []byte
	Mode    string
	Sched   []int
	Eager   bool
	Seed    uint64
}

func genSignCase(rt *rapid.T) signCase {
	var c signCase
	c.G = sim.GenGroup(rt, 2, maxN())
	c.DKG = rapid.IntRange(0, 2).Draw(rt, "dkg") == 0
	if !c.DKG && rapid.IntRange(0, 7).Draw(rt, "t0") == 0 {
		c.G.T = 0
	}
	n := len(c.G.IDs)
	k := int(c.G.T) + 1
	if rapid.Bool().Draw(rt, "more") {
		k = rapid.IntRange(k, n).Draw(rt, "k")
	}
	c.Signers = sim.GenSubset(rt, c.G.IDs, k)
	c.Msg = sim.GenMsg(rt)
	c.Other = sim.GenMsg(rt)
	c.Mode = rapid.SampledFrom(modes).Draw(rt, "mode")
	if c.Mode == "schedule" {
		c.Sched = sim.GenChoices(rt, 30)
		c.Eager = rapid.Bool().Draw(rt, "eager")
	}
	c.Seed = uint64(rapid.Uint32().Draw(rt, "sseed"))
	return c
}

// How an honest session is driven: round by round, under a generated schedule, or by the
// helper that applications use.
var modes = []string{"rounds", "schedule", "routine"}

func drive(nodes []*sim.Node, mode string, sched []int, eager bool) error {
	switch mode {
	case "schedule":
		w := sim.NewNet(nodes)
		w.Eager = eager
		if err := w.Run(sched); err != nil {
			return err
		}
		return w.AllOK()
	case "routine":
		return sim.Routine(nodes, 3)
	}
	return sim.Lockstep(nodes, 3)
}

func checkHonestSign(c *signCase) lib.Result {
	k, err := keysFor(c.G, c.DKG)
	if err != nil {
		return lib.Fail("key generation: %v", err)
	}
	res := lib.Result{NonTrivial: true, Labels: []string{sim.IDShape(c.G.IDs), fmt.Sprintf("dkg=%v", c.DKG)}}
	switch {
	case len(c.Signers) == len(c.G.IDs):
		res.Labels = append(res.Labels, "signers=all")
	case len(c.Signers) == int(c.G.T)+1:
		res.Labels = append(res.Labels, "signers=t+1<n")
	default:
		res.Labels = append(res.Labels, "t+1<signers<n")
	}
	nodes, err := sim.SignNodes(k, c.Signers, c.Msg, c.Seed)
	if err != nil {
		return lib.Fail("creating a valid session: %v", err)
	}
	if err := drive(nodes, c.Mode, c.Sched, c.Eager); err != nil {
		return lib.Result{Err: err}
	}
	res.Labels = append(res.Labels, "driven="+c.Mode)
	group := ref.EncodeEd(k.Group)
	if !bytes.Equal(group, k.Public.GroupKey.ToEd25519()) {
		return lib.Fail("group key is not the key of the secret")
	}
	if err := checkAllSigned(nodes, k.Public.GroupKey, group, c.Msg); err != nil {
		return lib.Result{Err: err}
	}
	sig := nodes[0].SG.Signature
	for _, other := range otherMessages(c.Msg, c.Other) {
		if ed25519.Verify(group, other, sig.ToEd25519()) || k.Public.GroupKey.Verify(other, sig) {
			return lib.Fail("signature for %x also verifies for %x", c.Msg, other)
		}
	}
	return res
}

func otherMessages(msg, other []byte) [][]byte {
	out := [][]byte{append(append([]byte{}, msg...), 0)}
	if len(msg) > 0 {
		x := append([]byte{}, msg...)
		x[len(x)-1] ^= 1
		out = append(out, x, msg[:len(msg)-1])
	}
	if !bytes.Equal(other, msg) {
		out = append(out, other)
	}
	return out
}

// checkAllSigned: every node output the same signature and it verifies.
func checkAllSigned(nodes []*sim.Node, pk *eddsa.PublicKey, group, msg []byte) error {
	var first []byte
	for _, n := range nodes {
		sig := n.SG.Signature
		if sig == nil {
			return fmt.Errorf("signer %d succeeded without a signature", n.ID)
		}
		if err := sim.CheckSignature(sig, group, msg); err != nil {
			return fmt.Errorf("signer %d: %w", n.ID, err)
		}
		if !pk.Verify(msg, sig) {
			return fmt.Errorf("signer %d: the library rejects its own signature", n.ID)
		}
		enc, err := sig.MarshalBinary()
		if err != nil {
			return err
		}
		enc = append(enc, sig.ToEd25519()...)
		if first == nil {
			first = enc
		} else if !bytes.Equal(first, enc) {
			return fmt.Errorf("signer %d outputs %x, signer %d outputs %x", n.ID, enc, nodes[0].ID, first)
		}
	}
	return nil
}

func TestC01Sign(t *testing.T) { lib.Run(t, "C01.sign", 1, genSignCase, checkHonestSign) }

// A big signer set now and then: sizes beyond what the other cases use.
type bigCase struct {
	N, T, K, Step uint16
	Seed          uint64
	Msg           []byte
}

func TestC01Large(t *testing.T) {
	lib.Run(t, "C01.large", 0.04, func(rt *rapid.T) bigCase {
		var c bigCase
		c.N = rapid.Uint16Range(8, 60).Draw(rt, "n")
		c.T = rapid.Uint16Range(1, c.N-1).Draw(rt, "t")
		c.K = rapid.Uint16Range(c.T+1, c.N).Draw(rt, "k")
		c.Step = rapid.Uint16Range(1, 1000).Draw(rt, "step")
		c.Seed = uint64(rapid.Uint32().Draw(rt, "seed"))
		c.Msg = sim.GenMsg(rt)
		return c
	}, func(c *bigCase) lib.Result {
		var ids []uint16
		for i := uint16(0); i < c.N; i++ {
			ids = append(ids, 65535-i*c.Step)
		}
		ids = ref.Sorted(ids)
		return checkHonestSign(&signCase{G: sim.Group{IDs: ids, T: c.T, Seed: c.Seed}, Signers: ids[int(c.N)-int(c.K):], Msg: c.Msg, Seed: c.Seed})
	})
}

// ---- C02 ----

type dkgCase struct {
	G     sim.Group
	Pick  []int
	Mode  string
	Sched []int
}

func checkDKG(c *dkgCase) lib.Result {
	nodes, err := sim.KeygenNodes(c.G.IDs, c.G.T, c.G.Seed)
	if err != nil {
		return lib.Fail("creating a valid session: %v", err)
	}
	if err := drive(nodes, c.Mode, c.Sched, len(c.Sched)%2 == 0); err != nil {
		return lib.Result{Err: err}
	}
	bc, err := sim.Broadcasts(nodes)
	if err != nil {
		return lib.Result{Err: err}
	}
	if err := sim.CheckKeygen(nodes, c.G.IDs, c.G.T, bc); err != nil {
		return lib.Result{Err: err}
	}
	k, err := sim.KeysFrom(nodes)
	if err != nil {
		return lib.Result{Err: err}
	}
	m, err := sim.CheckInterpolation(k, nodes[0].KG.Public.GroupKey.ToEd25519(), c.Pick)
	if err != nil {
		return lib.Result{Err: err}
	}
	// every dealer's private shares lie on its committed polynomial, of degree exactly t
	for _, n := range nodes {
		for _, b := range n.Sent {
			p, ok := ref.Parse(b)
			if !ok {
				return lib.Fail("party %d sent a malformed message %x", n.ID, b)
			}
			if p.Type == ref.KG2 && !ref.Equal(ref.BaseMul(p.Scalar), ref.EvalExp(bc[n.ID].Commits, big.NewInt(int64(p.To)))) {
				return lib.Fail("share of %d for %d is not on its committed polynomial", n.ID, p.To)
			}
			if p.Type == ref.KG1 {
				for i, cm := range p.Commits {
					if ref.IsIdentity(cm) {
						return lib.Fail("party %d: coefficient %d is zero", n.ID, i)
					}
				}
			}
		}
		if !nodes[0].KG.Public.Equal(n.KG.Public) {
			return lib.Fail("Public.Equal says the outputs of %d and %d differ", nodes[0].ID, n.ID)
		}
	}
	return lib.Result{NonTrivial: true, Labels: []string{sim.IDShape(c.G.IDs), fmt.Sprintf("n=%d", len(c.G.IDs)), fmt.Sprintf("t=n-1:%v", int(c.G.T) == len(c.G.IDs)-1), fmt.Sprintf("subsets>=%d", m/8*8), "driven=" + c.Mode}}
}

func TestC02DKG(t *testing.T) {
	lib.Run(t, "C02.dkg", 1, func(rt *rapid.T) dkgCase {
		c := dkgCase{G: sim.GenGroup(rt, 2, maxN()), Pick: rapid.SliceOfN(rapid.IntRange(0, 1<<20), 8, 24).Draw(rt, "pick"), Mode: rapid.SampledFrom(modes).Draw(rt, "mode")}
		if c.Mode == "schedule" {
			c.Sched = sim.GenChoices(rt, 30)
		}
		return c
	}, checkDKG)
}

func TestC02Large(t *testing.T) {
	lib.Run(t, "C02.large", 0.02, func(rt *rapid.T) bigCase {
		var c bigCase
		c.N = rapid.Uint16Range(8, 24).Draw(rt, "n")
		c.T = rapid.Uint16Range(1, c.N-1).Draw(rt, "t")
		c.Step = rapid.Uint16Range(1, 2500).Draw(rt, "step")
		c.Seed = uint64(rapid.Uint32().Draw(rt, "seed"))
		return c
	}, func(c *bigCase) lib.Result {
		var ids []uint16
		for i := uint16(0); i < c.N; i++ {
			ids = append(ids, 65535-i*c.Step)
		}
		return checkDKG(&dkgCase{G: sim.Group{IDs: ref.Sorted(ids), T: c.T, Seed: c.Seed}, Pick: []int{5, 0, 9, 1, 1<<19 - 1, 2, 77777, 2}})
	})
}

// ---- C03 ----

type schedCase struct {
	G       sim.Group
	Sign    bool
	Signers []uint16
	Msg     []byte
	Sched   []int
	Eager   bool
	Seed    uint64
}

func genSched(rt *rapid.T) schedCase {
	var c schedCase
	c.G = sim.GenGroup(rt, 2, 5)
	c.Sign = rapid.Bool().Draw(rt, "sign")
	c.Signers = c.G.IDs
	if c.Sign {
		c.Signers = sim.GenSubset(rt, c.G.IDs, rapid.IntRange(int(c.G.T)+1, len(c.G.IDs)).Draw(rt, "k"))
		c.Msg = sim.GenMsg(rt)
	}
	c.Sched = sim.GenChoices(rt, 60)
	c.Eager = rapid.Bool().Draw(rt, "eager")
	c.Seed = uint64(rapid.Uint32().Draw(rt, "sseed"))
	return c
}

func (c *schedCase) nodes(k *sim.Keys) ([]*sim.Node, error) {
	if c.Sign {
		return sim.SignNodes(k, c.Signers, c.Msg, c.Seed)
	}
	return sim.KeygenNodes(c.G.IDs, c.G.T, c.Seed)
}

// outcome is a comparable form of the outputs.
func outcome(nodes []*sim.Node) string {
	s := ""
	for _, n := range nodes {
		switch {
		case n.KG != nil && n.KG.Public != nil && n.KG.SecretKey != nil:
			s += fmt.Sprintf("%d:%x:%x:%v:%d;", n.ID, n.KG.SecretKey.Secret.Bytes(), []byte(n.KG.Public.GroupKey.ToEd25519()), n.KG.Public.PartyIDs, n.KG.Public.Threshold)
			for _, id := range n.KG.Public.PartyIDs {
				s += fmt.Sprintf("%x,", n.KG.Public.Shares[id].Bytes())
			}
		case n.SG != nil && n.SG.Signature != nil:
			s += fmt.Sprintf("%d:%x;", n.ID, n.SG.Signature.ToEd25519())
		default:
			s += fmt.Sprintf("%d:none;", n.ID)
		}
	}
	return s
}

func checkSched(c *schedCase) lib.Result {
	var k *sim.Keys
	if c.Sign {
		k = sim.Deal(c.G.IDs, c.G.T, c.G.Seed)
	}
	base, err := c.nodes(k)
	if err != nil {
		return lib.Fail("creating a valid session: %v", err)
	}
	if err := sim.Lockstep(base, 3); err != nil {
		return lib.Fail("in-order run: %v", err)
	}
	nodes, err := c.nodes(k)
	if err != nil {
		return lib.Fail("creating a valid session: %v", err)
	}
	w := sim.NewNet(nodes)
	w.Eager = c.Eager
	if err := w.Run(c.Sched); err != nil {
		return lib.Result{Err: err}
	}
	if err := w.AllOK(); err != nil {
		return lib.Result{Err: err}
	}
	if a, b := outcome(base), outcome(nodes); a != b {
		return lib.Fail("outputs differ from the in-order run with the same randomness:\n%s\n%s", a, b)
	}
	if c.Sign {
		if err := checkAllSigned(nodes, k.Public.GroupKey, ref.EncodeEd(k.Group), c.Msg); err != nil {
			return lib.Result{Err: err}
		}
	} else {
		bc, err := sim.Broadcasts(nodes)
		if err == nil {
			err = sim.CheckKeygen(nodes, c.G.IDs, c.G.T, bc)
		}
		if err != nil {
			return lib.Result{Err: err}
		}
	}
	res := lib.Result{NonTrivial: w.Reordered+w.Early+w.Ahead+w.Dups > 0}
	for l, v := range map[string]int{"early": w.Early, "next-round-ahead": w.Ahead, "duplicate": w.Dups, "reordered": w.Reordered} {
		if v > 0 {
			res.Labels = append(res.Labels, l)
		}
	}
	res.Labels = append(res.Labels, fmt.Sprintf("sign=%v", c.Sign))
	return res
}

func TestC03Schedules(t *testing.T) { lib.Run(t, "C03.sched", 1, genSched, checkSched) }

type bigSchedCase struct {
	N, T, K, Step uint16
	Sign          bool
	Late          []int // the parties that are behind
	Start         bool  // they start with the others but hear nothing until these have answered
	Order         []int
	Dup           bool
	Seed          uint64
}

// More parties than the other cases have, some of them far behind the others.
func TestC03Large(t *testing.T) {
	lib.Run(t, "C03.large", 0.015, func(rt *rapid.T) bigSchedCase {
		var c bigSchedCase
		c.Sign = rapid.Bool().Draw(rt, "sign")
		// evenly: rapid's own ranges favour small values
		c.N = 8 + uint16(rapid.Uint32().Draw(rt, "n")*2654435761>>16)%15
		if c.Sign {
			c.N = 8 + uint16(rapid.Uint32().Draw(rt, "n2")*2654435761>>16)%41
		}
		c.T = rapid.Uint16Range(1, min(c.N-1, 10)).Draw(rt, "t")
		c.K = rapid.Uint16Range(max(c.T+1, c.N-4), c.N).Draw(rt, "k")
		c.Step = rapid.Uint16Range(1, 1000).Draw(rt, "step")
		c.Late = rapid.SliceOfN(rapid.IntRange(0, 1<<16), 1, 3).Draw(rt, "late")
		c.Start = rapid.Bool().Draw(rt, "start")
		c.Order = sim.GenChoices(rt, 20)
		c.Dup = rapid.Bool().Draw(rt, "dup")
		c.Seed = uint64(rapid.Uint32().Draw(rt, "seed"))
		return c
	}, checkBigSched)
}

func checkBigSched(c *bigSchedCase) lib.Result {
	var ids []uint16
	for i := uint16(0); i < c.N; i++ {
		ids = append(ids, 65535-i*c.Step)
	}
	ids = ref.Sorted(ids)
	s := &schedCase{G: sim.Group{IDs: ids, T: c.T, Seed: c.Seed}, Sign: c.Sign, Signers: ids, Msg: []byte("large"), Seed: c.Seed}
	var k *sim.Keys
	if c.Sign {
		s.Signers = ids[int(c.N)-int(c.K):]
		k = sim.Deal(s.G.IDs, s.G.T, s.G.Seed)
	}
	base, err := s.nodes(k)
	if err != nil {
		return lib.Fail("creating a valid session: %v", err)
	}
	if err := sim.Lockstep(base, 3); err != nil {
		return lib.Fail("in-order run: %v", err)
	}
	nodes, err := s.nodes(k)
	if err != nil {
		return lib.Fail("creating a valid session: %v", err)
	}
	late := map[int]bool{}
	for _, l := range c.Late {
		late[l%len(nodes)] = true
	}
	dups := 0
	var fail error
	// give delivers the messages in an order of its own to one party
	give := func(x int, ms [][]byte) {
		o := pick(c.Order, x)
		n := nodes[x]
		for i := range ms {
			b := ms[(i+x+o)%len(ms)]
			if o%2 == 1 {
				b = ms[len(ms)-1-(i+o/2)%len(ms)]
			}
			if !sim.For(b, n.ID) {
				continue
			}
			if err := n.Handle(b); err != nil && fail == nil {
				fail = fmt.Errorf("party %d refuses a genuine message %s: %w", n.ID, lib.Clip(b), err)
			}
			if c.Dup && (i+o)%3 == 0 {
				dups++
				_ = n.Handle(b)
			}
		}
	}
	var first, lateFirst, second, last [][]byte
	for x, n := range nodes {
		if !late[x] {
			first = append(first, n.Step()...)
		} else if c.Start {
			lateFirst = append(lateFirst, n.Step()...)
		}
	}
	if !c.Start {
		for x, n := range nodes {
			if late[x] {
				give(x, first)
				lateFirst = append(lateFirst, n.Step()...)
			}
		}
	}
	for x, n := range nodes {
		if !late[x] {
			give(x, append(append([][]byte{}, first...), lateFirst...))
			second = append(second, n.Drive()...)
		}
	}
	if len(second) == 0 && len(late) < len(nodes) {
		return lib.Fail("no second messages though everybody on time has all first ones")
	}
	for x, n := range nodes {
		if late[x] {
			// the answers come before what they answer
			give(x, second)
			if c.Start {
				give(x, first)
			}
			give(x, lateFirst)
			last = append(last, n.Drive()...)
		}
	}
	for x, n := range nodes {
		ms := last
		if !late[x] {
			ms = append(append([][]byte{}, last...), second...)
		}
		give(x, ms)
		n.Drive()
	}
	if fail != nil {
		return lib.Result{Err: fail}
	}
	for _, n := range nodes {
		if done, err := n.Finished(); !done || err != nil {
			return lib.Fail("party %d: finished %v, error %v, with all messages delivered", n.ID, done, err)
		}
	}
	if a, b := outcome(base), outcome(nodes); a != b {
		return lib.Fail("outputs differ from the in-order run with the same randomness:\n%s\n%s", a, b)
	}
	return lib.Result{NonTrivial: true, Labels: []string{fmt.Sprintf("sign=%v", c.Sign), fmt.Sprintf("late=%d", len(late)), fmt.Sprintf("n>=%d", len(nodes)/8*8), fmt.Sprintf("started=%v", c.Start), fmt.Sprintf("dups=%v", dups > 0)}}
}
