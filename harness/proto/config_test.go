package proto

import (
	"fmt"
	"testing"

	"github.com/taurusgroup/frost-ed25519/pkg/eddsa"
	"github.com/taurusgroup/frost-ed25519/pkg/frost"
	"github.com/taurusgroup/frost-ed25519/pkg/frost/party"
	"github.com/taurusgroup/frost-ed25519/pkg/verif/lib"
	"github.com/taurusgroup/frost-ed25519/pkg/verif/ref"
	"github.com/taurusgroup/frost-ed25519/pkg/verif/sim"
	"pgregory.net/rapid"
)

// ---- C13 ----

type confCase struct {
	Sign    bool
	IDs     []uint16 // party list given to the constructor
	Self    uint16
	T       uint16
	Holders []uint16 // key holders (signing)
	KeyT    uint16
	Seed    uint64
}

func genConf(rt *rapid.T) confCase {
	var c confCase
	c.Sign = rapid.Bool().Draw(rt, "sign")
	c.Seed = uint64(rapid.Uint32().Draw(rt, "seed"))
	n := rapid.IntRange(1, 7).Draw(rt, "n")
	if rapid.IntRange(0, 199).Draw(rt, "many") == 199 {
		n = rapid.IntRange(8, 300).Draw(rt, "n2")
	}
	c.IDs = sim.GenIDs(rt, n)
	c.Holders = c.IDs
	if c.Sign {
		extra := rapid.SliceOfN(rapid.Uint16Range(1, 65535), 0, 3).Draw(rt, "extra")
		set := map[uint16]bool{}
		var h []uint16
		for _, id := range append(append([]uint16{}, c.IDs...), extra...) {
			if !set[id] {
				set[id] = true
				h = append(h, id)
			}
		}
		c.Holders = ref.Sorted(h)
		c.KeyT = uint16(rapid.IntRange(0, min(len(c.Holders)-1, 12)).Draw(rt, "keyt"))
	}
	c.Self = rapid.SampledFrom(c.IDs).Draw(rt, "self")
	c.T = uint16(rapid.IntRange(0, n).Draw(rt, "t"))
	ids := append([]uint16{}, c.IDs...)
	for i := rapid.IntRange(0, 2).Draw(rt, "flaws"); i > 0; i-- {
		switch rapid.SampledFrom([]string{"dup", "swap", "reverse", "zero-front", "zero-back", "replace-zero", "drop-self", "self-other", "self-zero", "empty", "t-big", "t-n", "t-max", "drop-holder", "rotate"}).Draw(rt, "flaw") {
		case "dup":
			if len(ids) > 0 {
				i := rapid.IntRange(0, len(ids)-1).Draw(rt, "i")
				ids = append(ids[:i+1], ids[i:]...)
			}
		case "swap":
			if len(ids) > 1 {
				i := rapid.IntRange(0, len(ids)-2).Draw(rt, "i")
				ids[i], ids[i+1] = ids[i+1], ids[i]
			}
		case "reverse":
			for i, j := 0, len(ids)-1; i < j; i, j = i+1, j-1 {
				ids[i], ids[j] = ids[j], ids[i]
			}
		case "rotate":
			if len(ids) > 1 {
				ids = append(ids[1:], ids[0])
			}
		case "zero-front":
			ids = append([]uint16{0}, ids...)
		case "zero-back":
			ids = append(ids, 0)
		case "replace-zero":
			if len(ids) > 0 {
				ids[0] = 0
			}
		case "drop-self":
			var o []uint16
			for _, id := range ids {
				if id != c.Self {
					o = append(o, id)
				}
			}
			ids = o
		case "self-other":
			c.Self = rapid.Uint16().Draw(rt, "newself")
		case "self-zero":
			c.Self = 0
		case "empty":
			ids = nil
		case "t-big":
			c.T = rapid.Uint16().Draw(rt, "tb")
		case "t-n":
			c.T = uint16(len(ids))
		case "t-max":
			c.T = rapid.SampledFrom([]uint16{65535, 65534, 32768}).Draw(rt, "tm")
		case "drop-holder":
			if len(c.Holders) > 1 {
				i := rapid.IntRange(0, len(c.Holders)-1).Draw(rt, "h")
				c.Holders = append(append([]uint16{}, c.Holders[:i]...), c.Holders[i+1:]...)
				if int(c.KeyT) >= len(c.Holders) {
					c.KeyT = uint16(len(c.Holders) - 1)
				}
			}
		}
	}
	c.IDs = ids
	return c
}

// flaw says why a configuration is invalid, "" when it is valid.
func (c *confCase) flaw() string {
	for i, id := range c.IDs {
		if id == 0 {
			return "zero"
		}
		if i > 0 && c.IDs[i-1] == id {
			return "duplicate"
		}
		if i > 0 && c.IDs[i-1] > id {
			return "unsorted"
		}
	}
	if !contains(c.IDs, c.Self) {
		return "self-missing"
	}
	if c.Sign {
		for _, id := range c.IDs {
			if !contains(c.Holders, id) {
				return "not-holder"
			}
		}
		return ""
	}
	if c.T < 1 || int(c.T) > len(c.IDs)-1 {
		return "threshold"
	}
	return ""
}

func checkConf(c *confCase) lib.Result {
	flaw := c.flaw()
	lib.SetRand(c.Seed)
	desc := fmt.Sprintf("sign=%v ids=%v self=%d t=%d holders=%v", c.Sign, c.IDs, c.Self, c.T, c.Holders)
	var err error
	var hasState, hasOut bool
	n := &sim.Node{ID: c.Self}
	if c.Sign {
		k := sim.Deal(c.Holders, c.KeyT, c.Seed)
		sk := k.Shares[c.Self]
		if sk == nil {
			sk = eddsa.NewSecretShare(party.ID(c.Self), sim.Scalar(ref.Expand(c.Seed, "x", 0)))
		}
		n.St, n.SG, err = frost.NewSignState(sim.IDs(c.IDs), sk, k.Public, []byte("m"), 0)
		hasState, hasOut = n.St != nil, n.SG != nil
	} else {
		n.St, n.KG, err = frost.NewKeygenState(party.ID(c.Self), sim.IDs(c.IDs), party.Size(c.T), 0)
		hasState, hasOut = n.St != nil, n.KG != nil
	}
	label := "valid"
	if flaw != "" {
		label = "invalid:" + flaw
		if err == nil {
			return lib.Fail("accepted an invalid configuration (%s): %s", flaw, desc)
		}
		if hasState || hasOut {
			return lib.Fail("refused (%v) but returned a session=%v output=%v: %s", err, hasState, hasOut, desc)
		}
		return lib.Result{NonTrivial: true, Labels: []string{label, fmt.Sprintf("sign=%v", c.Sign)}}
	}
	if err != nil {
		return lib.Fail("refused a valid configuration: %v: %s", err, desc)
	}
	if !hasState || !hasOut {
		return lib.Fail("no error, but session=%v output=%v: %s", hasState, hasOut, desc)
	}
	if out := n.Step(); len(out) != 1 {
		return lib.Fail("starting emitted %d messages: %s", len(out), desc)
	}
	return lib.Result{NonTrivial: true, Labels: []string{label, fmt.Sprintf("sign=%v", c.Sign)}}
}

func TestC13Config(t *testing.T) { lib.Run(t, "C13.config", 2, genConf, checkConf) }

// ---- C24 ----

type formulaCase struct {
	G       sim.Group
	Signers []uint16
	Honest  int      // bit mask of the signers run by the library
	Commits []string // how each reference signer commits
	Msg     []byte
	Seed    uint64
	Sched   []int
	Earlier int // sessions on other messages in the same buffer before
}

func genFormula(rt *rapid.T) formulaCase {
	var c formulaCase
	c.G = sim.GenGroup(rt, 2, maxN())
	c.Signers = sim.GenSubset(rt, c.G.IDs, rapid.IntRange(int(c.G.T)+1, len(c.G.IDs)).Draw(rt, "k"))
	c.Honest = rapid.IntRange(1, 1<<uint(len(c.Signers))-1).Draw(rt, "honest")
	for range c.Signers {
		c.Commits = append(c.Commits, rapid.SampledFrom([]string{"random", "small", "equal", "same-as-peer", "inverse-of-peer", "base"}).Draw(rt, "cm"))
	}
	c.Msg = sim.GenMsg(rt)
	c.Seed = uint64(rapid.Uint32().Draw(rt, "sseed"))
	c.Sched = sim.GenChoices(rt, 30)
	if rapid.IntRange(0, 7).Draw(rt, "reuse") == 0 {
		c.Earlier = rapid.IntRange(1, 2).Draw(rt, "earlier")
	}
	return c
}

func checkFormula(c *formulaCase) lib.Result {
	k := sim.Deal(c.G.IDs, c.G.T, c.G.Seed)
	msg := append([]byte(nil), c.Msg...)
	for j := 0; j < c.Earlier; j++ {
		for i := range msg {
			msg[i] = c.Msg[i] ^ byte(j+1)
		}
		var nodes []*sim.Node
		for _, id := range c.Signers {
			n, err := sim.NewSign(c.Signers, k.Shares[id], k.Public, msg, 0, lib.NewStream(c.Seed*17+uint64(id)))
			if err != nil {
				return lib.Fail("creating a valid session: %v", err)
			}
			nodes = append(nodes, n)
		}
		if err := sim.NewNet(nodes).Run(nil); err != nil {
			return lib.Result{Err: err}
		}
	}
	copy(msg, c.Msg)
	var nodes []*sim.Node
	var adv []uint16
	labels := []string{sim.IDShape(c.Signers)}
	if c.Earlier > 0 {
		labels = append(labels, "buffer-reused")
	}
	for i, id := range c.Signers {
		if c.Honest>>uint(i)&1 == 0 {
			adv = append(adv, id)
			continue
		}
		n, err := sim.NewSign(c.Signers, k.Shares[id], k.Public, msg, 0, lib.NewStream(c.Seed*131+uint64(id)))
		if err != nil {
			return lib.Fail("creating a valid session: %v", err)
		}
		nodes = append(nodes, n)
	}
	w := sim.NewNet(nodes)
	w.RefuseOK = true
	commits := map[uint16]ref.Commit{}
	var view *ref.SignView
	var bad error
	z := map[uint16]*ref.Msg{}
	first := func() {
		for _, id := range adv {
			i := 0
			for c.Signers[i] != id {
				i++
			}
			d, e := ref.Expand(c.Seed, "d", i), ref.Expand(c.Seed, "e", i)
			peer := commits[nodes[0].ID]
			cm := ref.Commit{D: ref.BaseMul(d), E: ref.BaseMul(e)}
			switch c.Commits[i] {
			case "equal":
				cm.E = cm.D
			case "same-as-peer":
				cm = peer
			case "inverse-of-peer":
				cm = ref.Commit{D: ref.Neg(peer.D), E: ref.Neg(peer.E)}
			case "base":
				cm = ref.Commit{D: ref.B, E: ref.B}
			case "small":
				cm = ref.Commit{D: ref.BaseMul(ref.Int([]byte{byte(i + 2)})), E: ref.Neg(ref.B)}
			}
			labels = append(labels, "cosigner:"+c.Commits[i])
			commits[id] = cm
			w.Post(ref.MsgS1(id, cm.D, cm.E))
		}
		view = ref.NewSignView(c.Signers, c.Msg, k.Group, commits)
	}
	w.OnEmit = func(b []byte) {
		m, ok := ref.Parse(b)
		if !ok {
			bad = fmt.Errorf("malformed message %x", b)
			return
		}
		switch m.Type {
		case ref.S1:
			if ref.IsIdentity(m.D) || ref.IsIdentity(m.E) {
				bad = fmt.Errorf("signer %d commits to the identity", m.From)
			}
			commits[m.From] = ref.Commit{D: m.D, E: m.E}
			if len(commits) == len(nodes) {
				first()
			}
		case ref.S2:
			z[m.From] = m
			if !view.ShareOK(m.From, m.Scalar, k.Pub[m.From]) {
				bad = fmt.Errorf("signer %d of %v: response %x is not d + e*rho + lambda*s*c for its commitments and message %s", m.From, c.Signers, ref.ScalarBytes(m.Scalar), lib.Clip(c.Msg))
			}
		}
	}
	if err := w.Run(c.Sched); err != nil {
		return lib.Result{Err: err}
	}
	if bad != nil {
		return lib.Result{Err: bad}
	}
	if len(z) != len(nodes) {
		return lib.Fail("only %d of %d signers responded", len(z), len(nodes))
	}
	if len(adv) == 0 {
		// the output is the sum of nonces and of responses
		sum := ref.AddQ(ref.Int(nil), ref.Int(nil))
		for _, m := range z {
			sum = ref.AddQ(sum, m.Scalar)
		}
		for _, n := range nodes {
			if done, err := n.Finished(); !done || err != nil || n.SG.Signature == nil {
				return lib.Fail("signer %d: finished=%v err=%v", n.ID, done, err)
			}
			if !ref.Equal(sim.Pt(&n.SG.Signature.R), view.R) || sim.Int(&n.SG.Signature.S).Cmp(sum) != 0 {
				return lib.Fail("signer %d: the signature is not (sum of nonces, sum of responses)", n.ID)
			}
		}
		labels = append(labels, "all-honest")
	}
	return lib.Result{NonTrivial: len(c.Signers) > 1, Labels: labels}
}

func TestC24Formula(t *testing.T) { lib.Run(t, "C24.formula", 1, genFormula, checkFormula) }
