package proto

import (
	"bytes"
	"fmt"
	"math/big"
	"testing"

	"github.com/taurusgroup/frost-ed25519/pkg/verif/lib"
	"github.com/taurusgroup/frost-ed25519/pkg/verif/ref"
	"github.com/taurusgroup/frost-ed25519/pkg/verif/sim"
	"pgregory.net/rapid"
)

// ---- C04 ----

// badKeygen describes one misbehaving party. Kind1 corrupts its broadcast, Kind2 its shares.
type badKeygen struct {
	Idx    int // index into IDs
	Kind1  string
	Kind2  string
	Arg    int
	Victim int // index of the party whose share Kind2 corrupts, -1 all
}

var kg1Kinds = []string{"ok", "ok", "ok", "proof-s", "proof-r", "proof-random", "proof-zero", "proof-s0", "proof-r0", "proof-other-id", "proof-other-ctx", "proof-other-coef",
	"proof-bits", "copy-all", "copy-proof", "commit0-shift", "commit0-identity", "rogue-key", "degree-1", "degree+1", "degree0", "degree+big", "degree+byte", "proof-neg", "proof-static", "proof-s-free",
	// unusual but valid
	"top-zero", "only-constant", "opposite", "equal", "root-at-victim", "constant-one"}
var kg2Kinds = []string{"ok", "ok", "plus", "zero", "neg", "other-id", "random", "constant", "double", "swap"}

type faultKG struct {
	G     sim.Group
	Bad   []badKeygen
	Sched []int
	Eager bool
}

func genFaultKG(rt *rapid.T) faultKG {
	var c faultKG
	c.G = sim.GenGroup(rt, 2, 6)
	n := len(c.G.IDs)
	nb := rapid.IntRange(1, n-1).Draw(rt, "nbad")
	if nb > 3 {
		nb = 1 + nb%3
	}
	perm := rapid.Permutation(seq(n)).Draw(rt, "bad")
	for i := 0; i < nb; i++ {
		b := badKeygen{Idx: perm[i], Arg: rapid.IntRange(0, 1<<16).Draw(rt, "arg"), Victim: -1}
		b.Kind1 = rapid.SampledFrom(kg1Kinds).Draw(rt, "kind1")
		b.Kind2 = rapid.SampledFrom(kg2Kinds).Draw(rt, "kind2")
		if rapid.Bool().Draw(rt, "one") {
			b.Victim = perm[nb+rapid.IntRange(0, n-nb-1).Draw(rt, "victim")]
		}
		c.Bad = append(c.Bad, b)
	}
	c.Sched = sim.GenChoices(rt, 40)
	c.Eager = rapid.Bool().Draw(rt, "eager")
	return c
}

func seq(n int) []int {
	var p []int
	for i := 0; i < n; i++ {
		p = append(p, i)
	}
	return p
}

type advKG struct {
	id   uint16
	spec badKeygen
	coef []*big.Int // what it evaluates shares from
	bc   []byte
	bad1 bool
}

// broadcast builds the adversary's first message. honest are the broadcasts it has seen, other is
// the adversary before it, if any.
func (a *advKG) broadcast(c *faultKG, honest map[uint16]*ref.Msg, other *advKG) {
	t := int(c.G.T)
	seed := c.G.Seed ^ uint64(a.id)<<20
	deg := t
	switch a.spec.Kind1 {
	case "degree-1":
		deg = t - 1
	case "degree+1":
		deg = t + 1
	case "degree0":
		deg = 0
	case "degree+big":
		deg = t + 2 + a.spec.Arg%9
	case "degree+byte":
		deg = t + 256*(1+a.spec.Arg%2)
	}
	a.coef = nil
	for i := 0; i <= deg; i++ {
		if i > t+12 && i < deg {
			a.coef = append(a.coef, new(big.Int))
			continue
		}
		a.coef = append(a.coef, ref.Expand(seed, "coef", i))
	}
	switch a.spec.Kind1 {
	case "commit0-identity":
		a.coef[0] = new(big.Int)
	case "top-zero":
		a.coef[t] = new(big.Int)
	case "only-constant":
		for i := 1; i <= t; i++ {
			a.coef[i] = new(big.Int)
		}
	case "constant-one":
		a.coef[0] = big.NewInt(1)
	case "opposite", "equal": // of another misbehaving party's
		if other != nil && len(other.coef) == t+1 {
			for i := range a.coef {
				a.coef[i] = other.coef[i]
				if a.spec.Kind1 == "opposite" {
					a.coef[i] = ref.SubQ(new(big.Int), other.coef[i])
				}
			}
		}
	case "root-at-victim": // an honest party's share is zero
		if v := a.spec.Victim; v >= 0 {
			a.coef[0] = new(big.Int)
			a.coef[0] = ref.SubQ(new(big.Int), ref.Eval(a.coef, big.NewInt(int64(c.G.IDs[v]))))
		}
	}
	var cm []*ref.Pt
	for _, x := range a.coef {
		cm = append(cm, ref.BaseMul(x))
	}
	k := ref.Expand(seed, "nonce", 0)
	s, r := ref.Prove(a.id, ref.ZeroCtx, a.coef[0], k)
	var peer *ref.Msg
	for _, id := range ref.Sorted(c.G.IDs) {
		if honest[id] != nil {
			peer = honest[id]
			if a.spec.Arg%2 == 0 {
				break
			}
		}
	}
	one := big.NewInt(1)
	switch a.spec.Kind1 {
	case "proof-s":
		s = ref.AddQ(s, one)
	case "proof-r":
		r = ref.AddQ(r, big.NewInt(int64(1+a.spec.Arg)))
	case "proof-random":
		s, r = ref.Expand(seed, "rs", 1), ref.Expand(seed, "rr", 1)
	case "proof-zero":
		s, r = new(big.Int), new(big.Int)
	case "proof-s0": // challenge forced to 0: satisfied by any R if the challenge is broken
		s, r = new(big.Int), k
	case "proof-r0":
		r = new(big.Int)
	case "proof-neg":
		r = ref.SubQ(new(big.Int), r)
	case "proof-static":
		s, r = one, ref.AddQ(k, a.coef[0])
	case "proof-other-id":
		s, r = ref.Prove(a.id^uint16(1+a.spec.Arg%7), ref.ZeroCtx, a.coef[0], k)
	case "proof-other-ctx":
		ctx := make([]byte, 32)
		ctx[a.spec.Arg%32] = 1
		s, r = ref.Prove(a.id, ctx, a.coef[0], k)
	case "proof-other-coef":
		s, r = ref.Prove(a.id, ref.ZeroCtx, a.coef[len(a.coef)-1], k)
	case "proof-bits":
		r = new(big.Int).SetBit(r, a.spec.Arg%250, 1-r.Bit(a.spec.Arg%250))
		r.Mod(r, ref.Q)
	case "copy-all":
		if peer != nil {
			s, r, cm = peer.S, peer.R, peer.Commits
		}
	case "copy-proof":
		if peer != nil {
			s, r = peer.S, peer.R
		}
	case "commit0-shift":
		cm[0] = ref.Add(cm[0], ref.BaseMul(big.NewInt(int64(1+a.spec.Arg))))
	case "rogue-key": // cancel the others' contributions
		for _, m := range honest {
			cm[0] = ref.Sub(cm[0], m.Commits[0])
		}
	case "proof-s-free": // simulate: pick s, r, M = rB - sC and hash afterwards without s
		s = ref.SchnorrChallenge(a.id, ref.ZeroCtx, cm[0], ref.Identity())
	}
	a.bc = ref.MsgKG1(a.id, s, r, cm)
	// the oracle: what is wrong with this broadcast, if anything
	a.bad1 = len(cm) != t+1 || !ref.VerifyProof(a.id, ref.ZeroCtx, cm[0], s, r)
}

// share builds the private message to one party and says whether it is wrong.
func (a *advKG) share(c *faultKG, to uint16) ([]byte, bool) {
	x := ref.Eval(a.coef, big.NewInt(int64(to)))
	victim := a.spec.Victim < 0 || c.G.IDs[a.spec.Victim] == to
	y := x
	if victim {
		switch a.spec.Kind2 {
		case "plus":
			y = ref.AddQ(x, big.NewInt(int64(1+a.spec.Arg)))
		case "zero":
			y = new(big.Int)
		case "neg":
			y = ref.SubQ(new(big.Int), x)
		case "double":
			y = ref.AddQ(x, x)
		case "other-id":
			y = ref.Eval(a.coef, big.NewInt(int64(to)+1))
		case "swap":
			y = ref.Eval(a.coef, big.NewInt(int64(a.id)))
		case "random":
			y = ref.Expand(c.G.Seed, "badshare", a.spec.Arg)
		case "constant":
			y = a.coef[0]
		}
	}
	m, _ := ref.Parse(a.bc)
	bad := !ref.Equal(ref.BaseMul(y), ref.EvalExp(m.Commits, big.NewInt(int64(to))))
	return ref.MsgKG2(a.id, to, y), bad
}

func checkFaultKG(c *faultKG) lib.Result {
	adv := map[uint16]*advKG{}
	for _, b := range c.Bad {
		adv[c.G.IDs[b.Idx]] = &advKG{id: c.G.IDs[b.Idx], spec: b}
	}
	all, err := sim.KeygenNodes(c.G.IDs, c.G.T, c.G.Seed)
	if err != nil {
		return lib.Fail("creating a valid session: %v", err)
	}
	var nodes []*sim.Node
	for _, n := range all {
		if adv[n.ID] == nil {
			nodes = append(nodes, n)
		}
	}
	w := sim.NewNet(nodes)
	w.Eager = c.Eager
	w.RefuseOK = true
	honest := map[uint16]*ref.Msg{}
	bad2 := map[uint16]map[uint16]bool{} // victim -> senders
	sent := false
	w.OnEmit = func(b []byte) {
		m, ok := ref.Parse(b)
		if !ok || m.Type != ref.KG1 {
			return
		}
		honest[m.From] = m
		if len(honest) == len(nodes) && !sent {
			sent = true
			// the adversaries speak last (rushing)
			var other *advKG
			for _, bspec := range c.Bad {
				a := adv[c.G.IDs[bspec.Idx]]
				a.broadcast(c, honest, other)
				other = a
				w.Post(a.bc)
				for _, n := range nodes {
					s, isBad := a.share(c, n.ID)
					w.PostTo(n.ID, s)
					if isBad {
						if bad2[n.ID] == nil {
							bad2[n.ID] = map[uint16]bool{}
						}
						bad2[n.ID][a.id] = true
					}
				}
			}
		}
	}
	if err := w.Run(c.Sched); err != nil {
		return lib.Result{Err: err}
	}
	bad1 := map[uint16]bool{}
	var labels []string
	for _, a := range adv {
		if a.bad1 {
			bad1[a.id] = true
			labels = append(labels, "round1:"+a.spec.Kind1)
		} else if a.spec.Kind1 != "ok" {
			labels = append(labels, "valid:"+a.spec.Kind1)
		}
	}
	nontrivial := len(bad1) > 0
	for _, n := range nodes {
		done, err := n.Finished()
		id, round, ok := sim.Blame(err)
		desc := fmt.Sprintf("honest party %d (bad broadcasts from %v, bad shares from %v)", n.ID, keys(bad1), keys(bad2[n.ID]))
		if !done {
			return lib.Fail("%s: not finished", desc)
		}
		wantRound := 0
		blame := bad1
		switch {
		case len(bad1) > 0:
			wantRound = 1
		case len(bad2[n.ID]) > 0:
			wantRound = 2
			blame = bad2[n.ID]
			nontrivial = true
			labels = append(labels, "round2")
		}
		if wantRound == 0 {
			if err != nil {
				return lib.Fail("%s: aborted: %v", desc, err)
			}
			continue
		}
		if err == nil {
			return lib.Fail("%s: accepted an invalid contribution", desc)
		}
		if !ok {
			return lib.Fail("%s: error %T is not a *state.Error: %v", desc, err, err)
		}
		if !blame[id] {
			return lib.Fail("%s: blames party %d: %v", desc, id, err)
		}
		if round != wantRound {
			return lib.Fail("%s: reports round %d, want %d: %v", desc, round, wantRound, err)
		}
		if n.KG.Public != nil || n.KG.SecretKey != nil {
			return lib.Fail("%s: aborted but output key material", desc)
		}
	}
	if len(bad1) == 0 && len(bad2) == 0 {
		// everything valid: check the outputs too
		bc := map[uint16]*ref.Msg{}
		for id, m := range honest {
			bc[id] = m
		}
		for id, a := range adv {
			bc[id], _ = ref.Parse(a.bc)
		}
		if err := sim.CheckKeygen(nodes, c.G.IDs, c.G.T, bc); err != nil {
			return lib.Result{Err: err}
		}
		labels = append(labels, "all-valid")
	}
	return lib.Result{NonTrivial: nontrivial, Labels: labels}
}

func keys(m map[uint16]bool) []uint16 {
	var out []uint16
	for k := range m {
		out = append(out, k)
	}
	return ref.Sorted(out)
}

func TestC04Faults(t *testing.T) { lib.Run(t, "C04.faults", 1, genFaultKG, checkFaultKG) }

// ---- C05 ----

type badSign struct {
	Idx   int
	Kind1 string
	Kind2 string
	Arg   int
}

var s1Kinds = []string{"ok", "ok", "ok", "ok", "D-identity", "E-identity", "both-identity", "copy", "same-DE", "cancel"}
var s2Kinds = []string{"ok", "plus", "plus", "zero", "neg", "other-msg", "no-lambda", "copy", "random", "no-e", "no-rho", "other-key", "minus-prev", "double", "bit", "neg-nonce", "neg-key"}

type faultSign struct {
	G       sim.Group
	Signers []uint16
	Msg     []byte
	Bad     []badSign
	Sched   []int
	Eager   bool
	Seed    uint64
}

func genFaultSign(rt *rapid.T) faultSign {
	var c faultSign
	c.G = sim.GenGroup(rt, 2, 6)
	c.Signers = sim.GenSubset(rt, c.G.IDs, rapid.IntRange(int(c.G.T)+1, len(c.G.IDs)).Draw(rt, "k"))
	n := len(c.Signers)
	nb := 1
	if n > 2 && rapid.Bool().Draw(rt, "two") {
		nb = 2
	}
	perm := rapid.Permutation(seq(n)).Draw(rt, "bad")
	for i := 0; i < nb; i++ {
		c.Bad = append(c.Bad, badSign{Idx: perm[i], Kind1: rapid.SampledFrom(s1Kinds).Draw(rt, "kind1"),
			Kind2: rapid.SampledFrom(s2Kinds).Draw(rt, "kind2"), Arg: rapid.IntRange(0, 1<<16).Draw(rt, "arg")})
	}
	if nb == 2 && rapid.IntRange(0, 2).Draw(rt, "comp") == 0 { // errors that cancel out in the sum
		c.Bad[0].Kind1, c.Bad[1].Kind1 = "ok", "ok"
		c.Bad[0].Kind2, c.Bad[1].Kind2 = "plus", "minus-prev"
	}
	c.Msg = sim.GenMsg(rt)
	c.Sched = sim.GenChoices(rt, 40)
	c.Eager = rapid.Bool().Draw(rt, "eager")
	c.Seed = uint64(rapid.Uint32().Draw(rt, "sseed"))
	return c
}

func checkFaultSign(c *faultSign) lib.Result {
	k := sim.Deal(c.G.IDs, c.G.T, c.G.Seed)
	isBad := map[uint16]badSign{}
	for _, b := range c.Bad {
		isBad[c.Signers[b.Idx]] = b
	}
	all, err := sim.SignNodes(k, c.Signers, c.Msg, c.Seed)
	if err != nil {
		return lib.Fail("creating a valid session: %v", err)
	}
	var nodes []*sim.Node
	for _, n := range all {
		if _, ok := isBad[n.ID]; !ok {
			nodes = append(nodes, n)
		}
	}
	w := sim.NewNet(nodes)
	w.Eager = c.Eager
	w.RefuseOK = true
	commits := map[uint16]ref.Commit{}
	resp := map[uint16]*big.Int{}
	de := map[uint16][2]*big.Int{}
	bad1, bad2 := map[uint16]bool{}, map[uint16]bool{}
	var view *ref.SignView
	var labels []string
	w.OnEmit = func(b []byte) {
		m, ok := ref.Parse(b)
		if !ok {
			return
		}
		if m.Type == ref.S2 {
			resp[m.From] = m.Scalar
			if len(resp) == len(nodes) {
				prev := new(big.Int)
				for _, bs := range c.Bad {
					id := c.Signers[bs.Idx]
					z := corruptResponse(c, k, view, id, bs, de[id], resp, nodes[0].ID, &prev)
					if !view.ShareOK(id, z, k.Pub[id]) {
						bad2[id] = true
						labels = append(labels, "round2:"+bs.Kind2)
					}
					w.Post(ref.MsgS2(id, z))
				}
			}
			return
		}
		commits[m.From] = ref.Commit{D: m.D, E: m.E}
		if len(commits) != len(nodes) {
			return
		}
		for _, bs := range c.Bad {
			id := c.Signers[bs.Idx]
			d, e := ref.Expand(c.Seed, "d", int(id)), ref.Expand(c.Seed, "e", int(id))
			switch bs.Kind1 {
			case "D-identity":
				d = new(big.Int)
			case "E-identity":
				e = new(big.Int)
			case "both-identity":
				d, e = new(big.Int), new(big.Int)
			case "same-DE":
				e = d
			}
			cm := ref.Commit{D: ref.BaseMul(d), E: ref.BaseMul(e)}
			switch bs.Kind1 {
			case "copy":
				cm = ref.Commit{D: m.D, E: m.E}
			case "cancel":
				cm = ref.Commit{D: ref.Neg(m.D), E: ref.Neg(m.E)}
			}
			de[id] = [2]*big.Int{d, e}
			commits[id] = cm
			if ref.IsIdentity(cm.D) || ref.IsIdentity(cm.E) {
				bad1[id] = true
				labels = append(labels, "round1:"+bs.Kind1)
			}
			w.Post(ref.MsgS1(id, cm.D, cm.E))
		}
		view = ref.NewSignView(c.Signers, c.Msg, k.Group, commits)
	}
	if err := w.Run(c.Sched); err != nil {
		return lib.Result{Err: err}
	}
	group := ref.EncodeEd(k.Group)
	for _, n := range nodes {
		done, err := n.Finished()
		id, round, ok := sim.Blame(err)
		desc := fmt.Sprintf("honest signer %d (bad commitments from %v, bad responses from %v)", n.ID, keys(bad1), keys(bad2))
		if !done {
			return lib.Fail("%s: not finished", desc)
		}
		wantRound, blame := 0, bad1
		if len(bad1) > 0 {
			wantRound = 1
		} else if len(bad2) > 0 {
			wantRound, blame = 2, bad2
		}
		if wantRound == 0 {
			if err != nil {
				return lib.Fail("%s: aborted: %v", desc, err)
			}
			if n.SG.Signature == nil {
				return lib.Fail("%s: no signature", desc)
			}
			if err := sim.CheckSignature(n.SG.Signature, group, c.Msg); err != nil {
				return lib.Fail("%s: %v", desc, err)
			}
			continue
		}
		if err == nil {
			return lib.Fail("%s: accepted an invalid contribution", desc)
		}
		if !ok {
			return lib.Fail("%s: error %T is not a *state.Error: %v", desc, err, err)
		}
		if !blame[id] {
			return lib.Fail("%s: blames party %d: %v", desc, id, err)
		}
		if round != wantRound {
			return lib.Fail("%s: reports round %d, want %d: %v", desc, round, wantRound, err)
		}
		if n.SG.Signature != nil {
			return lib.Fail("%s: aborted but output a signature", desc)
		}
	}
	if len(bad1)+len(bad2) == 0 {
		labels = append(labels, "all-valid")
	}
	return lib.Result{NonTrivial: len(bad1)+len(bad2) > 0, Labels: labels}
}

func corruptResponse(c *faultSign, k *sim.Keys, v *ref.SignView, id uint16, bs badSign, de [2]*big.Int, resp map[uint16]*big.Int, peer uint16, prev **big.Int) *big.Int {
	d, e := de[0], de[1]
	z := v.Response(id, d, e, k.Secret[id])
	switch bs.Kind2 {
	case "plus":
		delta := big.NewInt(int64(1 + bs.Arg))
		*prev = delta
		return ref.AddQ(z, delta)
	case "minus-prev":
		return ref.SubQ(z, *prev)
	case "zero":
		return new(big.Int)
	case "neg":
		return ref.SubQ(new(big.Int), z)
	case "double":
		return ref.AddQ(z, z)
	case "other-msg":
		m2 := append(append([]byte{}, c.Msg...), byte(bs.Arg))
		return ref.NewSignView(c.Signers, m2, k.Group, v.C).Response(id, d, e, k.Secret[id])
	case "no-lambda":
		return ref.AddQ(ref.AddQ(d, ref.MulQ(e, v.Rho[id])), ref.MulQ(k.Secret[id], v.Chal))
	case "no-e":
		return ref.AddQ(d, ref.MulQ(ref.MulQ(v.Lambda[id], k.Secret[id]), v.Chal))
	case "no-rho":
		return ref.AddQ(ref.AddQ(d, e), ref.MulQ(ref.MulQ(v.Lambda[id], k.Secret[id]), v.Chal))
	case "other-key":
		return v.Response(id, d, e, ref.AddQ(k.Secret[id], big.NewInt(1)))
	case "copy":
		return resp[peer]
	case "random":
		return ref.Expand(c.Seed, "badz", bs.Arg)
	case "bit":
		x := new(big.Int).Set(z)
		return new(big.Int).Mod(x.SetBit(x, bs.Arg%252, 1-x.Bit(bs.Arg%252)), ref.Q)
	case "neg-nonce": // answers for the negation of the commitments
		n := ref.AddQ(d, ref.MulQ(e, v.Rho[id]))
		return ref.SubQ(ref.SubQ(z, n), n)
	case "neg-key": // answers for the negation of the key
		n := ref.AddQ(d, ref.MulQ(e, v.Rho[id]))
		return ref.SubQ(ref.AddQ(n, n), z)
	}
	return z
}

func TestC05Faults(t *testing.T) { lib.Run(t, "C05.faults", 1, genFaultSign, checkFaultSign) }

// ---- C06 ----

type mixedSign struct {
	G       sim.Group
	Signers []uint16
	Msgs    [][]byte
	Who     []int  // message index per signer
	Key     string // what is wrong with the keys
	KeyIdx  int
	Arg     int
	Flip    []int // positions of bit flips in flight, one per message in emission order (-1 none)
	Drop    bool
	Seed    uint64
}

var keyKinds = []string{"ok", "ok", "ok", "secret+1", "other-dkg-secret", "wrong-group", "other-public", "wrong-pubshare", "swapped-secret", "neg-secret", "stale-all", "wrong-group-all", "wrong-group-all"}

func genMixed(rt *rapid.T) mixedSign { return genMixedOf(rt, 2, 6) }

func genMixedOf(rt *rapid.T, lo, hi int) mixedSign {
	var c mixedSign
	c.G = sim.GenGroup(rt, lo, hi)
	n := len(c.G.IDs)
	k := rapid.IntRange(1, n).Draw(rt, "k")
	if rapid.IntRange(0, 2).Draw(rt, "enough") > 0 && k <= int(c.G.T) {
		k = int(c.G.T) + 1
	}
	c.Signers = sim.GenSubset(rt, c.G.IDs, k)
	c.Msgs = [][]byte{sim.GenMsg(rt)}
	c.Who = make([]int, k)
	if rapid.IntRange(0, 3).Draw(rt, "split") == 0 {
		c.Msgs = append(c.Msgs, rapid.SampledFrom(otherMessages(c.Msgs[0], sim.GenMsg(rt))).Draw(rt, "msg2"))
		for i := range c.Who {
			c.Who[i] = rapid.IntRange(0, 1).Draw(rt, "who")
		}
	}
	c.Key = rapid.SampledFrom(keyKinds).Draw(rt, "key")
	c.KeyIdx = rapid.IntRange(0, k-1).Draw(rt, "keyidx")
	c.Arg = rapid.IntRange(1, 1000).Draw(rt, "arg")
	if rapid.IntRange(0, 2).Draw(rt, "flips") == 0 {
		c.Flip = rapid.SliceOfN(rapid.IntRange(-3, 8*69-1), 1, 2*k*k).Draw(rt, "flip")
	}
	c.Seed = uint64(rapid.Uint32().Draw(rt, "sseed"))
	return c
}

func checkMixed(c *mixedSign) lib.Result {
	k := sim.Deal(c.G.IDs, c.G.T, c.G.Seed)
	k2 := sim.Deal(c.G.IDs, c.G.T, c.G.Seed+1)
	bad := ""
	if len(c.Signers) <= int(c.G.T) {
		bad = "sub-threshold"
	}
	split := false
	for _, x := range c.Who {
		if !bytes.Equal(c.Msgs[x], c.Msgs[c.Who[0]]) {
			split = true
		}
	}
	if split {
		bad = "different-messages"
	}
	var nodes []*sim.Node
	groups := map[uint16][]byte{}
	msgs := map[uint16][]byte{}
	for i, id := range c.Signers {
		sk, pub := k.Shares[id], k.Public
		if i == c.KeyIdx || c.Key == "stale-all" || c.Key == "wrong-group-all" {
			x := k.Secret[id]
			switch c.Key {
			case "secret+1":
				x = ref.AddQ(x, big.NewInt(int64(c.Arg)))
			case "neg-secret":
				x = ref.SubQ(new(big.Int), x)
			case "other-dkg-secret", "stale-all":
				x = k2.Secret[id]
			case "swapped-secret":
				x = k.Secret[c.Signers[(i+1)%len(c.Signers)]]
			case "wrong-group", "wrong-group-all":
				p := *pub
				p.GroupKey = k2.Public.GroupKey
				pub = &p
			case "other-public":
				pub = k2.Public
			}
			sk = newShare(id, x)
		}
		if c.Key == "wrong-pubshare" && i != c.KeyIdx {
			pub = sim.Deal(c.G.IDs, c.G.T, c.G.Seed).Public
			e := pub.Shares[sim.IDs(c.Signers)[c.KeyIdx]]
			e.Add(e, sim.Elem(ref.B))
		}
		if c.Key != "ok" {
			// is the key material really inconsistent?
			switch {
			case c.Key == "wrong-pubshare" || c.Key == "swapped-secret":
				if len(c.Signers) > 1 && bad == "" {
					bad = "bad-key"
				}
			case bad == "":
				bad = "bad-key"
			}
		}
		msgs[id] = c.Msgs[c.Who[i]]
		n, err := sim.NewSign(c.Signers, sk, pub, msgs[id], 0, lib.NewStream(c.Seed*31+uint64(id)))
		if err != nil {
			if bad != "" {
				return lib.Result{NonTrivial: true, Labels: []string{"refused:" + bad}}
			}
			return lib.Fail("creating a valid session: %v", err)
		}
		groups[id] = pub.GroupKey.ToEd25519()
		nodes = append(nodes, n)
	}
	// lock step with in-flight corruption
	fi, flipped, lost := 0, 0, 0
	var in [][]byte
	for r := 0; r < 3; r++ {
		var out [][]byte
		for _, n := range nodes {
			for _, b := range in {
				if !sim.For(b, n.ID) {
					continue
				}
				if fi < len(c.Flip) {
					if f := c.Flip[fi]; f >= 0 {
						b = append([]byte{}, b...)
						b[f/8%len(b)] ^= 1 << uint(f%8)
						flipped++
					}
					fi++
				}
				if err := n.Handle(b); err != nil {
					lost++
				}
			}
			out = append(out, n.Step()...)
		}
		in = out
	}
	res := lib.Result{NonTrivial: bad != "" || flipped > 0}
	if bad != "" {
		res.Labels = append(res.Labels, bad)
	}
	if flipped > 0 {
		res.Labels = append(res.Labels, "corrupted-in-flight")
	}
	for _, n := range nodes {
		done, err := n.Finished()
		sig := n.SG.Signature
		desc := fmt.Sprintf("signer %d (situation %q, %d bits flipped)", n.ID, bad, flipped)
		if (sig != nil) != (done && err == nil) {
			return lib.Fail("%s: finished=%v err=%v but signature present=%v", desc, done, err, sig != nil)
		}
		if sig != nil {
			if err := sim.CheckSignature(sig, groups[n.ID], msgs[n.ID]); err != nil {
				return lib.Fail("%s: %v", desc, err)
			}
			// a signer whose own view of the keys is right may finish although others refuse
			if bad != "" && !(bad == "bad-key" && c.Key == "wrong-pubshare" && n.ID == c.Signers[c.KeyIdx]) {
				return lib.Fail("%s: output a signature", desc)
			}
		}
		if flipped == 0 {
			if !done {
				return lib.Fail("%s: all messages delivered but not finished", desc)
			}
			if bad == "" && err != nil {
				return lib.Fail("%s: honest session failed: %v", desc, err)
			}
			if bad == "sub-threshold" && c.Key == "ok" {
				if id, _, ok := sim.Blame(err); !ok || id != 0 {
					return lib.Fail("%s: every contribution was correct, but the error names party %d: %v", desc, id, err)
				}
			}
		}
	}
	return res
}

// Large groups: the same situations.
func TestC06Large(t *testing.T) {
	lib.Run(t, "C06.large", 0.012, func(rt *rapid.T) mixedSign {
		c := genMixedOf(rt, 8, 48)
		for len(c.Flip) > 0 && rapid.Bool().Draw(rt, "noflip") {
			c.Flip = nil
		}
		return c
	}, checkMixed)
}

func TestC06Mixed(t *testing.T) { lib.Run(t, "C06.mixed", 1, genMixed, checkMixed) }
