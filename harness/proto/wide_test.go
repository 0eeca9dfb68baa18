package proto

import (
	"bytes"
	"fmt"
	"math/big"
	mrand "math/rand/v2"
	"testing"

	"github.com/taurusgroup/frost-ed25519/pkg/verif/lib"
	"github.com/taurusgroup/frost-ed25519/pkg/verif/ref"
	"github.com/taurusgroup/frost-ed25519/pkg/verif/sim"
	"pgregory.net/rapid"
)

// One library session among hundreds of reference-made peers: party counts that would take too
// long with a session per party.

type wideCase struct {
	Sign  bool
	N     int
	T     uint16
	Shape string
	Start int
	Self  int
	Bad   []int // positions of misbehaving peers
	Round int   // where they misbehave
	Ahead int   // one in so many second-round messages comes with the first round, 0 none
	Msg   []byte
	Seed  uint64
}

func genWide(sign, bad bool) func(rt *rapid.T) wideCase {
	return func(rt *rapid.T) wideCase {
		c := wideCase{Sign: sign, Seed: uint64(rapid.Uint32().Draw(rt, "seed"))}
		// around powers of two that a bitmap or a narrow counter would care about
		hi := 520
		if lib.Thorough() {
			hi = 1400
		}
		c.N = rapid.OneOf(rapid.SampledFrom([]int{63, 64, 65, 66, 127, 128, 129, 130, 254, 255, 256, 257, 258, 259, 511, 512, 513, 514, 992, 993, 994, 1025}), rapid.IntRange(61, hi)).Draw(rt, "n")
		c.T = uint16(rapid.IntRange(1, 4).Draw(rt, "t"))
		if rapid.IntRange(0, 11).Draw(rt, "bigt") == 0 {
			if sign {
				c.T = uint16(c.N - 1)
			} else {
				c.N = rapid.IntRange(131, 262).Draw(rt, "n2")
				c.T = uint16(rapid.SampledFrom([]int{63, 64, 65, 127, 128, 129, 255, 256, 257}).Draw(rt, "t2"))
				if int(c.T) >= c.N {
					c.T = uint16(c.N - 1)
				}
			}
		}
		c.Shape = rapid.SampledFrom([]string{"first", "last", "run", "stride"}).Draw(rt, "shape")
		c.Start = rapid.IntRange(1, 30000).Draw(rt, "start")
		c.Self = rapid.OneOf(rapid.SampledFrom([]int{0, 63, 64, 127, 128, 255, 256, c.N - 1}), rapid.IntRange(0, c.N-1)).Draw(rt, "self") % c.N
		if bad {
			c.Round = rapid.IntRange(1, 2).Draw(rt, "round")
			for i := rapid.IntRange(1, 3).Draw(rt, "nbad"); i > 0; i-- {
				c.Bad = append(c.Bad, rapid.OneOf(rapid.SampledFrom([]int{0, 1, 64, 128, 255, 256, c.N - 2, c.N - 1}), rapid.IntRange(0, c.N-1)).Draw(rt, "bad")%c.N)
			}
		}
		c.Ahead = rapid.IntRange(0, 3).Draw(rt, "ahead")
		c.Msg = rapid.SliceOfN(rapid.Byte(), 0, 40).Draw(rt, "msg")
		return c
	}
}

func (c *wideCase) ids() []uint16 {
	var out []uint16
	for i := 0; i < c.N; i++ {
		switch c.Shape {
		case "last":
			out = append(out, uint16(65536-c.N+i))
		case "run":
			out = append(out, uint16(c.Start+i))
		case "stride":
			out = append(out, uint16(1+i*(65534/c.N)))
		default:
			out = append(out, uint16(1+i))
		}
	}
	return out
}

// widePolys gives the peers polynomials whose coefficients come from a small table.
type widePolys struct {
	seed  uint64
	t     int
	val   []*big.Int
	point []*ref.Pt
}

func newWidePolys(seed uint64, t int) *widePolys {
	w := &widePolys{seed: seed, t: t}
	for i := 0; i < 61; i++ {
		w.val = append(w.val, ref.Expand(seed, "table", i))
		w.point = append(w.point, ref.BaseMul(w.val[i]))
	}
	return w
}

func (w *widePolys) at(i, j int) int {
	return int((uint64(i)*2654435761 + uint64(j)*40503 + w.seed) % 61)
}

func (w *widePolys) coef(i int) (co []*big.Int, pts []*ref.Pt) {
	for j := 0; j <= w.t; j++ {
		co = append(co, w.val[w.at(i, j)])
		pts = append(pts, w.point[w.at(i, j)])
	}
	return
}

func checkWide(c *wideCase) lib.Result {
	ids := c.ids()
	self := ids[c.Self]
	isBad := map[uint16]bool{}
	for _, b := range c.Bad {
		if ids[b] != self {
			isBad[ids[b]] = true
		}
	}
	labels := []string{fmt.Sprintf("n>=%d", c.N/64*64), fmt.Sprintf("bad=%d", len(isBad)), "ids:" + c.Shape}
	order := mrand.New(mrand.NewPCG(c.Seed, 5)).Perm(c.N)

	var n *sim.Node
	var err error
	first, second := make([][]byte, c.N), make([][]byte, c.N)
	var keys *sim.Keys
	var polys *widePolys
	commits := map[uint16]ref.Commit{}
	ds, es := make([]*big.Int, c.N), make([]*big.Int, c.N)
	if c.Sign {
		keys = sim.Deal(ids, c.T, c.Seed)
		n, err = sim.NewSign(ids, keys.Shares[self], keys.Public, c.Msg, 0, lib.NewStream(c.Seed))
	} else {
		n, err = sim.NewKeygen(self, ids, c.T, 0, lib.NewStream(c.Seed))
		polys = newWidePolys(c.Seed, int(c.T))
	}
	if err != nil {
		return lib.Fail("creating a valid session of %d parties: %v", c.N, err)
	}
	out := n.Step()
	if len(out) != 1 {
		return lib.Fail("starting emitted %d messages", len(out))
	}
	own, ok := ref.Parse(out[0])
	if !ok {
		return lib.Fail("malformed message %x", out[0])
	}
	// the peers' messages
	for i, id := range ids {
		if id == self {
			continue
		}
		bad := isBad[id] && c.Round == 1
		if c.Sign {
			ds[i], es[i] = ref.Expand(c.Seed, "wd", i), ref.Expand(c.Seed, "we", i)
			cm := ref.Commit{D: ref.BaseMul(ds[i]), E: ref.BaseMul(es[i])}
			if bad {
				cm.E = ref.Identity()
			}
			commits[id] = cm
			first[i] = ref.MsgS1(id, cm.D, cm.E)
			continue
		}
		co, pts := polys.coef(i)
		s, r := ref.Prove(id, ref.ZeroCtx, co[0], ref.Expand(c.Seed, "wk", i))
		if bad {
			r = ref.AddQ(r, big.NewInt(1))
		}
		first[i] = ref.MsgKG1(id, s, r, pts)
		x := ref.Eval(co, big.NewInt(int64(self)))
		if isBad[id] && c.Round == 2 {
			x = ref.AddQ(x, big.NewInt(1))
		}
		second[i] = ref.MsgKG2(id, self, x)
	}
	var view *ref.SignView
	if c.Sign && !(len(isBad) > 0 && c.Round == 1) {
		commits[self] = ref.Commit{D: own.D, E: own.E}
		view = ref.NewSignView(ids, c.Msg, keys.Group, commits)
		for i, id := range ids {
			if id == self {
				continue
			}
			z := view.Response(id, ds[i], es[i], keys.Secret[id])
			if isBad[id] {
				z = ref.AddQ(z, big.NewInt(1))
			}
			second[i] = ref.MsgS2(id, z)
		}
	}
	early := map[int]bool{}
	for k, i := range order {
		if first[i] == nil {
			continue
		}
		if err := n.Handle(first[i]); err != nil {
			return lib.Fail("message %d of %d of the first round is refused: %v", k, c.N, err)
		}
		if second[i] != nil && c.Ahead > 0 && i%c.Ahead == 0 {
			early[i] = true
			if err := n.Handle(second[i]); err != nil {
				return lib.Fail("a message of the second round, ahead by one, is refused: %v", err)
			}
		}
		if k == c.N/2 {
			if o := n.Step(); len(o) != 0 || n.St.IsFinished() {
				return lib.Fail("%d of %d parties were heard, but the session went on", k, c.N)
			}
		}
	}
	sent := n.Step()
	blamed := func(round int) error {
		done, err := n.Finished()
		if !done || err == nil {
			return fmt.Errorf("an invalid contribution among %d (round %d) is accepted: finished=%v", c.N, round, done)
		}
		id, r, ok := sim.Blame(err)
		if !ok || !isBad[id] || r != round {
			return fmt.Errorf("blames %d in round %d, misbehaving in round %d: %v (%v)", id, r, round, isBad, err)
		}
		if (c.Sign && n.SG.Signature != nil) || (!c.Sign && (n.KG.Public != nil || n.KG.SecretKey != nil)) {
			return fmt.Errorf("aborted, but there is an output")
		}
		return nil
	}
	if len(isBad) > 0 && c.Round == 1 {
		return lib.Result{Err: blamed(1), NonTrivial: true, Labels: labels}
	}
	if done, err := n.Finished(); done {
		return lib.Fail("ended in the first round: %v", err)
	}
	// what it sent
	sum := new(big.Int)
	if c.Sign {
		if len(sent) != 1 {
			return lib.Fail("%d messages instead of one response", len(sent))
		}
		m, ok := ref.Parse(sent[0])
		if !ok || m.Type != ref.S2 {
			return lib.Fail("malformed response %x", sent[0])
		}
		if !view.ShareOK(self, m.Scalar, keys.Pub[self]) {
			return lib.Fail("the response of signer %d among %d is not d + e*rho + lambda*s*c", self, c.N)
		}
		sum = m.Scalar
	} else {
		if len(sent) != c.N-1 {
			return lib.Fail("%d shares for %d peers", len(sent), c.N-1)
		}
		to := map[uint16]bool{}
		for k, b := range sent {
			m, ok := ref.Parse(b)
			if !ok || m.Type != ref.KG2 || to[m.To] || m.To == self {
				return lib.Fail("bad share message %x", b)
			}
			to[m.To] = true
			// the commitments are big: a few of the shares
			if (k*7+int(c.Seed))%c.N < 4 && !ref.Equal(ref.BaseMul(m.Scalar), ref.EvalExp(own.Commits, big.NewInt(int64(m.To)))) {
				return lib.Fail("the share for %d does not match the commitments", m.To)
			}
		}
		for _, id := range ids {
			if id != self && !to[id] {
				return lib.Fail("no share for %d", id)
			}
		}
	}
	for k, i := range order {
		if second[i] == nil || early[i] {
			continue
		}
		if err := n.Handle(second[i]); err != nil {
			return lib.Fail("message %d of %d of the second round is refused: %v", k, c.N, err)
		}
	}
	n.Step()
	if len(isBad) > 0 {
		return lib.Result{Err: blamed(2), NonTrivial: true, Labels: labels}
	}
	if done, err := n.Finished(); !done || err != nil {
		return lib.Fail("honest session of %d parties: finished=%v err=%v", c.N, done, err)
	}
	if c.Sign {
		for i, id := range ids {
			if id != self {
				sum = ref.AddQ(sum, view.Response(id, ds[i], es[i], keys.Secret[id]))
			}
		}
		sig := n.SG.Signature
		if sig == nil {
			return lib.Fail("success without a signature")
		}
		if err := sim.CheckSignature(sig, ref.EncodeEd(keys.Group), c.Msg); err != nil {
			return lib.Result{Err: err}
		}
		if sim.Int(&sig.S).Cmp(sum) != 0 || !ref.Equal(sim.Pt(&sig.R), view.R) {
			return lib.Fail("the signature is not (sum of nonces, sum of responses)")
		}
		return lib.Result{NonTrivial: true, Labels: labels}
	}
	// the group polynomial: ours in the exponent, the peers' in the clear
	total := make([]*big.Int, int(c.T)+1)
	for j := range total {
		total[j] = new(big.Int)
		for i, id := range ids {
			if id != self {
				total[j] = ref.AddQ(total[j], polys.val[polys.at(i, j)])
			}
		}
	}
	if len(own.Commits) != int(c.T)+1 {
		return lib.Fail("%d commitments for threshold %d", len(own.Commits), c.T)
	}
	share := func(id uint16) *ref.Pt {
		x := big.NewInt(int64(id))
		return ref.Add(ref.BaseMul(ref.Eval(total, x)), ref.EvalExp(own.Commits, x))
	}
	pub, sk := n.KG.Public, n.KG.SecretKey
	if pub == nil || sk == nil {
		return lib.Fail("success without output")
	}
	if len(pub.PartyIDs) != c.N || len(pub.Shares) != c.N || uint16(pub.Threshold) != c.T {
		return lib.Fail("public data of %d parties, %d shares, threshold %d; want %d and %d", len(pub.PartyIDs), len(pub.Shares), pub.Threshold, c.N, c.T)
	}
	for i, id := range ids {
		if uint16(pub.PartyIDs[i]) != id {
			return lib.Fail("party list differs at %d: %d, want %d", i, pub.PartyIDs[i], id)
		}
	}
	if !bytes.Equal(pub.GroupKey.ToEd25519(), ref.EncodeEd(ref.Add(ref.BaseMul(total[0]), own.Commits[0]))) {
		return lib.Fail("wrong group key")
	}
	step := 1 + c.N*int(c.T)/200
	for i := int(c.Seed % uint64(step)); i < c.N; i += step {
		e := pub.Shares[sim.IDs(ids)[i]]
		if e == nil || !bytes.Equal(e.Bytes(), ref.Encode(share(ids[i]))) {
			return lib.Fail("wrong public share of %d", ids[i])
		}
	}
	if uint16(sk.ID) != self || !ref.Equal(ref.BaseMul(sim.Int(&sk.Secret)), share(self)) || !bytes.Equal(sk.Public.Bytes(), ref.Encode(share(self))) {
		return lib.Fail("wrong secret share")
	}
	return lib.Result{NonTrivial: true, Labels: labels}
}

func TestC01Wide(t *testing.T) { lib.Run(t, "C01.wide", 0.008, genWide(true, false), checkWide) }

// Around a thousand signers, where buffers sized from the group's size come to their limits.
func TestC24Wide(t *testing.T) {
	gen := genWide(true, false)
	lib.Run(t, "C24.wide", 0.004, func(rt *rapid.T) wideCase {
		c := gen(rt)
		c.N = rapid.OneOf(rapid.SampledFrom([]int{510, 511, 1008, 1023, 1024, 1025}), rapid.IntRange(960, 1200)).Draw(rt, "many")
		c.Self %= c.N
		c.T = uint16(rapid.IntRange(1, 4).Draw(rt, "few"))
		return c
	}, checkWide)
}
func TestC02Wide(t *testing.T) { lib.Run(t, "C02.wide", 0.01, genWide(false, false), checkWide) }
func TestC04Wide(t *testing.T) { lib.Run(t, "C04.wide", 0.004, genWide(false, true), checkWide) }
func TestC05Wide(t *testing.T) { lib.Run(t, "C05.wide", 0.008, genWide(true, true), checkWide) }
