package proto

import (
	"crypto/ed25519"
	"fmt"
	mrand "math/rand/v2"
	"testing"

	"github.com/taurusgroup/frost-ed25519/pkg/eddsa"
	"github.com/taurusgroup/frost-ed25519/pkg/frost"
	"github.com/taurusgroup/frost-ed25519/pkg/frost/party"
	"github.com/taurusgroup/frost-ed25519/pkg/ristretto"
	"github.com/taurusgroup/frost-ed25519/pkg/verif/lib"
	"github.com/taurusgroup/frost-ed25519/pkg/verif/ref"
	"github.com/taurusgroup/frost-ed25519/pkg/verif/sim"
	"pgregory.net/rapid"
)

// The same properties where something is large in number: messages to one session, operations on
// it, sessions in one process, uses of one key, parties in a list, bytes in a message.

// ---- C09: floods ----

func TestC09Flood(t *testing.T) {
	lib.Run(t, "C09.flood", 0.03, func(rt *rapid.T) junkCase {
		c := genJunk(rt)
		c.Inj = c.Inj[:min(len(c.Inj), 3)]
		for i := range c.Inj {
			c.Inj[i].At = rapid.IntRange(0, 12).Draw(rt, "early")
			c.Inj[i].Times = rapid.OneOf(rapid.IntRange(100, 1500), rapid.SampledFrom([]int{1023, 1024, 2100, 4100})).Draw(rt, "times")
		}
		return c
	}, checkJunk)
}

// ---- C10, C11: long histories ----

func genMany(timed bool) func(rt *rapid.T) lifeCase {
	return func(rt *rapid.T) lifeCase {
		c := genLife(rt, timed)
		left := 3
		for i := range c.Ops {
			if left > 0 && c.Ops[i].Op != "sleep" && rapid.IntRange(0, 3).Draw(rt, "repeat") == 0 {
				c.Ops[i].Times = rapid.IntRange(50, 1500).Draw(rt, "times")
				left--
			}
		}
		return c
	}
}

func TestC10Many(t *testing.T) {
	lib.Run(t, "C10.many", 0.01, genMany(false), func(c *lifeCase) lib.Result {
		return bubble(t, func() lib.Result { return checkLife(c) })
	})
}

func TestC11Many(t *testing.T) {
	lib.Run(t, "C11.many", 0.01, genMany(true), func(c *lifeCase) lib.Result {
		return bubble(t, func() lib.Result { return checkLife(c) })
	})
}

// ---- C13: long lists ----

type longConf struct {
	Sign  bool
	N     int
	Start int
	Step  int
	Self  int
	T     uint16
	Flaw  string
	At    int
	Pick  []int // signing: positions of the signers
}

func checkLongConf(c *longConf) lib.Result {
	ids := make(party.IDSlice, c.N)
	for i := range ids {
		ids[i] = party.ID(c.Start + i*c.Step)
	}
	self := ids[c.Self]
	var pub *eddsa.Public
	list := ids
	if c.Sign {
		// the shares of a polynomial of degree 1: i -> (1 + i)*B
		els := map[party.ID]*ristretto.Element{}
		g := ristretto.NewGeneratorElement()
		cur, last := ristretto.NewGeneratorElement(), party.ID(0)
		for _, id := range ids {
			for ; last < id; last++ {
				cur.Add(cur, g)
			}
			els[id] = (&ristretto.Element{}).Set(cur)
		}
		pub = &eddsa.Public{PartyIDs: ids.Copy(), Threshold: 1, Shares: els, GroupKey: eddsa.NewPublicKeyFromPoint(ristretto.NewGeneratorElement())}
		list = nil
		seen := map[int]bool{c.Self: true}
		for _, p := range c.Pick {
			seen[p%c.N] = true
		}
		for i, id := range ids {
			if seen[i] {
				list = append(list, id)
			}
		}
	}
	at := c.At % len(list)
	flaw := c.Flaw
	switch flaw {
	case "duplicate":
		list = append(list[:at+1:at+1], list[at:]...)
	case "zero":
		list = append(list[:at:at], append(party.IDSlice{0}, list[at:]...)...)
	case "swap":
		if at == 0 {
			at = 1
		}
		if len(list) > 1 {
			list = list.Copy()
			list[at-1], list[at] = list[at], list[at-1]
		} else {
			flaw = ""
		}
	case "self-missing":
		var o party.IDSlice
		for _, id := range list {
			if id != self {
				o = append(o, id)
			}
		}
		list = o
	case "threshold":
		if c.Sign {
			flaw = ""
		} else {
			c.T = uint16(c.N)
		}
	case "not-holder":
		flaw = ""
		if c.Sign && c.Step > 1 {
			// next to the last signer, but not a holder
			list, flaw = append(list.Copy(), list[len(list)-1]+1), "not-holder"
		}
	}
	desc := fmt.Sprintf("sign=%v, %d IDs from %d in steps of %d, self %d, t=%d, flaw %q at %d", c.Sign, c.N, c.Start, c.Step, self, c.T, flaw, at)
	n := &sim.Node{ID: uint16(self)}
	var err error
	if c.Sign {
		sk := eddsa.NewSecretShare(self, sim.Scalar(ref.Int([]byte{byte(self), byte(self >> 8), 0, 0})))
		n.St, n.SG, err = frost.NewSignState(list, sk, pub, []byte("m"), 0)
	} else {
		n.St, n.KG, err = frost.NewKeygenState(self, list, party.Size(c.T), 0)
	}
	labels := []string{"flaw:" + flaw, fmt.Sprintf("n>=%d", c.N/10000*10000)}
	if flaw != "" {
		if err == nil || n.St != nil || n.KG != nil || n.SG != nil {
			return lib.Fail("accepted: error %v, session %v: %s", err, n.St != nil, desc)
		}
		return lib.Result{NonTrivial: true, Labels: labels}
	}
	if err != nil || n.St == nil {
		return lib.Fail("refused a valid configuration: %v: %s", err, desc)
	}
	if out := n.Step(); len(out) != 1 {
		return lib.Fail("starting emitted %d messages: %s", len(out), desc)
	}
	return lib.Result{NonTrivial: true, Labels: labels}
}

func TestC13Long(t *testing.T) {
	lib.Run(t, "C13.long", 0.01, func(rt *rapid.T) longConf {
		c := longConf{Sign: rapid.Bool().Draw(rt, "sign")}
		c.N = rapid.OneOf(rapid.IntRange(300, 6000), rapid.IntRange(6000, 65535), rapid.SampledFrom([]int{32767, 32768, 65534, 65535})).Draw(rt, "n")
		c.Step = rapid.IntRange(1, max(1, 65534/c.N)).Draw(rt, "step")
		c.Start = rapid.IntRange(1, 65535-(c.N-1)*c.Step).Draw(rt, "start")
		c.Self = rapid.OneOf(rapid.IntRange(0, c.N-1), rapid.SampledFrom([]int{0, c.N - 1})).Draw(rt, "self")
		c.T = uint16(rapid.IntRange(1, 9).Draw(rt, "t"))
		c.Flaw = rapid.SampledFrom([]string{"", "", "", "duplicate", "zero", "swap", "self-missing", "threshold", "not-holder"}).Draw(rt, "flaw")
		c.At = rapid.IntRange(0, c.N-1).Draw(rt, "at")
		if c.Sign {
			c.Pick = rapid.SliceOfN(rapid.IntRange(0, c.N-1), 1, 40).Draw(rt, "pick")
		}
		return c
	}, checkLongConf)
}

// ---- C24: long messages ----

type longMsg struct {
	F    formulaCase // without its message
	N    int
	Fill byte
}

func TestC24Long(t *testing.T) {
	lib.Run(t, "C24.long", 0.004, func(rt *rapid.T) longMsg {
		c := longMsg{F: genFormula(rt), Fill: rapid.Byte().Draw(rt, "fill")}
		c.F.Msg = nil
		c.F.Signers = c.F.Signers[:max(int(c.F.G.T)+1, min(3, len(c.F.Signers)))]
		c.F.Honest &= 1<<uint(len(c.F.Signers)) - 1
		if c.F.Honest == 0 {
			c.F.Honest = 1
		}
		hi := 22
		if lib.Thorough() {
			hi = 25
		}
		c.N = 1<<uint(rapid.IntRange(16, hi).Draw(rt, "log")) + rapid.SampledFrom([]int{-1, 0, 1, 1000}).Draw(rt, "off")
		return c
	}, func(c *longMsg) lib.Result {
		f := c.F
		f.Msg = make([]byte, c.N)
		for i := range f.Msg {
			f.Msg[i] = c.Fill + byte(i) + byte(i>>8)
		}
		r := checkFormula(&f)
		r.Labels = append(r.Labels, fmt.Sprintf("length>=2^%d", log2(c.N)))
		return r
	})
}

func log2(n int) (l int) {
	for ; n > 1; n >>= 1 {
		l++
	}
	return
}

// ---- C19: many draws; C23: many uses ----

type manyCase struct {
	G        sim.Group
	Sessions int
	KeygenIn int // one in so many is a key generation, 0 none
	Full     bool
	SameMsg  bool
	BadIn    int // one in so many is aborted, 0 none
	Seed     uint64
}

func genManyUses(full bool) func(rt *rapid.T) manyCase {
	return func(rt *rapid.T) manyCase {
		c := manyCase{G: sim.GenGroup(rt, 2, 4), Full: full, SameMsg: rapid.Bool().Draw(rt, "same"), Seed: uint64(rapid.Uint32().Draw(rt, "seed"))}
		c.KeygenIn = rapid.SampledFrom([]int{0, 2, 5}).Draw(rt, "keygenin")
		if full {
			c.Sessions = rapid.IntRange(100, 600).Draw(rt, "n")
			c.BadIn = rapid.SampledFrom([]int{0, 0, 2, 7}).Draw(rt, "badin")
		} else {
			c.Sessions = rapid.IntRange(800, 5000).Draw(rt, "n")
		}
		return c
	}
}

func checkMany(c *manyCase) lib.Result {
	k := sim.Deal(c.G.IDs, c.G.T, c.G.Seed)
	pk := ed25519.PublicKey(ref.EncodeEd(k.Group))
	before := publicBytes(k.Public)
	var shares []string
	for _, id := range c.G.IDs {
		shares = append(shares, shareBytes(k.Shares[id]))
	}
	seen := map[string]int{}
	note := func(i int, b []byte) error {
		if at, dup := seen[string(b)]; dup {
			return fmt.Errorf("the commitment %x of session %d occurred in session %d before", b, i, at)
		}
		seen[string(b)] = i
		return nil
	}
	ids := c.G.IDs[:int(c.G.T)+1]
	for i := 0; i < c.Sessions; i++ {
		kg := c.KeygenIn > 0 && i%c.KeygenIn == c.KeygenIn-1
		bad := c.BadIn > 0 && i%c.BadIn == c.BadIn-1
		msg := []byte("the same message")
		if !c.SameMsg {
			msg = []byte(fmt.Sprint("message ", i))
		}
		var nodes []*sim.Node
		for _, id := range ids {
			var n *sim.Node
			var err error
			if kg {
				n, err = sim.NewKeygen(id, c.G.IDs, c.G.T, 0, nil)
			} else {
				n, err = sim.NewSign(ids, k.Shares[id], k.Public, msg, 0, nil)
			}
			if err != nil {
				return lib.Fail("session %d: creating a valid session: %v", i, err)
			}
			nodes = append(nodes, n)
			if !c.Full {
				break
			}
		}
		if kg || !c.Full {
			for _, n := range nodes {
				n.Step()
			}
		} else {
			err := func() error {
				if !bad {
					return sim.Lockstep(nodes, 3)
				}
				first := nodes[0].Step()
				for _, n := range nodes[1:] {
					n.Step()
					for _, b := range first {
						_ = n.Handle(ref.MsgS1(nodes[0].ID, ref.B, ref.Identity()))
						_ = n.Handle(b)
					}
					n.Step()
				}
				return nil
			}()
			if err != nil {
				return lib.Fail("session %d: %v", i, err)
			}
			for _, n := range nodes {
				if bad {
					continue
				}
				if n.SG.Signature == nil || !ed25519.Verify(pk, msg, n.SG.Signature.ToEd25519()) {
					return lib.Fail("session %d with the same key gives no valid signature", i)
				}
			}
		}
		for _, n := range nodes {
			if len(n.Sent) == 0 {
				return lib.Fail("session %d emitted nothing", i)
			}
			for _, v := range parts(n.Sent[0], !kg) {
				if err := note(i, v); err != nil {
					return lib.Result{Err: err}
				}
			}
		}
	}
	if after := publicBytes(k.Public); after != before {
		return lib.Fail("after %d sessions the public data is\n%s\nit was\n%s", c.Sessions, after, before)
	}
	for i, id := range c.G.IDs {
		if s := shareBytes(k.Shares[id]); s != shares[i] {
			return lib.Fail("after %d sessions the share of %d is %s, it was %s", c.Sessions, id, s, shares[i])
		}
	}
	return lib.Result{NonTrivial: true, Labels: []string{fmt.Sprintf("sessions>=%d", c.Sessions/500*500), fmt.Sprintf("keygen=%v", c.KeygenIn > 0)}}
}

func TestC19Many(t *testing.T) { lib.Run(t, "C19.many", 0.02, genManyUses(false), checkMany) }
func TestC23Many(t *testing.T) { lib.Run(t, "C23.many", 0.008, genManyUses(true), checkMany) }

// ---- C27: many sessions alive at once ----

type crowdCase struct {
	G      sim.Group
	N      int
	Keygen int // percentage
	Odd    int // percentage of corrupted or abandoned ones
	Eager  bool
	All    bool // all are created before the first goes on
	Window int  // sessions open at the same time
	Seed   uint64
}

func checkCrowd(c *crowdCase) lib.Result {
	r := mrand.New(mrand.NewPCG(c.Seed, 7))
	x := indepCase{Groups: []sim.Group{c.G}}
	for i := 0; i < c.N; i++ {
		j := indepJob{Kind: "sign", Seed: c.Seed*1009 + uint64(i), Pick: []int{r.IntN(20)}, Msg: []byte(fmt.Sprint(i)), Eager: c.Eager}
		if r.IntN(100) < c.Keygen {
			j.Kind = "keygen"
		}
		if r.IntN(100) < c.Odd {
			j.Kind, j.Stop, j.Size = []string{"bad", "left"}[r.IntN(2)], r.IntN(8), r.IntN(2)-1
		}
		x.Jobs = append(x.Jobs, j)
	}
	w := c.Window
	if c.All {
		w = c.N
	}
	steps := 3*len(c.G.IDs) + 2
	for lo := 0; lo < c.N; lo += w {
		hi := min(c.N, lo+w)
		for i := lo; i < hi; i++ {
			x.Order = append(x.Order, i)
		}
		// a few steps of everyone in turn, in changing orders
		for s := 0; s < steps; s++ {
			for _, i := range r.Perm(hi - lo) {
				x.Order = append(x.Order, lo+i)
			}
		}
	}
	res := checkIndep(&x)
	res.Labels = append(res.Labels, fmt.Sprintf("alive>=%d", min(w, c.N)/100*100))
	return res
}

func TestC27Crowd(t *testing.T) {
	lib.Run(t, "C27.crowd", 0.02, func(rt *rapid.T) crowdCase {
		c := crowdCase{G: sim.GenGroup(rt, 2, 4), Keygen: rapid.SampledFrom([]int{0, 0, 10, 50}).Draw(rt, "keygen"), Odd: rapid.SampledFrom([]int{0, 0, 20}).Draw(rt, "odd"),
			Eager: rapid.IntRange(0, 3).Draw(rt, "eager") > 0, All: rapid.Bool().Draw(rt, "all"), Seed: uint64(rapid.Uint32().Draw(rt, "seed"))}
		c.N = rapid.OneOf(rapid.IntRange(10, 120), rapid.IntRange(100, 400)).Draw(rt, "n")
		c.Window = rapid.IntRange(5, 200).Draw(rt, "window")
		return c
	}, checkCrowd)
}
