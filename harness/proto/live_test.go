package proto

import (
	"fmt"
	"math/big"
	"testing"

	"github.com/taurusgroup/frost-ed25519/pkg/messages"
	"github.com/taurusgroup/frost-ed25519/pkg/verif/lib"
	"github.com/taurusgroup/frost-ed25519/pkg/verif/ref"
	"github.com/taurusgroup/frost-ed25519/pkg/verif/sim"
	"pgregory.net/rapid"
)

// ---- C09: harmless junk ----

type inject struct {
	At    int // event number before which it is injected
	Node  int
	Kind  string
	Peer  int
	Typ   int
	Arg   int
	Raw   []byte
	Times int // repetitions beyond the first
}

type junkCase struct {
	S   schedCase
	Inj []inject
}

var junkKinds = []string{"raw", "truncate", "extend", "noncanon", "outsider", "self", "misaddressed", "other-protocol", "repeat", "contradict", "contradict", "earlier", "header-to", "empty-body", "degree"}

func genJunk(rt *rapid.T) junkCase {
	var c junkCase
	c.S = genSched(rt)
	n := rapid.IntRange(1, 12).Draw(rt, "ninj")
	for i := 0; i < n; i++ {
		in := inject{At: rapid.IntRange(0, 40).Draw(rt, "at"), Node: rapid.IntRange(0, 7).Draw(rt, "node"), Kind: rapid.SampledFrom(junkKinds).Draw(rt, "kind"),
			Peer: rapid.IntRange(0, 7).Draw(rt, "peer"), Typ: rapid.IntRange(1, 4).Draw(rt, "typ"), Arg: rapid.IntRange(0, 1<<20).Draw(rt, "arg")}
		if in.Kind == "raw" {
			in.Raw = rapid.SliceOfN(rapid.Byte(), 0, 90).Draw(rt, "raw")
		}
		c.Inj = append(c.Inj, in)
	}
	return c
}

// body makes some well-formed message.
func wellFormed(typ byte, from, to uint16, t int, seed uint64, arg int) []byte {
	x := func(i int) *big.Int {
		switch arg % 5 {
		case 0:
			return ref.Expand(seed, "wf", i)
		case 1:
			return new(big.Int)
		case 2:
			return big.NewInt(1)
		case 3:
			return new(big.Int).Sub(ref.Q, big.NewInt(1))
		}
		return ref.Expand(seed, "wf", arg%7)
	}
	switch typ {
	case ref.KG1:
		var cm []*ref.Pt
		for i := 0; i <= t; i++ {
			cm = append(cm, ref.BaseMul(x(i)))
		}
		s, r := ref.Prove(from, ref.ZeroCtx, x(0), ref.Expand(seed, "k", arg))
		if arg%3 == 0 {
			s = x(9)
		}
		return ref.MsgKG1(from, s, r, cm)
	case ref.KG2:
		return ref.MsgKG2(from, to, x(0))
	case ref.S1:
		return ref.MsgS1(from, ref.BaseMul(x(0)), ref.BaseMul(x(1)))
	default:
		return ref.MsgS2(from, x(0))
	}
}

func checkJunk(c *junkCase) lib.Result {
	s := &c.S
	var k *sim.Keys
	if s.Sign {
		k = sim.Deal(s.G.IDs, s.G.T, s.G.Seed)
	}
	base, err := s.nodes(k)
	if err != nil {
		return lib.Fail("creating a valid session: %v", err)
	}
	if err := sim.Lockstep(base, 3); err != nil {
		return lib.Fail("in-order run: %v", err)
	}
	nodes, err := s.nodes(k)
	if err != nil {
		return lib.Fail("creating a valid session: %v", err)
	}
	w := sim.NewNet(nodes)
	w.Eager = s.Eager
	labels := map[string]bool{}
	step := 0
	var hookErr error
	genuine := [][]byte{}
	w.OnEmit = func(b []byte) { genuine = append(genuine, b) }
	types := []byte{ref.KG1, ref.KG2}
	if s.Sign {
		types = []byte{ref.S1, ref.S2}
	}
	fire := func(in inject) {
		n := nodes[in.Node%len(nodes)]
		peer := nodes[in.Peer%len(nodes)]
		if peer == n {
			peer = nodes[(in.Peer+1)%len(nodes)]
		}
		typ := byte(in.Typ)
		t := int(s.G.T)
		mk := func(typ byte, from, to uint16) []byte {
			return wellFormed(typ, from, to, t, s.Seed, in.Arg)
		}
		var b []byte
		var g []byte
		if len(genuine) > 0 {
			g = append([]byte{}, genuine[in.Arg%len(genuine)]...)
		} else {
			g = mk(types[0], peer.ID, 0)
		}
		mustFail := false
		switch in.Kind {
		case "raw":
			b = in.Raw
			if _, ok := ref.Parse(b); ok {
				return
			}
			mustFail = true
		case "truncate":
			b = g[:in.Arg%len(g)]
			mustFail = true
		case "extend":
			b = append(g, byte(in.Arg))
			mustFail = true
		case "empty-body":
			b = g[:5]
			mustFail = true
		case "noncanon":
			b = g
			for i := len(b) - 32; i < len(b); i++ {
				b[i] = 0xff
			}
			mustFail = true
		case "degree": // claims another number of coefficients than it carries
			b = mk(ref.KG1, peer.ID, 0)
			deg := []int{65535, 65534, 0, t + 1, t - 1, 32767, 256 + t}[in.Arg%7]
			b[69], b[70] = byte(deg>>8), byte(deg)
			if in.Arg%2 == 0 {
				b = b[:71]
			}
			mustFail = true
		case "header-to":
			b = g
			if b[0] == ref.KG2 {
				b[3], b[4] = 0, 0
			} else {
				b[4] = byte(1 + in.Arg%255)
			}
			mustFail = true
		case "outsider":
			out := uint16(in.Arg)
			for used(out, nodes) || out == 0 {
				out++
			}
			b = mk(types[in.Typ%2], out, n.ID)
		case "self":
			b = mk(types[in.Typ%2], n.ID, n.ID)
		case "misaddressed":
			if s.Sign {
				return
			}
			to := uint16(in.Arg)
			for to == 0 || to == n.ID {
				to++
			}
			b = mk(ref.KG2, peer.ID, to)
		case "other-protocol":
			b = mk([]byte{ref.S1, ref.S2}[in.Typ%2], peer.ID, n.ID)
			if s.Sign {
				b = mk([]byte{ref.KG1, ref.KG2}[in.Typ%2], peer.ID, n.ID)
			}
		case "repeat", "contradict":
			typ = types[in.Typ%2]
			if !w.Got[n.ID][sim.Key{From: peer.ID, Type: typ}] {
				return
			}
			if in.Kind == "contradict" {
				b = mk(typ, peer.ID, n.ID)
			} else {
				for _, x := range genuine {
					if m, _ := ref.ParseHeader(x); m.From == peer.ID && m.Type == typ && sim.For(x, n.ID) {
						b = x
					}
				}
			}
		case "earlier":
			if len(n.Sent) < 2 { // it must have left round 1
				return
			}
			b = mk(types[0], peer.ID, n.ID)
		}
		if b == nil {
			return
		}
		labels[in.Kind] = true
		_, parses := ref.Parse(b)
		err := n.Handle(b)
		for i := 0; i < in.Times; i++ {
			if in.Kind == "outsider" { // from everywhere
				out := uint16(in.Arg + i)
				if out == 0 || used(out, nodes) {
					continue
				}
				b[1], b[2] = byte(out>>8), byte(out)
			}
			err = n.Handle(b)
		}
		if in.Times >= 100 {
			labels["flood"] = true
		}
		if mustFail && !parses && err == nil {
			hookErr = fmt.Errorf("undecodable message %s (%s) was accepted without an error", lib.Clip(b), in.Kind)
		}
	}
	inHook := false
	w.Hook = func() {
		if inHook {
			return
		}
		inHook = true
		for _, in := range c.Inj {
			if in.At == step {
				fire(in)
			}
		}
		step++
		inHook = false
	}
	if err := w.Run(s.Sched); err != nil {
		return lib.Result{Err: err}
	}
	if hookErr != nil {
		return lib.Result{Err: hookErr}
	}
	if err := w.AllOK(); err != nil {
		return lib.Fail("with harmless junk %v injected: %v", lkeys(labels), err)
	}
	if a, b := outcome(base), outcome(nodes); a != b {
		return lib.Fail("injected junk %v changed the result:\n%s\n%s", lkeys(labels), a, b)
	}
	return lib.Result{NonTrivial: len(labels) > 0, Labels: lkeys(labels)}
}

func used(id uint16, nodes []*sim.Node) bool {
	for _, n := range nodes {
		if n.ID == id {
			return true
		}
	}
	return false
}

func lkeys(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	return out
}

func TestC09Junk(t *testing.T) { lib.Run(t, "C09.junk", 1, genJunk, checkJunk) }

// ---- C09: arbitrary decodable traffic never panics ----

type hostileOp struct {
	Kind string // step, msg, mutate, genuine
	Peer int
	Typ  int
	Deg  int
	Arg  int
	Mut  []int // byte edits: position, value pairs
}

type hostileCase struct {
	G    sim.Group
	Sign bool
	Ops  []hostileOp
	Seed uint64
}

func genHostile(rt *rapid.T) hostileCase {
	var c hostileCase
	c.G = sim.GenGroup(rt, 2, 4)
	c.Sign = rapid.Bool().Draw(rt, "sign")
	c.Seed = uint64(rapid.Uint32().Draw(rt, "sseed"))
	n := rapid.IntRange(2, 24).Draw(rt, "nops")
	for i := 0; i < n; i++ {
		o := hostileOp{Kind: rapid.SampledFrom([]string{"step", "step", "msg", "msg", "mutate", "genuine", "genuine", "edge"}).Draw(rt, "op"),
			Peer: rapid.IntRange(0, 5).Draw(rt, "peer"), Typ: rapid.IntRange(1, 4).Draw(rt, "typ"), Deg: rapid.IntRange(0, 5).Draw(rt, "deg"), Arg: rapid.IntRange(0, 1<<16).Draw(rt, "arg")}
		if o.Kind == "mutate" {
			o.Mut = rapid.SliceOfN(rapid.IntRange(0, 65535), 1, 4).Draw(rt, "mut")
		}
		c.Ops = append(c.Ops, o)
	}
	return c
}

func checkHostile(c *hostileCase) lib.Result {
	k := sim.Deal(c.G.IDs, c.G.T, c.G.Seed)
	self := c.G.IDs[int(c.Seed)%len(c.G.IDs)]
	var n *sim.Node
	var err error
	msg := []byte("hostile")
	if c.Sign {
		n, err = sim.NewSign(c.G.IDs, k.Shares[self], k.Public, msg, 0, lib.NewStream(c.Seed))
	} else {
		n, err = sim.NewKeygen(self, c.G.IDs, c.G.T, 0, lib.NewStream(c.Seed))
	}
	if err != nil {
		return lib.Fail("creating a valid session: %v", err)
	}
	labels := map[string]bool{}
	accepted := 0
	feed := func(b []byte) {
		var m messages.Message
		if err := m.UnmarshalBinary(b); err != nil {
			return
		}
		labels["decodable"] = true
		if n.St.HandleMessage(&m) == nil {
			accepted++
		}
	}
	for _, o := range c.Ops {
		from := c.G.IDs[o.Peer%len(c.G.IDs)]
		if o.Peer == 5 {
			from = uint16(o.Arg)
		}
		typ := byte(o.Typ)
		if o.Arg%4 != 0 { // mostly the running protocol
			typ = byte(1 + o.Typ%2)
			if c.Sign {
				typ += 2
			}
		}
		switch o.Kind {
		case "step":
			n.Step()
		case "msg":
			feed(wellFormed(typ, from, self, o.Deg, c.Seed, o.Arg))
		case "edge": // degree fields and lengths at their limits
			b := wellFormed(ref.KG1, from, 0, o.Deg, c.Seed, o.Arg)
			deg := []int{65535, 0, 65534, 256, 1, 255}[o.Arg%6]
			b[69], b[70] = byte(deg>>8), byte(deg)
			if o.Deg == 0 {
				b = b[:71]
			}
			feed(b)
		case "genuine":
			feed(wellFormed(typ, from, self, int(c.G.T), c.Seed+uint64(from), 0))
		case "mutate":
			b := wellFormed(typ, from, self, int(c.G.T), c.Seed, 0)
			for i := 0; i < len(o.Mut); i++ {
				b[(o.Mut[i]>>8)%len(b)] ^= byte(o.Mut[i])
			}
			if o.Arg%3 == 0 {
				b = b[:o.Arg%(len(b)+1)]
			}
			feed(b)
		}
		done, err := n.Finished()
		if n.KG != nil && (n.KG.Public != nil) != (done && err == nil) {
			return lib.Fail("finished=%v err=%v, output present=%v", done, err, n.KG.Public != nil)
		}
		if n.SG != nil && (n.SG.Signature != nil) != (done && err == nil) {
			return lib.Fail("finished=%v err=%v, signature present=%v", done, err, n.SG.Signature != nil)
		}
		if n.SG != nil && n.SG.Signature != nil {
			if err := sim.CheckSignature(n.SG.Signature, k.Public.GroupKey.ToEd25519(), msg); err != nil {
				return lib.Result{Err: err}
			}
		}
		if n.KG != nil && n.KG.SecretKey != nil {
			labels["keygen-completed"] = true
			if e := n.KG.Public.Shares[n.KG.SecretKey.ID]; e == nil || !ref.Equal(sim.Pt(e), ref.BaseMul(sim.Int(&n.KG.SecretKey.Secret))) {
				return lib.Fail("key generation output is inconsistent")
			}
		}
		if done && err != nil {
			labels["aborted"] = true
		}
	}
	return lib.Result{NonTrivial: accepted > 0, Labels: lkeys(labels)}
}

func TestC09Hostile(t *testing.T) { lib.Run(t, "C09.hostile", 2, genHostile, checkHostile) }
