package proto

import (
	"bytes"
	"fmt"
	"math/big"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"testing"
	"time"
	"unsafe"

	"github.com/taurusgroup/frost-ed25519/pkg/eddsa"
	"github.com/taurusgroup/frost-ed25519/pkg/frost/keygen"
	"github.com/taurusgroup/frost-ed25519/pkg/frost/party"
	"github.com/taurusgroup/frost-ed25519/pkg/frost/sign"
	"github.com/taurusgroup/frost-ed25519/pkg/messages"
	"github.com/taurusgroup/frost-ed25519/pkg/state"
	"github.com/taurusgroup/frost-ed25519/pkg/verif/lib"
	"github.com/taurusgroup/frost-ed25519/pkg/verif/ref"
	"github.com/taurusgroup/frost-ed25519/pkg/verif/sim"
	"pgregory.net/rapid"
)

// ---- C19 ----

type entropyCase struct {
	G    sim.Group
	Sign bool
	Max  int // longest read the source serves, 0 no limit
	Mask byte
	Seed uint64
}

// firstMsg starts one session on the given source and returns its first message.
func firstMsg(c *entropyCase, k *sim.Keys, s *lib.Stream) ([]byte, error) {
	var n *sim.Node
	var err error
	self := c.G.IDs[0]
	if c.Sign {
		n, err = sim.NewSign(c.G.IDs, k.Shares[self], k.Public, []byte("m"), 0, s)
	} else {
		n, err = sim.NewKeygen(self, c.G.IDs, c.G.T, 0, s)
	}
	if err != nil {
		return nil, err
	}
	out := n.Step()
	if len(out) != 1 {
		return nil, fmt.Errorf("starting emitted %d messages", len(out))
	}
	return out[0], nil
}

// parts splits a first message into what each secret scalar determines.
func parts(b []byte, signing bool) map[string][]byte {
	out := map[string][]byte{}
	b = b[5:]
	if signing {
		out["D"], out["E"] = b[:32], b[32:]
		return out
	}
	out["proof"] = b[:32] // hash of the proof's nonce commitment (and of coefficient 0)
	for i := 66; i+32 <= len(b); i += 32 {
		out[fmt.Sprintf("coefficient %d", (i-66)/32)] = b[i : i+32]
	}
	return out
}

func checkEntropy(c *entropyCase) lib.Result {
	k := sim.Deal(c.G.IDs, c.G.T, c.G.Seed)
	mk := func(flip int) *lib.Stream {
		s := lib.NewStream(c.Seed)
		s.Max = c.Max
		s.FlipAt, s.Flip = flip, c.Mask
		return s
	}
	s0 := mk(-1)
	base, err := firstMsg(c, k, s0)
	if err != nil {
		return lib.Result{Err: err}
	}
	want := parts(base, c.Sign)
	// two runs on the same bytes agree: nothing else feeds the secrets
	if b2, err := firstMsg(c, k, mk(-1)); err != nil || !bytes.Equal(b2, base) {
		return lib.Fail("same entropy gives different messages (%v): the entropy source is not the only input", err)
	}
	exclusive := map[string]int{}
	for pos := 0; pos < s0.N; pos++ {
		b, err := firstMsg(c, k, mk(pos))
		if err != nil {
			return lib.Result{Err: err}
		}
		var changed []string
		for name, v := range parts(b, c.Sign) {
			if !bytes.Equal(v, want[name]) {
				changed = append(changed, name)
			}
		}
		if len(changed) == 2 && !c.Sign { // the proof also hashes coefficient 0
			for i, x := range changed {
				if x == "proof" && changed[1-i] == "coefficient 0" {
					changed = []string{"coefficient 0"}
					break
				}
			}
		}
		if len(changed) == 1 {
			exclusive[changed[0]]++
		}
		if len(changed) == 0 {
			return lib.Fail("byte %d of the %d random bytes drawn has no influence (read limit %d)", pos, s0.N, c.Max)
		}
	}
	for name := range want {
		if exclusive[name] < 32 {
			return lib.Fail("%s depends on only %d random bytes of its own (read limit %d, %d bytes drawn)", name, exclusive[name], c.Max, s0.N)
		}
	}
	return lib.Result{NonTrivial: true, Labels: []string{fmt.Sprintf("sign=%v", c.Sign), fmt.Sprintf("short-reads=%v", c.Max > 0)}}
}

func TestC19Entropy(t *testing.T) {
	lib.Run(t, "C19.entropy", 0.5, func(rt *rapid.T) entropyCase {
		return entropyCase{G: sim.GenGroup(rt, 2, 5), Sign: rapid.Bool().Draw(rt, "sign"), Max: rapid.SampledFrom([]int{0, 0, 1, 7, 31, 32, 33, 63, 64, 65}).Draw(rt, "max"),
			Mask: rapid.ByteRange(1, 255).Draw(rt, "mask"), Seed: uint64(rapid.Uint32().Draw(rt, "s"))}
	}, checkEntropy)
}

type freshCase struct {
	G        sim.Group
	Sign     bool
	Sessions int
	SameMsg  bool
	Finish   bool
	Seed     uint64
}

func checkFresh(c *freshCase) lib.Result {
	k := sim.Deal(c.G.IDs, c.G.T, c.G.Seed)
	seen := map[string]string{}
	var mixed error
	note := func(what string, b []byte) {
		if bytes.Equal(b, make([]byte, 32)) {
			mixed = fmt.Errorf("%s is zero", what)
		}
		if prev, dup := seen[string(b)]; dup {
			mixed = fmt.Errorf("%s equals %s: %x", what, prev, b)
		}
		seen[string(b)] = what
	}
	s := lib.SetRand(c.Seed)
	for i := 0; i < c.Sessions; i++ {
		var nodes []*sim.Node
		for _, id := range c.G.IDs {
			var n *sim.Node
			var err error
			if c.Sign {
				msg := []byte("same")
				if !c.SameMsg {
					msg = []byte{byte(i)}
				}
				n, err = sim.NewSign(c.G.IDs, k.Shares[id], k.Public, msg, 0, s)
			} else {
				n, err = sim.NewKeygen(id, c.G.IDs, c.G.T, 0, s)
			}
			if err != nil {
				return lib.Fail("creating a valid session: %v", err)
			}
			nodes = append(nodes, n)
		}
		if c.Finish {
			if err := sim.Lockstep(nodes, 3); err != nil {
				return lib.Result{Err: err}
			}
		} else {
			for _, n := range nodes {
				n.Step()
			}
		}
		for _, n := range nodes {
			for _, b := range n.Sent {
				if b[0] == ref.KG1 || b[0] == ref.S1 {
					for name, v := range parts(b, c.Sign) {
						note(fmt.Sprintf("session %d party %d %s", i, n.ID, name), v)
					}
				}
			}
		}
		if mixed != nil {
			return lib.Result{Err: mixed}
		}
	}
	return lib.Result{NonTrivial: true, Labels: []string{fmt.Sprintf("sign=%v", c.Sign), fmt.Sprintf("finish=%v", c.Finish)}}
}

func TestC19Fresh(t *testing.T) {
	lib.Run(t, "C19.fresh", 1, func(rt *rapid.T) freshCase {
		return freshCase{G: sim.GenGroup(rt, 2, 5), Sign: rapid.Bool().Draw(rt, "sign"), Sessions: rapid.IntRange(2, 6).Draw(rt, "n"),
			SameMsg: rapid.IntRange(0, 3).Draw(rt, "same") > 0, Finish: rapid.Bool().Draw(rt, "finish"), Seed: uint64(rapid.Uint32().Draw(rt, "s"))}
	}, checkFresh)
}

type failCase struct {
	Sign   bool
	T      int
	FailAt int
	Max    int
	Seed   uint64
}

// A failing source may make the call panic or end the process; it runs in a child.
func TestC19FailingSource(t *testing.T) {
	if spec := os.Getenv("VERIF_C19_CHILD"); spec != "" {
		f := strings.Split(spec, ",")
		n := func(i int) int { v, _ := strconv.Atoi(f[i]); return v }
		c := &entropyCase{G: sim.Group{IDs: []uint16{1, 2, 3, 4, 5}[:n(1)+1], T: uint16(n(1)), Seed: 5}, Sign: f[0] == "true"}
		k := sim.Deal(c.G.IDs, c.G.T, c.G.Seed)
		s := lib.NewStream(uint64(n(4)))
		s.FailAt = n(2)
		s.Max = n(3)
		defer func() {
			r := recover()
			fmt.Printf("CHILD-END failed=%v panicked=%v\n", s.Failed, r != nil)
			os.Exit(0)
		}()
		if b, err := firstMsg(c, k, s); err == nil {
			fmt.Printf("CHILD-EMITTED %x failed=%v\n", b, s.Failed)
		}
		return
	}
	lib.Run(t, "C19.failing", 0.2, func(rt *rapid.T) failCase {
		return failCase{Sign: rapid.Bool().Draw(rt, "sign"), T: rapid.IntRange(1, 4).Draw(rt, "t"), FailAt: rapid.IntRange(0, 8).Draw(rt, "at"),
			Max: rapid.SampledFrom([]int{0, 16, 40}).Draw(rt, "max"), Seed: uint64(rapid.Uint16().Draw(rt, "s"))}
	}, func(c *failCase) lib.Result {
		cmd := exec.Command(os.Args[0], "-test.run=^TestC19FailingSource$")
		cmd.Env = append(os.Environ(), fmt.Sprintf("VERIF_C19_CHILD=%v,%d,%d,%d,%d", c.Sign, c.T, c.FailAt, c.Max, c.Seed), "GOTRACEBACK=none")
		out, _ := cmd.CombinedOutput()
		s := string(out)
		if strings.Contains(s, "CHILD-EMITTED") && strings.Contains(s, "failed=true") {
			return lib.Fail("the entropy source failed at read %d, but a message was emitted: %s", c.FailAt, s)
		}
		failed := strings.Contains(s, "failed=true") || !strings.Contains(s, "CHILD-")
		return lib.Result{NonTrivial: failed, Labels: []string{fmt.Sprintf("sign=%v", c.Sign), fmt.Sprintf("source-failed=%v", failed)}}
	})
}

// ---- C20 ----

type eraseCase struct {
	G     sim.Group
	Sign  bool
	Stage int    // how many phases run before the end
	End   string // success, bad1, bad2, timeout
	Part  int    // how many messages of the last phase arrive before a timeout
	Seed  uint64
	Late  bool // a start or message after the end
}

func checkErase(c *eraseCase) lib.Result { return checkEraseWith(c, nil) }

// checkEraseWith with a heap also looks through the memory itself.
func checkEraseWith(c *eraseCase, h *heap) lib.Result {
	ids := c.G.IDs
	self := ids[int(c.Seed)%len(ids)]
	p := &sim.Peers{Self: self, IDs: ids, T: c.G.T, Seed: c.G.Seed, Sign: c.Sign, Msg: []byte("erase me")}
	d := time.Duration(0)
	if c.End == "timeout" {
		d = time.Second
	}
	n := &sim.Node{ID: self, Rand: lib.SetRand(c.Seed)}
	var round state.Round
	var err error
	var sk *eddsa.SecretShare
	if c.Sign {
		p.Keys = sim.Deal(ids, c.G.T, c.G.Seed)
		sk = p.Keys.Shares[self]
		round, n.SG, err = sign.NewRound(sim.IDs(ids), sk, p.Keys.Public, p.Msg)
	} else {
		round, n.KG, err = keygen.NewRound(party.ID(self), sim.IDs(ids), party.Size(c.G.T))
	}
	if err == nil {
		n.St, err = state.NewBaseState(round, d)
	}
	if err != nil {
		return lib.Fail("creating a valid session: %v", err)
	}
	others := p.Others()
	partial := c.Part % (len(others) + 1)
	stage := c.Stage
	if c.End != "timeout" {
		stage = 3
	}
	// drive to the end
	for s := 1; s <= stage; s++ {
		out := n.Step()
		if s == 1 && len(out) == 1 {
			p.SelfC, _ = ref.Parse(out[0])
		}
		h.collect(c, p, n, round)
		if s == 3 {
			break
		}
		count := len(others)
		if c.End == "timeout" && s == stage {
			count = partial
		}
		for i := 0; i < count; i++ {
			var b []byte
			if s == 1 {
				b = p.First(others[i], c.End == "bad1" && i == c.Part%len(others))
			} else {
				b, _ = p.Second(others[i], c.End == "bad2" && i == c.Part%len(others))
			}
			if err := n.Handle(b); err != nil {
				return lib.Fail("a first delivery was refused: %v", err)
			}
		}
		if c.End == "bad1" && s == 1 {
			n.Step()
			break
		}
	}
	// the walker must be able to see secrets while the session is live
	secrets := secretPoints(c, p, n)
	liveSeen := false
	if c.End == "timeout" && c.Stage > 0 {
		_, liveSeen = findSecret(round, secrets)
		if _, viaState := findSecret(n.St, secrets); viaState {
			liveSeen = true
		}
	}
	if h != nil && c.End == "timeout" && c.Stage > 0 {
		if h.find(unsafe.Pointer(n.St)) {
			liveSeen = true
		}
	}
	if c.End == "timeout" {
		time.Sleep(2 * time.Second) // virtual
	}
	done, err := n.Finished()
	if !done || (err == nil) != (c.End == "success") {
		return lib.Fail("scenario %s: finished=%v err=%v", c.End, done, err)
	}
	if c.Late {
		n.Step()
		_ = n.Handle(p.First(others[0], false))
	}
	if where, found := findSecret(round, secrets); found {
		return lib.Fail("after %s (stage %d) the protocol state still holds %s", c.End, c.Stage, where)
	}
	if where, found := findSecret(n.St, secrets); found {
		return lib.Fail("after %s (stage %d) the session still holds %s", c.End, c.Stage, where)
	}
	if h != nil && h.find(unsafe.Pointer(n.St)) {
		return lib.Fail("after %s (stage %d) memory that the session refers to still holds %s", c.End, c.Stage, h.found)
	}
	// what belongs to the caller is intact
	if c.Sign {
		if sim.Int(&sk.Secret).Cmp(p.Keys.Secret[self]) != 0 || !ref.Equal(sim.Pt(&sk.Public), p.Keys.Pub[self]) {
			return lib.Fail("the caller's secret share was changed")
		}
		if c.End == "success" {
			if err := sim.CheckSignature(n.SG.Signature, ref.EncodeEd(p.Keys.Group), p.Msg); err != nil {
				return lib.Fail("returned output damaged: %v", err)
			}
		}
	} else if c.End == "success" {
		bc := map[uint16]*ref.Msg{self: p.SelfC}
		for _, id := range others {
			bc[id], _ = ref.Parse(p.First(id, false))
		}
		if err := sim.CheckKeygen([]*sim.Node{n}, ids, c.G.T, bc); err != nil {
			return lib.Fail("returned output damaged: %v", err)
		}
	}
	lab := fmt.Sprintf("%s stage %d", c.End, c.Stage)
	if c.End != "timeout" {
		lab = c.End
	}
	return lib.Result{NonTrivial: c.End != "timeout" || c.Stage > 0, Labels: []string{fmt.Sprintf("sign=%v %s", c.Sign, lab), fmt.Sprintf("secret-visible-before-end=%v", liveSeen)}}
}

// secretPoints are the public images of the values that must be gone.
func secretPoints(c *eraseCase, p *sim.Peers, n *sim.Node) map[string]string {
	out := map[string]string{}
	put := func(pt *ref.Pt, name string) {
		if !ref.IsIdentity(pt) {
			out[string(ref.Encode(pt))] = name
		}
	}
	if c.Sign {
		l := ref.Lagrange(p.Self, p.IDs)
		put(ref.BaseMul(ref.MulQ(l, p.Keys.Secret[p.Self])), "the signing share (times its Lagrange coefficient)")
		put(ref.BaseMul(p.Keys.Secret[p.Self]), "the signing share")
		if p.SelfC != nil {
			put(p.SelfC.D, "nonce d")
			put(p.SelfC.E, "nonce e")
		}
		return out
	}
	if p.SelfC == nil {
		return out
	}
	for i, cm := range p.SelfC.Commits {
		put(cm, fmt.Sprintf("coefficient %d of the secret polynomial", i))
	}
	own := ref.EvalExp(p.SelfC.Commits, big.NewInt(int64(p.Self)))
	others := p.Others()
	for m := 0; m < 1<<uint(len(others)); m++ {
		if len(others) > 6 && m&(m+1) != 0 && m|(m-1) != 1<<uint(len(others))-1 {
			continue // many parties: the sums over the first or the last few only
		}
		s := own
		for i, id := range others {
			if m>>uint(i)&1 == 1 {
				s = ref.Add(s, ref.BaseMul(ref.Eval(p.Poly(id), big.NewInt(int64(p.Self)))))
			}
		}
		put(s, "the (partial) sum of shares, the secret key")
	}
	return out
}

func findSecret(root interface{}, secrets map[string]string) (string, bool) {
	for _, f := range walk(root) {
		if f.k.Sign() == 0 {
			continue
		}
		if name, ok := secrets[string(ref.Encode(ref.BaseMul(f.k)))]; ok {
			return name + " at " + f.path, true
		}
	}
	return "", false
}

func TestC20Erasure(t *testing.T) {
	lib.Run(t, "C20.erase", 1, func(rt *rapid.T) eraseCase {
		return eraseCase{G: sim.GenGroup(rt, 2, 5), Sign: rapid.Bool().Draw(rt, "sign"), Stage: rapid.IntRange(0, 3).Draw(rt, "stage") % 3,
			End: rapid.SampledFrom([]string{"success", "bad1", "bad2", "bad2", "timeout", "timeout", "timeout"}).Draw(rt, "end"), Part: rapid.IntRange(0, 5).Draw(rt, "part"),
			Seed: uint64(rapid.Uint32().Draw(rt, "s")), Late: rapid.Bool().Draw(rt, "late")}
	}, func(c *eraseCase) lib.Result {
		return bubble(t, func() lib.Result { return checkErase(c) })
	})
}

// The same, looking at the bytes of every heap object the session refers to, in whatever way
// (closures, unexported types, buffers), in a dump of the heap.
func TestC20Heap(t *testing.T) {
	lib.Run(t, "C20.heap", 0.006, func(rt *rapid.T) eraseCase {
		return eraseCase{G: sim.GenGroup(rt, 2, 5), Sign: rapid.Bool().Draw(rt, "sign"), Stage: rapid.IntRange(0, 3).Draw(rt, "stage") % 3,
			End: rapid.SampledFrom([]string{"success", "bad1", "bad2", "timeout", "timeout"}).Draw(rt, "end"), Part: rapid.IntRange(0, 5).Draw(rt, "part"),
			Seed: uint64(rapid.Uint32().Draw(rt, "s")), Late: rapid.Bool().Draw(rt, "late")}
	}, func(c *eraseCase) lib.Result {
		run := func() lib.Result { return bubble(t, func() lib.Result { return checkEraseWith(c, &heap{}) }) }
		res := run()
		if res.Err != nil { // once more: what memory held before is chance
			res = run()
		}
		return res
	})
}

// ---- C22 ----

type snapCase struct {
	S       schedCase
	Pointer bool // deliver broadcast values themselves instead of decoded copies
	BadIdx  int  // a party whose second message to everyone is corrupted, -1 none
	Order   []int
	Check   []int // at which steps everything is encoded again
}

func checkSnap(c *snapCase) lib.Result {
	s := &c.S
	var k *sim.Keys
	if s.Sign {
		k = sim.Deal(s.G.IDs, s.G.T, s.G.Seed)
	}
	base, err := s.nodes(k)
	if err != nil {
		return lib.Fail("creating a valid session: %v", err)
	}
	nodes, err := s.nodes(k)
	if err != nil {
		return lib.Fail("creating a valid session: %v", err)
	}
	if c.BadIdx < 0 {
		if err := sim.Lockstep(base, 3); err != nil {
			return lib.Fail("in-order run: %v", err)
		}
	}
	given := map[*messages.Message]bool{} // private values handed to their recipient
	recheck := func(where string) error {
		for _, n := range nodes {
			for i, m := range n.Ptrs {
				if given[m] {
					continue
				}
				b, err := m.MarshalBinary()
				if err != nil {
					return fmt.Errorf("%s: message %d of party %d no longer encodes: %v", where, i, n.ID, err)
				}
				if !bytes.Equal(b, n.Sent[i]) {
					return fmt.Errorf("%s: message %d of party %d now encodes to %s, it was %s when returned", where, i, n.ID, lib.Clip(b), lib.Clip(n.Sent[i]))
				}
				if m.Size() != len(b) {
					return fmt.Errorf("%s: Size is %d for %d bytes", where, m.Size(), len(b))
				}
				for j := range b { // the caller's to use as it likes
					b[j] ^= 0x5a
				}
			}
		}
		return nil
	}
	var phase []*messages.Message
	steps := 0
	for r := 0; r < 3; r++ {
		var next []*messages.Message
		for x := range nodes {
			n := nodes[(x+pick(c.Order, r))%len(nodes)]
			for i := range phase {
				m := phase[(i+pick(c.Order, x))%len(phase)]
				id := uint16(m.From)
				if id == n.ID || (m.To != 0 && uint16(m.To) != n.ID) {
					continue
				}
				bad := c.BadIdx >= 0 && id == nodes[c.BadIdx%len(nodes)].ID && r == 2
				if c.Pointer && !bad {
					if m.To != 0 {
						given[m] = true
					}
					_ = n.St.HandleMessage(m)
				} else {
					b, err := m.MarshalBinary()
					if err != nil {
						return lib.Fail("message no longer encodes: %v", err)
					}
					if bad {
						b[len(b)-32] ^= 1
					}
					_ = n.Handle(b)
				}
				steps++
				if pick(c.Check, steps)%3 == 0 {
					if err := recheck(fmt.Sprintf("round %d, after a delivery to %d", r, n.ID)); err != nil {
						return lib.Result{Err: err}
					}
				}
			}
			before := len(n.Ptrs)
			n.Step()
			next = append(next, n.Ptrs[before:]...)
			steps++
			if pick(c.Check, steps)%2 == 0 {
				if err := recheck(fmt.Sprintf("round %d, after processing %d", r, n.ID)); err != nil {
					return lib.Result{Err: err}
				}
			}
		}
		phase = next
	}
	if err := recheck("after the end"); err != nil {
		return lib.Result{Err: err}
	}
	lab := "success"
	if c.BadIdx < 0 {
		w := &sim.Net{Nodes: nodes}
		if err := w.AllOK(); err != nil {
			return lib.Fail("pointer delivery=%v: %v", c.Pointer, err)
		}
		if a, b := outcome(base), outcome(nodes); a != b {
			return lib.Fail("pointer delivery=%v gives another result than decoded copies:\n%s\n%s", c.Pointer, a, b)
		}
	} else {
		lab = "abort"
	}
	return lib.Result{NonTrivial: true, Labels: []string{lab, fmt.Sprintf("pointer=%v", c.Pointer), fmt.Sprintf("sign=%v", s.Sign)}}
}

func pick(v []int, i int) int {
	if len(v) == 0 {
		return 0
	}
	return v[i%len(v)]
}

func TestC22Snapshots(t *testing.T) {
	lib.Run(t, "C22.snap", 1, func(rt *rapid.T) snapCase {
		c := snapCase{S: genSched(rt), Pointer: rapid.Bool().Draw(rt, "ptr"), BadIdx: -1}
		c.S.Sched = nil
		if rapid.IntRange(0, 2).Draw(rt, "bad") == 0 {
			c.BadIdx = rapid.IntRange(0, 4).Draw(rt, "badidx")
		}
		c.Order = rapid.SliceOfN(rapid.IntRange(0, 9), 1, 5).Draw(rt, "order")
		c.Check = rapid.SliceOfN(rapid.IntRange(0, 5), 1, 7).Draw(rt, "check")
		return c
	}, checkSnap)
}
