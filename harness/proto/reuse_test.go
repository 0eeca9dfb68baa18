package proto

import (
	"bytes"
	"fmt"
	"sort"
	"testing"
	"time"

	"github.com/taurusgroup/frost-ed25519/pkg/eddsa"
	"github.com/taurusgroup/frost-ed25519/pkg/frost"
	"github.com/taurusgroup/frost-ed25519/pkg/frost/keygen"
	"github.com/taurusgroup/frost-ed25519/pkg/frost/party"
	"github.com/taurusgroup/frost-ed25519/pkg/messages"
	"github.com/taurusgroup/frost-ed25519/pkg/ristretto"
	"github.com/taurusgroup/frost-ed25519/pkg/state"
	"github.com/taurusgroup/frost-ed25519/pkg/verif/lib"
	"github.com/taurusgroup/frost-ed25519/pkg/verif/ref"
	"github.com/taurusgroup/frost-ed25519/pkg/verif/sim"
	"pgregory.net/rapid"
)

// ---- C23 ----

// shareBytes and publicBytes are full values of caller-held key material.
func shareBytes(s *eddsa.SecretShare) string {
	return fmt.Sprintf("id=%d secret=%x public=%x", s.ID, s.Secret.Bytes(), s.Public.Bytes())
}

func publicBytes(p *eddsa.Public) string {
	var ids []int
	for id := range p.Shares {
		ids = append(ids, int(id))
	}
	sort.Ints(ids)
	out := fmt.Sprintf("parties=%v threshold=%d", p.PartyIDs, p.Threshold)
	for _, id := range ids {
		e := p.Shares[party.ID(id)]
		if e == nil {
			out += fmt.Sprintf(" %d=nil", id)
			continue
		}
		out += fmt.Sprintf(" %d=%x", id, e.Bytes())
	}
	if p.GroupKey == nil {
		return out + " group=nil"
	}
	return out + fmt.Sprintf(" group=%x", []byte(p.GroupKey.ToEd25519()))
}

type sessSpec struct {
	Signers []uint16
	Msg     []byte
	Kind    string // full, bad1, bad2, timeout, stall, refused
	Stop    int    // stall: rounds done before it is left alone
	Bad     int
	D       bool // runs with a (long) timer
}

type reuseCase struct {
	G     sim.Group
	DKG   bool
	Sess  []sessSpec
	Order []int
}

type runSess struct {
	spec   sessSpec
	ids    party.IDSlice
	msg    []byte
	states []*state.State
	sigs   []*eddsa.Signature
	outs   []func() *eddsa.Signature
	in     [][]byte
	round  int
	over   bool
}

func checkReuse(c *reuseCase) lib.Result {
	var k *sim.Keys
	var err error
	if c.DKG {
		if k, err = sim.DKG(c.G.IDs, c.G.T, c.G.Seed); err != nil {
			return lib.Fail("key generation: %v", err)
		}
	} else {
		k = sim.Deal(c.G.IDs, c.G.T, c.G.Seed)
	}
	group := ref.EncodeEd(k.Group)
	snap := map[uint16]string{}
	for id, s := range k.Shares {
		snap[id] = shareBytes(s)
	}
	pubSnap := publicBytes(k.Public)
	// Messages and signer lists are parts of two larger buffers, as if read from one packet: what
	// follows them there belongs to others and must stay as it is, too.
	var msgArena, msgCopy []byte
	var idArena, idCopy party.IDSlice
	for _, sp := range c.Sess {
		msgArena = append(append(msgArena, sp.Msg...), 0xa5, 0x5a)
		idArena = append(append(idArena, sim.IDs(sp.Signers)...), 4242, 77)
	}
	msgCopy, idCopy = append(msgCopy, msgArena...), append(idCopy, idArena...)
	var ss []*runSess
	mo, io := 0, 0
	for _, sp := range c.Sess {
		ss = append(ss, &runSess{spec: sp, ids: idArena[io : io+len(sp.Signers)], msg: msgArena[mo : mo+len(sp.Msg)]})
		mo, io = mo+len(sp.Msg)+2, io+len(sp.Signers)+2
	}
	pubArena := append(k.Public.PartyIDs.Copy(), 4242, 77, 3)
	pubCopy := pubArena.Copy()
	k.Public.PartyIDs = pubArena[:len(k.Public.PartyIDs)]
	intact := func(where string) error {
		for _, id := range c.G.IDs {
			if s := shareBytes(k.Shares[id]); s != snap[id] {
				return fmt.Errorf("%s: secret share of %d is now %s, it was %s", where, id, s, snap[id])
			}
		}
		if s := publicBytes(k.Public); s != pubSnap {
			return fmt.Errorf("%s: public data is now\n%s\nit was\n%s", where, s, pubSnap)
		}
		if !bytes.Equal(msgArena, msgCopy) {
			return fmt.Errorf("%s: the buffer holding the messages of all sessions is now %x, it was %x", where, msgArena, msgCopy)
		}
		if fmt.Sprint(idArena) != fmt.Sprint(idCopy) || fmt.Sprint(pubArena) != fmt.Sprint(pubCopy) {
			return fmt.Errorf("%s: the buffers holding party lists are now %v and %v, they were %v and %v", where, idArena, pubArena, idCopy, pubCopy)
		}
		for i, s := range ss {
			if !bytes.Equal(s.msg, s.spec.Msg) {
				return fmt.Errorf("%s: message bytes of session %d are now %x, they were %x", where, i, s.msg, s.spec.Msg)
			}
			for j, id := range s.spec.Signers {
				if len(s.ids) != len(s.spec.Signers) || uint16(s.ids[j]) != id {
					return fmt.Errorf("%s: signer list of session %d is now %v, it was %v", where, i, s.ids, s.spec.Signers)
				}
			}
		}
		return nil
	}
	labels := map[string]bool{}
	full := 0
	advance := func(i int) error {
		s := ss[i]
		if s.over {
			return nil
		}
		at := fmt.Sprintf("session %d (%s) round %d", i, s.spec.Kind, s.round)
		labels[s.spec.Kind] = true
		if s.states == nil {
			d := time.Duration(0)
			switch {
			case s.spec.Kind == "timeout":
				d = 2 * time.Millisecond
			case s.spec.D:
				d = time.Hour
			}
			for _, id := range s.spec.Signers {
				sk := k.Shares[id]
				if s.spec.Kind == "refused" {
					bad := append(s.ids.Copy(), 0)
					if st, _, err := frost.NewSignState(bad, sk, k.Public, s.msg, d); err == nil {
						_ = st
						return fmt.Errorf("%s: unsorted signer list with ID 0 accepted", at)
					}
					continue
				}
				st, out, err := frost.NewSignState(s.ids, sk, k.Public, s.msg, d)
				if err != nil {
					return fmt.Errorf("%s: creation with reused key material fails: %v", at, err)
				}
				s.states = append(s.states, st)
				s.outs = append(s.outs, func() *eddsa.Signature { return out.Signature })
			}
			if s.spec.Kind == "refused" {
				s.over = true
			}
			return nil
		}
		if s.spec.Kind == "timeout" && s.round >= s.spec.Stop {
			for _, st := range s.states {
				if err := st.WaitForError(); err == nil {
					return fmt.Errorf("%s: no timeout", at)
				}
			}
			s.over = true
			return nil
		}
		if s.spec.Kind == "stall" && s.round >= s.spec.Stop {
			s.over = true // never driven again
			return nil
		}
		var out [][]byte
		for j, st := range s.states {
			self := s.spec.Signers[j]
			for _, b := range s.in {
				if !sim.For(b, self) {
					continue
				}
				b = append([]byte{}, b...)
				m, _ := ref.ParseHeader(b)
				if m.From == s.spec.Signers[s.spec.Bad%len(s.spec.Signers)] {
					if s.spec.Kind == "bad1" && s.round == 1 {
						copy(b[37:], make([]byte, 32))
					}
					if s.spec.Kind == "bad2" && s.round == 2 {
						b[5] ^= 1
					}
				}
				var msg messages.Message
				if err := msg.UnmarshalBinary(b); err != nil {
					continue // the flipped scalar may be non-canonical
				}
				if err := st.HandleMessage(&msg); err != nil && s.spec.Kind == "full" {
					return fmt.Errorf("%s: genuine message refused: %v", at, err)
				}
			}
			for _, m := range st.ProcessAll() {
				b, err := m.MarshalBinary()
				if err != nil {
					return fmt.Errorf("%s: %v", at, err)
				}
				out = append(out, b)
			}
		}
		s.in = out
		s.round++
		if s.round == 3 {
			s.over = true
			if s.spec.Kind != "full" {
				return nil
			}
			full++
			for j, st := range s.states {
				if !st.IsFinished() {
					return fmt.Errorf("%s: signer %d did not finish", at, s.spec.Signers[j])
				}
				if err := st.WaitForError(); err != nil {
					return fmt.Errorf("%s: signer %d: signing with reused key material fails: %v", at, s.spec.Signers[j], err)
				}
				sig := s.outs[j]()
				if sig == nil {
					return fmt.Errorf("%s: no signature", at)
				}
				if err := sim.CheckSignature(sig, group, s.spec.Msg); err != nil {
					return fmt.Errorf("%s: %v", at, err)
				}
			}
		}
		return nil
	}
	step := func(i int) error {
		if err := advance(i); err != nil {
			return err
		}
		return intact(fmt.Sprintf("after a step of session %d (%s, round %d)", i, ss[i].spec.Kind, ss[i].round))
	}
	inter := 0
	last := -1
	for _, o := range c.Order {
		i := o % len(ss)
		if i != last && last >= 0 && !ss[last].over {
			inter++
		}
		last = i
		if err := step(i); err != nil {
			return lib.Result{Err: err}
		}
	}
	for i := range ss {
		for !ss[i].over {
			if err := step(i); err != nil {
				return lib.Result{Err: err}
			}
		}
	}
	if err := intact("at the end"); err != nil {
		return lib.Result{Err: err}
	}
	res := lib.Result{NonTrivial: len(ss) >= 2 && full >= 1}
	for l := range labels {
		res.Labels = append(res.Labels, "has-"+l)
	}
	if inter > 0 {
		res.Labels = append(res.Labels, "interleaved")
	}
	res.Labels = append(res.Labels, fmt.Sprintf("dkg=%v", c.DKG))
	return res
}

func TestC23Reuse(t *testing.T) {
	lib.Run(t, "C23.reuse", 1, func(rt *rapid.T) reuseCase {
		c := reuseCase{G: sim.GenGroup(rt, 2, 6), DKG: rapid.Bool().Draw(rt, "dkg")}
		n := rapid.IntRange(1, 4).Draw(rt, "sessions")
		for i := 0; i < n; i++ {
			size := rapid.IntRange(int(c.G.T)+1, len(c.G.IDs)).Draw(rt, "signers")
			kinds := []string{"full", "full", "full", "bad1", "bad2", "stall", "refused", "timeout"}
			c.Sess = append(c.Sess, sessSpec{Signers: sim.GenSubset(rt, c.G.IDs, size), Msg: sim.GenMsg(rt),
				Kind: rapid.SampledFrom(kinds).Draw(rt, "kind"), Stop: rapid.IntRange(0, 2).Draw(rt, "stop"),
				Bad: rapid.IntRange(0, 5).Draw(rt, "bad"), D: rapid.Bool().Draw(rt, "timer")})
		}
		// one honest session at the end, over whatever the others left
		c.Sess = append(c.Sess, sessSpec{Signers: sim.GenSubset(rt, c.G.IDs, int(c.G.T)+1), Msg: sim.GenMsg(rt), Kind: "full"})
		c.Order = rapid.SliceOfN(rapid.IntRange(0, 11), 0, 16).Draw(rt, "order")
		return c
	}, checkReuse)
}

// outputs of different parties share nothing that can be modified

type disjointCase struct {
	G       sim.Group
	Pointer bool // messages are handed over by reference, not decoded copies
	Shared  bool // all sessions are created from the same party list
	Victim  int
	What    int
}

func checkDisjoint(c *disjointCase) lib.Result {
	n := len(c.G.IDs)
	arena := append(sim.IDs(c.G.IDs), 4242, 77, 3)
	arenaCopy := arena.Copy()
	list := arena[:n]
	var sts []*state.State
	var outs []*keygen.Output
	for _, id := range c.G.IDs {
		l := list
		if !c.Shared {
			l = list.Copy()
		}
		st, out, err := frost.NewKeygenState(party.ID(id), l, party.Size(c.G.T), 0)
		if err != nil {
			return lib.Fail("valid configuration refused: %v", err)
		}
		sts = append(sts, st)
		outs = append(outs, out)
	}
	var in []*messages.Message
	for r := 0; r < 3; r++ {
		var next []*messages.Message
		for i, st := range sts {
			for _, m := range in {
				if uint16(m.From) == c.G.IDs[i] || (m.To != 0 && uint16(m.To) != c.G.IDs[i]) {
					continue
				}
				if !c.Pointer {
					b, err := m.MarshalBinary()
					if err != nil {
						return lib.Fail("%v", err)
					}
					m = new(messages.Message)
					if err := m.UnmarshalBinary(b); err != nil {
						return lib.Fail("%v", err)
					}
				}
				if err := st.HandleMessage(m); err != nil {
					return lib.Fail("genuine message refused: %v", err)
				}
			}
			next = append(next, st.ProcessAll()...)
		}
		in = next
	}
	for i, o := range outs {
		if o.Public == nil || o.SecretKey == nil {
			return lib.Fail("party %d has no output: %v", c.G.IDs[i], sts[i].Err())
		}
	}
	if fmt.Sprint(arena) != fmt.Sprint(arenaCopy) {
		return lib.Fail("the caller's buffer with the party list in front is now %v, it was %v", arena, arenaCopy)
	}
	v := c.Victim % n
	var pub, sec []string
	for _, o := range outs {
		pub = append(pub, publicBytes(o.Public))
		sec = append(sec, shareBytes(o.SecretKey))
	}
	// overwrite everything the victim holds
	o := outs[v]
	junk := sim.Elem(ref.BaseMul(ref.Expand(c.G.Seed, "junk", 0)))
	what := []string{"share points", "share map", "party list", "group key", "secret", "public point"}[c.What%6]
	switch c.What % 6 {
	case 0:
		for _, e := range o.Public.Shares {
			e.Set(junk)
		}
	case 1:
		for id := range o.Public.Shares {
			delete(o.Public.Shares, id)
		}
	case 2:
		for i := range o.Public.PartyIDs {
			o.Public.PartyIDs[i] = 9
		}
		_ = append(o.Public.PartyIDs, 9, 9, 9)
	case 3:
		*o.Public.GroupKey = *eddsa.NewPublicKeyFromPoint(junk)
	case 4:
		o.SecretKey.Secret.Set(ristretto.NewScalar())
	default:
		o.SecretKey.Public.Set(junk)
	}
	for i, x := range outs {
		if i == v {
			continue
		}
		if publicBytes(x.Public) != pub[i] || shareBytes(x.SecretKey) != sec[i] {
			return lib.Fail("overwriting the %s in the output of party %d changes the output of party %d", what, c.G.IDs[v], c.G.IDs[i])
		}
	}
	if c.What%6 == 2 {
		if fmt.Sprint(arena) != fmt.Sprint(arenaCopy) {
			return lib.Fail("overwriting the party list in an output changes the caller's list: %v, it was %v", arena, arenaCopy)
		}
	}
	return lib.Result{NonTrivial: true, Labels: []string{"overwrite-" + what, fmt.Sprintf("pointer=%v", c.Pointer), fmt.Sprintf("shared-list=%v", c.Shared)}}
}

func TestC23Disjoint(t *testing.T) {
	lib.Run(t, "C23.disjoint", 0.6, func(rt *rapid.T) disjointCase {
		return disjointCase{G: sim.GenGroup(rt, 2, 6), Pointer: rapid.Bool().Draw(rt, "ptr"), Shared: rapid.Bool().Draw(rt, "shared"),
			Victim: rapid.IntRange(0, 5).Draw(rt, "victim"), What: rapid.IntRange(0, 5).Draw(rt, "what")}
	}, checkDisjoint)
}
