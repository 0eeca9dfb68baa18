package proto

import (
	"encoding/json"
	"fmt"
	"math/big"
	"runtime"
	"testing"
	"time"
	"weak"

	"github.com/taurusgroup/frost-ed25519/pkg/eddsa"
	"github.com/taurusgroup/frost-ed25519/pkg/frost"
	"github.com/taurusgroup/frost-ed25519/pkg/frost/party"
	"github.com/taurusgroup/frost-ed25519/pkg/helpers"
	"github.com/taurusgroup/frost-ed25519/pkg/internal/polynomial"
	"github.com/taurusgroup/frost-ed25519/pkg/internal/zk"
	"github.com/taurusgroup/frost-ed25519/pkg/messages"
	"github.com/taurusgroup/frost-ed25519/pkg/ristretto"
	"github.com/taurusgroup/frost-ed25519/pkg/state"
	"github.com/taurusgroup/frost-ed25519/pkg/verif/lib"
	"github.com/taurusgroup/frost-ed25519/pkg/verif/ref"
	"github.com/taurusgroup/frost-ed25519/pkg/verif/sim"
	"pgregory.net/rapid"
)

// ---- C32: what is kept does not depend on the traffic ----

type growthCase struct {
	G       sim.Group
	Sign    bool
	Self    int
	Msg     []byte
	Stage   int // how far the session is
	Kinds   []int
	N       int
	Routine bool // through helpers.PartyRoutine
	Timed   bool
}

const (
	jOutsider = iota
	jRepeat
	jContradict
	jOwn
	jMisaddressed
	jOtherProtocol
	jMalformed
	jTwo
	jKinds
)

func heapSize() int64 {
	var m runtime.MemStats
	runtime.GC()
	runtime.GC()
	runtime.ReadMemStats(&m)
	return int64(m.HeapAlloc)
}

const keptLimit = 64 << 10

func checkGrowth(c *growthCase) lib.Result {
	ids := ref.Sorted(c.G.IDs)
	self := ids[c.Self%len(ids)]
	p := &sim.Peers{Self: self, IDs: ids, T: c.G.T, Seed: c.G.Seed, Sign: c.Sign, Msg: c.Msg}
	d := time.Duration(0)
	if c.Timed {
		d = time.Hour
	}
	var st *state.State
	var err error
	if c.Sign {
		p.Keys = sim.Deal(ids, c.G.T, c.G.Seed)
		st, _, err = frost.NewSignState(sim.IDs(ids), p.Keys.Shares[self], p.Keys.Public, c.Msg, d)
	} else {
		st, _, err = frost.NewKeygenState(party.ID(self), sim.IDs(ids), party.Size(c.G.T), d)
	}
	if err != nil {
		return lib.Fail("%v", err)
	}
	give := func(raw []byte) error {
		if c.Routine {
			_, err := helpers.PartyRoutine([][]byte{raw}, st)
			return err
		}
		m := new(messages.Message)
		if err := m.UnmarshalBinary(raw); err != nil {
			return err
		}
		return st.HandleMessage(m)
	}
	others := p.Others()
	victim := others[0]
	var accepted [][]byte
	first := func(bad bool) {
		for _, id := range others {
			b := p.First(id, bad && id == victim)
			_ = give(b)
			accepted = append(accepted, b)
		}
	}
	process := func() {
		for _, m := range st.ProcessAll() {
			if b, err := m.MarshalBinary(); err == nil && m.From == party.ID(self) && p.SelfC == nil {
				p.SelfC, _ = ref.Parse(b)
			}
		}
	}
	// with PartyRoutine a delivery processes as well; the stages are reached all the same
	if c.Stage >= 1 {
		process()
	}
	switch {
	case c.Stage == 2:
		b := p.First(victim, false)
		_ = give(b)
		accepted = append(accepted, b)
	case c.Stage == 6:
		first(true)
		process()
	case c.Stage >= 3:
		first(false)
		process()
		if c.Stage >= 4 {
			for i, id := range others {
				if c.Stage == 4 && i == len(others)-1 {
					break
				}
				b, ok := p.Second(id, false)
				if !ok {
					continue
				}
				_ = give(b)
				accepted = append(accepted, b)
			}
		}
		if c.Stage == 5 {
			process()
		}
	}
	small := func(typ byte, from, to uint16, k int) []byte {
		if typ == ref.KG2 {
			return ref.MsgKG2(from, to, big.NewInt(int64(k)))
		}
		return ref.MsgS2(from, big.NewInt(int64(k)))
	}
	mine, other := byte(ref.KG2), byte(ref.S2)
	if c.Sign {
		mine, other = other, mine
	}
	var stranger []uint16
	in := map[uint16]bool{0: true}
	for _, id := range ids {
		in[id] = true
	}
	for id := uint16(1); len(stranger) < 40; id += 7 {
		if !in[id] {
			stranger = append(stranger, id)
		}
	}
	seq := 0
	send := func() error {
		seq++
		k := c.Kinds[seq%len(c.Kinds)]
		switch k {
		case jOutsider:
			return give(small(mine, stranger[seq%len(stranger)], self, seq))
		case jRepeat:
			if len(accepted) > 0 {
				return give(accepted[seq%len(accepted)])
			}
		case jOwn:
			return give(small(mine, self, others[seq%len(others)], seq))
		case jMisaddressed:
			if !c.Sign && len(others) > 1 {
				return give(small(mine, others[0], others[1], seq))
			}
		case jOtherProtocol:
			return give(small(other, others[seq%len(others)], self, seq))
		case jMalformed:
			b := small(mine, others[seq%len(others)], self, seq)
			switch seq % 3 {
			case 0:
				b = b[:len(b)-1]
			case 1:
				b[len(b)-1] = 0xff
			default:
				b[0] = 0x77
			}
			return give(b)
		case jTwo: // an invalid one and its repetitions of the session's second kind, from one peer
			return give(small(mine, others[len(others)-1], self, 7))
		}
		return give(small(mine, victim, self, seq)) // contradicts the first of its kind
	}
	for i := 0; i < 400; i++ {
		_ = send()
	}
	grown := func() int64 {
		before := heapSize()
		for i := 0; i < c.N; i++ {
			_ = send()
		}
		return heapSize() - before
	}
	g := grown()
	if g > keptLimit { // nothing but a growth that goes on counts
		if g2 := grown(); g2 > keptLimit && grown() > keptLimit {
			return lib.Fail("%d messages without effect made the session (stage %d) keep %d more bytes, and as many again", c.N, c.Stage, g)
		}
	}
	runtime.KeepAlive(st)
	runtime.KeepAlive(p)
	return lib.Result{NonTrivial: true, Labels: []string{fmt.Sprintf("stage=%d", c.Stage), fmt.Sprintf("sign=%v", c.Sign), fmt.Sprintf("routine=%v", c.Routine)}}
}

func TestC32Growth(t *testing.T) {
	lib.Run(t, "C32.growth", 1, func(rt *rapid.T) growthCase {
		return growthCase{G: sim.GenGroup(rt, 2, 5), Sign: rapid.Bool().Draw(rt, "sign"), Self: rapid.IntRange(0, 4).Draw(rt, "self"), Msg: []byte("m"),
			Stage: rapid.IntRange(0, 6).Draw(rt, "stage"), Kinds: rapid.SliceOfN(rapid.IntRange(0, jKinds-1), 1, 3).Draw(rt, "kinds"), N: rapid.IntRange(2000, 4000).Draw(rt, "n"),
			Routine: rapid.IntRange(0, 2).Draw(rt, "routine") == 0, Timed: rapid.Bool().Draw(rt, "timed")}
	}, checkGrowth)
}

// ---- sessions that are over are released ----

type releaseCase struct {
	G        sim.Group
	Sessions int
	Fate     []int // per session: 0 finished, 1 aborted, 2 timed out, 3 abandoned (no timer)
	Stop     int   // abandoned: after how many rounds
	Sign     bool
	Timed    bool // finished and aborted ones have a timeout far away
	OneKey   bool // all over the same key material, which the caller keeps
	Wait     bool // somebody waits for the end
}

type weakRefs struct {
	states []weak.Pointer[state.State]
	shares []weak.Pointer[eddsa.SecretShare]
	msgs   []weak.Pointer[messages.Message]
}

//go:noinline
func runAndForget(c *releaseCase, i int, keys *sim.Keys, w *weakRefs) error {
	fate := c.Fate[i%len(c.Fate)]
	d := time.Duration(0)
	switch {
	case fate == 2:
		d = 2 * time.Millisecond
	case fate < 2 && c.Timed:
		d = 100 * time.Hour
	}
	ids := ref.Sorted(c.G.IDs)
	k := keys
	if c.Sign && k == nil {
		k = sim.Deal(ids, c.G.T, c.G.Seed+uint64(i))
		for _, id := range ids {
			w.shares = append(w.shares, weak.Make(k.Shares[id]))
		}
	}
	var sts []*state.State
	for _, id := range ids {
		var st *state.State
		var err error
		if c.Sign {
			st, _, err = frost.NewSignState(sim.IDs(ids), k.Shares[id], k.Public, []byte{byte(i)}, d)
		} else {
			st, _, err = frost.NewKeygenState(party.ID(id), sim.IDs(ids), party.Size(c.G.T), d)
		}
		if err != nil {
			return err
		}
		sts = append(sts, st)
		w.states = append(w.states, weak.Make(st))
	}
	ended := make(chan error, len(sts))
	if c.Wait && fate != 3 {
		for _, st := range sts {
			go func() { ended <- st.WaitForError() }()
		}
	}
	rounds := 3
	if fate >= 2 {
		rounds = c.Stop
	}
	for r := 0; r < rounds; r++ {
		var raws [][]byte
		for _, st := range sts {
			for _, m := range st.ProcessAll() {
				b, err := m.MarshalBinary()
				if err != nil {
					return err
				}
				if fate == 1 && r == 1 && len(raws) == 0 {
					b[len(b)-32] ^= 1
				}
				raws = append(raws, b)
				w.msgs = append(w.msgs, weak.Make(m))
			}
		}
		for _, b := range raws {
			for j, st := range sts {
				if sim.For(b, ids[j]) {
					m := new(messages.Message)
					if m.UnmarshalBinary(b) != nil {
						continue
					}
					_ = st.HandleMessage(m)
					w.msgs = append(w.msgs, weak.Make(m))
				}
			}
		}
	}
	for j, st := range sts {
		switch {
		case fate == 3:
		case fate == 2 || st.IsFinished():
			select {
			case <-st.Done():
			case <-time.After(60 * time.Second):
				return fmt.Errorf("session of party %d has not ended", ids[j])
			}
		case fate == 1: // those that have not seen the bad message have all they need or do not
			st.ProcessAll()
		default:
			return fmt.Errorf("session of party %d has not ended: %v", ids[j], st.Err())
		}
		if c.Wait && fate != 3 && st.IsFinished() {
			select {
			case <-ended:
			case <-time.After(60 * time.Second):
				return fmt.Errorf("a waiter is not released")
			}
		}
		if fate == 1 && !st.IsFinished() && c.Timed {
			w.states[len(w.states)-len(sts)+j] = weak.Pointer[state.State]{} // rightly alive
		}
	}
	return nil
}

func checkRelease(c *releaseCase) lib.Result {
	var keys *sim.Keys
	if c.OneKey && c.Sign {
		keys = sim.Deal(c.G.IDs, c.G.T, c.G.Seed)
	}
	if c.Wait { // every party has to end for its waiter to
		for i := range c.Fate {
			if c.Fate[i] == 1 {
				c.Fate[i] = 0
			}
		}
	}
	w := &weakRefs{}
	for i := 0; i < c.Sessions; i++ {
		if err := runAndForget(c, i, keys, w); err != nil {
			return lib.Fail("session %d: %v", i, err)
		}
	}
	left := func() (s, k, m int) {
		for _, p := range w.states {
			if p.Value() != nil {
				s++
			}
		}
		for _, p := range w.shares {
			if p.Value() != nil {
				k++
			}
		}
		for _, p := range w.msgs {
			if p.Value() != nil {
				m++
			}
		}
		return
	}
	var s, k, m int
	for try := 0; try < 60; try++ {
		runtime.GC()
		if s, k, m = left(); s+k+m == 0 {
			break
		}
		if try > 5 {
			time.Sleep(time.Duration(try) * 5 * time.Millisecond)
		}
	}
	if s+k+m > 0 {
		return lib.Fail("of %d sessions that are over and forgotten %d are still in memory, and %d of %d shares, %d of %d messages", len(w.states), s, k, len(w.shares), m, len(w.msgs))
	}
	runtime.KeepAlive(keys)
	return lib.Result{NonTrivial: true, Labels: []string{fmt.Sprintf("fate=%d", c.Fate[0]), fmt.Sprintf("sign=%v", c.Sign), fmt.Sprintf("timed=%v", c.Timed)}}
}

func TestC32Release(t *testing.T) {
	lib.Run(t, "C32.release", 1, func(rt *rapid.T) releaseCase {
		c := releaseCase{G: sim.GenGroup(rt, 2, 4), Sessions: rapid.IntRange(1, 4).Draw(rt, "sessions"), Fate: rapid.SliceOfN(rapid.IntRange(0, 3), 1, 4).Draw(rt, "fate"),
			Stop: rapid.IntRange(0, 2).Draw(rt, "stop"), Sign: rapid.Bool().Draw(rt, "sign"), Timed: rapid.Bool().Draw(rt, "timed"), OneKey: rapid.Bool().Draw(rt, "onekey"), Wait: rapid.Bool().Draw(rt, "wait")}
		if len(c.G.IDs) > 8 { // it is the number of sessions that counts
			c.G.IDs, c.G.T = c.G.IDs[:8], 1+c.G.T%7
		}
		return c
	}, checkRelease)
}

// ---- decoding takes memory in proportion to its input ----

type decodeCase struct {
	What   int
	Claim  int
	Have   int
	Cut    int
	From   uint16
	Seed   uint64
	Repeat int
}

func taken(f func()) int64 {
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	f()
	runtime.ReadMemStats(&b)
	return int64(b.TotalAlloc - a.TotalAlloc)
}

func checkDecode(c *decodeCase) lib.Result {
	var raw []byte
	perByte := int64(100)
	f := func() { _ = new(messages.Message).UnmarshalBinary(raw) }
	switch c.What {
	case 0, 1: // a polynomial of a claimed degree
		raw = append(ref.Header(ref.KG1, c.From, 0), ref.ScalarBytes(ref.Expand(c.Seed, "a", 0))...)
		raw = append(raw, ref.ScalarBytes(ref.Expand(c.Seed, "b", 0))...)
		raw = append(raw, ref.ID16(uint16(c.Claim))...)
		for i := 0; i < c.Have; i++ {
			raw = append(raw, ref.Encode(ref.B)...)
		}
	case 2:
		raw = ref.MsgKG2(c.From, c.From^1, ref.Expand(c.Seed, "a", 0))
	case 3:
		raw = ref.MsgS1(c.From, ref.B, ref.B)
	case 4:
		raw = ref.MsgS2(c.From, ref.Expand(c.Seed, "a", 0))
	case 5:
		raw = append(ref.Encode(ref.B), ref.ScalarBytes(ref.Expand(c.Seed, "a", 0))...)
		f = func() { _ = new(eddsa.Signature).UnmarshalBinary(raw) }
	case 6:
		shares := map[string][]byte{}
		for i := 0; i < c.Have%8; i++ {
			shares[fmt.Sprint((int(c.From)+i*c.Repeat)%65536)] = ref.Encode(ref.BaseMul(big.NewInt(int64(i + 1))))
		}
		raw, _ = json.Marshal(map[string]interface{}{"t": c.Claim, "groupkey": ref.Encode(ref.B), "shares": shares})
		f = func() { _ = json.Unmarshal(raw, new(eddsa.Public)) }
		perByte = 1000
	case 7:
		raw, _ = json.Marshal(map[string]interface{}{"id": c.Claim * c.Repeat, "secret": ref.ScalarBytes(ref.Expand(c.Seed, "a", 0))})
		f = func() { _ = json.Unmarshal(raw, new(eddsa.SecretShare)) }
	}
	if c.Cut > 0 && c.What < 6 {
		raw = raw[:len(raw)-c.Cut%(len(raw)+1)]
	}
	limit := 32<<10 + perByte*int64(len(raw))
	least := int64(1) << 62
	for i := 0; i < 3; i++ { // another goroutine's allocations do not count
		if n := taken(f); n < least {
			least = n
		}
		if least <= limit {
			break
		}
	}
	if least > limit {
		return lib.Fail("decoding %d bytes (%s) takes %d bytes of memory", len(raw), lib.Clip(raw), least)
	}
	return lib.Result{NonTrivial: c.Claim != c.Have-1 || c.Cut > 0, Labels: []string{fmt.Sprintf("what=%d", c.What)}}
}

func TestC32Decode(t *testing.T) {
	lib.Run(t, "C32.decode", 20, func(rt *rapid.T) decodeCase {
		return decodeCase{What: rapid.IntRange(0, 7).Draw(rt, "what"), Claim: rapid.OneOf(rapid.IntRange(0, 65535), rapid.SampledFrom([]int{65535, 65534, 32768, 4096, 1})).Draw(rt, "claim"),
			Have: rapid.SampledFrom([]int{0, 1, 2, 3, 8, 40}).Draw(rt, "have"), Cut: rapid.SampledFrom([]int{0, 0, 0, 1, 31, 32, 33, 64}).Draw(rt, "cut"), From: rapid.Uint16().Draw(rt, "from"),
			Seed: uint64(rapid.Uint32().Draw(rt, "seed")), Repeat: rapid.SampledFrom([]int{1, 2, 257, 70000}).Draw(rt, "repeat")}
	}, checkDecode)
}

// ---- the process does not remember what it was asked ----

type steadyCase struct {
	Seed uint64
	Ops  []int
	N    int
	Size int // parties
}

var steadyOps = []struct {
	name string
	do   func(c *steadyCase, i int)
}{
	{"verify", func(c *steadyCase, i int) {
		var e ristretto.Element
		e.ScalarBaseMult(fresh(c, i))
		pk := eddsa.NewPublicKeyFromPoint(&e)
		pk.Verify(party.ID(i).Bytes(), &eddsa.Signature{R: e, S: *fresh(c, i+1)})
		pk.ToEd25519()
	}},
	{"lagrange", func(c *steadyCase, i int) {
		ids := freshIDs(c, i)
		_, _ = ids[i%len(ids)].Lagrange(ids)
		ids.Contains(party.ID(i))
		_ = ids[0].Scalar()
	}},
	{"deal", func(c *steadyCase, i int) {
		ids := freshIDs(c, i)
		_, shares := helpers.GenerateSecrets(ids, ids.N()-1)
		pub := helpers.GeneratePublic(ids.N()-1, shares)
		b, _ := pub.MarshalJSON()
		_ = json.Unmarshal(b, new(eddsa.Public))
		sk := shares[ids[0]]
		b, _ = sk.MarshalJSON()
		_ = json.Unmarshal(b, new(eddsa.SecretShare))
		b, _ = sk.MarshalBinary()
		_ = new(eddsa.SecretShare).UnmarshalBinary(b)
	}},
	{"polynomial", func(c *steadyCase, i int) {
		p := polynomial.NewPolynomial(party.Size(c.Size), fresh(c, i))
		q := polynomial.NewPolynomialExponent(p)
		p.Evaluate(party.ID(1 + i%65535).Scalar())
		q.Evaluate(party.ID(1 + i%65535).Scalar())
		_, _ = polynomial.Sum([]*polynomial.Exponent{q, q})
		b, _ := q.MarshalBinary()
		_ = new(polynomial.Exponent).UnmarshalBinary(b)
	}},
	{"proof", func(c *steadyCase, i int) {
		x := fresh(c, i)
		var e ristretto.Element
		e.ScalarBaseMult(x)
		zk.NewSchnorrProof(party.ID(1+i%65535), &e, make([]byte, 32), x).Verify(party.ID(1+i%65535), &e, make([]byte, 32))
	}},
	{"decode", func(c *steadyCase, i int) {
		var e ristretto.Element
		e.ScalarBaseMult(fresh(c, i))
		for _, m := range []*messages.Message{messages.NewSign1(1, &e, &e), messages.NewSign2(1, fresh(c, i)), messages.NewKeyGen2(1, 2, fresh(c, i))} {
			b, _ := m.MarshalBinary()
			d := new(messages.Message)
			_ = d.UnmarshalBinary(b)
			d.Equal(m)
		}
	}},
	{"refuse", func(c *steadyCase, i int) {
		b := ref.MsgS2(uint16(1+i%65535), big.NewInt(int64(i)))
		b[len(b)-1] = 0xff
		_ = new(messages.Message).UnmarshalBinary(b)
		_ = new(eddsa.Signature).UnmarshalBinary(append(b, b...))
		_, _ = new(ristretto.Element).SetCanonicalBytes(fresh(c, i).Bytes())
	}},
	{"keygen", func(c *steadyCase, i int) {
		ids := freshIDs(c, i)
		st, _, err := frost.NewKeygenState(ids[0], ids, 1, 0)
		if err == nil {
			st.ProcessAll()
		}
	}},
	{"sign", func(c *steadyCase, i int) {
		ids := freshIDs(c, i)[:2]
		k := fresh(c, i)
		var e ristretto.Element
		e.ScalarBaseMult(k)
		pub := &eddsa.Public{PartyIDs: ids, Threshold: 1, Shares: map[party.ID]*ristretto.Element{ids[0]: &e, ids[1]: &e}, GroupKey: eddsa.NewPublicKeyFromPoint(&e)}
		st, _, err := frost.NewSignState(ids, eddsa.NewSecretShare(ids[0], k), pub, fresh(c, i).Bytes(), 0)
		if err == nil {
			st.ProcessAll()
			_, _ = helpers.PartyRoutine([][]byte{ref.MsgS2(uint16(ids[1]), big.NewInt(int64(i))), ref.Header(9, 1, 2)}, st)
		}
	}},
	{"group", func(c *steadyCase, i int) {
		var e, f ristretto.Element
		e.ScalarBaseMult(fresh(c, i))
		f.ScalarMult(fresh(c, i), &e)
		f.Add(&f, &e)
		f.MultiScalarMult([]*ristretto.Scalar{fresh(c, i), fresh(c, i+1)}, []*ristretto.Element{&e, &f})
		b, _ := f.MarshalText()
		_ = e.UnmarshalText(b)
		_, _ = e.SetUniformBytes(append(fresh(c, i).Bytes(), fresh(c, i+1).Bytes()...))
		e.Equal(&f)
		e.BytesEd25519()
	}},
}

func fresh(c *steadyCase, i int) *ristretto.Scalar {
	var b [32]byte
	x := c.Seed*0x9e3779b97f4a7c15 + uint64(i)*0xd1342543de82ef95
	for k := 0; k < 31; k++ {
		x ^= x << 13
		x ^= x >> 7
		x ^= x << 17
		b[k] = byte(x >> 11)
	}
	var s ristretto.Scalar
	if _, err := s.SetCanonicalBytes(b[:]); err != nil {
		panic(err)
	}
	return &s
}

// freshIDs differs for each i within a run.
func freshIDs(c *steadyCase, i int) party.IDSlice {
	ids := make(party.IDSlice, c.Size)
	for k := range ids {
		ids[k] = party.ID(1 + (i+k*(1+i%50))%65535)
	}
	out := party.NewIDSlice(ids)
	for k := 1; k < len(out); k++ {
		if out[k] <= out[k-1] {
			return party.IDSlice{party.ID(1 + i%60000), party.ID(2 + i%60000), 65000}
		}
	}
	return out
}

func checkSteady(c *steadyCase) lib.Result {
	i := 0
	run := func(n int) {
		for ; n > 0; n-- {
			i++
			steadyOps[c.Ops[i%len(c.Ops)]].do(c, i)
		}
	}
	run(50)
	grown := func() int64 {
		before := heapSize()
		run(c.N)
		return heapSize() - before
	}
	g := grown()
	if g > keptLimit/2 { // a store that is full at some time is none of our business
		run(2 * c.N)
		for k := 0; k < 3; k++ {
			if grown() <= keptLimit/2 {
				return lib.Result{NonTrivial: true, Labels: []string{"store"}}
			}
		}
		var names []string
		for _, o := range c.Ops {
			names = append(names, steadyOps[o].name)
		}
		return lib.Fail("%d times %v leave %d bytes behind, and so do more", c.N, names, g)
	}
	res := lib.Result{NonTrivial: true}
	for _, o := range c.Ops {
		res.Labels = append(res.Labels, "op="+steadyOps[o].name)
	}
	return res
}

func TestC32Steady(t *testing.T) {
	lib.Run(t, "C32.steady", 0.4, func(rt *rapid.T) steadyCase {
		return steadyCase{Seed: uint64(rapid.Uint32().Draw(rt, "seed")), Ops: rapid.SliceOfN(rapid.IntRange(0, len(steadyOps)-1), 1, 2).Draw(rt, "ops"),
			N: rapid.IntRange(600, 1000).Draw(rt, "n"), Size: rapid.IntRange(3, 6).Draw(rt, "size")}
	}, checkSteady)
}
