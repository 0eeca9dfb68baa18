package steps

import (
	"crypto/rand"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"math/big"
	"strconv"

	"github.com/taurusgroup/frost-ed25519/pkg/eddsa"
	"github.com/taurusgroup/frost-ed25519/pkg/frost"
	"github.com/taurusgroup/frost-ed25519/pkg/frost/party"
	"github.com/taurusgroup/frost-ed25519/pkg/helpers"
	"github.com/taurusgroup/frost-ed25519/pkg/internal/polynomial"
	"github.com/taurusgroup/frost-ed25519/pkg/internal/zk"
	"github.com/taurusgroup/frost-ed25519/pkg/messages"
	"github.com/taurusgroup/frost-ed25519/pkg/ristretto"
	"github.com/taurusgroup/frost-ed25519/pkg/state"
	"github.com/taurusgroup/frost-ed25519/pkg/verif/lib"
	"github.com/taurusgroup/frost-ed25519/pkg/verif/ref"
	"github.com/taurusgroup/frost-ed25519/pkg/verif/sim"
)

// Work is one thing whose work is measured twice: with little and with much before it, or for a
// small and a large group, or for a short and a long input.
type Work struct {
	Kind    string // refused, finish, again, scale, decode
	What    string // of again, scale and decode
	Sign    bool
	IDs     []uint16
	T       uint16
	Self    int
	Stage   int
	Junk    []int
	Much    int
	Routine bool
	N       int
	Msg     []byte
	Input   []byte
	Seed    uint64
}

// Counts tells how often each basic block was run.
type Counts map[uint64]uint64

// Meter counts what f runs.
type Meter func(f func()) Counts

// excess finds a block that was run more often than the limit allows.
func excess(c Counts, limit func(key uint64) uint64) (uint64, uint64, bool) {
	for k, v := range c {
		if l := limit(k); v > l {
			return v, l, true
		}
	}
	return 0, 0, false
}

func (c Counts) total() (t uint64) {
	for _, v := range c {
		t += v
	}
	return
}

// Library tells which packages belong to the group library.
var Library map[uint64]bool

// module leaves out the group library, in which one operation takes thousands of steps, more when
// scalars are long.
func (c Counts) module() Counts {
	out := Counts{}
	for k, v := range c {
		if !Library[k>>40] {
			out[k] = v
		}
	}
	return out
}

// functions adds up the blocks of each function of the module.
func (c Counts) functions() Counts {
	out := Counts{}
	for k, v := range c.module() {
		out[k>>16<<16] += v
	}
	return out
}

// Limits. On the tree these were written for the largest factors were 1 (4 where the order of a map
// decides which bad proof is met first), 46 and, for a byte, a tenth.
const (
	sameFactor, sameSlack   = 6, 60
	scaleBy                 = 6
	scaleFactor, scaleSlack = 110, 400
	byteFactor, byteSlack   = 4, 500
)

// Session is one session of the library among peers of the reference.
type session struct {
	w      *Work
	ids    []uint16
	self   uint16
	p      *sim.Peers
	st     *state.State
	accept [][]byte
	rand   *lib.Stream
	keys   *sim.Keys
	on     Meter
	sum    Counts
}

func (s *session) do(f func()) {
	if s.on == nil {
		f()
		return
	}
	for k, v := range s.on(f) {
		s.sum[k] += v
	}
}

func newSession(w *Work, ids []uint16, t uint16, seed uint64, on Meter) *session {
	s := &session{w: w, ids: ref.Sorted(ids), on: on, sum: Counts{}}
	s.self = s.ids[w.Self%len(ids)]
	s.p = &sim.Peers{Self: s.self, IDs: s.ids, T: t, Seed: seed, Sign: w.Sign, Msg: w.Msg}
	rand.Reader = lib.NewStream(seed)
	list := sim.IDs(s.ids)
	var err error
	if w.Sign {
		s.p.Keys = sim.Deal(s.ids, t, seed)
		s.do(func() { s.st, _, err = frost.NewSignState(list, s.p.Keys.Shares[s.self], s.p.Keys.Public, w.Msg, 0) })
	} else {
		s.do(func() { s.st, _, err = frost.NewKeygenState(party.ID(s.self), list, party.Size(t), 0) })
	}
	if err != nil {
		panic(fmt.Sprintf("a valid session is refused: %v", err))
	}
	return s
}

func (s *session) give(raw []byte) {
	s.do(func() {
		if s.w.Routine {
			_, _ = helpers.PartyRoutine([][]byte{raw}, s.st)
			return
		}
		m := new(messages.Message)
		if m.UnmarshalBinary(raw) == nil {
			_ = s.st.HandleMessage(m)
		}
	})
}

func (s *session) process() {
	var out []*messages.Message
	s.do(func() { out = s.st.ProcessAll() })
	for _, m := range out {
		if b, err := m.MarshalBinary(); err == nil && s.p.SelfC == nil {
			s.p.SelfC, _ = ref.Parse(b)
		}
	}
}

// first delivers first messages but leaves out the last few; one may be bad.
func (s *session) first(from, leave int, bad bool) {
	o := s.p.Others()
	for i := from; i < len(o)-leave; i++ {
		b := s.p.First(o[i], bad && i == 0)
		s.give(b)
		s.accept = append(s.accept, b)
	}
}

func (s *session) second(from, leave int) {
	o := s.p.Others()
	for i := from; i < len(o)-leave; i++ {
		b, ok := s.p.Second(o[i], false)
		if !ok {
			panic("harness: no second message")
		}
		s.give(b)
		s.accept = append(s.accept, b)
	}
}

// to brings the session to a stage.
func (s *session) to(stage int) {
	if stage >= 1 {
		s.process()
	}
	switch {
	case stage == 2:
		s.first(0, 1, false)
	case stage == 6:
		s.first(0, 0, true)
		s.process()
	case stage >= 3:
		s.first(0, 0, false)
		s.process()
		if stage == 4 {
			s.second(0, 1)
		}
		if stage == 5 {
			s.second(0, 0)
			s.process()
		}
	}
}

// finish takes it from a stage to the end.
func (s *session) finish(stage int) {
	n := len(s.ids) - 1
	switch stage {
	case 0:
		s.process()
		fallthrough
	case 1:
		s.first(0, 0, false)
	case 2:
		s.first(n-1, 0, false)
	}
	if stage < 3 {
		s.process()
		s.second(0, 0)
	}
	if stage == 3 {
		s.second(0, 0)
	}
	if stage == 4 {
		s.second(n-1, 0)
	}
	s.process()
	if err := s.st.WaitForError(); (err != nil) != (stage == 6) {
		panic(fmt.Sprintf("the session ends with %v", err))
	}
}

// JunkKinds is how many kinds of messages without effect there are.
const JunkKinds = 7

// junk is a message without effect.
func (s *session) junk(kind, seq int) []byte {
	o := s.p.Others()
	mine, other := byte(ref.KG2), byte(ref.S2)
	if s.w.Sign {
		mine, other = other, mine
	}
	small := func(typ byte, from, to uint16) []byte {
		if typ == ref.KG2 {
			return ref.MsgKG2(from, to, big.NewInt(int64(seq)))
		}
		return ref.MsgS2(from, big.NewInt(int64(seq)))
	}
	peer := o[seq%len(o)]
	switch kind {
	case 0: // from outside
		id := uint16(1 + seq*7919%65535)
		for in(s.ids, id) {
			id = id%65535 + 1
		}
		return small(mine, id, s.self)
	case 1:
		if len(s.accept) > 0 {
			return s.accept[seq%len(s.accept)]
		}
	case 2:
		return small(mine, s.self, peer)
	case 3:
		if !s.w.Sign && len(o) > 1 {
			return small(mine, o[0], o[1])
		}
	case 4:
		return small(other, peer, s.self)
	case 5:
		b := small(mine, peer, s.self)
		switch seq % 3 {
		case 0:
			return b[:len(b)-1]
		case 1:
			b[len(b)-1] = 0xff
		default:
			b[0] = 0x77
		}
		return b
	}
	return small(other, peer, s.self)
}

func in(ids []uint16, id uint16) bool {
	for _, x := range ids {
		if x == id {
			return true
		}
	}
	return false
}

// flood gives messages without effect, and measures one of each kind.
func (s *session) flood(from, n int, meter Meter) []Counts {
	for i := 0; i < n; i++ {
		s.give(s.junk(s.w.Junk[i%len(s.w.Junk)], from+i))
	}
	var out []Counts
	for i, k := range s.w.Junk {
		s.on, s.sum = meter, Counts{}
		s.give(s.junk(k, 420*9+i)) // the same each time
		s.on = nil
		out = append(out, s.sum)
	}
	return out
}

func same(what string, few, many Counts) error {
	if v, l, bad := excess(many, func(k uint64) uint64 { return few[k]*sameFactor + sameSlack }); bad {
		return fmt.Errorf("%s runs a statement %d times (at most %d expected from before; %d and %d in total)", what, v, l, few.total(), many.total())
	}
	return nil
}

// Measure does the work; the error says what took too much.
func (w *Work) Measure(m Meter) (nontrivial bool, err error) {
	old := rand.Reader
	defer func() { rand.Reader = old }()
	switch w.Kind {
	case "refused":
		s := newSession(w, w.IDs, w.T, w.Seed, nil)
		s.to(w.Stage)
		few := s.flood(0, 40, m)
		many := s.flood(40, w.Much, m)
		for i := range few {
			if err := same(fmt.Sprintf("handling one more message without effect (kind %d, stage %d) after %d of them", w.Junk[i], w.Stage, w.Much), few[i], many[i]); err != nil {
				return true, err
			}
		}
		return true, nil
	case "finish":
		var c [2]Counts
		for i, n := range []int{40, w.Much} {
			s := newSession(w, w.IDs, w.T, w.Seed, nil)
			s.to(w.Stage)
			s.flood(0, n, func(f func()) Counts { f(); return nil })
			s.on, s.sum = m, Counts{}
			s.finish(w.Stage)
			c[i] = s.sum
		}
		return true, same(fmt.Sprintf("finishing a session from stage %d after %d messages without effect", w.Stage, w.Much), c[0], c[1])
	case "again":
		few := w.again(0, 3, m)
		many := w.again(3, w.Much, m)
		return true, same(fmt.Sprintf("%s after %d others like it", w.What, w.Much), few.module(), many.module())
	case "scale":
		// by function: which branches are taken depends on the values, which differ
		small, large := w.scale(w.N, scaleBy, m).functions(), w.scale(scaleBy*w.N, 1, m).functions()
		if v, l, bad := excess(large, func(k uint64) uint64 { return small[k]*scaleFactor + scaleSlack }); bad {
			return true, fmt.Errorf("%s with %d parties instead of %d runs statements of a function %d times, more than quadratic growth (%d) explains (%d and %d in total)", w.What, scaleBy*w.N, w.N, v, l, small.total(), large.total())
		}
		return true, nil
	case "decode":
		c := m(func() { w.decode() }).module()
		if v, l, bad := excess(c, func(uint64) uint64 { return uint64(len(w.Input))*byteFactor + byteSlack }); bad {
			return true, fmt.Errorf("decoding %d bytes as %s runs a statement %d times (limit %d): %s", len(w.Input), w.What, v, l, lib.Clip(w.Input))
		}
		return len(c) > 0, nil
	case "control":
		var c [2]Counts
		for i, n := range []int{10, w.N} {
			c[i] = m(func() { control(n) })
		}
		return true, same("control", c[0], c[1])
	}
	panic("harness: unknown kind " + w.Kind)
}

// AgainOps are operations that are repeated on ever new values.
var AgainOps = []string{"session", "aborted", "lagrange", "verify", "proof", "dealing", "decoding", "document", "evaluation", "multiplication", "routine"}

func (w *Work) again(from, n int, m Meter) Counts {
	for i := 0; i < n; i++ {
		w.once(from+i, nil)
	}
	sum := Counts{}
	// a value that is new each time
	w.once(1<<20+from, func(f func()) Counts {
		for k, v := range m(f) {
			sum[k] += v
		}
		return nil
	})
	return sum
}

func (w *Work) once(i int, on Meter) {
	do := func(f func()) {
		if on == nil {
			f()
		} else {
			on(f)
		}
	}
	seed := w.Seed + uint64(i)*1000003
	num := func(n int) *big.Int { return ref.Expand(seed, "work", n) }
	shift := func() (ids []uint16) { // another group each time
		for j := 0; j < len(w.IDs); j++ {
			ids = append(ids, uint16((i*911+j*977)%65000+1+j))
		}
		return dedupe(ids)
	}
	switch w.What {
	case "session", "routine":
		c := *w
		c.Routine = w.What == "routine"
		s := newSession(&c, shift(), 1, seed, on)
		s.sum = Counts{}
		s.process()
		s.first(0, 0, false)
		s.process()
		// the party routine processes as well
		if !c.Routine {
			s.second(0, 0)
			s.process()
		}
	case "aborted":
		s := newSession(w, shift(), 1, seed, on)
		s.process()
		s.first(0, 0, true)
		s.process()
	case "lagrange":
		ids := shift()
		l := sim.IDs(ids)
		do(func() { _, _ = party.ID(ids[0]).Lagrange(l) })
	case "verify":
		x, r := num(0), num(1)
		A, R := ref.BaseMul(x), ref.BaseMul(r)
		msg := ref.ScalarBytes(num(2))
		key := eddsa.NewPublicKeyFromPoint(sim.Elem(A))
		sig := &eddsa.Signature{R: *sim.Elem(R), S: *sim.Scalar(ref.AddQ(r, ref.MulQ(x, ref.Challenge(R, A, msg))))}
		do(func() { key.Verify(msg, sig); _ = sig.ToEd25519() })
	case "proof":
		x := num(0)
		rand.Reader = lib.NewStream(seed)
		pub, sec, ctx := sim.Elem(ref.BaseMul(x)), sim.Scalar(x), ref.ScalarBytes(num(1))
		do(func() {
			p := zk.NewSchnorrProof(party.ID(i%60000+1), pub, ctx, sec)
			p.Verify(party.ID(i%60000+1), pub, ctx)
		})
	case "dealing":
		rand.Reader = lib.NewStream(seed)
		ids := sim.IDs(shift())
		do(func() {
			_, sh := helpers.GenerateSecrets(ids, 1)
			helpers.GeneratePublic(1, sh)
		})
	case "decoding":
		b := ref.MsgS1(uint16(i%60000+1), ref.BaseMul(num(0)), ref.BaseMul(num(1)))
		do(func() {
			var m messages.Message
			if m.UnmarshalBinary(b) == nil {
				_, _ = m.MarshalBinary()
			}
		})
	case "document":
		doc := publicDoc(shift(), 1, seed)
		do(func() {
			var p eddsa.Public
			if p.UnmarshalJSON(doc) == nil {
				_, _ = p.MarshalJSON()
			}
		})
	case "evaluation":
		rand.Reader = lib.NewStream(seed)
		x := party.ID(i%60000 + 1).Scalar()
		sec := sim.Scalar(num(0))
		do(func() {
			p := polynomial.NewPolynomial(3, sec)
			e := polynomial.NewPolynomialExponent(p)
			p.Evaluate(x)
			e.Evaluate(x)
		})
	default:
		k, e := sim.Scalar(num(0)), sim.Elem(ref.BaseMul(num(1)))
		do(func() {
			var a, b ristretto.Element
			a.ScalarBaseMult(k)
			b.ScalarMult(k, e)
			a.Add(&a, &b)
			_ = a.Bytes()
			_ = a.BytesEd25519()
			_ = a.Equal(&b)
		})
	}
}

func dedupe(ids []uint16) (out []uint16) {
	for _, id := range ref.Sorted(ids) {
		if len(out) == 0 || out[len(out)-1] != id {
			out = append(out, id)
		}
	}
	for len(out) < 2 {
		out = append(out, out[len(out)-1]+1)
	}
	return
}

func publicDoc(ids []uint16, t uint16, seed uint64) []byte {
	k := sim.Deal(ids, t, seed)
	b64 := base64.StdEncoding.EncodeToString
	shares := map[string]string{}
	for _, id := range ids {
		shares[strconv.Itoa(int(id))] = b64(ref.Encode(k.Pub[id]))
	}
	b, _ := json.Marshal(map[string]interface{}{"t": int(t), "groupkey": b64(ref.Encode(k.Group)), "shares": shares})
	return b
}

// ScaleOps are operations on groups.
var ScaleOps = []string{"session", "document", "list", "dealing", "polynomial"}

// scale does it for n of the parties 1..N (times something), spread evenly.
func (w *Work) scale(n, every int, m Meter) Counts {
	var ids []uint16
	for i := 1; i <= n; i++ {
		ids = append(ids, uint16(w.Seed%500)+uint16(i*every*(1+int(w.Seed%300))))
	}
	// degree 1, half, or full
	t := uint16(1)
	switch w.T % 3 {
	case 1:
		t = uint16(n / 2)
	case 2:
		t = uint16(n - 1)
	}
	switch w.What {
	case "session":
		s := newSession(w, ids, t, w.Seed, m)
		s.finish(0)
		return s.sum
	case "document":
		doc := publicDoc(ids, t, w.Seed)
		return m(func() {
			var p, q eddsa.Public
			if err := p.UnmarshalJSON(doc); err != nil {
				panic(fmt.Sprintf("a valid document is refused: %v", err))
			}
			_, _ = p.MarshalJSON()
			_ = q.UnmarshalJSON(doc)
			p.Equal(&q)
		})
	case "list":
		l := sim.IDs(ids)
		return m(func() {
			s := party.NewIDSlice(l)
			s.Contains(l[0])
			s.IsSubsetOf(l)
			s.Equal(l.Copy())
			_, _ = l[0].Lagrange(s)
			helpers.GenerateSet(party.Size(n))
		})
	case "dealing":
		rand.Reader = lib.NewStream(w.Seed)
		l := sim.IDs(ids)
		return m(func() {
			_, sh := helpers.GenerateSecrets(l, party.Size(t))
			helpers.GeneratePublic(party.Size(t), sh)
		})
	}
	rand.Reader = lib.NewStream(w.Seed)
	l := sim.IDs(ids)
	return m(func() {
		p := polynomial.NewPolynomial(party.Size(t), sim.Scalar(big.NewInt(5)))
		e := polynomial.NewPolynomialExponent(p)
		_, _ = polynomial.Sum([]*polynomial.Exponent{e, e})
		e.EvaluateMulti(l)
		b, _ := e.MarshalBinary()
		_ = e.Copy().UnmarshalBinary(b)
	})
}

// DecodeOps are the decoders.
var DecodeOps = []string{"message", "signature", "share", "share document", "public document", "key document", "commitments", "id"}

func (w *Work) decode() {
	b := append([]byte{}, w.Input...)
	switch w.What {
	case "message":
		var m messages.Message
		_ = m.UnmarshalBinary(b)
	case "signature":
		var s eddsa.Signature
		_ = s.UnmarshalBinary(b)
	case "share":
		var s eddsa.SecretShare
		_ = s.UnmarshalBinary(b)
	case "share document":
		var s eddsa.SecretShare
		_ = json.Unmarshal(b, &s)
	case "public document":
		var p eddsa.Public
		_ = json.Unmarshal(b, &p)
	case "key document":
		var p eddsa.PublicKey
		_ = json.Unmarshal(b, &p)
	case "commitments":
		var e polynomial.Exponent
		_ = e.UnmarshalBinary(b)
	default:
		var id party.ID
		_ = id.UnmarshalText(b)
		_, _ = party.FromBytes(b)
	}
}
