// Package readers reads shared values from several goroutines; it is meant to run under the race
// detector.
package readers

import (
	"crypto/rand"
	"encoding/json"
	"fmt"
	"math/big"
	"runtime"
	"sort"
	"sync"
	"testing"
	"time"

	"github.com/taurusgroup/frost-ed25519/pkg/eddsa"
	"github.com/taurusgroup/frost-ed25519/pkg/frost"
	"github.com/taurusgroup/frost-ed25519/pkg/frost/party"
	"github.com/taurusgroup/frost-ed25519/pkg/helpers"
	"github.com/taurusgroup/frost-ed25519/pkg/internal/polynomial"
	"github.com/taurusgroup/frost-ed25519/pkg/internal/zk"
	"github.com/taurusgroup/frost-ed25519/pkg/messages"
	"github.com/taurusgroup/frost-ed25519/pkg/ristretto"
	"github.com/taurusgroup/frost-ed25519/pkg/state"
	"github.com/taurusgroup/frost-ed25519/pkg/verif/lib"
	"github.com/taurusgroup/frost-ed25519/pkg/verif/ref"
	"github.com/taurusgroup/frost-ed25519/pkg/verif/sim"
	"pgregory.net/rapid"
)

// ---- C31 ----

// world is what the goroutines share. Two worlds of one case hold the same values.
type world struct {
	k       *sim.Keys
	ids     party.IDSlice
	other   party.IDSlice
	t       party.Size
	msg     []byte
	sig     [2]*eddsa.Signature // the second is wrong
	scalars []*ristretto.Scalar
	elems   []*ristretto.Element
	polys   []*polynomial.Polynomial
	exps    []*polynomial.Exponent
	ctx     []byte
	proof   *zk.Schnorr
	msgs    []*messages.Message
	raw     [][]byte // encodings of msgs
	text    [][]byte // encodings of the keys
	shares  map[party.ID]*ristretto.Element
	secrets map[party.ID]*eddsa.SecretShare
}

func build(c *readCase) (*world, error) {
	old := rand.Reader
	lib.SetRand(c.G.Seed) // both worlds draw the same
	defer func() { rand.Reader = old }()
	w := &world{ids: sim.IDs(c.G.IDs), t: party.Size(c.G.T), msg: append([]byte{}, c.Msg...), ctx: make([]byte, 32),
		shares: map[party.ID]*ristretto.Element{}, secrets: map[party.ID]*eddsa.SecretShare{}}
	w.other = w.ids[:len(w.ids)-1].Copy()
	w.k = sim.Deal(c.G.IDs, c.G.T, c.G.Seed)
	for id, sk := range w.k.Shares {
		w.secrets[party.ID(id)] = sk
		var e ristretto.Element
		w.shares[party.ID(id)] = e.ScalarBaseMult(&sk.Secret)
	}
	// the encodings are made by another set of keys, so that those of the world are untouched
	k := sim.Deal(c.G.IDs, c.G.T, c.G.Seed)
	sk := k.Shares[uint16(w.ids[0])]
	for _, f := range []func() ([]byte, error){k.Public.MarshalJSON, sk.MarshalJSON, sk.MarshalBinary, k.Public.GroupKey.MarshalJSON, w.elem(c, 9).MarshalText} {
		b, err := f()
		if err != nil {
			return nil, err
		}
		w.text = append(w.text, b)
	}
	if c.Routes&1 != 0 { // keys that went through an encoding
		w.k.Public = new(eddsa.Public)
		if err := json.Unmarshal(w.text[0], w.k.Public); err != nil {
			return nil, err
		}
	}
	for i := 0; i < 4; i++ {
		w.scalars = append(w.scalars, sim.Scalar(ref.Expand(c.G.Seed, "readers", i)))
		w.elems = append(w.elems, w.elem(c, i))
	}
	secret, n := k.Coef[0], ref.Expand(c.G.Seed, "nonce", 0)
	R := ref.BaseMul(n)
	S := ref.AddQ(n, ref.MulQ(ref.Challenge(R, k.Group, w.msg), secret))
	for i := range w.sig {
		w.sig[i] = &eddsa.Signature{R: *w.toElem(c, R), S: *sim.Scalar(ref.AddQ(S, big.NewInt(int64(i))))}
	}
	for i := 0; i < 2; i++ {
		p := polynomial.NewPolynomial(w.t, w.scalars[i])
		w.polys = append(w.polys, p)
		w.exps = append(w.exps, polynomial.NewPolynomialExponent(p))
	}
	var pub ristretto.Element
	pub.ScalarBaseMult(w.scalars[0])
	w.proof = zk.NewSchnorrProof(w.ids[0], &pub, w.ctx, w.scalars[0])
	w.msgs = []*messages.Message{messages.NewKeyGen1(w.ids[0], w.proof, w.exps[0]), messages.NewKeyGen2(w.ids[0], w.ids[1], w.scalars[0]),
		messages.NewSign1(w.ids[0], w.elems[0], w.elems[1]), messages.NewSign2(w.ids[1], w.scalars[1])}
	for i := range w.msgs {
		b, err := w.msgs[i].MarshalBinary()
		if err != nil {
			return nil, err
		}
		w.raw = append(w.raw, b)
		if c.Routes&4 != 0 {
			m := new(messages.Message)
			if err := m.UnmarshalBinary(b); err != nil {
				return nil, err
			}
			w.msgs[i] = m
		}
	}
	if c.Routes&4 != 0 {
		w.proof, w.exps[0] = w.msgs[0].KeyGen1.Proof, w.msgs[0].KeyGen1.Commitments
	}
	return w, nil
}

func (w *world) elem(c *readCase, i int) *ristretto.Element {
	return w.toElem(c, ref.BaseMul(ref.Expand(c.G.Seed, "elem", i)))
}

// toElem gives an element with a denominator of one, or another.
func (w *world) toElem(c *readCase, p *ref.Pt) *ristretto.Element {
	e := sim.Elem(p)
	if c.Routes&2 != 0 {
		g := ristretto.NewGeneratorElement()
		e.Add(e, g)
		e.Subtract(e, g)
	}
	return e
}

func must(b []byte, err error) string {
	if err != nil {
		return "error " + err.Error()
	}
	return fmt.Sprintf("%x", b)
}

func elem(e *ristretto.Element) string { return fmt.Sprintf("%x", e.Bytes()) }

func sign(w *world) string {
	var sts []*state.State
	var sigs []func() *eddsa.Signature
	ids := w.ids[:w.t+1]
	for _, id := range ids {
		st, out, err := frost.NewSignState(ids, w.secrets[id], w.k.Public, w.msg, 0)
		if err != nil {
			return err.Error()
		}
		sts = append(sts, st)
		sigs = append(sigs, func() *eddsa.Signature { return out.Signature })
	}
	for r := 0; r < 3; r++ {
		var ms []*messages.Message
		for _, st := range sts {
			ms = append(ms, st.ProcessAll()...)
		}
		for _, st := range sts {
			for _, m := range ms {
				_ = st.HandleMessage(m)
			}
		}
	}
	for i, st := range sts {
		if !st.IsFinished() || st.Err() != nil {
			return fmt.Sprint("unfinished ", st.Err())
		}
		if !w.k.Public.GroupKey.Verify(w.msg, sigs[i]()) {
			return "wrong signature"
		}
	}
	return "signed"
}

// ops only read the world. i and j choose among its values.
var ops = []struct {
	name string
	do   func(w *world, i, j int) string
}{
	{"verify", func(w *world, i, j int) string { return fmt.Sprint(w.k.Public.GroupKey.Verify(w.msg, w.sig[i%2])) }},
	{"challenge", func(w *world, i, j int) string {
		return fmt.Sprintf("%x", eddsa.ComputeChallenge(w.elems[i%4], w.k.Public.GroupKey, w.msg).Bytes())
	}},
	{"signature encode", func(w *world, i, j int) string {
		return must(w.sig[i%2].MarshalBinary()) + fmt.Sprintf(" %x %d", w.sig[i%2].ToEd25519(), w.sig[i%2].Size())
	}},
	{"signature equal", func(w *world, i, j int) string { return fmt.Sprint(w.sig[i%2].Equal(w.sig[j%2])) }},
	{"key encode", func(w *world, i, j int) string {
		return must(w.k.Public.GroupKey.MarshalJSON()) + fmt.Sprintf(" %x", []byte(w.k.Public.GroupKey.ToEd25519()))
	}},
	{"key equal", func(w *world, i, j int) string {
		return fmt.Sprint(w.k.Public.GroupKey.Equal(w.k.Public.GroupKey), w.k.Public.GroupKey.Equal(eddsa.NewPublicKeyFromPoint(w.elems[i%4])))
	}},
	{"set encode", func(w *world, i, j int) string { return must(w.k.Public.MarshalJSON()) }},
	{"set equal", func(w *world, i, j int) string {
		var p eddsa.Public
		err := json.Unmarshal(w.text[0], &p)
		return fmt.Sprint(err, w.k.Public.Equal(&p), p.Equal(w.k.Public), w.k.Public.Equal(w.k.Public))
	}},
	{"set from shares", func(w *world, i, j int) string {
		p, err := eddsa.NewPublic(w.shares, w.t)
		if err != nil {
			return err.Error()
		}
		return fmt.Sprint(p.Equal(w.k.Public))
	}},
	{"share encode", func(w *world, i, j int) string {
		sk := w.secrets[w.ids[i%len(w.ids)]]
		return must(sk.MarshalBinary()) + must(sk.MarshalJSON())
	}},
	{"share equal", func(w *world, i, j int) string {
		return fmt.Sprint(w.secrets[w.ids[i%len(w.ids)]].Equal(w.secrets[w.ids[j%len(w.ids)]]))
	}},
	{"share decode", func(w *world, i, j int) string {
		var a, b eddsa.SecretShare
		e1, e2 := a.UnmarshalBinary(w.text[2]), json.Unmarshal(w.text[1], &b)
		return fmt.Sprint(e1, e2, a.Equal(&b), a.Equal(w.secrets[w.ids[0]]))
	}},
	{"share new", func(w *world, i, j int) string {
		return must(eddsa.NewSecretShare(w.ids[0], w.scalars[i%4]).MarshalBinary())
	}},
	{"dealer", func(w *world, i, j int) string {
		return fmt.Sprint(helpers.GeneratePublic(w.t, w.secrets).Equal(w.k.Public))
	}},
	{"secrets", func(w *world, i, j int) string {
		_, s := helpers.GenerateSecrets(w.ids, w.t)
		return fmt.Sprint(len(s))
	}},
	{"message encode", func(w *world, i, j int) string {
		m := w.msgs[i%4]
		b, err := m.BytesAppend(make([]byte, 1, 300))
		return must(m.MarshalBinary()) + must(b, err) + fmt.Sprint(m.Size(), m.IsBroadcast())
	}},
	{"message equal", func(w *world, i, j int) string {
		return fmt.Sprint(w.msgs[i%4].Equal(w.msgs[j%4]), w.msgs[i%4].Equal(w.msgs[i%4]))
	}},
	{"message decode", func(w *world, i, j int) string {
		m := new(messages.Message)
		err := m.UnmarshalBinary(w.raw[i%4])
		return fmt.Sprint(err, m.Equal(w.msgs[i%4]), w.msgs[i%4].Equal(m))
	}},
	{"message new", func(w *world, i, j int) string {
		return must(messages.NewKeyGen1(w.ids[0], w.proof, w.exps[0]).MarshalBinary()) + must(messages.NewSign1(w.ids[0], w.elems[i%4], w.elems[j%4]).MarshalBinary()) +
			must(messages.NewSign2(w.ids[0], w.scalars[j%4]).MarshalBinary())
	}},
	{"ids", func(w *world, i, j int) string {
		n := party.NewIDSlice(w.ids)
		return fmt.Sprint(w.ids.Contains(w.ids[i%len(w.ids)]), w.other.IsSubsetOf(w.ids), w.ids.IsSubsetOf(w.other), w.ids.Equal(w.other), w.ids.N(), w.ids.Copy(), n)
	}},
	{"lagrange", func(w *world, i, j int) string {
		s, err := w.ids[i%len(w.ids)].Lagrange(w.ids)
		if err != nil {
			return err.Error()
		}
		return fmt.Sprintf("%x", s.Bytes())
	}},
	{"id", func(w *world, i, j int) string {
		id := w.ids[i%len(w.ids)]
		return fmt.Sprintf("%x %x %s", id.Scalar().Bytes(), id.Bytes(), id)
	}},
	{"group add", func(w *world, i, j int) string {
		var a, b, c ristretto.Element
		return elem(a.Add(w.elems[i%4], w.elems[j%4])) + elem(b.Subtract(w.elems[i%4], w.elems[j%4])) + elem(c.Negate(w.elems[i%4]))
	}},
	{"group multiply", func(w *world, i, j int) string {
		var a, b, c ristretto.Element
		return elem(a.ScalarMult(w.scalars[i%4], w.elems[j%4])) + elem(b.ScalarBaseMult(w.scalars[j%4])) + elem(c.VarTimeDoubleScalarBaseMult(w.scalars[i%4], w.elems[j%4], w.scalars[j%4]))
	}},
	{"group sum", func(w *world, i, j int) string {
		var a, b ristretto.Element
		return elem(a.MultiScalarMult(w.scalars, w.elems)) + elem(b.VarTimeMultiScalarMult(w.scalars, w.elems))
	}},
	{"group encode", func(w *world, i, j int) string {
		e := w.elems[i%4]
		return elem(e) + fmt.Sprintf(" %x %s ", e.BytesEd25519(), e) + must(e.MarshalText())
	}},
	{"group decode", func(w *world, i, j int) string {
		var e ristretto.Element
		err := e.UnmarshalText(w.text[4])
		return fmt.Sprint(err, elem(&e))
	}},
	{"group equal", func(w *world, i, j int) string {
		var e ristretto.Element
		e.Set(w.elems[i%4])
		return fmt.Sprint(w.elems[i%4].Equal(w.elems[j%4]), e.Equal(w.elems[i%4]), ristretto.NewIdentityElement().Equal(w.elems[j%4]), elem(ristretto.NewGeneratorElement()))
	}},
	{"scalars", func(w *world, i, j int) string {
		var a, b ristretto.Scalar
		a.MultiplyAdd(w.scalars[i%4], w.scalars[j%4], w.scalars[0])
		b.Invert(w.scalars[i%4])
		return fmt.Sprintf("%x %x %v", a.Bytes(), b.Bytes(), w.scalars[i%4].Equal(w.scalars[j%4]))
	}},
	{"polynomial", func(w *world, i, j int) string {
		p := w.polys[i%2]
		return fmt.Sprintf("%x %x %d %d", p.Evaluate(w.ids[j%len(w.ids)].Scalar()).Bytes(), p.Constant().Bytes(), p.Degree(), p.Size())
	}},
	{"commit", func(w *world, i, j int) string {
		return must(polynomial.NewPolynomialExponent(w.polys[i%2]).MarshalBinary())
	}},
	{"commitments", func(w *world, i, j int) string {
		p := w.exps[i%2]
		return elem(p.Evaluate(w.ids[j%len(w.ids)].Scalar())) + elem(p.Constant()) + fmt.Sprint(p.Degree(), p.Size()) + must(p.MarshalBinary()) + must(p.Copy().MarshalBinary())
	}},
	{"commitments many", func(w *world, i, j int) string {
		out := ""
		m := w.exps[i%2].EvaluateMulti(w.ids)
		for _, id := range w.ids {
			out += elem(m[id])
		}
		return out
	}},
	{"commitments sum", func(w *world, i, j int) string {
		p, err := polynomial.Sum([]*polynomial.Exponent{w.exps[i%2], w.exps[j%2]})
		if err != nil {
			return err.Error()
		}
		q := w.exps[i%2].Copy()
		err = q.Add(w.exps[j%2])
		return must(p.MarshalBinary()) + fmt.Sprint(err, p.Equal(q), w.exps[i%2].Equal(w.exps[j%2]))
	}},
	{"proof", func(w *world, i, j int) string {
		var pub ristretto.Element
		pub.ScalarBaseMult(w.scalars[0])
		return fmt.Sprint(w.proof.Verify(w.ids[0], &pub, w.ctx), w.proof.Verify(w.ids[1], &pub, w.ctx), w.proof.Verify(w.ids[0], w.elems[i%4], w.ctx), w.proof.Equal(w.proof), w.proof.Size()) + must(w.proof.MarshalBinary())
	}},
	{"prove", func(w *world, i, j int) string {
		var pub ristretto.Element
		pub.ScalarBaseMult(w.scalars[i%4])
		return fmt.Sprint(zk.NewSchnorrProof(w.ids[0], &pub, w.ctx, w.scalars[i%4]).Verify(w.ids[0], &pub, w.ctx))
	}},
	{"session", func(w *world, i, j int) string { return sign(w) }},
	{"start", func(w *world, i, j int) string {
		st, _, err := frost.NewKeygenState(w.ids[0], w.ids, w.t, 0)
		if err != nil {
			return err.Error()
		}
		out, err := helpers.PartyRoutine(nil, st)
		e1 := st.HandleMessage(w.msgs[0])
		return fmt.Sprint(len(out), err, e1)
	}},
	{"joined", func(w *world, i, j int) string { // shared broadcasts and encodings reach several sessions
		st, _, err := frost.NewKeygenState(w.ids[1], w.ids, w.t, 0)
		if err != nil {
			return err.Error()
		}
		e1 := st.HandleMessage(w.msgs[0])
		out, err := helpers.PartyRoutine(w.raw[:1], st)
		return fmt.Sprint(e1, len(out), err)
	}},
}

type readCase struct {
	G      sim.Group
	Msg    []byte
	Routes int
	Plan   [][][3]int // per goroutine: operation and the values it takes
	Repeat bool       // every goroutine does what the first does
}

func check(c *readCase) lib.Result {
	shared, err := build(c)
	if err != nil {
		return lib.Fail("%v", err)
	}
	alone, err := build(c)
	if err != nil {
		return lib.Fail("%v", err)
	}
	plan := func(g int) [][3]int {
		if c.Repeat {
			g = 0
		}
		return c.Plan[g]
	}
	start := make(chan struct{})
	got := make([][]string, len(c.Plan))
	var wg sync.WaitGroup
	for g := range c.Plan {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			for _, o := range plan(g) {
				got[g] = append(got[g], ops[o[0]].do(shared, o[1], o[2]))
				runtime.Gosched()
			}
		}()
	}
	close(start)
	done := make(chan struct{})
	go func() { wg.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(90 * time.Second):
		return lib.Fail("after 90 s the readers are not done")
	}
	var labels []string
	seen := map[int]int{}
	common := false
	for g := range c.Plan {
		mine := map[int]bool{}
		for x, o := range plan(g) {
			want := ops[o[0]].do(alone, o[1], o[2])
			if got[g][x] != want {
				return lib.Fail("goroutine %d, %s (%d, %d): %.300s, alone: %.300s", g, ops[o[0]].name, o[1], o[2], got[g][x], want)
			}
			mine[o[0]] = true
		}
		for o := range mine {
			if seen[o]++; seen[o] > 1 {
				common = true
			}
		}
	}
	for o := range seen {
		labels = append(labels, "op="+ops[o].name)
	}
	sort.Strings(labels)
	return lib.Result{NonTrivial: len(c.Plan) > 1 && common, Labels: labels}
}

func TestC31Readers(t *testing.T) {
	lib.Run(t, "C31.readers", 1, func(rt *rapid.T) readCase {
		c := readCase{G: sim.GenGroup(rt, 2, 5), Msg: sim.GenMsg(rt), Routes: rapid.IntRange(0, 7).Draw(rt, "routes"), Repeat: rapid.IntRange(0, 3).Draw(rt, "repeat") == 0}
		if len(c.Msg) > 200 {
			c.Msg = c.Msg[:200]
		}
		few := rapid.SliceOfN(rapid.IntRange(0, len(ops)-1), 1, 6).Draw(rt, "ops") // so that goroutines meet
		for g := rapid.IntRange(2, 5).Draw(rt, "goroutines"); g > 0; g-- {
			var p [][3]int
			for k := rapid.IntRange(1, 8).Draw(rt, "len"); k > 0; k-- {
				p = append(p, [3]int{rapid.SampledFrom(few).Draw(rt, "op"), rapid.IntRange(0, 3).Draw(rt, "i"), rapid.IntRange(0, 3).Draw(rt, "j")})
			}
			c.Plan = append(c.Plan, p)
		}
		return c
	}, check)
}
