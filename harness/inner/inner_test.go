// Package inner checks proofs of knowledge (C07) and secret sharing arithmetic (C25).
package inner

import (
	"bytes"
	"fmt"
	"math/big"
	"testing"

	"github.com/taurusgroup/frost-ed25519/pkg/eddsa"
	"github.com/taurusgroup/frost-ed25519/pkg/frost/party"
	"github.com/taurusgroup/frost-ed25519/pkg/helpers"
	"github.com/taurusgroup/frost-ed25519/pkg/internal/polynomial"
	"github.com/taurusgroup/frost-ed25519/pkg/internal/zk"
	"github.com/taurusgroup/frost-ed25519/pkg/ristretto"
	"github.com/taurusgroup/frost-ed25519/pkg/verif/lib"
	"github.com/taurusgroup/frost-ed25519/pkg/verif/ref"
	"github.com/taurusgroup/frost-ed25519/pkg/verif/sim"
	"pgregory.net/rapid"
)

var one = big.NewInt(1)

func genScalar(rt *rapid.T, name string) []byte {
	switch rapid.IntRange(0, 9).Draw(rt, name+"kind") {
	case 0:
		return ref.ScalarBytes(big.NewInt(0))
	case 1:
		return ref.ScalarBytes(one)
	case 2:
		return ref.ScalarBytes(new(big.Int).Sub(ref.Q, one))
	case 3:
		return ref.ScalarBytes(big.NewInt(int64(rapid.Uint16().Draw(rt, name))))
	default:
		return ref.ScalarBytes(ref.Expand(uint64(rapid.Uint32().Draw(rt, name)), "scalar", 0))
	}
}

// ---- C07 ----

type proofCase struct {
	ID     uint16
	ID2    uint16
	Ctx    []byte
	CtxBit int
	Secret []byte
	Other  []byte // another secret or a random scalar
	Other2 []byte
	Seed   uint64
	Bit    int
	Var    int
}

var proofVariants = []string{"untouched", "other-id", "other-ctx", "other-public", "bit-flip", "swap", "zero-challenge", "zero-response",
	"random", "all-zero", "negated-public", "negated-response", "shifted-response", "shifted-challenge", "ref-proof", "ref-proof-no-secret",
	"simulated", "rebound", "no-commitment", "no-public", "no-id", "no-ctx", "identity-public", "double",
	"other-hash", "other-hash", "other-hash"}

func genProof(rt *rapid.T) proofCase {
	c := proofCase{
		ID:     rapid.Uint16Range(1, 65535).Draw(rt, "id"),
		ID2:    rapid.Uint16Range(0, 65535).Draw(rt, "id2"),
		CtxBit: rapid.IntRange(0, 255).Draw(rt, "ctxbit"),
		Secret: genScalar(rt, "secret"),
		Other:  genScalar(rt, "other"),
		Other2: genScalar(rt, "other2"),
		Seed:   uint64(rapid.Uint32().Draw(rt, "seed")),
		Bit:    rapid.IntRange(0, 511).Draw(rt, "bit"),
		Var:    rapid.IntRange(0, len(proofVariants)-1).Draw(rt, "variant"),
	}
	if rapid.Bool().Draw(rt, "neighbour") { // IDs that differ in one byte only
		c.ID2 = c.ID ^ uint16(1)<<uint(rapid.IntRange(0, 15).Draw(rt, "idbit"))
	}
	c.Ctx = make([]byte, 32)
	if rapid.Bool().Draw(rt, "ctxrandom") {
		copy(c.Ctx, rapid.SliceOfN(rapid.Byte(), 32, 32).Draw(rt, "ctx"))
	}
	return c
}

func loadProof(s, r []byte) (*zk.Schnorr, error) {
	var p zk.Schnorr
	return &p, p.UnmarshalBinary(append(append([]byte{}, s...), r...))
}

func checkProof(c *proofCase) lib.Result {
	lib.SetRand(c.Seed)
	res := lib.Result{NonTrivial: true, Labels: []string{"variant=" + proofVariants[c.Var]}}
	fail := func(f string, a ...interface{}) lib.Result {
		res.Err = fmt.Errorf(f, a...)
		return res
	}
	x := ref.Int(c.Secret)
	pub := ref.BaseMul(x)
	libPub := sim.Elem(pub)
	libX := sim.Scalar(x)
	ctxIn := append([]byte{}, c.Ctx...)

	// completeness, and the published pair is what the definition gives
	p := zk.NewSchnorrProof(party.ID(c.ID), libPub, ctxIn, libX)
	if !bytes.Equal(libX.Bytes(), c.Secret) || !bytes.Equal(libPub.Bytes(), ref.Encode(pub)) || !bytes.Equal(ctxIn, c.Ctx) {
		return fail("making a proof changed its inputs")
	}
	if !p.Verify(party.ID(c.ID), libPub, ctxIn) {
		return fail("a proof made by party %d for its own public value is rejected", c.ID)
	}
	raw, err := p.MarshalBinary()
	if err != nil || len(raw) != 64 {
		return fail("proof encodes to %x, %v", raw, err)
	}
	s, ok1 := ref.ParseScalar(raw[:32])
	r, ok2 := ref.ParseScalar(raw[32:])
	if !ok1 || !ok2 {
		return fail("proof encodes to non-canonical scalars %x", raw)
	}
	m := ref.Sub(ref.BaseMul(r), ref.Mul(s, pub))
	if want := ref.SchnorrChallenge(c.ID, c.Ctx, pub, m); want.Cmp(s) != 0 {
		return fail("challenge %x is not the hash of ID, context, public value and commitment (%x)", raw[:32], ref.ScalarBytes(want))
	}
	if ref.IsIdentity(m) {
		return fail("the proof's nonce is zero, it reveals the secret")
	}
	// a second proof has another nonce
	p2 := zk.NewSchnorrProof(party.ID(c.ID), libPub, ctxIn, libX)
	if raw2, _ := p2.MarshalBinary(); bytes.Equal(raw2, raw) {
		return fail("two proofs of the same statement are identical: %x", raw)
	}

	// one variation, judged by the reference verifier
	id, ctx, y, vs, vr := c.ID, append([]byte{}, c.Ctx...), pub, s, r
	mustReject := true
	switch proofVariants[c.Var] {
	case "untouched":
		mustReject = false
	case "other-id":
		id = c.ID2
		mustReject = id != c.ID
	case "other-ctx":
		ctx[c.CtxBit/8] ^= 1 << uint(c.CtxBit%8)
	case "other-public":
		y = ref.BaseMul(ref.Int(c.Other))
		mustReject = !ref.Equal(y, pub)
	case "bit-flip":
		b := append([]byte{}, raw...)
		b[c.Bit/8] ^= 1 << uint(c.Bit%8)
		q, err := loadProof(b[:32], b[32:])
		var okS, okR bool
		vs, okS = ref.ParseScalar(b[:32])
		vr, okR = ref.ParseScalar(b[32:])
		if (err == nil) != (okS && okR) {
			return fail("decoding the proof %x: %v", b, err)
		}
		if err != nil {
			res.Labels = append(res.Labels, "non-canonical")
			return res
		}
		_ = q
	case "swap":
		vs, vr = r, s
	case "zero-challenge":
		vs = new(big.Int)
	case "zero-response":
		vr = new(big.Int)
	case "random":
		vs, vr = ref.Expand(c.Seed, "s", 1), ref.Expand(c.Seed, "r", 1)
	case "all-zero":
		vs, vr = new(big.Int), new(big.Int)
	case "negated-public":
		y = ref.Neg(pub)
		mustReject = !ref.Equal(y, pub)
	case "negated-response":
		vr = ref.SubQ(new(big.Int), r)
	case "shifted-response":
		vr = ref.AddQ(r, one)
	case "shifted-challenge":
		vs = ref.AddQ(s, one)
	case "ref-proof":
		vs, vr = ref.Prove(id, ctx, x, ref.Expand(c.Seed, "k", 1))
		mustReject = false
	case "ref-proof-no-secret": // honest algorithm run with a wrong secret
		k := ref.Expand(c.Seed, "k", 1)
		w := ref.Int(c.Other)
		vs = ref.SchnorrChallenge(id, ctx, y, ref.BaseMul(k))
		vr = ref.AddQ(k, ref.MulQ(w, vs))
		mustReject = w.Cmp(x) != 0
	case "simulated": // consistent transcript with a chosen challenge
		vs, vr = ref.Int(c.Other), ref.Int(c.Other2)
	case "rebound": // response rewritten for the same challenge and another public value
		w := ref.Int(c.Other)
		y = ref.BaseMul(w)
		vr = ref.AddQ(r, ref.MulQ(s, ref.SubQ(w, x)))
		mustReject = w.Cmp(x) != 0
	case "no-commitment": // challenge fixed before the commitment is known
		vs = ref.HashQ(ref.ID16(id), ctx, ref.Encode(y))
	case "no-public": // public value solved for after the challenge
		k := ref.Expand(c.Seed, "k", 1)
		vs = ref.HashQ(ref.ID16(id), ctx, ref.Encode(ref.BaseMul(k)))
		y = ref.Mul(new(big.Int).ModInverse(vs, ref.Q), ref.Sub(ref.BaseMul(vr), ref.BaseMul(k)))
	case "no-id":
		k := ref.Expand(c.Seed, "k", 1)
		vs = ref.HashQ(ctx, ref.Encode(y), ref.Encode(ref.BaseMul(k)))
		vr = ref.AddQ(k, ref.MulQ(x, vs))
	case "no-ctx":
		k := ref.Expand(c.Seed, "k", 1)
		vs = ref.HashQ(ref.ID16(id), ref.Encode(y), ref.Encode(ref.BaseMul(k)))
		vr = ref.AddQ(k, ref.MulQ(x, vs))
	case "identity-public":
		y = ref.Identity()
		mustReject = x.Sign() != 0
	case "double":
		vs, vr = ref.AddQ(s, s), ref.AddQ(r, r)
	case "other-hash": // made with the secret, but with another challenge than the definition's
		var form string
		vs, vr, form = otherHash(c.Bit, id, ctx, x, ref.Expand(c.Seed, "k", 1))
		res.Labels = append(res.Labels, "form="+form)
		mustReject = x.Sign() != 0 // zero is its own negation
	}
	want := ref.VerifyProof(id, ctx, y, vs, vr)
	if want && mustReject {
		// the reference accepts what was built to be invalid: probability 2^-252
		panic("harness: variant " + proofVariants[c.Var] + " is valid")
	}
	q, err := loadProof(ref.ScalarBytes(vs), ref.ScalarBytes(vr))
	if err != nil {
		return fail("a proof of canonical scalars does not decode: %v", err)
	}
	e := sim.Elem(y)
	if got := q.Verify(party.ID(id), e, ctx); got != want {
		return fail("%s: Verify = %v, the definition says %v (id=%d ctx=%x public=%x s=%x r=%x)", proofVariants[c.Var], got, want, id, ctx, ref.Encode(y), ref.ScalarBytes(vs), ref.ScalarBytes(vr))
	}
	// verifying changes nothing and gives the same answer again
	if raw3, _ := q.MarshalBinary(); !bytes.Equal(raw3[:32], ref.ScalarBytes(vs)) || !bytes.Equal(raw3[32:], ref.ScalarBytes(vr)) || !bytes.Equal(e.Bytes(), ref.Encode(y)) {
		return fail("verifying a proof changed it or the public value")
	}
	if got := q.Verify(party.ID(id), e, ctx); got != want {
		return fail("verifying the same proof twice gives %v and then %v", want, got)
	}
	// nor do the values that held a valid proof when they last were verified
	// give another answer: set in place, or decoded into
	libPub.Set(e)
	copy(ctxIn, ctx)
	p.S.Set(sim.Scalar(vs))
	p.R.Set(sim.Scalar(vr))
	if got := p.Verify(party.ID(id), libPub, ctxIn); got != want {
		return fail("%s: Verify = %v after the proof, the public value and the context were set in place, the definition says %v", proofVariants[c.Var], got, want)
	}
	libPub.Set(sim.Elem(pub))
	copy(ctxIn, c.Ctx)
	if !p2.Verify(party.ID(c.ID), libPub, ctxIn) {
		return fail("a second proof made by party %d for its own public value is rejected", c.ID)
	}
	if err := p2.UnmarshalBinary(append(ref.ScalarBytes(vs), ref.ScalarBytes(vr)...)); err != nil {
		return fail("a proof of canonical scalars does not decode into a used value: %v", err)
	}
	libPub.Set(e)
	copy(ctxIn, ctx)
	if got := p2.Verify(party.ID(id), libPub, ctxIn); got != want {
		return fail("%s: Verify = %v after decoding into a proof that was valid, the definition says %v", proofVariants[c.Var], got, want)
	}
	return res
}

func TestC07Proof(t *testing.T) { lib.Run(t, "C07.proof", 1, genProof, checkProof) }

// Proofs as key generation publishes them, and as a receiving session judges them.

type wireProofCase struct {
	G    sim.Group
	From int
	To   int
	Kind int
	Bit  int
	W    []byte
}

// otherHash makes a proof whose challenge is computed from the right parts in
// a form that is not the definition's.
func otherHash(n int, id uint16, ctx []byte, x, k *big.Int) (s, r *big.Int, form string) {
	y, m := ref.BaseMul(x), ref.BaseMul(k)
	le := []byte{byte(id), byte(id >> 8)}
	Y, M := ref.Encode(y), ref.Encode(m)
	forms := []struct {
		name  string
		parts [][]byte
	}{
		{"little-endian-id", [][]byte{le, ctx, Y, M}},
		{"wide-id", [][]byte{{0, 0}, ref.ID16(id), ctx, Y, M}},
		{"wide-little-endian-id", [][]byte{le, {0, 0}, ctx, Y, M}},
		{"scalar-id", [][]byte{ref.ScalarBytes(big.NewInt(int64(id))), ctx, Y, M}},
		{"text-id", [][]byte{[]byte(fmt.Sprint(id)), ctx, Y, M}},
		{"context-first", [][]byte{ctx, ref.ID16(id), Y, M}},
		{"commitment-first", [][]byte{ref.ID16(id), ctx, M, Y}},
		{"negated-commitment", [][]byte{ref.ID16(id), ctx, Y, ref.Encode(ref.Neg(m))}},
		{"negated-public", [][]byte{ref.ID16(id), ctx, ref.Encode(ref.Neg(y)), M}},
		{"both-negated", [][]byte{ref.ID16(id), ctx, ref.Encode(ref.Neg(y)), ref.Encode(ref.Neg(m))}},
		{"ed25519-points", [][]byte{ref.ID16(id), ctx, ref.EncodeEd(y), ref.EncodeEd(m)}},
		{"zero-context", [][]byte{ref.ID16(id), make([]byte, 32), {1}, Y, M}},
		{"half-context", [][]byte{ref.ID16(id), ctx[:16], Y, M}},
		{"trailing", [][]byte{ref.ID16(id), ctx, Y, M, {0}}},
		{"domain", [][]byte{[]byte("FROST-SHA512"), ref.ID16(id), ctx, Y, M}},
	}
	f := forms[n%len(forms)]
	if f.name == "little-endian-id" && id>>8 == id&255 {
		f = forms[1]
	}
	s = ref.HashQ(f.parts...)
	r = ref.AddQ(k, ref.MulQ(x, s))
	if n/len(forms)%4 == 3 { // the challenge cut to 128 bits
		s = ref.SchnorrChallenge(id, ctx, y, m)
		s = new(big.Int).And(s, new(big.Int).Sub(new(big.Int).Lsh(one, 128), one))
		return s, ref.AddQ(k, ref.MulQ(x, s)), "cut"
	}
	return s, r, f.name
}

var wireKinds = []string{"other-hash", "other-hash", "honest", "moved-id", "bit-flip", "zero-proof", "zero-challenge", "random", "other-constant", "rogue-key", "identity"}

func genWireProof(rt *rapid.T) wireProofCase {
	return wireProofCase{
		G:    sim.GenGroup(rt, 2, 4),
		From: rapid.IntRange(0, 3).Draw(rt, "from"),
		To:   rapid.IntRange(0, 3).Draw(rt, "to"),
		Kind: rapid.IntRange(0, len(wireKinds)-1).Draw(rt, "kind"),
		Bit:  rapid.IntRange(0, 511).Draw(rt, "bit"),
		W:    genScalar(rt, "w"),
	}
}

func checkWireProof(c *wireProofCase) lib.Result {
	n := len(c.G.IDs)
	from := c.G.IDs[c.From%n]
	to := c.G.IDs[c.To%n]
	if to == from {
		to = c.G.IDs[(c.From+1)%n]
	}
	kind := wireKinds[c.Kind]
	res := lib.Result{NonTrivial: true, Labels: []string{"kind=" + kind}}
	fail := func(f string, a ...interface{}) lib.Result {
		res.Err = fmt.Errorf(f, a...)
		return res
	}
	nodes, err := sim.KeygenNodes(c.G.IDs, c.G.T, c.G.Seed)
	if err != nil {
		return fail("%v", err)
	}
	first := map[uint16][]byte{}
	parsed := map[uint16]*ref.Msg{}
	var target *sim.Node
	for _, nd := range nodes {
		for _, b := range nd.Drive() {
			m, ok := ref.Parse(b)
			if !ok || m.Type != 1 {
				return fail("party %d's first message is %x", nd.ID, b)
			}
			first[nd.ID], parsed[nd.ID] = b, m
			for _, other := range append([]uint16{nd.ID ^ 1, nd.ID ^ 256}, c.G.IDs...) {
				if got := ref.VerifyProof(other, ref.ZeroCtx, m.Commits[0], m.S, m.R); got != (other == nd.ID) {
					return fail("the proof party %d published verifies for ID %d: %v", nd.ID, other, got)
				}
			}
		}
		if nd.ID == to {
			target = nd
		}
	}
	honest := parsed[from]
	if honest == nil {
		return fail("party %d published no proof", from)
	}
	s, r, commits := honest.S, honest.R, append([]*ref.Pt{}, honest.Commits...)
	switch kind {
	case "moved-id": // the target's own contribution sent back under the sender's name
		o := parsed[to]
		s, r, commits = o.S, o.R, append([]*ref.Pt{}, o.Commits...)
	case "bit-flip":
		b := append(ref.ScalarBytes(s), ref.ScalarBytes(r)...)
		b[c.Bit/8] ^= 1 << uint(c.Bit%8)
		s2, ok1 := ref.ParseScalar(b[:32])
		r2, ok2 := ref.ParseScalar(b[32:])
		if !ok1 || !ok2 {
			return res
		}
		s, r = s2, r2
	case "zero-proof":
		s, r = new(big.Int), new(big.Int)
	case "zero-challenge":
		s = new(big.Int)
	case "random":
		s, r = ref.Expand(c.G.Seed, "ps", 0), ref.Expand(c.G.Seed, "pr", 0)
	case "other-constant":
		commits[0] = ref.Add(commits[0], ref.BaseMul(one))
	case "rogue-key": // cancel the target's constant term
		commits[0] = ref.Sub(ref.BaseMul(ref.Int(c.W)), parsed[to].Commits[0])
		s, r = ref.Prove(from, ref.ZeroCtx, ref.Int(c.W), ref.Expand(c.G.Seed, "k", 3))
	case "other-hash":
		w := ref.Int(c.W)
		if w.Sign() == 0 { // its own negation
			w = one
		}
		commits[0] = ref.BaseMul(w)
		var form string
		s, r, form = otherHash(c.Bit, from, ref.ZeroCtx, w, ref.Expand(c.G.Seed, "k", 3))
		res.Labels = append(res.Labels, "form="+form)
	case "identity": // known discrete log: must be accepted
		commits[0] = ref.Identity()
		s, r = ref.Prove(from, ref.ZeroCtx, new(big.Int), ref.Expand(c.G.Seed, "k", 3))
	}
	want := ref.VerifyProof(from, ref.ZeroCtx, commits[0], s, r)
	if want != (kind == "honest" || kind == "identity") {
		panic("harness: kind " + kind)
	}
	for _, id := range c.G.IDs {
		b := first[id]
		if id == to {
			continue
		}
		if id == from {
			b = ref.MsgKG1(from, s, r, commits)
		}
		if err := target.Handle(b); err != nil {
			return fail("%s: party %d refuses the message of %d: %v", kind, to, id, err)
		}
	}
	target.Drive()
	fin, serr := target.Finished()
	if want && fin {
		return fail("%s: a valid proof of party %d made party %d abort: %v", kind, from, to, serr)
	}
	if !want {
		if !fin || serr == nil {
			return fail("%s: party %d accepted an invalid proof under the name of party %d", kind, to, from)
		}
		if who, _, ok := sim.Blame(serr); !ok || who != from {
			return fail("%s: invalid proof of party %d reported as %q", kind, from, serr)
		}
	}
	return res
}

func TestC07Wire(t *testing.T) { lib.Run(t, "C07.wire", .3, genWireProof, checkWireProof) }

// ---- C25 ----

type shareCase struct {
	IDs     []uint16
	D       int
	Secrets [][]byte // one sharing per entry
	Sub     []int    // picks the subset
	X       uint16   // another evaluation point
	Seed    uint64
	Perm    bool
	Lie     int
}

func genShares(rt *rapid.T) shareCase {
	n := rapid.IntRange(1, 12).Draw(rt, "n")
	c := shareCase{IDs: sim.GenIDs(rt, n), Seed: uint64(rapid.Uint32().Draw(rt, "seed"))}
	switch rapid.IntRange(0, 3).Draw(rt, "dk") {
	case 0:
		c.D = n - 1
	default:
		c.D = rapid.IntRange(0, n-1).Draw(rt, "d")
	}
	k := rapid.IntRange(1, 4).Draw(rt, "sharings")
	for i := 0; i < k; i++ {
		c.Secrets = append(c.Secrets, genScalar(rt, "secret"))
	}
	c.Sub = rapid.Permutation(seq(n)).Draw(rt, "sub")[:rapid.IntRange(c.D+1, n).Draw(rt, "subn")]
	c.X = rapid.Uint16Range(1, 65535).Draw(rt, "x")
	c.Perm = rapid.Bool().Draw(rt, "perm")
	c.Lie = rapid.IntRange(0, 3).Draw(rt, "lie")
	return c
}

func seq(n int) []int {
	o := make([]int, n)
	for i := range o {
		o[i] = i
	}
	return o
}

// interpolate gives the value at x of the polynomial through the points.
func interpolate(x *big.Int, ids []uint16, ys map[uint16]*big.Int) *big.Int {
	r := new(big.Int)
	for _, j := range ids {
		num, den := big.NewInt(1), big.NewInt(1)
		for _, m := range ids {
			if m != j {
				num = ref.MulQ(num, ref.SubQ(x, big.NewInt(int64(m))))
				den = ref.MulQ(den, ref.SubQ(big.NewInt(int64(j)), big.NewInt(int64(m))))
			}
		}
		r = ref.AddQ(r, ref.MulQ(ys[j], ref.MulQ(num, new(big.Int).ModInverse(den, ref.Q))))
	}
	return r
}

func idScalar(id uint16) *ristretto.Scalar { return sim.Scalar(big.NewInt(int64(id))) }

// zeroReveals reports whether evaluating at zero hands out a value.
func zeroReveals(p *polynomial.Polynomial) (v *ristretto.Scalar) {
	defer func() {
		if recover() != nil {
			v = nil
		}
	}()
	return p.Evaluate(ristretto.NewScalar())
}

func checkShares(c *shareCase) lib.Result {
	lib.SetRand(c.Seed)
	res := lib.Result{NonTrivial: c.D >= 1, Labels: []string{fmt.Sprintf("d=%d", min(c.D, 6)), sim.IDShape(c.IDs), fmt.Sprintf("sharings=%d", len(c.Secrets))}}
	fail := func(f string, a ...interface{}) lib.Result {
		res.Err = fmt.Errorf(f, a...)
		return res
	}
	var sub []uint16
	for _, i := range c.Sub {
		sub = append(sub, c.IDs[i])
	}
	if !c.Perm {
		sub = ref.Sorted(sub)
	}
	libSub := sim.IDs(sub)

	// Lagrange coefficients of exactly that set
	lambda := map[uint16]*ristretto.Scalar{}
	for _, id := range sub {
		l, err := party.ID(id).Lagrange(libSub)
		if err != nil {
			return fail("Lagrange(%d, %v): %v", id, sub, err)
		}
		if sim.Int(l).Cmp(ref.Lagrange(id, sub)) != 0 {
			return fail("Lagrange(%d, %v) = %x, want %x", id, sub, l.Bytes(), ref.ScalarBytes(ref.Lagrange(id, sub)))
		}
		lambda[id] = l
	}
	for _, id := range sub {
		l, _ := party.ID(id).Lagrange(libSub)
		l.Add(l, sim.Scalar(one)) // the caller's own
	}
	for _, id := range sub {
		if l, err := party.ID(id).Lagrange(libSub); err != nil || l.Equal(lambda[id]) != 1 {
			return fail("Lagrange(%d, %v) asked for again gives another value (%v)", id, sub, err)
		}
	}
	if !libSub.Equal(sim.IDs(sub)) {
		return fail("Lagrange changed the set %v", sub)
	}
	in := map[uint16]bool{}
	for _, id := range sub {
		in[id] = true
	}
	out := []uint16{0, c.X, c.X ^ 256, sub[0] ^ 1, sub[0] ^ 256}
	for _, id := range c.IDs {
		out = append(out, id)
	}
	for _, id := range out {
		if in[id] {
			continue
		}
		if l, err := party.ID(id).Lagrange(libSub); err == nil {
			return fail("Lagrange(%d, %v) = %x although %d is not in the set", id, sub, l.Bytes(), id)
		}
	}
	if l, err := party.ID(0).Lagrange(append(party.IDSlice{0}, libSub...)); err == nil {
		return fail("Lagrange of ID 0 in a set with 0 = %x", l.Bytes())
	}

	d := party.Size(c.D)
	var polys []*polynomial.Polynomial
	var exps []*polynomial.Exponent
	sum := map[uint16]*big.Int{}
	for _, id := range c.IDs {
		sum[id] = new(big.Int)
	}
	sumX := new(big.Int)
	total := new(big.Int)
	for i, sec := range c.Secrets {
		secret := ref.Int(sec)
		in := sim.Scalar(secret)
		p := polynomial.NewPolynomial(d, in)
		in.Set(sim.Scalar(ref.Expand(c.Seed, "overwritten", i))) // the caller may reuse its value
		e := polynomial.NewPolynomialExponent(p)
		polys, exps = append(polys, p), append(exps, e)
		if p.Degree() != d || e.Degree() != d {
			return fail("degree %d: Degree() = %d and %d", d, p.Degree(), e.Degree())
		}
		if sim.Int(p.Constant()).Cmp(secret) != 0 || !ref.Equal(sim.Pt(e.Constant()), ref.BaseMul(secret)) {
			return fail("the constant of a sharing of %x is %x", sec, p.Constant().Bytes())
		}
		ys := map[uint16]*big.Int{}
		multi := e.EvaluateMulti(sim.IDs(c.IDs))
		if len(multi) != len(c.IDs) {
			return fail("EvaluateMulti of %d IDs gives %d values", len(c.IDs), len(multi))
		}
		for _, id := range c.IDs {
			x := party.ID(id).Scalar()
			y := p.Evaluate(x)
			if !bytes.Equal(x.Bytes(), ref.ScalarBytes(big.NewInt(int64(id)))) {
				return fail("evaluation changed its argument")
			}
			ys[id] = sim.Int(y)
			want := ref.BaseMul(ys[id])
			if !ref.Equal(sim.Pt(e.Evaluate(x)), want) {
				return fail("evaluation in the exponent at %d (degree %d) is not the evaluation times the base point", id, d)
			}
			if multi[party.ID(id)] == nil || !ref.Equal(sim.Pt(multi[party.ID(id)]), want) {
				return fail("EvaluateMulti at %d is not the evaluation", id)
			}
			sum[id] = ref.AddQ(sum[id], ys[id])
		}
		// any d+1 of the values with the secret at zero determine the rest
		base := c.IDs[:c.D+1]
		if got := interpolate(new(big.Int), base, ys); got.Cmp(secret) != 0 {
			return fail("shares at %v of a degree %d sharing interpolate to %x, the secret is %x", base, d, ref.ScalarBytes(got), sec)
		}
		for _, id := range c.IDs[c.D+1:] {
			if interpolate(big.NewInt(int64(id)), base, ys).Cmp(ys[id]) != 0 {
				return fail("the share at %d does not lie on the polynomial through %v", id, base)
			}
		}
		if y := p.Evaluate(idScalar(c.X)); sim.Int(y).Cmp(interpolate(big.NewInt(int64(c.X)), base, ys)) != 0 {
			return fail("the share at %d does not lie on the polynomial through %v", c.X, base)
		} else {
			sumX = ref.AddQ(sumX, sim.Int(y))
		}
		// recombination through the library
		rec, recE := ristretto.NewScalar(), ristretto.NewIdentityElement()
		var tmp ristretto.Element
		for _, id := range sub {
			rec.MultiplyAdd(lambda[id], sim.Scalar(ys[id]), rec)
			recE.Add(recE, tmp.ScalarMult(lambda[id], e.Evaluate(idScalar(id))))
		}
		if sim.Int(rec).Cmp(secret) != 0 {
			return fail("shares at %v recombine to %x, the secret is %x", sub, rec.Bytes(), sec)
		}
		if !ref.Equal(sim.Pt(recE), ref.BaseMul(secret)) {
			return fail("public shares at %v do not recombine to the public value", sub)
		}
		// what was handed out is the caller's own
		x := idScalar(c.X)
		for _, v := range []*ristretto.Scalar{p.Constant(), p.Evaluate(x)} {
			v.Set(sim.Scalar(ref.Expand(c.Seed, "overwritten", 7)))
		}
		py := p.Evaluate(x)
		for _, v := range []*ristretto.Element{e.Constant(), e.Evaluate(x), e.EvaluateMulti(party.IDSlice{party.ID(c.X)})[party.ID(c.X)]} {
			v.Add(v, ristretto.NewGeneratorElement())
		}
		if sim.Int(p.Constant()).Cmp(secret) != 0 || !ref.Equal(sim.Pt(e.Constant()), ref.BaseMul(secret)) || !ref.Equal(sim.Pt(e.Evaluate(x)), ref.BaseMul(sim.Int(py))) {
			return fail("changing the values a sharing of %x was asked for changed the sharing", sec)
		}
		if sim.Int(x).Cmp(big.NewInt(int64(c.X))) != 0 {
			return fail("evaluation changed its argument")
		}
		if v := zeroReveals(p); v != nil && (sim.Int(v).Cmp(secret) == 0) {
			return fail("evaluation at zero returned the secret")
		}
		if i > 0 {
			total = ref.AddQ(total, secret)
		} else {
			total = secret
		}
	}

	// sums
	before := make([][]byte, len(exps))
	for i, e := range exps {
		before[i], _ = e.MarshalBinary()
	}
	s, err := polynomial.Sum(exps)
	if err != nil {
		return fail("sum of %d sharings of degree %d: %v", len(exps), d, err)
	}
	for i, e := range exps {
		if b, _ := e.MarshalBinary(); !bytes.Equal(b, before[i]) {
			return fail("summing changed sharing %d", i)
		}
	}
	if s.Degree() != d || !ref.Equal(sim.Pt(s.Constant()), ref.BaseMul(total)) {
		return fail("the sum of sharings is not a sharing of the sum")
	}
	for _, id := range c.IDs {
		if !ref.Equal(sim.Pt(s.Evaluate(idScalar(id))), ref.BaseMul(sum[id])) {
			return fail("the summed sharing at %d is not the sum of the shares", id)
		}
	}
	if !ref.Equal(sim.Pt(s.Evaluate(idScalar(c.X))), ref.BaseMul(sumX)) {
		return fail("the summed sharing at %d is not the sum of the shares", c.X)
	}
	cp := exps[0].Copy()
	if b, _ := cp.MarshalBinary(); !bytes.Equal(b, before[0]) || !cp.Equal(exps[0]) {
		return fail("a copy differs from the original")
	}
	// a copy that was evaluated and is then changed in place is evaluated anew
	at := func(e *polynomial.Exponent, id uint16) *ref.Pt { return sim.Pt(e.Evaluate(idScalar(id))) }
	last := exps[len(exps)-1]
	for _, id := range []uint16{c.IDs[0], c.X} {
		a, b := at(cp, id), at(last, id)
		if id == c.X {
			cp = exps[0].Copy()
			a = at(cp, id)
		}
		if err := cp.Add(last); err != nil {
			return fail("adding sharings of the same degree: %v", err)
		}
		if !ref.Equal(at(cp, id), ref.Add(a, b)) {
			return fail("a sharing that was evaluated at %d and then added to is not the sum there", id)
		}
		if !ref.Equal(sim.Pt(cp.Constant()), ref.Add(sim.Pt(exps[0].Constant()), sim.Pt(last.Constant()))) {
			return fail("the constant of a sum is not the sum of the constants")
		}
	}
	used := s.Copy()
	at(used, c.X)
	if err := used.UnmarshalBinary(before[0]); err != nil {
		return fail("a sharing in the exponent does not decode into a used value: %v", err)
	}
	if !ref.Equal(at(used, c.X), at(exps[0], c.X)) || !used.Equal(exps[0]) {
		return fail("a sharing decoded into a used value is not the one that was encoded")
	}
	used.Reset()
	if !ref.IsIdentity(at(used, c.X)) || !ref.IsIdentity(sim.Pt(used.Constant())) {
		return fail("a sharing in the exponent that was reset is not zero")
	}
	if b, _ := exps[0].MarshalBinary(); !bytes.Equal(b, before[0]) {
		return fail("changing a copy changed the original")
	}
	other := polynomial.NewPolynomialExponent(polynomial.NewPolynomial(d+1, sim.Scalar(one)))
	if err := cp.Add(other); err == nil {
		return fail("sharings of degree %d and %d were added", d, d+1)
	}
	if _, err := polynomial.Sum([]*polynomial.Exponent{exps[0], other}); err == nil {
		return fail("sharings of degree %d and %d were summed", d, d+1)
	}
	// a sum is a value of its own, however many sharings it is made of, and whichever of them are the same
	for n := 1; n <= len(exps); n++ {
		for _, list := range [][]*polynomial.Exponent{exps[:n], append(append([]*polynomial.Exponent{}, exps[:n]...), exps[0])} {
			a, err := polynomial.Sum(list)
			if err != nil {
				return fail("sum of %d sharings of degree %d: %v", len(list), d, err)
			}
			want, _ := a.MarshalBinary()
			double := ref.Add(at(a, c.X), at(a, c.X))
			if err := a.Add(a); err != nil || !ref.Equal(at(a, c.X), double) {
				return fail("a sum of %d sharings added to itself is not twice the sum (%v)", len(list), err)
			}
			a.Constant().Add(a.Constant(), ristretto.NewGeneratorElement())
			if err := a.Add(last); err != nil {
				return fail("adding sharings of the same degree: %v", err)
			}
			b, err := polynomial.Sum(list)
			if err != nil {
				return fail("sum of %d sharings of degree %d: %v", len(list), d, err)
			}
			if got, _ := b.MarshalBinary(); !bytes.Equal(got, want) {
				return fail("changing a sum of %d sharings changes later sums", len(list))
			}
			a.Reset()
		}
	}
	for i, e := range exps {
		if b, _ := e.MarshalBinary(); !bytes.Equal(b, before[i]) {
			return fail("changing a sum changed sharing %d", i)
		}
	}
	for _, p := range polys {
		p.Reset()
		if sim.Int(p.Constant()).Sign() != 0 || sim.Int(p.Evaluate(idScalar(c.X))).Sign() != 0 {
			return fail("a polynomial that was reset is not zero")
		}
	}
	for i, e := range exps {
		if b, _ := e.MarshalBinary(); !bytes.Equal(b, before[i]) {
			return fail("resetting a polynomial changed its image in the exponent")
		}
	}
	return res
}

func TestC25Shares(t *testing.T) { lib.Run(t, "C25.shares", 1, genShares, checkShares) }

type dealerCase struct {
	IDs  []uint16
	T    int
	Sub  []int
	Seed uint64
}

func genDealer(rt *rapid.T) dealerCase {
	n := rapid.IntRange(1, 10).Draw(rt, "n")
	c := dealerCase{IDs: sim.GenIDs(rt, n), Seed: uint64(rapid.Uint32().Draw(rt, "seed"))}
	c.T = rapid.IntRange(0, n-1).Draw(rt, "t")
	c.Sub = rapid.Permutation(seq(n)).Draw(rt, "sub")[:rapid.IntRange(1, n).Draw(rt, "subn")]
	return c
}

func checkDealer(c *dealerCase) lib.Result {
	lib.SetRand(c.Seed)
	res := lib.Result{NonTrivial: c.T >= 1, Labels: []string{sim.IDShape(c.IDs)}}
	fail := func(f string, a ...interface{}) lib.Result {
		res.Err = fmt.Errorf(f, a...)
		return res
	}
	set := sim.IDs(c.IDs)
	secret, shares := helpers.GenerateSecrets(set, party.Size(c.T))
	if len(shares) != len(c.IDs) || !set.Equal(sim.IDs(c.IDs)) {
		return fail("%d shares for %v (set is now %v)", len(shares), c.IDs, set)
	}
	ys := map[uint16]*big.Int{}
	for _, id := range c.IDs {
		sh := shares[party.ID(id)]
		if sh == nil || uint16(sh.ID) != id {
			return fail("share of %d is %+v", id, sh)
		}
		ys[id] = sim.Int(&sh.Secret)
		if !ref.Equal(sim.Pt(&sh.Public), ref.BaseMul(ys[id])) {
			return fail("public part of share %d does not match its secret", id)
		}
	}
	var sub []uint16
	for _, i := range c.Sub {
		sub = append(sub, c.IDs[i])
	}
	got := interpolate(new(big.Int), sub, ys)
	if (got.Cmp(sim.Int(secret)) == 0) != (len(sub) > c.T) {
		return fail("threshold %d: shares of %v recombine to the secret: %v", c.T, sub, len(sub) <= c.T)
	}
	if len(sub) > c.T {
		res.Labels = append(res.Labels, "subset=enough")
	} else {
		res.Labels = append(res.Labels, "subset=too-few")
	}
	pub := helpers.GeneratePublic(party.Size(c.T), shares)
	want := map[uint16][]byte{}
	for id, y := range ys {
		want[id] = ref.Encode(ref.BaseMul(y))
	}
	if err := sim.CheckPublic(pub, c.IDs, uint16(c.T), ref.EncodeEd(ref.BaseMul(sim.Int(secret))), want); err != nil {
		return fail("public data of the dealer: %v", err)
	}
	for _, id := range c.IDs {
		if sim.Int(&shares[party.ID(id)].Secret).Cmp(ys[id]) != 0 {
			return fail("making the public data changed share %d", id)
		}
	}
	return res
}

func TestC25Dealer(t *testing.T) { lib.Run(t, "C25.dealer", .5, genDealer, checkDealer) }

// No shares or public data for a threshold that no subset of the set can meet.
type refuseCase struct {
	IDs  []uint16
	T    int
	Seed uint64
}

func TestC25Refuse(t *testing.T) {
	lib.Run(t, "C25.refuse", .1, func(rt *rapid.T) refuseCase {
		n := rapid.IntRange(1, 30).Draw(rt, "n")
		c := refuseCase{IDs: sim.GenIDs(rt, n), Seed: uint64(rapid.Uint32().Draw(rt, "seed"))}
		c.T = rapid.SampledFrom([]int{n, n, n + 1, 2 * n, 255, 256, 256 + n - 1, 32768, 65280 + n, 65535, n - 1}).Draw(rt, "t")
		return c
	}, func(c *refuseCase) lib.Result {
		lib.SetRand(c.Seed)
		res := lib.Result{NonTrivial: c.T >= len(c.IDs)}
		ok := c.T < len(c.IDs)
		set := sim.IDs(c.IDs)
		refused := func(f func()) (r bool) {
			defer func() { r = recover() != nil }()
			f()
			return
		}
		var shares map[party.ID]*eddsa.SecretShare
		if r := refused(func() { _, shares = helpers.GenerateSecrets(set, party.Size(c.T)) }); (r || len(shares) == 0) == ok {
			res.Err = fmt.Errorf("%d shares with threshold %d: refused=%v", len(shares), c.T, r)
			return res
		}
		_, shares = helpers.GenerateSecrets(set, party.Size(len(c.IDs)-1))
		var pub *eddsa.Public
		if r := refused(func() { pub = helpers.GeneratePublic(party.Size(c.T), shares) }); (r || pub == nil) == ok {
			res.Err = fmt.Errorf("public data of %d shares with threshold %d: refused=%v", len(shares), c.T, r)
		}
		return res
	})
}

type bigShareCase struct {
	N, D  int
	First uint16
	Step  uint16
	Seed  uint64
}

func checkBigShares(c *bigShareCase) lib.Result {
	lib.SetRand(c.Seed)
	res := lib.Result{NonTrivial: true, Labels: []string{fmt.Sprintf("d>=%d", c.D/50*50)}}
	var ids []uint16
	for i := 0; i < c.N; i++ {
		ids = append(ids, c.First+uint16(i)*c.Step)
	}
	secret := ref.Expand(c.Seed, "big", 0)
	p := polynomial.NewPolynomial(party.Size(c.D), sim.Scalar(secret))
	e := polynomial.NewPolynomialExponent(p)
	sub := ids[c.N-c.D-1:]
	libSub := sim.IDs(sub)
	rec := ristretto.NewScalar()
	for i, id := range sub {
		y := p.Evaluate(party.ID(id).Scalar())
		l, err := party.ID(id).Lagrange(libSub)
		if err != nil {
			return lib.Fail("Lagrange(%d) in a set of %d: %v", id, len(sub), err)
		}
		rec.MultiplyAdd(l, y, rec)
		if (i%97 == 0 || i == len(sub)-1) && !ref.Equal(sim.Pt(e.Evaluate(party.ID(id).Scalar())), ref.BaseMul(sim.Int(y))) {
			return lib.Fail("evaluation in the exponent at %d, degree %d, differs", id, c.D)
		}
	}
	// the other evaluation, sums and copies, at a few points
	secret2 := ref.Expand(c.Seed, "big", 1)
	p2 := polynomial.NewPolynomial(party.Size(c.D), sim.Scalar(secret2))
	e2 := polynomial.NewPolynomialExponent(p2)
	before, _ := e.MarshalBinary()
	sum, err := polynomial.Sum([]*polynomial.Exponent{e, e2, e})
	if err != nil {
		return lib.Fail("sum of degree %d: %v", c.D, err)
	}
	cp := e.Copy()
	if err := cp.Add(e2); err != nil {
		return lib.Fail("adding degree %d: %v", c.D, err)
	}
	if after, _ := e.MarshalBinary(); !bytes.Equal(before, after) {
		return lib.Fail("degree %d: a sum, or adding to a copy, changes the original", c.D)
	}
	for _, pol := range []*polynomial.Exponent{e, sum, cp} {
		if int(pol.Degree()) != c.D {
			return lib.Fail("degree %d instead of %d", pol.Degree(), c.D)
		}
	}
	q := []uint16{ids[0], ids[c.N/2], ids[c.N-1]}
	var xs []*ristretto.Scalar
	for _, id := range q {
		xs = append(xs, party.ID(id).Scalar())
	}
	multi := sum.EvaluateMulti(sim.IDs(q))
	for i, id := range q {
		y, y2 := sim.Int(p.Evaluate(xs[i])), sim.Int(p2.Evaluate(xs[i]))
		if w := ref.BaseMul(ref.AddQ(ref.AddQ(y, y), y2)); !ref.Equal(sim.Pt(sum.Evaluate(xs[i])), w) || !ref.Equal(sim.Pt(multi[party.ID(id)]), w) {
			return lib.Fail("degree %d: the sum of commitments is wrong at %d", c.D, id)
		}
		if !ref.Equal(sim.Pt(cp.Evaluate(xs[i])), ref.BaseMul(ref.AddQ(y, y2))) {
			return lib.Fail("degree %d: added commitments are wrong at %d", c.D, id)
		}
	}
	if !ref.Equal(sim.Pt(sum.Constant()), ref.BaseMul(ref.AddQ(ref.AddQ(secret, secret), secret2))) {
		return lib.Fail("degree %d: the constant of a sum is wrong", c.D)
	}
	if sim.Int(rec).Cmp(secret) != 0 {
		return lib.Fail("%d shares of a degree %d sharing recombine to %x", len(sub), c.D, rec.Bytes())
	}
	return res
}

// Degrees past one byte, up to and beyond 256 and 1000.
func TestC25Big(t *testing.T) {
	lib.Run(t, "C25.big", .05, func(rt *rapid.T) bigShareCase {
		n := rapid.IntRange(13, 260).Draw(rt, "n")
		if rapid.IntRange(0, 3).Draw(rt, "big") == 3 {
			n = rapid.SampledFrom([]int{255, 256, 257, 258, 300, 512, 513, 1025}).Draw(rt, "n")
		}
		d := n - 1 - rapid.SampledFrom([]int{0, 1, 2, 10}).Draw(rt, "less")
		step := rapid.Uint16Range(1, uint16(65535/n)).Draw(rt, "step")
		first := rapid.Uint16Range(1, 65535-uint16(n-1)*step).Draw(rt, "first")
		return bigShareCase{N: n, D: d, First: first, Step: step, Seed: uint64(rapid.Uint32().Draw(rt, "seed"))}
	}, checkBigShares)
}
