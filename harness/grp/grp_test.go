// Package grp checks the group, its encodings and signature verification.
package grp

import (
	"bytes"
	"crypto/ed25519"
	"crypto/sha512"
	"encoding/base64"
	"fmt"
	"math/big"
	"reflect"
	"testing"

	"github.com/taurusgroup/frost-ed25519/pkg/eddsa"
	"github.com/taurusgroup/frost-ed25519/pkg/ristretto"
	"github.com/taurusgroup/frost-ed25519/pkg/verif/lib"
	"github.com/taurusgroup/frost-ed25519/pkg/verif/ref"
	"github.com/taurusgroup/frost-ed25519/pkg/verif/sim"
	"pgregory.net/rapid"
)

// scalar is a value or a special one.
type scalar struct {
	Kind string
	N    uint32
}

func (s scalar) big() *big.Int {
	n := big.NewInt(int64(s.N))
	switch s.Kind {
	case "small":
		return n
	case "neg":
		return ref.SubQ(big.NewInt(0), n)
	case "pow":
		return ref.MulQ(new(big.Int).Lsh(big.NewInt(1), uint(s.N%253)), big.NewInt(1))
	case "pow-1":
		return ref.AddQ(new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(s.N%253)), big.NewInt(1)), big.NewInt(0))
	case "eighth":
		return ref.MulQ(ref.EightInv, n)
	case "nibbles": // runs of one digit, for windowed multiplication
		b := bytes.Repeat([]byte{byte(s.N)}, 32)
		b[31] &= 0x0f
		return ref.AddQ(ref.Int(b), big.NewInt(0))
	}
	return ref.Expand(uint64(s.N), "grp", 0)
}

func genScalar(rt *rapid.T) scalar {
	k := rapid.SampledFrom([]string{"random", "random", "small", "neg", "pow", "pow-1", "eighth", "nibbles"}).Draw(rt, "skind")
	n := rapid.Uint32().Draw(rt, "sval")
	if k == "small" || k == "neg" {
		n = uint32(rapid.IntRange(0, 20).Draw(rt, "small"))
	}
	return scalar{k, n}
}

// source is one way of obtaining an element.
type source struct {
	Kind string // identity, generator, base, decode, uniform
	S    scalar
	B    []byte `json:",omitempty"`
}

func (s source) make() (*ristretto.Element, *ref.Pt, error) {
	switch s.Kind {
	case "identity":
		return ristretto.NewIdentityElement(), ref.Identity(), nil
	case "generator":
		return ristretto.NewGeneratorElement(), ref.B, nil
	case "base":
		var e ristretto.Element
		k := s.S.big()
		return e.ScalarBaseMult(sim.Scalar(k)), ref.BaseMul(k), nil
	case "decode":
		p := ref.BaseMul(s.S.big())
		var e ristretto.Element
		if _, err := e.SetCanonicalBytes(ref.Encode(p)); err != nil {
			return nil, nil, fmt.Errorf("canonical encoding %x rejected: %v", ref.Encode(p), err)
		}
		return &e, p, nil
	default:
		var e ristretto.Element
		b := append([]byte{}, s.B...)
		if _, err := e.SetUniformBytes(b); err != nil {
			return nil, nil, fmt.Errorf("SetUniformBytes of 64 bytes: %v", err)
		}
		if !bytes.Equal(b, s.B) {
			return nil, nil, fmt.Errorf("SetUniformBytes changed its input")
		}
		return &e, ref.FromUniform(s.B), nil
	}
}

func genHalf(rt *rapid.T) []byte {
	switch rapid.IntRange(0, 5).Draw(rt, "half") {
	case 0:
		b := make([]byte, 32)
		b[0] = rapid.SampledFrom([]byte{0, 1, 2, 3}).Draw(rt, "lo")
		b[31] = rapid.SampledFrom([]byte{0, 0x80}).Draw(rt, "hi")
		return b
	case 1: // around p and above
		x := new(big.Int).Add(ref.P, big.NewInt(int64(rapid.IntRange(-3, 18).Draw(rt, "off"))))
		b := ref.FieldBytes(x)
		b[31] |= rapid.SampledFrom([]byte{0, 0x80}).Draw(rt, "hi")
		return b
	default:
		return rapid.SliceOfN(rapid.Byte(), 32, 32).Draw(rt, "bytes")
	}
}

func genUniform(rt *rapid.T) []byte {
	a := genHalf(rt)
	if rapid.IntRange(0, 7).Draw(rt, "same") == 0 {
		return append(append([]byte{}, a...), a...)
	}
	return append(append([]byte{}, a...), genHalf(rt)...)
}

func genSource(rt *rapid.T) source {
	s := source{Kind: rapid.SampledFrom([]string{"uniform", "base", "decode", "uniform", "identity", "generator"}).Draw(rt, "source")}
	switch s.Kind {
	case "base", "decode":
		s.S = genScalar(rt)
	case "uniform":
		s.B = genUniform(rt)
	}
	return s
}

// ---- C14 ----

type op struct {
	Op    string
	Dst   int // register; -1: a zero-value receiver put into register 0
	A, B  int
	S, S2 scalar
	Regs  []int
	Ss    []scalar
}

type progCase struct {
	Init []source
	Ops  []op
	Slow bool
}

func checkProg(c *progCase) lib.Result {
	var regs []*ristretto.Element
	var refs []*ref.Pt
	for _, s := range c.Init {
		e, p, err := s.make()
		if err != nil {
			return lib.Result{Err: err}
		}
		regs, refs = append(regs, e), append(refs, p)
	}
	enc := make([][]byte, len(regs))
	for i := range regs {
		enc[i] = regs[i].Bytes()
		if !bytes.Equal(enc[i], ref.Encode(refs[i])) {
			return lib.Fail("register %d (%s): encodes to %x, the specification gives %x", i, c.Init[i].Kind, enc[i], ref.Encode(refs[i]))
		}
	}
	mul := ref.Mul
	if c.Slow {
		mul = ref.MulSlow
	}
	labels := map[string]bool{}
	alias := 0
	for n, o := range c.Ops {
		k := len(regs)
		d, a, b := o.Dst, o.A%k, o.B%k
		dst := &ristretto.Element{}
		if d >= 0 {
			d %= k
			dst = regs[d]
		} else {
			d = 0
		}
		s, s2 := o.S.big(), o.S2.big()
		ls, ls2 := sim.Scalar(s), sim.Scalar(s2)
		where := fmt.Sprintf("step %d: r%d = %s(r%d, r%d, %v, %v, %v)", n, d, o.Op, a, b, o.S, o.S2, o.Regs)
		if dst == regs[a] || dst == regs[b] {
			alias++
		}
		var got *ristretto.Element
		var want *ref.Pt
		switch o.Op {
		case "add":
			want = ref.Add(refs[a], refs[b])
			got = dst.Add(regs[a], regs[b])
		case "sub":
			want = ref.Sub(refs[a], refs[b])
			got = dst.Subtract(regs[a], regs[b])
		case "neg":
			want = ref.Neg(refs[a])
			got = dst.Negate(regs[a])
		case "set":
			want = refs[a]
			got = dst.Set(regs[a])
		case "base":
			want = mul(s, ref.B)
			got = dst.ScalarBaseMult(ls)
		case "mult":
			want = mul(s, refs[a])
			got = dst.ScalarMult(ls, regs[a])
		case "double":
			want = ref.Add(mul(s, refs[a]), mul(s2, ref.B))
			got = dst.VarTimeDoubleScalarBaseMult(ls, regs[a], ls2)
		case "multi", "varmulti":
			want = ref.Identity()
			var ps []*ristretto.Element
			var ss []*ristretto.Scalar
			terms := map[[2]int]*ref.Pt{} // a long product repeats registers and scalars
			if len(o.Regs) > 20 {
				labels["long-multi"] = true
			}
			for i, x := range o.Regs {
				x %= k
				si := o.Ss[i%len(o.Ss)].big()
				at := [2]int{x, i % len(o.Ss)}
				if terms[at] == nil {
					terms[at] = mul(si, refs[x])
				}
				want = ref.Add(want, terms[at])
				ps = append(ps, regs[x])
				ss = append(ss, sim.Scalar(si))
				if dst == regs[x] {
					alias++
				}
			}
			keep := append([]*ristretto.Element{}, ps...)
			if o.Op == "multi" {
				got = dst.MultiScalarMult(ss, ps)
			} else {
				got = dst.VarTimeMultiScalarMult(ss, ps)
			}
			for i := range ps {
				if ps[i] != keep[i] || !bytes.Equal(ss[i].Bytes(), ref.ScalarBytes(o.Ss[i%len(o.Ss)].big())) {
					return lib.Fail("%s: changed an argument slice or scalar", where)
				}
			}
		}
		labels[o.Op] = true
		if got != dst {
			return lib.Fail("%s: does not return its receiver", where)
		}
		if !bytes.Equal(ls.Bytes(), ref.ScalarBytes(s)) || !bytes.Equal(ls2.Bytes(), ref.ScalarBytes(s2)) {
			return lib.Fail("%s: changed a scalar argument", where)
		}
		wb := ref.Encode(want)
		if gb := dst.Bytes(); !bytes.Equal(gb, wb) {
			return lib.Fail("%s: result encodes to %x, the specification gives %x", where, gb, wb)
		}
		regs[d], refs[d], enc[d] = dst, want, wb
		for i := range regs {
			if i != d && !bytes.Equal(regs[i].Bytes(), enc[i]) {
				return lib.Fail("%s: register %d changed", where, i)
			}
			if eq := regs[i].Equal(dst); (eq == 1) != bytes.Equal(enc[i], wb) || (eq != 0 && eq != 1) {
				return lib.Fail("%s: Equal(r%d, result) is %d; encodings %x and %x", where, i, eq, enc[i], wb)
			}
			if eq := dst.Equal(regs[i]); (eq == 1) != bytes.Equal(enc[i], wb) {
				return lib.Fail("%s: Equal(result, r%d) is %d; encodings %x and %x", where, i, eq, wb, enc[i])
			}
		}
		if eb := dst.BytesEd25519(); !bytes.Equal(eb, ref.EncodeEd(want)) {
			return lib.Fail("%s: Ed25519 form of the result is %x, want %x", where, eb, ref.EncodeEd(want))
		}
	}
	res := lib.Result{NonTrivial: len(c.Ops) >= 2}
	for l := range labels {
		res.Labels = append(res.Labels, l)
	}
	if alias > 0 {
		res.Labels = append(res.Labels, "aliased")
	}
	return res
}

func TestC14Programs(t *testing.T) {
	lib.Run(t, "C14.programs", 1, func(rt *rapid.T) progCase {
		var c progCase
		n := rapid.IntRange(1, 5).Draw(rt, "regs")
		for i := 0; i < n; i++ {
			c.Init = append(c.Init, genSource(rt))
		}
		m := rapid.IntRange(1, 8).Draw(rt, "ops")
		for i := 0; i < m; i++ {
			o := op{Op: rapid.SampledFrom([]string{"add", "sub", "neg", "set", "base", "mult", "double", "multi", "varmulti"}).Draw(rt, "op"),
				Dst: rapid.IntRange(-1, 4).Draw(rt, "dst"), A: rapid.IntRange(0, 4).Draw(rt, "a"), B: rapid.IntRange(0, 4).Draw(rt, "b"), S: genScalar(rt), S2: genScalar(rt)}
			if o.Op == "multi" || o.Op == "varmulti" {
				o.Regs = rapid.SliceOfN(rapid.IntRange(0, 4), 0, 6).Draw(rt, "multi")
				if rapid.IntRange(0, 7).Draw(rt, "long") == 0 && len(o.Regs) > 0 {
					for l := rapid.IntRange(7, 200).Draw(rt, "terms"); len(o.Regs) < l; {
						o.Regs = append(o.Regs, o.Regs[len(o.Regs)-1]+1+o.Regs[len(o.Regs)/2])
					}
				}
				o.Ss = append(o.Ss, genScalar(rt))
				for j := rapid.IntRange(0, 4).Draw(rt, "more"); j > 0; j-- {
					o.Ss = append(o.Ss, genScalar(rt))
				}
			}
			c.Ops = append(c.Ops, o)
		}
		c.Slow = rapid.IntRange(0, 7).Draw(rt, "slow") == 0
		return c
	}, checkProg)
}

type uniCase struct{ B []byte }

func checkUni(c *uniCase) lib.Result {
	var e ristretto.Element
	got, err := e.SetUniformBytes(append([]byte{}, c.B...))
	if len(c.B) != 64 {
		if err == nil {
			return lib.Fail("SetUniformBytes accepts %d bytes", len(c.B))
		}
		return lib.Result{NonTrivial: true, Labels: []string{"wrong-length"}}
	}
	if err != nil {
		return lib.Fail("SetUniformBytes: %v", err)
	}
	want := ref.FromUniform(c.B)
	if got != &e || !bytes.Equal(e.Bytes(), ref.Encode(want)) {
		return lib.Fail("hash to group of %x gives %x, the specification %x", c.B, e.Bytes(), ref.Encode(want))
	}
	if !bytes.Equal(e.BytesEd25519(), ref.EncodeEd(want)) {
		return lib.Fail("Ed25519 form of the hash of %x is %x, want %x", c.B, e.BytesEd25519(), ref.EncodeEd(want))
	}
	return lib.Result{NonTrivial: true, Labels: []string{"64"}}
}

func TestC14Uniform(t *testing.T) {
	lib.Run(t, "C14.uniform", 1, func(rt *rapid.T) uniCase {
		b := genUniform(rt)
		switch rapid.IntRange(0, 19).Draw(rt, "len") {
		case 18:
			b = b[:rapid.IntRange(0, 63).Draw(rt, "n")]
		case 19:
			b = append(b, rapid.SliceOfN(rapid.Byte(), 1, 64).Draw(rt, "more")...)
		}
		return uniCase{b}
	}, checkUni)
}

// ---- C15 ----

type encCase struct {
	B    []byte
	Prev source // what the receiver held
}

func genEncoding(rt *rapid.T) []byte {
	valid := func() []byte {
		_, p, err := genSource(rt).make()
		if err != nil {
			p = ref.B
		}
		return ref.Encode(p)
	}
	var b []byte
	switch rapid.IntRange(0, 11).Draw(rt, "enc") {
	case 0: // s + p
		b = ref.FieldBytes(new(big.Int).Add(ref.P, big.NewInt(int64(rapid.IntRange(0, 18).Draw(rt, "s")))))
	case 1: // -s
		b = ref.FieldBytes(new(big.Int).Mod(new(big.Int).Sub(ref.P, ref.Int(valid())), ref.P))
	case 2:
		b = valid()
		b[31] |= 0x80
	case 3:
		b = ref.FieldBytes(big.NewInt(int64(rapid.IntRange(0, 2000).Draw(rt, "s"))))
	case 4:
		b = ref.FieldBytes(new(big.Int).Sub(ref.P, big.NewInt(int64(rapid.IntRange(1, 2000).Draw(rt, "s")))))
	case 5: // even (non-negative) random string below p: half of these decode
		b = rapid.SliceOfN(rapid.Byte(), 32, 32).Draw(rt, "raw")
		b[0] &^= 1
		b[31] &= 0x7f
	case 6:
		b = rapid.SliceOfN(rapid.Byte(), 32, 32).Draw(rt, "raw")
	case 7:
		b = ref.EncodeEd(ref.BaseMul(genScalar(rt).big()))
	case 8: // all ones but for a few
		b = bytes.Repeat([]byte{0xff}, 32)
		b[0] = rapid.Byte().Draw(rt, "b0")
		b[31] = rapid.SampledFrom([]byte{0x7f, 0xff}).Draw(rt, "b31")
	default:
		b = valid()
		if rapid.IntRange(0, 3).Draw(rt, "flip") == 0 {
			b[rapid.IntRange(0, 31).Draw(rt, "at")] ^= 1 << uint(rapid.IntRange(0, 7).Draw(rt, "bit"))
		}
	}
	switch rapid.IntRange(0, 24).Draw(rt, "len") {
	case 23:
		b = b[:rapid.IntRange(0, 31).Draw(rt, "n")]
	case 24:
		b = append(b, rapid.SliceOfN(rapid.Byte(), 1, 34).Draw(rt, "more")...)
	}
	return b
}

var generatorEnc = ref.Encode(ref.BaseMul(big.NewInt(1)))

// textBuffer returns the text in a buffer from which the generator has been decoded.
func textBuffer(text []byte) []byte {
	buf := append(make([]byte, 0, len(text)+64), base64.StdEncoding.EncodeToString(generatorEnc)...)
	var e ristretto.Element
	e.UnmarshalText(buf)
	return append(buf[:0], text...)
}

func checkEnc(c *encCase) lib.Result {
	e, prev, err := c.Prev.make()
	if err != nil {
		return lib.Result{Err: err}
	}
	f := ristretto.NewIdentityElement().Set(e)
	want, ok := ref.Decode(c.B)
	// the buffer held the encoding of another element before
	in := append(make([]byte, 0, len(c.B)+64), generatorEnc...)
	if got, err := new(ristretto.Element).SetCanonicalBytes(in); err != nil || !bytes.Equal(got.Bytes(), generatorEnc) {
		return lib.Fail("the generator does not decode: %v", err)
	}
	in = append(in[:0], c.B...)
	got, err := e.SetCanonicalBytes(in)
	if !bytes.Equal(in, c.B) {
		return lib.Fail("decoding changed its input")
	}
	if (err == nil) != ok || (err == nil) != (got != nil) {
		return lib.Fail("SetCanonicalBytes(%x): error %v, result %v; canonical=%v", c.B, err, got != nil, ok)
	}
	text := base64.StdEncoding.EncodeToString(c.B)
	terr := f.UnmarshalText(textBuffer([]byte(text)))
	if (terr == nil) != ok {
		return lib.Fail("UnmarshalText(%s): error %v; canonical=%v", text, terr, ok)
	}
	state := prev
	if ok {
		if got != e {
			return lib.Fail("SetCanonicalBytes does not return its receiver")
		}
		state = want
		if !bytes.Equal(e.Bytes(), c.B) {
			return lib.Fail("%x decodes to an element that encodes to %x", c.B, e.Bytes())
		}
		if e.String() != text {
			return lib.Fail("String gives %s, want %s", e.String(), text)
		}
		if tx, err := e.MarshalText(); err != nil || string(tx) != text {
			return lib.Fail("MarshalText gives %s (%v), want %s", tx, err, text)
		}
	}
	for what, x := range map[string]*ristretto.Element{"SetCanonicalBytes": e, "UnmarshalText": f} {
		// what was handed out is the caller's own
		tx, _ := x.MarshalText()
		for _, own := range [][]byte{x.Bytes(), x.BytesEd25519(), tx} {
			for i := range own {
				own[i] ^= 0x55
			}
		}
		if !bytes.Equal(x.Bytes(), ref.Encode(state)) {
			return lib.Fail("after %s(%x) (accepted=%v) the receiver encodes to %x, want %x", what, c.B, ok, x.Bytes(), ref.Encode(state))
		}
		if !bytes.Equal(x.BytesEd25519(), ref.EncodeEd(state)) {
			return lib.Fail("after %s(%x) (accepted=%v) the receiver's Ed25519 form is %x, want %x", what, c.B, ok, x.BytesEd25519(), ref.EncodeEd(state))
		}
	}
	return lib.Result{NonTrivial: true, Labels: []string{fmt.Sprintf("accepted=%v", ok), fmt.Sprintf("len32=%v", len(c.B) == 32)}}
}

func TestC15Encodings(t *testing.T) {
	lib.Run(t, "C15.encodings", 2, func(rt *rapid.T) encCase { return encCase{genEncoding(rt), genSource(rt)} }, checkEnc)
}

type textCase struct {
	Text []byte
	Prev source
}

func checkText(c *textCase) lib.Result {
	e, prev, err := c.Prev.make()
	if err != nil {
		return lib.Result{Err: err}
	}
	raw, berr := base64.StdEncoding.DecodeString(string(c.Text))
	ok := false
	if berr == nil {
		_, ok = ref.Decode(raw)
	}
	err = e.UnmarshalText(textBuffer(c.Text))
	if err == nil && !ok {
		return lib.Fail("text %q accepted", c.Text)
	}
	if err != nil {
		if !bytes.Equal(e.Bytes(), ref.Encode(prev)) {
			return lib.Fail("rejected text %q changed the receiver", c.Text)
		}
		// base64 variants (line breaks) may be refused; the canonical text may not
		if ok && base64.StdEncoding.EncodeToString(raw) == string(c.Text) {
			return lib.Fail("canonical text %q rejected: %v", c.Text, err)
		}
		return lib.Result{NonTrivial: true, Labels: []string{"rejected"}}
	}
	if !bytes.Equal(e.Bytes(), raw) {
		return lib.Fail("text %q decodes to %x", c.Text, e.Bytes())
	}
	return lib.Result{NonTrivial: true, Labels: []string{"accepted"}}
}

func TestC15Text(t *testing.T) {
	lib.Run(t, "C15.text", 0.5, func(rt *rapid.T) textCase {
		b := genEncoding(rt)
		var s string
		switch rapid.IntRange(0, 5).Draw(rt, "form") {
		case 0:
			s = base64.URLEncoding.EncodeToString(b)
		case 1:
			s = base64.RawStdEncoding.EncodeToString(b)
		case 2:
			s = fmt.Sprintf("%x", b)
		default:
			s = base64.StdEncoding.EncodeToString(b)
		}
		switch rapid.IntRange(0, 8).Draw(rt, "ext") { // the text with more around it, or less
		case 0:
			s += rapid.SampledFrom([]string{"=", "!", "A", "AA==", "AAAA", "\x00", " ", "\n", "====", "}", "\xff", s}).Draw(rt, "tail")
		case 1:
			s = rapid.SampledFrom([]string{"=", "!", "AAAA", "\x00", " ", "0x", "\""}).Draw(rt, "head") + s
		case 2:
			s = s[:rapid.IntRange(0, len(s)).Draw(rt, "cut")]
		}
		t := []byte(s)
		if len(t) > 0 && rapid.IntRange(0, 3).Draw(rt, "mut") == 0 {
			t[rapid.IntRange(0, len(t)-1).Draw(rt, "at")] = rapid.Byte().Draw(rt, "v")
		}
		return textCase{t, genSource(rt)}
	}, checkText)
}

// Many representations of one element.
type repCase struct {
	Src    source
	Routes []int
	Other  source
}

func checkRep(c *repCase) lib.Result {
	e, p, err := c.Src.make()
	if err != nil {
		return lib.Result{Err: err}
	}
	o, q, err := c.Other.make()
	if err != nil {
		return lib.Result{Err: err}
	}
	wb, we := ref.Encode(p), ref.EncodeEd(p)
	x := e
	distinct := false
	for i, r := range c.Routes {
		y, err := sim.Route(x, r)
		if err != nil {
			return lib.Fail("route %v: %v", c.Routes[:i+1], err)
		}
		if !reflect.DeepEqual(y, e) {
			distinct = true
		}
		if e.Equal(y) != 1 || y.Equal(e) != 1 {
			return lib.Fail("route %v gives an element that is not Equal", c.Routes[:i+1])
		}
		if !bytes.Equal(y.Bytes(), wb) {
			return lib.Fail("equal elements encode to %x and %x (route %v)", wb, y.Bytes(), c.Routes[:i+1])
		}
		if !bytes.Equal(y.BytesEd25519(), we) {
			return lib.Fail("equal elements have Ed25519 forms %x and %x (route %v)", we, y.BytesEd25519(), c.Routes[:i+1])
		}
		if y.String() != base64.StdEncoding.EncodeToString(wb) {
			return lib.Fail("equal elements have different texts (route %v)", c.Routes[:i+1])
		}
		same := bytes.Equal(ref.Encode(q), wb)
		if (y.Equal(o) == 1) != same || bytes.Equal(y.Bytes(), o.Bytes()) != same || bytes.Equal(y.BytesEd25519(), o.BytesEd25519()) != same {
			return lib.Fail("two elements (same=%v): Equal=%d, encodings equal=%v, Ed25519 forms equal=%v", same, y.Equal(o), bytes.Equal(y.Bytes(), o.Bytes()), bytes.Equal(y.BytesEd25519(), o.BytesEd25519()))
		}
		// returned slices are the caller's
		b1 := y.Bytes()
		b1[0] ^= 1
		b2 := y.BytesEd25519()
		b2[0] ^= 1
		if !bytes.Equal(y.Bytes(), wb) {
			return lib.Fail("modifying a returned encoding changes the element")
		}
		x = y
	}
	return lib.Result{NonTrivial: distinct, Labels: []string{"source=" + c.Src.Kind, fmt.Sprintf("other-representation=%v", distinct)}}
}

func TestC15Representations(t *testing.T) {
	lib.Run(t, "C15.representations", 0.7, func(rt *rapid.T) repCase {
		c := repCase{Src: genSource(rt), Routes: rapid.SliceOfN(rapid.IntRange(0, 7), 1, 5).Draw(rt, "routes")}
		c.Other = c.Src
		if rapid.Bool().Draw(rt, "other") {
			c.Other = genSource(rt)
		}
		return c
	}, checkRep)
}

// ---- C16 ----

type verCase struct {
	A, R     scalar // secrets of key and nonce
	ARoutes  []int  // representations
	RRoutes  []int
	Msg      []byte
	Msg2     []byte
	Tamper   string
	Delta    scalar
	Uniform  []byte // for arbitrary points
	KeyIsPub bool
}

func checkVer(c *verCase) lib.Result {
	a, r := c.A.big(), c.R.big()
	A, R := ref.BaseMul(a), ref.BaseMul(r)
	eA, eR := sim.Elem(A), sim.Elem(R)
	var err error
	for _, x := range c.ARoutes {
		if eA, err = sim.Route(eA, x); err != nil {
			return lib.Fail("%v", err)
		}
	}
	for _, x := range c.RRoutes {
		if eR, err = sim.Route(eR, x); err != nil {
			return lib.Fail("%v", err)
		}
	}
	s := ref.AddQ(r, ref.MulQ(ref.Challenge(R, A, c.Msg), a))
	msg := c.Msg
	want := true // what an honest signature must give
	known := true
	switch c.Tamper {
	case "none":
	case "s+":
		s = ref.AddQ(s, c.Delta.big())
		want = c.Delta.big().Sign() == 0
	case "msg":
		msg = c.Msg2
		known = false
	case "R":
		var e ristretto.Element
		if _, err := e.SetUniformBytes(c.Uniform); err != nil {
			return lib.Fail("%v", err)
		}
		eR = &e
		known = false
	case "A":
		var e ristretto.Element
		if _, err := e.SetUniformBytes(c.Uniform); err != nil {
			return lib.Fail("%v", err)
		}
		eA = &e
		known = false
	case "A+R": // a valid signature under a key with another representation: A' = A + H - H
		var h ristretto.Element
		if _, err := h.SetUniformBytes(c.Uniform); err != nil {
			return lib.Fail("%v", err)
		}
		h2 := sim.Elem(ref.FromUniform(c.Uniform))
		eA = new(ristretto.Element).Add(eA, &h)
		eA.Subtract(eA, h2)
		eR = new(ristretto.Element).Subtract(eR, &h)
		eR.Add(eR, h2)
	case "-R":
		eR = new(ristretto.Element).Negate(eR)
		known = false
	case "-A":
		eA = new(ristretto.Element).Negate(eA)
		known = false
	case "s=":
		s = c.Delta.big()
		known = false
	case "other-equation": // made with the key, by other equations than Ed25519's
		re, ae := ref.EncodeEd(R), ref.EncodeEd(A)
		pre := sha512.Sum512(msg)
		forms := []struct {
			name string
			ch   *big.Int
		}{
			{"ristretto points", ref.HashQ(ref.Encode(R), ref.Encode(A), msg)},
			{"ristretto nonce", ref.HashQ(ref.Encode(R), ae, msg)},
			{"ristretto key", ref.HashQ(re, ref.Encode(A), msg)},
			{"prehashed", ref.HashQ(re, ae, pre[:])},
			{"domain", ref.HashQ([]byte("SigEd25519 no Ed25519 collisions\x00\x00"), re, ae, msg)},
			{"prehashed domain", ref.HashQ([]byte("SigEd25519 no Ed25519 collisions\x01\x00"), re, ae, pre[:])},
			{"key first", ref.HashQ(ae, re, msg)},
			{"message first", ref.HashQ(msg, re, ae)},
			{"no key", ref.HashQ(re, msg)},
			{"negated response", ref.Challenge(R, A, msg)},
			{"negated challenge", ref.SubQ(new(big.Int), ref.Challenge(R, A, msg))},
			{"negated nonce", ref.Challenge(ref.Neg(R), A, msg)},
			{"negated key", ref.Challenge(R, ref.Neg(A), msg)},
			{"other domain", ref.HashQ([]byte("FROST-SHA512"), re, ae, msg)},
			{"cut challenge", new(big.Int).And(ref.Challenge(R, A, msg), new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 128), big.NewInt(1)))},
		}
		f := forms[int(c.Uniform[0])%len(forms)]
		s = ref.AddQ(r, ref.MulQ(f.ch, a))
		switch f.name {
		case "negated response":
			s = ref.SubQ(new(big.Int), s)
		case "negated nonce":
			eR = new(ristretto.Element).Negate(eR)
		case "negated key":
			eA = new(ristretto.Element).Negate(eA)
		}
		known = false
	}
	key := eddsa.NewPublicKeyFromPoint(eA)
	sig := &eddsa.Signature{}
	sig.R.Set(eR)
	sig.S.Set(sim.Scalar(s))
	kb, sb := key.ToEd25519(), sig.ToEd25519()
	if !bytes.Equal(kb, ref.EncodeEd(sim.Pt(eA))) {
		return lib.Fail("converted key is %x, want %x", []byte(kb), ref.EncodeEd(sim.Pt(eA)))
	}
	if !bytes.Equal(sb, append(ref.EncodeEd(sim.Pt(eR)), ref.ScalarBytes(s)...)) {
		return lib.Fail("converted signature is %x", sb)
	}
	// what was handed out is the caller's own
	for _, own := range [][]byte{key.ToEd25519(), sig.ToEd25519()} {
		for i := range own {
			own[i] ^= 0x55
		}
	}
	m := append(make([]byte, 0, len(msg)+4), msg...)
	got := key.Verify(m, sig)
	std := ed25519.Verify(kb, msg, sb)
	if !bytes.Equal(m, msg) || !bytes.Equal(key.ToEd25519(), kb) || !bytes.Equal(sig.ToEd25519(), sb) {
		return lib.Fail("Verify changed an argument")
	}
	if got != std {
		return lib.Fail("Verify says %v, crypto/ed25519 says %v (tamper=%s)", got, std, c.Tamper)
	}
	if known && got != want {
		return lib.Fail("Verify says %v for a signature that is valid=%v (tamper=%s)", got, want, c.Tamper)
	}
	ch := eddsa.ComputeChallenge(eR, key, msg)
	if !bytes.Equal(ch.Bytes(), ref.ScalarBytes(ref.Challenge(sim.Pt(eR), sim.Pt(eA), msg))) {
		return lib.Fail("ComputeChallenge is %x", ch.Bytes())
	}
	if !key.Equal(eddsa.NewPublicKeyFromPoint(sim.Elem(sim.Pt(eA)))) || key.Equal(eddsa.NewPublicKeyFromPoint(sim.Elem(ref.Add(sim.Pt(eA), ref.B)))) {
		return lib.Fail("PublicKey.Equal is wrong")
	}
	// the same variables and buffer, after they have held a valid signature
	key2 := eddsa.NewPublicKeyFromPoint(sim.Elem(A))
	var sig2 eddsa.Signature
	sig2.R.Set(sim.Elem(R))
	sig2.S.Set(sim.Scalar(ref.AddQ(r, ref.MulQ(ref.Challenge(R, A, c.Msg), a))))
	buf := append(make([]byte, 0, len(c.Msg)+len(msg)), c.Msg...)
	if !key2.Verify(buf, &sig2) {
		return lib.Fail("a valid signature is rejected")
	}
	*key2 = *key
	sig2.R.Set(eR)
	sig2.S.Set(sim.Scalar(s))
	buf = append(buf[:0], msg...)
	if got2 := key2.Verify(buf, &sig2); got2 != got {
		return lib.Fail("Verify says %v for variables that held a valid signature before, and %v for fresh ones (tamper=%s)", got2, got, c.Tamper)
	}
	if ch2 := eddsa.ComputeChallenge(&sig2.R, key2, buf); ch2.Equal(ch) != 1 {
		return lib.Fail("ComputeChallenge for variables that held a valid signature before is %x, for fresh ones %x", ch2.Bytes(), ch.Bytes())
	}
	return lib.Result{NonTrivial: true, Labels: []string{"tamper=" + c.Tamper, fmt.Sprintf("accepted=%v", got)}}
}

func TestC16Verify(t *testing.T) {
	lib.Run(t, "C16.verify", 1.5, func(rt *rapid.T) verCase {
		c := verCase{A: genScalar(rt), R: genScalar(rt), ARoutes: rapid.SliceOfN(rapid.IntRange(0, 7), 0, 2).Draw(rt, "ar"), RRoutes: rapid.SliceOfN(rapid.IntRange(0, 7), 0, 2).Draw(rt, "rr"),
			Msg: sim.GenMsg(rt), Tamper: rapid.SampledFrom([]string{"none", "none", "other-equation", "other-equation", "other-equation", "A+R", "s+", "msg", "R", "A", "-R", "-A", "s="}).Draw(rt, "tamper"), Delta: genScalar(rt), Uniform: genUniform(rt)}
		c.Msg2 = append([]byte{}, c.Msg...)
		switch rapid.IntRange(0, 3).Draw(rt, "msg2") {
		case 0:
			c.Msg2 = append(c.Msg2, 0)
		case 1:
			if len(c.Msg2) > 0 {
				c.Msg2 = c.Msg2[:len(c.Msg2)-1]
			}
		case 2:
			if len(c.Msg2) > 0 {
				c.Msg2[rapid.IntRange(0, len(c.Msg2)-1).Draw(rt, "at")] ^= 1 << uint(rapid.IntRange(0, 7).Draw(rt, "bit"))
			}
		default:
			c.Msg2 = sim.GenMsg(rt)
		}
		return c
	}, checkVer)
}

// Keys and signatures made by the standard library.
type stdCase struct {
	Seed []byte
	Msg  []byte
	Flip int // bit of the signature scalar or of the message, -1 none
}

func checkStd(c *stdCase) lib.Result {
	priv := ed25519.NewKeyFromSeed(c.Seed)
	pub := priv.Public().(ed25519.PublicKey)
	h := sha512.Sum512(c.Seed)
	h[0] &= 248
	h[31] &= 127
	h[31] |= 64
	a := ref.AddQ(ref.Int(h[:32]), big.NewInt(0))
	var e ristretto.Element
	e.ScalarBaseMult(sim.Scalar(a))
	key := eddsa.NewPublicKeyFromPoint(&e)
	if !bytes.Equal(key.ToEd25519(), pub) {
		return lib.Fail("the key for this secret converts to %x, the standard key is %x", []byte(key.ToEd25519()), []byte(pub))
	}
	std := ed25519.Sign(priv, c.Msg)
	// the nonce, as a group element
	prefix := h[32:]
	r := ref.HashQ(prefix, c.Msg)
	R := ref.BaseMul(r)
	if !bytes.Equal(ref.EncodeEd(R), std[:32]) {
		panic("harness: nonce of the standard signature")
	}
	sig := &eddsa.Signature{}
	sig.R.Set(sim.Elem(R))
	sig.S.Set(sim.Scalar(ref.Int(std[32:])))
	if !bytes.Equal(sig.ToEd25519(), std) {
		return lib.Fail("a standard signature %x converts to %x", std, sig.ToEd25519())
	}
	if !key.Verify(c.Msg, sig) {
		return lib.Fail("a standard signature is rejected")
	}
	if c.Flip >= 0 {
		if c.Flip < 252 {
			b := append([]byte{}, std[32:]...)
			b[c.Flip/8] ^= 1 << uint(c.Flip%8)
			if k, ok := ref.ParseScalar(b); ok {
				sig.S.Set(sim.Scalar(k))
				if key.Verify(c.Msg, sig) {
					return lib.Fail("signature with bit %d of S flipped is accepted", c.Flip)
				}
			}
		} else if len(c.Msg) > 0 {
			m := append([]byte{}, c.Msg...)
			i := c.Flip % (8 * len(m))
			m[i/8] ^= 1 << uint(i%8)
			if key.Verify(m, sig) {
				return lib.Fail("signature accepted for a message with bit %d flipped", i)
			}
		}
	}
	return lib.Result{NonTrivial: true, Labels: []string{fmt.Sprintf("flip=%v", c.Flip >= 0)}}
}

func TestC16Standard(t *testing.T) {
	lib.Run(t, "C16.standard", 0.7, func(rt *rapid.T) stdCase {
		return stdCase{Seed: rapid.SliceOfN(rapid.Byte(), 32, 32).Draw(rt, "seed"), Msg: sim.GenMsg(rt), Flip: rapid.IntRange(-1, 9000).Draw(rt, "flip")}
	}, checkStd)
}

// Long messages: one standard signature of a message of up to some megabytes, also judged for the
// message with one byte changed, cut off, added or doubled.
type longCase struct {
	Seed []byte
	N    int
	Fill byte
	At   int
	Bit  int
}

func checkLong(c *longCase) lib.Result {
	msg := make([]byte, c.N, c.N+64)
	for i := range msg {
		msg[i] = c.Fill + byte(i) + byte(i>>8)
	}
	priv := ed25519.NewKeyFromSeed(c.Seed)
	h := sha512.Sum512(c.Seed)
	h[0] &= 248
	h[31] &= 127
	h[31] |= 64
	var e ristretto.Element
	e.ScalarBaseMult(sim.Scalar(ref.AddQ(ref.Int(h[:32]), big.NewInt(0))))
	key := eddsa.NewPublicKeyFromPoint(&e)
	std := ed25519.Sign(priv, msg)
	sig := &eddsa.Signature{}
	sig.R.Set(sim.Elem(ref.BaseMul(ref.HashQ(h[32:], msg))))
	sig.S.Set(sim.Scalar(ref.Int(std[32:])))
	if !bytes.Equal(sig.ToEd25519(), std) {
		return lib.Fail("a standard signature %x converts to %x", std, sig.ToEd25519())
	}
	if !key.Verify(msg, sig) {
		return lib.Fail("a standard signature of a message of %d bytes is rejected", c.N)
	}
	if ch := eddsa.ComputeChallenge(&sig.R, key, msg); !bytes.Equal(ch.Bytes(), ref.ScalarBytes(ref.Challenge(sim.Pt(&sig.R), sim.Pt(&e), msg))) {
		return lib.Fail("the challenge of a message of %d bytes is %x", c.N, ch.Bytes())
	}
	at := c.At % c.N
	for name, change := range map[string]func() []byte{
		"one bit flipped":         func() []byte { msg[at] ^= 1 << uint(c.Bit); return msg },
		"the last byte left out":  func() []byte { return msg[:c.N-1] },
		"a byte added":            func() []byte { return append(msg, 0) },
		"another last byte":       func() []byte { msg[c.N-1]++; return msg },
		"all from there left out": func() []byte { return msg[:at] },
	} {
		save, last := msg[at], msg[c.N-1]
		if key.Verify(change(), sig) {
			return lib.Fail("a signature of a message of %d bytes is accepted for the message with %s (position %d)", c.N, name, at)
		}
		msg[at], msg[c.N-1] = save, last
	}
	return lib.Result{NonTrivial: true, Labels: []string{"long message"}}
}

func TestC16Long(t *testing.T) {
	lib.Run(t, "C16.long", 0.004, func(rt *rapid.T) longCase {
		hi := 22
		if lib.Thorough() {
			hi = 25
		}
		c := longCase{Seed: rapid.SliceOfN(rapid.Byte(), 32, 32).Draw(rt, "seed"), Fill: rapid.Byte().Draw(rt, "fill"), Bit: rapid.IntRange(0, 7).Draw(rt, "bit")}
		c.N = 1<<uint(rapid.IntRange(13, hi).Draw(rt, "log")) + rapid.SampledFrom([]int{-1, 0, 1, 1000}).Draw(rt, "off")
		c.At = rapid.OneOf(rapid.IntRange(0, c.N-1), rapid.IntRange(c.N-10, c.N-1)).Draw(rt, "at")
		return c
	}, checkLong)
}
