// Package equal checks the equality methods of the library's values against the components the
// values were built from.
package equal

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/big"
	"reflect"
	"testing"

	"github.com/taurusgroup/frost-ed25519/pkg/eddsa"
	"github.com/taurusgroup/frost-ed25519/pkg/frost/party"
	"github.com/taurusgroup/frost-ed25519/pkg/internal/polynomial"
	"github.com/taurusgroup/frost-ed25519/pkg/internal/zk"
	"github.com/taurusgroup/frost-ed25519/pkg/messages"
	"github.com/taurusgroup/frost-ed25519/pkg/ristretto"
	"github.com/taurusgroup/frost-ed25519/pkg/verif/lib"
	"github.com/taurusgroup/frost-ed25519/pkg/verif/ref"
	"github.com/taurusgroup/frost-ed25519/pkg/verif/sim"
	"pgregory.net/rapid"
)

const (
	kElement = iota
	kIDs
	kPublicKey
	kShare
	kSignature
	kSchnorr
	kExponent
	kHeader
	kKG1
	kKG2
	kS1
	kS2
	kPublic
	kinds
)

// one change of the second value's components
type change struct {
	At   int // which component
	How  int
	With int // another component, or a bit
}

type equalCase struct {
	Kind   int
	Other  int   // the second value is of this kind (messages and bodies only; else equal to Kind)
	Whole  bool  // messages: compare whole messages, not bodies
	N      int   // components of a list
	Vals   []int // components of the first value, from a table
	Seed   uint64
	Ch     []change
	Len    int // components more (or fewer) in the second value's list
	Routes []int
	Via    int // encodings the second value goes through
}

func gen(rt *rapid.T) equalCase {
	c := equalCase{
		Kind: rapid.IntRange(0, kinds-1).Draw(rt, "kind"),
		N:    rapid.IntRange(1, 6).Draw(rt, "n"),
		Vals: rapid.SliceOfN(rapid.IntRange(0, 11), 1, 6).Draw(rt, "vals"),
		Seed: uint64(rapid.Uint32().Draw(rt, "seed")),
		Via:  rapid.IntRange(0, 2).Draw(rt, "via"),
	}
	if rapid.IntRange(0, 19).Draw(rt, "long") == 0 {
		c.N = rapid.IntRange(7, 40).Draw(rt, "n2")
	}
	if rapid.IntRange(0, 7).Draw(rt, "samesize") == 0 {
		c.Len = rapid.SampledFrom([]int{-3, -1, 1, 2}).Draw(rt, "len")
	}
	c.Other = c.Kind
	if c.Kind >= kHeader && c.Kind <= kS2 {
		c.Whole = rapid.Bool().Draw(rt, "whole")
		if rapid.IntRange(0, 5).Draw(rt, "cross") == 0 {
			c.Other = rapid.IntRange(kHeader, kS2).Draw(rt, "other")
		}
	}
	k := rapid.SampledFrom([]int{0, 0, 0, 1, 1, 1, 1, 1, 2, 2, 3}).Draw(rt, "changes")
	for i := 0; i < k; i++ {
		c.Ch = append(c.Ch, change{
			At:   rapid.IntRange(0, c.N+4).Draw(rt, "at"),
			How:  rapid.IntRange(0, 9).Draw(rt, "how"),
			With: rapid.IntRange(0, 255).Draw(rt, "with"),
		})
	}
	if rapid.Bool().Draw(rt, "routed") {
		c.Routes = rapid.SliceOfN(rapid.IntRange(0, 7), 1, 4).Draw(rt, "routes")
	}
	return c
}

// component domains
const (
	dScalar = iota
	dElement
	dID  // any 16 bit value
	dPos // 1 to 65535
	dThr // a threshold
)

func domains(kind, n int) []int {
	rep := func(d int, pre ...int) []int {
		for i := 0; i < n; i++ {
			pre = append(pre, d)
		}
		return pre
	}
	switch kind {
	case kElement, kPublicKey:
		return []int{dElement}
	case kIDs:
		return rep(dID)
	case kShare:
		return []int{dPos, dScalar}
	case kSignature:
		return []int{dElement, dScalar}
	case kSchnorr:
		return []int{dScalar, dScalar}
	case kExponent:
		return rep(dElement)
	case kHeader:
		return []int{dPos, dID, dThr}
	case kKG1:
		return rep(dElement, dPos, dID, dScalar, dScalar)
	case kKG2:
		return []int{dPos, dID, dScalar}
	case kS1:
		return []int{dPos, dID, dElement, dElement}
	case kS2:
		return []int{dPos, dID, dScalar}
	}
	// a public key set: threshold, then an ID and a share (by its discrete logarithm) per party
	out := []int{dThr}
	for i := 0; i < n; i++ {
		out = append(out, dPos, dElement)
	}
	return out
}

var one = big.NewInt(1)

func clamp(d int, v *big.Int) *big.Int {
	switch d {
	case dScalar, dElement:
		return new(big.Int).Mod(v, ref.Q)
	case dID:
		return new(big.Int).Mod(v, big.NewInt(65536))
	case dThr:
		return new(big.Int).Mod(v, big.NewInt(4))
	}
	return new(big.Int).Add(one, new(big.Int).Mod(v, big.NewInt(65535)))
}

func (c *equalCase) component(i, d int) *big.Int {
	v := new(big.Int)
	switch k := c.Vals[i%len(c.Vals)]; k {
	case 0:
	case 1:
		v.SetInt64(1)
	case 2:
		v.SetInt64(-1)
	case 3:
		v.SetInt64(int64(i))
	case 4:
		v.SetInt64(256)
	case 5:
		v.SetInt64(255)
	default:
		v = ref.Expand(c.Seed, fmt.Sprint("v", i, k), 64)
	}
	return clamp(d, v)
}

func applyChange(ch change, ds []int, v []*big.Int) {
	if len(v) == 0 {
		return
	}
	at := ch.At % len(v)
	w := ch.With % len(v)
	x := v[at]
	switch ch.How {
	case 0:
		x = new(big.Int).Add(x, one)
	case 1:
		x = new(big.Int).Sub(x, one)
	case 2:
		x = new(big.Int).Neg(x)
	case 3: // exchange two components
		v[at], v[w] = v[w], v[at]
		v[w] = clamp(ds[w], v[w])
		x = v[at]
	case 4: // the last one
		at = len(v) - 1
		x = new(big.Int).Add(v[at], one)
	case 5, 6: // one bit
		b := ch.With % 253
		if ds[at] >= dID {
			b = ch.With % 16
			if ds[at] == dPos {
				x = new(big.Int).Sub(x, one)
			}
		}
		x = new(big.Int).SetBit(x, b, 1-x.Bit(b))
	case 7:
		x = new(big.Int)
	case 8: // two components, keeping their sum
		v[w] = clamp(ds[w], new(big.Int).Sub(v[w], one))
		x = new(big.Int).Add(v[at], one)
	case 9:
		x = new(big.Int).Lsh(x, 1)
	}
	v[at] = clamp(ds[at], x)
}

// value is one value of the library and the ways to compare it.
type value struct {
	kind  int
	whole bool
	any   interface{}
	enc   func() string // everything an observer sees in it
}

type builder struct {
	routes []int
	k      int
	via    int
}

func (b *builder) element(k *big.Int) (*ristretto.Element, error) {
	e := new(ristretto.Element)
	if _, err := e.SetCanonicalBytes(ref.Encode(ref.BaseMul(k))); err != nil {
		return nil, err
	}
	if len(b.routes) > 0 {
		b.k++
		return sim.Route(e, b.routes[b.k%len(b.routes)])
	}
	return e, nil
}

func (b *builder) exponent(v []*big.Int) (*polynomial.Exponent, error) {
	raw := []byte{byte((len(v) - 1) >> 8), byte(len(v) - 1)}
	for _, k := range v {
		raw = append(raw, ref.Encode(ref.BaseMul(k))...)
	}
	p := &polynomial.Exponent{}
	if err := p.UnmarshalBinary(raw); err != nil {
		return nil, err
	}
	if len(b.routes) > 0 && b.routes[0]%2 == 1 { // the same polynomial as a sum
		q := p.Copy()
		zero := []byte{raw[0], raw[1]}
		for range v {
			zero = append(zero, make([]byte, 32)...)
		}
		z := &polynomial.Exponent{}
		if err := z.UnmarshalBinary(zero); err != nil {
			return nil, err
		}
		return polynomial.Sum([]*polynomial.Exponent{z, q})
	}
	return p, nil
}

func build(kind int, whole bool, v []*big.Int, b *builder) (*value, error) {
	out := &value{kind: kind, whole: whole}
	id := func(i int) party.ID { return party.ID(v[i].Uint64()) }
	hex := func(x []byte) string { return fmt.Sprintf("%x", x) }
	switch kind {
	case kElement:
		e, err := b.element(v[0])
		if err != nil {
			return nil, err
		}
		out.any, out.enc = e, func() string { return hex(e.Bytes()) }
	case kIDs:
		l := party.IDSlice{}
		for i := range v {
			l = append(l, id(i))
		}
		if len(l) == 0 && b.via == 1 {
			l = nil
		}
		out.any, out.enc = l, func() string { return fmt.Sprint([]party.ID(l)) }
	case kPublicKey:
		e, err := b.element(v[0])
		if err != nil {
			return nil, err
		}
		p := eddsa.NewPublicKeyFromPoint(e)
		if b.via > 0 {
			raw, err := json.Marshal(p)
			if err != nil {
				return nil, err
			}
			p = &eddsa.PublicKey{}
			if err := json.Unmarshal(raw, p); err != nil {
				return nil, err
			}
		}
		out.any, out.enc = p, func() string { return hex(p.ToEd25519()) }
	case kShare:
		s := eddsa.NewSecretShare(id(0), sim.Scalar(v[1]))
		if b.via > 0 {
			var raw []byte
			var err error
			o := &eddsa.SecretShare{}
			if b.via == 1 {
				if raw, err = s.MarshalBinary(); err == nil {
					err = o.UnmarshalBinary(raw)
				}
			} else if raw, err = json.Marshal(s); err == nil {
				err = json.Unmarshal(raw, o)
			}
			if err != nil {
				return nil, err
			}
			s = o
		}
		out.any, out.enc = s, func() string { return fmt.Sprint(s.ID, hex(s.Secret.Bytes()), hex(s.Public.Bytes())) }
	case kSignature:
		e, err := b.element(v[0])
		if err != nil {
			return nil, err
		}
		s := &eddsa.Signature{R: *e, S: *sim.Scalar(v[1])}
		if b.via > 0 {
			raw, err := s.MarshalBinary()
			if err != nil {
				return nil, err
			}
			s = &eddsa.Signature{}
			if err := s.UnmarshalBinary(raw); err != nil {
				return nil, err
			}
		}
		out.any, out.enc = s, func() string { return hex(s.R.Bytes()) + hex(s.S.Bytes()) }
	case kSchnorr:
		p := &zk.Schnorr{S: *sim.Scalar(v[0]), R: *sim.Scalar(v[1])}
		out.any, out.enc = p, func() string { return hex(p.S.Bytes()) + hex(p.R.Bytes()) }
	case kExponent:
		p, err := b.exponent(v)
		if err != nil {
			return nil, err
		}
		out.any, out.enc = p, func() string { raw, err := p.MarshalBinary(); return hex(raw) + fmt.Sprint(err) }
	case kPublic:
		shares := map[party.ID]*ristretto.Element{}
		for i := 1; i < len(v); i += 2 {
			e, err := b.element(v[i+1])
			if err != nil {
				return nil, err
			}
			shares[id(i)] = e
		}
		p, err := eddsa.NewPublic(shares, party.Size(v[0].Uint64()))
		if err != nil {
			return nil, err
		}
		if b.via > 0 {
			raw, err := json.Marshal(p)
			if err != nil {
				return nil, err
			}
			p = &eddsa.Public{}
			if err := json.Unmarshal(raw, p); err != nil {
				return nil, err
			}
		}
		out.any, out.enc = p, func() string {
			s := fmt.Sprint([]party.ID(p.PartyIDs), p.Threshold, hex(p.GroupKey.ToEd25519()), len(p.Shares))
			for _, i := range p.PartyIDs {
				s += hex(p.Shares[i].Bytes())
			}
			return s
		}
	default:
		m := &messages.Message{Header: messages.Header{Type: messages.MessageType(1), From: id(0), To: id(1)}}
		var body interface{}
		bodyEnc := func() ([]byte, error) { return nil, nil }
		switch kind {
		case kHeader:
			m.Type = messages.MessageType(1 + v[2].Uint64())
			body = &m.Header
		case kKG1:
			p, err := b.exponent(v[4:])
			if err != nil {
				return nil, err
			}
			m = messages.NewKeyGen1(id(0), &zk.Schnorr{S: *sim.Scalar(v[2]), R: *sim.Scalar(v[3])}, p)
			body, bodyEnc = m.KeyGen1, m.KeyGen1.MarshalBinary
		case kKG2:
			m = messages.NewKeyGen2(id(0), id(1), sim.Scalar(v[2]))
			body, bodyEnc = m.KeyGen2, m.KeyGen2.MarshalBinary
		case kS1:
			d, err := b.element(v[2])
			if err != nil {
				return nil, err
			}
			e, err := b.element(v[3])
			if err != nil {
				return nil, err
			}
			m = messages.NewSign1(id(0), d, e)
			body, bodyEnc = m.Sign1, m.Sign1.MarshalBinary
		case kS2:
			m = messages.NewSign2(id(0), sim.Scalar(v[2]))
			body, bodyEnc = m.Sign2, m.Sign2.MarshalBinary
		}
		m.To = id(1)
		out.any = body
		if whole && kind != kHeader {
			out.any = m
		}
		out.enc = func() string {
			raw, err := bodyEnc()
			return fmt.Sprint(m.Type, m.From, m.To, hex(raw), err)
		}
	}
	return out, nil
}

// model is what the value consists of; two values are equal exactly if these are.
func model(kind int, whole bool, v []*big.Int) string {
	s := ""
	switch {
	case kind == kHeader:
		s = "header"
	case kind >= kKG1 && kind <= kS2:
		s = fmt.Sprint("message ", kind, whole)
		if !whole {
			v = v[2:]
		}
	case kind == kPublic:
		m := map[string]string{}
		ids := []uint16{}
		for i := 1; i < len(v); i += 2 {
			m[v[i].String()] = v[i+1].String()
			ids = append(ids, uint16(v[i].Uint64()))
		}
		s = fmt.Sprint(v[0], m, ref.Sorted(ids))
		return s
	}
	return s + fmt.Sprint(v)
}

// eq calls the equality method of a; ok is false if its signature does not admit b.
func eq(a, b *value) (r, ok bool) {
	switch x := a.any.(type) {
	case *ristretto.Element:
		y, k := b.any.(*ristretto.Element)
		if !k {
			return false, false
		}
		n := x.Equal(y)
		if n != 0 && n != 1 {
			panic(fmt.Sprintf("Element.Equal gives %d", n))
		}
		return n == 1, true
	case party.IDSlice:
		y, k := b.any.(party.IDSlice)
		return k && x.Equal(y), k
	case *eddsa.PublicKey:
		y, k := b.any.(*eddsa.PublicKey)
		return k && x.Equal(y), k
	case *eddsa.SecretShare:
		y, k := b.any.(*eddsa.SecretShare)
		return k && x.Equal(y), k
	case *eddsa.Public:
		y, k := b.any.(*eddsa.Public)
		return k && x.Equal(y), k
	case interface{ Equal(interface{}) bool }:
		return x.Equal(b.any), true
	}
	panic("harness: no equality")
}

// inPlace compares a with a variable that first holds what a holds and then
// what b holds.
func inPlace(a, b *value, want bool) string {
	ra, rb := reflect.ValueOf(a.any), reflect.ValueOf(b.any)
	if ra.Type() != rb.Type() {
		return ""
	}
	m := *a
	var set func(reflect.Value)
	if ra.Kind() == reflect.Slice {
		if ra.Len() != rb.Len() {
			return ""
		}
		v := reflect.MakeSlice(ra.Type(), ra.Len(), ra.Len())
		m.any, set = v.Interface(), func(x reflect.Value) { reflect.Copy(v, x) }
	} else {
		v := reflect.New(ra.Type().Elem())
		m.any, set = v.Interface(), func(x reflect.Value) { v.Elem().Set(x.Elem()) }
	}
	for i, t := range []struct {
		x    reflect.Value
		want bool
	}{{ra, true}, {rb, want}, {ra, true}} {
		set(t.x)
		r1, _ := eq(a, &m)
		r2, _ := eq(&m, a)
		if r1 != t.want || r2 != t.want {
			return fmt.Sprintf("Equal of the first and a variable set in place to the first, the second and the first again is %v and %v at %d", r1, r2, i)
		}
	}
	return ""
}

func check(c *equalCase) lib.Result {
	ds := domains(c.Kind, c.N)
	va := make([]*big.Int, len(ds))
	for i, d := range ds {
		va[i] = c.component(i, d)
	}
	n2 := c.N + c.Len
	if n2 < 1 {
		n2 = 1
	}
	kind2 := c.Other
	ds2 := domains(kind2, n2)
	vb := make([]*big.Int, len(ds2))
	for i, d := range ds2 {
		if i < len(va) {
			vb[i] = clamp(d, va[i])
			if d == dPos && ds[i] == dPos {
				vb[i] = va[i]
			}
		} else {
			vb[i] = c.component(i, d)
		}
	}
	for _, ch := range c.Ch {
		applyChange(ch, ds2, vb)
	}
	if c.Kind == kPublic {
		// IDs must be distinct, and the threshold below the number of parties
		if va = dedupe(va); va == nil {
			return lib.Result{Labels: []string{"empty"}}
		}
		vb = dedupe(vb)
	}
	a, err := build(c.Kind, c.Whole, va, &builder{})
	if err != nil {
		return lib.Fail("the first value (%d %v) cannot be built: %v", c.Kind, va, err)
	}
	b, err := build(kind2, c.Whole, vb, &builder{routes: c.Routes, via: c.Via})
	if err != nil {
		return lib.Fail("the second value (%d %v) cannot be built: %v", kind2, vb, err)
	}
	want := model(c.Kind, c.Whole, va) == model(kind2, c.Whole, vb)
	sa, sb := a.enc(), b.enc()
	for _, t := range []struct {
		x, y *value
		want bool
		what string
	}{{a, a, true, "a value and itself"}, {b, b, true, "a value and itself"}, {a, b, want, "the first and the second"}, {b, a, want, "the second and the first"}} {
		got, ok := eq(t.x, t.y)
		if !ok {
			return lib.Fail("harness: kinds %d and %d are not comparable", t.x.kind, t.y.kind)
		}
		if got != t.want {
			return lib.Fail("%T: Equal of %s is %v; first %s, second %s", t.x.any, t.what, got, sa, sb)
		}
	}
	if x, ok := a.any.(interface{ Equal(interface{}) bool }); ok {
		for _, o := range []interface{}{nil, 0, "", []byte{}, new(big.Int), ristretto.NewIdentityElement()} {
			if x.Equal(o) {
				return lib.Fail("%T equals a %T", a.any, o)
			}
		}
	}
	// a value that was equal to the first one, and is then set to the second in place
	if k := inPlace(a, b, want); k != "" {
		return lib.Fail("%T: %s; first %s, second %s", a.any, k, sa, sb)
	}
	// headers compare by value too
	if h, ok := a.any.(*messages.Header); ok {
		if h2, ok := b.any.(*messages.Header); ok && h.Equal(*h2) != want {
			return lib.Fail("Header.Equal of a value differs from Equal of its pointer")
		}
	}
	// a message and one that has only its header hold different things
	if m, ok := a.any.(*messages.Message); ok {
		bare := &messages.Message{Header: m.Header}
		if m.Equal(bare) || bare.Equal(m) {
			return lib.Fail("a message equals one that has only its header: %s", sa)
		}
	}
	if a.enc() != sa || b.enc() != sb {
		return lib.Fail("comparing %T changed a value: %s to %s, %s to %s", a.any, sa, a.enc(), sb, b.enc())
	}
	labels := []string{fmt.Sprintf("%T", a.any)}
	if want {
		labels = append(labels, "equal")
	} else {
		labels = append(labels, "different")
	}
	return lib.Result{NonTrivial: len(c.Ch) > 0 || len(c.Routes) > 0 || c.Via > 0 || c.Len != 0 || kind2 != c.Kind, Labels: labels}
}

func dedupe(v []*big.Int) []*big.Int {
	out := v[:1:1]
	seen := map[uint64]bool{}
	for i := 1; i < len(v); i += 2 {
		if k := v[i].Uint64(); !seen[k] {
			seen[k] = true
			out = append(out, v[i], v[i+1])
		}
	}
	n := int64(len(out)-1) / 2
	if out[0].Int64() >= n {
		out[0] = big.NewInt(n - 1)
	}
	return out
}

func TestC28Equal(t *testing.T) { lib.Run(t, "C28.equal", 1, gen, check) }

// ---- public key sets with the same group key ----

type sameKeyCase struct {
	IDs  []uint16
	T    int
	Seed uint64
	I, J int // the two parties whose shares move
	Move uint64
	Via  int
}

func genSameKey(rt *rapid.T) sameKeyCase {
	n := rapid.IntRange(2, 8).Draw(rt, "n")
	c := sameKeyCase{IDs: sim.GenIDs(rt, n), Seed: uint64(rapid.Uint32().Draw(rt, "seed"))}
	c.T = rapid.IntRange(0, n-1).Draw(rt, "t")
	c.I = rapid.IntRange(0, n-1).Draw(rt, "i")
	c.J = rapid.IntRange(0, n-1).Draw(rt, "j")
	c.Move = uint64(rapid.IntRange(0, 3).Draw(rt, "move"))
	c.Via = rapid.IntRange(0, 2).Draw(rt, "via")
	return c
}

// checkSameKey moves two shares so that the group key stays: only the shares tell the sets apart.
func checkSameKey(c *sameKeyCase) lib.Result {
	ids := ref.Sorted(c.IDs)
	v := []*big.Int{big.NewInt(int64(c.T))}
	for i, id := range ids {
		v = append(v, big.NewInt(int64(id)), ref.Expand(c.Seed, fmt.Sprint("s", i), 64))
	}
	for i := range v[1:] {
		if i%2 == 1 {
			v[i+1].Mod(v[i+1], ref.Q)
		}
	}
	w := append([]*big.Int{}, v...)
	if c.I != c.J {
		li, lj := ref.Lagrange(ids[c.I], ids), ref.Lagrange(ids[c.J], ids)
		d := new(big.Int).SetUint64(c.Move)
		w[2+2*c.I] = ref.AddQ(v[2+2*c.I], ref.MulQ(d, lj))
		w[2+2*c.J] = ref.SubQ(v[2+2*c.J], ref.MulQ(d, li))
	}
	a, err := build(kPublic, false, v, &builder{})
	if err != nil {
		return lib.Fail("%v", err)
	}
	b, err := build(kPublic, false, w, &builder{via: c.Via})
	if err != nil {
		return lib.Fail("%v", err)
	}
	pa, pb := a.any.(*eddsa.Public), b.any.(*eddsa.Public)
	if !bytes.Equal(pa.GroupKey.ToEd25519(), pb.GroupKey.ToEd25519()) {
		return lib.Fail("the group keys differ although the interpolations agree")
	}
	want := c.I == c.J || c.Move == 0
	if pa.Equal(pb) != want || pb.Equal(pa) != want {
		return lib.Fail("Public.Equal is %v and %v; %s and %s", pa.Equal(pb), pb.Equal(pa), a.enc(), b.enc())
	}
	if k := inPlace(a, b, want); k != "" {
		return lib.Fail("%s; %s and %s", k, a.enc(), b.enc())
	}
	return lib.Result{NonTrivial: !want, Labels: []string{fmt.Sprint("same key, equal=", want)}}
}

func TestC28SameKey(t *testing.T) { lib.Run(t, "C28.samekey", 0.1, genSameKey, checkSameKey) }
