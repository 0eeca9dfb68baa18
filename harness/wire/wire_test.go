// Package wire checks the wire formats against a strict reference parser.
package wire

import (
	"bytes"
	"encoding"
	"fmt"
	"math/big"
	"os"
	"path/filepath"
	"sync"
	"testing"

	"encoding/json"

	"github.com/taurusgroup/frost-ed25519/pkg/eddsa"
	"github.com/taurusgroup/frost-ed25519/pkg/frost/party"
	"github.com/taurusgroup/frost-ed25519/pkg/messages"
	"github.com/taurusgroup/frost-ed25519/pkg/verif/lib"
	"github.com/taurusgroup/frost-ed25519/pkg/verif/ref"
	"pgregory.net/rapid"
)

// ---- C08 ----

// blob is one byte string, kept compactly: Head, then Fill repeated N times, then Tail.
type blob struct {
	Head []byte
	Fill []byte `json:",omitempty"`
	N    int    `json:",omitempty"`
	Tail []byte `json:",omitempty"`
}

func (b blob) bytes() []byte {
	out := append([]byte{}, b.Head...)
	for i := 0; i < b.N; i++ {
		out = append(out, b.Fill...)
	}
	return append(out, b.Tail...)
}

type wireCase struct {
	A      blob
	B      blob   // a second input, decoded separately and into the value A was decoded into
	Prefix []byte // for BytesAppend
	How    string
}

func genScalarBytes(rt *rapid.T, clean bool) []byte {
	k := rapid.IntRange(0, 40).Draw(rt, "scalar")
	if clean && k > 2 {
		k = 9
	}
	switch k {
	case 0:
		return make([]byte, 32)
	case 1:
		return ref.ScalarBytes(big.NewInt(int64(rapid.IntRange(1, 3).Draw(rt, "k"))))
	case 2:
		return ref.ScalarBytes(new(big.Int).Sub(ref.Q, big.NewInt(int64(rapid.IntRange(1, 3).Draw(rt, "k")))))
	case 3: // not canonical: q and above
		x := new(big.Int).Add(ref.Q, big.NewInt(int64(rapid.IntRange(0, 3).Draw(rt, "k"))))
		return ref.FieldBytes(x)
	case 4: // a canonical value plus a multiple of q
		x := ref.Expand(uint64(rapid.Uint16().Draw(rt, "s")), "sc", 0)
		x = x.Add(x, new(big.Int).Mul(ref.Q, big.NewInt(int64(rapid.IntRange(1, 14).Draw(rt, "m")))))
		return ref.FieldBytes(x)
	case 5:
		b := bytes.Repeat([]byte{0xff}, 32)
		b[31] = rapid.SampledFrom([]byte{0x0f, 0x10, 0x1f, 0x7f, 0xff}).Draw(rt, "top")
		return b
	case 6: // high bits of the last byte set on a canonical value
		b := ref.ScalarBytes(ref.Expand(uint64(rapid.Uint16().Draw(rt, "s")), "sc", 0))
		b[31] |= 1 << uint(rapid.IntRange(4, 7).Draw(rt, "bit"))
		return b
	default:
		return ref.ScalarBytes(ref.Expand(uint64(rapid.Uint16().Draw(rt, "s")), "sc", 0))
	}
}

func genElementBytes(rt *rapid.T, clean bool) []byte {
	valid := func() []byte {
		switch rapid.IntRange(0, 3).Draw(rt, "point") {
		case 0:
			return make([]byte, 32)
		case 1:
			return ref.Encode(ref.BaseMul(big.NewInt(int64(rapid.IntRange(1, 4).Draw(rt, "m")))))
		default:
			return ref.Encode(ref.BaseMul(ref.Expand(uint64(rapid.Uint16().Draw(rt, "s")), "pt", 0)))
		}
	}
	k := rapid.IntRange(0, 11).Draw(rt, "element")
	if clean {
		k = 11
	}
	switch k {
	case 0: // s + p, for the few s where it fits
		return ref.FieldBytes(new(big.Int).Add(ref.P, big.NewInt(int64(rapid.IntRange(0, 18).Draw(rt, "s")))))
	case 1: // -s
		s := ref.Int(valid())
		return ref.FieldBytes(new(big.Int).Mod(new(big.Int).Sub(ref.P, s), ref.P))
	case 2: // top bit
		b := valid()
		b[31] |= 0x80
		return b
	case 3: // small integers: some decode, most do not
		return ref.FieldBytes(big.NewInt(int64(rapid.IntRange(0, 60).Draw(rt, "s"))))
	case 4:
		return rapid.SliceOfN(rapid.Byte(), 32, 32).Draw(rt, "raw")
	case 5: // the Ed25519 encoding of a point
		return ref.EncodeEd(ref.BaseMul(ref.Expand(uint64(rapid.Uint16().Draw(rt, "s")), "pt", 0)))
	case 6: // small torsion and other y = 0-ish values
		return ref.FieldBytes(new(big.Int).Sub(ref.P, big.NewInt(int64(rapid.IntRange(1, 40).Draw(rt, "s")))))
	default:
		return valid()
	}
}

func genID(rt *rapid.T) uint16 {
	return rapid.OneOf(rapid.SampledFrom([]uint16{0, 1, 2, 255, 256, 65535}), rapid.Uint16()).Draw(rt, "id")
}

func genMessage(rt *rapid.T) []byte {
	typ := byte(rapid.IntRange(1, 4).Draw(rt, "type"))
	from := rapid.Uint16Range(1, 65535).Draw(rt, "from")
	to := uint16(0)
	if typ == ref.KG2 {
		to = rapid.Uint16Range(1, 65535).Draw(rt, "to")
	}
	if rapid.IntRange(0, 29).Draw(rt, "oddaddr") == 0 {
		from, to = genID(rt), genID(rt)
	}
	if rapid.IntRange(0, 15).Draw(rt, "oddtype") == 0 {
		typ = rapid.SampledFrom([]byte{0, 5, 6, 17, 127, 129, 255}).Draw(rt, "badtype")
	}
	b := ref.Header(typ, from, to)
	clean := rapid.IntRange(0, 2).Draw(rt, "clean") > 0
	switch typ {
	case ref.KG1:
		b = append(b, genScalarBytes(rt, clean)...)
		b = append(b, genScalarBytes(rt, clean)...)
		n := rapid.IntRange(0, 4).Draw(rt, "coefs")
		deg := n - 1
		switch rapid.IntRange(0, 9).Draw(rt, "degkind") {
		case 0:
			deg = n
		case 1:
			deg = n - 2
		case 2:
			deg = rapid.SampledFrom([]int{0, 1, 255, 256, 65535, 65534}).Draw(rt, "deg")
		}
		b = append(b, ref.ID16(uint16(deg))...)
		for i := 0; i < n; i++ {
			b = append(b, genElementBytes(rt, clean)...)
		}
	case ref.KG2, ref.S2:
		b = append(b, genScalarBytes(rt, clean)...)
	case ref.S1:
		b = append(b, genElementBytes(rt, clean)...)
		b = append(b, genElementBytes(rt, clean)...)
	default:
		b = append(b, rapid.SliceOfN(rapid.Byte(), 0, 100).Draw(rt, "body")...)
	}
	return b
}

// mutate changes a byte string in a small way.
func mutate(rt *rapid.T, b []byte) []byte {
	b = append([]byte{}, b...)
	clean := rapid.Bool().Draw(rt, "clean")
	switch rapid.IntRange(0, 7).Draw(rt, "mut") {
	case 0, 1, 2:
		return b
	case 3: // one bit
		if len(b) > 0 {
			b[rapid.IntRange(0, len(b)-1).Draw(rt, "at")] ^= 1 << uint(rapid.IntRange(0, 7).Draw(rt, "bit"))
		}
	case 4: // shorter
		b = b[:rapid.IntRange(0, len(b)).Draw(rt, "len")]
	case 5: // longer
		b = append(b, rapid.SliceOfN(rapid.Byte(), 1, 33).Draw(rt, "more")...)
	case 6: // header field
		if len(b) >= 5 {
			at := rapid.IntRange(0, 4).Draw(rt, "at")
			b[at] = rapid.SampledFrom([]byte{0, 1, 2, 3, 4, 5, 255}).Draw(rt, "v")
		}
	case 7: // a field of 32 bytes replaced
		if len(b) >= 37 {
			off := 5 + 32*rapid.IntRange(0, (len(b)-37)/32).Draw(rt, "field")
			if b[0] == ref.KG1 && off >= 69 {
				off += 2
			}
			if off+32 <= len(b) {
				if rapid.Bool().Draw(rt, "s") {
					copy(b[off:], genScalarBytes(rt, clean))
				} else {
					copy(b[off:], genElementBytes(rt, clean))
				}
			}
		}
	}
	return b
}

func genWire(rt *rapid.T) wireCase {
	var c wireCase
	a := genMessage(rt)
	switch rapid.IntRange(0, 29).Draw(rt, "how") {
	case 0:
		c.How = "raw"
		c.A.Head = rapid.SliceOfN(rapid.Byte(), 0, 140).Draw(rt, "raw")
	case 1:
		c.How = "spliced"
		o := genMessage(rt)
		c.A.Head = append(append([]byte{}, a[:rapid.IntRange(0, len(a)).Draw(rt, "cut")]...), o...)
	case 2: // long polynomials
		c.How = "long"
		n := rapid.SampledFrom([]int{2, 255, 256, 257, 300}).Draw(rt, "n")
		d := n - 1 + rapid.SampledFrom([]int{0, 0, -1, 1, -256, 256}).Draw(rt, "off")
		c.A.Head = ref.Header(ref.KG1, 1, 0)
		c.A.Head = append(c.A.Head, ref.ScalarBytes(ref.Expand(1, "a", 0))...)
		c.A.Head = append(c.A.Head, ref.ScalarBytes(ref.Expand(1, "b", 0))...)
		c.A.Head = append(c.A.Head, ref.ID16(uint16(d))...)
		c.A.Fill = ref.Encode(ref.BaseMul(big.NewInt(5)))
		c.A.N = n
	default:
		c.How = "structured"
		c.A.Head = mutate(rt, a)
	}
	switch rapid.IntRange(0, 3).Draw(rt, "second") {
	case 0:
		c.B = c.A
	case 1:
		c.B.Head = mutate(rt, a)
	case 2:
		c.B.Head = mutate(rt, mutate(rt, c.A.Head))
		c.B.Fill, c.B.N = c.A.Fill, c.A.N
	default:
		c.B.Head = genMessage(rt)
	}
	c.Prefix = rapid.SliceOfN(rapid.Byte(), 0, 9).Draw(rt, "prefix")
	return c
}

// filler is a well-formed message of n bytes, of the given type if there is one,
// with contents of its own.
func filler(typ byte, n int) []byte {
	g := ref.BaseMul(big.NewInt(5))
	s := big.NewInt(6)
	switch {
	case n == 69:
		return ref.MsgS1(0x0807, g, g)
	case n > 71 && n < 1000 && (n-71)%32 == 0:
		commits := make([]*ref.Pt, (n-71)/32)
		for i := range commits {
			commits[i] = g
		}
		return ref.MsgKG1(0x0807, s, s, commits)
	case typ == ref.KG2:
		return ref.MsgKG2(0x0807, 0x0605, s)
	}
	return ref.MsgS2(0x0807, s)
}

// received returns raw in a buffer from which another message has been decoded.
func received(raw []byte) ([]byte, error) {
	typ := byte(0)
	if len(raw) > 0 {
		typ = raw[0]
	}
	f := filler(typ, len(raw))
	in := append(make([]byte, 0, len(raw)+len(f)+7), f...)
	var m messages.Message
	if err := m.UnmarshalBinary(in); err != nil {
		return nil, fmt.Errorf("well-formed message rejected (%v): %x", err, f)
	}
	return append(in[:0], raw...), nil
}

// decode checks one input against the reference; it returns the value if accepted.
func decode(into *messages.Message, raw []byte, what string) (*messages.Message, error) {
	_, want := ref.Parse(raw)
	in, err := received(raw)
	if err != nil {
		return nil, err
	}
	err = into.UnmarshalBinary(in)
	if !bytes.Equal(in, raw) {
		return nil, fmt.Errorf("%s: decoding changed its input", what)
	}
	switch {
	case err == nil && !want:
		return nil, fmt.Errorf("%s: malformed message accepted: %d bytes %s", what, len(raw), lib.Clip(raw))
	case err != nil && want:
		return nil, fmt.Errorf("%s: well-formed message rejected (%v): %d bytes %s", what, err, len(raw), lib.Clip(raw))
	case err != nil:
		return nil, nil
	}
	for i := range in {
		in[i] ^= 0x55 // the value must not refer to the input
	}
	out, err := into.MarshalBinary()
	if err != nil {
		return nil, fmt.Errorf("%s: accepted message does not encode (%v): %s", what, err, lib.Clip(raw))
	}
	if !bytes.Equal(out, raw) {
		return nil, fmt.Errorf("%s: accepted message encodes differently:\n in %s\nout %s", what, lib.Clip(raw), lib.Clip(out))
	}
	if s := into.Size(); s != len(raw) {
		return nil, fmt.Errorf("%s: Size is %d, the encoding has %d bytes", what, s, len(raw))
	}
	return into, nil
}

func appended(m *messages.Message, prefix, raw []byte, what string) error {
	for _, spare := range []int{0, 3, len(raw) + 64} {
		buf := append(make([]byte, 0, len(prefix)+spare), prefix...)
		out, err := m.BytesAppend(buf)
		if err != nil {
			return fmt.Errorf("%s: BytesAppend: %v", what, err)
		}
		if !bytes.Equal(out, append(append([]byte{}, prefix...), raw...)) {
			return fmt.Errorf("%s: BytesAppend after %x gives %s, want the prefix and %s", what, prefix, lib.Clip(out), lib.Clip(raw))
		}
		if !bytes.Equal(buf, prefix) {
			return fmt.Errorf("%s: BytesAppend changed the prefix", what)
		}
	}
	return nil
}

type codec interface {
	encoding.BinaryMarshaler
	encoding.BinaryUnmarshaler
	BytesAppend([]byte) ([]byte, error)
	Size() int
	Equal(interface{}) bool
}

func bodyOf(typ byte) codec {
	switch typ {
	case ref.KG1:
		return &messages.KeyGen1{}
	case ref.KG2:
		return &messages.KeyGen2{}
	case ref.S1:
		return &messages.Sign1{}
	}
	return &messages.Sign2{}
}

// body checks the decoder of one message body on its own.
func body(typ byte, raw []byte) (codec, error) {
	to := uint16(0)
	if typ == ref.KG2 {
		to = 2
	}
	_, want := ref.Parse(append(ref.Header(typ, 1, to), raw...))
	v := bodyOf(typ)
	// the buffer held another body before
	f := filler(typ, len(raw)+5)
	in := append(make([]byte, 0, len(raw)+len(f)), f[5:]...)
	if err := bodyOf(f[0]).UnmarshalBinary(in); err != nil {
		return nil, fmt.Errorf("well-formed body of type %d rejected (%v): %x", f[0], err, f[5:])
	}
	in = append(in[:0], raw...)
	err := v.UnmarshalBinary(in)
	if (err == nil) != want {
		return nil, fmt.Errorf("body decoder of type %d: accepted=%v, well-formed=%v: %s", typ, err == nil, want, lib.Clip(raw))
	}
	if err != nil {
		return nil, nil
	}
	for i := range in {
		in[i] ^= 0x55
	}
	out, err := v.MarshalBinary()
	if err != nil || !bytes.Equal(out, raw) || v.Size() != len(raw) {
		return nil, fmt.Errorf("body of type %d: encoding %s (size %d, %v), want %s", typ, lib.Clip(out), v.Size(), err, lib.Clip(raw))
	}
	out, err = v.BytesAppend([]byte{1, 2})
	if err != nil || !bytes.Equal(out, append([]byte{1, 2}, raw...)) {
		return nil, fmt.Errorf("body of type %d: BytesAppend gives %s (%v)", typ, lib.Clip(out), err)
	}
	return v, nil
}

func checkWire(c *wireCase) lib.Result {
	a, b := c.A.bytes(), c.B.bytes()
	ma, err := decode(new(messages.Message), a, "fresh value")
	if err != nil {
		return lib.Result{Err: err}
	}
	res := lib.Result{Labels: []string{"how=" + c.How}, NonTrivial: len(a) > 5}
	if ma == nil {
		res.Labels = append(res.Labels, "rejected")
	} else {
		res.Labels = append(res.Labels, fmt.Sprintf("accepted-type-%d", a[0]))
		if err := appended(ma, c.Prefix, a, "append"); err != nil {
			return lib.Result{Err: err}
		}
		h := messages.Header{}
		if err := h.UnmarshalBinary(a); err != nil || !h.Equal(ma.Header) || !h.Equal(&ma.Header) || h.Size() != 5 {
			return lib.Fail("the header alone decodes to %v (%v), the message has %v", h, err, ma.Header)
		}
		if hb, err := h.MarshalBinary(); err != nil || !bytes.Equal(hb, a[:5]) {
			return lib.Fail("header %x encodes to %x (%v)", a[:5], hb, err)
		}
		if ma.IsBroadcast() != (ma.To == 0) || byte(ma.Type) != a[0] || uint16(ma.From) != uint16(a[1])<<8|uint16(a[2]) || uint16(ma.To) != uint16(a[3])<<8|uint16(a[4]) {
			return lib.Fail("header fields %v do not match the bytes %x", ma.Header, a[:5])
		}
	}
	mb, err := decode(new(messages.Message), b, "second input")
	if err != nil {
		return lib.Result{Err: err}
	}
	// body decoders, for every type
	if len(a) >= 5 {
		for typ := byte(1); typ <= 4; typ++ {
			v, err := body(typ, a[5:])
			if err != nil {
				return lib.Result{Err: err}
			}
			if v != nil && len(b) >= 5 {
				w, err := body(typ, b[5:])
				if err != nil {
					return lib.Result{Err: err}
				}
				if w != nil && v.Equal(w) != bytes.Equal(a[5:], b[5:]) {
					return lib.Fail("bodies of type %d: Equal=%v for\n%s\n%s", typ, v.Equal(w), lib.Clip(a), lib.Clip(b))
				}
			}
		}
	}
	if ma != nil && mb != nil {
		same := bytes.Equal(a, b)
		res.Labels = append(res.Labels, fmt.Sprintf("pair-equal=%v", same))
		if ma.Equal(mb) != same || mb.Equal(ma) != same {
			return lib.Fail("Equal is %v/%v for\n%s\n%s", ma.Equal(mb), mb.Equal(ma), lib.Clip(a), lib.Clip(b))
		}
		if !ma.Equal(ma) || ma.Equal(nil) || ma.Equal(42) {
			return lib.Fail("Equal is not reflexive, or accepts a foreign value")
		}
	}
	// a value that was used before
	if ma != nil {
		used := new(messages.Message)
		if err := used.UnmarshalBinary(a); err != nil {
			return lib.Fail("second decoding fails: %v", err)
		}
		mu, err := decode(used, b, "used value")
		if err != nil {
			return lib.Result{Err: err}
		}
		if mu != nil {
			res.Labels = append(res.Labels, "decoded-into-used")
			if !mu.Equal(mb) || !mb.Equal(mu) {
				return lib.Fail("decoding into a used value is not equal to decoding into a fresh one")
			}
		}
		// a decoded message whose parts are then set in place is what it now holds
		if mb != nil && ma.Type == mb.Type {
			set := new(messages.Message)
			if err := set.UnmarshalBinary(a); err != nil {
				return lib.Fail("third decoding fails: %v", err)
			}
			first, _ := set.MarshalBinary()
			set.Size()
			set.Equal(ma)
			set.Header = mb.Header
			switch mb.Type {
			case messages.MessageTypeKeyGen1:
				*set.KeyGen1 = *mb.KeyGen1
			case messages.MessageTypeKeyGen2:
				*set.KeyGen2 = *mb.KeyGen2
			case messages.MessageTypeSign1:
				*set.Sign1 = *mb.Sign1
			case messages.MessageTypeSign2:
				*set.Sign2 = *mb.Sign2
			}
			out, err := set.MarshalBinary()
			if err != nil || !bytes.Equal(out, b) || set.Size() != len(b) || !set.Equal(mb) || !mb.Equal(set) || set.Equal(ma) != bytes.Equal(a, b) {
				return lib.Fail("a message decoded from %s and then set to that of %s encodes to %s (%v, size %d), Equal to the latter: %v", lib.Clip(a), lib.Clip(b), lib.Clip(out), err, set.Size(), set.Equal(mb))
			}
			if !bytes.Equal(first, a) {
				return lib.Fail("an encoding that was handed out changed with the message")
			}
			for i := range out {
				out[i] ^= 0x55
			}
			if out, err := set.MarshalBinary(); err != nil || !bytes.Equal(out, b) {
				return lib.Fail("writing into an encoding changed the message: %s (%v), it was %s", lib.Clip(out), err, lib.Clip(b))
			}
			res.Labels = append(res.Labels, "set-in-place")
		}
		// what was decoded first is a value of its own
		if out, err := ma.MarshalBinary(); err != nil || !bytes.Equal(out, a) {
			return lib.Fail("a decoded message changed after another was decoded")
		}
	}
	return res
}

func TestC08Wire(t *testing.T) { lib.Run(t, "C08.wire", 1, genWire, checkWire) }

// Very long polynomials, up to the largest degree the format can express.
type hugeCase struct{ N, Off int }

func checkHuge(c *hugeCase) lib.Result {
	raw := ref.Header(ref.KG1, 1, 0)
	raw = append(raw, ref.ScalarBytes(ref.Expand(1, "a", 0))...)
	raw = append(raw, ref.ScalarBytes(ref.Expand(1, "b", 0))...)
	raw = append(raw, ref.ID16(uint16(c.N-1+c.Off))...)
	raw = append(raw, bytes.Repeat(ref.Encode(ref.BaseMul(big.NewInt(5))), c.N)...)
	m, err := decode(new(messages.Message), raw, fmt.Sprintf("%d coefficients, stated degree %d", c.N, uint16(c.N-1+c.Off)))
	if err != nil {
		return lib.Result{Err: err}
	}
	return lib.Result{NonTrivial: true, Labels: []string{fmt.Sprintf("accepted=%v", m != nil)}}
}

func TestC08Huge(t *testing.T) {
	lib.Run(t, "C08.huge", 0.0001, func(rt *rapid.T) hugeCase {
		return hugeCase{N: rapid.SampledFrom([]int{65536, 65535, 32769, 32768, 4096}).Draw(rt, "n"), Off: rapid.SampledFrom([]int{0, 0, 0, 1, -1, 65535}).Draw(rt, "off")}
	}, checkHuge)
}

// Values that were never decoded: any header, any set of bodies.
type valueCase struct {
	Type     byte
	From, To uint16
	Has      [4]bool
	Seed     uint64
	Coefs    int
	Old      int // what the value held before
}

func checkValue(c *valueCase) lib.Result {
	m := &messages.Message{}
	if c.Old > 0 { // the value held a decoded message before
		n := []int{0, 37, 69, 71 + 32, 71 + 96}[c.Old]
		if err := m.UnmarshalBinary(filler(c.Type, n)); err != nil {
			return lib.Fail("well-formed message rejected: %v", err)
		}
		m.MarshalBinary()
		m.Size()
		m.KeyGen1, m.KeyGen2, m.Sign1, m.Sign2 = nil, nil, nil, nil
	}
	m.Header = messages.Header{Type: messages.MessageType(c.Type), From: party.ID(c.From), To: party.ID(c.To)}
	sc := func(l string) []byte { return ref.ScalarBytes(ref.Expand(c.Seed, l, 0)) }
	pt := func(i int) []byte { return ref.Encode(ref.BaseMul(ref.Expand(c.Seed, "p", i))) }
	bodies := map[byte][]byte{ref.KG2: sc("k"), ref.S2: sc("z"), ref.S1: append(pt(0), pt(1)...)}
	kg := append(append(sc("s"), sc("r")...), ref.ID16(uint16(c.Coefs-1))...)
	for i := 0; i < c.Coefs; i++ {
		kg = append(kg, pt(i)...)
	}
	bodies[ref.KG1] = kg
	for typ := byte(1); typ <= 4; typ++ {
		if !c.Has[typ-1] {
			continue
		}
		v := bodyOf(typ)
		if err := v.UnmarshalBinary(bodies[typ]); err != nil {
			return lib.Fail("valid body of type %d rejected: %v", typ, err)
		}
		switch typ {
		case ref.KG1:
			m.KeyGen1 = v.(*messages.KeyGen1)
		case ref.KG2:
			m.KeyGen2 = v.(*messages.KeyGen2)
		case ref.S1:
			m.Sign1 = v.(*messages.Sign1)
		default:
			m.Sign2 = v.(*messages.Sign2)
		}
	}
	raw := ref.Header(c.Type, c.From, c.To)
	_, okHead := ref.ParseHeader(raw)
	ok := okHead && c.Type >= 1 && c.Type <= 4 && c.Has[c.Type-1]
	if hb, err := m.Header.MarshalBinary(); (err == nil) != okHead || okHead && !bytes.Equal(hb, raw) {
		return lib.Fail("header %v: encoding %x, %v; valid=%v", m.Header, hb, err, okHead)
	}
	out, err := m.MarshalBinary()
	if ok {
		raw = append(raw, bodies[c.Type]...)
		if err != nil || !bytes.Equal(out, raw) || m.Size() != len(raw) {
			return lib.Fail("message encodes to %s (size %d, %v), want %s", lib.Clip(out), m.Size(), err, lib.Clip(raw))
		}
		if _, err := decode(new(messages.Message), raw, "round trip"); err != nil {
			return lib.Result{Err: err}
		}
		return lib.Result{NonTrivial: true, Labels: []string{fmt.Sprintf("valid-type-%d", c.Type)}}
	}
	if err == nil {
		return lib.Fail("a message with header %v, bodies %v encodes to %s, which cannot be decoded", m.Header, c.Has, lib.Clip(out))
	}
	_ = m.Size()
	_ = m.Equal(m)
	return lib.Result{NonTrivial: true, Labels: []string{"invalid"}}
}

func TestC08Value(t *testing.T) {
	lib.Run(t, "C08.value", 0.3, func(rt *rapid.T) valueCase {
		c := valueCase{Type: byte(rapid.IntRange(0, 5).Draw(rt, "type")), From: genID(rt), Seed: uint64(rapid.Uint32().Draw(rt, "seed")), Coefs: rapid.IntRange(1, 5).Draw(rt, "coefs")}
		if rapid.Bool().Draw(rt, "addr") == (c.Type == 2) {
			c.To = genID(rt)
		}
		for i := range c.Has {
			c.Has[i] = rapid.IntRange(0, 3).Draw(rt, "has") > 0
		}
		c.Old = rapid.IntRange(0, 4).Draw(rt, "old")
		return c
	}, checkValue)
}

// Signatures.
type sigCase struct {
	A, B   []byte
	Prefix []byte
}

func genSig(rt *rapid.T) []byte {
	clean := rapid.Bool().Draw(rt, "clean")
	b := append(genElementBytes(rt, clean), genScalarBytes(rt, clean)...)
	switch rapid.IntRange(0, 6).Draw(rt, "mut") {
	case 0:
		b = b[:rapid.IntRange(0, 64).Draw(rt, "len")]
	case 1:
		b = append(b, rapid.SliceOfN(rapid.Byte(), 1, 33).Draw(rt, "more")...)
	case 2:
		b[rapid.IntRange(0, 63).Draw(rt, "at")] ^= 1 << uint(rapid.IntRange(0, 7).Draw(rt, "bit"))
	}
	return b
}

func parseSig(b []byte) bool {
	if len(b) != 64 {
		return false
	}
	_, ok1 := ref.Decode(b[:32])
	_, ok2 := ref.ParseScalar(b[32:])
	return ok1 && ok2
}

func decodeSig(into *eddsa.Signature, raw []byte) (bool, error) {
	// the buffer held another signature before
	in := append(make([]byte, 0, len(raw)+69), ref.Encode(ref.BaseMul(big.NewInt(5)))...)
	in = append(in, ref.ScalarBytes(big.NewInt(6))...)
	if err := new(eddsa.Signature).UnmarshalBinary(in); err != nil {
		return false, fmt.Errorf("well-formed signature %x rejected: %v", in, err)
	}
	in = append(in[:0], raw...)
	err := into.UnmarshalBinary(in)
	if (err == nil) != parseSig(raw) {
		return false, fmt.Errorf("signature %x: accepted=%v, well-formed=%v (%v)", raw, err == nil, parseSig(raw), err)
	}
	if !bytes.Equal(in, raw) {
		return false, fmt.Errorf("decoding a signature changed its input")
	}
	if err != nil {
		return false, nil
	}
	for i := range in {
		in[i] ^= 0x55
	}
	out, err := into.MarshalBinary()
	if err != nil || !bytes.Equal(out, raw) || into.Size() != 64 {
		return false, fmt.Errorf("accepted signature encodes differently: %x, %x, %v", raw, out, err)
	}
	return true, nil
}

func checkSig(c *sigCase) lib.Result {
	var sa, sb eddsa.Signature
	oka, err := decodeSig(&sa, c.A)
	if err != nil {
		return lib.Result{Err: err}
	}
	okb, err := decodeSig(&sb, c.B)
	if err != nil {
		return lib.Result{Err: err}
	}
	res := lib.Result{NonTrivial: len(c.A) > 0, Labels: []string{fmt.Sprintf("accepted=%v", oka)}}
	if oka {
		out, err := sa.BytesAppend(append([]byte{}, c.Prefix...))
		if err != nil || !bytes.Equal(out, append(append([]byte{}, c.Prefix...), c.A...)) {
			return lib.Fail("BytesAppend gives %x (%v)", out, err)
		}
	}
	if oka && okb {
		same := bytes.Equal(c.A, c.B)
		res.Labels = append(res.Labels, fmt.Sprintf("pair-equal=%v", same))
		if sa.Equal(&sb) != same || sb.Equal(&sa) != same || !sa.Equal(&sa) {
			return lib.Fail("Equal is %v/%v for %x and %x", sa.Equal(&sb), sb.Equal(&sa), c.A, c.B)
		}
		if ok, err := decodeSig(&sa, c.B); err != nil || !ok || !sa.Equal(&sb) {
			return lib.Fail("decoding into a used signature: %v %v", ok, err)
		}
	}
	return res
}

func TestC08Signature(t *testing.T) {
	lib.Run(t, "C08.signature", 0.4, func(rt *rapid.T) sigCase {
		c := sigCase{A: genSig(rt), Prefix: rapid.SliceOfN(rapid.Byte(), 0, 5).Draw(rt, "prefix")}
		switch rapid.IntRange(0, 2).Draw(rt, "second") {
		case 0:
			c.B = c.A
		case 1:
			c.B = append([]byte{}, c.A...)
			if len(c.B) == 64 {
				clean := rapid.Bool().Draw(rt, "clean2")
				if rapid.Bool().Draw(rt, "s") {
					copy(c.B[32:], genScalarBytes(rt, clean))
				} else {
					copy(c.B, genElementBytes(rt, clean))
				}
			}
		default:
			c.B = genSig(rt)
		}
		return c
	}, checkSig)
}

// FuzzC08 is the coverage-guided form, used by the thorough tier.
func FuzzC08(f *testing.F) {
	seed := func(m []byte) { f.Add(m, m) }
	pt := ref.BaseMul(big.NewInt(7))
	seed(ref.MsgKG1(1, big.NewInt(3), big.NewInt(4), []*ref.Pt{pt, ref.Identity()}))
	seed(ref.MsgKG2(1, 2, big.NewInt(3)))
	seed(ref.MsgS1(65535, pt, pt))
	seed(ref.MsgS2(256, big.NewInt(3)))
	var mu sync.Mutex
	f.Fuzz(func(t *testing.T, a, b []byte) {
		c := wireCase{A: blob{Head: a}, B: blob{Head: b}, How: "fuzz"}
		var res lib.Result
		func() {
			defer func() {
				if r := recover(); r != nil {
					res.Err = fmt.Errorf("panic: %v", r)
				}
			}()
			res = checkWire(&c)
		}()
		sub := "C08.wire"
		raw, _ := json.Marshal(c)
		if res.Err == nil && parseSig(a) {
			sc := sigCase{A: a, B: b}
			sub = "C08.signature"
			raw, _ = json.Marshal(sc)
			res = checkSig(&sc)
		}
		if res.Err != nil {
			mu.Lock()
			defer mu.Unlock()
			out, _ := json.MarshalIndent(lib.Replay{Property: "C08", Sub: sub, Error: res.Err.Error(), Case: raw}, "", " ")
			if d := os.Getenv("VERIF_OUT"); d != "" {
				_ = os.WriteFile(filepath.Join(d, "fail-"+sub+".json"), out, 0o644)
			}
			t.Fatal(res.Err)
		}
	})
}
