package keys

import (
	"bytes"
	"crypto/ed25519"
	"encoding"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"math/big"
	"reflect"
	"strconv"
	"testing"

	"github.com/taurusgroup/frost-ed25519/pkg/eddsa"
	"github.com/taurusgroup/frost-ed25519/pkg/frost/party"
	"github.com/taurusgroup/frost-ed25519/pkg/internal/polynomial"
	"github.com/taurusgroup/frost-ed25519/pkg/internal/zk"
	"github.com/taurusgroup/frost-ed25519/pkg/messages"
	"github.com/taurusgroup/frost-ed25519/pkg/ristretto"
	"github.com/taurusgroup/frost-ed25519/pkg/verif/lib"
	"github.com/taurusgroup/frost-ed25519/pkg/verif/ref"
	"github.com/taurusgroup/frost-ed25519/pkg/verif/sim"
	"pgregory.net/rapid"
)

// ---- C35 ----

// formCase is a value of a kind that has a form.
type formCase struct {
	Kind  string
	ID    uint16
	To    uint16
	K     []*big.Int // scalars, also the logarithms of the elements
	IDs   []uint16
	T     int
	Scale bool   // elements carry a denominator
	Pre   []byte // what is there already when a form is appended
}

var formKinds = []string{"id", "element", "share", "public", "publickey", "signature", "keygen1", "keygen2", "sign1", "sign2", "file"}

func genForm(rt *rapid.T) formCase {
	c := formCase{Kind: rapid.SampledFrom(formKinds).Draw(rt, "kind"), Scale: rapid.Bool().Draw(rt, "scale")}
	id := rapid.OneOf(rapid.SampledFrom([]uint16{1, 9, 10, 127, 128, 255, 256, 257, 999, 1000, 4096, 9999, 10000, 32767, 32768, 65280, 65535}), rapid.Uint16Range(1, 65535))
	c.ID, c.To = id.Draw(rt, "id"), id.Draw(rt, "to")
	n := rapid.IntRange(2, 8).Draw(rt, "n")
	if c.Kind == "keygen1" && rapid.IntRange(0, 30).Draw(rt, "long") == 0 {
		n = rapid.IntRange(250, 300).Draw(rt, "many")
	}
	for i := 0; i < n; i++ {
		switch rapid.IntRange(0, 7).Draw(rt, "which") {
		case 0:
			c.K = append(c.K, big.NewInt(int64(rapid.IntRange(0, 300).Draw(rt, "small"))))
		case 1:
			c.K = append(c.K, ref.SubQ(big.NewInt(0), big.NewInt(int64(rapid.IntRange(1, 300).Draw(rt, "neg")))))
		default:
			c.K = append(c.K, ref.Expand(uint64(rapid.Uint32().Draw(rt, "k")), "form", i))
		}
	}
	if c.Kind == "public" || c.Kind == "file" {
		seen := map[uint16]bool{}
		for len(c.IDs) < n {
			if x := id.Draw(rt, "party"); !seen[x] {
				seen[x] = true
				c.IDs = append(c.IDs, x)
			}
		}
		c.IDs = ref.Sorted(c.IDs)
		c.T = rapid.IntRange(0, n-1).Draw(rt, "t")
	}
	c.Pre = rapid.SliceOfN(rapid.Byte(), 0, 6).Draw(rt, "pre")
	return c
}

func (c *formCase) elem(i int) *ristretto.Element {
	e := sim.Elem(ref.BaseMul(c.K[i]))
	if c.Scale { // the same element with other coordinates
		var a, b ristretto.Element
		a.ScalarBaseMult(sim.Scalar(ref.AddQ(c.K[i], big.NewInt(7))))
		b.ScalarBaseMult(sim.Scalar(big.NewInt(7)))
		e.Subtract(&a, &b)
	}
	return e
}

func (c *formCase) enc(i int) []byte { return ref.Encode(ref.BaseMul(c.K[i])) }

var b64 = base64.StdEncoding.EncodeToString

// sameJSON reports how a document differs from what it has to hold, in whatever order and layout.
func sameJSON(what string, v interface{}, want interface{}) error {
	doc, err := json.Marshal(v)
	if err != nil {
		return fmt.Errorf("%s: %v", what, err)
	}
	w, err := json.Marshal(want)
	if err != nil {
		panic(fmt.Sprintf("harness: %v", err))
	}
	var a, b interface{}
	if err := json.Unmarshal(doc, &a); err != nil {
		return fmt.Errorf("%s: %v", what, err)
	}
	_ = json.Unmarshal(w, &b)
	if !reflect.DeepEqual(a, b) {
		return fmt.Errorf("%s is written as %s instead of %s", what, lib.Clip(doc), lib.Clip(w))
	}
	return nil
}

func sameBytes(what string, got []byte, err error, want []byte) error {
	if err != nil {
		return fmt.Errorf("%s: %v", what, err)
	}
	if !bytes.Equal(got, want) {
		return fmt.Errorf("%s is written as %x instead of %x", what, got, want)
	}
	return nil
}

type appender interface {
	encoding.BinaryMarshaler
	BytesAppend([]byte) ([]byte, error)
	Size() int
}

// binary checks the three ways to a binary form.
func (c *formCase) binary(what string, v appender, want []byte) error {
	b, err := v.MarshalBinary()
	if err := sameBytes(what, b, err, want); err != nil {
		return err
	}
	if v.Size() != len(want) {
		return fmt.Errorf("%s of %d bytes says it takes %d", what, len(want), v.Size())
	}
	pre := append(make([]byte, 0, len(c.Pre)+int(c.ID)%90), c.Pre...)
	b, err = v.BytesAppend(pre)
	return sameBytes(what+" appended to "+fmt.Sprintf("%x", c.Pre), b, err, append(append([]byte{}, c.Pre...), want...))
}

func first(errs ...error) error {
	for _, err := range errs {
		if err != nil {
			return err
		}
	}
	return nil
}

func (c *formCase) publicDoc() (map[string]interface{}, map[party.ID]*ristretto.Element, *ref.Pt) {
	shares, elems := map[string]interface{}{}, map[party.ID]*ristretto.Element{}
	sum := big.NewInt(0)
	for i, id := range c.IDs {
		shares[strconv.Itoa(int(id))] = b64(c.enc(i))
		elems[party.ID(id)] = c.elem(i)
		sum = ref.AddQ(sum, ref.MulQ(ref.Lagrange(id, c.IDs), c.K[i]))
	}
	group := ref.BaseMul(sum)
	return map[string]interface{}{"t": c.T, "groupkey": b64(ref.Encode(group)), "shares": shares}, elems, group
}

func (c *formCase) readPublic(doc interface{}, elems map[party.ID]*ristretto.Element, group *ref.Pt) error {
	b, _ := json.Marshal(doc)
	var p eddsa.Public
	if err := json.Unmarshal(b, &p); err != nil {
		return fmt.Errorf("public data %s: %v", lib.Clip(b), err)
	}
	return c.isPublic(&p, group)
}

func (c *formCase) isPublic(p *eddsa.Public, group *ref.Pt) error {
	if p == nil {
		return fmt.Errorf("no public data were read")
	}
	if int(p.Threshold) != c.T || len(p.Shares) != len(c.IDs) || fmt.Sprint(p.PartyIDs) != fmt.Sprint(sim.IDs(c.IDs)) || !bytes.Equal(p.GroupKey.ToEd25519(), ref.EncodeEd(group)) {
		return fmt.Errorf("public data of %v, threshold %d, were read as %v", c.IDs, c.T, publicValue(p))
	}
	for i, id := range c.IDs {
		if e := p.Shares[party.ID(id)]; e == nil || !bytes.Equal(e.Bytes(), c.enc(i)) {
			return fmt.Errorf("the public share of %d was not read", id)
		}
	}
	return nil
}

func (c *formCase) shareDoc(id uint16, k *big.Int) map[string]interface{} {
	return map[string]interface{}{"id": int(id), "secret": b64(ref.ScalarBytes(k))}
}

func isShare(s *eddsa.SecretShare, id uint16, k *big.Int) error {
	if s == nil || uint16(s.ID) != id || !bytes.Equal(s.Secret.Bytes(), ref.ScalarBytes(k)) || !bytes.Equal(s.Public.Bytes(), ref.Encode(ref.BaseMul(k))) {
		return fmt.Errorf("the secret share of %d was read as %+v", id, s)
	}
	return nil
}

// message checks a message, its header and its body.
func (c *formCase) message(m *messages.Message, body appender, want []byte) error {
	var back messages.Message
	err := first(c.binary("a message", m, want), c.binary("a header", &m.Header, want[:5]), c.binary("a message body", body, want[5:]))
	if err == nil {
		err = back.UnmarshalBinary(want)
	}
	if err == nil {
		b, e := back.MarshalBinary()
		err = sameBytes("a message that was read", b, e, want)
	}
	return err
}

func checkForm(c *formCase) lib.Result {
	var err error
	switch c.Kind {
	case "id":
		id := party.ID(c.ID)
		dec := strconv.Itoa(int(c.ID))
		text, e := id.MarshalText()
		err = first(sameBytes("an ID", id.Bytes(), nil, ref.ID16(c.ID)), sameBytes("the text of an ID", text, e, []byte(dec)),
			sameBytes("the string of an ID", []byte(id.String()), nil, []byte(dec)),
			sameBytes("the scalar of an ID", id.Scalar().Bytes(), nil, ref.ScalarBytes(big.NewInt(int64(c.ID)))))
		if back, e := party.FromBytes(ref.ID16(c.ID)); err == nil && (e != nil || back != id) {
			err = fmt.Errorf("%x was read as ID %v (%v)", ref.ID16(c.ID), back, e)
		}
	case "element":
		e := c.elem(0)
		text, e2 := e.MarshalText()
		var back ristretto.Element
		err = first(sameBytes("an element", e.Bytes(), nil, c.enc(0)), sameBytes("the text of an element", text, e2, []byte(b64(c.enc(0)))),
			sameBytes("the string of an element", []byte(e.String()), nil, []byte(b64(c.enc(0)))),
			sameBytes("the Ed25519 form of an element", e.BytesEd25519(), nil, ref.EncodeEd(ref.BaseMul(c.K[0]))),
			sameJSON("an element", e, b64(c.enc(0))), back.UnmarshalText([]byte(b64(c.enc(0)))))
		if err == nil {
			err = sameBytes("an element that was read", back.Bytes(), nil, c.enc(0))
		}
	case "share":
		s := eddsa.NewSecretShare(party.ID(c.ID), sim.Scalar(c.K[0]))
		bin := append(ref.ID16(c.ID), ref.ScalarBytes(c.K[0])...)
		b, e := s.MarshalBinary()
		doc := c.shareDoc(c.ID, c.K[0])
		var s1, s2 eddsa.SecretShare
		err = first(sameBytes("a secret share", b, e, bin), sameJSON("a secret share", s, doc), s1.UnmarshalBinary(bin), isShare(&s1, c.ID, c.K[0]))
		if err == nil {
			d, _ := json.MarshalIndent(doc, " ", "\t")
			err = first(json.Unmarshal(d, &s2), isShare(&s2, c.ID, c.K[0]))
		}
	case "public":
		doc, elems, group := c.publicDoc()
		p, e := eddsa.NewPublic(elems, party.Size(c.T))
		if e != nil {
			return lib.Fail("NewPublic: %v", e)
		}
		err = first(sameJSON("public data", p, doc), c.readPublic(doc, elems, group))
	case "publickey":
		pk := eddsa.NewPublicKeyFromPoint(c.elem(0))
		want := b64(c.enc(0))
		var back eddsa.PublicKey
		err = first(sameJSON("a public key", pk, want), sameJSON("a public key by value", *pk, want), sameBytes("a public key", pk.ToEd25519(), nil, ref.EncodeEd(ref.BaseMul(c.K[0]))),
			json.Unmarshal([]byte(strconv.Quote(want)), &back))
		if err == nil && !bytes.Equal(back.ToEd25519(), ref.EncodeEd(ref.BaseMul(c.K[0]))) {
			err = fmt.Errorf("public key %s was read as %x", want, []byte(back.ToEd25519()))
		}
	case "signature":
		sig := &eddsa.Signature{R: *c.elem(0), S: *sim.Scalar(c.K[1])}
		bin := append(c.enc(0), ref.ScalarBytes(c.K[1])...)
		var back eddsa.Signature
		err = first(c.binary("a signature", sig, bin),
			sameBytes("the Ed25519 form of a signature", sig.ToEd25519(), nil, append(ref.EncodeEd(ref.BaseMul(c.K[0])), ref.ScalarBytes(c.K[1])...)), back.UnmarshalBinary(bin))
		if err == nil && (!bytes.Equal(back.R.Bytes(), c.enc(0)) || !bytes.Equal(back.S.Bytes(), ref.ScalarBytes(c.K[1]))) {
			err = fmt.Errorf("signature %x was read as %x %x", bin, back.R.Bytes(), back.S.Bytes())
		}
		_ = ed25519.SignatureSize
	case "keygen1":
		// the polynomial's coefficients are random but the first, so the form is built from what it says
		// of itself: a commitment that is decoded
		var commits []*ref.Pt
		raw := ref.ID16(uint16(len(c.K) - 3))
		for i := 2; i < len(c.K); i++ {
			commits = append(commits, ref.BaseMul(c.K[i]))
			raw = append(raw, c.enc(i)...)
		}
		if len(commits) == 0 {
			commits, raw = []*ref.Pt{ref.BaseMul(c.K[0])}, append(ref.ID16(0), c.enc(0)...)
		}
		exp := &polynomial.Exponent{}
		if e := exp.UnmarshalBinary(raw); e != nil {
			return lib.Fail("commitments %x: %v", raw, e)
		}
		proof := &zk.Schnorr{S: *sim.Scalar(c.K[0]), R: *sim.Scalar(c.K[1])}
		m := messages.NewKeyGen1(party.ID(c.ID), proof, exp)
		err = first(c.binary("a proof", proof, append(ref.ScalarBytes(c.K[0]), ref.ScalarBytes(c.K[1])...)), c.binary("commitments", exp, raw),
			c.message(m, m.KeyGen1, ref.MsgKG1(c.ID, c.K[0], c.K[1], commits)))
		if err == nil && int(exp.Degree()) != len(commits)-1 || err == nil && !bytes.Equal(exp.Constant().Bytes(), ref.Encode(commits[0])) {
			err = fmt.Errorf("commitments %x were read with degree %d, constant %x", raw, exp.Degree(), exp.Constant().Bytes())
		}
	case "keygen2":
		m := messages.NewKeyGen2(party.ID(c.ID), party.ID(c.To), sim.Scalar(c.K[0]))
		err = c.message(m, m.KeyGen2, ref.MsgKG2(c.ID, c.To, c.K[0]))
	case "sign1":
		if c.K[0].Sign() == 0 || c.K[1].Sign() == 0 {
			return lib.Result{}
		}
		m := messages.NewSign1(party.ID(c.ID), c.elem(0), c.elem(1))
		err = c.message(m, m.Sign1, ref.MsgS1(c.ID, ref.BaseMul(c.K[0]), ref.BaseMul(c.K[1])))
	case "sign2":
		m := messages.NewSign2(party.ID(c.ID), sim.Scalar(c.K[0]))
		err = c.message(m, m.Sign2, ref.MsgS2(c.ID, c.K[0]))
	case "file": // as the commands write it
		pub, _, group := c.publicDoc()
		secrets := map[string]interface{}{}
		type keyFile struct {
			Secrets map[party.ID]*eddsa.SecretShare
			Shares  *eddsa.Public
		}
		out := keyFile{Secrets: map[party.ID]*eddsa.SecretShare{}}
		_, elems, _ := c.publicDoc()
		p, e := eddsa.NewPublic(elems, party.Size(c.T))
		if e != nil {
			return lib.Fail("NewPublic: %v", e)
		}
		out.Shares = p
		for i, id := range c.IDs {
			secrets[strconv.Itoa(int(id))] = c.shareDoc(id, c.K[i])
			out.Secrets[party.ID(id)] = eddsa.NewSecretShare(party.ID(id), sim.Scalar(c.K[i]))
		}
		doc := map[string]interface{}{"Secrets": secrets, "Shares": pub}
		b, _ := json.MarshalIndent(doc, "", "  ")
		var in keyFile
		err = first(sameJSON("a key file", out, doc), json.Unmarshal(b, &in))
		if err == nil {
			err = c.isPublic(in.Shares, group)
		}
		for i, id := range c.IDs {
			err = first(err, isShare(in.Secrets[party.ID(id)], id, c.K[i]))
		}
	}
	if err != nil {
		return lib.Fail("%v", err)
	}
	return lib.Result{NonTrivial: true, Labels: []string{"kind:" + c.Kind}}
}

func TestC35Forms(t *testing.T) {
	lib.Run(t, "C35.forms", 1, genForm, checkForm)
}
