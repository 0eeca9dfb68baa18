// Package keys checks stored key material.
package keys

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"math/big"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"

	"github.com/taurusgroup/frost-ed25519/pkg/eddsa"
	"github.com/taurusgroup/frost-ed25519/pkg/frost/party"
	"github.com/taurusgroup/frost-ed25519/pkg/ristretto"
	"github.com/taurusgroup/frost-ed25519/pkg/verif/lib"
	"github.com/taurusgroup/frost-ed25519/pkg/verif/ref"
	"github.com/taurusgroup/frost-ed25519/pkg/verif/sim"
	"pgregory.net/rapid"
)

func shareValue(s *eddsa.SecretShare) string {
	return fmt.Sprintf("id=%d secret=%x public=%x", s.ID, s.Secret.Bytes(), s.Public.Bytes())
}

func publicValue(p *eddsa.Public) string {
	var ids []int
	for id := range p.Shares {
		ids = append(ids, int(id))
	}
	sort.Ints(ids)
	out := fmt.Sprintf("parties=%v threshold=%d", []party.ID(p.PartyIDs), p.Threshold)
	for _, id := range ids {
		if e := p.Shares[party.ID(id)]; e != nil {
			out += fmt.Sprintf(" %d=%x", id, e.Bytes())
		} else {
			out += fmt.Sprintf(" %d=nil", id)
		}
	}
	if p.GroupKey == nil {
		return out + " no group key"
	}
	return out + fmt.Sprintf(" group=%x", []byte(p.GroupKey.ToEd25519()))
}

// ---- C17 ----

// ask asks a value that is about to be decoded into for every form derived
// from what it holds now, so that a form that is remembered rather than
// derived shows after the decoding.
func ask(v interface{}) {
	json.Marshal(v)
	switch x := v.(type) {
	case *eddsa.SecretShare:
		x.MarshalBinary()
		x.Equal(eddsa.NewSecretShare(x.ID, &x.Secret))
		x.Public.BytesEd25519()
		x.Public.Bytes()
		x.Secret.Bytes()
	case *eddsa.Public:
		x.Equal(x)
		ask(x.GroupKey)
		for _, e := range x.Shares {
			e.BytesEd25519()
			e.Bytes()
		}
		for _, id := range x.PartyIDs {
			id.Lagrange(x.PartyIDs)
		}
	case *eddsa.PublicKey:
		x.ToEd25519()
		x.Equal(x)
		var sig eddsa.Signature
		sig.R.Set(ristretto.NewGeneratorElement())
		sig.S.Set(sim.Scalar(big.NewInt(5)))
		x.Verify([]byte("asked"), &sig)
		eddsa.ComputeChallenge(ristretto.NewGeneratorElement(), x, []byte("asked"))
	case *eddsa.Signature:
		x.ToEd25519()
		x.MarshalBinary()
		x.Equal(x)
		eddsa.NewPublicKeyFromPoint(ristretto.NewGeneratorElement()).Verify([]byte("asked"), x)
	}
}

type chainCase struct {
	G      sim.Group
	DKG    bool
	Routes []int // encodings applied to the share of party i: Routes[i%len] in base 5
	PubN   int   // times the public data goes through JSON
	Used   bool  // decode into values that held something else
	Sign   bool
	K      int
	Msg    []byte
	Edge   int // special secrets
}

func hop(s *eddsa.SecretShare, how int, used bool) (*eddsa.SecretShare, error) {
	o := &eddsa.SecretShare{}
	if used {
		o = eddsa.NewSecretShare(77, sim.Scalar(big.NewInt(77)))
		ask(o)
	}
	switch how % 5 {
	case 0:
		b, err := s.MarshalBinary()
		if err != nil {
			return nil, err
		}
		err = o.UnmarshalBinary(b)
		for i := range b {
			b[i] = 0xee
		}
		return o, err
	case 1:
		b, err := json.Marshal(s)
		if err != nil {
			return nil, err
		}
		err = json.Unmarshal(b, o)
		for i := range b {
			b[i] = 0xee
		}
		return o, err
	case 2:
		b, err := s.MarshalJSON()
		if err != nil {
			return nil, err
		}
		return o, o.UnmarshalJSON(b)
	case 3: // inside another document, the way key files hold them
		doc := struct {
			Secrets map[party.ID]*eddsa.SecretShare
		}{map[party.ID]*eddsa.SecretShare{s.ID: s}}
		b, err := json.MarshalIndent(doc, "", "  ")
		if err != nil {
			return nil, err
		}
		var in struct {
			Secrets map[party.ID]*eddsa.SecretShare
		}
		if err := json.Unmarshal(b, &in); err != nil {
			return nil, err
		}
		if len(in.Secrets) != 1 || in.Secrets[s.ID] == nil {
			return nil, fmt.Errorf("a stored map of shares has other keys: %s", b)
		}
		return in.Secrets[s.ID], nil
	default:
		c := *s
		return &c, nil
	}
}

func checkChain(c *chainCase) lib.Result {
	var k *sim.Keys
	var err error
	if c.DKG {
		if k, err = sim.DKG(c.G.IDs, c.G.T, c.G.Seed); err != nil {
			return lib.Fail("key generation: %v", err)
		}
	} else {
		k = sim.Deal(c.G.IDs, c.G.T, c.G.Seed)
	}
	restored := &sim.Keys{IDs: k.IDs, T: k.T, Shares: map[uint16]*eddsa.SecretShare{}}
	hops := 0
	for i, id := range k.IDs {
		orig := k.Shares[id]
		if c.Edge > 0 && !c.Sign && i == 0 {
			x := []*big.Int{big.NewInt(0), big.NewInt(1), new(big.Int).Sub(ref.Q, big.NewInt(1))}[c.Edge%3]
			orig = eddsa.NewSecretShare(party.ID(id), sim.Scalar(x))
		}
		want := shareValue(orig)
		s := orig
		r := c.Routes[i%len(c.Routes)]
		for j := 0; j < 4; j++ {
			hops++
			if s, err = hop(s, r, c.Used); err != nil {
				return lib.Fail("share of %d, encoding %d (hop %d): %v", id, r%5, j, err)
			}
			if got := shareValue(s); got != want {
				return lib.Fail("share of %d after encoding %d (hop %d):\n%s\nit was\n%s", id, r%5, j, got, want)
			}
			if !s.Equal(orig) || !orig.Equal(s) {
				return lib.Fail("restored share of %d is not Equal", id)
			}
			r /= 5
		}
		if shareValue(orig) != want {
			return lib.Fail("encoding changed the share of %d", id)
		}
		restored.Shares[id] = s
	}
	pub := k.Public
	want := publicValue(pub)
	for j := 0; j < c.PubN; j++ {
		b, err := json.Marshal(pub)
		if err != nil {
			return lib.Fail("public data does not encode: %v", err)
		}
		p := &eddsa.Public{}
		if c.Used {
			p = sim.Deal([]uint16{3, 9, 40000}, 2, 1).Public
			ask(p)
		}
		if err := json.Unmarshal(b, p); err != nil {
			return lib.Fail("public data does not decode: %v: %s", err, b)
		}
		for i := range b {
			b[i] = 0xee
		}
		if got := publicValue(p); got != want {
			return lib.Fail("public data after JSON:\n%s\nit was\n%s", got, want)
		}
		if !p.Equal(pub) || !pub.Equal(p) {
			return lib.Fail("restored public data is not Equal")
		}
		pub = p
	}
	// the group key on its own, as a value and as a pointer
	for i, v := range []interface{}{pub.GroupKey, *pub.GroupKey} {
		b, err := json.Marshal(v)
		if err != nil {
			return lib.Fail("public key does not encode: %v", err)
		}
		pk := eddsa.NewPublicKeyFromPoint(ristretto.NewGeneratorElement())
		if !c.Used {
			pk = &eddsa.PublicKey{}
		} else {
			ask(pk)
		}
		if err := json.Unmarshal(b, pk); err != nil {
			return lib.Fail("public key does not decode: %v: %s", err, b)
		}
		if !pk.Equal(pub.GroupKey) || !bytes.Equal(pk.ToEd25519(), pub.GroupKey.ToEd25519()) {
			return lib.Fail("public key changed through JSON (form %d)", i)
		}
	}
	labels := []string{fmt.Sprintf("dkg=%v", c.DKG), fmt.Sprintf("used=%v", c.Used)}
	if c.Sign {
		restored.Public = pub
		signers := c.G.IDs[:int(c.G.T)+1+c.K%(len(c.G.IDs)-int(c.G.T))]
		nodes, err := sim.SignNodes(restored, signers, c.Msg, c.G.Seed)
		if err != nil {
			return lib.Fail("signing with restored material: %v", err)
		}
		if err := sim.Lockstep(nodes, 3); err != nil {
			return lib.Fail("signing with restored material: %v", err)
		}
		for _, n := range nodes {
			if err := sim.CheckSignature(n.SG.Signature, ref.EncodeEd(k.Group), c.Msg); err != nil {
				return lib.Result{Err: err}
			}
			sig := n.SG.Signature
			b, err := sig.MarshalBinary()
			if err != nil {
				return lib.Fail("signature does not encode: %v", err)
			}
			s2 := &eddsa.Signature{}
			if c.Used {
				s2.R.Set(ristretto.NewGeneratorElement())
				s2.S.Set(sim.Scalar(big.NewInt(5)))
				ask(s2)
			}
			if err := s2.UnmarshalBinary(b); err != nil {
				return lib.Fail("signature does not decode: %v", err)
			}
			if !bytes.Equal(s2.ToEd25519(), sig.ToEd25519()) || !s2.Equal(sig) || !sig.Equal(s2) || !pub.GroupKey.Verify(c.Msg, s2) {
				return lib.Fail("signature changed through its binary form")
			}
		}
		labels = append(labels, "signed")
	}
	if shareEdge := c.Edge > 0 && !c.Sign; shareEdge {
		labels = append(labels, "edge-secret")
	}
	return lib.Result{NonTrivial: hops > 0 && c.PubN > 0, Labels: labels}
}

func TestC17Chains(t *testing.T) {
	lib.Run(t, "C17.chains", 1, func(rt *rapid.T) chainCase {
		return chainCase{G: sim.GenGroup(rt, 2, 7), DKG: rapid.IntRange(0, 3).Draw(rt, "dkg") == 0, Routes: rapid.SliceOfN(rapid.IntRange(0, 624), 1, 7).Draw(rt, "routes"),
			PubN: rapid.IntRange(1, 3).Draw(rt, "pubn"), Used: rapid.Bool().Draw(rt, "used"), Sign: rapid.IntRange(0, 2).Draw(rt, "sign") == 0, K: rapid.IntRange(0, 6).Draw(rt, "k"),
			Msg: sim.GenMsg(rt), Edge: rapid.IntRange(0, 3).Draw(rt, "edge")}
	}, checkChain)
}

// Large party sets.
type largeCase struct {
	N    int
	T    uint16
	Seed uint64
	Top  bool // IDs at the upper end
}

func checkLarge(c *largeCase) lib.Result {
	var ids []uint16
	for i := 0; i < c.N; i++ {
		if c.Top {
			ids = append(ids, uint16(65535-c.N+1+i))
		} else {
			ids = append(ids, uint16(1+i*(65534/c.N)))
		}
	}
	k := sim.Deal(ids, c.T, c.Seed)
	b, err := json.Marshal(k.Public)
	if err != nil {
		return lib.Fail("%v", err)
	}
	var p eddsa.Public
	if err := json.Unmarshal(b, &p); err != nil {
		return lib.Fail("public data of %d parties does not decode: %v", c.N, err)
	}
	if publicValue(&p) != publicValue(k.Public) {
		return lib.Fail("public data of %d parties changed through JSON", c.N)
	}
	if !bytes.Equal(p.GroupKey.ToEd25519(), ref.EncodeEd(k.Group)) {
		return lib.Fail("group key of %d parties is wrong", c.N)
	}
	return lib.Result{NonTrivial: true, Labels: []string{fmt.Sprintf("n>=%d", c.N/50*50)}}
}

func TestC17Large(t *testing.T) {
	lib.Run(t, "C17.large", 0.02, func(rt *rapid.T) largeCase {
		n := rapid.IntRange(20, 260).Draw(rt, "n")
		t := rapid.IntRange(0, 19).Draw(rt, "t")
		switch rapid.IntRange(0, 2).Draw(rt, "tkind") {
		case 0:
			t = rapid.IntRange(0, n-1).Draw(rt, "tany")
		case 2: // many shares; taking a thousand of them in takes a second
			if rapid.IntRange(0, 5).Draw(rt, "many") == 0 {
				n = rapid.SampledFrom([]int{500, 513, 900, 1001, 1025, 1300}).Draw(rt, "nmany")
				if lib.Thorough() && rapid.IntRange(0, 3).Draw(rt, "most") == 0 {
					n = rapid.SampledFrom([]int{2049, 4097}).Draw(rt, "nmost")
				}
			}
		case 1: // thresholds that do not fit a byte
			n = rapid.IntRange(258, 330).Draw(rt, "nwide")
			t = rapid.IntRange(254, n-1).Draw(rt, "twide")
		}
		return largeCase{N: n, T: uint16(t), Seed: uint64(rapid.Uint32().Draw(rt, "seed")), Top: rapid.Bool().Draw(rt, "top")}
	}, checkLarge)
}

// ---- C18 ----

type member struct{ Key, Val string } // raw JSON text: the key with quotes, the value

type docCase struct {
	T      string // raw value of "t", "" leaves the field out
	GK     string
	Shares string // raw text replacing the whole member, "" uses Members
	Member []member
	NoSh   bool
	Extra  string // further members
	Raw    []byte // the document itself, if not empty
	Prev   bool   // the receiver already holds a key
	How    string
}

func (c *docCase) text() []byte {
	if len(c.Raw) > 0 {
		return c.Raw
	}
	var ms []string
	if c.T != "" {
		ms = append(ms, `"t":`+c.T)
	}
	if c.GK != "" {
		ms = append(ms, `"groupkey":`+c.GK)
	}
	if c.Shares != "" {
		ms = append(ms, `"shares":`+c.Shares)
	} else if !c.NoSh {
		var ss []string
		for _, m := range c.Member {
			ss = append(ss, m.Key+":"+m.Val)
		}
		ms = append(ms, `"shares":{`+strings.Join(ss, ",")+"}")
	}
	if c.Extra != "" {
		ms = append(ms, c.Extra)
	}
	return []byte("{" + strings.Join(ms, ",") + "}")
}

var (
	intForm = regexp.MustCompile(`^(0|-?[1-9][0-9]{0,8})$`)
	keyForm = regexp.MustCompile(`^"(0|[1-9][0-9]{0,6})"$`)
	b64Form = regexp.MustCompile(`^"[A-Za-z0-9+/]{43}="$`)
)

// notB64 holds for a string that is not base64 of 32 bytes in any dialect: it contains a character of no
// base64 alphabet, or more or fewer letters than 32 bytes take.
func notB64(raw string) bool {
	if len(raw) < 2 || raw[0] != '"' || raw[len(raw)-1] != '"' || strings.ContainsRune(raw, '\\') {
		return false
	}
	letters := 0
	for _, r := range raw[1 : len(raw)-1] {
		switch {
		case r >= 'A' && r <= 'Z', r >= 'a' && r <= 'z', r >= '0' && r <= '9', r == '+', r == '/', r == '-', r == '_':
			letters++
		case r == '=', r == ' ', r == '\t':
		default:
			return true
		}
	}
	return letters != 43
}

func elem(raw string) (p *ref.Pt, plain, ok bool) {
	if notB64(raw) {
		return nil, true, false
	}
	if !b64Form.MatchString(raw) {
		return nil, raw == "null" || raw == `""` || intForm.MatchString(raw), false
	}
	b, err := base64.StdEncoding.Strict().DecodeString(raw[1 : len(raw)-1])
	if err != nil {
		return nil, false, false
	}
	p, ok = ref.Decode(b)
	return p, true, ok
}

// verdict says what the property demands: accept, reject, or nothing (forms it does not settle).
func (c *docCase) verdict() string {
	if len(c.Raw) > 0 || c.Shares != "" || c.Extra != "" {
		return "open"
	}
	if c.NoSh || c.T == "" || c.GK == "" || c.T == "null" || c.GK == "null" {
		if c.T == "" || c.T == "null" {
			if c.NoSh || c.GK == "" || c.GK == "null" {
				return "reject"
			}
			return "open"
		}
		return "reject"
	}
	if !intForm.MatchString(c.T) {
		return "open"
	}
	t, _ := strconv.Atoi(c.T)
	v := "accept"
	g, plain, ok := elem(c.GK)
	if !ok {
		if !plain {
			return "open"
		}
		v = "reject"
	}
	seen := map[int]bool{}
	var ids []uint16
	pts := map[uint16]*ref.Pt{}
	for _, m := range c.Member {
		if !keyForm.MatchString(m.Key) {
			return "open"
		}
		id, _ := strconv.Atoi(m.Key[1 : len(m.Key)-1])
		if seen[id] {
			return "open"
		}
		seen[id] = true
		p, plain, ok := elem(m.Val)
		if !ok && !plain {
			return "open"
		}
		if !ok || id < 1 || id > 65535 {
			v = "reject"
			continue
		}
		ids = append(ids, uint16(id))
		pts[uint16(id)] = p
	}
	if t < 0 || t >= len(c.Member) {
		v = "reject"
	}
	if v == "accept" {
		sum := ref.Identity()
		for _, id := range ids {
			sum = ref.Add(sum, ref.Mul(ref.Lagrange(id, ids), pts[id]))
		}
		if !ref.Equal(sum, g) {
			return "reject"
		}
		if t == 0 {
			return "open"
		}
	}
	return v
}

// consistent is what must hold for any accepted public data.
func consistent(p *eddsa.Public) error {
	if p.GroupKey == nil {
		return fmt.Errorf("accepted without a group key")
	}
	var ids []uint16
	for id, e := range p.Shares {
		if id == 0 {
			return fmt.Errorf("accepted with party ID 0")
		}
		if e == nil {
			return fmt.Errorf("accepted with a missing share for %d", id)
		}
		if _, ok := ref.Decode(e.Bytes()); !ok {
			return fmt.Errorf("accepted with an unusable share for %d", id)
		}
		ids = append(ids, uint16(id))
	}
	ids = ref.Sorted(ids)
	if len(p.PartyIDs) != len(ids) {
		return fmt.Errorf("party list %v does not match the %d shares", p.PartyIDs, len(ids))
	}
	for i, id := range ids {
		if uint16(p.PartyIDs[i]) != id {
			return fmt.Errorf("party list %v does not match the shares of %v", p.PartyIDs, ids)
		}
	}
	if int(p.Threshold) >= len(ids) {
		return fmt.Errorf("accepted with threshold %d for %d shares", p.Threshold, len(ids))
	}
	sum := ref.Identity()
	for _, id := range ids {
		sum = ref.Add(sum, ref.Mul(ref.Lagrange(id, ids), sim.Pt(p.Shares[party.ID(id)])))
	}
	if !bytes.Equal(p.GroupKey.ToEd25519(), ref.EncodeEd(sum)) {
		return fmt.Errorf("accepted with a group key that is not the interpolation of the shares")
	}
	return nil
}

func checkDoc(c *docCase) lib.Result {
	doc := c.text()
	verdict := c.verdict()
	p := &eddsa.Public{}
	before := ""
	if c.Prev {
		p = sim.Deal([]uint16{3, 9, 40000}, 2, 1).Public
	}
	before = publicValue(p)
	in := append([]byte{}, doc...)
	err := json.Unmarshal(in, p)
	if !bytes.Equal(in, doc) {
		return lib.Fail("loading changed the document")
	}
	trivialNull := err == nil && strings.TrimSpace(string(doc)) == "null"
	res := lib.Result{NonTrivial: true, Labels: []string{"how=" + c.How, "verdict=" + verdict, fmt.Sprintf("accepted=%v", err == nil)}}
	if err != nil {
		if verdict == "accept" {
			return lib.Fail("consistent public data rejected: %v: %s", err, doc)
		}
		if got := publicValue(p); got != before {
			return lib.Fail("rejected document (%v) changed the receiver:\n%s\nit was\n%s\ndocument %s", err, got, before, doc)
		}
	} else {
		if verdict == "reject" {
			return lib.Fail("accepted: %s", doc)
		}
		if trivialNull && publicValue(p) == before {
			return res
		}
		if err := consistent(p); err != nil {
			return lib.Fail("%v: %s", err, doc)
		}
		if verdict == "accept" {
			if fmt.Sprint(int(p.Threshold)) != c.T {
				return lib.Fail("threshold %d taken from %s", p.Threshold, doc)
			}
			if len(p.Shares) != len(c.Member) {
				return lib.Fail("%d shares taken from %s", len(p.Shares), doc)
			}
			for _, m := range c.Member {
				id, _ := strconv.Atoi(m.Key[1 : len(m.Key)-1])
				if e := p.Shares[party.ID(id)]; e == nil || `"`+base64.StdEncoding.EncodeToString(e.Bytes())+`"` != m.Val {
					return lib.Fail("share of %d differs from the document %s", id, doc)
				}
			}
		}
	}
	// the direct method
	q := &eddsa.Public{}
	if err2 := q.UnmarshalJSON(append([]byte{}, doc...)); err2 == nil {
		if verdict == "reject" {
			return lib.Fail("UnmarshalJSON accepts %s", doc)
		}
		if err := consistent(q); err != nil {
			return lib.Fail("%v: %s", err, doc)
		}
	} else if err == nil && !trivialNull {
		return lib.Fail("UnmarshalJSON rejects (%v) what json.Unmarshal accepts: %s", err2, doc)
	}
	// the same bytes as other kinds of key material
	if err := secretDoc(doc); err != nil {
		return lib.Result{Err: err}
	}
	var pk eddsa.PublicKey
	_ = json.Unmarshal(doc, &pk)
	return res
}

func quote(b []byte) string { return `"` + base64.StdEncoding.EncodeToString(b) + `"` }

// nearText is a text close to the base64 form of b.
func nearText(rt *rapid.T, b []byte) string {
	t := base64.StdEncoding.EncodeToString(b)
	switch rapid.IntRange(0, 4).Draw(rt, "nearKind") {
	case 0:
		t += rapid.SampledFrom([]string{"!", "AAAA", "A", "=", "====", "!!!!", t, "%00", ".", "AA=="}).Draw(rt, "tail")
	case 1:
		t = rapid.SampledFrom([]string{"!", "AAAA", "A", "=", "$", "."}).Draw(rt, "head") + t
	case 2:
		t = t[:rapid.IntRange(0, len(t)-1).Draw(rt, "cut")]
	case 3:
		at := rapid.IntRange(0, len(t)-2).Draw(rt, "at")
		t = t[:at] + rapid.SampledFrom([]string{"!", "*", ".", "~", "?"}).Draw(rt, "char") + t[at+1:]
	default:
		at := rapid.IntRange(1, len(t)-2).Draw(rt, "at")
		t = t[:at] + rapid.SampledFrom([]string{"!", "AAAA", "*", "===="}).Draw(rt, "ins") + t[at:]
	}
	return "\"" + t + "\""
}

func genDoc(rt *rapid.T) docCase {
	n := rapid.IntRange(1, 5).Draw(rt, "n")
	ids := sim.GenIDs(rt, n)
	t := rapid.IntRange(0, n-1).Draw(rt, "t")
	k := sim.Deal(ids, uint16(t), uint64(rapid.Uint32().Draw(rt, "seed")))
	c := docCase{T: fmt.Sprint(t), GK: quote(ref.Encode(k.Group)), Prev: rapid.Bool().Draw(rt, "prev"), How: "valid"}
	for _, id := range ids {
		c.Member = append(c.Member, member{fmt.Sprintf("%q", fmt.Sprint(id)), quote(ref.Encode(k.Pub[id]))})
	}
	badElem := func() string {
		if rapid.IntRange(0, 3).Draw(rt, "near") == 0 {
			g := ref.Encode(k.Group)
			if len(c.Member) > 0 {
				g = ref.Encode(k.Pub[ids[rapid.IntRange(0, len(ids)-1).Draw(rt, "of")]])
			}
			return nearText(rt, g)
		}
		return rapid.SampledFrom([]string{"null", `""`, "0", "{}", "[]", "true", `"AA=="`, `"!"`, quote(bytes.Repeat([]byte{0xff}, 32)), quote(append([]byte{1}, make([]byte, 31)...)),
			quote(make([]byte, 32)), quote(make([]byte, 31)), quote(make([]byte, 33)), quote(ref.FieldBytes(ref.P)), quote(ref.Encode(ref.B)), `"` + base64.RawStdEncoding.EncodeToString(ref.Encode(ref.B)) + `"`}).Draw(rt, "elem")
	}
	muts := rapid.IntRange(0, 2).Draw(rt, "muts")
	for i := 0; i < muts; i++ {
		kind := rapid.SampledFrom([]string{"t", "t", "gk", "share", "drop", "add", "key", "swap", "field", "raw"}).Draw(rt, "mut")
		c.How = kind
		j := 0
		if len(c.Member) > 0 {
			j = rapid.IntRange(0, len(c.Member)-1).Draw(rt, "j")
		}
		switch kind {
		case "t":
			c.T = rapid.SampledFrom([]string{fmt.Sprint(n), fmt.Sprint(n - 1), fmt.Sprint(n + 1), "-1", fmt.Sprint(65536 + t), fmt.Sprint(65536), fmt.Sprint(-65536 + t), "65535", "4294967296", "4294967297", "18446744073709551616", "9223372036854775808",
				"1e0", "1.0", "0.5", "-0", `"1"`, "null", "", "true", "{}", "0", "1", "2"}).Draw(rt, "tv")
		case "gk":
			if rapid.Bool().Draw(rt, "other") {
				c.GK = quote(ref.Encode(ref.Add(k.Group, ref.BaseMul(big.NewInt(int64(rapid.IntRange(1, 3).Draw(rt, "d")))))))
			} else {
				c.GK = badElem()
				if c.GK == `""` && rapid.Bool().Draw(rt, "missing") {
					c.GK = ""
				}
			}
		case "share":
			if len(c.Member) > 0 {
				c.Member[j].Val = badElem()
			}
		case "drop":
			if len(c.Member) > 0 {
				c.Member = append(append([]member{}, c.Member[:j]...), c.Member[j+1:]...)
			}
		case "add":
			id := rapid.SampledFrom([]string{"0", "1", "2", "65535", "65536", "65537", "131073"}).Draw(rt, "id")
			v := quote(ref.Encode(ref.Identity()))
			switch rapid.IntRange(0, 2).Draw(rt, "av") {
			case 0: // a value that fits the polynomial, if the ID were taken modulo 2^16
				x, _ := strconv.Atoi(id)
				v = quote(ref.Encode(ref.BaseMul(ref.Eval(k.Coef, big.NewInt(int64(uint16(x)))))))
			case 1:
				x, _ := strconv.Atoi(id)
				v = quote(ref.Encode(ref.BaseMul(ref.Eval(k.Coef, big.NewInt(int64(x))))))
			}
			c.Member = append(c.Member, member{fmt.Sprintf("%q", id), v})
		case "key":
			if len(c.Member) > 0 {
				old := strings.Trim(c.Member[j].Key, `"`)
				x, _ := strconv.Atoi(old)
				c.Member[j].Key = fmt.Sprintf("%q", rapid.SampledFrom([]string{"0", "65536", "-1", fmt.Sprint(65536 + x), fmt.Sprint(x - 65536), "0" + old, "+" + old, " " + old, old + " ", "", "x", "0x1", old + ".0", "1_0", "18446744073709551617"}).Draw(rt, "key"))
			}
		case "swap":
			if len(c.Member) > 1 {
				l := (j + 1) % len(c.Member)
				c.Member[j].Val, c.Member[l].Val = c.Member[l].Val, c.Member[j].Val
			}
		case "field":
			switch rapid.IntRange(0, 4).Draw(rt, "field") {
			case 0:
				c.NoSh = true
			case 1:
				c.Shares = rapid.SampledFrom([]string{"null", "{}", "[]", `"x"`, "3", `{"1":`, `{"1":{}}`, `[["1","AA=="]]`}).Draw(rt, "shares")
			case 2:
				c.Extra = `"t":` + rapid.SampledFrom([]string{"0", "1", "70000", "null", "-1"}).Draw(rt, "dupt")
			case 3:
				c.Extra = `"shares":{"1":` + badElem() + "}"
			default:
				c.Extra = rapid.SampledFrom([]string{`"T":1`, `"groupkey":null`, `"GroupKey":"AA=="`, `"x":[]`, `"shares":null`, `"SHARES":{}`}).Draw(rt, "extra")
			}
		case "raw":
			d := c.text()
			switch rapid.IntRange(0, 5).Draw(rt, "rawkind") {
			case 0:
				d = d[:rapid.IntRange(0, len(d)).Draw(rt, "cut")]
			case 1:
				if len(d) > 0 {
					d[rapid.IntRange(0, len(d)-1).Draw(rt, "at")] = rapid.Byte().Draw(rt, "v")
				}
			case 2:
				d = []byte(rapid.SampledFrom([]string{"null", "{}", "[]", "0", `""`, "{}{}", " ", "nul", "\xff", `{"t":0}`, `{"t":0,"groupkey":"AAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAA=","shares":{}}`}).Draw(rt, "lit"))
			case 3:
				d = []byte("[" + string(d) + "]")
			case 4:
				d = append(d, d...)
			default:
				d = rapid.SliceOfN(rapid.Byte(), 1, 60).Draw(rt, "bytes")
			}
			if len(d) == 0 {
				d = []byte{' '}
			}
			c.Raw = d
		}
	}
	return c
}

// Large party sets: the same rules, checked with field arithmetic on the secret side.
type wideCase struct {
	N, T  int
	Seed  uint64
	Mut   string
	At, D int
}

func checkWideDoc(c *wideCase) lib.Result {
	var ids []uint16
	for i := 0; i < c.N; i++ {
		ids = append(ids, uint16(1+i*(65534/c.N)))
	}
	k := sim.Deal(ids, uint16(c.T), c.Seed)
	d := docCase{T: fmt.Sprint(c.T), GK: quote(ref.Encode(k.Group)), How: c.Mut}
	for _, id := range ids {
		d.Member = append(d.Member, member{fmt.Sprintf("%q", fmt.Sprint(id)), quote(ref.Encode(k.Pub[id]))})
	}
	at := c.At % c.N
	other := func(p *ref.Pt) string { return quote(ref.Encode(ref.Add(p, ref.BaseMul(big.NewInt(int64(1+c.D)))))) }
	good := false
	switch c.Mut {
	case "valid":
		good = true
	case "group":
		d.GK = other(k.Group)
	case "share":
		d.Member[at].Val = other(k.Pub[ids[at]])
	case "swap":
		to := (at + 1 + c.D%(c.N-1)) % c.N
		d.Member[at].Val, d.Member[to].Val = d.Member[to].Val, d.Member[at].Val
	case "drop": // fewer than T+1 shares remain only if T = N-1; otherwise the rest still determines the key
		d.Member = append(d.Member[:at], d.Member[at+1:]...)
		good = c.T < c.N-1
	case "null":
		d.Member[at].Val = "null"
	case "key":
		d.Member[at].Key = `"0"`
	case "t":
		d.T = fmt.Sprint(c.N + c.D%3)
	case "shift": // consistent with another group key altogether
		d.GK = quote(ref.Encode(ref.BaseMul(ref.Eval(k.Coef, big.NewInt(int64(ids[at]))))))
	}
	p := &eddsa.Public{}
	err := json.Unmarshal(d.text(), p)
	if good && err != nil {
		return lib.Fail("consistent public data of %d parties (threshold %d, %s) rejected: %v", c.N, c.T, c.Mut, err)
	}
	if !good && err == nil {
		return lib.Fail("public data of %d parties (threshold %d) accepted after %s at %d", c.N, c.T, c.Mut, at)
	}
	if good {
		if int(p.Threshold) != c.T || len(p.Shares) != len(d.Member) || len(p.PartyIDs) != len(d.Member) || !bytes.Equal(p.GroupKey.ToEd25519(), ref.EncodeEd(k.Group)) {
			return lib.Fail("public data of %d parties (threshold %d, %s) loads as %s", c.N, c.T, c.Mut, publicValue(p))
		}
	}
	return lib.Result{NonTrivial: true, Labels: []string{"how=" + c.Mut, fmt.Sprintf("n>=%d", c.N/50*50)}}
}

func TestC18Wide(t *testing.T) {
	lib.Run(t, "C18.wide", 0.02, func(rt *rapid.T) wideCase {
		n := rapid.IntRange(6, 300).Draw(rt, "n")
		tt := rapid.IntRange(1, n-1).Draw(rt, "t")
		if rapid.Bool().Draw(rt, "small") {
			tt = rapid.IntRange(1, 5).Draw(rt, "tsmall")
		}
		return wideCase{N: n, T: tt, Seed: uint64(rapid.Uint32().Draw(rt, "seed")), At: rapid.IntRange(0, n-1).Draw(rt, "at"), D: rapid.IntRange(0, 400).Draw(rt, "d"),
			Mut: rapid.SampledFrom([]string{"valid", "group", "share", "swap", "drop", "null", "key", "t", "shift"}).Draw(rt, "mut")}
	}, checkWideDoc)
}

func TestC18Public(t *testing.T) { lib.Run(t, "C18.public", 1, genDoc, checkDoc) }

// secretDoc loads bytes as a secret share in both forms.
func secretDoc(doc []byte) error {
	var s eddsa.SecretShare
	if err := s.UnmarshalBinary(append([]byte{}, doc...)); err == nil {
		if len(doc) != 34 {
			return fmt.Errorf("binary secret share of %d bytes accepted", len(doc))
		}
		x, ok := ref.ParseScalar(doc[2:])
		if !ok {
			return fmt.Errorf("binary secret share with a non-canonical scalar accepted: %x", doc)
		}
		if uint16(s.ID) != uint16(doc[0])<<8|uint16(doc[1]) || sim.Int(&s.Secret).Cmp(x) != 0 || !bytes.Equal(s.Public.Bytes(), ref.Encode(ref.BaseMul(x))) {
			return fmt.Errorf("binary secret share %x loaded as %s", doc, shareValue(&s))
		}
	} else if len(doc) == 34 {
		if _, ok := ref.ParseScalar(doc[2:]); ok && (doc[0] != 0 || doc[1] != 0) {
			return fmt.Errorf("valid binary secret share rejected (%v): %x", err, doc)
		}
	}
	var j eddsa.SecretShare
	if err := json.Unmarshal(doc, &j); err == nil && strings.TrimSpace(string(doc)) != "null" {
		if !bytes.Equal(j.Public.Bytes(), ref.Encode(ref.BaseMul(sim.Int(&j.Secret)))) {
			return fmt.Errorf("secret share %s loaded with a public share that does not match", doc)
		}
	}
	return nil
}

type secCase struct {
	ID, Secret string
	Raw        []byte
	Prev       bool
	How        string
}

func (c *secCase) text() []byte {
	if len(c.Raw) > 0 {
		return c.Raw
	}
	var ms []string
	if c.ID != "" {
		ms = append(ms, `"id":`+c.ID)
	}
	if c.Secret != "" {
		ms = append(ms, `"secret":`+c.Secret)
	}
	return []byte("{" + strings.Join(ms, ",") + "}")
}

func checkSec(c *secCase) lib.Result {
	doc := c.text()
	if err := secretDoc(doc); err != nil {
		return lib.Result{Err: err}
	}
	s := &eddsa.SecretShare{}
	if c.Prev {
		s = eddsa.NewSecretShare(77, sim.Scalar(big.NewInt(77)))
	}
	err := json.Unmarshal(append([]byte{}, doc...), s)
	res := lib.Result{NonTrivial: true, Labels: []string{"how=" + c.How, fmt.Sprintf("accepted=%v", err == nil)}}
	if len(c.Raw) > 0 {
		return res
	}
	verdict := "open"
	var id int
	var x *big.Int
	if c.Secret == "" || c.Secret == "null" {
		verdict = "reject"
	} else if notB64(c.Secret) {
		verdict = "reject"
	} else if len(c.Secret) > 1 && c.Secret[0] == '"' {
		b, berr := base64.StdEncoding.Strict().DecodeString(strings.Trim(c.Secret, `"`))
		var ok bool
		if berr == nil {
			x, ok = ref.ParseScalar(b)
		}
		switch {
		case berr != nil:
		case !ok:
			verdict = "reject"
		default:
			verdict = "accept"
		}
	}
	switch {
	case c.ID == "" || c.ID == "null":
		if verdict == "accept" {
			verdict = "open"
		}
	case intForm.MatchString(c.ID):
		id, _ = strconv.Atoi(c.ID)
		if id < 0 || id > 65535 {
			verdict = "reject"
		} else if id == 0 && verdict == "accept" {
			verdict = "open"
		}
	case regexp.MustCompile(`^-?[1-9][0-9]+$`).MatchString(c.ID):
		verdict = "reject"
	default:
		if verdict == "accept" {
			verdict = "open"
		}
	}
	res.Labels = append(res.Labels, "verdict="+verdict)
	switch {
	case err != nil && verdict == "accept":
		return lib.Fail("secret share rejected (%v): %s", err, doc)
	case err == nil && verdict == "reject":
		return lib.Fail("accepted as %s: %s", shareValue(s), doc)
	case verdict == "accept":
		if int(s.ID) != id || sim.Int(&s.Secret).Cmp(x) != 0 || !bytes.Equal(s.Public.Bytes(), ref.Encode(ref.BaseMul(x))) {
			return lib.Fail("%s loaded as %s", doc, shareValue(s))
		}
	}
	return res
}

func TestC18Secret(t *testing.T) {
	lib.Run(t, "C18.secret", 0.7, func(rt *rapid.T) secCase {
		x := ref.Expand(uint64(rapid.Uint32().Draw(rt, "seed")), "sec", 0)
		id := rapid.Uint16Range(1, 65535).Draw(rt, "id")
		c := secCase{ID: fmt.Sprint(id), Secret: quote(ref.ScalarBytes(x)), Prev: rapid.Bool().Draw(rt, "prev"), How: "valid"}
		if rapid.Bool().Draw(rt, "mutid") {
			c.How = "id"
			c.ID = rapid.SampledFrom([]string{fmt.Sprint(int(id) + 65536), fmt.Sprint(int(id) - 65536), "-1", "0", "65535", "65536", "4294967297", "18446744073709551617", "1e2", "1.5", `"5"`, "null", "", "[]"}).Draw(rt, "idv")
		}
		if rapid.Bool().Draw(rt, "mutsec") {
			c.How = "secret"
			if rapid.IntRange(0, 2).Draw(rt, "near") == 0 {
				c.Secret = nearText(rt, ref.ScalarBytes(x))
			} else {
				c.Secret = rapid.SampledFrom([]string{"", "null", `""`, "5", "[]", "[1,2]", `"AA"`, quote(make([]byte, 31)), quote(make([]byte, 33)), quote(make([]byte, 64)), quote(make([]byte, 32)),
					quote(ref.FieldBytes(ref.Q)), quote(ref.FieldBytes(new(big.Int).Add(ref.Q, x))), quote(ref.FieldBytes(new(big.Int).Sub(ref.Q, big.NewInt(1)))), quote(bytes.Repeat([]byte{0xff}, 32))}).Draw(rt, "secv")
			}
		}
		switch rapid.IntRange(0, 5).Draw(rt, "raw") {
		case 4: // the binary form, valid or damaged
			b := append(ref.ID16(id), ref.ScalarBytes(x)...)
			switch rapid.IntRange(0, 4).Draw(rt, "bin") {
			case 0:
				b = append(ref.ID16(id), ref.FieldBytes(new(big.Int).Add(ref.Q, big.NewInt(int64(rapid.IntRange(0, 9).Draw(rt, "o")))))...)
			case 1:
				b = b[:rapid.IntRange(1, 34).Draw(rt, "cut")]
			case 2:
				b = append(b, rapid.Byte().Draw(rt, "x"))
			case 3:
				b[rapid.IntRange(0, 33).Draw(rt, "at")] ^= 1 << uint(rapid.IntRange(0, 7).Draw(rt, "bit"))
			}
			c.Raw, c.How = b, "binary"
		case 5:
			d := c.text()
			if rapid.Bool().Draw(rt, "trunc") {
				d = d[:rapid.IntRange(1, len(d)).Draw(rt, "cut")]
			} else {
				d[rapid.IntRange(0, len(d)-1).Draw(rt, "at")] = rapid.Byte().Draw(rt, "v")
			}
			c.Raw, c.How = d, "damaged"
		}
		return c
	}, checkSec)
}

// The constructor that files go through.
type newCase struct {
	G      sim.Group
	T      int
	Zero   bool
	Nil    bool
	Remove int
}

func checkNew(c *newCase) lib.Result {
	k := sim.Deal(c.G.IDs, c.G.T, c.G.Seed)
	m := map[party.ID]*ristretto.Element{}
	for i, id := range c.G.IDs {
		if i < c.Remove {
			continue
		}
		m[party.ID(id)] = sim.Elem(k.Pub[id])
	}
	if c.Zero {
		m[0] = sim.Elem(k.Group)
	}
	if c.Nil {
		m[party.ID(c.G.IDs[len(c.G.IDs)-1])] = nil
	}
	bad := c.Zero || c.Nil || c.T >= len(m)
	p, err := eddsa.NewPublic(m, party.Size(c.T))
	if bad && err == nil {
		return lib.Fail("NewPublic accepts threshold %d, %d shares, zero=%v, nil=%v", c.T, len(m), c.Zero, c.Nil)
	}
	if !bad && c.T > 0 && err != nil {
		return lib.Fail("NewPublic refuses threshold %d for %d shares: %v", c.T, len(m), err)
	}
	if err == nil {
		if err := consistent(p); err != nil {
			return lib.Result{Err: err}
		}
		if int(p.Threshold) != c.T {
			return lib.Fail("threshold %d became %d", c.T, p.Threshold)
		}
	}
	return lib.Result{NonTrivial: true, Labels: []string{fmt.Sprintf("bad=%v", bad)}}
}

func TestC18New(t *testing.T) {
	lib.Run(t, "C18.new", 0.3, func(rt *rapid.T) newCase {
		c := newCase{G: sim.GenGroup(rt, 2, 5), Zero: rapid.IntRange(0, 3).Draw(rt, "zero") == 0, Nil: rapid.IntRange(0, 3).Draw(rt, "nil") == 0, Remove: rapid.IntRange(0, 5).Draw(rt, "rm")}
		c.T = rapid.SampledFrom([]int{0, 1, 2, int(c.G.T), len(c.G.IDs), len(c.G.IDs) - 1, 65535}).Draw(rt, "t")
		return c
	}, checkNew)
}

// FuzzC18 is the coverage-guided form, used by the thorough tier.
func FuzzC18(f *testing.F) {
	k := sim.Deal([]uint16{1, 2, 65535}, 1, 1)
	b, _ := json.Marshal(k.Public)
	f.Add(b)
	b, _ = json.Marshal(k.Shares[65535])
	f.Add(b)
	b, _ = k.Shares[1].MarshalBinary()
	f.Add(b)
	f.Add([]byte(`{"t":0,"groupkey":null,"shares":{"1":null}}`))
	var mu sync.Mutex
	f.Fuzz(func(t *testing.T, doc []byte) {
		if len(doc) == 0 || len(doc) > 4000 {
			return
		}
		c := docCase{Raw: doc, How: "fuzz", Prev: true}
		var res lib.Result
		func() {
			defer func() {
				if r := recover(); r != nil {
					res.Err = fmt.Errorf("panic: %v", r)
				}
			}()
			res = checkDoc(&c)
		}()
		if res.Err != nil {
			mu.Lock()
			defer mu.Unlock()
			raw, _ := json.Marshal(c)
			out, _ := json.MarshalIndent(lib.Replay{Property: "C18", Sub: "C18.public", Error: res.Err.Error(), Case: raw}, "", " ")
			if d := os.Getenv("VERIF_OUT"); d != "" {
				_ = os.WriteFile(filepath.Join(d, "fail-C18.public.json"), out, 0o644)
			}
			t.Fatal(res.Err)
		}
	})
}
