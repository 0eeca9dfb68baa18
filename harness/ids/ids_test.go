// Package ids checks party identifiers and party sets (C26).
package ids

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/big"
	"runtime"
	"sort"
	"strconv"
	"testing"
	"time"

	"github.com/taurusgroup/frost-ed25519/pkg/frost/party"
	"github.com/taurusgroup/frost-ed25519/pkg/helpers"
	"github.com/taurusgroup/frost-ed25519/pkg/verif/lib"
	"github.com/taurusgroup/frost-ed25519/pkg/verif/ref"
	"pgregory.net/rapid"
)

// ---- every ID ----

type allCase struct {
	Tail []byte // appended to the binary form
	Old  uint16 // value of the receiver before
}

func checkID(id uint16, c *allCase) error {
	p := party.ID(id)
	want := []byte{byte(id >> 8), byte(id)}
	b := p.Bytes()
	if !bytes.Equal(b, want) {
		return fmt.Errorf("ID %d has bytes %x", id, b)
	}
	in := append(append([]byte{}, b...), c.Tail...)
	if got, err := party.FromBytes(in); err != nil || got != p {
		return fmt.Errorf("FromBytes(%x) = %d, %v", in, got, err)
	}
	b[0] ^= 0xff // the caller owns the bytes
	if !bytes.Equal(p.Bytes(), want) {
		return fmt.Errorf("the bytes of %d are shared", id)
	}
	text, err := p.MarshalText()
	dec := strconv.Itoa(int(id))
	if err != nil || string(text) != dec || p.String() != dec {
		return fmt.Errorf("ID %d has text %q (%v) and string %q", id, text, err, p.String())
	}
	q := party.ID(c.Old)
	if err := q.UnmarshalText(text); err != nil || q != p {
		return fmt.Errorf("text %q decodes to %d, %v", text, q, err)
	}
	if got := ref.Int(p.Scalar().Bytes()); got.Cmp(big.NewInt(int64(id))) != 0 {
		return fmt.Errorf("ID %d is scalar %v", id, got)
	}
	sc := p.Scalar() // the caller owns the scalar
	sc.Add(sc, sc)
	if got := ref.Int(p.Scalar().Bytes()); got.Cmp(big.NewInt(int64(id))) != 0 {
		return fmt.Errorf("the scalar of %d is shared", id)
	}
	return nil
}

func TestC26All(t *testing.T) {
	lib.Run(t, "C26.all", .01, func(rt *rapid.T) allCase {
		return allCase{Tail: rapid.SliceOfN(rapid.Byte(), 0, 4).Draw(rt, "tail"), Old: rapid.Uint16().Draw(rt, "old")}
	}, func(c *allCase) lib.Result {
		for id := 0; id <= 65535; id++ {
			if err := checkID(uint16(id), c); err != nil {
				return lib.Fail("%v", err)
			}
		}
		return lib.Result{NonTrivial: true, Labels: []string{"all 65536 IDs"}}
	})
}

type randCase struct{ N int }

func TestC26Rand(t *testing.T) {
	lib.Run(t, "C26.rand", .0004, func(rt *rapid.T) randCase {
		return randCase{rapid.IntRange(400000, 1200000).Draw(rt, "n")}
	}, func(c *randCase) lib.Result {
		first, same := party.RandID(), true
		for i := 0; i < c.N; i++ {
			id := party.RandID()
			if id == 0 {
				return lib.Fail("RandID returned 0, which is not valid")
			}
			same = same && id == first
		}
		if same {
			return lib.Fail("RandID returned %d %d times", first, c.N)
		}
		return lib.Result{NonTrivial: true, Labels: []string{"random IDs"}}
	})
}

// ---- texts and short binaries ----

type textCase struct {
	Text []byte
	Old  uint16
	JSON bool
}

func genText(rt *rapid.T) textCase {
	c := textCase{Old: rapid.Uint16().Draw(rt, "old"), JSON: rapid.Bool().Draw(rt, "json")}
	n := rapid.Uint64Range(0, 70000).Draw(rt, "n")
	dec := strconv.FormatUint(n, 10)
	switch rapid.IntRange(0, 11).Draw(rt, "kind") {
	case 0:
		c.Text = []byte(dec)
	case 1:
		c.Text = []byte(strconv.FormatUint(rapid.Uint64().Draw(rt, "big"), 10))
	case 2: // wraps around 2^16, 2^32, 2^64
		w := new(big.Int).Lsh(big.NewInt(1), uint(rapid.SampledFrom([]int{16, 17, 31, 32, 33, 63, 64, 128}).Draw(rt, "w")))
		c.Text = []byte(w.Add(w, big.NewInt(int64(n%65536))).String())
	case 3:
		c.Text = []byte(rapid.SampledFrom([]string{"-", "+", " ", "0x", "0b", "0o", "\t", "_", "'", "\"", "1_", "٠"}).Draw(rt, "prefix") + dec)
	case 4:
		c.Text = []byte(dec + rapid.SampledFrom([]string{"-", "+", " ", "\n", "\x00", ".", ".0", "e0", "_", "_0", "f", "\"", "h"}).Draw(rt, "suffix"))
	case 5:
		c.Text = []byte(strconv.FormatUint(n, rapid.SampledFrom([]int{2, 8, 16, 36}).Draw(rt, "base")))
	case 6:
		c.Text = []byte(rapid.SampledFrom([]string{"", "65535", "65536", "65537", "99999", "131071", "-0", "-1", "+1", "0x1", "1e3", "1_000", "null", "true", "²", "１２", "NaN", "0.5"}).Draw(rt, "special"))
	case 7:
		b := []byte(dec)
		b[rapid.IntRange(0, len(b)-1).Draw(rt, "at")] = rapid.Byte().Draw(rt, "with")
		c.Text = b
	case 8:
		c.Text = rapid.SliceOfN(rapid.Byte(), 0, 8).Draw(rt, "raw")
	default:
		c.Text = []byte(rapid.StringMatching(`[0-9]{1,7}`).Draw(rt, "digits"))
	}
	return c
}

// decimal gives the value of a text that is digits only and at most 65535. ok is false for any
// other text; plain is false when the value has leading zeros, which is left open.
func decimal(b []byte) (v uint64, ok, plain bool) {
	if len(b) == 0 {
		return 0, false, true
	}
	for _, c := range b {
		if c < '0' || c > '9' {
			return 0, false, true
		}
		v = v*10 + uint64(c-'0')
		if v > 65535 {
			return 0, false, true
		}
	}
	return v, true, len(b) == 1 || b[0] != '0'
}

func checkText(c *textCase) lib.Result {
	v, ok, plain := decimal(c.Text)
	res := lib.Result{NonTrivial: true, Labels: []string{fmt.Sprintf("valid=%v", ok)}}
	in := append([]byte{}, c.Text...)
	id := party.ID(c.Old)
	err := id.UnmarshalText(in)
	if !bytes.Equal(in, c.Text) {
		res.Err = fmt.Errorf("decoding the text %q changed it to %q", c.Text, in)
		return res
	}
	switch {
	case ok && plain && (err != nil || uint64(id) != v):
		res.Err = fmt.Errorf("text %q decodes to %d, %v", c.Text, id, err)
	case ok && !plain && err == nil && uint64(id) != v:
		res.Err = fmt.Errorf("text %q decodes to %d", c.Text, id)
	case !ok && err == nil:
		res.Err = fmt.Errorf("text %q was accepted as %d", c.Text, id)
	case err != nil && id != party.ID(c.Old):
		res.Err = fmt.Errorf("rejected text %q changed the receiver from %d to %d", c.Text, c.Old, id)
	}
	if res.Err != nil {
		return res
	}
	if c.JSON { // as a map key, the way key files hold it
		key, _ := json.Marshal(string(c.Text))
		var m map[party.ID]int
		jerr := json.Unmarshal([]byte(fmt.Sprintf(`{%s:1}`, key)), &m)
		if (jerr == nil) != (err == nil) || (jerr == nil && (len(m) != 1 || m[id] != 1)) {
			var s string // keys that are not UTF-8 reach the decoder changed
			_ = json.Unmarshal(key, &s)
			if s == string(c.Text) {
				res.Err = fmt.Errorf("as a JSON key %s: %v, %v; as text: %d, %v", key, m, jerr, id, err)
			}
		}
	}
	return res
}

func TestC26Text(t *testing.T) { lib.Run(t, "C26.text", 2, genText, checkText) }

type binCase struct{ B []byte }

func TestC26Binary(t *testing.T) {
	lib.Run(t, "C26.binary", 1, func(rt *rapid.T) binCase {
		return binCase{B: rapid.SliceOfN(rapid.Byte(), 0, 6).Draw(rt, "b")}
	}, func(c *binCase) lib.Result {
		in := append([]byte{}, c.B...)
		id, err := party.FromBytes(in)
		res := lib.Result{NonTrivial: true, Labels: []string{fmt.Sprintf("len=%d", len(c.B))}}
		switch {
		case len(c.B) < 2:
			if err == nil {
				res.Err = fmt.Errorf("%d byte(s) accepted as ID %d", len(c.B), id)
			}
		case err != nil || uint16(id) != uint16(c.B[0])<<8|uint16(c.B[1]):
			res.Err = fmt.Errorf("FromBytes(%x) = %d, %v", c.B, id, err)
		}
		if !bytes.Equal(in, c.B) {
			res.Err = fmt.Errorf("FromBytes changed its input")
		}
		return res
	})
}

// ---- sets ----

type setCase struct {
	A, B  []uint16
	Probe []uint16
	Cap   int
}

func genList(rt *rapid.T, name string) []uint16 {
	var el *rapid.Generator[uint16]
	switch rapid.IntRange(0, 3).Draw(rt, name+"kind") {
	case 0:
		el = rapid.Uint16()
	case 1:
		el = rapid.Uint16Range(0, 6)
	case 2:
		el = rapid.SampledFrom([]uint16{0, 1, 2, 255, 256, 257, 32767, 32768, 65534, 65535})
	default:
		el = rapid.Uint16Range(1, 300)
	}
	return rapid.SliceOfN(el, 0, rapid.SampledFrom([]int{3, 12, 40}).Draw(rt, name+"max")).Draw(rt, name)
}

func genSet(rt *rapid.T) setCase {
	c := setCase{A: genList(rt, "a"), Cap: rapid.IntRange(0, 3).Draw(rt, "cap")}
	switch rapid.IntRange(0, 4).Draw(rt, "rel") {
	case 0: // a rearrangement
		if len(c.A) > 0 {
			c.B = rapid.Permutation(c.A).Draw(rt, "perm")
		}
	case 1: // a part
		if len(c.A) > 0 {
			p := rapid.Permutation(c.A).Draw(rt, "perm")
			c.B = append([]uint16{}, p[:rapid.IntRange(0, len(p)).Draw(rt, "k")]...)
		}
	case 2: // one element changed
		c.B = append([]uint16{}, c.A...)
		if len(c.B) > 0 {
			c.B[rapid.IntRange(0, len(c.B)-1).Draw(rt, "at")] = rapid.Uint16().Draw(rt, "to")
		}
	case 3: // one element more
		c.B = append(append([]uint16{}, c.A...), rapid.Uint16().Draw(rt, "extra"))
	default:
		c.B = genList(rt, "b")
	}
	c.Probe = rapid.SliceOfN(rapid.Uint16(), 0, 6).Draw(rt, "probe")
	return c
}

func list(ids []uint16, extra int) []party.ID {
	o := make([]party.ID, len(ids), len(ids)+extra)
	for i, id := range ids {
		o[i] = party.ID(id)
	}
	for i := range o[len(o):cap(o)] {
		o[len(o):cap(o)][i] = 54321
	}
	return o
}

func same(a []party.ID, b []uint16) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if uint16(a[i]) != b[i] {
			return false
		}
	}
	return true
}

func checkSet(c *setCase) lib.Result {
	res := lib.Result{NonTrivial: len(c.A) > 1}
	fail := func(f string, a ...interface{}) lib.Result {
		res.Err = fmt.Errorf(f, a...)
		return res
	}
	inA, inB := list(c.A, c.Cap), list(c.B, c.Cap)
	a, b := party.NewIDSlice(inA), party.NewIDSlice(inB)
	sortedA, sortedB := ref.Sorted(c.A), ref.Sorted(c.B)
	intact := func(what string) error {
		if !same(inA, c.A) || !same(inB, c.B) {
			return fmt.Errorf("%s altered the list a set was made from", what)
		}
		if !same(a, sortedA) || !same(b, sortedB) {
			return fmt.Errorf("%s altered a set: %v (from %v), %v (from %v)", what, a, c.A, b, c.B)
		}
		for _, x := range inA[len(inA):cap(inA)] {
			if x != 54321 {
				return fmt.Errorf("%s wrote past the end of the list", what)
			}
		}
		return nil
	}
	if err := intact("NewIDSlice"); err != nil {
		return fail("%v", err)
	}
	if int(a.N()) != len(c.A) {
		return fail("N of a set of %d is %d", len(c.A), a.N())
	}
	inSet := map[uint16]bool{}
	for _, id := range c.A {
		inSet[id] = true
	}
	probes := append(append(append([]uint16{0, 65535}, c.Probe...), c.A...), c.B...)
	for _, id := range c.A {
		probes = append(probes, id+1, id-1, id^256, id^1)
	}
	for _, id := range probes {
		if got := a.Contains(party.ID(id)); got != inSet[id] {
			return fail("%v contains %d: %v", a, id, got)
		}
	}
	subset := func(x, y []uint16) bool {
		m := map[uint16]bool{}
		for _, id := range y {
			m[id] = true
		}
		for _, id := range x {
			if !m[id] {
				return false
			}
		}
		return true
	}
	if got, want := b.IsSubsetOf(a), subset(c.B, c.A); got != want {
		return fail("%v subset of %v: %v", b, a, got)
	}
	if got, want := a.IsSubsetOf(b), subset(c.A, c.B); got != want {
		return fail("%v subset of %v: %v", a, b, got)
	}
	if !a.IsSubsetOf(a) || !(party.IDSlice{}).IsSubsetOf(a) || !(party.IDSlice)(nil).IsSubsetOf(a) {
		return fail("%v: not a superset of itself or of the empty set", a)
	}
	eq := func(x, y []uint16) bool { return fmt.Sprint(x) == fmt.Sprint(y) }
	if a.Equal(b) != eq(sortedA, sortedB) || b.Equal(a) != eq(sortedA, sortedB) {
		return fail("%v equal to %v: %v, %v", a, b, a.Equal(b), b.Equal(a))
	}
	if rawA, rawB := party.IDSlice(inA), party.IDSlice(inB); rawA.Equal(rawB) != eq(c.A, c.B) {
		return fail("lists %v and %v equal: %v", rawA, rawB, rawA.Equal(rawB))
	}
	res.Labels = append(res.Labels, fmt.Sprintf("equal=%v", eq(sortedA, sortedB)), fmt.Sprintf("subset=%v", subset(c.B, c.A)))
	if err := intact("a query"); err != nil {
		return fail("%v", err)
	}
	cp := a.Copy()
	if !cp.Equal(a) || !same(cp, sortedA) {
		return fail("copy of %v is %v", a, cp)
	}
	rawCopy := party.IDSlice(inA).Copy()
	if !same(rawCopy, c.A) {
		return fail("copy of %v is %v", inA, rawCopy)
	}
	// a set whose memory is then filled with another one answers for that
	for _, id := range probes {
		cp.Contains(party.ID(id))
	}
	for i := range cp {
		cp[i]++
		rawCopy[i]--
	}
	if len(cp) > 0 && cp[len(cp)-1] != 0 {
		moved := map[uint16]bool{}
		for _, id := range cp {
			moved[uint16(id)] = true
		}
		sub := true
		for _, id := range cp {
			sub = sub && inSet[uint16(id)]
		}
		for _, id := range probes {
			if got := cp.Contains(party.ID(id)); got != moved[id] {
				return fail("%v, a set that was changed in place, contains %d: %v", cp, id, got)
			}
		}
		if cp.Equal(a) || a.Equal(cp) || cp.IsSubsetOf(a) != sub || a.IsSubsetOf(cp) != sub {
			return fail("%v, a set that was changed in place from %v: equal %v, subset %v, superset %v", cp, a, cp.Equal(a), cp.IsSubsetOf(a), a.IsSubsetOf(cp))
		}
	}
	_ = append(cp, 1, 2, 3)
	if err := intact("changing a copy"); err != nil {
		return fail("%v", err)
	}
	for i := range inA { // the set is independent of the list it came from
		inA[i] += 7
	}
	if !same(a, sortedA) {
		return fail("changing the list a set was made from changed the set")
	}
	return res
}

func TestC26Sets(t *testing.T) { lib.Run(t, "C26.sets", 2, genSet, checkSet) }

type genCase struct{ N uint16 }

// watch ends the process when a set is generated without end: what it allocates is out of all
// proportion (a set takes at most 128 kB), or it takes a minute.
func watch(done chan struct{}, n uint16) {
	for i := 0; i < 1200; i++ {
		select {
		case <-done:
			return
		case <-time.After(50 * time.Millisecond):
		}
		var m runtime.MemStats
		if runtime.ReadMemStats(&m); m.HeapAlloc > 1<<29 {
			panic(fmt.Sprintf("generating the set of size %d allocated %d bytes", n, m.HeapAlloc))
		}
	}
	panic(fmt.Sprintf("the set of size %d was not generated in a minute", n))
}

func TestC26Generated(t *testing.T) {
	lib.Run(t, "C26.generated", .1, func(rt *rapid.T) genCase {
		if rapid.Bool().Draw(rt, "edge") {
			return genCase{rapid.SampledFrom([]uint16{0, 1, 2, 127, 128, 255, 256, 257, 32767, 32768, 65534, 65535}).Draw(rt, "n")}
		}
		return genCase{rapid.Uint16().Draw(rt, "n")}
	}, func(c *genCase) lib.Result {
		for _, f := range []func(party.Size) party.IDSlice{helpers.NewPartySlice, helpers.GenerateSet} {
			done := make(chan struct{})
			go watch(done, c.N)
			s := f(party.Size(c.N))
			close(done)
			if len(s) != int(c.N) || !sort.SliceIsSorted(s, func(i, j int) bool { return s[i] < s[j] }) {
				return lib.Fail("the generated set of size %d has %d elements", c.N, len(s))
			}
			for i, id := range s {
				if int(id) != i+1 {
					return lib.Fail("element %d of the generated set of size %d is %d", i, c.N, id)
				}
			}
			if c.N > 0 && (!s.Contains(party.ID(c.N)) || s.Contains(0) || (c.N < 65535 && s.Contains(party.ID(c.N+1)))) {
				return lib.Fail("membership in the generated set of size %d is wrong", c.N)
			}
		}
		return lib.Result{NonTrivial: c.N > 0, Labels: []string{"n=" + map[bool]string{true: "65535", false: "other"}[c.N == 65535]}}
	})
}
