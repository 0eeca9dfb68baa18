// Package ref is an independent reference: edwards25519 and ristretto255 (RFC 9496) over
// math/big, and the FROST equations and wire formats as documented. It shares no code with the
// library under test.
package ref

import (
	"math/big"
	"sync"

	"filippo.io/edwards25519"
	"filippo.io/edwards25519/field"
)

var (
	one = big.NewInt(1)
	two = big.NewInt(2)
	// P is the field prime, Q the group order.
	P = new(big.Int).Sub(new(big.Int).Lsh(one, 255), big.NewInt(19))
	Q = func() *big.Int {
		x, _ := new(big.Int).SetString("27742317777372353535851937790883648493", 10)
		return x.Add(x, new(big.Int).Lsh(one, 252))
	}()
	// D = -121665/121666
	D = func() *big.Int {
		i := new(big.Int).ModInverse(big.NewInt(121666), P)
		return fmod(i.Mul(i, big.NewInt(-121665)))
	}()
	d2     = fmod(new(big.Int).Mul(two, D))
	sqrtM1 = func() *big.Int {
		e := new(big.Int).Rsh(new(big.Int).Sub(P, one), 2)
		r := new(big.Int).Exp(two, e, P)
		if r.Bit(0) == 1 {
			r.Sub(P, r)
		}
		return r
	}()
	pm5d8          = new(big.Int).Rsh(new(big.Int).Sub(P, big.NewInt(5)), 3)
	sqrtADMinusOne *big.Int
	invSqrtAMinusD *big.Int
	oneMinusDSq    *big.Int
	dMinusOneSq    *big.Int
	// B is the base point.
	B *Pt
	// EightInv is 8^-1 mod Q.
	EightInv = new(big.Int).ModInverse(big.NewInt(8), Q)
)

func fmod(x *big.Int) *big.Int   { return x.Mod(x, P) }
func mul(a, b *big.Int) *big.Int { return fmod(new(big.Int).Mul(a, b)) }
func add(a, b *big.Int) *big.Int { return fmod(new(big.Int).Add(a, b)) }
func sub(a, b *big.Int) *big.Int { return fmod(new(big.Int).Sub(a, b)) }
func neg(a *big.Int) *big.Int    { return fmod(new(big.Int).Neg(a)) }
func isNeg(a *big.Int) bool      { return a.Bit(0) == 1 }
func abs(a *big.Int) *big.Int {
	if isNeg(a) {
		return neg(a)
	}
	return a
}

// sqrtRatio is SQRT_RATIO_M1 of RFC 9496.
func sqrtRatio(u, v *big.Int) (bool, *big.Int) {
	v3 := mul(mul(v, v), v)
	v7 := mul(mul(v3, v3), v)
	r := mul(mul(u, v3), new(big.Int).Exp(mul(u, v7), pm5d8, P))
	check := mul(v, mul(r, r))
	mu := neg(u)
	correct := check.Cmp(u) == 0
	flipped := check.Cmp(mu) == 0
	flippedI := check.Cmp(mul(mu, sqrtM1)) == 0
	if flipped || flippedI {
		r = mul(r, sqrtM1)
	}
	return correct || flipped, abs(r)
}

// The exact square roots RFC 9496 lists, in decimal.
func init() {
	sqrtADMinusOne, _ = new(big.Int).SetString("25063068953384623474111414158702152701244531502492656460079210482610430750235", 10)
	invSqrtAMinusD, _ = new(big.Int).SetString("54469307008909316920995813868745141605393597292927456921205312896311721017578", 10)
	oneMinusDSq = sub(one, mul(D, D))
	dMinusOneSq = mul(sub(D, one), sub(D, one))
	// self-check of the constants
	if mul(sqrtADMinusOne, sqrtADMinusOne).Cmp(sub(neg(D), one)) != 0 {
		panic("ref: SQRT_AD_MINUS_ONE")
	}
	if mul(mul(invSqrtAMinusD, invSqrtAMinusD), sub(neg(one), D)).Cmp(one) != 0 {
		panic("ref: INVSQRT_A_MINUS_D")
	}
	by := mul(big.NewInt(4), new(big.Int).ModInverse(big.NewInt(5), P))
	_, bx := sqrtRatio(sub(mul(by, by), one), add(mul(D, mul(by, by)), one))
	B = affine(bx, by)
}

// Pt is a point in extended coordinates.
type Pt struct{ X, Y, Z, T *big.Int }

func affine(x, y *big.Int) *Pt {
	return &Pt{new(big.Int).Set(x), new(big.Int).Set(y), big.NewInt(1), mul(x, y)}
}

// Identity is the neutral element.
func Identity() *Pt { return affine(big.NewInt(0), big.NewInt(1)) }

// Add returns p+q.
func Add(p, q *Pt) *Pt {
	a := mul(sub(p.Y, p.X), sub(q.Y, q.X))
	b := mul(add(p.Y, p.X), add(q.Y, q.X))
	c := mul(mul(p.T, d2), q.T)
	d := mul(mul(p.Z, two), q.Z)
	e, f, g, h := sub(b, a), sub(d, c), add(d, c), add(b, a)
	return &Pt{mul(e, f), mul(g, h), mul(f, g), mul(e, h)}
}

// Neg returns -p.
func Neg(p *Pt) *Pt { return &Pt{neg(p.X), p.Y, p.Z, neg(p.T)} }

// Sub returns p-q.
func Sub(p, q *Pt) *Pt { return Add(p, Neg(q)) }

// MulSlow returns k*p by double-and-add over math/big.
func MulSlow(k *big.Int, p *Pt) *Pt {
	k = new(big.Int).Mod(k, Q)
	r := Identity()
	for i := k.BitLen() - 1; i >= 0; i-- {
		r = Add(r, r)
		if k.Bit(i) == 1 {
			r = Add(r, p)
		}
	}
	return r
}

// Mul returns k*p, computed with the (external) edwards25519 package for speed.
func Mul(k *big.Int, p *Pt) *Pt {
	q := toEd(p)
	s, err := edwards25519.NewScalar().SetCanonicalBytes(ScalarBytes(k))
	if err != nil {
		panic(err)
	}
	return fromEd(q.ScalarMult(s, q))
}

// BaseMul returns k*B.
func BaseMul(k *big.Int) *Pt {
	s, err := edwards25519.NewScalar().SetCanonicalBytes(ScalarBytes(k))
	if err != nil {
		panic(err)
	}
	return fromEd(new(edwards25519.Point).ScalarBaseMult(s))
}

func fe(x *big.Int) *field.Element {
	e, err := new(field.Element).SetBytes(le32(x))
	if err != nil {
		panic(err)
	}
	return e
}

func toEd(p *Pt) *edwards25519.Point {
	q, err := new(edwards25519.Point).SetExtendedCoordinates(fe(p.X), fe(p.Y), fe(p.Z), fe(p.T))
	if err != nil {
		panic("ref: invalid point: " + err.Error())
	}
	return q
}

func fromEd(q *edwards25519.Point) *Pt {
	X, Y, Z, T := q.ExtendedCoordinates()
	return &Pt{leInt(X.Bytes()), leInt(Y.Bytes()), leInt(Z.Bytes()), leInt(T.Bytes())}
}

// Equal is ristretto equality.
func Equal(p, q *Pt) bool {
	return mul(p.X, q.Y).Cmp(mul(p.Y, q.X)) == 0 || mul(p.Y, q.Y).Cmp(mul(p.X, q.X)) == 0
}

// IsIdentity reports whether p is the neutral ristretto element.
func IsIdentity(p *Pt) bool { return Equal(p, Identity()) }

func le32(x *big.Int) []byte {
	b := x.Bytes()
	out := make([]byte, 32)
	for i, v := range b {
		out[len(b)-1-i] = v
	}
	return out
}

func leInt(b []byte) *big.Int {
	r := make([]byte, len(b))
	for i, v := range b {
		r[len(b)-1-i] = v
	}
	return new(big.Int).SetBytes(r)
}

// Int is the little-endian integer of b.
func Int(b []byte) *big.Int { return leInt(b) }

// ScalarBytes is the canonical 32-byte encoding of k mod Q.
func ScalarBytes(k *big.Int) []byte { return le32(new(big.Int).Mod(k, Q)) }

// FieldBytes is the 32-byte little-endian encoding of x < 2^256.
func FieldBytes(x *big.Int) []byte { return le32(x) }

// ParseScalar decodes a canonical scalar.
func ParseScalar(b []byte) (*big.Int, bool) {
	if len(b) != 32 {
		return nil, false
	}
	k := leInt(b)
	return k, k.Cmp(Q) < 0
}

// Wide reduces a 64-byte little-endian integer mod Q.
func Wide(b []byte) *big.Int { k := leInt(b); return k.Mod(k, Q) }

var (
	lastMu  sync.Mutex
	lastIn  [32]byte
	lastOut *Pt
	lastOK  bool
	lastSet bool
)

// Decode is the ristretto255 DECODE function.
func Decode(b []byte) (*Pt, bool) {
	if len(b) != 32 {
		return nil, false
	}
	lastMu.Lock()
	defer lastMu.Unlock()
	if !lastSet || string(lastIn[:]) != string(b) {
		lastOut, lastOK = decode(b)
		copy(lastIn[:], b)
		lastSet = true
	}
	if !lastOK {
		return nil, false
	}
	p := lastOut
	return &Pt{new(big.Int).Set(p.X), new(big.Int).Set(p.Y), new(big.Int).Set(p.Z), new(big.Int).Set(p.T)}, true
}

func decode(b []byte) (*Pt, bool) {
	s := leInt(b)
	if s.Cmp(P) >= 0 || isNeg(s) {
		return nil, false
	}
	ss := mul(s, s)
	u1, u2 := sub(one, ss), add(one, ss)
	u2s := mul(u2, u2)
	v := sub(neg(mul(D, mul(u1, u1))), u2s)
	ok, inv := sqrtRatio(one, mul(v, u2s))
	dx := mul(inv, u2)
	dy := mul(mul(inv, dx), v)
	x := abs(mul(mul(two, s), dx))
	y := mul(u1, dy)
	if !ok || isNeg(mul(x, y)) || y.Sign() == 0 {
		return nil, false
	}
	return affine(x, y), true
}

// Encode is the ristretto255 ENCODE function.
func Encode(p *Pt) []byte {
	u1 := mul(add(p.Z, p.Y), sub(p.Z, p.Y))
	u2 := mul(p.X, p.Y)
	_, inv := sqrtRatio(one, mul(u1, mul(u2, u2)))
	d1, dd2 := mul(inv, u1), mul(inv, u2)
	zinv := mul(mul(d1, dd2), p.T)
	x, y, dinv := p.X, p.Y, dd2
	if isNeg(mul(p.T, zinv)) {
		x, y, dinv = mul(p.Y, sqrtM1), mul(p.X, sqrtM1), mul(d1, invSqrtAMinusD)
	}
	if isNeg(mul(x, zinv)) {
		y = neg(y)
	}
	return le32(abs(mul(dinv, sub(p.Z, y))))
}

// EncodeEd is the Ed25519 encoding of the prime-order representative of p.
func EncodeEd(p *Pt) []byte {
	r := p
	for i := 0; i < 3; i++ {
		r = Add(r, r)
	}
	r = Mul(EightInv, r)
	return compress(r)
}

func compress(p *Pt) []byte {
	zi := new(big.Int).ModInverse(p.Z, P)
	x, y := mul(p.X, zi), mul(p.Y, zi)
	b := le32(y)
	if isNeg(x) {
		b[31] |= 0x80
	}
	return b
}

func mapToPoint(b []byte) *Pt {
	c := append([]byte{}, b...)
	c[31] &= 0x7f
	t := fmod(leInt(c))
	r := mul(sqrtM1, mul(t, t))
	u := mul(add(r, one), oneMinusDSq)
	v := mul(sub(neg(one), mul(r, D)), add(r, D))
	ok, s := sqrtRatio(u, v)
	cc := neg(one)
	if !ok {
		s = neg(abs(mul(s, t)))
		cc = r
	}
	n := sub(mul(mul(cc, sub(r, one)), dMinusOneSq), v)
	w0 := mul(mul(two, s), v)
	w1 := mul(n, sqrtADMinusOne)
	w2 := sub(one, mul(s, s))
	w3 := add(one, mul(s, s))
	return &Pt{mul(w0, w3), mul(w2, w1), mul(w1, w3), mul(w0, w2)}
}

// FromUniform is the ristretto255 hash-to-group map of 64 bytes.
func FromUniform(b []byte) *Pt { return Add(mapToPoint(b[:32]), mapToPoint(b[32:64])) }
