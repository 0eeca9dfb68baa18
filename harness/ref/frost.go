package ref

import (
	"crypto/sha512"
	"encoding/binary"
	"math/big"
	"sort"
)

// ID16 is the big-endian encoding of an ID.
func ID16(id uint16) []byte {
	b := make([]byte, 2)
	binary.BigEndian.PutUint16(b, id)
	return b
}

func modQ(x *big.Int) *big.Int { return x.Mod(x, Q) }

// AddQ, MulQ, SubQ work modulo the group order.
func AddQ(a, b *big.Int) *big.Int { return modQ(new(big.Int).Add(a, b)) }
func MulQ(a, b *big.Int) *big.Int { return modQ(new(big.Int).Mul(a, b)) }
func SubQ(a, b *big.Int) *big.Int { return modQ(new(big.Int).Sub(a, b)) }

// HashQ hashes the concatenation of the parts to a scalar.
func HashQ(parts ...[]byte) *big.Int {
	h := sha512.New()
	for _, p := range parts {
		h.Write(p)
	}
	return Wide(h.Sum(nil))
}

// Expand derives a scalar from a seed and labels.
func Expand(seed uint64, label string, n int) *big.Int {
	var b [16]byte
	binary.BigEndian.PutUint64(b[:8], seed)
	binary.BigEndian.PutUint64(b[8:], uint64(n))
	return HashQ([]byte("verif-expand"), b[:], []byte(label))
}

// Lagrange is the coefficient of id at 0 over ids.
func Lagrange(id uint16, ids []uint16) *big.Int {
	num, den := big.NewInt(1), big.NewInt(1)
	xj := big.NewInt(int64(id))
	for _, m := range ids {
		if m == id {
			continue
		}
		xm := big.NewInt(int64(m))
		num = MulQ(num, xm)
		den = MulQ(den, new(big.Int).Sub(xm, xj))
	}
	return MulQ(num, new(big.Int).ModInverse(den, Q))
}

// Eval evaluates a polynomial with scalar coefficients.
func Eval(coef []*big.Int, x *big.Int) *big.Int {
	r := new(big.Int)
	for i := len(coef) - 1; i >= 0; i-- {
		r = AddQ(MulQ(r, x), coef[i])
	}
	return r
}

// EvalExp evaluates a polynomial in the exponent.
func EvalExp(coef []*Pt, x *big.Int) *Pt {
	r := Identity()
	for i := len(coef) - 1; i >= 0; i-- {
		r = Add(Mul(x, r), coef[i])
	}
	return r
}

// ZeroCtx is the context key generation uses.
var ZeroCtx = make([]byte, 32)

// SchnorrChallenge is H(ID || CTX || public || M).
func SchnorrChallenge(id uint16, ctx []byte, public, m *Pt) *big.Int {
	return HashQ(ID16(id), ctx[:32], Encode(public), Encode(m))
}

// Prove makes a proof of knowledge of x with nonce k.
func Prove(id uint16, ctx []byte, x, k *big.Int) (s, r *big.Int) {
	s = SchnorrChallenge(id, ctx, BaseMul(x), BaseMul(k))
	return s, AddQ(k, MulQ(x, s))
}

// VerifyProof checks a proof.
func VerifyProof(id uint16, ctx []byte, public *Pt, s, r *big.Int) bool {
	m := Sub(BaseMul(r), Mul(s, public))
	return SchnorrChallenge(id, ctx, public, m).Cmp(s) == 0
}

// Commit is one signer's nonce commitment.
type Commit struct{ D, E *Pt }

// Rho is the binding factor of signer i.
func Rho(i uint16, ids []uint16, msg []byte, c map[uint16]Commit) *big.Int {
	return rho(i, msg, commitList(ids, c))
}

func commitList(ids []uint16, c map[uint16]Commit) []byte {
	var b []byte
	for _, id := range Sorted(ids) {
		b = append(b, ID16(id)...)
		b = append(b, Encode(c[id].D)...)
		b = append(b, Encode(c[id].E)...)
	}
	return b
}

func rho(i uint16, msg, list []byte) *big.Int {
	mh := sha512.Sum512(msg)
	return HashQ([]byte("FROST-SHA512"), ID16(i), mh[:], list)
}

// Challenge is the Ed25519 challenge.
func Challenge(r, a *Pt, msg []byte) *big.Int { return HashQ(EncodeEd(r), EncodeEd(a), msg) }

// Sorted returns a sorted copy.
func Sorted(ids []uint16) []uint16 {
	o := append([]uint16{}, ids...)
	sort.Slice(o, func(i, j int) bool { return o[i] < o[j] })
	return o
}

// SignView is what the commitments, keys and message determine.
type SignView struct {
	IDs    []uint16
	Msg    []byte
	C      map[uint16]Commit
	Rho    map[uint16]*big.Int
	Ri     map[uint16]*Pt
	Lambda map[uint16]*big.Int
	R      *Pt
	Chal   *big.Int
}

// NewSignView computes binding factors, nonces and the challenge.
func NewSignView(ids []uint16, msg []byte, group *Pt, c map[uint16]Commit) *SignView {
	v := &SignView{IDs: Sorted(ids), Msg: msg, C: c, Rho: map[uint16]*big.Int{}, Ri: map[uint16]*Pt{}, Lambda: map[uint16]*big.Int{}, R: Identity()}
	list := commitList(ids, c)
	for _, id := range v.IDs {
		v.Rho[id] = rho(id, msg, list)
		v.Ri[id] = Add(c[id].D, Mul(v.Rho[id], c[id].E))
		v.Lambda[id] = Lagrange(id, v.IDs)
		v.R = Add(v.R, v.Ri[id])
	}
	v.Chal = Challenge(v.R, group, msg)
	return v
}

// ShareOK checks signer id's response against its public share.
func (v *SignView) ShareOK(id uint16, z *big.Int, public *Pt) bool {
	return Equal(BaseMul(z), Add(v.Ri[id], Mul(MulQ(v.Chal, v.Lambda[id]), public)))
}

// Response is the honest response for nonces d, e and secret share s.
func (v *SignView) Response(id uint16, d, e, s *big.Int) *big.Int {
	return AddQ(AddQ(d, MulQ(e, v.Rho[id])), MulQ(MulQ(v.Lambda[id], s), v.Chal))
}
