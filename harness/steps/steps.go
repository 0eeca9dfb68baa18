// Package steps has operations on group elements whose steps can be counted: the meter command is
// built with coverage counters in the library and in edwards25519.
package steps

import (
	"fmt"
	"math/big"

	"github.com/taurusgroup/frost-ed25519/pkg/ristretto"
	"github.com/taurusgroup/frost-ed25519/pkg/verif/ref"
	"github.com/taurusgroup/frost-ed25519/pkg/verif/sim"
)

// Elem is one way of obtaining an element.
type Elem struct {
	Kind string // identity, generator, base, decode, sum, uniform
	K    *big.Int
}

// Make makes the element.
func (x Elem) Make() *ristretto.Element {
	var e ristretto.Element
	switch x.Kind {
	case "identity":
		return ristretto.NewIdentityElement()
	case "generator":
		return ristretto.NewGeneratorElement()
	case "base":
		e.ScalarBaseMult(sim.Scalar(x.K))
	case "decode":
		if _, err := e.SetCanonicalBytes(ref.Encode(ref.BaseMul(x.K))); err != nil {
			panic(fmt.Sprintf("a canonical encoding is refused: %v", err))
		}
	case "sum": // with a denominator; the sum of an element with its negative is the identity
		var f ristretto.Element
		e.ScalarBaseMult(sim.Scalar(x.K))
		f.ScalarBaseMult(sim.Scalar(ref.AddQ(big.NewInt(1), x.K)))
		e.Add(&e, &f)
	case "zero":
		var f ristretto.Element
		e.ScalarBaseMult(sim.Scalar(x.K))
		f.Negate(&e)
		e.Add(&e, &f)
	default:
		if _, err := e.SetUniformBytes(x.Uniform()); err != nil {
			panic(fmt.Sprintf("64 bytes are refused: %v", err))
		}
	}
	return &e
}

// Uniform is 64 bytes.
func (x Elem) Uniform() []byte {
	return append(append([]byte{}, ref.ScalarBytes(x.K)...), ref.ScalarBytes(ref.MulQ(x.K, x.K))...)
}

// Values is one choice of all inputs of an operation.
type Values struct {
	S    []*big.Int
	E    []Elem
	Same bool // the second element equals the first
}

// Case is one operation on several choices of values.
type Case struct {
	Op     string
	N      int  // number of terms
	Alias  int  // what the result is stored in: 0 something else, 1 the first element, 2 the second
	Twice  bool // the same variable as both elements
	Values []Values
}

// Prepare returns the operation, ready to be done once.
func (c *Case) Prepare(v *Values) func() {
	var es []*ristretto.Element
	var ss []*ristretto.Scalar
	for _, x := range v.E {
		es = append(es, x.Make())
	}
	for _, x := range v.S {
		ss = append(ss, sim.Scalar(x))
	}
	a, b, dst := es[0], es[1], es[len(es)-1]
	if v.Same {
		var e ristretto.Element
		e.Add(a, ristretto.NewIdentityElement())
		*b = e
	}
	if c.Twice {
		b = a
	}
	switch c.Alias {
	case 1:
		dst = a
	case 2:
		dst = b
	}
	switch c.Op {
	case "add":
		return func() { dst.Add(a, b) }
	case "subtract":
		return func() { dst.Subtract(a, b) }
	case "negate":
		return func() { dst.Negate(b) }
	case "set":
		return func() { dst.Set(b) }
	case "equal":
		return func() { _ = a.Equal(b) }
	case "basemult":
		return func() { dst.ScalarBaseMult(ss[0]) }
	case "mult":
		return func() { dst.ScalarMult(ss[0], b) }
	case "multi":
		terms := append([]*ristretto.Element{}, es[:c.N]...)
		if c.Twice && c.N > 1 {
			terms[1] = a
		}
		return func() { dst.MultiScalarMult(ss[:c.N], terms) }
	case "bytes":
		return func() { _ = a.Bytes() }
	case "ed25519":
		return func() { _ = a.BytesEd25519() }
	case "text":
		return func() { _, _ = a.MarshalText() }
	case "string":
		return func() { _ = a.String() }
	case "uniform":
		in := v.E[0].Uniform()
		return func() { _, _ = dst.SetUniformBytes(in) }
	case "decode":
		in := a.Bytes()
		return func() { _, _ = dst.SetCanonicalBytes(in) }
	case "untext":
		in, _ := a.MarshalText()
		return func() { _ = dst.UnmarshalText(in) }
	case "control": // takes different steps
		k := v.S[0].BitLen()
		return func() { control(k) }
	}
	panic("harness: unknown operation " + c.Op)
}

var sink int

func control(n int) {
	for i := 0; i < n; i++ {
		sink++
	}
}

// Ops are the operations that are documented to take constant time.
var Ops = []string{"add", "subtract", "negate", "set", "equal", "basemult", "mult", "multi", "bytes", "ed25519", "text", "string", "uniform", "decode", "untext"}
