package ref

import "math/big"

// Message types on the wire.
const (
	KG1 = 1
	KG2 = 2
	S1  = 3
	S2  = 4
)

// Header encodes a header.
func Header(typ byte, from, to uint16) []byte {
	return append(append([]byte{typ}, ID16(from)...), ID16(to)...)
}

// MsgKG1 encodes a first keygen message.
func MsgKG1(from uint16, s, r *big.Int, commits []*Pt) []byte {
	b := Header(KG1, from, 0)
	b = append(b, ScalarBytes(s)...)
	b = append(b, ScalarBytes(r)...)
	b = append(b, ID16(uint16(len(commits)-1))...)
	for _, c := range commits {
		b = append(b, Encode(c)...)
	}
	return b
}

// MsgKG2 encodes a share.
func MsgKG2(from, to uint16, share *big.Int) []byte {
	return append(Header(KG2, from, to), ScalarBytes(share)...)
}

// MsgS1 encodes nonce commitments.
func MsgS1(from uint16, d, e *Pt) []byte {
	return append(append(Header(S1, from, 0), Encode(d)...), Encode(e)...)
}

// MsgS2 encodes a signature share.
func MsgS2(from uint16, z *big.Int) []byte {
	return append(Header(S2, from, 0), ScalarBytes(z)...)
}

// Msg is a decoded wire message.
type Msg struct {
	Type     byte
	From, To uint16
	S, R     *big.Int // KG1 proof
	Commits  []*Pt    // KG1
	Scalar   *big.Int // KG2 share, S2 response
	D, E     *Pt      // S1
}

// ParseHeader decodes the five header bytes.
func ParseHeader(b []byte) (*Msg, bool) {
	if len(b) < 5 {
		return nil, false
	}
	m := &Msg{Type: b[0], From: uint16(b[1])<<8 | uint16(b[2]), To: uint16(b[3])<<8 | uint16(b[4])}
	if m.From == 0 {
		return nil, false
	}
	switch m.Type {
	case KG1, S1, S2:
		return m, m.To == 0
	case KG2:
		return m, m.To != 0
	}
	return nil, false
}

// Parse decodes a message strictly.
func Parse(b []byte) (*Msg, bool) {
	m, ok := ParseHeader(b)
	if !ok {
		return nil, false
	}
	p := b[5:]
	switch m.Type {
	case KG1:
		if len(p) < 66 {
			return nil, false
		}
		var ok1, ok2 bool
		m.S, ok1 = ParseScalar(p[:32])
		m.R, ok2 = ParseScalar(p[32:64])
		if !ok1 || !ok2 {
			return nil, false
		}
		n := int(p[64])<<8 | int(p[65])
		n++
		p = p[66:]
		if len(p) != n*32 {
			return nil, false
		}
		for i := 0; i < n; i++ {
			c, ok := Decode(p[i*32 : i*32+32])
			if !ok {
				return nil, false
			}
			m.Commits = append(m.Commits, c)
		}
		return m, true
	case KG2, S2:
		m.Scalar, ok = ParseScalar(p)
		return m, ok
	case S1:
		if len(p) != 64 {
			return nil, false
		}
		var ok1, ok2 bool
		m.D, ok1 = Decode(p[:32])
		m.E, ok2 = Decode(p[32:])
		return m, ok1 && ok2
	}
	return nil, false
}
