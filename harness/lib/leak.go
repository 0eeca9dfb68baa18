package lib

import (
	"bytes"
	"encoding/base64"
	"encoding/hex"
	"fmt"
	"math/big"
	"strings"
)

// Secrets recognises secret values in bytes and texts: any 12 consecutive bytes of a value in
// either byte order, and pieces of its usual texts (hexadecimal, base64, decimal, and the lists
// of numbers that Go prints for bytes).
type Secrets struct {
	raw, text map[string]*secret
	N         int
}

type secret struct {
	name string
	to   uint16 // the only party that may be told, 0 none
}

const rawWin, textWin = 12, 22

// Add makes a 32-byte value secret.
func (s *Secrets) Add(name string, le []byte, to uint16) {
	if s.raw == nil {
		s.raw, s.text = map[string]*secret{}, map[string]*secret{}
	}
	sec := &secret{name, to}
	be := make([]byte, len(le))
	for i := range le {
		be[len(le)-1-i] = le[i]
	}
	put := func(m map[string]*secret, t string, win int) {
		for i := 0; i+win <= len(t); i++ {
			w := t[i : i+win]
			if plain(w) {
				continue
			}
			if old := m[w]; old == nil || (old.to != 0 && sec.to == 0) {
				m[w] = sec
			}
		}
	}
	for _, b := range [][]byte{le, be} {
		put(s.raw, string(b), rawWin)
		put(s.text, hex.EncodeToString(b), textWin)
		for off := 0; off < 3; off++ { // as part of a longer base64 text
			e := base64.StdEncoding.EncodeToString(append(make([]byte, off), b...))
			e = strings.ToLower(e[(off*8+5)/6 : len(e)-4])
			put(s.text, e, textWin)
			put(s.text, strings.NewReplacer("+", "-", "/", "_").Replace(e), textWin)
		}
		put(s.text, strings.Trim(fmt.Sprint(b), "[]"), 28)
		put(s.text, strings.ReplaceAll(strings.Trim(fmt.Sprint(b), "[]"), " ", ", "), 36)
		put(s.text, strings.ToLower(fmt.Sprintf("% x", b)), 33)
		put(s.text, strings.ReplaceAll(strings.ToLower(fmt.Sprintf("% #x", b)), " ", ", "), 58)
		put(s.text, new(big.Int).SetBytes(b).String(), textWin)
	}
	s.N++
}

// plain reports whether a window is too regular to be told from chance.
func plain(w string) bool {
	var seen [256]bool
	n := 0
	for i := 0; i < len(w); i++ {
		if !seen[w[i]] {
			seen[w[i]] = true
			n++
		}
	}
	return n < 6
}

// AddText makes one more text of a value secret: how it prints itself.
func (s *Secrets) AddText(name, t string) {
	t = strings.ToLower(t)
	sec := &secret{name, 0}
	for i := 0; i+28 <= len(t); i++ {
		if !plain(t[i : i+28]) {
			s.text[t[i:i+28]] = sec
		}
	}
}

// Find looks for a secret that a reader may not see; to is the party the bytes are for, 0 anyone.
func (s *Secrets) Find(b []byte, to uint16) (string, bool) {
	look := func(m map[string]*secret, t []byte, win int) (string, bool) {
		for i := 0; i+win <= len(t); i++ {
			if sec := m[string(t[i:i+win])]; sec != nil && (sec.to == 0 || sec.to != to) {
				return sec.name, true
			}
		}
		return "", false
	}
	if name, ok := look(s.raw, b, rawWin); ok {
		return name, true
	}
	low := bytes.ToLower(b)
	for _, win := range []int{textWin, 28, 33, 36, 58} {
		if name, ok := look(s.text, low, win); ok {
			return name, true
		}
	}
	return "", false
}
