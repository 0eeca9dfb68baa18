// Package lib runs the generated checks: it draws cases with rapid, records what was
// generated, keeps the last (shrunk) failing case as a plain JSON replay file, and re-runs
// such files without the library.
package lib

import (
	"bytes"
	"crypto/rand"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	mrand "math/rand/v2"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"

	"pgregory.net/rapid"
)

// Result is the verdict on one case.
type Result struct {
	NonTrivial bool     // by the rule stated for the property
	Labels     []string // classification of the case, counted in the evidence
	Err        error    // non-nil: the property is violated
}

// Fail is a violation.
func Fail(format string, a ...interface{}) Result { return Result{Err: fmt.Errorf(format, a...)} }

// Replay is the content of a replay file.
type Replay struct {
	Property string `json:"property"`
	Sub      string `json:"sub"`
	Error    string `json:"error"`
	// cases that ran before in the same process, if the case alone does not fail
	History []json.RawMessage `json:"history,omitempty"`
	Case    json.RawMessage   `json:"case"`
}

type stats struct {
	Sub         string         `json:"sub"`
	Evaluations int            `json:"evaluations"`
	NonTrivial  int            `json:"nontrivial"`
	Labels      map[string]int `json:"labels"`
	Samples     []string       `json:"samples"`
	Hashes      []string       `json:"hashes"`
	Corpus      int            `json:"corpus"`
}

func env(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

// Thorough reports whether the thorough tier is running.
func Thorough() bool { return os.Getenv("VERIF_TIER") == "thorough" }

func guarded[C any](check func(*C) Result, c *C) (res Result) {
	defer func() {
		if r := recover(); r != nil {
			st := string(debug.Stack())
			res = Result{NonTrivial: true, Err: fmt.Errorf("panic: %v\n%s", r, trimStack(st))}
		}
	}()
	defer func() { rand.Reader = SystemRand }()
	return check(c)
}

func trimStack(s string) string {
	lines := strings.Split(s, "\n")
	var out []string
	for _, l := range lines {
		if strings.Contains(l, "frost-ed25519") || strings.Contains(l, "/repo/") || strings.Contains(l, "edwards25519") {
			out = append(out, strings.TrimSpace(l))
		}
	}
	if len(out) > 24 {
		out = out[:24]
	}
	return strings.Join(out, "\n")
}

// Run explores sub-property `sub` ("C01.session") with weight*VERIF_CHECKS cases, or, when
// VERIF_REPLAY names a file for it, re-runs that one case.
func Run[C any](t *testing.T, sub string, weight float64, gen func(*rapid.T) C, check func(*C) Result) {
	t.Helper()
	prop := strings.SplitN(sub, ".", 2)[0]
	outDir := env("VERIF_OUT", "")

	if f := os.Getenv("VERIF_REPLAY"); f != "" {
		runReplay(t, sub, f, check)
		return
	}

	st := stats{Sub: sub, Labels: map[string]int{}}
	seen := map[string]bool{}
	failed := false
	record := func(c *C, raw []byte, res Result) {
		st.Evaluations++
		for _, l := range res.Labels {
			st.Labels[l]++
		}
		if res.NonTrivial {
			h := sha256.Sum256(raw)
			k := hex.EncodeToString(h[:8])
			if !seen[k] {
				seen[k] = true
				st.NonTrivial++
				if len(st.Samples) < 2 {
					s := string(raw)
					if len(s) > 600 {
						s = s[:600] + "..."
					}
					st.Samples = append(st.Samples, s)
				}
			}
		}
	}
	flush := func() {
		if outDir == "" {
			return
		}
		for k := range seen {
			st.Hashes = append(st.Hashes, k)
		}
		sort.Strings(st.Hashes)
		b, _ := json.Marshal(st)
		_ = os.WriteFile(filepath.Join(outDir, "stats-"+sub+".json"), b, 0o644)
	}
	defer flush()
	writeCase := func(name string, raw []byte, err string) {
		if outDir == "" {
			return
		}
		b, _ := json.MarshalIndent(Replay{Property: prop, Sub: sub, Error: err, Case: raw}, "", " ")
		_ = os.WriteFile(filepath.Join(outDir, name), append(b, '\n'), 0o644)
	}
	// everything judged up to the first failure: a failure may depend on earlier cases
	var history *os.File
	if outDir != "" {
		history, _ = os.Create(filepath.Join(outDir, "history-"+sub+".jsonl"))
	}
	defer history.Close()
	one := func(c *C) (Result, []byte) {
		raw, err := json.Marshal(c)
		if err != nil {
			panic(fmt.Sprintf("harness: case not serialisable: %v", err))
		}
		// what the check sees is exactly what a replay would see
		var c2 C
		if err := json.Unmarshal(raw, &c2); err != nil {
			panic(fmt.Sprintf("harness: case not deserialisable: %v", err))
		}
		writeCase("journal.json", raw, "")
		if !failed && history != nil {
			_, _ = history.Write(append(raw[:len(raw):len(raw)], '\n'))
		}
		return guarded(check, &c2), raw
	}

	// saved cases first
	if dir := os.Getenv("VERIF_CORPUS"); dir != "" {
		files, _ := filepath.Glob(filepath.Join(dir, sub, "*.json"))
		sort.Strings(files)
		for _, f := range files {
			b, err := os.ReadFile(f)
			if err != nil {
				t.Fatalf("harness: %v", err)
			}
			var rp Replay
			var c C
			if err := json.Unmarshal(b, &rp); err != nil {
				t.Fatalf("harness: %s: %v", f, err)
			}
			if err := json.Unmarshal(rp.Case, &c); err != nil {
				t.Fatalf("harness: %s: %v", f, err)
			}
			res, raw := one(&c)
			st.Corpus++
			record(&c, raw, res)
			if res.Err != nil {
				failed = true
				writeCase("fail-"+sub+".json", raw, res.Err.Error())
				t.Fatalf("%s: saved case %s: %v", sub, f, res.Err)
			}
		}
	}

	n, _ := strconv.Atoi(env("VERIF_CHECKS", "50"))
	n = int(float64(n) * weight)
	if n < 1 {
		n = 1
	}
	_ = flag.Set("rapid.checks", strconv.Itoa(n))
	rapid.Check(t, func(rt *rapid.T) {
		c := gen(rt)
		res, raw := one(&c)
		if !failed {
			record(&c, raw, res)
		}
		if res.Err != nil {
			failed = true
			writeCase("fail-"+sub+".json", raw, res.Err.Error())
			rt.Fatalf("%s: %v", sub, res.Err)
		}
	})
}

func runReplay[C any](t *testing.T, sub, f string, check func(*C) Result) {
	b, err := os.ReadFile(f)
	if err != nil {
		t.Fatalf("harness: %v", err)
	}
	var rp Replay
	if err := json.Unmarshal(b, &rp); err != nil {
		t.Fatalf("harness: %v", err)
	}
	if rp.Sub != sub {
		return
	}
	var c C
	if err := json.Unmarshal(rp.Case, &c); err != nil {
		t.Fatalf("harness: %v", err)
	}
	n, _ := strconv.Atoi(env("VERIF_REPEAT", "20"))
	if len(rp.History) > 0 {
		for i, raw := range append(rp.History, rp.Case) {
			var c C
			if err := json.Unmarshal(raw, &c); err != nil {
				t.Fatalf("harness: %v", err)
			}
			if res := guarded(check, &c); res.Err != nil {
				fmt.Printf("REPRODUCED %s (case %d of %d): %v\n", sub, i+1, len(rp.History)+1, res.Err)
				t.Fail()
				return
			}
		}
		fmt.Printf("NOT-REPRODUCED %s after %d cases\n", sub, len(rp.History)+1)
		return
	}
	for i := 0; i < n; i++ {
		c := c
		if res := guarded(check, &c); res.Err != nil {
			fmt.Printf("REPRODUCED %s (run %d): %v\n", sub, i+1, res.Err)
			t.Fail()
			return
		}
	}
	fmt.Printf("NOT-REPRODUCED %s in %d runs\n", sub, n)
}

// SystemRand is the untouched entropy source.
var SystemRand = rand.Reader

// Stream is a deterministic entropy source. It counts and records what it hands out and can
// flip one byte, read short, or fail.
type Stream struct {
	mu     sync.Mutex
	src    *mrand.ChaCha8
	N      int  // bytes handed out
	Reads  int  // read calls
	FlipAt int  // offset of the byte to flip, -1 none
	Flip   byte // xor mask
	Max    int  // at most this many bytes per read, 0 unlimited
	FailAt int  // the read call (0-based) that fails, -1 never
	Failed bool
	Keep   bool   // keep what was handed out
	Log    []byte // it
}

// NewStream returns a stream determined by seed.
func NewStream(seed uint64) *Stream {
	h := sha256.Sum256([]byte(fmt.Sprintf("frost-verif-%d", seed)))
	return &Stream{src: mrand.NewChaCha8(h), FlipAt: -1, FailAt: -1}
}

func (s *Stream) Read(p []byte) (int, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.FailAt >= 0 && s.Reads >= s.FailAt {
		s.Failed = true
		return 0, io.ErrUnexpectedEOF
	}
	s.Reads++
	if s.Max > 0 && len(p) > s.Max {
		p = p[:s.Max]
	}
	_, _ = s.src.Read(p)
	if s.FlipAt >= s.N && s.FlipAt < s.N+len(p) {
		p[s.FlipAt-s.N] ^= s.Flip
	}
	if s.Keep {
		s.Log = append(s.Log, p...)
	}
	s.N += len(p)
	return len(p), nil
}

// SetRand makes seed determine all of the library's randomness until the case ends.
func SetRand(seed uint64) *Stream {
	s := NewStream(seed)
	rand.Reader = s
	return s
}

// Clip shortens a byte string for messages.
func Clip(b []byte) string {
	if len(b) > 48 {
		return hex.EncodeToString(b[:48]) + "..."
	}
	return hex.EncodeToString(b)
}

// SameBytes is bytes.Equal.
func SameBytes(a, b []byte) bool { return bytes.Equal(a, b) }
