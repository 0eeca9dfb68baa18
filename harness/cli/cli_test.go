// Package cli checks the command-line tools end to end (C21). The binaries are in VERIF_BIN, or
// are built when it is not set. Every run gets its own scratch directory.
package cli

import (
	"bytes"
	"crypto/ed25519"
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"math/big"
	"net/url"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"testing"
	"time"

	"github.com/taurusgroup/frost-ed25519/pkg/verif/lib"
	"github.com/taurusgroup/frost-ed25519/pkg/verif/ref"
	"github.com/taurusgroup/frost-ed25519/pkg/verif/sim"
	"pgregory.net/rapid"
)

var bin string

func TestMain(m *testing.M) {
	bin = os.Getenv("VERIF_BIN")
	tmp := ""
	if bin == "" {
		tmp, _ = os.MkdirTemp("", "verif-cli")
		bin = tmp
		for _, c := range []string{"keygen", "signer"} {
			out, err := exec.Command("go", "build", "-o", filepath.Join(bin, c), "github.com/taurusgroup/frost-ed25519/cmd/"+c).CombinedOutput()
			if err != nil {
				fmt.Printf("harness: building %s: %v\n%s", c, err, out)
				os.Exit(3)
			}
		}
	}
	code := m.Run()
	if tmp != "" {
		_ = os.RemoveAll(tmp)
	}
	os.Exit(code)
}

type result struct {
	out, errs string
	success   bool
	trouble   error
}

func run(dir, cmd string, args ...string) result {
	c := exec.Command(filepath.Join(bin, cmd), args...)
	c.Dir = dir
	c.Env = []string{"HOME=" + dir, "TMPDIR=" + dir, "PATH=/usr/bin:/bin"}
	var o, e bytes.Buffer
	c.Stdout, c.Stderr = &o, &e
	if err := c.Start(); err != nil {
		panic(fmt.Sprintf("harness: %v", err))
	}
	timer := time.AfterFunc(time.Minute, func() { _ = c.Process.Kill() })
	err := c.Wait()
	hung := !timer.Stop()
	r := result{out: o.String(), errs: e.String()}
	r.success = strings.Contains(strings.ToLower(r.out+r.errs), "success")
	var ee *exec.ExitError
	switch {
	case hung:
		r.trouble = fmt.Errorf("%s %q did not end within a minute", cmd, args)
	case strings.Contains(r.errs, "panic:") || strings.Contains(r.errs, "fatal error:") || (errors.As(err, &ee) && ee.ExitCode() < 0):
		r.trouble = fmt.Errorf("%s %q crashed: %s", cmd, args, clip(r.errs))
	}
	return r
}

func clip(s string) string {
	if len(s) > 500 {
		return s[:500] + "..."
	}
	return s
}

type keyFile struct {
	t, n  int
	x     map[uint16]*big.Int
	group []byte
}

// readKeys reads a key file with the reference implementation only.
func readKeys(path string) (*keyFile, error) {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil, err
	}
	var doc struct {
		Secrets map[string]struct {
			ID     int    `json:"id"`
			Secret string `json:"secret"`
		}
		Shares struct {
			T        int               `json:"t"`
			GroupKey string            `json:"groupkey"`
			Shares   map[string]string `json:"shares"`
		}
	}
	if err := json.Unmarshal(b, &doc); err != nil {
		return nil, fmt.Errorf("key file is not valid JSON: %v", err)
	}
	k := &keyFile{t: doc.Shares.T, n: len(doc.Secrets), x: map[uint16]*big.Int{}}
	if len(doc.Shares.Shares) != k.n {
		return nil, fmt.Errorf("%d secrets, %d public shares", k.n, len(doc.Shares.Shares))
	}
	var ids []uint16
	for i := 1; i <= k.n; i++ {
		key := strconv.Itoa(i)
		sh, ok := doc.Secrets[key]
		raw, err := base64.StdEncoding.DecodeString(sh.Secret)
		if !ok || sh.ID != i || err != nil {
			return nil, fmt.Errorf("secret of party %d: %+v, %v", i, sh, err)
		}
		x, ok := ref.ParseScalar(raw)
		if !ok {
			return nil, fmt.Errorf("secret of party %d is not a scalar", i)
		}
		pub, err := base64.StdEncoding.DecodeString(doc.Shares.Shares[key])
		if err != nil || !bytes.Equal(pub, ref.Encode(ref.BaseMul(x))) {
			return nil, fmt.Errorf("public share of party %d does not match its secret", i)
		}
		k.x[uint16(i)] = x
		ids = append(ids, uint16(i))
	}
	gk, err := base64.StdEncoding.DecodeString(doc.Shares.GroupKey)
	if err != nil || len(gk) != 32 {
		return nil, fmt.Errorf("group key %q: %v", doc.Shares.GroupKey, err)
	}
	p, ok := ref.Decode(gk)
	if !ok {
		return nil, fmt.Errorf("group key is not an element")
	}
	k.group = ref.EncodeEd(p)
	// every share lies on one polynomial of degree t through the group secret
	if k.t < 1 || k.t >= k.n {
		return nil, fmt.Errorf("threshold %d with %d shares", k.t, k.n)
	}
	for start := 0; start+k.t < k.n; start++ {
		sub := ids[start : start+k.t+1]
		s := new(big.Int)
		for _, id := range sub {
			s = ref.AddQ(s, ref.MulQ(ref.Lagrange(id, sub), k.x[id]))
		}
		if !bytes.Equal(ref.EncodeEd(ref.BaseMul(s)), k.group) {
			return nil, fmt.Errorf("shares of %v do not interpolate to the group key", sub)
		}
	}
	return k, nil
}

var hex64 = regexp.MustCompile(`\b[0-9a-f]{64}\b`)
var rs = regexp.MustCompile(`(?s)\br:\s*([0-9a-f]{64})\b.*\bs:\s*([0-9a-f]{64})\b`)

func signature(out string) ([]byte, error) {
	m := rs.FindStringSubmatch(out)
	if m == nil {
		return nil, fmt.Errorf("no signature in the output %q", clip(out))
	}
	r, _ := hex.DecodeString(m[1])
	s, _ := hex.DecodeString(m[2])
	return append(r, s...), nil
}

// verify accepts the nonce in either form: the Ed25519 one, or the library's own encoding of a
// group element, which is converted.
func verify(group, msg, sig []byte) bool {
	if ed25519.Verify(group, msg, sig) {
		return true
	}
	p, ok := ref.Decode(sig[:32])
	return ok && ed25519.Verify(group, msg, append(append([]byte{}, ref.EncodeEd(p)...), sig[32:]...))
}

func scratch() string {
	d, err := os.MkdirTemp("", "verif-cli")
	if err != nil {
		panic(fmt.Sprintf("harness: %v", err))
	}
	return d
}

type flowCase struct {
	T, N int
	Msgs [][]byte
	Old  int // an older file is in the way: 0 none, 1 shorter, 2 longer
}

func genArg(rt *rapid.T) []byte { // no NUL: it cannot be passed as an argument
	switch rapid.IntRange(0, 6).Draw(rt, "msgkind") {
	case 5, 6: // text that a program might decode, trim or look up instead of signing it
		b := []byte(rapid.SampledFrom([]string{"Hello, FROST", "0a1b2c", "00", "keygenout.json", "HOME", "\u00e9", "a", "1", "deadbeef"}).Draw(rt, "word"))
		for i := rapid.IntRange(1, 2).Draw(rt, "wraps"); i > 0; i-- {
			if b = wrapArg(rapid.IntRange(0, len(wraps)+4).Draw(rt, "wrap"), b); len(b) > 4000 {
				break
			}
		}
		return b
	case 0:
		return []byte{}
	case 1:
		return []byte(rapid.SampledFrom([]string{"-h", "--help", "-", "--", "Hello, FROST", "%s%d%x", "a b\n", "\xff\xfe", "é", "keygenout.json"}).Draw(rt, "special"))
	case 2:
		n := rapid.SampledFrom([]int{63, 64, 65, 127, 128, 129, 255, 256, 257, 1023, 1024, 1025, 4096, 65535, 65537, 131071}).Draw(rt, "len") // the kernel takes no more
		return bytes.Repeat([]byte{rapid.ByteRange(1, 255).Draw(rt, "fill")}, n)
	}
	return rapid.SliceOfN(rapid.ByteRange(1, 255), 1, 40).Draw(rt, "msg")
}

var wraps = []string{"0x%s", "0X%s", "@%s", "-%s", "--%s", "--message=%s", "$%s", "${%s}", "%%%s", "\"%s\"", "'%s'", "`%s`", "%s\n", "\n%s", " %s", "%s ", "\t%s\r\n", "file://%s", "./%s", "base64:%s", "hex:%s", "b64:%s", "\ufeff%s", "{%s}", "[%s]", "{\"message\":\"%s\"}", "%s\\n", "\\x%s", "%s=", "#%s", "~%s", "%s\xff", "é%s", "e\u0301%s"}

func wrapArg(i int, b []byte) []byte {
	switch i - len(wraps) {
	case 0:
		return []byte(hex.EncodeToString(b))
	case 1:
		return []byte("0x" + hex.EncodeToString(b))
	case 2:
		return []byte(base64.StdEncoding.EncodeToString(b))
	case 3:
		return []byte(url.QueryEscape(string(b)))
	case 4:
		return []byte(strconv.Quote(string(b)))
	}
	return []byte(strings.Replace(strings.Replace(wraps[i], "%s", string(b), 1), "%%", "%", 1))
}

func genFlow(rt *rapid.T) flowCase {
	n := rapid.IntRange(2, 9).Draw(rt, "n")
	if rapid.IntRange(0, 11).Draw(rt, "large") == 0 {
		n = rapid.SampledFrom([]int{10, 11, 16, 25}).Draw(rt, "nlarge")
	}
	t := rapid.IntRange(1, n-1).Draw(rt, "t")
	if rapid.IntRange(0, 3).Draw(rt, "tmax") == 0 {
		t = n - 1
	}
	c := flowCase{T: t, N: n, Old: rapid.IntRange(0, 2).Draw(rt, "old")}
	for i := rapid.IntRange(1, 2).Draw(rt, "k"); i > 0; i-- {
		c.Msgs = append(c.Msgs, genArg(rt))
	}
	return c
}

func checkFlow(c *flowCase) lib.Result {
	res := lib.Result{NonTrivial: true, Labels: []string{fmt.Sprintf("n=%d", c.N), fmt.Sprintf("old=%d", c.Old)}}
	fail := func(f string, a ...interface{}) lib.Result {
		res.Err = fmt.Errorf(f, a...)
		return res
	}
	dir := scratch()
	defer os.RemoveAll(dir)
	path := filepath.Join(dir, "keygenout.json")
	if c.Old > 0 {
		_ = os.WriteFile(path, bytes.Repeat([]byte("} old "), []int{1, 20000}[c.Old-1]), 0o644)
	}
	r := run(dir, "keygen", strconv.Itoa(c.T), strconv.Itoa(c.N))
	if r.trouble != nil {
		return fail("%v", r.trouble)
	}
	if !r.success {
		return fail("keygen %d %d does not report success: %q", c.T, c.N, clip(r.out+r.errs))
	}
	k, err := readKeys(path)
	if err != nil {
		return fail("keygen %d %d: %v", c.T, c.N, err)
	}
	if k.n != c.N || k.t != c.T {
		return fail("keygen %d %d wrote a key with threshold %d and %d shares", c.T, c.N, k.t, k.n)
	}
	if shown := hex64.FindString(r.out); shown != hex.EncodeToString(k.group) {
		return fail("keygen prints the group key %s, the shares belong to %x", shown, k.group)
	}
	before, _ := os.ReadFile(path)
	var sigs [][]byte
	for _, m := range c.Msgs {
		s := run(dir, "signer", "keygenout.json", string(m))
		if s.trouble != nil {
			return fail("%v", s.trouble)
		}
		if !s.success {
			return fail("signing %q with a key of %d/%d does not report success: %q", m, c.T, c.N, clip(s.out+s.errs))
		}
		sig, err := signature(s.out)
		if err != nil {
			return fail("%v", err)
		}
		if !verify(k.group, m, sig) {
			return fail("the signature %x of %q does not verify under %x", sig, m, k.group)
		}
		sigs = append(sigs, sig)
	}
	if len(sigs) == 2 && bytes.Equal(sigs[0][:32], sigs[1][:32]) {
		return fail("two signing runs used the same nonce")
	}
	if after, _ := os.ReadFile(path); !bytes.Equal(after, before) {
		return fail("signing changed the key file")
	}
	// a second key is another key
	if len(c.Msgs) == 2 {
		if r := run(dir, "keygen", strconv.Itoa(c.T), strconv.Itoa(c.N)); r.trouble == nil && r.success {
			if k2, err := readKeys(path); err != nil || bytes.Equal(k2.group, k.group) {
				return fail("a second key generation gives the same key, or %v", err)
			}
		}
	}
	return res
}

func TestC21Flow(t *testing.T) { lib.Run(t, "C21.flow", 1, genFlow, checkFlow) }

// ---- arguments ----

type argCase struct {
	Args []string
	Old  bool
}

func genArgs(rt *rapid.T) argCase {
	c := argCase{Old: rapid.Bool().Draw(rt, "old")}
	num := func(name string) string {
		return rapid.OneOf(
			rapid.Map(rapid.IntRange(-5, 12), strconv.Itoa),
			rapid.Map(rapid.IntRange(0, 6), strconv.Itoa),
			rapid.SampledFrom([]string{"0", "-1", "65536", "65537", "65539", "131074", "-65535", "-65534", "4294967297", "4294967298", "18446744073709551617", "-9223372036854775808", "9223372036854775807",
				"", " ", "a", "1a", "0x2", "1.5", "1e1", "١", "two", "-", "--", "NaN", "101", "102", "200", "255", "256", "257", "258"}),
		).Draw(rt, name)
	}
	k := rapid.SampledFrom([]int{2, 2, 2, 2, 2, 2, 0, 1, 3}).Draw(rt, "argc")
	for i := 0; i < k; i++ {
		c.Args = append(c.Args, num("arg"))
	}
	return c
}

func plainInt(s string) (*big.Int, bool) {
	if !regexp.MustCompile(`^(0|-?[1-9][0-9]*)$`).MatchString(s) {
		return nil, false
	}
	return new(big.Int).SetString(s, 10)
}

func checkArgs(c *argCase) lib.Result {
	var valid, open bool
	if len(c.Args) == 2 {
		t, ok1 := plainInt(c.Args[0])
		n, ok2 := plainInt(c.Args[1])
		if ok1 && ok2 && t.Sign() > 0 && t.Cmp(n) < 0 {
			valid = n.Cmp(big.NewInt(100)) < 0 // the documented limit
			open = !valid
		}
	}
	class := map[bool]string{true: "valid", false: "invalid"}[valid]
	if open {
		class = "past the documented limit"
	}
	res := lib.Result{NonTrivial: !valid, Labels: []string{class}}
	fail := func(f string, a ...interface{}) lib.Result {
		res.Err = fmt.Errorf(f, a...)
		return res
	}
	dir := scratch()
	defer os.RemoveAll(dir)
	path := filepath.Join(dir, "keygenout.json")
	if c.Old {
		_ = os.WriteFile(path, []byte("old"), 0o644)
	}
	r := run(dir, "keygen", c.Args...)
	if r.trouble != nil {
		return fail("%v", r.trouble)
	}
	b, err := os.ReadFile(path)
	wrote := err == nil && !(c.Old && string(b) == "old")
	entries, _ := os.ReadDir(dir)
	if r.success != wrote {
		return fail("keygen %q reports success: %v, wrote a key file: %v", c.Args, r.success, wrote)
	}
	if !valid && !open && (wrote || len(entries) > 1 || (len(entries) == 1) != c.Old) {
		return fail("keygen %q wrote a key file", c.Args)
	}
	if valid && !wrote {
		return fail("keygen %q wrote no key file: %q", c.Args, clip(r.out))
	}
	if wrote {
		k, err := readKeys(path)
		if err != nil {
			return fail("keygen %q: %v", c.Args, err)
		}
		if strconv.Itoa(k.t) != c.Args[0] || strconv.Itoa(k.n) != c.Args[1] {
			return fail("keygen %q wrote a key with threshold %d and %d shares", c.Args, k.t, k.n)
		}
	}
	return res
}

func TestC21Args(t *testing.T) { lib.Run(t, "C21.args", 3, genArgs, checkArgs) }

// ---- an output that cannot be written ----

type fullCase struct{ T, N, How int }

func TestC21Full(t *testing.T) {
	lib.Run(t, "C21.full", .3, func(rt *rapid.T) fullCase {
		n := rapid.IntRange(2, 6).Draw(rt, "n")
		return fullCase{T: rapid.IntRange(1, n-1).Draw(rt, "t"), N: n, How: rapid.IntRange(0, 2).Draw(rt, "how")}
	}, func(c *fullCase) lib.Result {
		dir := scratch()
		defer os.RemoveAll(dir)
		path := filepath.Join(dir, "keygenout.json")
		var err error
		switch c.How {
		case 0: // a directory is in the way
			err = os.Mkdir(path, 0o755)
		case 1: // every write fails
			err = os.Symlink("/dev/full", path)
		default:
			err = os.Symlink(filepath.Join(dir, "missing", "file"), path)
		}
		if err != nil {
			panic(fmt.Sprintf("harness: %v", err))
		}
		res := lib.Result{NonTrivial: true, Labels: []string{[]string{"directory", "full", "dangling"}[c.How]}}
		r := run(dir, "keygen", strconv.Itoa(c.T), strconv.Itoa(c.N))
		if r.trouble != nil {
			res.Err = r.trouble
		} else if r.success {
			res.Err = fmt.Errorf("keygen reports success although it could not write its output: %q", clip(r.out))
		}
		return res
	})
}

// ---- key files that were damaged ----

type damageCase struct {
	G    sim.Group
	Kind int
	A, B int
	Msg  []byte
}

var damageKinds = []string{"none", "drop-secret", "null-secret", "swap-secrets", "change-secret", "all-secrets-empty", "no-secrets", "no-shares", "null-shares",
	"drop-both", "change-share", "lower-threshold", "raise-threshold", "other-group", "truncated", "extra-member", "not-json", "empty", "missing", "directory",
	"id-zero", "wrong-id", "null-file", "array", "one-argument", "three-arguments"}

func checkDamage(c *damageCase) lib.Result {
	kind := damageKinds[c.Kind]
	res := lib.Result{NonTrivial: kind != "none", Labels: []string{"damage=" + kind}}
	fail := func(f string, a ...interface{}) lib.Result {
		res.Err = fmt.Errorf(f, a...)
		return res
	}
	n := len(c.G.IDs)
	ids := make([]uint16, n)
	for i := range ids {
		ids[i] = uint16(i + 1)
	}
	k := sim.Deal(ids, c.G.T, c.G.Seed)
	b64 := base64.StdEncoding.EncodeToString
	secrets, shares := map[string]interface{}{}, map[string]interface{}{}
	for _, id := range ids {
		secrets[strconv.Itoa(int(id))] = map[string]interface{}{"id": int(id), "secret": b64(ref.ScalarBytes(k.Secret[id]))}
		shares[strconv.Itoa(int(id))] = b64(ref.Encode(k.Pub[id]))
	}
	public := map[string]interface{}{"t": int(c.G.T), "groupkey": b64(ref.Encode(k.Group)), "shares": shares}
	doc := map[string]interface{}{"Secrets": secrets, "Shares": public}
	a, b := strconv.Itoa(c.A%n+1), strconv.Itoa((c.A+1+c.B%(n-1))%n+1)
	sec := func(key string) map[string]interface{} { return secrets[key].(map[string]interface{}) }
	must := false // the file is still good
	switch kind {
	case "none":
		must = true
	case "drop-secret":
		delete(secrets, a)
	case "null-secret":
		secrets[a] = nil
	case "swap-secrets":
		secrets[a], secrets[b] = secrets[b], secrets[a]
	case "change-secret":
		sec(a)["secret"] = b64(ref.ScalarBytes(ref.Expand(c.G.Seed, "other", 0)))
	case "all-secrets-empty":
		for key := range secrets {
			secrets[key] = map[string]interface{}{}
		}
	case "no-secrets":
		delete(doc, "Secrets")
	case "no-shares":
		delete(doc, "Shares")
	case "null-shares":
		doc["Shares"] = nil
	case "drop-both":
		delete(secrets, a)
		delete(shares, a)
	case "change-share":
		shares[a] = b64(ref.Encode(ref.BaseMul(ref.Expand(c.G.Seed, "other", 0))))
	case "lower-threshold":
		public["t"] = int(c.G.T) - 1
	case "raise-threshold":
		public["t"] = n
	case "other-group":
		public["groupkey"] = b64(ref.Encode(ref.BaseMul(ref.Expand(c.G.Seed, "other", 0))))
	case "extra-member":
		doc["Comment"] = "x"
		must = true
	case "id-zero":
		secrets["0"], shares["0"] = secrets[a], shares[a]
	case "wrong-id":
		sec(a)["id"] = 999
	}
	raw, _ := json.Marshal(doc)
	switch kind {
	case "truncated":
		raw = raw[:len(raw)*(c.A%10)/10]
	case "not-json":
		raw[c.B%len(raw)] = 0
	case "empty":
		raw = nil
	case "null-file":
		raw = []byte("null")
	case "array":
		raw = []byte("[]")
	}
	dir := scratch()
	defer os.RemoveAll(dir)
	path := filepath.Join(dir, "key.json")
	switch kind {
	case "missing":
	case "directory":
		_ = os.Mkdir(path, 0o755)
	default:
		_ = os.WriteFile(path, raw, 0o644)
	}
	args := []string{path, string(c.Msg)}
	switch kind {
	case "one-argument":
		args = args[:1]
	case "three-arguments":
		args = append(args, "x")
	}
	r := run(dir, "signer", args...)
	if r.trouble != nil {
		return fail("%v", r.trouble)
	}
	if must && !r.success {
		return fail("%s: signing with a good key file fails: %q", kind, clip(r.out))
	}
	if r.success {
		sig, err := signature(r.out)
		if err != nil || !verify(ref.EncodeEd(k.Group), c.Msg, sig) {
			return fail("%s: success reported with a signature that does not verify: %q (%v)", kind, clip(r.out), err)
		}
		res.Labels = append(res.Labels, "signed")
	}
	return res
}

func TestC21Damage(t *testing.T) {
	lib.Run(t, "C21.damage", 3, func(rt *rapid.T) damageCase {
		return damageCase{
			G:    sim.GenGroup(rt, 2, 5),
			Kind: rapid.IntRange(0, len(damageKinds)-1).Draw(rt, "kind"),
			A:    rapid.IntRange(0, 99).Draw(rt, "a"),
			B:    rapid.IntRange(0, 400).Draw(rt, "b"),
			Msg:  genArg(rt),
		}
	}, checkDamage)
}
