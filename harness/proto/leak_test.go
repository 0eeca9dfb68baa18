package proto

import (
	"encoding/base64"
	"encoding/json"
	"errors"
	"fmt"
	"log"
	"math/big"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strconv"
	"sync"
	"syscall"
	"testing"
	"time"

	"github.com/taurusgroup/frost-ed25519/pkg/eddsa"
	"github.com/taurusgroup/frost-ed25519/pkg/frost/keygen"
	"github.com/taurusgroup/frost-ed25519/pkg/frost/party"
	"github.com/taurusgroup/frost-ed25519/pkg/frost/sign"
	"github.com/taurusgroup/frost-ed25519/pkg/helpers"
	"github.com/taurusgroup/frost-ed25519/pkg/messages"
	"github.com/taurusgroup/frost-ed25519/pkg/state"
	"github.com/taurusgroup/frost-ed25519/pkg/verif/lib"
	"github.com/taurusgroup/frost-ed25519/pkg/verif/ref"
	"github.com/taurusgroup/frost-ed25519/pkg/verif/sim"
	"pgregory.net/rapid"
)

// ---- C33 ----

// capture collects what is written to the standard output and error while f runs.
func capture(f func()) []byte {
	tmp, err := os.CreateTemp("", "verif-out")
	if err != nil {
		panic(fmt.Sprintf("harness: %v", err))
	}
	defer tmp.Close()
	_ = os.Remove(tmp.Name())
	var old [3]int
	for fd := 1; fd <= 2; fd++ {
		if old[fd], err = syscall.Dup(fd); err == nil {
			err = syscall.Dup2(int(tmp.Fd()), fd)
		}
		if err != nil {
			panic(fmt.Sprintf("harness: %v", err))
		}
	}
	defer func() {
		for fd := 1; fd <= 2; fd++ {
			_ = syscall.Dup2(old[fd], fd)
			_ = syscall.Close(old[fd])
		}
	}()
	f()
	fi, _ := tmp.Stat()
	b := make([]byte, fi.Size())
	_, _ = tmp.ReadAt(b, 0)
	return b
}

type leakCase struct {
	G     sim.Group
	Sign  bool
	Stage int
	End   string // success, bad1, bad2, timeout
	Part  int
	Noise []int // hostile deliveries, placed between the honest ones
	Msg   []byte
	Seed  uint64
}

// emission is something that others get to see.
type emission struct {
	what string
	to   uint16
	b    []byte
}

type leak struct {
	c     *leakCase
	p     *sim.Peers
	n     *sim.Node
	round state.Round
	out   []emission
	known map[string]*big.Int // secrets found in the live session, by the encoding of their image
	noise int
}

func (l *leak) say(what string, to uint16, b []byte) { l.out = append(l.out, emission{what, to, b}) }

func (l *leak) sayErr(what string, err error) {
	for depth := 0; err != nil && depth < 8; depth++ {
		l.say(what, 0, []byte(err.Error()))
		l.say(what+" printed in full", 0, []byte(fmt.Sprintf("%v|%+v|%s|%q", err, err, err, err)))
		var se *state.Error
		if errors.As(err, &se) && se == err {
			return
		}
		err = errors.Unwrap(err)
	}
}

type image struct {
	name string
	to   uint16 // who may be told
}

func (l *leak) images() map[string]image {
	e := &eraseCase{G: l.c.G, Sign: l.c.Sign}
	m := map[string]image{}
	for k, name := range secretPoints(e, l.p, l.n) {
		m[k] = image{name, 0}
	}
	if !l.c.Sign && l.p.SelfC != nil {
		for _, id := range l.p.Others() {
			m[string(ref.Encode(ref.EvalExp(l.p.SelfC.Commits, big.NewInt(int64(id)))))] = image{fmt.Sprintf("the share for party %d", id), id}
		}
		own := ref.EvalExp(l.p.SelfC.Commits, big.NewInt(int64(l.p.Self)))
		m[string(ref.Encode(own))] = image{"the party's share of its own polynomial", 0}
		k := ref.Sub(ref.BaseMul(l.p.SelfC.R), ref.Mul(l.p.SelfC.S, l.p.SelfC.Commits[0]))
		m[string(ref.Encode(k))] = image{"the nonce of the proof", 0}
	}
	return m
}

// look remembers the secrets the live session, or its entropy, holds.
func (l *leak) look() {
	img := l.images()
	try := func(k *big.Int) {
		if k.Sign() == 0 {
			return
		}
		e := string(ref.Encode(ref.BaseMul(k)))
		if _, ok := img[e]; ok {
			l.known[e] = k
		}
	}
	for _, f := range walk(l.round) {
		try(f.k)
	}
	for _, f := range walk(l.n.St) {
		try(f.k)
	}
	b := l.n.Rand.Log
	for off := 0; off+32 <= len(b); off += 32 {
		if off+64 <= len(b) {
			try(ref.Wide(b[off : off+64]))
		}
		if k, ok := ref.ParseScalar(b[off : off+32]); ok {
			try(k)
		}
	}
}

// hostile delivers one message that must have no effect.
func (l *leak) hostile(kind int) {
	others := l.p.Others()
	from := others[kind/8%len(others)]
	first := l.p.First(from, false)
	second, _ := l.p.Second(from, false)
	var b []byte
	switch kind % 8 {
	case 0:
		b = second[:len(second)-1-kind/8%16]
	case 1:
		b = append(append([]byte{}, second...), second[5:]...)
	case 2: // a stranger's
		b = append([]byte{}, second...)
		id := freeID(l.p.IDs)
		b[1], b[2] = byte(id>>8), byte(id)
	case 3:
		b = append([]byte{}, second...)
		for i := len(b) - 12; i < len(b); i++ {
			b[i] = 0xff
		}
	case 4:
		b = append([]byte{}, second...)
		b[0] = byte(kind) | 0x80
	case 5:
		b = append(append([]byte{}, first[:5]...), second[5:]...)
	case 6:
		b = append([]byte{}, second...)
		b[0] ^= 6 // the other protocol's
	case 7:
		if len(l.n.Sent) > 0 {
			b = append([]byte{}, l.n.Sent[kind/8%len(l.n.Sent)]...)
			if kind/64%2 == 1 { // our own words in someone's name
				b[1], b[2] = byte(from>>8), byte(from)
			}
		} else {
			b = second[:3]
		}
	}
	if kind%8 == 7 && kind/64%2 == 1 {
		return // would take the sender's place
	}
	l.noise++
	l.sayErr(fmt.Sprintf("the error for a hostile message (kind %d)", kind%8), l.n.Handle(b))
}

func (l *leak) run() error {
	c, p, n := l.c, l.p, l.n
	others := p.Others()
	stage := c.Stage
	if c.End != "timeout" {
		stage = 3
	}
	bad := others[c.Part%len(others)]
	ni := 0
	noise := func() {
		if ni < len(c.Noise) {
			l.hostile(c.Noise[ni])
			ni++
		}
	}
	for s := 1; s <= stage; s++ {
		before := len(n.Ptrs)
		out := n.Step()
		if s == 1 && len(out) == 1 {
			p.SelfC, _ = ref.Parse(out[0])
		}
		for i, b := range out {
			m, ok := ref.Parse(b)
			if !ok {
				return fmt.Errorf("an emitted message is not valid")
			}
			l.say(fmt.Sprintf("message %d of round %d", i, s), m.To, b)
			for _, f := range walk(n.Ptrs[before+i]) {
				l.say(fmt.Sprintf("message value %d of round %d at %s", i, s, f.path), m.To, ref.ScalarBytes(f.k))
			}
		}
		l.look()
		noise()
		if s == 3 {
			break
		}
		count := len(others)
		if c.End == "timeout" && s == stage {
			count = c.Part % (len(others) + 1)
		}
		for i := 0; i < count; i++ {
			var b []byte
			if s == 1 {
				b = p.First(others[i], c.End == "bad1" && others[i] == bad)
			} else {
				b, _ = p.Second(others[i], c.End == "bad2" && others[i] == bad)
			}
			if err := n.Handle(b); err != nil {
				return fmt.Errorf("a first delivery was refused: %v", err)
			}
			noise()
			switch {
			case (c.Part+i)%3 == 0:
				l.sayErr("the error for a repeated message", n.Handle(b))
			case (c.Part+i)%3 == 1 && i+1 < len(others): // does not advance: one is missing
				_, err := helpers.PartyRoutine([][]byte{append([]byte{}, b...)}, n.St)
				l.sayErr("the routine's error for a repeated message", err)
				_, err = helpers.PartyRoutine([][]byte{append([]byte{}, b[:len(b)-1]...)}, n.St)
				l.sayErr("the routine's error for a cut message", err)
			}
			l.look()
		}
		if c.End == "bad1" && s == 1 {
			n.Step()
			break
		}
	}
	if c.End == "timeout" {
		time.Sleep(2 * time.Second) // virtual
	}
	done, err := n.Finished()
	if !done || (err == nil) != (c.End == "success") {
		return fmt.Errorf("scenario %s: finished=%v err=%v", c.End, done, err)
	}
	l.sayErr("the session's error", err)
	l.sayErr("the error for a message after the end", n.Handle(p.First(others[0], false)))
	second, _ := p.Second(others[0], false)
	_, err = helpers.PartyRoutine([][]byte{second}, n.St)
	l.sayErr("the routine's error after the end", err)
	if n.SG != nil && n.SG.Signature != nil {
		b, _ := n.SG.Signature.MarshalBinary()
		l.say("the signature", 0, b)
		l.say("the signature", 0, n.SG.Signature.ToEd25519())
	}
	if n.KG != nil && n.KG.Public != nil {
		b, _ := json.Marshal(n.KG.Public)
		l.say("the public key data", 0, b)
		for _, f := range walk(n.KG.Public) {
			l.say("the public key data at "+f.path, 0, ref.ScalarBytes(f.k))
		}
	}
	return nil
}

// secrets lists everything that must stay with the party.
func (l *leak) secrets() *lib.Secrets {
	s := &lib.Secrets{}
	img := l.images()
	add := func(name string, k *big.Int, to uint16) {
		s.Add(name, ref.ScalarBytes(k), to)
		sc := sim.Scalar(k)
		s.AddText(name, fmt.Sprintf("%v", *sc))
		s.AddText(name, fmt.Sprintf("%x", *sc))
	}
	for e, k := range l.known {
		add(img[e].name, k, img[e].to)
	}
	val := func(pt *ref.Pt) *big.Int { return l.known[string(ref.Encode(pt))] }
	p := l.p
	if l.c.Sign {
		self := p.Self
		x, lam := p.Keys.Secret[self], ref.Lagrange(self, p.IDs)
		add("the secret share", x, 0)
		add("the secret share times its Lagrange coefficient", ref.MulQ(x, lam), 0)
		if v := p.View(); v != nil {
			rho, ch := v.Rho[self], v.Chal
			lsc := ref.MulQ(ref.MulQ(x, lam), ch)
			add("the secret share times the challenge", ref.MulQ(x, ch), 0)
			add("the signing share times the challenge", lsc, 0)
			if d := val(p.SelfC.D); d != nil {
				add("response without the second nonce", ref.AddQ(d, lsc), 0)
				if e := val(p.SelfC.E); e != nil {
					add("response without the key", ref.AddQ(d, ref.MulQ(e, rho)), 0)
					add("the sum of the nonces", ref.AddQ(d, e), 0)
				}
			}
			if e := val(p.SelfC.E); e != nil {
				add("the second nonce times its binding factor", ref.MulQ(e, rho), 0)
				add("response without the first nonce", ref.AddQ(ref.MulQ(e, rho), lsc), 0)
			}
		}
		return s
	}
	for _, id := range p.Others() {
		add(fmt.Sprintf("the share received from party %d", id), ref.Eval(p.Poly(id), big.NewInt(int64(p.Self))), 0)
	}
	if p.SelfC == nil {
		return s
	}
	var co []*big.Int
	for _, cm := range p.SelfC.Commits {
		if k := val(cm); k != nil {
			co = append(co, k)
		}
	}
	if len(co) == len(p.SelfC.Commits) {
		for _, id := range p.Others() {
			add(fmt.Sprintf("the share for party %d", id), ref.Eval(co, big.NewInt(int64(id))), id)
		}
		own := ref.Eval(co, big.NewInt(int64(p.Self)))
		add("the party's share of its own polynomial", own, 0)
		for _, id := range p.Others() {
			own = ref.AddQ(own, ref.Eval(p.Poly(id), big.NewInt(int64(p.Self))))
		}
		add("the secret key", own, 0)
		add("the coefficient times the proof's challenge", ref.MulQ(co[0], p.SelfC.S), 0)
	}
	return s
}

func checkLeak(c *leakCase) lib.Result {
	ids := c.G.IDs
	self := ids[int(c.Seed)%len(ids)]
	p := &sim.Peers{Self: self, IDs: ids, T: c.G.T, Seed: c.G.Seed, Sign: c.Sign, Msg: c.Msg}
	if c.Sign {
		p.Keys = sim.Deal(ids, c.G.T, c.G.Seed)
	}
	d := time.Duration(0)
	if c.End == "timeout" {
		d = time.Second
	}
	rnd := lib.SetRand(c.Seed)
	rnd.Keep = true
	l := &leak{c: c, p: p, n: &sim.Node{ID: self, Rand: rnd}, known: map[string]*big.Int{}}
	var fail error
	func() {
		log.SetOutput(os.Stderr)
		printed := capture(func() {
			var err error
			if c.Sign {
				l.round, l.n.SG, err = sign.NewRound(sim.IDs(ids), p.Keys.Shares[self], p.Keys.Public, p.Msg)
			} else {
				l.round, l.n.KG, err = keygen.NewRound(party.ID(self), sim.IDs(ids), party.Size(c.G.T))
			}
			if err == nil {
				l.n.St, err = state.NewBaseState(l.round, d)
			}
			if err != nil {
				fail = fmt.Errorf("creating a valid session: %v", err)
				return
			}
			fail = l.run()
		})
		l.say("what was printed", 0, printed)
	}()
	if fail != nil {
		return lib.Result{Err: fail}
	}
	s := l.secrets()
	for _, e := range l.out {
		if name, ok := s.Find(e.b, e.to); ok {
			return lib.Fail("%s (for party %d; 0: anyone) contains %s: %s", e.what, e.to, name, lib.Clip(e.b))
		}
	}
	all := 0
	if !c.Sign && p.SelfC != nil {
		all = len(p.SelfC.Commits)
	} else if p.SelfC != nil {
		all = 2
	}
	return lib.Result{NonTrivial: p.SelfC != nil && len(l.known) >= all, Labels: []string{fmt.Sprintf("sign=%v %s", c.Sign, c.End),
		fmt.Sprintf("live-secrets-known=%v", len(l.known) >= all), fmt.Sprintf("hostile=%v", l.noise > 0)}}
}

func TestC33Session(t *testing.T) {
	lib.Run(t, "C33.session", 1, func(rt *rapid.T) leakCase {
		return leakCase{G: sim.GenGroup(rt, 2, 5), Sign: rapid.Bool().Draw(rt, "sign"), Stage: rapid.IntRange(0, 3).Draw(rt, "stage") % 3,
			End:  rapid.SampledFrom([]string{"success", "success", "bad1", "bad2", "bad2", "timeout", "timeout"}).Draw(rt, "end"),
			Part: rapid.IntRange(0, 7).Draw(rt, "part"), Noise: rapid.SliceOfN(rapid.IntRange(0, 4095), 0, 8).Draw(rt, "noise"),
			Msg: sim.GenMsg(rt), Seed: uint64(rapid.Uint32().Draw(rt, "s"))}
	}, func(c *leakCase) lib.Result {
		return bubble(t, func() lib.Result { return checkLeak(c) })
	})
}

// ---- refusing stored key material ----

type storeCase struct {
	ID    uint16
	Seed  uint64
	JSON  bool
	Kind  int
	A     int
	In    int // how the material is embedded
	Value bool
}

// mutate damages an encoding in a way that keeps most of the secret in it.
func (c *storeCase) encode() []byte {
	x := ref.Expand(c.Seed, "stored", int(c.ID))
	raw := ref.ScalarBytes(x)
	if c.Kind%8 == 7 {
		raw[31] |= 0xf0 // not reduced
	}
	if !c.JSON {
		b := append(ref.ID16(c.ID), raw...)
		switch c.Kind % 8 {
		case 0:
			b = b[:len(b)-1-c.A%8]
		case 1:
			b = append(b, byte(c.A))
		case 2:
			b = b[c.A%3+1:]
		case 3:
			b = append(b, b...)
		}
		return b
	}
	sec := base64.StdEncoding.EncodeToString(raw)
	id := strconv.Itoa(int(c.ID))
	switch c.Kind % 8 {
	case 0:
		sec = sec[:len(sec)-1-c.A%4]
	case 1:
		sec += "AA"
	case 2:
		sec = sec[:8] + "*" + sec[9:]
	case 3:
		id = "-1"
	case 4:
		id = "70000"
	case 5:
		id = `"` + id + `"`
	case 6:
		sec = base64.StdEncoding.EncodeToString(raw[:31-c.A%4])
	}
	doc := fmt.Sprintf(`{"id":%s,"secret":"%s"}`, id, sec)
	switch c.In % 4 {
	case 1:
		doc = doc[:len(doc)-1]
	case 2:
		doc += "}"
	case 3:
		doc = `[` + doc + `]`
	}
	return []byte(doc)
}

func checkStore(c *storeCase) lib.Result {
	b := c.encode()
	var err error
	var sk eddsa.SecretShare
	printed := capture(func() {
		if c.JSON {
			if c.In%4 == 3 {
				var l []*eddsa.SecretShare
				err = json.Unmarshal(b, &l)
			} else {
				err = json.Unmarshal(b, &sk)
				if c.Value && err != nil { // past the checks of package json
					err = sk.UnmarshalJSON(b)
				}
			}
		} else {
			err = sk.UnmarshalBinary(b)
		}
	})
	s := &lib.Secrets{}
	x := ref.ScalarBytes(ref.Expand(c.Seed, "stored", int(c.ID)))
	s.Add("the stored secret", x, 0)
	if name, ok := s.Find(printed, 0); ok {
		return lib.Fail("loading prints %s: %s", name, lib.Clip(printed))
	}
	for e := err; e != nil; e = errors.Unwrap(e) {
		if name, ok := s.Find([]byte(fmt.Sprintf("%v|%+v|%q", e, e, e)), 0); ok {
			return lib.Fail("the error for damaged key material contains %s: %v", name, e)
		}
	}
	return lib.Result{NonTrivial: err != nil, Labels: []string{fmt.Sprintf("json=%v refused=%v", c.JSON, err != nil)}}
}

func TestC33Store(t *testing.T) {
	lib.Run(t, "C33.store", 1.5, func(rt *rapid.T) storeCase {
		return storeCase{ID: rapid.Uint16Range(1, 65535).Draw(rt, "id"), Seed: uint64(rapid.Uint32().Draw(rt, "s")), JSON: rapid.Bool().Draw(rt, "json"),
			Kind: rapid.IntRange(0, 7).Draw(rt, "kind"), A: rapid.IntRange(0, 255).Draw(rt, "a"), In: rapid.IntRange(0, 5).Draw(rt, "in") % 4, Value: rapid.Bool().Draw(rt, "direct")}
	}, checkStore)
}

// ---- refusing to start or to read ----

type refuseCase struct {
	G    sim.Group
	Kind int
	A    int
	Seed uint64
}

func checkRefuse(c *refuseCase) lib.Result {
	ids := append([]uint16{}, c.G.IDs...)
	k := sim.Deal(ids, c.G.T, c.G.Seed)
	self := ids[c.A%len(ids)]
	s := &lib.Secrets{}
	for id, x := range k.Secret {
		s.Add(fmt.Sprintf("the secret share of party %d", id), ref.ScalarBytes(x), 0)
		s.AddText("a secret share", fmt.Sprintf("%v", *sim.Scalar(x)))
	}
	sk, pub := k.Shares[self], k.Public
	var err error
	printed := capture(func() {
		switch c.Kind {
		case 0: // not one of the signers
			rest := []uint16{}
			for _, id := range ids {
				if id != self {
					rest = append(rest, id)
				}
			}
			_, err = sim.NewSign(rest, sk, pub, []byte("m"), 0, nil)
		case 1: // a stranger signs along
			_, err = sim.NewSign(ref.Sorted(append(ids, freeID(ids))), sk, pub, []byte("m"), 0, nil)
		case 2:
			_, err = sim.NewSign(append(ids, ids[len(ids)-1]), sk, pub, []byte("m"), 0, nil)
		case 3:
			other := newShare(freeID(ids), k.Secret[self])
			_, err = sim.NewSign(ids, other, pub, []byte("m"), 0, nil)
		case 4:
			rev := []uint16{}
			for i := len(ids) - 1; i >= 0; i-- {
				rev = append(rev, ids[i])
			}
			_, err = sim.NewSign(rev, sk, pub, []byte("m"), 0, nil)
		case 5, 6, 7: // a private message that cannot be read
			b := ref.MsgKG2(ids[1], ids[0], k.Secret[self])
			switch c.Kind {
			case 5:
				b = b[:len(b)-1-c.A%8]
			case 6:
				b = append(b, byte(c.A))
			case 7:
				b[3], b[4] = 0, 0
			}
			var m messages.Message
			err = m.UnmarshalBinary(b)
		case 8: // one that cannot be written
			m := messages.NewKeyGen2(party.ID(self), 0, sim.Scalar(k.Secret[self]))
			_, err = m.MarshalBinary()
		case 9:
			m := messages.NewSign2(0, sim.Scalar(k.Secret[self]))
			_, err = m.MarshalBinary()
		}
	})
	if name, ok := s.Find(printed, 0); ok {
		return lib.Fail("refusing (kind %d) prints %s: %s", c.Kind, name, lib.Clip(printed))
	}
	for e := err; e != nil; e = errors.Unwrap(e) {
		if name, ok := s.Find([]byte(fmt.Sprintf("%v|%+v|%q", e, e, e)), 0); ok {
			return lib.Fail("the error (kind %d) contains %s: %v", c.Kind, name, e)
		}
	}
	return lib.Result{NonTrivial: err != nil, Labels: []string{fmt.Sprintf("kind=%d refused=%v", c.Kind, err != nil)}}
}

func freeID(ids []uint16) uint16 {
	used := map[uint16]bool{}
	for _, id := range ids {
		used[id] = true
	}
	for id := uint16(1); ; id++ {
		if !used[id] {
			return id
		}
	}
}

func TestC33Refuse(t *testing.T) {
	lib.Run(t, "C33.refuse", 0.4, func(rt *rapid.T) refuseCase {
		return refuseCase{G: sim.GenGroup(rt, 2, 5), Kind: rapid.IntRange(0, 9).Draw(rt, "kind"), A: rapid.IntRange(0, 255).Draw(rt, "a"), Seed: uint64(rapid.Uint32().Draw(rt, "s"))}
	}, checkRefuse)
}

// ---- the signer command ----

type signerCase struct {
	N, T int
	Kind int
	A    int
	Msg  []byte
	Seed uint64
}

var signerOnce struct {
	sync.Once
	path string
}

// signerPath is the command, built by the check, or here when run by hand.
func signerPath() string {
	signerOnce.Do(func() {
		signerOnce.path = filepath.Join(os.Getenv("VERIF_BIN"), "signer")
		if _, err := os.Stat(signerOnce.path); os.Getenv("VERIF_BIN") != "" && err == nil {
			return
		}
		signerOnce.path = filepath.Join(os.TempDir(), fmt.Sprintf("verif-signer-%d", os.Getpid()))
		if out, err := exec.Command("go", "build", "-o", signerOnce.path, "github.com/taurusgroup/frost-ed25519/cmd/signer").CombinedOutput(); err != nil {
			panic(fmt.Sprintf("harness: building signer: %v %s", err, out))
		}
	})
	return signerOnce.path
}

func checkSigner(c *signerCase) lib.Result {
	var ids []uint16
	for i := 1; i <= c.N; i++ {
		ids = append(ids, uint16(i))
	}
	k := sim.Deal(ids, uint16(c.T), c.Seed)
	s := &lib.Secrets{}
	b64 := base64.StdEncoding.EncodeToString
	secrets, shares := map[string]interface{}{}, map[string]interface{}{}
	a := strconv.Itoa(c.A%c.N + 1)
	for _, id := range ids {
		raw := ref.ScalarBytes(k.Secret[id])
		s.Add(fmt.Sprintf("the secret share of party %d", id), raw, 0)
		s.AddText("a secret share", fmt.Sprintf("%v", *sim.Scalar(k.Secret[id])))
		secrets[strconv.Itoa(int(id))] = map[string]interface{}{"id": int(id), "secret": b64(raw)}
		shares[strconv.Itoa(int(id))] = b64(ref.Encode(k.Pub[id]))
	}
	// nor may the group's secret be put together
	var group *big.Int
	{
		sub := ids[:c.T+1]
		group = new(big.Int)
		for _, id := range sub {
			group = ref.AddQ(group, ref.MulQ(ref.Lagrange(id, sub), k.Secret[id]))
		}
	}
	s.Add("the group's secret key", ref.ScalarBytes(group), 0)
	public := map[string]interface{}{"t": c.T, "groupkey": b64(ref.Encode(k.Group)), "shares": shares}
	sec := secrets[a].(map[string]interface{})
	raw := ref.ScalarBytes(k.Secret[uint16(c.A%c.N+1)])
	switch c.Kind {
	case 1:
		delete(shares, a)
	case 2:
		sec["id"] = 70000
	case 3:
		sec["id"] = c.N + 5
	case 4:
		sec["secret"] = b64(raw[:30])
	case 5:
		sec["secret"] = b64(raw) + "*"
	case 6: // of another party: signing fails
		other := strconv.Itoa((c.A+1)%c.N + 1)
		secrets[a], secrets[other] = secrets[other], secrets[a]
	case 10: // the same, each under its own ID
		other := secrets[strconv.Itoa((c.A+1)%c.N+1)].(map[string]interface{})
		sec["secret"], other["secret"] = other["secret"], sec["secret"]
	case 11:
		sec["secret"] = b64(ref.ScalarBytes(ref.Expand(c.Seed, "another", 0)))
	case 12:
		public["groupkey"] = shares[a]
	case 13:
		public["t"] = c.N + c.A%3
	case 7:
		shares[a] = b64(raw) // not an element, or not the right one
	case 8:
		raw[31] |= 0xf0
		sec["secret"] = b64(raw)
	}
	doc, _ := json.Marshal(map[string]interface{}{"Secrets": secrets, "Shares": public})
	if c.Kind == 9 {
		doc = doc[:len(doc)-1-c.A%40]
	}
	dir, err := os.MkdirTemp("", "verif-leak")
	if err != nil {
		panic(fmt.Sprintf("harness: %v", err))
	}
	defer os.RemoveAll(dir)
	_ = os.WriteFile(filepath.Join(dir, "key.json"), doc, 0o600)
	cmd := exec.Command(signerPath(), "key.json", string(c.Msg))
	cmd.Dir = dir
	cmd.Env = []string{"HOME=" + dir, "TMPDIR=" + dir, "PATH=/usr/bin:/bin"}
	timer := time.AfterFunc(time.Minute, func() { _ = cmd.Process.Kill() })
	out, _ := cmd.CombinedOutput()
	timer.Stop()
	if name, ok := s.Find(out, 0); ok {
		return lib.Fail("the signer (kind %d) prints %s: %s", c.Kind, name, lib.Clip(out))
	}
	files, _ := filepath.Glob(filepath.Join(dir, "*"))
	for _, f := range files {
		if filepath.Base(f) == "key.json" {
			continue
		}
		b, _ := os.ReadFile(f)
		if name, ok := s.Find(b, 0); ok {
			return lib.Fail("the signer (kind %d) writes %s to %s", c.Kind, name, filepath.Base(f))
		}
	}
	return lib.Result{NonTrivial: len(out) > 0, Labels: []string{fmt.Sprintf("signer kind=%d", c.Kind)}}
}

func TestC33Signer(t *testing.T) {
	if runtime.GOOS != "linux" {
		t.Skip()
	}
	lib.Run(t, "C33.signer", 0.04, func(rt *rapid.T) signerCase {
		n := rapid.IntRange(2, 6).Draw(rt, "n")
		return signerCase{N: n, T: rapid.IntRange(1, n-1).Draw(rt, "t"), Kind: rapid.IntRange(0, 13).Draw(rt, "kind"), A: rapid.IntRange(0, 255).Draw(rt, "a"),
			Msg: []byte(rapid.StringMatching(`[a-z ]{0,20}`).Draw(rt, "m")), Seed: uint64(rapid.Uint32().Draw(rt, "s"))}
	}, checkSigner)
}
