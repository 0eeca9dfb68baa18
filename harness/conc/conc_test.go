// Package conc drives sessions from many goroutines at once; it is meant to run under the race
// detector.
package conc

import (
	"bytes"
	"fmt"
	"math/rand/v2"
	"runtime"
	"sync"
	"testing"
	"time"

	"github.com/taurusgroup/frost-ed25519/pkg/frost"
	"github.com/taurusgroup/frost-ed25519/pkg/frost/keygen"
	"github.com/taurusgroup/frost-ed25519/pkg/frost/party"
	"github.com/taurusgroup/frost-ed25519/pkg/frost/sign"
	"github.com/taurusgroup/frost-ed25519/pkg/messages"
	"github.com/taurusgroup/frost-ed25519/pkg/state"
	"github.com/taurusgroup/frost-ed25519/pkg/verif/lib"
	"github.com/taurusgroup/frost-ed25519/pkg/verif/ref"
	"github.com/taurusgroup/frost-ed25519/pkg/verif/sim"
	"pgregory.net/rapid"
)

// ---- C12 ----

type concCase struct {
	G        sim.Group
	Sign     bool
	Signers  []uint16
	Sessions int    // sessions at once over the same keys
	Msg      []byte // message of session i is Msg plus i
	Timer    int64  // ns, 0 none
	Procs    int    // processing goroutines per party
	Waiters  int
	Pollers  int
	Pointer  bool // broadcasts are handed around as one value
	Share    bool // sessions take the same party list and message slice
	Dups     bool // everything is delivered twice, by different goroutines
	Bad      int  // -1, or the party whose last-round messages are corrupted
	Jitter   uint64
	Net      bool // one network goroutine per message (else one per party)
}

type item struct {
	m  *messages.Message
	to uint16
}

type node struct {
	id   uint16
	st   *state.State
	kg   *keygen.Output
	sg   *sign.Output
	wake chan struct{}
	err  error
	res  string // what waiters read
}

type session struct {
	c     *concCase
	nodes []*node
	msg   []byte
	group []byte
	wg    sync.WaitGroup // everything that delivers and processes
	mu    sync.Mutex
	errs  []error
}

func (s *session) fail(err error) {
	s.mu.Lock()
	s.errs = append(s.errs, err)
	s.mu.Unlock()
}

func jitter(r *rand.Rand) {
	switch r.IntN(6) {
	case 0:
		runtime.Gosched()
	case 1:
		for i := r.IntN(8); i > 0; i-- {
			runtime.Gosched()
		}
	case 2:
		time.Sleep(time.Duration(r.IntN(60)) * time.Microsecond)
	}
}

func (s *session) deliver(m *messages.Message, bad bool, seed uint64) {
	r := rand.New(rand.NewPCG(seed, 1))
	reps := 1
	if s.c.Dups {
		reps = 2
	}
	raw, err := m.MarshalBinary()
	if err != nil {
		s.fail(err)
		return
	}
	order := r.Perm(len(s.nodes))
	for _, x := range order {
		n := s.nodes[x]
		if n.id == uint16(m.From) || (m.To != 0 && uint16(m.To) != n.id) {
			continue
		}
		for k := 0; k < reps; k++ {
			give := m
			if !s.c.Pointer || m.To != 0 || bad {
				give = new(messages.Message)
				b := append([]byte{}, raw...)
				if bad {
					b[len(b)-32] ^= 1
				}
				if err := give.UnmarshalBinary(b); err != nil {
					continue
				}
			}
			do := func(r *rand.Rand) {
				jitter(r)
				if err := n.st.HandleMessage(give); err != nil && !n.st.IsFinished() && reps == 1 && s.c.Timer == 0 {
					s.fail(fmt.Errorf("party %d refuses a genuine message of %d: %v", n.id, m.From, err))
				}
				select {
				case n.wake <- struct{}{}:
				default:
				}
			}
			if s.c.Net || k > 0 {
				s.wg.Add(1)
				rr := rand.New(rand.NewPCG(r.Uint64(), 2))
				go func() { defer s.wg.Done(); do(rr) }()
			} else {
				do(r)
			}
		}
	}
}

func (s *session) process(n *node, seed uint64) {
	defer s.wg.Done()
	r := rand.New(rand.NewPCG(seed, 3))
	for {
		jitter(r)
		for _, m := range n.st.ProcessAll() {
			bad := s.c.Bad >= 0 && s.nodes[s.c.Bad%len(s.nodes)] == n && (m.Type == messages.MessageTypeKeyGen2 || m.Type == messages.MessageTypeSign2)
			s.deliver(m, bad, r.Uint64())
			select {
			case n.wake <- struct{}{}:
			default:
			}
		}
		select {
		case <-n.st.Done():
			return
		case <-n.wake:
		case <-time.After(20 * time.Millisecond):
		}
	}
}

// read is what a waiter does once it has been released.
func (n *node) read() string {
	err := n.st.WaitForError()
	out := fmt.Sprintf("err=%v finished=%v", err != nil, n.st.IsFinished())
	if n.kg != nil {
		if n.kg.Public != nil {
			b, _ := n.kg.Public.MarshalJSON()
			out += string(b)
		}
		if n.kg.SecretKey != nil {
			b, _ := n.kg.SecretKey.MarshalBinary()
			out += fmt.Sprintf(" %x", b)
		}
	}
	if n.sg != nil && n.sg.Signature != nil {
		out += fmt.Sprintf(" %x", n.sg.Signature.ToEd25519())
	}
	return out
}

func checkConc(c *concCase) lib.Result {
	var k *sim.Keys
	var ids party.IDSlice
	if c.Sign {
		k = sim.Deal(c.G.IDs, c.G.T, c.G.Seed)
		ids = sim.IDs(c.Signers)
	} else {
		ids = sim.IDs(c.G.IDs)
	}
	d := time.Duration(c.Timer)
	short := c.Timer > 0 && d < time.Minute
	var all []*session
	var readers sync.WaitGroup
	shared := append(append(make([]byte, 0, len(c.Msg)+8), c.Msg...), 'x')
	for i := 0; i < c.Sessions; i++ {
		s := &session{c: c, msg: append(append([]byte{}, c.Msg...), byte(i))}
		if c.Share {
			s.msg = shared
		}
		if k != nil {
			s.group = ref.EncodeEd(k.Group)
		}
		all = append(all, s)
		for _, id := range ids {
			s.nodes = append(s.nodes, &node{id: uint16(id), wake: make(chan struct{}, 1)})
		}
	}
	// creation happens at the same time, too
	var mk sync.WaitGroup
	for _, s := range all {
		for _, n := range s.nodes {
			mk.Add(1)
			go func() {
				defer mk.Done()
				l := ids
				if !c.Share {
					l = ids.Copy()
				}
				if c.Sign {
					n.st, n.sg, n.err = frost.NewSignState(l, k.Shares[n.id], k.Public, s.msg, d)
				} else {
					n.st, n.kg, n.err = frost.NewKeygenState(party.ID(n.id), l, party.Size(c.G.T), d)
				}
			}()
		}
	}
	mk.Wait()
	for _, s := range all {
		for _, n := range s.nodes {
			if n.err != nil {
				return lib.Fail("valid configuration refused: %v", n.err)
			}
		}
	}
	r := rand.New(rand.NewPCG(c.Jitter, 4))
	stop := make(chan struct{})
	for _, s := range all {
		for _, n := range s.nodes {
			res := make(chan string, c.Waiters)
			for w := 0; w < c.Waiters; w++ {
				readers.Add(1)
				go func() { defer readers.Done(); res <- n.read() }()
			}
			readers.Add(1)
			go func() {
				defer readers.Done()
				n.res = n.read()
				for w := 0; w < c.Waiters; w++ {
					if x := <-res; x != n.res {
						s.fail(fmt.Errorf("party %d: waiters read different results:\n%s\n%s", n.id, x, n.res))
					}
				}
			}()
			for p := 0; p < c.Pollers; p++ {
				readers.Add(1)
				rr := rand.New(rand.NewPCG(r.Uint64(), 5))
				go func() {
					defer readers.Done()
					for {
						fin := n.st.IsFinished()
						err := n.st.Err()
						if err != nil && !n.st.IsFinished() {
							s.fail(fmt.Errorf("party %d: error without being finished", n.id))
						}
						select {
						case <-n.st.Done():
							return
						case <-stop:
							return
						default:
							if fin {
								select {
								case <-n.st.Done():
								case <-time.After(20 * time.Second):
									s.fail(fmt.Errorf("party %d: finished, but Done stays open", n.id))
								}
							}
						}
						jitter(rr)
						time.Sleep(20 * time.Microsecond)
					}
				}()
			}
			for p := 0; p < c.Procs; p++ {
				s.wg.Add(1)
				go s.process(n, r.Uint64())
			}
		}
	}
	if k != nil { // readers of the shared keys
		for i := 0; i < c.Pollers; i++ {
			readers.Add(1)
			go func() {
				defer readers.Done()
				if _, err := k.Public.MarshalJSON(); err != nil {
					all[0].fail(err)
				}
				_ = k.Public.GroupKey.ToEd25519()
				if _, err := k.Shares[k.IDs[0]].MarshalJSON(); err != nil {
					all[0].fail(err)
				}
			}()
		}
	}
	done := make(chan struct{})
	go func() {
		for _, s := range all {
			s.wg.Wait()
		}
		readers.Wait()
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(90 * time.Second):
		close(stop)
		open := ""
		for i, s := range all {
			for _, n := range s.nodes {
				if !n.st.IsFinished() {
					open += fmt.Sprintf(" session %d party %d;", i, n.id)
				}
			}
		}
		return lib.Fail("after 90 s of concurrent delivery and processing these are not finished:%s", open)
	}
	labels := []string{fmt.Sprintf("sign=%v", c.Sign)}
	for _, s := range all {
		for _, e := range s.errs {
			return lib.Result{Err: e}
		}
		var kn []*sim.Node
		for _, n := range s.nodes {
			err := n.st.WaitForError()
			switch {
			case err != nil:
				if n.sg != nil && n.sg.Signature != nil || n.kg != nil && (n.kg.Public != nil || n.kg.SecretKey != nil) {
					return lib.Fail("party %d: aborted (%v) with an output", n.id, err)
				}
				if c.Bad < 0 && !short {
					return lib.Fail("party %d: honest session failed: %v", n.id, err)
				}
				if c.Bad >= 0 && !short {
					if b, _, ok := sim.Blame(err); !ok || b != s.nodes[c.Bad%len(s.nodes)].id {
						return lib.Fail("party %d: the error names %d, not the corrupted sender %d: %v", n.id, b, s.nodes[c.Bad%len(s.nodes)].id, err)
					}
				}
			case n.sg != nil:
				if n.sg.Signature == nil {
					return lib.Fail("party %d: success without signature", n.id)
				}
				if err := sim.CheckSignature(n.sg.Signature, s.group, s.msg); err != nil {
					return lib.Result{Err: err}
				}
				b1, b2 := n.sg.Signature.ToEd25519(), s.nodes[0].sg.Signature
				if b2 != nil && c.Bad < 0 && !bytes.Equal(b1, b2.ToEd25519()) {
					return lib.Fail("signers %d and %d have different signatures", n.id, s.nodes[0].id)
				}
			default:
				if n.kg.Public == nil || n.kg.SecretKey == nil {
					return lib.Fail("party %d: success without output", n.id)
				}
				kn = append(kn, &sim.Node{ID: n.id, St: n.st, KG: n.kg})
			}
		}
		if len(kn) == len(s.nodes) {
			ks, err := sim.KeysFrom(kn)
			if err != nil {
				return lib.Result{Err: err}
			}
			want := map[uint16][]byte{}
			for id, p := range ks.Pub {
				want[id] = ref.Encode(p)
			}
			for _, x := range kn {
				if err := sim.CheckPublic(x.KG.Public, c.G.IDs, c.G.T, ref.EncodeEd(ks.Group), want); err != nil {
					return lib.Fail("party %d: %v", x.ID, err)
				}
			}
		}
	}
	switch {
	case short:
		labels = append(labels, "short-timer")
	case c.Timer > 0:
		labels = append(labels, "timer")
	}
	if c.Bad >= 0 {
		labels = append(labels, "corrupted")
	}
	if c.Pointer {
		labels = append(labels, "one-broadcast-value")
	}
	if c.Sessions > 1 {
		labels = append(labels, "parallel-sessions")
	}
	return lib.Result{NonTrivial: c.Procs+c.Waiters+c.Pollers >= 2, Labels: labels}
}

// A session that is created with a very short timer, while it is being used.
type tinyCase struct {
	Sign  bool
	D     int64
	Calls []int
}

func checkTiny(c *tinyCase) lib.Result {
	ids := []uint16{1, 2}
	k := sim.Deal(ids, 1, 3)
	var st *state.State
	var kg *keygen.Output
	var sg *sign.Output
	var err error
	if c.Sign {
		st, sg, err = frost.NewSignState(sim.IDs(ids), k.Shares[1], k.Public, []byte("m"), time.Duration(c.D))
	} else {
		st, kg, err = frost.NewKeygenState(1, sim.IDs(ids), 1, time.Duration(c.D))
	}
	if err != nil {
		return lib.Fail("valid configuration refused: %v", err)
	}
	var wg sync.WaitGroup
	for _, x := range c.Calls {
		wg.Add(1)
		go func() {
			defer wg.Done()
			switch x % 5 {
			case 0:
				st.ProcessAll()
			case 1:
				st.IsFinished()
			case 2:
				_ = st.Err()
			case 3:
				_ = st.WaitForError()
				if sg != nil && sg.Signature != nil || kg != nil && kg.Public != nil {
					panic("output after a timeout")
				}
			default:
				b := ref.MsgS2(2, ref.Expand(1, "z", 0))
				if !c.Sign {
					b = ref.MsgKG2(2, 1, ref.Expand(1, "z", 0))
				}
				var m messages.Message
				_ = m.UnmarshalBinary(b)
				_ = st.HandleMessage(&m)
			}
		}()
	}
	wg.Wait()
	select {
	case <-st.Done():
	case <-time.After(60 * time.Second):
		return lib.Fail("a session with timeout %v is still unfinished after 60 s", time.Duration(c.D))
	}
	if st.Err() == nil {
		return lib.Fail("finished without messages and without an error")
	}
	return lib.Result{NonTrivial: len(c.Calls) > 0, Labels: []string{fmt.Sprintf("sign=%v", c.Sign)}}
}

func TestC12Tiny(t *testing.T) {
	lib.Run(t, "C12.tiny", 2, func(rt *rapid.T) tinyCase {
		return tinyCase{Sign: rapid.Bool().Draw(rt, "sign"), D: rapid.SampledFrom([]int64{1, 1, 10, 1000, 20000, 200000}).Draw(rt, "d"),
			Calls: rapid.SliceOfN(rapid.IntRange(0, 4), 0, 6).Draw(rt, "calls")}
	}, checkTiny)
}

func TestC12Sessions(t *testing.T) {
	lib.Run(t, "C12.sessions", 1, func(rt *rapid.T) concCase {
		c := concCase{G: sim.GenGroup(rt, 2, 5), Sign: rapid.Bool().Draw(rt, "sign"), Sessions: 1, Msg: sim.GenMsg(rt), Bad: -1}
		if len(c.Msg) > 200 {
			c.Msg = c.Msg[:200]
		}
		c.Signers = sim.GenSubset(rt, c.G.IDs, rapid.IntRange(int(c.G.T)+1, len(c.G.IDs)).Draw(rt, "k"))
		if rapid.IntRange(0, 2).Draw(rt, "par") > 0 {
			c.Sessions = rapid.IntRange(1, 3).Draw(rt, "sessions")
		}
		c.Timer = rapid.SampledFrom([]int64{0, 0, int64(time.Hour), int64(time.Hour), int64(50 * time.Microsecond), int64(2 * time.Millisecond)}).Draw(rt, "timer")
		c.Procs = rapid.IntRange(1, 3).Draw(rt, "procs")
		c.Waiters = rapid.IntRange(0, 2).Draw(rt, "waiters")
		c.Pollers = rapid.IntRange(0, 2).Draw(rt, "pollers")
		c.Pointer = rapid.Bool().Draw(rt, "ptr")
		c.Share = rapid.Bool().Draw(rt, "share")
		c.Dups = rapid.Bool().Draw(rt, "dups")
		c.Net = rapid.Bool().Draw(rt, "net")
		c.Jitter = rapid.Uint64().Draw(rt, "jitter")
		if rapid.IntRange(0, 4).Draw(rt, "isbad") == 0 {
			c.Bad = rapid.IntRange(0, 4).Draw(rt, "bad")
		}
		return c
	}, checkConc)
}
