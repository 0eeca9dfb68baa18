package proto

import (
	"fmt"
	"regexp"
	"runtime/debug"
	"testing"
	"testing/synctest"
	"time"

	"github.com/taurusgroup/frost-ed25519/pkg/messages"
	"github.com/taurusgroup/frost-ed25519/pkg/verif/lib"
	"github.com/taurusgroup/frost-ed25519/pkg/verif/ref"
	"github.com/taurusgroup/frost-ed25519/pkg/verif/sim"
	"pgregory.net/rapid"
)

// One session against a model of its lifecycle, with reference-made peers (C10), and the same
// under a virtual clock (C11).

type lifeOp struct {
	Op    string // msg, junk, process, sleep
	Peer  int
	Round int // 1 or 2
	Bad   bool
	Junk  int
	Ms    int
	Times int // repetitions beyond the first
}

type lifeCase struct {
	G       sim.Group
	Sign    bool
	SelfIdx int
	Msg     []byte
	Ops     []lifeOp
	D       int // timeout in ms, 0 none
}

func genLife(rt *rapid.T, timed bool) lifeCase {
	var c lifeCase
	c.G = sim.GenGroup(rt, 2, 5)
	c.Sign = rapid.Bool().Draw(rt, "sign")
	if c.Sign {
		c.Msg = sim.GenMsg(rt)
	}
	c.SelfIdx = rapid.IntRange(0, len(c.G.IDs)-1).Draw(rt, "self")
	if timed && rapid.IntRange(0, 5).Draw(rt, "d0") > 0 {
		c.D = rapid.SampledFrom([]int{1, 10, 1000, 60000, 1, 10, 1000, 60000, 3600_000, 86400_000 * 40, 86400_000 * 400}).Draw(rt, "d")
	}
	badOK := rapid.IntRange(0, 3).Draw(rt, "badok") == 0
	// a plan that tends to make progress, with detours
	n := rapid.IntRange(1, 30).Draw(rt, "nops")
	if rapid.Bool().Draw(rt, "plan") {
		// everything a successful run needs, in a random order within loose phases
		var plan []lifeOp
		peers := len(c.G.IDs) - 1
		for r := 1; r <= 2; r++ {
			plan = append(plan, lifeOp{Op: "process"})
			perm := rapid.Permutation(seq(peers)).Draw(rt, "order")
			for _, p := range perm {
				plan = append(plan, lifeOp{Op: "msg", Peer: p, Round: r})
			}
		}
		plan = append(plan, lifeOp{Op: "process"})
		swaps := rapid.IntRange(0, 4).Draw(rt, "swaps")
		for i := 0; i < swaps; i++ {
			a, b := rapid.IntRange(0, len(plan)-1).Draw(rt, "a"), rapid.IntRange(0, len(plan)-1).Draw(rt, "b")
			plan[a], plan[b] = plan[b], plan[a]
		}
		for _, o := range plan {
			if timed && rapid.IntRange(0, 2).Draw(rt, "z") == 0 {
				c.Ops = append(c.Ops, genSleep(rt, c.D))
			}
			if rapid.IntRange(0, 5).Draw(rt, "x") == 0 {
				c.Ops = append(c.Ops, genLifeOp(rt, timed, badOK, c.D))
			}
			c.Ops = append(c.Ops, o)
		}
		n = rapid.IntRange(0, 6).Draw(rt, "tail")
	}
	for i := 0; i < n; i++ {
		c.Ops = append(c.Ops, genLifeOp(rt, timed, badOK, c.D))
	}
	return c
}

func genSleep(rt *rapid.T, d int) lifeOp {
	if d == 0 {
		d = 1000
	}
	// just below, just above, fractions
	return lifeOp{Op: "sleep", Ms: rapid.SampledFrom([]int{d * 1000 / 3, d * 1000 / 2, d * 990, d*1000 - 1, d * 1000, d*1000 + 1, d * 1100, d * 3000}).Draw(rt, "us")}
}

func genLifeOp(rt *rapid.T, timed, badOK bool, d int) lifeOp {
	kinds := []string{"msg", "msg", "msg", "junk", "process", "process"}
	if timed {
		kinds = append(kinds, "sleep", "sleep")
	}
	o := lifeOp{Op: rapid.SampledFrom(kinds).Draw(rt, "op")}
	switch o.Op {
	case "msg":
		o.Peer = rapid.IntRange(0, 4).Draw(rt, "peer")
		o.Round = rapid.IntRange(1, 2).Draw(rt, "round")
		o.Bad = badOK && rapid.IntRange(0, 2).Draw(rt, "bad") == 0
	case "junk":
		o.Peer = rapid.IntRange(0, 4).Draw(rt, "peer")
		o.Junk = rapid.IntRange(0, 5).Draw(rt, "junk")
		o.Round = rapid.IntRange(1, 2).Draw(rt, "round")
	case "sleep":
		o = genSleep(rt, d)
	}
	return o
}

type lifeModel struct {
	round    int // 0 before the first processing, then 1, 2
	got      [3]map[uint16]bool
	bad      [3]map[uint16]bool
	done     bool
	ok       bool // finished successfully
	timedOut bool
	deadline time.Time
}

var (
	culpritText = regexp.MustCompile(`culprit (\d+)`)
	roundText   = regexp.MustCompile(`round (\d+)`)
)

// attributed checks that a refusal which names a culprit names the sender, and that one which names a
// round names the one the session is in.
func attributed(err error, round int, from uint16) error {
	if x := culpritText.FindStringSubmatch(err.Error()); x != nil && x[1] != fmt.Sprint(from) {
		return fmt.Errorf("message of party %d refused as one of party %s: %v", from, x[1], err)
	}
	if x := roundText.FindStringSubmatch(err.Error()); x != nil && x[1] != fmt.Sprint(round) {
		return fmt.Errorf("message refused in round %d, named as round %s: %v", round, x[1], err)
	}
	return nil
}

func checkLife(c *lifeCase) lib.Result { return checkLifeWith(c, func() {}) }

// checkLifeWith lets others run, and time pass, before every operation.
func checkLifeWith(c *lifeCase, yield func()) (res lib.Result) {
	ids := c.G.IDs
	self := ids[c.SelfIdx%len(ids)]
	p := &sim.Peers{Self: self, IDs: ids, T: c.G.T, Seed: c.G.Seed, Sign: c.Sign, Msg: c.Msg}
	d := time.Duration(0)
	if c.D > 0 {
		d = time.Duration(c.D)*time.Millisecond + 500 // never tied with a sleep of whole microseconds
	}
	var n *sim.Node
	var err error
	if c.Sign {
		p.Keys = sim.Deal(ids, c.G.T, c.G.Seed)
		n, err = sim.NewSign(ids, p.Keys.Shares[self], p.Keys.Public, c.Msg, d, lib.NewStream(c.G.Seed))
	} else {
		n, err = sim.NewKeygen(self, ids, c.G.T, d, lib.NewStream(c.G.Seed))
	}
	if err != nil {
		return lib.Fail("creating a valid session: %v", err)
	}
	t1, t2 := byte(ref.KG1), byte(ref.KG2)
	if c.Sign {
		t1, t2 = ref.S1, ref.S2
	}
	m := &lifeModel{}
	for r := 1; r <= 2; r++ {
		m.got[r], m.bad[r] = map[uint16]bool{}, map[uint16]bool{}
	}
	others := p.Others()
	m.deadline = time.Now().Add(d)
	ack := func() {
		if d > 0 {
			m.deadline = time.Now().Add(d)
		}
	}
	labels := map[string]bool{}
	elapsed := func() {
		if d > 0 && !m.done && time.Now().After(m.deadline) {
			m.done, m.timedOut = true, true
			labels[fmt.Sprintf("timeout-in-round-%d", m.round)] = true
		}
	}
	doneCh := n.St.Done()
	final := ""
	snapshot := func() string {
		s := ""
		if n.KG != nil && n.KG.Public != nil {
			s += fmt.Sprintf("%p %p ", n.KG.Public, n.KG.SecretKey)
		}
		if n.SG != nil && n.SG.Signature != nil {
			s += fmt.Sprintf("%p ", n.SG.Signature)
		}
		return s + outcome([]*sim.Node{n}) + fmt.Sprint(n.St.Err())
	}
	observe := func(where string) error {
		closed := false
		select {
		case <-doneCh:
			closed = true
		default:
		}
		fin := n.St.IsFinished()
		e := n.St.Err()
		hasOut := (n.KG != nil && (n.KG.Public != nil || n.KG.SecretKey != nil)) || (n.SG != nil && n.SG.Signature != nil)
		fullOut := (n.KG != nil && n.KG.Public != nil && n.KG.SecretKey != nil) || (n.SG != nil && n.SG.Signature != nil)
		if !m.done {
			if fin || closed || e != nil || hasOut {
				return fmt.Errorf("%s: the session should still be open, but finished=%v channel closed=%v err=%v output=%v", where, fin, closed, e, hasOut)
			}
			return nil
		}
		if !fin || !closed {
			return fmt.Errorf("%s: the session should be finished (ok=%v timeout=%v), but finished=%v channel closed=%v", where, m.ok, m.timedOut, fin, closed)
		}
		if m.ok != (e == nil) || m.ok != fullOut || (!m.ok && hasOut) {
			return fmt.Errorf("%s: success should be %v, but err=%v output=%v", where, m.ok, e, hasOut)
		}
		if w := n.St.WaitForError(); (w == nil) != (e == nil) || (w != nil && w.Error() != e.Error()) {
			return fmt.Errorf("%s: WaitForError gives %v, Err %v", where, w, e)
		}
		if m.timedOut {
			id, r, ok := sim.Blame(e)
			if !ok || id != 0 {
				return fmt.Errorf("%s: timeout attributed to party %d: %v", where, id, e)
			}
			if r != m.round {
				return fmt.Errorf("%s: timeout in round %d reported as one in round %d: %v", where, m.round, r, e)
			}
		}
		s := snapshot()
		if final == "" {
			final = s
		} else if s != final {
			return fmt.Errorf("%s: changed after the end:\n%s\n%s", where, final, s)
		}
		return nil
	}
	var attribution error
	deliver := func(b []byte) error {
		var msg messages.Message
		if err := msg.UnmarshalBinary(b); err != nil {
			panic(fmt.Sprintf("a well-formed message does not decode: %v", err))
		}
		err := n.St.HandleMessage(&msg)
		if err != nil && attribution == nil {
			attribution = attributed(err, m.round, uint16(msg.From))
		}
		return err
	}
	if err := observe("after creation"); err != nil {
		return lib.Result{Err: err}
	}
	var ops []lifeOp
	for _, o := range c.Ops {
		for k := 0; k <= o.Times; k++ {
			ops = append(ops, o)
		}
	}
	for i, o := range ops {
		where := fmt.Sprintf("op %d %+v (model round %d)", i, o, m.round)
		yield()
		elapsed()
		switch o.Op {
		case "msg":
			id := others[o.Peer%len(others)]
			b, avail := p.First(id, o.Bad), true
			if o.Round == 2 {
				b, avail = p.Second(id, o.Bad)
			}
			if !avail {
				continue
			}
			dup := m.got[o.Round][id]
			err := deliver(b)
			switch {
			case m.done:
				if err == nil {
					return lib.Fail("%s: message accepted after the end", where)
				}
				labels["after-end"] = true
			case o.Round < m.round:
				labels["late"] = true
			case dup:
				labels["duplicate"] = true
			default:
				if err != nil {
					return lib.Fail("%s: first delivery refused: %v", where, err)
				}
				m.got[o.Round][id] = true
				if o.Bad {
					m.bad[o.Round][id] = true
				}
				ack()
				if m.round < o.Round {
					labels["ahead"] = true
				}
			}
		case "junk": // must have no effect
			id := others[o.Peer%len(others)]
			var b []byte
			switch o.Junk {
			case 0: // not a party
				out := uint16(1)
				for contains(ids, out) {
					out++
				}
				b = wellFormed(byteOr(o.Round == 1, t1, t2), out, self, int(c.G.T), c.G.Seed, 0)
			case 1: // other protocol
				x := byte(ref.S1)
				if c.Sign {
					x = ref.KG1
				}
				b = wellFormed(x+byte(o.Round-1), id, self, int(c.G.T), c.G.Seed, 0)
			case 2: // own ID
				b = wellFormed(t1, self, self, int(c.G.T), c.G.Seed, 0)
			case 3: // someone else's share
				if c.Sign {
					continue
				}
				to := uint16(1)
				for to == self || to == id {
					to++
				}
				b = wellFormed(ref.KG2, id, to, int(c.G.T), c.G.Seed, 0)
			case 4: // contradicts an accepted one
				if !m.got[o.Round][id] {
					continue
				}
				b = wellFormed(byteOr(o.Round == 1, t1, t2), id, self, int(c.G.T), c.G.Seed+9, 0)
			default: // an earlier round
				if m.round < 2 {
					continue
				}
				b = wellFormed(t1, id, self, int(c.G.T), c.G.Seed+9, 0)
			}
			_ = deliver(b)
			labels["junk"] = true
		case "process":
			out := n.Step()
			var want []string
			switch {
			case m.done:
				labels["after-end"] = true
			case m.round == 0:
				m.round = 1
				want = []string{fmt.Sprintf("%d:%d>0", t1, self)}
			case len(m.got[m.round]) == len(others):
				if len(m.bad[m.round]) > 0 {
					m.done = true
					labels["abort"] = true
				} else if m.round == 1 {
					m.round = 2
					if c.Sign {
						want = []string{fmt.Sprintf("%d:%d>0", t2, self)}
					} else {
						for _, id := range others {
							want = append(want, fmt.Sprintf("%d:%d>%d", t2, self, id))
						}
					}
				} else {
					m.done, m.ok = true, true
					labels["success"] = true
				}
			default:
				labels["process-early"] = true
			}
			have := map[string]int{}
			for _, b := range out {
				pm, ok := ref.Parse(b)
				if !ok {
					return lib.Fail("%s: emitted a malformed message %x", where, b)
				}
				if pm.Type == t1 && pm.From == self && p.SelfC == nil {
					p.SelfC = pm
				}
				have[fmt.Sprintf("%d:%d>%d", pm.Type, pm.From, pm.To)]++
			}
			if len(out) != len(want) {
				return lib.Fail("%s: emitted %v, want %v", where, have, want)
			}
			for _, x := range want {
				if have[x] != 1 {
					return lib.Fail("%s: emitted %v, want %v", where, have, want)
				}
			}
		case "sleep":
			time.Sleep(time.Duration(o.Ms) * time.Microsecond)
			synctest.Wait()
			elapsed()
			labels["slept"] = true
		}
		if err := observe(where); err != nil {
			return lib.Result{Err: err}
		}
		if attribution != nil {
			return lib.Fail("%s: %v", where, attribution)
		}
	}
	if m.ok && c.Sign {
		if err := sim.CheckSignature(n.SG.Signature, ref.EncodeEd(p.Keys.Group), c.Msg); err != nil {
			return lib.Result{Err: err}
		}
	}
	res.Labels = lkeys(labels)
	res.NonTrivial = m.round > 0 && len(labels) > 0
	if c.D > 0 {
		res.NonTrivial = labels["slept"]
	}
	return res
}

func byteOr(c bool, a, b byte) byte {
	if c {
		return a
	}
	return b
}

func contains(ids []uint16, id uint16) bool {
	for _, x := range ids {
		if x == id {
			return true
		}
	}
	return false
}

func TestC10Lifecycle(t *testing.T) {
	lib.Run(t, "C10.life", 1, func(rt *rapid.T) lifeCase { return genLife(rt, false) }, checkLife)
}

// A session that has a timeout and ends before it: what it shows must not change when the time
// has passed.
func TestC10Later(t *testing.T) {
	lib.Run(t, "C10.later", 0.5, func(rt *rapid.T) lifeCase {
		c := genLife(rt, false)
		c.D = rapid.SampledFrom([]int{1, 1000, 60000}).Draw(rt, "d")
		for i := rapid.IntRange(1, 4).Draw(rt, "later"); i > 0; i-- {
			c.Ops = append(c.Ops, genSleep(rt, c.D), genLifeOp(rt, false, false, c.D))
		}
		return c
	}, func(c *lifeCase) lib.Result {
		return bubble(t, func() lib.Result { return checkLife(c) })
	})
}

// bubble runs f under a virtual clock, turning a panic into a violation.
func bubble(t *testing.T, f func() lib.Result) (res lib.Result) {
	synctest.Test(t, func(*testing.T) {
		defer func() {
			if r := recover(); r != nil {
				res = lib.Result{NonTrivial: true, Err: fmt.Errorf("panic: %v\n%s", r, debug.Stack())}
			}
		}()
		res = f()
	})
	return res
}

// After the generated history: waiters are released exactly when the session ends, and an
// unfinished session with a timeout ends by itself.
func TestC11Timeouts(t *testing.T) {
	lib.Run(t, "C11.timeout", 1, func(rt *rapid.T) lifeCase { return genLife(rt, true) }, func(c *lifeCase) lib.Result {
		return bubble(t, func() lib.Result { return checkLife(c) })
	})
}

type waitCase struct {
	G       sim.Group
	Sign    bool
	D       int
	Msgs    int // messages accepted, each Gap after the previous
	Gap     int // percent of the timeout
	Start   bool
	Waiters int
}

func TestC11Waiters(t *testing.T) {
	lib.Run(t, "C11.waiters", 0.5, func(rt *rapid.T) waitCase {
		return waitCase{G: sim.GenGroup(rt, 2, 5), Sign: rapid.Bool().Draw(rt, "sign"), D: rapid.SampledFrom([]int{0, 1, 50, 3000, 86400000}).Draw(rt, "d"),
			Msgs: rapid.IntRange(0, 8).Draw(rt, "msgs"), Gap: rapid.IntRange(1, 99).Draw(rt, "gap"), Start: rapid.Bool().Draw(rt, "start"), Waiters: rapid.IntRange(1, 4).Draw(rt, "w")}
	}, func(c *waitCase) lib.Result {
		return bubble(t, func() lib.Result { return checkWaiters(c) })
	})
}

func checkWaiters(c *waitCase) lib.Result {
	ids := c.G.IDs
	self := ids[int(c.G.Seed)%len(ids)]
	p := &sim.Peers{Self: self, IDs: ids, T: c.G.T, Seed: c.G.Seed, Sign: c.Sign, Msg: []byte("w")}
	d := time.Duration(c.D) * time.Millisecond
	var n *sim.Node
	var err error
	if c.Sign {
		p.Keys = sim.Deal(ids, c.G.T, c.G.Seed)
		n, err = sim.NewSign(ids, p.Keys.Shares[self], p.Keys.Public, p.Msg, d, nil)
	} else {
		n, err = sim.NewKeygen(self, ids, c.G.T, d, nil)
	}
	if err != nil {
		return lib.Fail("creating a valid session: %v", err)
	}
	start := time.Now()
	if c.D == 0 {
		if c.Start {
			n.Step()
		}
		time.Sleep(1000 * time.Hour)
		synctest.Wait()
		if n.St.IsFinished() || n.St.Err() != nil {
			return lib.Fail("a session without a timeout ended by itself: %v", n.St.Err())
		}
		return lib.Result{NonTrivial: true, Labels: []string{"d=0"}}
	}
	type rel struct {
		at  time.Duration
		err error
	}
	ch := make(chan rel, 16)
	for i := 0; i < c.Waiters; i++ {
		go func() {
			err := n.St.WaitForError()
			ch <- rel{time.Since(start), err}
		}()
		go func() {
			<-n.St.Done()
			ch <- rel{time.Since(start), n.St.Err()}
		}()
	}
	if c.Start {
		n.Step()
	}
	others := p.Others()
	last := time.Duration(0)
	acc := 0
	for i := 0; i < c.Msgs && acc < 2*len(others); i++ {
		time.Sleep(d * time.Duration(c.Gap) / 100)
		var b []byte
		if acc < len(others) {
			b = p.First(others[acc], false)
		} else {
			b, _ = p.Second(others[acc-len(others)], true)
		}
		if err := n.Handle(b); err != nil {
			return lib.Fail("message %d at %v refused: %v", i, time.Since(start), err)
		}
		// refused traffic must not count
		_ = n.Handle(b)
		acc++
		last = time.Since(start)
	}
	for i := 0; i < 2*c.Waiters; i++ {
		r := <-ch
		if r.at != last+d {
			return lib.Fail("timeout of %v released a waiter at %v; the last accepted message was at %v", d, r.at, last)
		}
		if id, _, ok := sim.Blame(r.err); !ok || id != 0 {
			return lib.Fail("timeout reported as %v", r.err)
		}
	}
	if n.KG != nil && (n.KG.Public != nil || n.KG.SecretKey != nil) || n.SG != nil && n.SG.Signature != nil {
		return lib.Fail("output after a timeout")
	}
	return lib.Result{NonTrivial: true, Labels: []string{fmt.Sprintf("started=%v", c.Start), fmt.Sprintf("accepted=%d", acc)}}
}
