package proto

import (
	"bytes"
	"errors"
	"fmt"
	"testing"
	"testing/synctest"
	"time"

	"github.com/taurusgroup/frost-ed25519/pkg/helpers"
	"github.com/taurusgroup/frost-ed25519/pkg/messages"
	"github.com/taurusgroup/frost-ed25519/pkg/state"
	"github.com/taurusgroup/frost-ed25519/pkg/verif/lib"
	"github.com/taurusgroup/frost-ed25519/pkg/verif/ref"
	"github.com/taurusgroup/frost-ed25519/pkg/verif/sim"
	"pgregory.net/rapid"
)

// The party routine (C29): batches of encoded messages for one session, against a twin session
// with the same entropy that is driven message by message, and against what is known about the
// messages: a malformed one or one from an outsider is an error, a failed session an error at
// every call from then on.

type routItem struct {
	Kind  string // msg, bad, own, other, outsider, proto, share, malformed
	Peer  int
	Round int
	N     int
	Times int
}

type routBatch struct {
	Items []routItem
	Sleep int // microseconds before the batch
}

type routCase struct {
	G       sim.Group
	Sign    bool
	SelfIdx int
	Msg     []byte
	Batches []routBatch
	D       int // timeout in ms, 0 none
}

func genRoutItem(rt *rapid.T, bad bool) routItem {
	kinds := []string{"msg", "msg", "msg", "own", "own", "other", "outsider", "proto", "share", "malformed"}
	if bad {
		kinds = append(kinds, "bad", "bad")
	}
	o := routItem{Kind: rapid.SampledFrom(kinds).Draw(rt, "kind"), Peer: rapid.IntRange(0, 60).Draw(rt, "peer"),
		Round: rapid.IntRange(1, 2).Draw(rt, "round"), N: rapid.IntRange(0, 400).Draw(rt, "n")}
	if rapid.IntRange(0, 15).Draw(rt, "many") == 0 {
		o.Times = rapid.SampledFrom([]int{1, 2, 30, 300}).Draw(rt, "times")
	}
	return o
}

func genRout(rt *rapid.T, timed bool) routCase {
	hi := 6
	if rapid.IntRange(0, 20).Draw(rt, "large") == 0 {
		hi = 60
	}
	c := routCase{G: sim.GenGroup(rt, 2, hi), Sign: rapid.Bool().Draw(rt, "sign")}
	if !c.Sign && c.G.T > 8 {
		c.G.T = 8
	}
	if c.Sign {
		c.Msg = sim.GenMsg(rt)
	}
	c.SelfIdx = rapid.IntRange(0, len(c.G.IDs)-1).Draw(rt, "self")
	if timed {
		c.D = rapid.SampledFrom([]int{1, 10, 1000, 60000, 3600_000}).Draw(rt, "d")
	}
	bad := rapid.IntRange(0, 2).Draw(rt, "badok") == 0
	peers := len(c.G.IDs) - 1
	// everything a run needs, cut into batches in generated places, with insertions
	var plan []routItem
	var cut []bool
	add := func(o routItem, c bool) { plan, cut = append(plan, o), append(cut, c) }
	for r := 1; r <= 2; r++ {
		for i, p := range rapid.Permutation(seq(peers)).Draw(rt, "order") {
			if rapid.IntRange(0, 9).Draw(rt, "ins") == 0 {
				add(genRoutItem(rt, bad), rapid.Bool().Draw(rt, "cut"))
			}
			o := routItem{Kind: "msg", Peer: p, Round: r}
			if bad && rapid.IntRange(0, 3*peers).Draw(rt, "bad") == 0 {
				o.Kind = "bad"
			}
			add(o, i == 0 || rapid.IntRange(0, 5).Draw(rt, "cut") == 0)
		}
	}
	for i := rapid.IntRange(0, 3).Draw(rt, "swaps"); i > 0; i-- {
		a, b := rapid.IntRange(0, len(plan)-1).Draw(rt, "a"), rapid.IntRange(0, len(plan)-1).Draw(rt, "b")
		plan[a], plan[b] = plan[b], plan[a]
	}
	if rapid.IntRange(0, 3).Draw(rt, "head") > 0 {
		c.Batches = append(c.Batches, routBatch{})
	}
	b := routBatch{}
	flush := func() {
		if timed && rapid.IntRange(0, 1).Draw(rt, "z") == 0 {
			b.Sleep = genSleep(rt, c.D).Ms
		}
		c.Batches = append(c.Batches, b)
		b = routBatch{}
	}
	for i, o := range plan {
		if cut[i] && len(b.Items) > 0 {
			flush()
		}
		b.Items = append(b.Items, o)
	}
	flush()
	for i := rapid.IntRange(0, 3).Draw(rt, "tail"); i > 0; i-- {
		if rapid.Bool().Draw(rt, "some") {
			b.Items = append(b.Items, genRoutItem(rt, bad))
		}
		flush()
	}
	return c
}

// item encodes a message; known: 1 must be refused whatever the session's state, 0 unknown.
func (c *routCase) item(p *sim.Peers, o routItem) (b []byte, known int, ok bool) {
	others := p.Others()
	id := others[o.Peer%len(others)]
	t1, t2 := byte(ref.KG1), byte(ref.KG2)
	if c.Sign {
		t1, t2 = ref.S1, ref.S2
	}
	switch o.Kind {
	case "msg", "bad":
		if o.Round == 1 {
			return p.First(id, o.Kind == "bad"), 0, true
		}
		b, ok := p.Second(id, o.Kind == "bad")
		return b, 0, ok
	case "own":
		return wellFormed(t1, p.Self, p.Self, int(c.G.T), c.G.Seed, 0), 0, true
	case "other": // another party's share, which only concerns it
		to := uint16(1)
		for to == p.Self || to == id {
			to++
		}
		return wellFormed(ref.KG2, id, to, int(c.G.T), c.G.Seed, 0), 0, true
	case "outsider":
		out := uint16(1)
		for contains(c.G.IDs, out) {
			out++
		}
		return wellFormed(byteOr(o.Round == 1, t1, t2), out, p.Self, int(c.G.T), c.G.Seed, 0), 1, true
	case "proto":
		x := byte(ref.S1)
		if c.Sign {
			x = ref.KG1
		}
		return wellFormed(x+byte(o.Round-1), id, p.Self, int(c.G.T), c.G.Seed, 0), 1, true
	case "share": // a first message of an ID with other content
		return wellFormed(byteOr(o.Round == 1, t1, t2), id, p.Self, int(c.G.T), c.G.Seed+9, 0), 0, !c.Sign && o.Round == 2 && o.N < 40
	default:
		g := p.First(id, false)
		switch o.N % 6 {
		case 0:
			return nil, 1, true
		case 1:
			return g[:o.N%len(g)], 1, true
		case 2:
			return append(append([]byte{}, g...), make([]byte, 1+o.N)...), 1, true
		case 3:
			b := append([]byte{}, g...)
			b[0] = byte(5 + o.N%250)
			return b, 1, true
		case 4: // a scalar or an element that is not reduced
			b := append([]byte{}, g...)
			for i := 5; i < 37; i++ {
				b[i] = 0xff
			}
			return b, 1, true
		default: // sender 0
			b := append([]byte{}, g...)
			b[1], b[2] = 0, 0
			return b, 1, true
		}
	}
}

func (c *routCase) session() (*sim.Node, *sim.Peers, error) {
	ids := c.G.IDs
	p := &sim.Peers{Self: ids[c.SelfIdx%len(ids)], IDs: ids, T: c.G.T, Seed: c.G.Seed, Sign: c.Sign, Msg: c.Msg}
	d := time.Duration(0)
	if c.D > 0 {
		d = time.Duration(c.D)*time.Millisecond + 500
	}
	if c.Sign {
		p.Keys = sim.Deal(ids, c.G.T, c.G.Seed)
		n, err := sim.NewSign(ids, p.Keys.Shares[p.Self], p.Keys.Public, c.Msg, d, lib.NewStream(c.G.Seed))
		return n, p, err
	}
	n, err := sim.NewKeygen(p.Self, ids, c.G.T, d, lib.NewStream(c.G.Seed))
	return n, p, err
}

func checkRout(c *routCase) (res lib.Result) {
	n, p, err := c.session()
	if err != nil {
		return lib.Fail("creating a valid session: %v", err)
	}
	twin, _, err := c.session()
	if err != nil {
		return lib.Fail("creating a valid session: %v", err)
	}
	labels := map[string]bool{}
	lie := 0 // parties whose messages were made invalid
	call := func(where string, in [][]byte, known bool) (failed string, err error) {
		var want [][]byte
		refused := ""
		for i, b := range in {
			var m messages.Message
			if e := m.UnmarshalBinary(append([]byte{}, b...)); e != nil {
				refused = fmt.Sprintf("message %d of %d does not decode", i, len(in))
				labels["malformed"] = true
				break
			}
			if e := twin.St.HandleMessage(&m); e != nil {
				refused = fmt.Sprintf("message %d of %d is refused: %v", i, len(in), e)
				labels["refused"] = true
				break
			}
		}
		if refused == "" {
			if known {
				return "", fmt.Errorf("%s: a malformed or foreign message was accepted", where)
			}
			want = twin.Step()
		}
		given := make([][]byte, len(in))
		for i, b := range in {
			given[i] = append(make([]byte, 0, len(b)+i%3), b...)
		}
		n.Seed()
		out, e := helpers.PartyRoutine(given, n.St)
		for i := range in {
			if !bytes.Equal(given[i], in[i]) {
				return "", fmt.Errorf("%s: PartyRoutine changed its input message %d", where, i)
			}
			for j := range given[i] {
				given[i][j] ^= 0x5a
			}
		}
		if n.St.IsFinished() != twin.St.IsFinished() {
			return "", fmt.Errorf("%s: session finished=%v, its twin finished=%v", where, n.St.IsFinished(), twin.St.IsFinished())
		}
		own, other := n.St.Err(), twin.St.Err()
		if (own == nil) != (other == nil) {
			return "", fmt.Errorf("%s: session error %v, its twin's %v", where, own, other)
		}
		switch {
		case refused != "":
			if e == nil {
				return "", fmt.Errorf("%s: %s, but PartyRoutine reports no error", where, refused)
			}
			if len(out) > 0 {
				return "", fmt.Errorf("%s: %s, but PartyRoutine returns %d messages", where, refused, len(out))
			}
			return refused, nil
		case other != nil:
			labels["aborted"] = true
			if e == nil {
				return "", fmt.Errorf("%s: the session has failed (%v), but PartyRoutine reports no error", where, own)
			}
			if len(out) > 0 {
				return "", fmt.Errorf("%s: the session has failed, but PartyRoutine returns %d messages", where, len(out))
			}
			// it is the session's error, so that the culprit can be told
			id, _, ok := unwrapBlame(e)
			if wid, _, wok := sim.Blame(own); !ok || !wok || id != wid {
				return "", fmt.Errorf("%s: PartyRoutine reports %v, the session %v", where, e, own)
			}
			return "aborted", nil
		}
		if e != nil {
			return "", fmt.Errorf("%s: PartyRoutine reports %v, though every message was accepted and the session has not failed", where, e)
		}
		if len(out) != len(want) {
			return "", fmt.Errorf("%s: PartyRoutine returns %d messages, the session emits %d", where, len(out), len(want))
		}
		// the order of shares follows no rule
		left := map[string]int{}
		for _, b := range want {
			left[string(b)]++
		}
		for i, b := range out {
			if left[string(b)]--; left[string(b)] < 0 {
				return "", fmt.Errorf("%s: PartyRoutine returns %s as message %d, which the session does not emit", where, lib.Clip(b), i)
			}
			if m, ok := ref.Parse(b); ok && p.SelfC == nil && m.From == p.Self {
				p.SelfC = m
			}
		}
		// appending to one of them leaves the others alone
		var before [][]byte
		for _, b := range out {
			before = append(before, append([]byte{}, b...))
		}
		for _, b := range out {
			_ = append(b, 0xa5, 0x5a)
		}
		for i, b := range out {
			if !bytes.Equal(b, before[i]) {
				return "", fmt.Errorf("%s: appending to one message that PartyRoutine returned changes message %d of %d", where, i, len(out))
			}
		}
		for _, b := range out { // the caller's to reuse
			for j := range b {
				b[j] ^= 0x5a
			}
		}
		if len(want) > 0 {
			labels["emitted"] = true
		}
		return "", nil
	}
	deliveredBad := func(it routItem) {
		if it.Kind == "bad" {
			lie++
		}
	}
	failures := 0
	for i, b := range c.Batches {
		if b.Sleep > 0 && c.D > 0 {
			time.Sleep(time.Duration(b.Sleep) * time.Microsecond)
			synctest.Wait()
			labels["slept"] = true
		}
		var in [][]byte
		known := false
		for _, it := range b.Items {
			e, k, ok := c.item(p, it)
			if !ok {
				continue
			}
			deliveredBad(it)
			for t := 0; t <= it.Times; t++ {
				in = append(in, e)
			}
			known = known || k == 1
		}
		where := fmt.Sprintf("batch %d of %d (%d messages)", i, len(c.Batches), len(in))
		f, err := call(where, in, known)
		if err != nil {
			return lib.Result{Err: err}
		}
		if f != "" && f != "aborted" {
			failures++
			labels["continued"] = labels["continued"] || !n.St.IsFinished()
		}
		if len(in) > 100 {
			labels["long-batch"] = true
		}
	}
	// deliver what is still missing, one message at a time, until the session has ended
	if c.D == 0 {
		for r := 1; r <= 2; r++ {
			if _, err := call("the end", nil, false); err != nil {
				return lib.Result{Err: err}
			}
			for _, id := range p.Others() {
				b := p.First(id, false)
				if r == 2 {
					var ok bool
					if b, ok = p.Second(id, false); !ok {
						continue
					}
				}
				if _, err := call("the end", [][]byte{b}, false); err != nil {
					return lib.Result{Err: err}
				}
			}
		}
		for k := 0; k < 3; k++ {
			if _, err := call("after the end", nil, false); err != nil {
				return lib.Result{Err: err}
			}
		}
		if !n.St.IsFinished() && p.SelfC != nil {
			return lib.Fail("every message was given to PartyRoutine, but the session has not ended")
		}
		if lie == 0 && n.St.Err() != nil && !labels["share"] && !c.lies() {
			return lib.Fail("the session fails, though no message was invalid: %v", n.St.Err())
		}
	}
	if a, b := outcome([]*sim.Node{n}), outcome([]*sim.Node{twin}); a != b {
		return lib.Fail("the session gave %s, its twin %s", a, b)
	}
	if n.St.IsFinished() && n.St.Err() == nil {
		labels["success"] = true
		if c.Sign {
			if err := sim.CheckSignature(n.SG.Signature, ref.EncodeEd(p.Keys.Group), c.Msg); err != nil {
				return lib.Result{Err: err}
			}
			if failures > 0 {
				labels["success-after-refusals"] = true
			}
		}
	}
	res.Labels = lkeys(labels)
	res.NonTrivial = labels["emitted"] && (labels["success"] || labels["aborted"] || failures > 0)
	return res
}

// lies reports whether a message of the case differs from the peers' honest ones.
func (c *routCase) lies() bool {
	for _, b := range c.Batches {
		for _, it := range b.Items {
			if it.Kind == "share" || it.Kind == "bad" {
				return true
			}
		}
	}
	return false
}

func unwrapBlame(e error) (uint16, int, bool) {
	var p *state.Error
	if errors.As(e, &p) {
		return sim.Blame(p)
	}
	var v state.Error
	if errors.As(e, &v) {
		return sim.Blame(v)
	}
	return 0, 0, false
}

func TestC29Routine(t *testing.T) {
	lib.Run(t, "C29.routine", 1, func(rt *rapid.T) routCase { return genRout(rt, false) }, checkRout)
}

func TestC29Timed(t *testing.T) {
	lib.Run(t, "C29.timed", .4, func(rt *rapid.T) routCase { return genRout(rt, true) }, func(c *routCase) lib.Result {
		return bubble(t, func() lib.Result { return checkRout(c) })
	})
}
