// Package engine checks the session engine with rounds of its own, apart from the two protocols.
package engine

import (
	"errors"
	"fmt"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	"github.com/taurusgroup/frost-ed25519/pkg/frost/party"
	"github.com/taurusgroup/frost-ed25519/pkg/messages"
	"github.com/taurusgroup/frost-ed25519/pkg/ristretto"
	"github.com/taurusgroup/frost-ed25519/pkg/state"
	"github.com/taurusgroup/frost-ed25519/pkg/verif/lib"
	"github.com/taurusgroup/frost-ed25519/pkg/verif/ref"
	"github.com/taurusgroup/frost-ed25519/pkg/verif/sim"
	"pgregory.net/rapid"
)

// script is a protocol whose rounds write down what is asked of them.
type script struct {
	types   []messages.MessageType
	out     [][]*messages.Message // what each round gives, a copy
	fault   fault
	yield   bool
	running int32

	mtx   sync.Mutex
	calls []call
}

type call struct {
	what  string // process, generate, next, reset
	round int
	msg   *messages.Message
	from  party.ID
	text  string // the message's encoding when it was handed over
	fails bool   // it returns an error
}

type fault struct {
	Where   int // 0 none, 1 in ProcessMessage, 2 in GenerateMessages
	Round   int
	From    int // index among the others, for ProcessMessage
	Culprit uint16
}

var errScript = errors.New("the script says no")

func (s *script) enter(c call) {
	if atomic.AddInt32(&s.running, 1) != 1 {
		c.what += " during another call"
	}
	if c.msg != nil {
		c.from, c.text = c.msg.From, text(c.msg)
	}
	s.mtx.Lock()
	s.calls = append(s.calls, c)
	s.mtx.Unlock()
	if s.yield {
		runtime.Gosched()
	}
	atomic.AddInt32(&s.running, -1)
}

func (s *script) log() []call {
	s.mtx.Lock()
	defer s.mtx.Unlock()
	return append([]call{}, s.calls...)
}

func text(m *messages.Message) string {
	b, err := m.MarshalBinary()
	return fmt.Sprintf("%x %v", b, err)
}

type round struct {
	*state.BaseRound
	s      *script
	i      int
	others []party.ID
}

func (r *round) AcceptedMessageTypes() []messages.MessageType { return r.s.types }

func (r *round) ProcessMessage(m *messages.Message) *state.Error {
	f := r.s.fault
	fails := f.Where == 1 && f.Round == r.i && m != nil && m.From == r.others[f.From%len(r.others)]
	r.s.enter(call{what: "process", round: r.i, msg: m, fails: fails})
	if fails {
		return state.NewError(party.ID(f.Culprit), errScript)
	}
	return nil
}

func (r *round) GenerateMessages() ([]*messages.Message, *state.Error) {
	r.s.enter(call{what: "generate", round: r.i})
	if f := r.s.fault; f.Where == 2 && f.Round == r.i {
		return nil, state.NewError(party.ID(f.Culprit), errScript)
	}
	return append([]*messages.Message{}, r.s.out[r.i]...), nil
}

func (r *round) NextRound() state.Round {
	r.s.enter(call{what: "next", round: r.i})
	if r.i+1 == len(r.s.types) {
		return nil
	}
	return &round{r.BaseRound, r.s, r.i + 1, r.others}
}

func (r *round) Reset() { r.s.enter(call{what: "reset", round: r.i}) }

// ---- histories against a model ----

type op struct {
	Op   string // message, process, sleep
	Peer int    // index among the others; beyond them an outsider or the party itself
	Type int    // index among the types after the first; beyond them another type
	To   int    // 0 as the type wants it, 1 someone else
	Body int
	Ms   int // sleep, in percent of the timeout
}

type engCase struct {
	IDs   []uint16
	Self  int
	Types int // bits: which message types the protocol uses
	Out   []int
	Fault fault
	D     int // timeout in ms
	Ops   []op
}

func message(typ messages.MessageType, from, to uint16, body int) *messages.Message {
	k := sim.Scalar(ref.Expand(uint64(body), "engine body", 0))
	var e ristretto.Element
	e.ScalarBaseMult(k)
	switch typ {
	case messages.MessageTypeKeyGen2:
		return messages.NewKeyGen2(party.ID(from), party.ID(to), k)
	case messages.MessageTypeSign1:
		return messages.NewSign1(party.ID(from), &e, &e)
	case messages.MessageTypeSign2:
		return messages.NewSign2(party.ID(from), k)
	}
	// the engine does not look into messages
	m := messages.NewSign2(party.ID(from), k)
	m.Type = typ
	if typ == messages.MessageTypeKeyGen1 {
		raw := ref.MsgKG1(from, ref.Expand(uint64(body), "s", 0), ref.Expand(uint64(body), "r", 0), []*ref.Pt{ref.B, ref.BaseMul(ref.Expand(uint64(body), "c", 0))})
		m = new(messages.Message)
		if err := m.UnmarshalBinary(raw); err != nil {
			panic(err)
		}
	}
	return m
}

func types(bits int) []messages.MessageType {
	out := []messages.MessageType{messages.MessageTypeNone}
	for i := 0; i < 4; i++ {
		if bits>>uint(i)&1 == 1 {
			out = append(out, messages.MessageType(i+1))
		}
	}
	return out
}

func (c *engCase) session() (*script, *state.State, []party.ID, error) {
	s := &script{types: types(c.Types), fault: c.Fault}
	ids := ref.Sorted(c.IDs)
	self := party.ID(ids[c.Self%len(ids)])
	var others []party.ID
	for _, id := range ids {
		if party.ID(id) != self {
			others = append(others, party.ID(id))
		}
	}
	for i := range s.types {
		n := 0
		if len(c.Out) > 0 {
			n = c.Out[i%len(c.Out)]
		}
		var ms []*messages.Message
		for j := 0; j < n; j++ {
			ms = append(ms, message(messages.MessageType(1+(i+j)%4), uint16(self), uint16(1+j), 100*i+j))
		}
		s.out = append(s.out, ms)
	}
	base, err := state.NewBaseRound(self, sim.IDs(ids))
	if err != nil {
		return nil, nil, nil, err
	}
	st, err := state.NewBaseState(&round{base, s, 0, others}, time.Duration(c.D)*time.Millisecond)
	return s, st, others, err
}

// engine is the model: what the contract of a round says about a history.
type engine struct {
	c      *engCase
	s      *script
	others map[party.ID]bool
	self   party.ID
	round  int
	got    []map[party.ID]string // per round: the messages accepted for it
	done   bool
	failed bool
	culprit,
	errRound int
	byRound bool // a round failed
	last    time.Time
}

// expect compares the calls since the last look with what the step has to ask for.
func (e *engine) expect(old int, steps ...string) error {
	calls := e.s.log()[old:]
	i := 0
	seen := map[party.ID]bool{}
	for _, st := range steps {
		switch st {
		case "messages": // each message of this round once, in any order; up to the fault's
			for i < len(calls) && calls[i].what == "process" {
				k := calls[i]
				i++
				if k.round != e.round {
					return fmt.Errorf("a message was given to round %d in round %d", k.round, e.round)
				}
				if e.round == 0 {
					if k.msg != nil {
						return fmt.Errorf("the first round was given a message: %s", k.text)
					}
					continue // the first round has none; what a base round ignores is not settled
				}
				if k.msg == nil {
					return fmt.Errorf("round %d was given no message", e.round)
				}
				if want, ok := e.got[e.round][k.from]; !ok || want != k.text {
					return fmt.Errorf("round %d was given %s from %d, accepted was %q", e.round, k.text, k.from, want)
				}
				if seen[k.from] {
					return fmt.Errorf("round %d was given the message of %d twice", e.round, k.from)
				}
				seen[k.from] = true
				if k.fails {
					break
				}
			}
		case "all":
			if e.round > 0 && len(seen) != len(e.others) {
				return fmt.Errorf("round %d was given the messages of %d of %d others", e.round, len(seen), len(e.others))
			}
		default:
			if i == len(calls) || calls[i].what != st || calls[i].round != e.round {
				return fmt.Errorf("round %d: %q expected, then came %v", e.round, st, show(calls))
			}
			i++
		}
	}
	if i != len(calls) {
		return fmt.Errorf("round %d: asked for more than %v: %v", e.round, steps, show(calls))
	}
	return nil
}

func show(calls []call) []string {
	var out []string
	for _, c := range calls {
		out = append(out, fmt.Sprintf("%s in round %d (from %d)", c.what, c.round, c.from))
	}
	return out
}

func (e *engine) outcome(st *state.State) error {
	err := st.Err()
	if st.IsFinished() != e.done {
		return fmt.Errorf("IsFinished is %v, expected %v (error %v)", !e.done, e.done, err)
	}
	select {
	case <-st.Done():
		if !e.done {
			return fmt.Errorf("Done before the end")
		}
		if w := st.WaitForError(); w != err {
			return fmt.Errorf("WaitForError gives %v, Err %v", w, err)
		}
	default:
		if e.done {
			return fmt.Errorf("not Done after the end")
		}
	}
	if (err != nil) != e.failed {
		return fmt.Errorf("Err is %v, failed: %v", err, e.failed)
	}
	if err == nil {
		return nil
	}
	se, ok := err.(*state.Error)
	if !ok {
		return fmt.Errorf("the error is a %T", err)
	}
	if int(se.PartyID) != e.culprit || se.RoundNumber != e.errRound {
		return fmt.Errorf("error %q names party %d in round %d, it was %d in round %d", err, se.PartyID, se.RoundNumber, e.culprit, e.errRound)
	}
	if e.culprit == int(e.c.Fault.Culprit) && e.byRound && !strings.Contains(err.Error(), errScript.Error()) {
		return fmt.Errorf("the round's error was %q, the session's is %q", errScript, err)
	}
	return nil
}

func (e *engine) end(failed bool, culprit int) {
	e.done, e.failed, e.culprit, e.errRound = true, failed, culprit, e.round
}

func check(c *engCase) lib.Result {
	s, st, others, err := c.session()
	if err != nil {
		return lib.Fail("creating a session: %v", err)
	}
	e := &engine{c: c, s: s, others: map[party.ID]bool{}, last: time.Now()}
	ids := ref.Sorted(c.IDs)
	e.self = party.ID(ids[c.Self%len(ids)])
	for _, id := range others {
		e.others[id] = true
	}
	for range s.types {
		e.got = append(e.got, map[party.ID]string{})
	}
	d := time.Duration(c.D) * time.Millisecond
	resets := func() int {
		n := 0
		for _, k := range s.log() {
			if k.what == "reset" {
				n++
			}
		}
		return n
	}
	accepted := 0
	for i, o := range c.Ops {
		old := len(s.log())
		at := func(err error) lib.Result { return lib.Fail("operation %d (%+v): %v", i, o, err) }
		switch o.Op {
		case "sleep":
			if c.D == 0 {
				time.Sleep(time.Duration(o.Ms) * time.Hour)
			} else {
				time.Sleep(d * time.Duration(o.Ms) / 100)
			}
			synctest.Wait()
			if c.D > 0 && !e.done && !time.Now().Before(e.last.Add(d)) {
				e.end(true, 0)
				if err := e.expect(old, "reset"); err != nil {
					return at(fmt.Errorf("timeout: %v", err))
				}
			} else if err := e.expect(old); err != nil {
				return at(err)
			}
		case "process":
			out := st.ProcessAll()
			var want []*messages.Message
			steps := []string{}
			switch {
			case e.done:
			case e.round > 0 && len(e.got[e.round]) < len(others):
			case c.Fault.Where == 1 && c.Fault.Round == e.round && e.round > 0 && len(others) > 0:
				steps = []string{"messages", "reset"}
			case c.Fault.Where == 2 && c.Fault.Round == e.round:
				steps = []string{"messages", "all", "generate", "reset"}
			case e.round == len(s.types)-1:
				steps = []string{"messages", "all", "generate", "next", "reset"}
				want = s.out[e.round]
			default:
				steps = []string{"messages", "all", "generate", "next"}
				want = s.out[e.round]
			}
			if err := e.expect(old, steps...); err != nil {
				return at(err)
			}
			if len(out) != len(want) {
				return at(fmt.Errorf("ProcessAll gives %d messages, the round gave %d", len(out), len(want)))
			}
			for j := range out {
				if text(out[j]) != text(want[j]) {
					return at(fmt.Errorf("message %d of the round is %s, ProcessAll gives %s", j, text(want[j]), text(out[j])))
				}
			}
			if len(steps) > 0 {
				switch {
				case steps[1] == "reset" || len(steps) == 4 && steps[3] == "reset":
					e.end(true, int(c.Fault.Culprit))
					e.byRound = true
				case steps[len(steps)-1] == "reset":
					e.end(false, 0)
				default:
					e.round++
				}
			}
		case "message":
			from := uint16(e.self)
			switch {
			case o.Peer < len(others):
				from = uint16(others[o.Peer])
			case o.Peer == len(others):
				from = outsider(ids, o.Body)
			}
			typ := messages.MessageType(1 + o.Type%4)
			if o.Type < len(s.types)-1 {
				typ = s.types[1+o.Type]
			}
			to := uint16(0)
			if typ == messages.MessageTypeKeyGen2 {
				to = uint16(e.self)
			}
			if o.To == 1 {
				to = uint16(e.self) ^ 1
			}
			m := message(typ, from, to, o.Body)
			m.To = party.ID(to)
			before := text(m)
			err := st.HandleMessage(m)
			if text(m) != before {
				return at(fmt.Errorf("handling a message changed it"))
			}
			if err2 := e.expect(old); err2 != nil {
				return at(fmt.Errorf("a delivery: %v", err2))
			}
			// where the message belongs, if anywhere
			r := 0
			for j, t := range s.types {
				if t == typ && j >= 1 {
					r = j
				}
			}
			mine := party.ID(from) == e.self || to != 0 && party.ID(to) != e.self
			last := e.round >= len(s.types)
			switch {
			case e.done || last:
				if err == nil && !mine {
					return at(fmt.Errorf("a message was accepted after the end"))
				}
			case mine:
				if err != nil {
					return at(fmt.Errorf("a message for someone else, or the party's own, is refused: %v", err))
				}
			case !e.others[party.ID(from)] || r == 0 || r < e.round || e.got[r][party.ID(from)] != "":
				if err == nil {
					return at(fmt.Errorf("a message of type %d from %d was accepted in round %d (types %v, known %v)", typ, from, e.round, s.types, e.got[r]))
				}
			default:
				if err != nil {
					return at(fmt.Errorf("a message of type %d from %d was refused in round %d: %v", typ, from, e.round, err))
				}
				e.got[r][party.ID(from)] = before
				e.last = time.Now()
				accepted++
			}
		}
		if err := e.outcome(st); err != nil {
			return at(err)
		}
		if n := resets(); n != 0 && !e.done || n != 1 && e.done {
			return at(fmt.Errorf("Reset was called %d times, the session has ended: %v", n, e.done))
		}
	}
	end := "open"
	switch {
	case e.failed && !e.byRound:
		end = "timeout"
	case e.failed:
		end = "error"
	case e.done:
		end = "finished"
	}
	// what comes after does not disturb a finished session, nor leave a timer behind
	if c.D > 0 && !e.done {
		old := len(s.log())
		time.Sleep(time.Until(e.last.Add(d)))
		synctest.Wait()
		e.end(true, 0)
		if err := e.expect(old, "reset"); err != nil {
			return lib.Fail("timeout at the end: %v", err)
		}
		if err := e.outcome(st); err != nil {
			return lib.Fail("timeout at the end: %v", err)
		}
	} else if c.D > 0 {
		old := len(s.log())
		time.Sleep(3 * d)
		synctest.Wait()
		if err := e.expect(old); err != nil {
			return lib.Fail("after the end: %v", err)
		}
		if err := e.outcome(st); err != nil {
			return lib.Fail("after the end: %v", err)
		}
	}
	return lib.Result{NonTrivial: accepted > 0 && e.round > 0 || len(others) == 0 && e.round > 0, Labels: []string{"end=" + end, fmt.Sprintf("rounds=%d", len(s.types)), fmt.Sprintf("parties=%d", len(ids))}}
}

func outsider(ids []uint16, k int) uint16 {
	in := map[uint16]bool{}
	for _, id := range ids {
		in[id] = true
	}
	for id := uint16(k * 257); ; id++ {
		if id != 0 && !in[id] {
			return id
		}
	}
}

func gen(rt *rapid.T) engCase {
	n := rapid.IntRange(1, 6).Draw(rt, "n")
	c := engCase{IDs: sim.GenIDs(rt, n), Self: rapid.IntRange(0, n-1).Draw(rt, "self"), Types: rapid.IntRange(0, 15).Draw(rt, "types"),
		Out: rapid.SliceOfN(rapid.IntRange(0, 4), 0, 5).Draw(rt, "out")}
	rounds := len(types(c.Types))
	if rapid.IntRange(0, 2).Draw(rt, "faulty") == 0 {
		c.Fault = fault{rapid.IntRange(1, 2).Draw(rt, "where"), rapid.IntRange(0, rounds-1).Draw(rt, "fr"), rapid.IntRange(0, 5).Draw(rt, "ff"), rapid.Uint16().Draw(rt, "culprit")}
	}
	if rapid.Bool().Draw(rt, "timed") {
		c.D = rapid.SampledFrom([]int{1, 50, 60000}).Draw(rt, "d")
	}
	any := func() op {
		switch rapid.IntRange(0, 7).Draw(rt, "op") {
		case 0, 1:
			return op{Op: "process"}
		case 2:
			ms := rapid.SampledFrom([]int{0, 1, 50, 99, 100, 101, 300}).Draw(rt, "ms")
			if rapid.Bool().Draw(rt, "short") && ms > 50 {
				ms = 20
			}
			return op{Op: "sleep", Ms: ms}
		}
		return op{Op: "message", Peer: rapid.IntRange(0, n).Draw(rt, "peer"), Type: rapid.IntRange(0, 4).Draw(rt, "type"), To: rapid.IntRange(0, 7).Draw(rt, "to") / 7, Body: rapid.IntRange(0, 3).Draw(rt, "body")}
	}
	if rapid.IntRange(0, 3).Draw(rt, "plan") > 0 {
		// what a full run needs, message by message, some of it early, with detours
		type item struct {
			key int
			o   op
		}
		var plan []item
		for r := 0; r < rounds; r++ {
			if r > 0 {
				for p := 0; p < n-1; p++ {
					early := rapid.SampledFrom([]int{0, 0, 0, 1, 1, 2, 4}).Draw(rt, "early")
					plan = append(plan, item{100*(r-early) + rapid.IntRange(0, 80).Draw(rt, "k"), op{Op: "message", Peer: p, Type: r - 1, Body: rapid.IntRange(0, 99).Draw(rt, "body")}})
				}
			}
			plan = append(plan, item{100*r + 90, op{Op: "process"}})
		}
		sort.SliceStable(plan, func(i, j int) bool { return plan[i].key < plan[j].key })
		detours := rapid.IntRange(0, 6).Draw(rt, "detours")
		for _, it := range plan {
			if detours > 0 && rapid.IntRange(0, 2).Draw(rt, "detour") == 0 {
				c.Ops = append(c.Ops, any())
				detours--
			}
			c.Ops = append(c.Ops, it.o)
		}
	} else {
		for k := rapid.IntRange(1, 25).Draw(rt, "nops"); k > 0; k-- {
			c.Ops = append(c.Ops, any())
		}
	}
	c.Ops = append(c.Ops, op{Op: "process"})
	for k := rapid.IntRange(0, 4).Draw(rt, "after"); k > 0; k-- {
		c.Ops = append(c.Ops, any())
	}
	return c
}

// bubble runs f under a virtual clock, turning a panic into a violation.
func bubble(t *testing.T, f func() lib.Result) (res lib.Result) {
	synctest.Test(t, func(*testing.T) {
		defer func() {
			if r := recover(); r != nil {
				res = lib.Result{NonTrivial: true, Err: fmt.Errorf("panic: %v\n%s", r, debug.Stack())}
			}
		}()
		res = f()
	})
	return res
}

func TestC30Rounds(t *testing.T) {
	lib.Run(t, "C30.rounds", 1, gen, func(c *engCase) lib.Result {
		return bubble(t, func() lib.Result { return check(c) })
	})
}

// ---- several goroutines ----

type parCase struct {
	IDs     []uint16
	Self    int
	Types   int
	Deliver int // goroutines that deliver, each everything in its own order
	Process int // goroutines that process
	Fault   fault
	Seed    uint64
}

func checkPar(c *parCase) lib.Result {
	e := engCase{IDs: c.IDs, Self: c.Self, Types: c.Types, Fault: c.Fault, Out: []int{1, 2}}
	s, st, others, err := e.session()
	if err != nil {
		return lib.Fail("creating a session: %v", err)
	}
	s.yield = true
	ids := ref.Sorted(c.IDs)
	self := ids[c.Self%len(ids)]
	var all []*messages.Message
	for r := 1; r < len(s.types); r++ {
		for i, id := range others {
			to := uint16(0)
			if s.types[r] == messages.MessageTypeKeyGen2 {
				to = self
			}
			all = append(all, message(s.types[r], uint16(id), to, 10*r+i))
		}
	}
	var wg sync.WaitGroup
	accepted := make([]int32, len(all))
	var emitted int32
	deadline := time.Now().Add(60 * time.Second)
	for g := 0; g < c.Deliver; g++ {
		g := g
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := range all {
				i := int((uint64(k)*2654435761 + c.Seed*uint64(g+1)) % uint64(len(all)))
				if g == 0 {
					i = k // so that all are delivered
				}
				if st.HandleMessage(all[i]) == nil {
					atomic.AddInt32(&accepted[i], 1)
				}
				if (c.Seed>>uint(k%32))&1 == 1 {
					runtime.Gosched()
				}
			}
		}()
	}
	for g := 0; g < c.Process; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for !st.IsFinished() && time.Now().Before(deadline) {
				atomic.AddInt32(&emitted, int32(len(st.ProcessAll())))
				runtime.Gosched()
			}
		}()
	}
	wg.Wait()
	if !st.IsFinished() {
		return lib.Fail("all messages were delivered, and the session does not end")
	}
	serr := st.WaitForError()
	calls := s.log()
	faulty := c.Fault.Where == 2 || c.Fault.Where == 1 && c.Fault.Round > 0 && len(others) > 0
	if (serr != nil) != faulty {
		return lib.Fail("the session ended with %v, a round failed: %v", serr, faulty)
	}
	// the calls in order
	i, r := 0, 0
	out := 0
	for ; r < len(s.types); r++ {
		seen := map[string]bool{}
		for i < len(calls) && calls[i].what == "process" {
			if calls[i].round != r {
				return lib.Fail("a message was given to round %d in round %d", calls[i].round, r)
			}
			if r > 0 {
				if calls[i].msg == nil || calls[i].msg.Type != s.types[r] {
					return lib.Fail("round %d was given another round's message", r)
				}
				if seen[calls[i].text] {
					return lib.Fail("round %d was given a message twice", r)
				}
				seen[calls[i].text] = true
			}
			i++
			if calls[i-1].fails {
				break
			}
		}
		if c.Fault.Where == 1 && c.Fault.Round == r && faulty {
			break
		}
		if r > 0 && len(seen) != len(others) {
			return lib.Fail("round %d was given %d messages of %d others", r, len(seen), len(others))
		}
		if i == len(calls) || calls[i].what != "generate" || calls[i].round != r {
			return lib.Fail("round %d: generate expected: %v", r, show(calls[i:]))
		}
		i++
		if c.Fault.Where == 2 && c.Fault.Round == r {
			break
		}
		out += len(s.out[r])
		if i == len(calls) || calls[i].what != "next" || calls[i].round != r {
			return lib.Fail("round %d: next expected: %v", r, show(calls[i:]))
		}
		i++
	}
	if len(calls) != i+1 || calls[i].what != "reset" {
		return lib.Fail("at the end one reset expected: %v", show(calls[i:]))
	}
	if int(emitted) != out {
		return lib.Fail("%d messages came out, the rounds gave %d", emitted, out)
	}
	for i, n := range accepted {
		if n > 1 || n == 0 && !faulty {
			return lib.Fail("message %d of round type %d was accepted %d times", i, all[i].Type, n)
		}
	}
	return lib.Result{NonTrivial: len(all) > 1, Labels: []string{fmt.Sprintf("goroutines=%d", c.Deliver+c.Process), fmt.Sprintf("failed=%v", faulty)}}
}

func TestC30Parallel(t *testing.T) {
	lib.Run(t, "C30.parallel", 0.25, func(rt *rapid.T) parCase {
		n := rapid.IntRange(2, 6).Draw(rt, "n")
		c := parCase{IDs: sim.GenIDs(rt, n), Self: rapid.IntRange(0, n-1).Draw(rt, "self"), Types: rapid.IntRange(1, 15).Draw(rt, "types"),
			Deliver: rapid.IntRange(1, 4).Draw(rt, "deliver"), Process: rapid.IntRange(1, 4).Draw(rt, "process"), Seed: rapid.Uint64().Draw(rt, "seed")}
		if rapid.IntRange(0, 3).Draw(rt, "faulty") == 0 {
			c.Fault = fault{rapid.IntRange(1, 2).Draw(rt, "where"), rapid.IntRange(0, len(types(c.Types))-1).Draw(rt, "fr"), rapid.IntRange(0, 5).Draw(rt, "ff"), rapid.Uint16().Draw(rt, "culprit")}
		}
		return c
	}, checkPar)
}
