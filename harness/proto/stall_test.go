package proto

import (
	"fmt"
	"sync"
	"testing"
	"time"

	"github.com/taurusgroup/frost-ed25519/pkg/frost/party"
	"github.com/taurusgroup/frost-ed25519/pkg/messages"
	"github.com/taurusgroup/frost-ed25519/pkg/state"
	"github.com/taurusgroup/frost-ed25519/pkg/verif/lib"
	"github.com/taurusgroup/frost-ed25519/pkg/verif/ref"
	"github.com/taurusgroup/frost-ed25519/pkg/verif/sim"
	"pgregory.net/rapid"
)

// The timeout and a delivery at the same time, on the real clock. A round that is slow to say who
// it is holds a delivery up until the timer has run out; a message that is accepted nevertheless
// gives the session another full timeout. Only what cannot be due to a slow machine is judged:
// instants are taken before a delivery and after the end.

type stallCase struct {
	G      sim.Group
	D      int // timeout in ms
	Wait   int // before the last delivery, in percent of it
	Stall  int // within the last delivery, in percent of it
	In     int // the call that stalls: 0 SelfID, 1 PartyIDs, 2 none (the deliveries are spread instead)
	Msgs   int
	Start  bool
	Future bool
}

type stallRound struct {
	*state.BaseRound
	next bool

	mtx  *sync.Mutex
	hook func(what int)
}

func (r *stallRound) call(what int) {
	r.mtx.Lock()
	h := r.hook
	r.mtx.Unlock()
	if h != nil {
		h(what)
	}
}

func (r *stallRound) SelfID() party.ID        { r.call(0); return r.BaseRound.SelfID() }
func (r *stallRound) PartyIDs() party.IDSlice { r.call(1); return r.BaseRound.PartyIDs() }
func (r *stallRound) AcceptedMessageTypes() []messages.MessageType {
	return []messages.MessageType{messages.MessageTypeNone, messages.MessageTypeSign1, messages.MessageTypeSign2}
}
func (r *stallRound) ProcessMessage(*messages.Message) *state.Error { return nil }
func (r *stallRound) GenerateMessages() ([]*messages.Message, *state.Error) {
	return nil, nil
}
func (r *stallRound) NextRound() state.Round { return r }
func (r *stallRound) Reset()                 {}

func checkStall(c *stallCase) lib.Result {
	ids := ref.Sorted(c.G.IDs)
	self := ids[int(c.G.Seed)%len(ids)]
	base, err := state.NewBaseRound(party.ID(self), sim.IDs(ids))
	if err != nil {
		return lib.Fail("%v", err)
	}
	r := &stallRound{BaseRound: base, mtx: new(sync.Mutex)}
	d := time.Duration(c.D) * time.Millisecond
	stall := d * time.Duration(c.Stall) / 100
	created := time.Now()
	st, err := state.NewBaseState(r, d)
	if err != nil {
		return lib.Fail("%v", err)
	}
	ended := make(chan time.Time, 1)
	go func() {
		<-st.Done()
		ended <- time.Now()
	}()
	if c.Start {
		st.ProcessAll()
	}
	last := created // no message was accepted earlier than this
	accepted := 0
	var e ref.Pt = *ref.B
	for i, from := range ids {
		if from == self || accepted >= c.Msgs {
			continue
		}
		typ := byte(ref.S1)
		if c.Future && i%2 == 0 {
			typ = ref.S2
		}
		raw := ref.MsgS1(from, &e, &e)
		if typ == ref.S2 {
			raw = ref.MsgS2(from, ref.Int([]byte{7}))
		}
		var m messages.Message
		if err := m.UnmarshalBinary(raw); err != nil {
			return lib.Fail("%v", err)
		}
		if accepted == c.Msgs-1 {
			time.Sleep(d * time.Duration(c.Wait) / 100)
			if c.In < 2 {
				var once sync.Once
				r.mtx.Lock()
				r.hook = func(what int) {
					if what == c.In {
						once.Do(func() { time.Sleep(stall) })
					}
				}
				r.mtx.Unlock()
			}
		} else if c.In == 2 {
			time.Sleep(stall / 4)
		}
		at := time.Now()
		err := st.HandleMessage(&m)
		r.mtx.Lock()
		r.hook = nil
		r.mtx.Unlock()
		if err != nil { // it has ended, or ends now
			break
		}
		last = at
		accepted++
	}
	select {
	case end := <-ended:
		if end.Sub(last) < d {
			return lib.Fail("a session with a timeout of %v ended (%v) at most %v after it accepted a message", d, st.Err(), end.Sub(last))
		}
		if end.Sub(created) < d {
			return lib.Fail("a session with a timeout of %v ended %v after its creation", d, end.Sub(created))
		}
	case <-time.After(d + 60*time.Second):
		return lib.Fail("a session with a timeout of %v has not ended a minute later", d)
	}
	if who, _, ok := sim.Blame(st.Err()); !ok || who != 0 {
		return lib.Fail("the timeout is reported as %v", st.Err())
	}
	return lib.Result{NonTrivial: accepted > 0, Labels: []string{fmt.Sprintf("stall-in=%d", c.In), fmt.Sprintf("beyond=%v", c.Wait+c.Stall > 100)}}
}

func TestC11Stall(t *testing.T) {
	lib.Run(t, "C11.stall", 0.06, func(rt *rapid.T) stallCase {
		return stallCase{G: sim.GenGroup(rt, 2, 5), D: rapid.IntRange(3, 25).Draw(rt, "d"),
			Wait: rapid.SampledFrom([]int{0, 40, 60, 80, 90}).Draw(rt, "wait"), Stall: rapid.SampledFrom([]int{0, 30, 50, 70}).Draw(rt, "stall"), In: rapid.IntRange(0, 2).Draw(rt, "in"),
			Msgs: rapid.IntRange(1, 4).Draw(rt, "msgs"), Start: rapid.Bool().Draw(rt, "start"), Future: rapid.Bool().Draw(rt, "future")}
	}, checkStall)
}
