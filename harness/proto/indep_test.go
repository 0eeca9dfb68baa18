package proto

import (
	"bytes"
	"fmt"
	"math/big"
	"runtime"
	"runtime/debug"
	"testing"

	"github.com/taurusgroup/frost-ed25519/pkg/eddsa"
	"github.com/taurusgroup/frost-ed25519/pkg/frost"
	"github.com/taurusgroup/frost-ed25519/pkg/frost/party"
	"github.com/taurusgroup/frost-ed25519/pkg/ristretto"
	"github.com/taurusgroup/frost-ed25519/pkg/verif/lib"
	"github.com/taurusgroup/frost-ed25519/pkg/verif/ref"
	"github.com/taurusgroup/frost-ed25519/pkg/verif/sim"
	"pgregory.net/rapid"
)

// ---- C27 ----

type indepJob struct {
	Kind  string // keygen, sign, bad (a message is corrupted), left (never driven to the end)
	Group int
	Size  int   // signers beyond the threshold, modulo what there is; -1 means a key generation
	Pick  []int // which signers
	Msg   []byte
	Seed  uint64
	Stop  int  // left: steps taken
	Eager bool // messages are delivered as soon as they exist, so a round ahead for some
}

type indepCase struct {
	Groups []sim.Group
	Jobs   []indepJob
	Order  []int
}

func genIndep(rt *rapid.T) indepCase {
	var c indepCase
	// groups over few IDs, so that they overlap or are the same
	pool := sim.GenIDs(rt, rapid.IntRange(3, 6).Draw(rt, "pool"))
	ng := rapid.IntRange(1, 3).Draw(rt, "groups")
	for i := 0; i < ng; i++ {
		g := sim.Group{IDs: pool, Seed: uint64(rapid.Uint32().Draw(rt, "gseed"))}
		if i > 0 && rapid.Bool().Draw(rt, "part") {
			g.IDs = sim.GenSubset(rt, pool, rapid.IntRange(2, len(pool)).Draw(rt, "gn"))
		}
		g.T = uint16(rapid.IntRange(1, len(g.IDs)-1).Draw(rt, "t"))
		if rapid.Bool().Draw(rt, "t1") {
			g.T = 1
		}
		c.Groups = append(c.Groups, g)
	}
	msgs := [][]byte{sim.GenMsg(rt), sim.GenMsg(rt)}
	nj := rapid.IntRange(2, 7).Draw(rt, "jobs")
	for i := 0; i < nj; i++ {
		c.Jobs = append(c.Jobs, indepJob{
			Kind:  rapid.SampledFrom([]string{"sign", "sign", "sign", "sign", "keygen", "bad", "left"}).Draw(rt, "kind"),
			Group: rapid.IntRange(0, ng-1).Draw(rt, "g"), Size: rapid.IntRange(-1, 4).Draw(rt, "size"),
			Pick: rapid.SliceOfN(rapid.IntRange(0, 20), 1, 5).Draw(rt, "pick"), Msg: msgs[rapid.IntRange(0, 1).Draw(rt, "m")],
			Seed: uint64(rapid.Uint32().Draw(rt, "jseed")), Stop: rapid.IntRange(0, 8).Draw(rt, "stop"), Eager: rapid.Bool().Draw(rt, "eager")})
	}
	c.Order = rapid.SliceOfN(rapid.IntRange(0, 40), 0, 60).Draw(rt, "order")
	return c
}

// indepRun is one session at all its parties, advanced one party at a time in lock step.
type indepRun struct {
	job     *indepJob
	g       *sim.Group
	key     *sim.Keys // what it signs with
	signers []uint16
	nodes   []*sim.Node
	in, out [][]byte
	round   int
	next    int
	steps   int
	over    bool
}

func (r *indepRun) keygen() bool {
	return r.job.Kind == "keygen" || (r.job.Kind != "sign" && r.job.Size < 0)
}

func checkIndep(c *indepCase) lib.Result {
	keys := make([]*sim.Keys, len(c.Groups))
	for i := range c.Groups {
		keys[i] = sim.Deal(c.Groups[i].IDs, c.Groups[i].T, c.Groups[i].Seed)
	}
	var runs []*indepRun
	for i := range c.Jobs {
		runs = append(runs, &indepRun{job: &c.Jobs[i], g: &c.Groups[c.Jobs[i].Group]})
	}
	completed, rekeyed, switches := 0, 0, 0
	step := func(i int) error {
		r := runs[i]
		at := fmt.Sprintf("session %d (%s)", i, r.job.Kind)
		if r.nodes == nil {
			var err error
			if r.keygen() {
				r.nodes, err = sim.KeygenNodes(r.g.IDs, r.g.T, r.job.Seed)
			} else {
				r.key = keys[r.job.Group]
				n, k := len(r.g.IDs), int(r.g.T)+1
				if r.job.Size > 0 {
					k += r.job.Size % (n - k + 1)
				}
				left := append([]uint16{}, r.g.IDs...)
				for len(r.signers) < k {
					j := pick(r.job.Pick, len(r.signers)) % len(left)
					r.signers = append(r.signers, left[j])
					left = append(left[:j:j], left[j+1:]...)
				}
				r.signers = ref.Sorted(r.signers)
				r.nodes, err = sim.SignNodes(r.key, r.signers, r.job.Msg, r.job.Seed)
			}
			if err != nil {
				return fmt.Errorf("%s: creating a valid session: %v", at, err)
			}
			return nil
		}
		if r.job.Kind == "left" && r.steps >= r.job.Stop {
			r.over = true
			return nil
		}
		r.steps++
		n := r.nodes[r.next]
		deliver := func(n *sim.Node, b []byte) error {
			if !sim.For(b, n.ID) {
				return nil
			}
			if p, ok := ref.ParseHeader(b); ok && r.job.Kind == "bad" && p.From == r.nodes[0].ID {
				b = append([]byte{}, b...)
				b[5+r.job.Stop%32] ^= 1 << (r.job.Seed % 8)
				_ = n.Handle(b)
				return nil
			}
			if err := n.Handle(b); err != nil && r.job.Kind != "bad" {
				return fmt.Errorf("%s: party %d refuses a genuine message: %v", at, n.ID, err)
			}
			return nil
		}
		for _, b := range r.in {
			if err := deliver(n, b); err != nil {
				return err
			}
		}
		for _, b := range n.Step() {
			if !r.job.Eager {
				r.out = append(r.out, b)
				continue
			}
			for _, m := range r.nodes {
				if err := deliver(m, b); err != nil {
					return err
				}
			}
		}
		r.next++
		if r.next < len(r.nodes) {
			return nil
		}
		r.next, r.in, r.out = 0, r.out, nil
		r.round++
		if r.round < 3 {
			return nil
		}
		r.over = true
		if r.job.Kind == "bad" || r.job.Kind == "left" {
			return nil
		}
		completed++
		for _, n := range r.nodes {
			if done, err := n.Finished(); !done || err != nil {
				return fmt.Errorf("%s: party %d: finished %v, error %v", at, n.ID, done, err)
			}
		}
		if r.keygen() {
			bc, err := sim.Broadcasts(r.nodes)
			if err == nil {
				err = sim.CheckKeygen(r.nodes, r.g.IDs, r.g.T, bc)
			}
			if err != nil {
				return fmt.Errorf("%s: %v", at, err)
			}
			// from now on the group signs with its new key
			k, err := sim.KeysFrom(r.nodes)
			if err != nil {
				return fmt.Errorf("%s: %v", at, err)
			}
			keys[r.job.Group] = k
			rekeyed++
			return nil
		}
		return indepSigned(at, r)
	}
	last := -1
	for _, o := range c.Order {
		i := o % len(runs)
		if runs[i].over {
			continue
		}
		if last >= 0 && last != i && !runs[last].over {
			switches++
		}
		last = i
		if err := step(i); err != nil {
			return lib.Result{Err: err}
		}
	}
	for i, r := range runs {
		for !r.over {
			if err := step(i); err != nil {
				return lib.Result{Err: err}
			}
		}
	}
	res := lib.Result{NonTrivial: completed >= 1 && len(runs) >= 2}
	res.Labels = append(res.Labels, fmt.Sprintf("completed=%d", completed), fmt.Sprintf("interleaved=%v", switches > 0), fmt.Sprintf("groups=%d", len(c.Groups)))
	if rekeyed > 0 {
		res.Labels = append(res.Labels, "rekeyed")
	}
	return res
}

// indepSigned judges a finished signing session by its own inputs alone.
func indepSigned(at string, r *indepRun) error {
	com := map[uint16]ref.Commit{}
	z := map[uint16]*big.Int{}
	for _, n := range r.nodes {
		for _, b := range n.Sent {
			p, ok := ref.Parse(b)
			if !ok {
				return fmt.Errorf("%s: party %d sent a malformed message %x", at, n.ID, b)
			}
			switch p.Type {
			case ref.S1:
				com[p.From] = ref.Commit{D: p.D, E: p.E}
			case ref.S2:
				z[p.From] = p.Scalar
			}
		}
	}
	if len(com) != len(r.nodes) || len(z) != len(r.nodes) {
		return fmt.Errorf("%s: %d commitments and %d responses of %d signers", at, len(com), len(z), len(r.nodes))
	}
	v := ref.NewSignView(r.signers, r.job.Msg, r.key.Group, com)
	sum := new(big.Int)
	for _, id := range r.signers {
		if !v.ShareOK(id, z[id], r.key.Pub[id]) {
			return fmt.Errorf("%s: the response of %d is not the one for this session", at, id)
		}
		sum = ref.AddQ(sum, z[id])
	}
	for _, n := range r.nodes {
		if n.SG.Signature == nil {
			return fmt.Errorf("%s: no signature at %d", at, n.ID)
		}
		if err := sim.CheckSignature(n.SG.Signature, ref.EncodeEd(r.key.Group), r.job.Msg); err != nil {
			return fmt.Errorf("%s: party %d: %v", at, n.ID, err)
		}
		if sim.Int(&n.SG.Signature.S).Cmp(sum) != 0 || !ref.Equal(sim.Pt(&n.SG.Signature.R), v.R) {
			return fmt.Errorf("%s: the signature of %d is not the sum of this session's contributions", at, n.ID)
		}
	}
	return nil
}

func TestC27Independent(t *testing.T) { lib.Run(t, "C27.independent", 1, genIndep, checkIndep) }

// Sessions one after the other whose arguments are all kept in the same variables: the party list,
// the message buffer, the public data with its group key and shares, the secret shares.
type reuseJob struct {
	Keygen bool
	Group  int
	Size   int
	Pick   []int
	Flip   byte // what the message of the case is combined with
	How    int  // how the public data gets into its variable
	HowSec int
	Seed   uint64
}

type reuseVars struct {
	IDs    []uint16
	Groups []sim.Group
	Msg    []byte
	Jobs   []reuseJob
}

func genReuseVars(rt *rapid.T) reuseVars {
	c := reuseVars{IDs: sim.GenIDs(rt, rapid.IntRange(2, 5).Draw(rt, "pool")), Msg: sim.GenMsg(rt)}
	ng := rapid.IntRange(1, 3).Draw(rt, "groups")
	for i := 0; i < ng; i++ {
		c.Groups = append(c.Groups, sim.Group{IDs: c.IDs, T: uint16(rapid.IntRange(1, len(c.IDs)-1).Draw(rt, "t")), Seed: uint64(rapid.Uint32().Draw(rt, "gseed"))})
	}
	nj := rapid.IntRange(2, 4).Draw(rt, "jobs")
	for i := 0; i < nj; i++ {
		c.Jobs = append(c.Jobs, reuseJob{Keygen: rapid.IntRange(0, 6).Draw(rt, "kg") == 0, Group: rapid.IntRange(0, ng-1).Draw(rt, "g"), Size: rapid.IntRange(0, 4).Draw(rt, "size"),
			Pick: rapid.SliceOfN(rapid.IntRange(0, 20), 1, 5).Draw(rt, "pick"), Flip: byte(rapid.IntRange(0, 2).Draw(rt, "flip")),
			How: rapid.IntRange(0, 2).Draw(rt, "how"), HowSec: rapid.IntRange(0, 2).Draw(rt, "howsec"), Seed: uint64(rapid.Uint32().Draw(rt, "jseed"))})
	}
	return c
}

func checkReuseVars(c *reuseVars) lib.Result {
	list := make(party.IDSlice, len(c.IDs))
	buf := make([]byte, len(c.Msg))
	pub := &eddsa.Public{GroupKey: &eddsa.PublicKey{}, Shares: map[party.ID]*ristretto.Element{}}
	secrets := map[uint16]*eddsa.SecretShare{}
	for _, id := range c.IDs {
		pub.Shares[party.ID(id)] = ristretto.NewIdentityElement()
		secrets[id] = &eddsa.SecretShare{}
	}
	labels := map[string]bool{}
	for i := range c.Jobs {
		j := &c.Jobs[i]
		g := &c.Groups[j.Group]
		at := fmt.Sprintf("session %d", i)
		r := &indepRun{job: &indepJob{}, g: g}
		left := append([]uint16{}, c.IDs...)
		k := int(g.T) + 1
		if j.Keygen {
			k = 2
		}
		k += j.Size % (len(c.IDs) - k + 1)
		for len(r.signers) < k {
			p := pick(j.Pick, len(r.signers)) % len(left)
			r.signers = append(r.signers, left[p])
			left = append(left[:p:p], left[p+1:]...)
		}
		r.signers = ref.Sorted(r.signers)
		ids := list[:k]
		for p, id := range r.signers {
			ids[p] = party.ID(id)
		}
		if j.Keygen {
			for _, id := range r.signers {
				n := &sim.Node{ID: id, Rand: lib.NewStream(j.Seed*31 + uint64(id))}
				n.Seed()
				var err error
				if n.St, n.KG, err = frost.NewKeygenState(party.ID(id), ids, 1, 0); err != nil {
					return lib.Fail("%s: creating a valid session: %v", at, err)
				}
				r.nodes = append(r.nodes, n)
			}
			if err := sim.NewNet(r.nodes).Run(nil); err != nil {
				return lib.Fail("%s: %v", at, err)
			}
			bc, err := sim.Broadcasts(r.nodes)
			if err == nil {
				err = sim.CheckKeygen(r.nodes, r.signers, 1, bc)
			}
			if err != nil {
				return lib.Fail("%s: %v", at, err)
			}
			labels["keygen"] = true
			continue
		}
		for p := range buf {
			buf[p] = c.Msg[p] ^ j.Flip
		}
		r.job.Msg = append([]byte{}, buf...)
		r.key = sim.Deal(g.IDs, g.T, g.Seed)
		switch j.How {
		case 0: // in place
			pub.Threshold = r.key.Public.Threshold
			pub.PartyIDs = append(pub.PartyIDs[:0], r.key.Public.PartyIDs...)
			*pub.GroupKey = *r.key.Public.GroupKey
			for id, e := range r.key.Public.Shares {
				pub.Shares[id].Set(e)
			}
		case 1: // decoded
			doc, err := r.key.Public.MarshalJSON()
			if err == nil {
				err = pub.UnmarshalJSON(doc)
			}
			if err != nil {
				return lib.Fail("%s: reloading public data: %v", at, err)
			}
		default:
			*pub = *r.key.Public
			key := *r.key.Public.GroupKey
			pub.GroupKey = &key
		}
		for _, id := range r.signers {
			sk := secrets[id]
			var b []byte
			var err error
			switch j.HowSec {
			case 0:
				if b, err = r.key.Shares[id].MarshalBinary(); err == nil {
					err = sk.UnmarshalBinary(b)
				}
			case 1:
				if b, err = r.key.Shares[id].MarshalJSON(); err == nil {
					err = sk.UnmarshalJSON(b)
				}
			default:
				*sk = *r.key.Shares[id]
			}
			if err != nil {
				return lib.Fail("%s: reloading a secret share: %v", at, err)
			}
			n := &sim.Node{ID: id, Rand: lib.NewStream(j.Seed*31 + uint64(id))}
			n.Seed()
			if n.St, n.SG, err = frost.NewSignState(ids, sk, pub, buf, 0); err != nil {
				return lib.Fail("%s: creating a valid session: %v", at, err)
			}
			r.nodes = append(r.nodes, n)
		}
		if err := sim.NewNet(r.nodes).Run(nil); err != nil {
			return lib.Fail("%s: %v", at, err)
		}
		if err := indepSigned(at, r); err != nil {
			return lib.Result{Err: err}
		}
		// the key in its variable is the one just loaded
		if !bytes.Equal(pub.GroupKey.ToEd25519(), ref.EncodeEd(r.key.Group)) || !pub.GroupKey.Verify(buf, r.nodes[0].SG.Signature) {
			return lib.Fail("%s: the reloaded group key is not the one the session signed under", at)
		}
		labels[fmt.Sprintf("how=%d", j.How)] = true
	}
	return lib.Result{NonTrivial: true, Labels: lkeys(labels)}
}

func TestC27Reuse(t *testing.T) { lib.Run(t, "C27.reuse", 0.2, genReuseVars, checkReuseVars) }

// Several sessions with timeouts under one virtual clock, each against its own lifecycle model, one
// operation at a time in a drawn order.
type clockCase struct {
	Lives []lifeCase
	Order []int
}

func genClock(rt *rapid.T) clockCase {
	var c clockCase
	n := rapid.IntRange(2, 5).Draw(rt, "lives")
	longest := 1
	for i := 0; i < n; i++ {
		l := genLife(rt, true)
		if i > 0 {
			if rapid.Bool().Draw(rt, "samegroup") {
				l.G, l.SelfIdx = c.Lives[0].G, c.Lives[0].SelfIdx
			}
			if rapid.Bool().Draw(rt, "sametimeout") {
				l.D = c.Lives[0].D
			}
		}
		if l.D > longest {
			longest = l.D
		}
		c.Lives = append(c.Lives, l)
	}
	for i := range c.Lives { // everyone lives to see the last timeout
		c.Lives[i].Ops = append(c.Lives[i].Ops, lifeOp{Op: "sleep", Ms: longest * 1100})
	}
	c.Order = rapid.SliceOfN(rapid.IntRange(0, 40), 0, 60).Draw(rt, "order")
	return c
}

func checkClock(c *clockCase) lib.Result {
	n := len(c.Lives)
	turn, back, quit := make([]chan int, n), make(chan int), make(chan int)
	results := make([]lib.Result, n)
	over := make([]bool, n)
	for i := range c.Lives {
		turn[i] = make(chan int)
		go func(i int) {
			wait := func() {
				select {
				case <-turn[i]:
				case <-quit:
					runtime.Goexit()
				}
			}
			wait()
			defer func() {
				if r := recover(); r != nil {
					results[i] = lib.Result{NonTrivial: true, Err: fmt.Errorf("panic: %v\n%s", r, debug.Stack())}
				}
				over[i] = true
				select {
				case back <- 0:
				case <-quit:
				}
			}()
			results[i] = checkLifeWith(&c.Lives[i], func() {
				back <- 0
				wait()
			})
		}(i)
	}
	defer close(quit)
	res := lib.Result{}
	run := func(i int) error {
		if over[i] {
			return nil
		}
		turn[i] <- 0
		<-back
		if over[i] && results[i].Err != nil {
			return fmt.Errorf("session %d of %d: %v", i, n, results[i].Err)
		}
		return nil
	}
	for _, o := range c.Order {
		if err := run(o % n); err != nil {
			return lib.Result{Err: err}
		}
	}
	labels := map[string]bool{}
	for i := range over {
		for !over[i] {
			if err := run(i); err != nil {
				return lib.Result{Err: err}
			}
		}
		for _, l := range results[i].Labels {
			labels[l] = true
		}
	}
	res.Labels = append(lkeys(labels), fmt.Sprintf("lives=%d", n))
	res.NonTrivial = true
	return res
}

func TestC27Clock(t *testing.T) {
	lib.Run(t, "C27.clock", 1, genClock, func(c *clockCase) lib.Result {
		return bubble(t, func() lib.Result { return checkClock(c) })
	})
}
