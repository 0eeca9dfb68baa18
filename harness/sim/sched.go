package sim

import (
	"fmt"

	"github.com/taurusgroup/frost-ed25519/pkg/verif/lib"
	"github.com/taurusgroup/frost-ed25519/pkg/verif/ref"
)

// Net delivers messages between nodes under a generated schedule. Each choice picks one of
// the enabled events: start a party, deliver a pending message, process a party, or redeliver
// something already delivered. When the choices run out everything left is delivered in order.
type Net struct {
	Nodes   []*Node
	started map[uint16]bool
	pending []packet
	old     []packet
	// Eager: process a party after each delivery to it (once started).
	Eager bool
	// Peers that are not real nodes: called with each message a node emits.
	OnEmit func(b []byte)
	// RefuseOK: do not treat a refusal of a first delivery as a failure.
	RefuseOK bool
	// Stats
	Early, Ahead, Dups, Reordered int
	// Got tells which genuine messages each node has been given.
	Got map[uint16]map[Key]bool
	// Hook is called after every event.
	Hook func()
}

// Key identifies a message slot.
type Key struct {
	From uint16
	Type byte
}

type packet struct {
	to  uint16
	b   []byte
	seq int
}

// NewNet makes a network.
func NewNet(nodes []*Node) *Net {
	return &Net{Nodes: nodes, started: map[uint16]bool{}, Got: map[uint16]map[Key]bool{}}
}

func (w *Net) node(id uint16) *Node {
	for _, n := range w.Nodes {
		if n.ID == id {
			return n
		}
	}
	return nil
}

// Post queues an encoded message for delivery to every real node it is meant for.
func (w *Net) Post(b []byte) {
	for _, n := range w.Nodes {
		if For(b, n.ID) {
			w.pending = append(w.pending, packet{n.ID, b, len(w.pending)})
		}
	}
}

// PostTo queues a message for one node.
func (w *Net) PostTo(id uint16, b []byte) {
	w.pending = append(w.pending, packet{id, b, len(w.pending)})
}

func (w *Net) emit(out [][]byte) {
	for _, b := range out {
		w.Post(b)
		if w.OnEmit != nil {
			w.OnEmit(b)
		}
	}
}

func (w *Net) process(n *Node) {
	w.started[n.ID] = true
	w.emit(n.Drive())
	if w.Hook != nil {
		w.Hook()
	}
}

// Started tells whether a node has been processed at least once.
func (w *Net) Started(id uint16) bool { return w.started[id] }

func (w *Net) deliver(i int) error {
	p := w.pending[i]
	if i != 0 {
		w.Reordered++
	}
	w.pending = append(append([]packet{}, w.pending[:i]...), w.pending[i+1:]...)
	n := w.node(p.to)
	if !w.started[n.ID] {
		w.Early++
	}
	if m, ok := ref.ParseHeader(p.b); ok && (m.Type == ref.KG2 || m.Type == ref.S2) && len(n.Sent) < 2 {
		w.Ahead++
	}
	wasDone := n.St.IsFinished()
	if err := n.Handle(p.b); err != nil && !w.RefuseOK && !wasDone {
		return fmt.Errorf("party %d refuses the first delivery of a genuine message %s (started=%v): %w", n.ID, lib.Clip(p.b), w.started[n.ID], err)
	}
	w.old = append(w.old, p)
	if m, ok := ref.ParseHeader(p.b); ok {
		if w.Got[n.ID] == nil {
			w.Got[n.ID] = map[Key]bool{}
		}
		w.Got[n.ID][Key{m.From, m.Type}] = true
	}
	if w.Hook != nil {
		w.Hook()
	}
	if w.Eager && w.started[n.ID] {
		w.process(n)
	}
	return nil
}

// Run executes the schedule.
func (w *Net) Run(choices []int) error {
	for _, c := range choices {
		if c < 0 {
			c = -c
		}
		kind, arg := c%8, c/8
		switch {
		case kind == 0: // start or process a party
			w.process(w.Nodes[arg%len(w.Nodes)])
		case kind == 1 && len(w.old) > 0: // redeliver
			p := w.old[arg%len(w.old)]
			w.Dups++
			_ = w.node(p.to).Handle(p.b)
		case kind <= 4 && len(w.pending) > 0: // newest first
			if err := w.deliver(len(w.pending) - 1 - arg%len(w.pending)); err != nil {
				return err
			}
		case len(w.pending) > 0:
			if err := w.deliver(arg % len(w.pending)); err != nil {
				return err
			}
		default:
			w.process(w.Nodes[arg%len(w.Nodes)])
		}
	}
	return w.Flush()
}

// Flush starts everyone and delivers and processes everything left.
func (w *Net) Flush() error {
	for {
		for _, n := range w.Nodes {
			w.process(n)
		}
		if len(w.pending) == 0 {
			// one more pass to see that nothing is left to do
			for _, n := range w.Nodes {
				w.process(n)
			}
			if len(w.pending) == 0 {
				return nil
			}
		}
		for len(w.pending) > 0 {
			if err := w.deliver(0); err != nil {
				return err
			}
		}
	}
}

// AllOK checks that every session succeeded.
func (w *Net) AllOK() error {
	for _, n := range w.Nodes {
		done, err := n.Finished()
		if err != nil {
			return fmt.Errorf("party %d: honest session failed: %w", n.ID, err)
		}
		if !done {
			return fmt.Errorf("party %d: all messages delivered and processed, but the session is not finished", n.ID)
		}
	}
	return nil
}
