// Meter does operations and tells how often each basic block was run.
package main

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"runtime/coverage"

	"github.com/taurusgroup/frost-ed25519/pkg/verif/steps"
)

// Answer has the counters of each choice of values.
type Answer struct {
	Counts [][]byte
	Err    string
	Work   bool // there was something to measure
}

// blocks reads the counters.
func blocks(b []byte) steps.Counts {
	if len(b) < 64 || b[24] != 2 {
		panic("harness: no counters in variable length form")
	}
	entries := binary.LittleEndian.Uint64(b[32:])
	c := counts(b)
	next := func() uint64 {
		v, n := binary.Uvarint(c)
		if n <= 0 {
			panic("harness: counters are cut")
		}
		c = c[n:]
		return v
	}
	out := steps.Counts{}
	for ; entries > 0; entries-- {
		n, pkg, fn := next(), next(), next()
		for i := uint64(0); i < n; i++ {
			out[pkg<<40|fn<<16|i] = next()
		}
	}
	return out
}

// library tells which packages belong to the group library.
func library() map[uint64]bool {
	var b bytes.Buffer
	if err := coverage.WriteMeta(&b); err != nil {
		panic("harness: " + err.Error())
	}
	m := b.Bytes()
	n := binary.LittleEndian.Uint64(m[16:])
	out, found := map[uint64]bool{}, false
	for i := uint64(0); i < n; i++ {
		at, size := binary.LittleEndian.Uint64(m[56+8*i:]), binary.LittleEndian.Uint64(m[56+8*n+8*i:])
		out[i] = bytes.Contains(m[at:at+size], []byte("filippo.io/edwards25519"))
		found = found || out[i]
	}
	if !found {
		panic("harness: the group library is not counted")
	}
	return out
}

func measure(f func()) steps.Counts {
	if err := coverage.ClearCounters(); err != nil {
		panic("harness: " + err.Error())
	}
	f()
	var b bytes.Buffer
	if err := coverage.WriteCounters(&b); err != nil {
		panic("harness: " + err.Error())
	}
	return blocks(b.Bytes())
}

func work(w *steps.Work) (a Answer) {
	defer func() {
		if r := recover(); r != nil {
			a.Err = fmt.Sprint(r)
		}
	}()
	var err error
	steps.Library = library()
	if a.Work, err = w.Measure(measure); err != nil {
		a.Err = err.Error()
	}
	return
}

// counts takes the counters out of what WriteCounters writes.
func counts(b []byte) []byte {
	if len(b) < 64 {
		panic("harness: no counters")
	}
	skip := 48 + int(binary.LittleEndian.Uint32(b[40:])) + int(binary.LittleEndian.Uint32(b[44:]))
	return b[(skip+3)/4*4 : len(b)-16]
}

func answer(c *steps.Case) (a Answer) {
	defer func() {
		if r := recover(); r != nil {
			a.Err = fmt.Sprint(r)
		}
	}()
	for i := range c.Values {
		for again := 0; again < 2; again++ {
			f := c.Prepare(&c.Values[i])
			if err := coverage.ClearCounters(); err != nil {
				panic("harness: " + err.Error())
			}
			f()
			var b bytes.Buffer
			if err := coverage.WriteCounters(&b); err != nil {
				panic("harness: " + err.Error())
			}
			a.Counts = append(a.Counts, append([]byte{}, counts(b.Bytes())...))
		}
	}
	return
}

func main() {
	in := bufio.NewReader(os.Stdin)
	out := json.NewEncoder(os.Stdout)
	for {
		line, err := in.ReadBytes('\n')
		if err != nil {
			return
		}
		var c struct {
			steps.Case
			Work *steps.Work
		}
		if err := json.Unmarshal(line, &c); err != nil {
			_ = out.Encode(Answer{Err: "harness: " + err.Error()})
			continue
		}
		if c.Work != nil {
			_ = out.Encode(work(c.Work))
			continue
		}
		_ = out.Encode(answer(&c.Case))
	}
}
