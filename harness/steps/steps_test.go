package steps

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"math/big"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"testing"

	"github.com/taurusgroup/frost-ed25519/pkg/verif/lib"
	"github.com/taurusgroup/frost-ed25519/pkg/verif/ref"
	"pgregory.net/rapid"
)

type answer struct {
	Counts [][]byte
	Err    string
	Work   bool
}

type meterProcess struct {
	sync.Mutex
	in  io.WriteCloser
	out *bufio.Reader
	ok  map[string]bool // warmed up
	cmd *exec.Cmd
}

var meter meterProcess

func (m *meterProcess) stop() {
	m.Lock()
	defer m.Unlock()
	_ = m.in.Close()
	_ = m.cmd.Wait()
	m.in = nil
}

// start starts the meter if it does not run.
func (m *meterProcess) start() {
	if meter.in == nil {
		cmd := exec.Command(filepath.Join(os.Getenv("VERIF_BIN"), "meter"))
		in, err := cmd.StdinPipe()
		if err == nil {
			var out io.Reader
			if out, err = cmd.StdoutPipe(); err == nil {
				meter.out = bufio.NewReader(out)
				err = cmd.Start()
			}
		}
		if err != nil {
			panic(fmt.Sprintf("harness: %v", err))
		}
		meter.in, meter.ok, meter.cmd = in, map[string]bool{}, cmd
	}
}

func send(c interface{}) (a answer) {
	b, err := json.Marshal(c)
	if err == nil {
		_, err = meter.in.Write(append(b, '\n'))
	}
	var line []byte
	if err == nil {
		line, err = meter.out.ReadBytes('\n')
	}
	if err == nil {
		err = json.Unmarshal(line, &a)
	}
	if err != nil {
		panic(fmt.Sprintf("harness: the meter ended: %v", err))
	}
	return
}

func ask(c *Case) answer {
	meter.Lock()
	defer meter.Unlock()
	meter.start()
	// tables and the like may be made on first use
	if key := fmt.Sprint(c.Op, c.N, c.Alias, c.Twice); !meter.ok[key] {
		meter.ok[key] = true
		warm := *c
		warm.Values = nil
		for i := 0; i < 3; i++ {
			v := Values{}
			for j := 0; j < c.N+3; j++ {
				v.S = append(v.S, ref.Expand(uint64(i), "warm", j))
				v.E = append(v.E, Elem{"base", ref.Expand(uint64(i), "warm", 100+j)})
			}
			warm.Values = append(warm.Values, v)
		}
		send(&warm)
	}
	return send(c)
}

func genBig(rt *rapid.T) *big.Int {
	switch rapid.IntRange(0, 7).Draw(rt, "skind") {
	case 0:
		return big.NewInt(int64(rapid.IntRange(0, 20).Draw(rt, "small")))
	case 1:
		return ref.SubQ(big.NewInt(0), big.NewInt(int64(rapid.IntRange(1, 20).Draw(rt, "neg"))))
	case 2:
		return ref.MulQ(new(big.Int).Lsh(big.NewInt(1), uint(rapid.IntRange(0, 252).Draw(rt, "pow"))), big.NewInt(1))
	case 3:
		b := bytes.Repeat([]byte{rapid.Byte().Draw(rt, "digits")}, 32)
		b[31] &= 0x0f
		return ref.AddQ(ref.Int(b), big.NewInt(0))
	case 4: // short
		x := ref.Expand(uint64(rapid.Uint32().Draw(rt, "v")), "steps", 0)
		return new(big.Int).Rsh(x, uint(rapid.IntRange(1, 250).Draw(rt, "shift")))
	default:
		return ref.Expand(uint64(rapid.Uint32().Draw(rt, "v")), "steps", 0)
	}
}

func genElem(rt *rapid.T) Elem {
	e := Elem{Kind: rapid.SampledFrom([]string{"base", "base", "decode", "sum", "uniform", "identity", "generator", "zero"}).Draw(rt, "ekind"), K: big.NewInt(0)}
	if e.Kind != "identity" && e.Kind != "generator" {
		e.K = genBig(rt)
	}
	return e
}

func genCase(rt *rapid.T) Case {
	c := Case{Op: rapid.SampledFrom(Ops).Draw(rt, "op"), N: 2, Alias: rapid.IntRange(0, 2).Draw(rt, "alias"), Twice: rapid.IntRange(0, 3).Draw(rt, "twice") == 0}
	if c.Op == "multi" {
		c.N = rapid.OneOf(rapid.IntRange(0, 6), rapid.IntRange(0, 40)).Draw(rt, "n")
	}
	for i := rapid.IntRange(2, 5).Draw(rt, "choices"); i > 0; i-- {
		v := Values{Same: rapid.IntRange(0, 3).Draw(rt, "same") == 0}
		// elements come from a few, scalars too, so that some are equal
		for j := 0; j < c.N+3; j++ {
			if j > 0 && rapid.IntRange(0, 5).Draw(rt, "again") == 0 {
				v.S = append(v.S, v.S[rapid.IntRange(0, j-1).Draw(rt, "which")])
				v.E = append(v.E, v.E[rapid.IntRange(0, j-1).Draw(rt, "which")])
				continue
			}
			v.S = append(v.S, genBig(rt))
			v.E = append(v.E, genElem(rt))
		}
		c.Values = append(c.Values, v)
	}
	return c
}

// checkSteps fails only if the steps differ in three processes: what happens now and then (a pool
// that was emptied) is no matter of the values.
func checkSteps(c *Case) lib.Result {
	r := checkOnce(c)
	for i := 0; i < 2 && r.Err != nil; i++ {
		meter.stop()
		r = checkOnce(c)
	}
	return r
}

func checkOnce(c *Case) lib.Result {
	a := ask(c)
	if a.Err != "" {
		if strings.HasPrefix(a.Err, "harness:") {
			panic(a.Err)
		}
		return lib.Fail("%s panics: %s", c.Op, a.Err)
	}
	differ := 0
	for i := range a.Counts {
		if !bytes.Equal(a.Counts[i], a.Counts[0]) {
			first, _ := json.Marshal(c.Values[0])
			other, _ := json.Marshal(c.Values[i/2])
			how := "takes other steps for other values"
			if i/2 == 0 {
				how = "takes other steps when it is repeated"
			}
			return lib.Fail("%s (%d terms, result in %d) %s: %d and %d bytes of counters, for %s and %s", c.Op, c.N, c.Alias, how,
				len(a.Counts[0]), len(a.Counts[i]), first, other)
		}
		if i%2 == 0 && i > 0 {
			x, _ := json.Marshal(c.Values[0])
			y, _ := json.Marshal(c.Values[i/2])
			if !bytes.Equal(x, y) {
				differ++
			}
		}
	}
	return lib.Result{NonTrivial: differ > 0 && len(a.Counts[0]) > 0, Labels: []string{"op:" + c.Op}}
}

func TestC34Steps(t *testing.T) {
	if os.Getenv("VERIF_BIN") == "" {
		t.Skip("needs the meter")
	}
	// the counters do count
	one := Values{S: []*big.Int{big.NewInt(1)}, E: []Elem{{"identity", big.NewInt(0)}, {"identity", big.NewInt(0)}}}
	other := one
	other.S = []*big.Int{big.NewInt(1000)}
	a := ask(&Case{Op: "control", Values: []Values{one, one, other}})
	if a.Err != "" || len(a.Counts) != 6 || !bytes.Equal(a.Counts[0], a.Counts[2]) || bytes.Equal(a.Counts[0], a.Counts[4]) {
		panic("harness: the counters do not count: " + a.Err)
	}
	lib.Run(t, "C34.steps", 1, genCase, checkSteps)
}
