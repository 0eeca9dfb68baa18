package proto

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"io"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"unsafe"

	"github.com/taurusgroup/frost-ed25519/pkg/state"
	"github.com/taurusgroup/frost-ed25519/pkg/verif/ref"
	"github.com/taurusgroup/frost-ed25519/pkg/verif/sim"
)

// heap looks for secret scalars in the memory that a session refers to. The secrets are kept
// masked here, so that the harness's own memory holds no copy.
type heap struct {
	masked map[[32]byte]string
	found  string
}

const heapMask = 0xa5

// collect takes the secrets that the session holds now.
func (h *heap) collect(c *eraseCase, p *sim.Peers, n *sim.Node, round state.Round) {
	if h == nil {
		return
	}
	if h.masked == nil {
		h.masked = map[[32]byte]string{}
	}
	secrets := secretPoints(c, p, n)
	if c.Sign && c.End == "timeout" { // the peers of the harness hold the share, and a timer may lead there
		for k, name := range secrets {
			if name == "the signing share" {
				delete(secrets, k)
			}
		}
	}
	for _, root := range []interface{}{round, n.St} {
		for _, f := range walk(root) {
			if f.k.Sign() == 0 {
				continue
			}
			if name, ok := secrets[string(ref.Encode(ref.BaseMul(f.k)))]; ok {
				var b [32]byte
				copy(b[:], ref.ScalarBytes(f.k))
				for i := range b {
					b[i] ^= heapMask
				}
				h.masked[b] = name
			}
		}
	}
}

type heapObject struct {
	addr uint64
	data []byte // masked
	ptrs []uint64
}

// dump lists the objects of the heap by address.
func (h *heap) dump() []heapObject {
	runtime.GC()
	runtime.GC()
	f, err := os.CreateTemp("", "verif-heap")
	if err != nil {
		panic("harness: " + err.Error())
	}
	defer f.Close()
	os.Remove(f.Name())
	debug.WriteHeapDump(f.Fd())
	if _, err := f.Seek(0, io.SeekStart); err != nil {
		panic("harness: " + err.Error())
	}
	r := bufio.NewReaderSize(f, 1<<20)
	if l, err := r.ReadString('\n'); err != nil || l[:3] != "go1" {
		panic("harness: unknown heap dump " + l)
	}
	num := func() uint64 {
		v, err := binary.ReadUvarint(r)
		if err != nil {
			panic("harness: heap dump: " + err.Error())
		}
		return v
	}
	str := func() []byte {
		b := make([]byte, num())
		if _, err := io.ReadFull(r, b); err != nil {
			panic("harness: heap dump: " + err.Error())
		}
		return b
	}
	var out []heapObject
	for {
		switch tag := num(); tag {
		case 6: // parameters
			if num() != 0 { // big endian
				panic("harness: big endian")
			}
			num()
			num()
			num()
			str()
			str()
			num()
		case 3: // type
			num()
			num()
			str()
			num()
		case 8: // itab
			num()
			num()
		case 1:
			o := heapObject{addr: num(), data: str()}
			for i := range o.data {
				o.data[i] ^= heapMask
			}
			for {
				k := num()
				if k == 0 {
					break
				}
				if k != 1 {
					panic("harness: field kind in heap dump")
				}
				off := num()
				if off+8 <= uint64(len(o.data)) {
					var w [8]byte
					for i := range w {
						w[i] = o.data[off+uint64(i)] ^ heapMask
					}
					o.ptrs = append(o.ptrs, binary.LittleEndian.Uint64(w[:]))
				}
			}
			out = append(out, o)
		default: // the objects come before everything else
			if len(out) == 0 {
				panic("harness: no objects in the heap dump")
			}
			sort.Slice(out, func(i, j int) bool { return out[i].addr < out[j].addr })
			return out
		}
	}
}

// find reports whether a secret is in an object reachable from root.
func (h *heap) find(root unsafe.Pointer) bool {
	if len(h.masked) == 0 {
		return false
	}
	objs := h.dump()
	at := func(p uint64) int {
		i := sort.Search(len(objs), func(i int) bool { return objs[i].addr > p }) - 1
		if i < 0 || p >= objs[i].addr+uint64(len(objs[i].data)) {
			return -1
		}
		return i
	}
	first := at(uint64(uintptr(root)))
	if first < 0 {
		panic("harness: the session is not in the heap dump")
	}
	seen := map[int]bool{first: true}
	for todo := []int{first}; len(todo) > 0; {
		i := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		for k, name := range h.masked {
			if bytes.Contains(objs[i].data, k[:]) {
				h.found = name
				return true
			}
		}
		for _, p := range objs[i].ptrs {
			if j := at(p); j >= 0 && !seen[j] {
				seen[j] = true
				todo = append(todo, j)
			}
		}
	}
	runtime.KeepAlive(root)
	return false
}
