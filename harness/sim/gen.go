package sim

import (
	"github.com/taurusgroup/frost-ed25519/pkg/verif/lib"
	"github.com/taurusgroup/frost-ed25519/pkg/verif/ref"
	"pgregory.net/rapid"
)

// GenIDs draws n distinct IDs in 1..65535, sorted. Shapes: 1..n, a run somewhere, sparse, and
// values at byte and range boundaries.
func GenIDs(rt *rapid.T, n int) []uint16 {
	seen := map[uint16]bool{}
	var out []uint16
	push := func(id uint16) {
		for id == 0 || seen[id] {
			id++
		}
		seen[id] = true
		out = append(out, id)
	}
	switch rapid.SampledFrom([]string{"small", "run", "sparse", "boundary", "mixed"}).Draw(rt, "idshape") {
	case "small":
		for i := 1; i <= n; i++ {
			push(uint16(i))
		}
	case "run":
		s := rapid.Uint16Range(1, uint16(65535-n)).Draw(rt, "start")
		for i := 0; i < n; i++ {
			push(s + uint16(i))
		}
	case "sparse":
		for i := 0; i < n; i++ {
			push(rapid.Uint16Range(1, 65535).Draw(rt, "id"))
		}
	case "boundary":
		for i := 0; i < n; i++ {
			push(rapid.SampledFrom([]uint16{1, 2, 127, 128, 255, 256, 257, 511, 512, 32767, 32768, 65279, 65280, 65534, 65535}).Draw(rt, "id"))
		}
	default:
		for i := 0; i < n; i++ {
			if rapid.Bool().Draw(rt, "b") {
				push(rapid.Uint16Range(1, 12).Draw(rt, "id"))
			} else {
				push(rapid.SampledFrom([]uint16{255, 256, 257, 65534, 65535, 258, 512, 768}).Draw(rt, "id"))
			}
		}
	}
	return ref.Sorted(out)
}

// Group is a party configuration.
type Group struct {
	IDs  []uint16
	T    uint16
	Seed uint64
}

// GenGroup draws n in [lo,hi] parties, now and then some more, and a threshold in 1..n-1.
func GenGroup(rt *rapid.T, lo, hi int) Group {
	n := rapid.IntRange(lo, hi).Draw(rt, "n")
	if rapid.IntRange(0, 39).Draw(rt, "more") == 39 {
		more := 6
		if lib.Thorough() {
			more = 12
		}
		n = hi + rapid.IntRange(1, more).Draw(rt, "n2")
	}
	var t int
	switch rapid.IntRange(0, 3).Draw(rt, "tkind") {
	case 0:
		t = 1
	case 1:
		t = n - 1
	default:
		t = rapid.IntRange(1, n-1).Draw(rt, "t")
	}
	return Group{IDs: GenIDs(rt, n), T: uint16(t), Seed: uint64(rapid.Uint32().Draw(rt, "seed"))}
}

// GenSubset draws a subset of size k, sorted.
func GenSubset(rt *rapid.T, ids []uint16, k int) []uint16 {
	p := rapid.Permutation(append([]uint16{}, ids...)).Draw(rt, "subset")
	return ref.Sorted(p[:k])
}

// GenMsg draws a message: the empty one (nil or not), lengths around hash-block boundaries, and
// some long ones.
func GenMsg(rt *rapid.T) []byte {
	switch rapid.IntRange(0, 5).Draw(rt, "msgkind") {
	case 0:
		if rapid.Bool().Draw(rt, "nil") {
			return nil
		}
		return []byte{}
	case 1:
		n := rapid.SampledFrom([]int{1, 31, 32, 33, 63, 64, 65, 111, 112, 113, 127, 128, 129, 255, 256, 257, 511, 512, 1000, 1024, 4096}).Draw(rt, "msglen")
		if rapid.IntRange(0, 15).Draw(rt, "huge") == 15 {
			n = rapid.SampledFrom([]int{8192, 65535, 65536, 65537, 70001}).Draw(rt, "msglen")
		}
		b := make([]byte, n)
		x := rapid.Byte().Draw(rt, "fill")
		for i := range b {
			b[i] = x + byte(i*i)
		}
		return b
	case 2:
		return []byte(rapid.SampledFrom([]string{" ", " text", "text ", "text\n", "\r\n", "\x00", "\x00\x00\x00", "text\x00", "\x00text", "\xff\xfe", "\xef\xbb\xbftext", "ÄÖÜ", "0x00", "FROST-SHA512",
			"SigEd25519 no Ed25519 collisions", "null", "{}", "\"\"", "-", "--help", "%s%d"}).Draw(rt, "text"))
	default:
		return rapid.SliceOfN(rapid.Byte(), 0, 80).Draw(rt, "msg")
	}
}

// GenChoices draws a schedule.
func GenChoices(rt *rapid.T, max int) []int {
	return rapid.SliceOfN(rapid.IntRange(0, 799), 0, max).Draw(rt, "sched")
}

// IDShape labels an ID list.
func IDShape(ids []uint16) string {
	consec := true
	for i, id := range ids {
		if int(id) != i+1 {
			consec = false
		}
	}
	switch {
	case consec:
		return "ids=1..n"
	case ids[len(ids)-1] > 255:
		return "ids>255"
	}
	return "ids=small-sparse"
}
