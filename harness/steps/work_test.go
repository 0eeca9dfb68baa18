package steps

import (
	"encoding/base64"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"strings"
	"testing"

	"github.com/taurusgroup/frost-ed25519/pkg/verif/lib"
	"github.com/taurusgroup/frost-ed25519/pkg/verif/ref"
	"pgregory.net/rapid"
)

func askWork(w *Work) answer {
	meter.Lock()
	defer meter.Unlock()
	meter.start()
	return send(map[string]interface{}{"Work": w})
}

func genWork(rt *rapid.T) Work {
	w := Work{
		Kind: rapid.SampledFrom([]string{"refused", "refused", "refused", "finish", "finish", "again", "again", "scale", "decode", "decode", "decode"}).Draw(rt, "kind"),
		Sign: rapid.Bool().Draw(rt, "sign"),
		Self: rapid.IntRange(0, 5).Draw(rt, "self"),
		Seed: uint64(rapid.Uint32().Draw(rt, "seed")),
		Msg:  rapid.SliceOfN(rapid.Byte(), 0, 40).Draw(rt, "msg"),
	}
	n := rapid.IntRange(2, 6).Draw(rt, "n")
	w.IDs = rapid.SliceOfNDistinct(rapid.OneOf(rapid.Uint16Range(1, 20), rapid.Uint16Range(1, 65535)), n, n, rapid.ID[uint16]).Draw(rt, "ids")
	w.T = uint16(rapid.IntRange(1, n-1).Draw(rt, "t"))
	switch w.Kind {
	case "refused", "finish":
		w.Stage = rapid.IntRange(0, 6).Draw(rt, "stage")
		w.Routine = w.Stage > 0 && rapid.IntRange(0, 2).Draw(rt, "routine") == 0
		w.Junk = rapid.SliceOfNDistinct(rapid.IntRange(0, JunkKinds-1), 1, 3, rapid.ID[int]).Draw(rt, "junk")
		w.Much = rapid.IntRange(1000, 2000).Draw(rt, "much")
	case "again":
		w.What = rapid.SampledFrom(AgainOps).Draw(rt, "what")
		w.Much = rapid.IntRange(150, 300).Draw(rt, "much")
		if w.What == "session" || w.What == "aborted" || w.What == "routine" || w.What == "document" || w.What == "dealing" {
			w.Much /= 2
		}
	case "scale":
		w.What = rapid.SampledFrom(ScaleOps).Draw(rt, "what")
		w.N = rapid.IntRange(4, 7).Draw(rt, "small")
		if w.What != "session" {
			w.N = rapid.IntRange(4, 12).Draw(rt, "small")
		}
		w.T = uint16(rapid.IntRange(0, 2).Draw(rt, "tkind"))
	case "decode":
		w.What = rapid.SampledFrom(DecodeOps).Draw(rt, "what")
		w.Input = genInput(rt, &w)
	}
	return w
}

// genInput makes an encoding that may claim more than it has.
func genInput(rt *rapid.T, w *Work) (b []byte) {
	bytes := func(max int) []byte { return rapid.SliceOfN(rapid.Byte(), 0, max).Draw(rt, "bytes") }
	count := rapid.OneOf(rapid.Uint16Range(0, 40), rapid.Uint16Range(200, 400), rapid.SampledFrom([]uint16{255, 256, 1000, 32767, 32768, 65534, 65535}), rapid.Uint16()).Draw(rt, "claim")
	have := rapid.IntRange(0, 40).Draw(rt, "have")
	if count < 500 && rapid.Bool().Draw(rt, "exact") {
		have = int(count) + 1
	}
	coefficients := func() (b []byte) {
		b = binary.BigEndian.AppendUint16(nil, count)
		var e [][]byte
		for i := 0; i < 3; i++ {
			e = append(e, ref.Encode(ref.BaseMul(ref.Expand(w.Seed, "coef", i))))
		}
		for i := 0; i < have; i++ {
			b = append(b, e[i%3]...)
		}
		return
	}
	b64 := base64.StdEncoding.EncodeToString
	switch w.What {
	case "message":
		switch typ := rapid.IntRange(1, 4).Draw(rt, "type"); typ {
		case ref.KG1:
			b = ref.MsgKG1(w.IDs[0], ref.Expand(w.Seed, "proof", 0), ref.Expand(w.Seed, "proof", 1), nil)
			b = append(b[:5+64], coefficients()...)
		case ref.KG2:
			b = ref.MsgKG2(w.IDs[0], w.IDs[1], ref.Expand(w.Seed, "share", 0))
		case ref.S1:
			b = ref.MsgS1(w.IDs[0], ref.BaseMul(ref.Expand(w.Seed, "d", 0)), ref.BaseMul(ref.Expand(w.Seed, "e", 0)))
		case ref.S2:
			b = ref.MsgS2(w.IDs[0], ref.Expand(w.Seed, "z", 0))
		}
	case "signature":
		b = append(ref.Encode(ref.BaseMul(ref.Expand(w.Seed, "r", 0))), ref.ScalarBytes(ref.Expand(w.Seed, "s", 0))...)
	case "share":
		b = append(binary.BigEndian.AppendUint16(nil, w.IDs[0]), ref.ScalarBytes(ref.Expand(w.Seed, "s", 0))...)
	case "share document":
		b, _ = json.Marshal(map[string]interface{}{"id": int(count), "secret": b64(ref.ScalarBytes(ref.Expand(w.Seed, "s", 0)))})
	case "public document":
		b = publicDoc(ref.Sorted(w.IDs), 1, w.Seed)
		b = []byte(strings.Replace(string(b), `"t":1`, fmt.Sprintf(`"t":%d`, count), 1))
	case "key document":
		b, _ = json.Marshal(b64(ref.Encode(ref.BaseMul(ref.Expand(w.Seed, "k", 0)))))
	case "commitments":
		b = coefficients()
	default:
		b = []byte(strings.Repeat("0", have*50) + fmt.Sprint(count))
	}
	switch rapid.IntRange(0, 6).Draw(rt, "garble") {
	case 0:
		b = b[:rapid.IntRange(0, len(b)).Draw(rt, "cut")]
	case 1:
		b = append(b, bytes(3000)...)
	case 2:
		if len(b) > 0 {
			b[rapid.IntRange(0, len(b)-1).Draw(rt, "at")] = rapid.Byte().Draw(rt, "to")
		}
	case 3:
		b = bytes(400)
	}
	return
}

// checkWork fails only if three processes take too much.
func checkWork(w *Work) lib.Result {
	var a answer
	for i := 0; i < 3; i++ {
		if i > 0 {
			meter.stop()
		}
		if a = askWork(w); a.Err == "" {
			labels := []string{"kind:" + w.Kind}
			if w.What != "" {
				labels = append(labels, w.Kind+":"+w.What)
			}
			return lib.Result{NonTrivial: a.Work, Labels: labels}
		}
		if strings.HasPrefix(a.Err, "harness:") {
			panic(a.Err)
		}
	}
	return lib.Fail("%s", a.Err)
}

func TestC36Work(t *testing.T) {
	if os.Getenv("VERIF_BIN") == "" {
		t.Skip("needs the meter")
	}
	// growth is seen, and only growth
	if a := askWork(&Work{Kind: "control", N: 1000}); a.Err == "" || strings.HasPrefix(a.Err, "harness:") {
		panic("harness: the meter does not see a loop that grows: " + a.Err)
	}
	if a := askWork(&Work{Kind: "control", N: 12}); a.Err != "" {
		panic("harness: the meter sees growth where there is none: " + a.Err)
	}
	lib.Run(t, "C36.work", 1, genWork, checkWork)
}
