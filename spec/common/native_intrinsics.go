package PKG

// The native meaning of the specification language: harnesses run on the
// real code, with inputs taken from a counterexample.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"reflect"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"sync/atomic"
	"testing"
	"time"
)

type vDiscard struct{ why string }
type vFailure struct{ label, detail string }

type vJob struct {
	Mode    string                     `json:"mode"` // replay, search, case
	Harness string                     `json:"harness"`
	Values  map[string]json.RawMessage `json:"values"`
	Search  []string                   `json:"search"`
	Seed    int64                      `json:"seed"`
	Trials  int                        `json:"trials"`
	MS      int                        `json:"ms"`
	Out     string                     `json:"out"`
}

type vCase struct {
	Search string `json:"search,omitempty"`
	Seed   int64  `json:"seed,omitempty"`
	Label  string `json:"label"`
	Detail string `json:"detail"`
}

type vOut struct {
	Fail     []vCase        `json:"fail"`
	Trials   map[string]int `json:"trials"`
	Distinct int            `json:"distinct"`
	Samples  []string       `json:"samples"`
	Note     string         `json:"note"`
}

var vCur struct {
	values map[string]json.RawMessage
	seen   map[string]int
}

func vName(n string) string {
	k := vCur.seen[n]
	vCur.seen[n] = k + 1
	if k == 0 {
		return n
	}
	return fmt.Sprintf("%s#%d", n, k)
}

func vNum(name string) string {
	n := vName(name)
	raw, ok := vCur.values[n]
	if !ok {
		return "0"
	}
	s := strings.Trim(string(raw), `"`)
	return s
}

func vInt(name string) int {
	v, _ := strconv.ParseInt(vNum(name), 10, 64)
	return int(v)
}
func vI64(name string) int64 { return int64(vInt(name)) }
func vI32(name string) int32 { return int32(vInt(name)) }
func vU64(name string) uint64 {
	v, _ := strconv.ParseUint(vNum(name), 10, 64)
	return v
}
func vU32(name string) uint32 { return uint32(vU64(name)) }
func vU16(name string) uint16 { return uint16(vU64(name)) }
func vByte(name string) byte  { return byte(vU64(name)) }
func vBool(name string) bool  { return vNum(name) == "1" }
func vRange(name string, lo, hi int) int {
	v := vInt(name)
	if v < lo || v > hi {
		panic(vDiscard{"range"})
	}
	return v
}
func vEnum(name string, lo, hi int) int { return vRange(name, lo, hi) }
func vBytes(name string) []byte {
	var x []int
	json.Unmarshal(vCur.values[vName(name)], &x)
	b := make([]byte, len(x))
	for i := range x {
		b[i] = byte(x[i])
	}
	return b
}
func vBytesN(name string, n int) []byte {
	b := vBytes(name)
	if len(b) > n {
		b = b[:n]
	}
	for len(b) < n {
		b = append(b, 0)
	}
	return b
}
func vString(name string) string { return string(vBytes(name)) }
func vAssume(c bool) {
	if !c {
		panic(vDiscard{"assume"})
	}
}
func vRequire(c bool) { vAssume(c) }
func vEnsure(c bool, label string) {
	if !c {
		panic(vFailure{label, "postcondition does not hold"})
	}
}
func vCover(label string)                       {}
func vInv(c bool, label string)                 {}
func vBind[T any](p *T, v T, label string)      {}
func vMode() int                                { return 0 }
func vUse(fn string, contract interface{})      { panic(vDiscard{"contract " + fn}) }
func vLoop(fn string, ord int, inv interface{}) {}
func vEqB(a, b []byte) bool                     { return bytes.Equal(a, b) }
func vEqS(a, b string) bool                     { return a == b }
func vHas(a, b string) bool                     { return strings.Contains(a, b) }
func vSame[T any](a, b T) bool                  { return reflect.DeepEqual(a, b) }
func vAnd(c ...bool) bool {
	for _, x := range c {
		if !x {
			return false
		}
	}
	return true
}
func vOr(c ...bool) bool {
	for _, x := range c {
		if x {
			return true
		}
	}
	return false
}
func vImp(a, b bool) bool { return !a || b }
func vIte(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}
func vNotNative(what string)                     { panic(vDiscard{"not natively executable: " + what}) }
func vUFI(name string, a ...int) int             { vNotNative(name); return 0 }
func vUFN(name string, a ...int) int             { vNotNative(name); return 0 }
func vUFR(name string, lo, hi int, a ...int) int { vNotNative(name); return 0 }
func vUFU(name string, a ...int) uint64          { vNotNative(name); return 0 }
func vUFB(name string, a ...int) bool            { vNotNative(name); return false }
func vUFS(name string, a ...int) string          { vNotNative(name); return "" }
func vInjS(name string, id int) string           { return fmt.Sprint(name, id) }
func vSameArr[T any](a, b []T) bool              { vNotNative("vSameArr"); return false }
func vListIdx[T any](n int, v T) []T             { vNotNative("vListIdx"); return nil }
func vSameRef[T any](a, b T) bool                { vNotNative("vSameRef"); return false }
func vMark()                                     {}
func vFrame(on bool)                             {}
func vFresh(b []byte) bool                       { return true }
func vWithin(a, b []byte) bool                   { return true }
func vOff(b []byte) int                          { vNotNative("vOff"); return 0 }
func vSameBase(a, b []byte) bool                 { return true }
func vList[T any](n, k int, v T) []T             { vNotNative("vList"); return nil }
func vListUF[T any](n int, name string) []T      { vNotNative("vListUF"); return nil }
func vOnRecv(c interface{}, f interface{})       { vNotNative("vOnRecv") }
func vOnSend(c interface{}, f interface{})       { vNotNative("vOnSend") }
func vCanRecv(c interface{}, f interface{})      { vNotNative("vCanRecv") }
func vCanSend(c interface{}, f interface{})      { vNotNative("vCanSend") }
func vChanState(c interface{}) (int, bool)       { vNotNative("vChanState"); return 0, false }
func vSpawned() int                              { vNotNative("vSpawned"); return 0 }
func vRunSpawned(i int)                          { vNotNative("vRunSpawned") }
func vUnreachable(label string)                  { panic(vFailure{label, "unreachable point reached"}) }
func vStop()                                     { panic(vDiscard{"stop"}) }
func vSymbolic() bool                            { return false }
func vDump(a ...interface{})                     {}
func vMapGen[K comparable, V any](gen func(k K) (V, bool)) map[K]V {
	vNotNative("vMapGen")
	return nil
}

// vRng drives the searches: one trial per seed.
type vRng struct {
	*rand.Rand
	seed int64
}

func newRng(seed int64) *vRng { return &vRng{rand.New(rand.NewSource(seed)), seed} }

func (r *vRng) fail(label, f string, a ...interface{}) {
	panic(vFailure{label, fmt.Sprintf(f, a...)})
}
func (r *vRng) check(c bool, label, f string, a ...interface{}) {
	if !c {
		r.fail(label, f, a...)
	}
}
func (r *vRng) bytes(n int) []byte {
	b := make([]byte, n)
	r.Read(b)
	return b
}
func (r *vRng) bool() bool       { return r.Intn(2) == 0 }
func (r *vRng) oneIn(n int) bool { return r.Intn(n) == 0 }

// note records what the trial tried: distinct notes are counted.
func (r *vRng) note(f string, a ...interface{}) {
	s := fmt.Sprintf(f, a...)
	if len(vSeen) < 200000 {
		vSeen[s] = true
	}
	if len(vSamples) < 3 {
		if len(s) > 300 {
			s = s[:300] + "..."
		}
		vSamples = append(vSamples, s)
	}
}

var vSeen = map[string]bool{}
var vSamples []string
var vTrialStart atomic.Int64

// upto is a length or count, small most of the time.
func (r *vRng) upto(n int) int {
	if n <= 0 {
		return 0
	}
	switch r.Intn(4) {
	case 0:
		return r.Intn(n + 1)
	case 1:
		return r.Intn(min(n, 3) + 1)
	default:
		return r.Intn(min(n, 12) + 1)
	}
}

func vTrial(f func()) (res *vFailure, discard string) {
	defer func() {
		if x := recover(); x != nil {
			switch e := x.(type) {
			case vDiscard:
				discard = e.why
			case vFailure:
				res = &e
			default:
				res = &vFailure{"nopanic", fmt.Sprintf("panic: %v\n%s", x, debug.Stack())}
			}
		}
	}()
	vTrialStart.Store(time.Now().UnixNano())
	defer vTrialStart.Store(0)
	f()
	return nil, ""
}

func TestVerifNative(t *testing.T) {
	p := os.Getenv("VERIF_JOB")
	if p == "" {
		t.Skip("no job")
	}
	b, err := os.ReadFile(p)
	if err != nil {
		t.Fatal(err)
	}
	var job vJob
	if err := json.Unmarshal(b, &job); err != nil {
		t.Fatal(err)
	}
	out := vOut{Trials: map[string]int{}}
	write := func() {
		out.Distinct, out.Samples = len(vSeen), vSamples
		b, _ := json.MarshalIndent(out, "", "  ")
		os.WriteFile(job.Out, b, 0644)
	}
	defer write()
	// a trial that does not come back is a failure of its own
	go func() {
		for {
			time.Sleep(500 * time.Millisecond)
			if t := vTrialStart.Load(); t != 0 && time.Since(time.Unix(0, t)) > 60*time.Second {
				buf := make([]byte, 1<<20)
				buf = buf[:runtime.Stack(buf, true)]
				fmt.Printf("trial does not terminate\n%s\n", buf)
				os.Exit(3)
			}
		}
	}()
	switch job.Mode {
	case "replay":
		h, ok := vHarnesses[job.Harness]
		if !ok {
			out.Note = "no such harness"
			return
		}
		vCur.values = job.Values
		vCur.seen = map[string]int{}
		res, disc := vTrial(h)
		if res != nil {
			out.Fail = append(out.Fail, vCase{Label: res.label, Detail: res.detail})
		}
		out.Note = disc
	case "case":
		s, ok := vSearches[job.Search[0]]
		if !ok {
			out.Note = "no such search"
			return
		}
		for i := 0; i < max(job.Trials, 1); i++ {
			res, _ := vTrial(func() { s(newRng(job.Seed)) })
			out.Trials[job.Search[0]]++
			if res != nil {
				out.Fail = append(out.Fail, vCase{job.Search[0], job.Seed, res.label, res.detail})
				return
			}
		}
	case "search":
		var names []string
		for _, n := range job.Search {
			if _, ok := vSearches[n]; ok {
				names = append(names, n)
			}
		}
		if len(names) == 0 {
			out.Note = "no searches"
			return
		}
		end := time.Now().Add(time.Duration(job.MS) * time.Millisecond)
		for i := int64(0); time.Now().Before(end) && len(out.Fail) == 0; i++ {
			for _, n := range names {
				seed := job.Seed*1000003 + i
				var res *vFailure
				t0 := time.Now()
				for k := 0; k < 64 && res == nil && time.Since(t0) < 20*time.Millisecond; k++ {
					seed = (job.Seed*1000003+i)*64 + int64(k)
					// a crash of the whole process must name the trial
					os.WriteFile(job.Out+".trial", []byte(fmt.Sprintf("%s %d", n, seed)), 0644)
					res, _ = vTrial(func() { vSearches[n](newRng(seed)) })
					out.Trials[n]++
				}
				if res != nil {
					out.Fail = append(out.Fail, vCase{n, seed, res.label, res.detail})
					break
				}
			}
		}
	}
}

func vJSONAt(out []byte, path string) (json.RawMessage, bool) {
	cur := json.RawMessage(out)
	for _, k := range strings.Split(path, ".") {
		if k == "" {
			continue
		}
		var m map[string]json.RawMessage
		if json.Unmarshal(cur, &m) != nil {
			return nil, false
		}
		v, ok := m[k]
		if !ok {
			return nil, false
		}
		cur = v
	}
	return cur, json.Valid(cur)
}
func vJSONStr(out []byte, path string, want string) bool {
	x, ok := vJSONAt(out, path)
	var s *string
	return ok && json.Unmarshal(x, &s) == nil && s != nil && *s == strings.ToValidUTF8(want, "\ufffd")
}
func vJSONInt(out []byte, path string, want int64) bool {
	x, ok := vJSONAt(out, path)
	return ok && string(x) == strconv.FormatInt(want, 10)
}
func vJSONBool(out []byte, path string, want bool) bool {
	x, ok := vJSONAt(out, path)
	return ok && string(x) == strconv.FormatBool(want)
}
func vJSONNull(out []byte, path string) bool {
	x, ok := vJSONAt(out, path)
	return ok && string(x) == "null"
}
func vJSONList[T any](out []byte, path string, list []T) bool {
	x, ok := vJSONAt(out, path)
	if !ok || string(x) == "null" {
		return len(list) == 0
	}
	var l []json.RawMessage
	if json.Unmarshal(x, &l) != nil || len(l) != len(list) {
		return false
	}
	for i := range l {
		b, err := json.Marshal(list[i])
		if err != nil || !bytes.Equal(b, l[i]) {
			return false
		}
	}
	return true
}

func vListDef[T any](n int, f func(i int) T, fact func(i, j int) bool) []T {
	vNotNative("vListDef")
	return nil
}
func vListIs[T any](l []T, n int, f func(i int) T) bool {
	vNotNative("vListIs")
	return false
}
func vListSet[T any](l []T, f func(i int) T, fact func(i, j int) bool) { vNotNative("vListSet") }
func vTouch[T any](l []T, i int)                                       { vNotNative("vTouch") }
func vMapLen[K comparable, V any](m map[K]V, n int)                    { vNotNative("vMapLen") }
func vMapIs[K comparable, V any](m map[K]V, gen func(k K) (V, bool)) {
	vNotNative("vMapIs")
}
func vVisited(k interface{}) bool {
	vNotNative("vVisited")
	return false
}
