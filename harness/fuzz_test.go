package xdsverif

// Coverage-guided search: the generators of the parts, driven by the bytes of Go's native fuzzer instead of rapid's
// random numbers (check.py runs it on an instrumented binary). The oracle is the part's own; a failing case is saved as
// a replay file like any other.

import (
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"sync"
	"testing"
	"time"

	"pgregory.net/rapid"
)

var fShrink = flag.String("v.shrink", "", "shrink this failing input of the coverage-guided search")

var fFuzz = flag.Bool("v.fuzz", false, "coverage-guided search of the part")

type fuzzStats struct {
	Execs      int            `json:"execs"`
	Evaluated  int            `json:"evaluated"`
	Nontrivial int            `json:"nontrivial"`
	Classes    map[string]int `json:"classes"`
}

// fuzzWorker accumulates what one worker process did and writes it down from time to time (workers are killed).
type fuzzWorker struct {
	mu     sync.Mutex
	p      *part
	st     fuzzStats
	seen   map[uint64]struct{}
	fresh  []byte
	last   time.Time
	prefix string
}

func (w *fuzzWorker) flush() {
	if time.Since(w.last) < time.Second {
		return
	}
	w.last = time.Now()
	b, _ := json.Marshal(w.st)
	must(os.WriteFile(w.prefix+".tmp", b, 0o644))
	must(os.Rename(w.prefix+".tmp", w.prefix+".stats"))
	f, err := os.OpenFile(w.prefix+".hashes", os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0o644)
	must(err)
	_, err = f.Write(w.fresh)
	must(err)
	must(f.Close())
	w.fresh = w.fresh[:0]
}

func (w *fuzzWorker) saveFail(in, b []byte, msg string) {
	p := w.prefix + ".fail"
	if old, err := os.ReadFile(p); err == nil {
		var f failure
		if json.Unmarshal(old, &f) == nil && len(f.Case) <= len(b) {
			return
		}
	}
	must(os.WriteFile(w.prefix+".bytes", in, 0o644))
	j, _ := json.Marshal(failure{Part: w.p.name, Error: msg, Case: b})
	must(os.WriteFile(p+".tmp", j, 0o644))
	must(os.Rename(p+".tmp", p))
}

// padTail follows every input, so that a generator seldom runs out of bytes.
var padTail = func() []byte {
	b := make([]byte, 32<<10)
	rng := rand.New(rand.NewSource(7))
	for i := range b {
		b[i] = byte(rng.Intn(256))
	}
	return b
}()

func padded(in []byte) []byte {
	out := make([]byte, 0, (len(in)+7)/8*8+len(padTail))
	out = append(out, in...)
	for len(out)%8 != 0 {
		out = append(out, 0)
	}
	return append(out, padTail...)
}

// shrinkBytes looks for a smaller input of the fuzzer with which the part still fails: words are removed and lowered.
// It leaves the smallest failing case in out.
func shrinkBytes(t *testing.T, in []byte, out *shardOut, until time.Time) {
	p := findPart(*fProp, *fPart)
	var best []byte
	try := func(b []byte) (failed bool) {
		if time.Now().After(until) {
			return false
		}
		cur := t
		one := rapid.MakeFuzz(func(rt *rapid.T) {
			c := p.gen(rt)
			cb := canon(c)
			dc, err := p.decode(cb)
			must(err)
			res := journalled(cur, p, cb, dc)
			if res.err == nil {
				return
			}
			if _, ok := res.err.(harnessErr); ok {
				return
			}
			failed = true
			if best == nil || len(cb) <= len(best) {
				best = cb
				out.Fail = &failure{Part: p.name, Error: res.err.Error(), Case: cb}
			}
		})
		t.Run("shrink", func(t *testing.T) { cur = t; one(t, b) }) // inputs the generator cannot use end the subtest
		out.Evaluations[p.name]++
		return failed
	}
	if !try(in) {
		return
	}
	for again := true; again && time.Now().Before(until); {
		again = false
		for n := len(in) / 8 / 2; n >= 1; n /= 2 {
			for i := 0; i+8*n <= len(in) && time.Now().Before(until); {
				b := append(append([]byte(nil), in[:i]...), in[i+8*n:]...)
				if try(b) {
					in, again = b, true
				} else {
					i += 8 * n
				}
			}
		}
		for i := 0; i+8 <= len(in) && time.Now().Before(until); i += 8 {
			v := binary.LittleEndian.Uint64(in[i:])
			for _, nv := range []uint64{0, v >> 32, v >> 8, v >> 1, v - 1} {
				if nv >= v {
					continue
				}
				b := append([]byte(nil), in...)
				binary.LittleEndian.PutUint64(b[i:], nv)
				if try(b) {
					in, again = b, true
					break
				}
			}
		}
	}
}

func findPart(prop, name string) *part {
	for _, q := range parts {
		if q.prop == prop && q.name == name {
			return q
		}
	}
	return nil
}

func FuzzVerif(f *testing.F) {
	if !*fFuzz {
		f.Skip("use check.py")
	}
	installDispatcher()
	p := findPart(*fProp, *fPart)
	if p == nil {
		f.Fatal("no such part")
	}
	w := &fuzzWorker{p: p, seen: map[uint64]struct{}{}, prefix: fmt.Sprintf("%s.fuzz%d", *fOut, os.Getpid())}
	w.st.Classes = map[string]int{}
	rng := rand.New(rand.NewSource(int64(*fSeed)))
	for i := 0; i < 48; i++ {
		b := make([]byte, 256<<(i%5))
		for j := range b {
			b[j] = byte(rng.Intn(256))
			if i%3 == 0 && j%8 < 7 { // small numbers
				b[j] = 0
			}
		}
		f.Add(b)
	}
	f.Fuzz(func(t *testing.T, in []byte) {
		w.mu.Lock()
		defer w.mu.Unlock()
		w.st.Execs++
		in = padded(in)
		rapid.MakeFuzz(func(rt *rapid.T) {
			c := p.gen(rt)
			b := canon(c)
			dc, err := p.decode(b)
			must(err)
			w.st.Evaluated++
			j, _ := json.Marshal(failure{Part: p.name, Case: b})
			must(os.WriteFile(w.prefix+".journal", j, 0o644))
			res := execCase(t, p, dc)
			for k := range res.cx.classes {
				w.st.Classes[k]++
			}
			if res.cx.nt {
				w.st.Nontrivial++
				h := fnv.New64a()
				h.Write([]byte(p.name))
				h.Write(b)
				if k := h.Sum64(); len(w.seen) < 1<<20 {
					if _, ok := w.seen[k]; !ok {
						w.seen[k] = struct{}{}
						w.fresh = binary.LittleEndian.AppendUint64(w.fresh, k)
					}
				}
			}
			w.flush()
			if res.err != nil {
				if _, ok := res.err.(harnessErr); ok {
					must(os.WriteFile(w.prefix+".harness", []byte(res.err.Error()+"\ncase: "+string(b)), 0o644))
					return
				}
				w.saveFail(in, b, res.err.Error())
				rt.Fatalf("violation: %v", res.err)
			}
		})(t, in)
	})
}
