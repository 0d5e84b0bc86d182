package xdsverif

// Framework: properties are pairs (Gen, Run); see /verif/DESIGN.md.

import (
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"io"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	"github.com/cloudwego/kitex/pkg/klog"
	"pgregory.net/rapid"
)

// part is one generated check of a property; a property may have several.
type part struct {
	prop, name string
	rule       string
	quick      int // cases over all shards, quick tier
	thorough   int
	bubble     bool // run inside a synctest bubble
	raceOnly   bool // only in the -race binary
	noRace     bool
	gen        func(*rapid.T) any
	decode     func([]byte) (any, error)
	run        func(*Ctx, any) error
}

var parts []*part

type spec[C any] struct {
	Prop, Name, Rule string
	Quick, Thorough  int
	NoBubble         bool
	RaceOnly, NoRace bool
	Gen              func(*rapid.T) C
	Run              func(*Ctx, C) error
}

func register[C any](s spec[C]) {
	parts = append(parts, &part{
		prop: s.Prop, name: s.Name, rule: s.Rule, quick: s.Quick, thorough: s.Thorough, bubble: !s.NoBubble,
		raceOnly: s.RaceOnly, noRace: s.NoRace,
		gen: func(t *rapid.T) any { return s.Gen(t) },
		decode: func(b []byte) (any, error) {
			var c C
			err := json.Unmarshal(b, &c)
			return c, err
		},
		run: func(cx *Ctx, c any) error { return s.Run(cx, c.(C)) },
	})
}

// Ctx is the context of one executed case.
type Ctx struct {
	t       *testing.T
	mu      sync.Mutex
	classes map[string]int
	nt      bool
	cleanup []func()
	goErr   error
}

// Class counts the case (once per call) under a label.
func (c *Ctx) Class(l string) {
	c.mu.Lock()
	c.classes[l]++
	c.mu.Unlock()
}

func (c *Ctx) ClassIf(b bool, l string) {
	if b {
		c.Class(l)
	}
}

// NT marks the case non-trivial by the part's rule.
func (c *Ctx) NT() { c.mu.Lock(); c.nt = true; c.mu.Unlock() }
func (c *Ctx) NTIf(b bool) {
	if b {
		c.NT()
	}
}
func (c *Ctx) Defer(f func()) { c.cleanup = append(c.cleanup, f) }

// Go runs f in a goroutine; a panic that originates in the code under test becomes the case's violation.
func (c *Ctx) Go(f func()) {
	go func() {
		defer func() {
			if r := recover(); r != nil {
				err := panicError(r, debug.Stack())
				c.mu.Lock()
				if c.goErr == nil {
					c.goErr = err
				}
				c.mu.Unlock()
			}
		}()
		f()
	}()
}

// harnessErr is an error of the harness itself: the run is inconclusive.
type harnessErr struct{ msg string }

func (h harnessErr) Error() string { return "harness: " + h.msg }

func must1[T any](v T, err error) T {
	must(err)
	return v
}

func must(err error) {
	if err != nil {
		panic(harnessErr{err.Error()})
	}
}

// panicError classifies a recovered panic: a violation when code under test is on the stack between the panic and
// the harness.
func panicError(r any, stack []byte) error {
	if h, ok := r.(harnessErr); ok {
		return h
	}
	if s, ok := r.(stuck); ok {
		return s
	}
	if stackBlamesXDS(string(stack)) {
		return fmt.Errorf("panic in the code under test: %v\n%s", r, trimStack(string(stack)))
	}
	return harnessErr{fmt.Sprintf("panic: %v\n%s", r, stack)}
}

func stackBlamesXDS(st string) bool {
	lines := strings.Split(st, "\n")
	seenPanic := false
	for _, l := range lines {
		if strings.HasPrefix(l, "panic(") || strings.HasPrefix(l, "runtime.gopanic") || strings.HasPrefix(l, "runtime.panic") || strings.HasPrefix(l, "runtime.sigpanic") {
			seenPanic = true
			continue
		}
		if !seenPanic || strings.HasPrefix(l, "\t") {
			continue
		}
		if strings.HasPrefix(l, "github.com/kitex-contrib/xds") {
			return true
		}
		if strings.HasPrefix(l, "xdsverif.") || strings.HasPrefix(l, "goroutine ") {
			return false
		}
	}
	return false
}

func trimStack(s string) string {
	if len(s) > 3500 {
		return s[:3500] + "..."
	}
	return s
}

type failure struct {
	Part  string          `json:"part"`
	Error string          `json:"error"`
	Case  json.RawMessage `json:"case"`
}

type shardOut struct {
	Prop        string         `json:"prop"`
	Evaluations map[string]int `json:"evaluations"`
	Nontrivial  map[string]int `json:"nontrivial"`
	Classes     map[string]int `json:"classes"`
	Samples     []sample       `json:"samples"`
	Rules       []string       `json:"rules"`
	Fail        *failure       `json:"fail,omitempty"`
	Harness     string         `json:"harness,omitempty"`
	TimedOut    bool           `json:"timed_out"`
}

type sample struct {
	Part string          `json:"part"`
	Case json.RawMessage `json:"case"`
}

var (
	fProp   = flag.String("v.prop", "", "property")
	fTier   = flag.String("v.tier", "quick", "tier")
	fSeed   = flag.Uint64("v.seed", 1, "seed")
	fShard  = flag.Int("v.shard", 0, "shard")
	fShards = flag.Int("v.shards", 1, "shards")
	fOut    = flag.String("v.out", "", "output prefix")
	fReplay = flag.String("v.replay", "", "replay file")
	fBudget = flag.Duration("v.budget", 10*time.Minute, "soft wall budget of the shard")
	fScale  = flag.Float64("v.scale", 1, "case count multiplier")
	fPart   = flag.String("v.part", "", "only this part")
	fRace   = flag.Bool("v.race", false, "this is the race binary")
	fHang   = flag.Duration("v.hang", 40*time.Second, "watchdog period")
	fHelper = flag.String("v.helper", "", "run a re-executed helper")
)

// fakeTB lets rapid run outside the testing package.
type fakeTB struct {
	failed bool
	log    strings.Builder
}

func (f *fakeTB) Helper()                   {}
func (f *fakeTB) Name() string              { return "verif" }
func (f *fakeTB) Logf(s string, a ...any)   { fmt.Fprintf(&f.log, s+"\n", a...) }
func (f *fakeTB) Log(a ...any)              { fmt.Fprintln(&f.log, a...) }
func (f *fakeTB) Skipf(string, ...any)      { runtime.Goexit() }
func (f *fakeTB) Skip(...any)               { runtime.Goexit() }
func (f *fakeTB) SkipNow()                  { runtime.Goexit() }
func (f *fakeTB) Errorf(s string, a ...any) { f.failed = true; f.Logf(s, a...) }
func (f *fakeTB) Error(a ...any)            { f.failed = true; f.Log(a...) }
func (f *fakeTB) Fatalf(s string, a ...any) { f.Errorf(s, a...); runtime.Goexit() }
func (f *fakeTB) Fatal(a ...any)            { f.Error(a...); runtime.Goexit() }
func (f *fakeTB) FailNow()                  { f.failed = true; runtime.Goexit() }
func (f *fakeTB) Fail()                     { f.failed = true }
func (f *fakeTB) Failed() bool              { return f.failed }

// watchdog state
var (
	caseStart atomic.Int64 // unix nano of the running case, 0 when idle
	curMu     sync.Mutex
	curPart   string
	curCase   []byte
)

type caseResult struct {
	err error
	cx  *Ctx
}

// execCase runs one case of a part.
func execCase(t *testing.T, p *part, c any) (res caseResult) {
	cx := &Ctx{classes: map[string]int{}}
	res.cx = cx
	body := func(t *testing.T) {
		cx.t = t
		defer func() {
			if r := recover(); r != nil {
				res.err = panicError(r, debug.Stack())
			}
			for i := len(cx.cleanup) - 1; i >= 0; i-- {
				func() {
					defer func() {
						if r := recover(); r != nil && res.err == nil {
							res.err = panicError(r, debug.Stack())
						}
					}()
					cx.cleanup[i]()
				}()
			}
			cx.mu.Lock()
			ge := cx.goErr
			cx.mu.Unlock()
			if res.err == nil && ge != nil {
				res.err = ge
			} else if ge != nil {
				if _, ok := res.err.(harnessErr); ok {
					res.err = ge
				}
			}
		}()
		res.err = p.run(cx, c)
	}
	if !p.bubble {
		body(t)
		return res
	}
	defer func() {
		if r := recover(); r != nil {
			s := fmt.Sprint(r)
			if strings.Contains(s, "deadlock") {
				if res.err == nil {
					res.err = fmt.Errorf("goroutines never terminate or are dead-locked: %s\n%s", s, xdsStacks(true))
				}
				return
			}
			if res.err == nil {
				res.err = panicError(r, debug.Stack())
			}
		}
	}()
	synctest.Test(t, body)
	return res
}

// xdsStacks returns the stacks of goroutines running code under test.
func xdsStacks(all bool) string {
	buf := make([]byte, 4<<20)
	buf = buf[:runtime.Stack(buf, all)]
	var out []string
	for _, g := range strings.Split(string(buf), "\n\n") {
		if strings.Contains(g, "kitex-contrib/xds/") {
			out = append(out, g)
		}
	}
	s := strings.Join(out, "\n\n")
	if len(s) > 6000 {
		s = s[:6000] + "..."
	}
	return s
}

func canon(c any) []byte {
	b, err := json.Marshal(c)
	must(err)
	return b
}

func TestMain(m *testing.M) {
	flag.Parse()
	klog.SetOutput(io.Discard)
	klog.SetLevel(klog.LevelFatal)
	if *fHelper != "" {
		os.Exit(runHelper(*fHelper))
	}
	os.Exit(m.Run())
}

func TestVerif(t *testing.T) {
	if *fProp == "" {
		t.Skip("use check.py")
	}
	installDispatcher()
	out := &shardOut{Prop: *fProp, Evaluations: map[string]int{}, Nontrivial: map[string]int{}, Classes: map[string]int{}}
	go watchdog(out)
	if *fReplay != "" {
		replay(t, out)
		writeOut(out, nil)
		return
	}
	if *fShrink != "" {
		in, err := os.ReadFile(*fShrink)
		must(err)
		shrinkBytes(t, in, out, time.Now().Add(15*time.Second))
		writeOut(out, nil)
		return
	}
	deadline := time.Now().Add(*fBudget)
	hashes := map[uint64]struct{}{}
	for _, p := range parts {
		if p.prop != *fProp || (*fPart != "" && p.name != *fPart) || p.raceOnly && !*fRace || p.noRace && *fRace {
			continue
		}
		out.Rules = append(out.Rules, p.name+": "+p.rule)
		n := p.quick
		if *fTier == "thorough" {
			n = p.thorough
		}
		n = int(float64(n) * *fScale)
		n = (n + *fShards - 1) / *fShards
		runPart(t, p, n, deadline, out, hashes)
		if out.Fail != nil || out.Harness != "" {
			break
		}
	}
	writeOut(out, hashes)
}

func runPart(t *testing.T, p *part, n int, deadline time.Time, out *shardOut, hashes map[uint64]struct{}) {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d/%s/%s/%d/%v", *fSeed, p.prop, p.name, *fShard, *fRace)
	seed := h.Sum64() | 1
	_ = flag.Set("rapid.seed", strconv.FormatUint(seed, 10))
	_ = flag.Set("rapid.checks", strconv.Itoa(n))
	_ = flag.Set("rapid.nofailfile", "true")
	shrink := 12 * time.Second
	_ = flag.Set("rapid.shrinktime", shrink.String())
	samples := 0
	failed := false
	var shrinkEnd time.Time
	prop := func(rt *rapid.T) {
		c := p.gen(rt)
		if time.Now().After(deadline) {
			out.TimedOut = true
			return
		}
		if failed && time.Now().After(shrinkEnd) {
			// stop shrinking: pretend the remaining candidates pass, except the best one found
			if out.Fail != nil && string(canon(c)) != string(out.Fail.Case) {
				return
			}
		}
		b := canon(c)
		// execute what the replay file would hold, so that a replay is the same case
		dc, err := p.decode(b)
		if err != nil {
			out.Harness = "decode: " + err.Error()
			rt.Fatalf("decode")
		}
		res := journalled(t, p, b, dc)
		if !failed {
			out.Evaluations[p.name]++
			for k, v := range res.cx.classes {
				out.Classes[p.name+"/"+k] += v
			}
			if res.cx.nt {
				hh := fnv.New64a()
				hh.Write([]byte(p.name))
				hh.Write(b)
				hashes[hh.Sum64()] = struct{}{}
				out.Nontrivial[p.name]++
				if samples < 2 && len(b) < 6000 && (out.Evaluations[p.name] > n/3 || samples == 0) {
					samples++
					out.Samples = append(out.Samples, sample{p.name, b})
				}
			}
		}
		if res.err != nil {
			if _, ok := res.err.(harnessErr); ok {
				if out.Harness == "" {
					out.Harness = res.err.Error() + "\ncase: " + string(b)
				}
				if failed {
					return // ignore while shrinking a real failure
				}
				rt.Fatalf("harness")
			}
			if !failed {
				failed = true
				shrinkEnd = time.Now().Add(shrink)
			}
			out.Fail = &failure{Part: p.name, Error: res.err.Error(), Case: b}
			rt.Fatalf("violation")
		}
	}
	tb := &fakeTB{}
	done := make(chan struct{})
	go func() {
		defer close(done)
		defer func() {
			if r := recover(); r != nil {
				out.Harness = fmt.Sprintf("rapid: %v\n%s", r, debug.Stack())
			}
		}()
		rapid.Check(tb, prop)
	}()
	<-done
	if out.Fail != nil {
		out.Harness = ""
		return
	}
	if tb.failed && out.Harness == "" && !out.TimedOut {
		out.Harness = "rapid: " + tb.log.String()
	}
}

func journalled(t *testing.T, p *part, b []byte, c any) caseResult {
	curMu.Lock()
	curPart, curCase = p.name, b
	curMu.Unlock()
	if *fOut != "" {
		j, _ := json.Marshal(failure{Part: p.name, Case: b})
		must(os.WriteFile(*fOut+".journal", j, 0o644))
	}
	caseStart.Store(time.Now().UnixNano())
	defer caseStart.Store(0)
	return execCase(t, p, c)
}

func writeOut(out *shardOut, hashes map[uint64]struct{}) {
	if *fOut == "" {
		b, _ := json.MarshalIndent(out, "", " ")
		fmt.Println(string(b))
		return
	}
	hs := make([]uint64, 0, len(hashes))
	for h := range hashes {
		hs = append(hs, h)
	}
	sort.Slice(hs, func(i, j int) bool { return hs[i] < hs[j] })
	hb := make([]byte, 8*len(hs))
	for i, h := range hs {
		binary.LittleEndian.PutUint64(hb[8*i:], h)
	}
	must(os.WriteFile(*fOut+".hashes", hb, 0o644))
	b, err := json.Marshal(out)
	must(err)
	must(os.WriteFile(*fOut+".tmp", b, 0o644))
	must(os.Rename(*fOut+".tmp", *fOut+".json"))
	os.Remove(*fOut + ".journal")
}

func replay(t *testing.T, out *shardOut) {
	b, err := os.ReadFile(*fReplay)
	must(err)
	var f failure
	must(json.Unmarshal(b, &f))
	for _, p := range parts {
		if p.prop == *fProp && p.name == f.Part {
			c, err := p.decode(f.Case)
			must(err)
			res := journalled(t, p, f.Case, c)
			out.Evaluations[p.name] = 1
			if res.err != nil {
				if _, ok := res.err.(harnessErr); ok {
					out.Harness = res.err.Error()
				} else {
					out.Fail = &failure{Part: p.name, Error: res.err.Error(), Case: f.Case}
				}
			}
			return
		}
	}
	out.Harness = "no part " + f.Part + " of " + *fProp
}

// watchdog runs in real time outside every bubble. A case that runs for longer than the period is examined in several
// dumps: it is a violation if the code under test is dead-locked (the same goroutines parked, at least one on a lock,
// none runnable) or spins (the same goroutines of the code under test running, all others parked and unchanged);
// otherwise the shard is inconclusive.
func watchdog(out *shardOut) {
	for {
		time.Sleep(time.Second)
		st := caseStart.Load()
		if st == 0 || time.Since(time.Unix(0, st)) < *fHang {
			continue
		}
		var first, d bubbleDump
		same := true
		for i := 0; i < 6 && caseStart.Load() == st; i++ {
			if d = dumpBubble(); i == 0 {
				first = d
			}
			same = same && d.parked == first.parked && d.spinning == first.spinning && !d.other
			time.Sleep(2 * time.Second)
		}
		if caseStart.Load() != st {
			continue
		}
		curMu.Lock()
		f := failure{Part: curPart, Case: curCase}
		curMu.Unlock()
		o := shardOut{Prop: *fProp, Evaluations: map[string]int{}, Nontrivial: map[string]int{}, Classes: map[string]int{}}
		switch {
		case same && d.spinning == "" && d.locked:
			f.Error = "dead-lock in the code under test (identical parked goroutines in six dumps):\n" + d.text
			o.Fail = &f
		case same && d.spinning != "":
			f.Error = "the code under test spins (running in six dumps, everything else parked):\n" + d.text
			o.Fail = &f
		default:
			o.Harness = "case did not finish within the watchdog period\n" + d.text + "\ncase: " + string(f.Case)
		}
		writeOut(&o, nil)
		os.Exit(3)
	}
}

// bubbleDump describes the goroutines of the bubble and of the code under test.
type bubbleDump struct {
	parked   string // those parked, with their stacks
	spinning string // those running code under test
	other    bool   // something else is running
	locked   bool   // code under test waits for a lock
	text     string
}

func dumpBubble() (d bubbleDump) {
	buf := make([]byte, 16<<20)
	buf = buf[:runtime.Stack(buf, true)]
	var parked, spinning []string
	for _, g := range strings.Split(string(buf), "\n\n") {
		hdr, rest, _ := strings.Cut(g, "\n")
		if strings.Contains(rest, "xdsverif.dumpBubble") {
			continue
		}
		xds := strings.Contains(rest, "kitex-contrib/xds/")
		if !xds && !strings.Contains(hdr, "synctest bubble") {
			continue
		}
		id := hdr[:strings.IndexAny(hdr+"[", "[")]
		if strings.Contains(hdr, "[running") || strings.Contains(hdr, "[runnable") || strings.Contains(hdr, "[syscall") {
			if xds && (innermostXDS(rest) || strings.Contains(rest, "created by github.com/kitex-contrib/xds")) {
				spinning = append(spinning, id)
			} else {
				d.other = true
			}
		} else {
			parked = append(parked, id+"\n"+rest)
		}
		if xds {
			d.locked = d.locked || strings.Contains(hdr, "Mutex") || strings.Contains(hdr, "semacquire")
			d.text += g + "\n\n"
		}
	}
	sort.Strings(parked)
	sort.Strings(spinning)
	if len(d.text) > 8000 {
		d.text = d.text[:8000] + "..."
	}
	d.parked, d.spinning = strings.Join(parked, "\n"), strings.Join(spinning, "\n")
	return d
}

// innermostXDS reports whether code under test is deeper in the stack than the harness.
func innermostXDS(st string) bool {
	for _, l := range strings.Split(st, "\n") {
		if strings.HasPrefix(l, "github.com/kitex-contrib/xds") {
			return true
		}
		if strings.HasPrefix(l, "xdsverif.") {
			return false
		}
	}
	return false
}

func tmpDir() string {
	if *fOut != "" {
		return filepath.Dir(*fOut)
	}
	return os.TempDir()
}
