package xdsverif

// Concurrency (C07). A master handler per type tells which states the cache went through; every lookup and every
// registration replay of a concurrent history has to be explained by one sequential order of these states that respects
// real time. The same mixes run free of virtual time, also under the race detector.

import (
	"context"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"slices"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"testing/synctest"
	"time"

	"github.com/cloudwego/kitex/pkg/limit"
	"github.com/cloudwego/kitex/pkg/rpcinfo"
	"google.golang.org/protobuf/types/known/anypb"
	"pgregory.net/rapid"

	"github.com/kitex-contrib/xds/core/xdsresource"
	"github.com/kitex-contrib/xds/xdssuite"
)

// ---- recording ----

type linEvent struct {
	seq   int64
	at    time.Time
	state map[string]int
	fresh map[string]int // names whose value this event changed
}

type linObs struct {
	s0, s1  int64
	t0, end time.Time
	n       string
	val     int // -1: error
	all     map[string]int
	what    string
}

type nv struct {
	n string
	v int
}

type linHandler struct {
	mu   sync.Mutex
	t    rtype
	reg  int64 // after the registration returned
	name string
	done map[nv]int64
	last map[string]int // what the handler was told last (name -> value; all of it for types sent in full)
}

type linRec struct {
	seq      atomic.Int64
	virtual  bool
	start    time.Time
	mu       sync.Mutex
	events   map[rtype][]linEvent
	obs      map[rtype][]linObs
	handlers []*linHandler
	bad      error
	probe    chan rtype
	spin     int
	m        xmgr
}

func newLinRec(m xmgr, virtual bool, spin int) *linRec {
	return &linRec{virtual: virtual, start: time.Now(), events: map[rtype][]linEvent{}, obs: map[rtype][]linObs{}, probe: make(chan rtype, 8), spin: spin, m: m}
}

func (r *linRec) stamps(t rtype, res map[string]xdsresource.Resource) map[string]int {
	m := map[string]int{}
	for n, v := range res {
		s, err := readStamp(t, v)
		if err != nil {
			r.fail(fmt.Errorf("handler of %s got %q: %v", xdsresource.ResourceTypeToName[t], n, err))
			s = -2
		}
		m[n] = s
	}
	return m
}

func (r *linRec) fail(err error) {
	r.mu.Lock()
	if r.bad == nil {
		r.bad = err
	}
	r.mu.Unlock()
}

// master registers the recording handlers.
func (r *linRec) master() {
	for _, t := range dataTypes {
		r.m.RegisterXDSUpdateHandler(t, func(res map[string]xdsresource.Resource) {
			q := r.seq.Add(1)
			m := r.stamps(t, res)
			r.mu.Lock()
			defer r.mu.Unlock()
			e := linEvent{seq: q, at: time.Now(), state: m, fresh: map[string]int{}}
			var prev map[string]int
			if es := r.events[t]; len(es) > 0 {
				prev = es[len(es)-1].state
			}
			for n, v := range m {
				if p, ok := prev[n]; !ok || p != v {
					e.fresh[n] = v
				}
			}
			if !t.RequireFullADSResponse() {
				for n, v := range prev {
					if _, ok := m[n]; !ok {
						m[n] = v
					}
				}
			}
			r.events[t] = append(r.events[t], e)
		})
	}
}

// register adds a slow handler and observes its replay.
func (r *linRec) register(t rtype, slow bool) {
	h := &linHandler{t: t, done: map[nv]int64{}, last: map[string]int{}}
	var replay map[string]int
	registering := true
	var inReg sync.Mutex
	s0, t0 := r.seq.Add(1), time.Now()
	r.m.RegisterXDSUpdateHandler(t, func(res map[string]xdsresource.Resource) {
		inReg.Lock()
		first := registering && replay == nil
		inReg.Unlock()
		m := r.stamps(t, res)
		if first {
			inReg.Lock()
			replay = m
			inReg.Unlock()
		}
		if first && slow && !r.virtual {
			time.Sleep(time.Millisecond) // an update may arrive while the replay is digested
		}
		if slow {
			for i := 0; i < r.spin; i++ {
				if i == 0 {
					select {
					case r.probe <- t:
					default:
					}
				}
				runtime.Gosched()
			}
		}
		q := r.seq.Add(1)
		h.mu.Lock()
		if t.RequireFullADSResponse() {
			h.last = map[string]int{}
		}
		for n, v := range m {
			h.last[n] = v
		}
		for n, v := range m {
			if _, ok := h.done[nv{n, v}]; !ok {
				h.done[nv{n, v}] = q
			}
		}
		h.mu.Unlock()
	})
	inReg.Lock()
	registering = false
	got := replay
	inReg.Unlock()
	h.reg = r.seq.Add(1)
	o := linObs{s0: s0, s1: h.reg, t0: t0, end: time.Now(), all: got, what: "registration replay"}
	r.mu.Lock()
	h.name = fmt.Sprintf("handler %d of %s", len(r.handlers), xdsresource.ResourceTypeToName[t])
	r.handlers = append(r.handlers, h)
	if got != nil {
		r.obs[t] = append(r.obs[t], o)
	}
	r.mu.Unlock()
}

// converged: once nothing is going on any more, every handler was told the current state last.
func (r *linRec) converged() error {
	try := func() error {
		r.mu.Lock()
		defer r.mu.Unlock()
		for _, h := range r.handlers {
			es := r.events[h.t]
			if len(es) == 0 || r.virtual && time.Since(r.start) >= 30*time.Second {
				continue
			}
			st := es[len(es)-1].state
			h.mu.Lock()
			last := h.last
			err := error(nil)
			for n, v := range st {
				if w, ok := last[n]; !ok || w != v {
					err = fmt.Errorf("%s was last told %v, the cache holds %v", h.name, last, st)
				}
			}
			if len(last) != len(st) && err == nil {
				err = fmt.Errorf("%s was last told %v, the cache holds %v", h.name, last, st)
			}
			h.mu.Unlock()
			if err != nil {
				return err
			}
		}
		return nil
	}
	if r.virtual {
		return try()
	}
	var err error
	for end := time.Now().Add(3 * time.Second); ; {
		if err = try(); err == nil || time.Now().After(end) {
			return err
		}
		time.Sleep(20 * time.Millisecond)
	}
}

func (r *linRec) get(ctx context.Context, t rtype, n, what string) {
	o := linObs{n: n, what: what, t0: time.Now(), s0: r.seq.Add(1)}
	v, err := r.m.Get(ctx, t, n)
	o.s1, o.end = r.seq.Add(1), time.Now()
	if err != nil {
		o.val = -1
	} else if s, e := readStamp(t, v); e != nil {
		r.fail(fmt.Errorf("%s of %s %q: %v", what, xdsresource.ResourceTypeToName[t], n, e))
		return
	} else {
		o.val = s
	}
	r.mu.Lock()
	r.obs[t] = append(r.obs[t], o)
	r.mu.Unlock()
}

var cancelledCtx = func() context.Context {
	ctx, cancel := context.WithCancel(context.Background())
	cancel()
	return ctx
}()

// probers read the cache while handlers run; stop ends them.
func (r *linRec) probers(cx *Ctx, n int, names []string) (stop func()) {
	var wg sync.WaitGroup
	ch := r.probe
	quit := make(chan struct{})
	for i := 0; i < n; i++ {
		wg.Add(1)
		cx.Go(func() {
			defer wg.Done()
			for {
				select {
				case <-quit:
					return
				case t := <-ch:
					for _, n := range names {
						r.get(context.WithValue(cancelledCtx, yieldKey{}, func(string) {}), t, n, "cached lookup during an update")
					}
				}
			}
		})
	}
	return func() { close(quit); wg.Wait() }
}

// ---- the decision ----

func (r *linRec) check(cx *Ctx) error {
	r.mu.Lock()
	defer r.mu.Unlock()
	if r.bad != nil {
		return r.bad
	}
	values, errs := 0, 0
	for _, t := range dataTypes {
		tn := xdsresource.ResourceTypeToName[t]
		es := r.events[t]
		obs := slices.Clone(r.obs[t])
		sort.Slice(obs, func(i, j int) bool { return obs[i].s1 < obs[j].s1 })
		state := func(k int) map[string]int {
			if k == 0 {
				return nil
			}
			return es[k-1].state
		}
		var ends []int64 // s1 of the processed ones
		var best []int   // largest position among the first i
		for _, o := range obs {
			// lo events were certainly in force when the operation began, hi may have been when it ended
			lo := sort.Search(len(es), func(k int) bool { return es[k].seq > o.s0 }) - 1
			if lo < 0 {
				lo = 0
			}
			if r.virtual {
				if n := sort.Search(len(es), func(k int) bool { return !es[k].at.Before(o.t0) }); n > lo {
					lo = n
				}
			}
			hi := sort.Search(len(es), func(k int) bool { return es[k].seq > o.s1 })
			i := sort.Search(len(ends), func(k int) bool { return ends[k] >= o.s0 })
			pos, seen := lo, lo
			if i > 0 && best[i-1] > pos {
				pos = best[i-1]
				seen = pos
			}
			evictable := r.virtual && o.end.Sub(r.start) >= 30*time.Second
			ok := func(k int) bool {
				st := state(k)
				if o.what == "registration replay" {
					for n, v := range o.all {
						if w, have := st[n]; !have || w != v {
							return false
						}
					}
					return evictable || len(o.all) == len(st)
				}
				v, have := st[o.n]
				if o.val < 0 {
					return !have || evictable
				}
				return have && v == o.val
			}
			for pos <= hi && !ok(pos) {
				pos++
			}
			if pos > hi {
				var hist []string
				for k := max(0, lo-2); k <= min(len(es), hi+2); k++ {
					hist = append(hist, fmt.Sprintf("%d:%v", k, state(k)))
				}
				got := fmt.Sprintf("stamp %d", o.val)
				if o.val < 0 {
					got = "an error"
				}
				if o.all != nil {
					got = fmt.Sprintf("%v", o.all)
				}
				return fmt.Errorf("%s %s %q (at %v to %v) returned %s: not explained by any state it may have seen; states certain before it up to %d, observed by operations that ended before it up to %d, begun before it ended up to %d; states: %s",
					tn, o.what, o.n, o.t0.Sub(r.start), o.end.Sub(r.start), got, lo, seen, hi, strings.Join(hist, " "))
			}
			b := pos
			if len(best) > 0 && best[len(best)-1] > b {
				b = best[len(best)-1]
			}
			ends, best = append(ends, o.s1), append(best, b)
			if o.what == "registration replay" {
				cx.ClassIf(len(o.all) > 0, "registration with a replay")
				continue
			}
			if o.val < 0 {
				errs++
				continue
			}
			values++
			cx.ClassIf(hi > lo, "value returned around an update")
			cx.NTIf(hi > lo)
			// every handler registered before the delivering update completed before the value was exposed
			first := int64(-1)
			for _, e := range es {
				if v, ok := e.fresh[o.n]; ok && v == o.val {
					first = e.seq
					break
				}
			}
			for _, h := range r.handlers {
				if h.t != t || h.reg > first {
					continue
				}
				h.mu.Lock()
				q, done := h.done[nv{o.n, o.val}]
				h.mu.Unlock()
				if !done || q > o.s1 {
					return fmt.Errorf("%s %s of %q returned stamp %d before %s had completed for the update that delivered it", tn, o.what, o.n, o.val, h.name)
				}
				cx.Class("value checked against a registered handler")
			}
		}
	}
	cx.ClassIf(values > 0, "with values")
	cx.ClassIf(errs > 0, "with errors")
	return nil
}

// ---- part lin: virtual time ----

type linCase struct {
	TimeoutMS int         `json:"timeout_ms"`
	NDS       bool        `json:"nds"`
	Spin      int         `json:"spin"`
	Procs     [][]linStep `json:"procs"`
	CP        []schedCP   `json:"cp"`
	ApplyMS   []int       `json:"apply_ms,omitempty"`
}

type linStep struct {
	Wait   int    `json:"wait"`
	K      string `json:"k"` // look, hammer, reg, dump, suite
	T      rtype  `json:"t,omitempty"`
	N      string `json:"n,omitempty"`
	C      int    `json:"c,omitempty"` // repetitions
	Cancel int    `json:"cancel,omitempty"`
	Miss   int    `json:"miss,omitempty"`
	WaitD  int    `json:"waitd,omitempty"`
	Woken  int    `json:"woken,omitempty"`
	Exp    int    `json:"exp,omitempty"`
	Slow   bool   `json:"slow,omitempty"`
}

var linTable = map[string][]string{"a": {"10.0.0.1"}, "b": {"10.0.0.2"}}
var linWire = map[string]string{"a": "10.0.0.1_80", "b": "10.0.0.2_80"}

func dumpPath() string { return filepath.Join(tmpDir(), fmt.Sprintf("dump-%d.json", os.Getpid())) }

func runLin(cx *Ctx, c linCase) error {
	cp := newCP()
	T := ms(c.TimeoutMS)
	m := newManager(cx, cp, mgrOpts{LDS: true, NDS: c.NDS, FetchTimeout: T, DumpPath: dumpPath()}, linTable)
	theDispatcher.use(m)
	r := newLinRec(m, true, c.Spin)
	r.master()
	names := []string{"a", "b"}
	lims := make([]*limit.Option, len(c.Procs))
	for i, steps := range c.Procs {
		if i%2 == 0 && slices.ContainsFunc(steps, func(s linStep) bool { return s.K == "suite" }) {
			lims[i] = newLimit()
		}
	}
	stop := r.probers(cx, 2, names)
	if len(c.ApplyMS) > 0 {
		i := 0
		clientYield.set(func(p string) {
			if p == "client.apply" || p == "client.newstream" {
				d := c.ApplyMS[i%len(c.ApplyMS)]
				i++
				time.Sleep(ms(d))
			}
		})
		cx.Defer(func() { clientYield.set(nil) })
	}
	var closersMu sync.Mutex
	var closers []func()
	cx.Defer(func() {
		closersMu.Lock()
		defer closersMu.Unlock()
		for _, f := range closers {
			f()
		}
	})
	horizon := 0
	finished := make([]atomic.Bool, len(c.Procs))
	for i, steps := range c.Procs {
		total := 0
		for _, s := range steps {
			n := 1
			if s.K == "look" || s.K == "hammer" {
				n = max(1, s.C)
			}
			total += s.Wait
			if s.K == "look" || s.K == "hammer" {
				total += n * (c.TimeoutMS + s.Miss + s.WaitD + s.Woken + s.Exp)
			}
		}
		horizon = max(horizon, total)
		cx.Go(func() {
			for _, s := range steps {
				time.Sleep(ms(s.Wait))
				switch s.K {
				case "look", "hammer":
					for k := 0; k < max(1, s.C); k++ {
						ctx := context.WithValue(context.Background(), yieldKey{}, func(p string) {
							switch p {
							case "get.miss":
								time.Sleep(ms(s.Miss))
							case "get.wait":
								time.Sleep(ms(s.WaitD))
							case "get.woken":
								time.Sleep(ms(s.Woken))
							case "get.expired":
								time.Sleep(ms(s.Exp))
							}
						})
						if s.K == "hammer" { // reads of the cache, back to back
							c2, cancel := context.WithCancel(ctx)
							cancel()
							ctx = c2
							runtime.Gosched()
						} else if s.Cancel > 0 {
							c2, cancel := context.WithTimeout(ctx, ms(s.Cancel))
							ctx = c2
							defer cancel()
						}
						r.get(ctx, s.T, s.N, "lookup")
					}
				case "reg":
					r.register(s.T, s.Slow)
				case "dump":
					m.Dump()
				case "suite":
					cl := newClientSide(xdssuite.WithServiceCircuitBreak(true))
					startServer(lims[i])
					closersMu.Lock()
					closers = append(closers, cl.close)
					closersMu.Unlock()
				}
			}
			finished[i].Store(true)
		})
	}
	cps := slices.Clone(c.CP)
	sort.SliceStable(cps, func(i, j int) bool { return cps[i].At < cps[j].At })
	faults := 0
	for i, op := range cps {
		if d := time.Until(r.start.Add(ms(op.At))); d > 0 {
			time.Sleep(d)
		}
		horizon = max(horizon, op.At)
		s := cp.live()
		switch op.K {
		case "push":
			if s != nil {
				rs := slices.Clone(op.Res)
				if op.T == tL && c.NDS {
					for j := range rs {
						if w, ok := linWire[rs[j].N]; ok {
							rs[j].N = w
						}
					}
				}
				cp.send(urlOf[op.T], fmt.Sprintf("v%d", i), packRes(op.T, rs))
			}
		case "nds":
			if s != nil {
				cp.send(xdsresource.NameTableTypeURL, fmt.Sprintf("v%d", i), anys(nameTable(linTable)))
			}
		case "fail":
			if s != nil {
				faults++
				s.fail(errReset)
			}
		case "down":
			if s != nil {
				faults++
				cp.mu.Lock()
				cp.failOpenForever = true
				cp.mu.Unlock()
				s.fail(errReset)
			}
		case "up":
			cp.mu.Lock()
			cp.failOpenForever = false
			cp.mu.Unlock()
		case "stall":
			if s != nil {
				s.setStall(true)
			}
		case "unstall":
			if s != nil {
				s.setStall(false)
			}
		}
	}
	if d := time.Until(r.start.Add(ms(horizon) + T + 3*time.Second)); d > 0 {
		time.Sleep(d)
	}
	synctest.Wait()
	stop()
	for i := range finished {
		if !finished[i].Load() {
			return fmt.Errorf("goroutine %d of the mix never finished", i)
		}
	}
	cx.ClassIf(faults > 0, "with stream faults")
	cx.ClassIf(time.Since(r.start) > 30*time.Second, "across a sweep")
	if err := r.check(cx); err != nil {
		return err
	}
	return r.converged()
}

func genLin(t *rapid.T) linCase {
	c := linCase{TimeoutMS: pick(t, []int{50, 100}), NDS: flip(t), Spin: pick(t, []int{5, 20, 60})}
	types := []rtype{pick(t, dataTypes)}
	if oneIn(t, 3) {
		types = append(types, pick(t, dataTypes))
	}
	nameFor := func(rt rtype) string {
		if rt == tL && oneIn(t, 6) {
			return inbound
		}
		return pick(t, []string{"a", "b"})
	}
	wait := func() int {
		w := 10 * pick(t, []int{0, 0, 0, 1, 2, 3, 5, 10})
		if oneIn(t, 60) {
			w += pick(t, []int{29990, 30000, 30010})
		}
		return w
	}
	for i := ri(t, 1, 4); i > 0; i-- {
		var steps []linStep
		for j := ri(t, 1, 5); j > 0; j-- {
			s := linStep{Wait: wait(), K: pick(t, []string{"look", "look", "look", "hammer", "hammer", "reg", "reg", "dump", "suite"}), T: pick(t, types)}
			switch s.K {
			case "look":
				s.N, s.C = nameFor(s.T), pick(t, []int{1, 1, 1, 2})
				s.Miss, s.WaitD, s.Woken, s.Exp = genDelay(t), genDelay(t), genDelay(t), genDelay(t)
				if oneIn(t, 4) {
					s.Cancel = pick(t, []int{1, 10, 20, 40})
				}
			case "hammer":
				s.N, s.C = nameFor(s.T), pick(t, []int{2, 5, 20})
			case "reg":
				s.Slow = flip(t)
			case "dump":
				if oneIn(t, 2) {
					s.K = "look"
					s.N, s.C = nameFor(s.T), 1
				}
			case "suite":
				if !oneIn(t, 4) {
					s.K, s.Slow = "reg", true
				}
			}
			steps = append(steps, s)
		}
		c.Procs = append(c.Procs, steps)
	}
	stamp := 0
	end := 0
	for _, p := range c.Procs {
		n := 0
		for _, s := range p {
			n += s.Wait
		}
		end = max(end, n)
	}
	instant := func() int {
		x := 10 * ri(t, 0, 30)
		if end > 29000 && flip(t) {
			x += pick(t, []int{29900, 30000, 59900})
		}
		return x
	}
	for i := ri(t, 1, 8); i > 0; i-- {
		op := schedCP{At: instant(), K: "push", T: pick(t, types)}
		for _, n := range []string{"a", "b", inbound} {
			if n == inbound && op.T != tL || oneIn(t, 4) {
				continue
			}
			stamp++
			op.Res = append(op.Res, hres{N: n, S: stamp})
		}
		c.CP = append(c.CP, op)
	}
	if c.NDS && oneIn(t, 4) {
		c.CP = append(c.CP, schedCP{At: instant(), K: "nds"})
	}
	if oneIn(t, 3) {
		at := instant()
		switch k := pick(t, []string{"fail", "fail", "down", "stall"}); k {
		case "down":
			c.CP = append(c.CP, schedCP{At: at, K: "down"}, schedCP{At: at + pick(t, []int{50, 700}), K: "up"})
		case "stall":
			c.CP = append(c.CP, schedCP{At: at, K: "stall"}, schedCP{At: at + pick(t, []int{10, 100}), K: "unstall"})
		default:
			c.CP = append(c.CP, schedCP{At: at, K: k})
		}
	}
	if oneIn(t, 4) {
		c.ApplyMS = []int{pick(t, []int{1, 10, 50}), pick(t, []int{0, 10, 20})}
	}
	return c
}

// ---- part free: real time, real parallelism ----

type freeCase struct {
	Seed    int64 `json:"seed"`
	NDS     bool  `json:"nds"`
	Lookers int   `json:"lookers"`
	Regs    int   `json:"regs"`
	Suites  int   `json:"suites"`
	Callers int   `json:"callers"`
	Steps   int   `json:"steps"`
	Pushes  int   `json:"pushes"`
	Fails   bool  `json:"fails"`
	Dumps   bool  `json:"dumps"`
	Spin    int   `json:"spin"`
	Names   int   `json:"names"`
}

// freeCP is a control plane whose resources change under way.
type freeCP struct {
	cp      *fakeCP
	mu      sync.Mutex // orders changes and what is queued
	nds     bool
	stamp   int
	state   map[rtype]map[string]int // by subscribed name
	asked   map[rtype]map[string]bool
	withNDS map[string][]string
}

func (f *freeCP) wire(t rtype, n string) string {
	if t == tL && f.nds && n != inbound {
		host, _, _ := strings.Cut(n, ":")
		if ips := f.withNDS[host]; len(ips) > 0 {
			return ips[0] + "_80"
		}
	}
	return n
}

func (f *freeCP) onReq(s *fakeStream, q reqRec) {
	f.mu.Lock()
	defer f.mu.Unlock()
	if q.Type == tN {
		if q.Nonce == "" {
			s.push(f.cp.resp(q.URL, "v", f.cp.nextNonce(), anys(nameTable(f.withNDS))))
		}
		return
	}
	grown := q.Nonce == ""
	for _, n := range q.Names {
		if !f.asked[q.Type][n] {
			f.asked[q.Type][n] = true
			grown = true
			if n != inbound {
				f.stamp++
				f.state[q.Type][n] = f.stamp
			}
		}
	}
	if grown {
		f.pushLocked(s, q.Type)
	}
}

func (f *freeCP) pushLocked(s *fakeStream, t rtype) {
	var as []*anypb.Any
	for _, n := range sortedKeys(f.state[t]) {
		as = append(as, packRes(t, []hres{{N: f.wire(t, n), S: f.state[t][n]}})...)
	}
	s.push(f.cp.resp(urlOf[t], fmt.Sprintf("v%d", f.stamp), f.cp.nextNonce(), as))
}

func runFree(cx *Ctx, c freeCase) error {
	cp := newCP()
	f := &freeCP{cp: cp, nds: c.NDS, state: map[rtype]map[string]int{}, asked: map[rtype]map[string]bool{}, withNDS: map[string][]string{}}
	var names []string
	for i := 0; i < c.Names; i++ {
		n := string(rune('a' + i))
		names = append(names, n)
		f.withNDS[n] = []string{fmt.Sprintf("10.0.0.%d", i+1)}
	}
	for _, t := range dataTypes {
		f.state[t], f.asked[t] = map[string]int{}, map[string]bool{}
	}
	cp.mu.Lock()
	cp.onReq = f.onReq
	cp.mu.Unlock()
	ch := startManager(cx, cp, mgrOpts{LDS: true, NDS: c.NDS, FetchTimeout: 40 * time.Millisecond, DumpPath: dumpPath()})
	var m xmgr
	select {
	case r := <-ch:
		if r.err != nil {
			panic(stuck{"start-up fails: " + r.err.Error()})
		}
		m = r.m
	case <-time.After(30 * time.Second):
		panic(harnessErr{"start-up did not complete within 30 s of real time"})
	}
	cx.Defer(func() {
		m.Close()
		cp.shutdown()
	})
	theDispatcher.use(m)
	r := newLinRec(m, false, c.Spin)
	r.master()
	var sides []*clientSide
	var lims []*limit.Option
	for i := 0; i < c.Suites; i++ {
		sides = append(sides, newClientSide(xdssuite.WithServiceCircuitBreak(true)))
		lims = append(lims, newLimit())
	}
	stop := r.probers(cx, 2, names)
	var wg sync.WaitGroup
	spawn := func(k int64, body func(*rand.Rand)) {
		wg.Add(1)
		cx.Go(func() {
			defer wg.Done()
			body(rand.New(rand.NewSource(c.Seed + k)))
		})
	}
	nap := func(rg *rand.Rand, us int) {
		if rg.Intn(3) == 0 {
			time.Sleep(time.Duration(rg.Intn(us)) * time.Microsecond)
		}
	}
	for i := 0; i < c.Lookers; i++ {
		spawn(100+int64(i), func(rg *rand.Rand) {
			for j := 0; j < c.Steps; j++ {
				t, n := dataTypes[rg.Intn(4)], names[rg.Intn(len(names))]
				ctx := context.WithValue(context.Background(), yieldKey{}, func(string) {
					if rg.Intn(3) == 0 {
						runtime.Gosched()
					}
				})
				if rg.Intn(6) == 0 {
					c2, cancel := context.WithTimeout(ctx, time.Duration(rg.Intn(300))*time.Microsecond)
					ctx = c2
					defer cancel()
				}
				r.get(ctx, t, n, "lookup")
				nap(rg, 200)
			}
		})
	}
	for i := 0; i < c.Regs; i++ {
		spawn(200+int64(i), func(rg *rand.Rand) {
			for j := 0; j < 6; j++ {
				r.register(dataTypes[rg.Intn(4)], rg.Intn(2) == 0)
				nap(rg, 2000)
				if c.Dumps && rg.Intn(2) == 0 {
					m.Dump()
				}
			}
		})
	}
	for i, lim := range lims {
		spawn(300+int64(i), func(rg *rand.Rand) {
			nap(rg, 3000)
			if i%2 != 0 {
				lim = newLimit()
			}
			nap(rg, 200)
			startServer(lim)
			nap(rg, 3000)
			x := newClientSide(xdssuite.WithServiceCircuitBreak(true))
			nap(rg, 3000)
			x.close()
		})
	}
	for i := 0; i < c.Callers; i++ {
		if len(sides) == 0 {
			break
		}
		cl := sides[i%len(sides)]
		spawn(400+int64(i), func(rg *rand.Rand) {
			for j := 0; j < c.Steps/4+1; j++ {
				call := callSpec{Svc: "s", Method: "m"}
				ri, to := call.rpcInfo(names[rg.Intn(len(names))])
				err := cl.mw(func(ctx context.Context, _, _ interface{}) error {
					_, e := cl.resolver.Resolve(ctx, cl.resolver.Target(ctx, to))
					return e
				})(rpcinfo.NewCtxWithRPCInfo(context.Background(), ri), nil, nil)
				if err == nil {
					cx.Class("call routed and resolved")
				}
				nap(rg, 200)
			}
		})
	}
	spawn(1, func(rg *rand.Rand) {
		for j := 0; j < c.Pushes; j++ {
			t := dataTypes[rg.Intn(4)]
			f.mu.Lock()
			for _, n := range sortedKeys(f.asked[t]) {
				switch rg.Intn(5) {
				case 0:
					if t.RequireFullADSResponse() {
						delete(f.state[t], n)
					}
				case 1, 2:
					f.stamp++
					f.state[t][n] = f.stamp
				}
			}
			if s := cp.live(); s != nil {
				ok := false
				for _, q := range cp.log() {
					if q.Stream == s.id && q.Type == t {
						ok = true
						break
					}
				}
				if ok {
					f.pushLocked(s, t)
				}
				if c.NDS && rg.Intn(8) == 0 {
					s.push(cp.resp(xdsresource.NameTableTypeURL, "v", cp.nextNonce(), anys(nameTable(f.withNDS))))
				}
				if c.Fails && rg.Intn(10) == 0 {
					if rg.Intn(2) == 0 {
						s.fail(errReset)
					} else {
						s.failAfterQueue(errReset)
					}
				}
			}
			f.mu.Unlock()
			nap(rg, 600)
		}
	})
	wg.Wait()
	stop()
	for _, s := range sides {
		s.close()
	}
	if err := r.check(cx); err != nil {
		return err
	}
	return r.converged()
}

func genFree(t *rapid.T) freeCase {
	return freeCase{
		Seed: int64(ri(t, 0, 1<<30)), NDS: flip(t), Lookers: ri(t, 1, 6), Regs: ri(t, 0, 2), Suites: ri(t, 0, 2), Callers: ri(t, 0, 2),
		Steps: pick(t, []int{5, 20, 40}), Pushes: pick(t, []int{5, 20, 40}), Fails: oneIn(t, 3), Dumps: flip(t),
		Spin: pick(t, []int{2, 10, 40}), Names: ri(t, 1, 3),
	}
}

func init() {
	rule := "a lookup returned a value while an update was in progress or fell between its start and its end"
	register(spec[linCase]{Prop: "C07", Name: "lin", Quick: 40000, Thorough: 3000000, NoRace: true, Rule: rule, Gen: genLin, Run: runLin})
	register(spec[linCase]{Prop: "C07", Name: "lin-race", Quick: 6000, Thorough: 400000, RaceOnly: true, Rule: rule + " (race detector)", Gen: genLin, Run: runLin})
	register(spec[freeCase]{Prop: "C07", Name: "free", Quick: 2400, Thorough: 100000, NoBubble: true, NoRace: true, Rule: rule + " (real time)", Gen: genFree, Run: runFree})
	register(spec[freeCase]{Prop: "C07", Name: "free-race", Quick: 1600, Thorough: 60000, NoBubble: true, RaceOnly: true, Rule: rule + " (real time, race detector)", Gen: genFree, Run: runFree})
}
