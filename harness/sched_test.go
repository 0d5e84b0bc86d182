package xdsverif

// Schedules (C05, C06): lookups that start, are delayed between their own steps, time out and are cancelled at generated
// virtual instants, against deliveries, faults and rejections at generated instants. A registered handler tells when and
// with what an update is applied; everything asserted is derived from these instants exactly.

import (
	"context"
	"fmt"
	"slices"
	"sort"
	"sync"
	"testing/synctest"
	"time"

	"pgregory.net/rapid"

	"github.com/kitex-contrib/xds/core/xdsresource"
)

type schedCase struct {
	TimeoutMS int         `json:"timeout_ms"` // 0: the default
	Looks     []schedLook `json:"looks"`
	CP        []schedCP   `json:"cp"`
	ApplyMS   []int       `json:"apply_ms,omitempty"` // delays between acknowledging and applying successive responses
}

type schedLook struct {
	At     int    `json:"at"`
	T      rtype  `json:"t"`
	N      string `json:"n"`
	Cancel int    `json:"cancel"`       // ms after At; -1 never
	DL     bool   `json:"dl,omitempty"` // by deadline instead of cancellation
	Miss   int    `json:"miss,omitempty"`
	Wait   int    `json:"wait,omitempty"`
	Woken  int    `json:"woken,omitempty"`
	Exp    int    `json:"exp,omitempty"`
}

type schedCP struct {
	At  int    `json:"at"`
	K   string `json:"k"` // push, fail, down, up, auth, stall, unstall
	T   rtype  `json:"t,omitempty"`
	Res []hres `json:"res,omitempty"`
	I   int    `json:"i,omitempty"`
	V   string `json:"v,omitempty"` // version of the push; default: one of its own
}

// applied is one update as the handlers saw it.
type applied struct {
	at time.Time
	m  map[string]int
}

type schedRec struct {
	schedLook
	t0, end  time.Time
	cancelAt time.Time
	slept    map[string]time.Duration
	done     bool
	val      interface{}
	err      error
}

func (r *schedRec) total() (d time.Duration) {
	for _, x := range r.slept {
		d += x
	}
	return d
}

type schedRun struct {
	mu      sync.Mutex
	updates map[rtype][]applied
	// raw has the contents of the responses the client was applying, whatever it made of them
	raw map[rtype][]applied
	bad error
}

func ms(n int) time.Duration { return time.Duration(n) * time.Millisecond }

func runSched(cx *Ctx, c schedCase, prop string) error {
	cp := newCP()
	T := ms(c.TimeoutMS)
	m := newManager(cx, cp, mgrOpts{LDS: true, FetchTimeout: T}, nil)
	if T == 0 {
		T = time.Second
	}
	run := &schedRun{updates: map[rtype][]applied{}, raw: map[rtype][]applied{}}
	cps := append([]schedCP(nil), c.CP...)
	sort.SliceStable(cps, func(i, j int) bool { return cps[i].At < cps[j].At })
	for _, t := range dataTypes {
		m.RegisterXDSUpdateHandler(t, func(res map[string]xdsresource.Resource) {
			a := applied{time.Now(), map[string]int{}}
			for n, v := range res {
				s, err := readStampOrEmpty(t, v)
				run.mu.Lock()
				if err != nil && run.bad == nil {
					run.bad = fmt.Errorf("handler of %s got %q: %v", xdsresource.ResourceTypeToName[t], n, err)
				}
				run.mu.Unlock()
				a.m[n] = s
			}
			run.mu.Lock()
			run.updates[t] = append(run.updates[t], a)
			run.mu.Unlock()
		})
	}
	applies := 0
	byNonce := map[string]int{} // pushes
	clientYield.set(func(p string) {
		if p != "client.apply" {
			return
		}
		if len(c.ApplyMS) > 0 {
			d := c.ApplyMS[applies%len(c.ApplyMS)]
			applies++
			time.Sleep(ms(d))
		}
		cp.mu.Lock()
		n := cp.lastNonce
		cp.mu.Unlock()
		run.mu.Lock()
		i, ok := byNonce[n]
		run.mu.Unlock()
		if !ok {
			return
		}
		a := applied{time.Now(), map[string]int{}}
		for _, r := range cps[i].Res {
			if r.Bad != "" {
				return
			}
			a.m[r.N] = r.S
		}
		run.mu.Lock()
		run.raw[cps[i].T] = append(run.raw[cps[i].T], a)
		run.mu.Unlock()
	})
	cx.Defer(func() { clientYield.set(nil) })
	start := time.Now()
	horizon := 0
	recs := make([]*schedRec, len(c.Looks))
	for i, l := range c.Looks {
		rec := &schedRec{schedLook: l, slept: map[string]time.Duration{}}
		recs[i] = rec
		horizon = max(horizon, l.At+l.Miss+l.Wait+l.Woken+l.Exp)
		cx.Go(func() {
			time.Sleep(ms(l.At))
			ctx := context.WithValue(context.Background(), yieldKey{}, func(p string) {
				d := 0
				switch p {
				case "get.miss":
					d = l.Miss
				case "get.wait":
					d = l.Wait
				case "get.woken":
					d = l.Woken
				case "get.expired":
					d = l.Exp
				}
				run.mu.Lock()
				rec.slept[p] += ms(d)
				run.mu.Unlock()
				time.Sleep(ms(d))
			})
			cancel := func() {}
			t0 := time.Now()
			var cancelAt time.Time
			if l.Cancel >= 0 {
				cancelAt = t0.Add(ms(l.Cancel))
				if l.DL {
					ctx, cancel = context.WithDeadline(ctx, cancelAt)
				} else {
					ctx, cancel = context.WithCancel(ctx)
					if l.Cancel == 0 {
						cancel()
					} else {
						time.AfterFunc(ms(l.Cancel), cancel)
					}
				}
			}
			run.mu.Lock()
			rec.t0, rec.cancelAt = t0, cancelAt
			run.mu.Unlock()
			v, err := m.Get(ctx, l.T, l.N)
			run.mu.Lock()
			rec.val, rec.err, rec.end, rec.done = v, err, time.Now(), true
			run.mu.Unlock()
			if l.Cancel > 0 {
				// the timer holds the function; do not leave it pending
				_ = cancel
			}
		})
	}
	faults := 0
	for i, op := range cps {
		if d := time.Until(start.Add(ms(op.At))); d > 0 {
			time.Sleep(d)
		}
		horizon = max(horizon, op.At)
		s := cp.live()
		switch op.K {
		case "push":
			if s != nil {
				v := op.V
				if v == "" {
					v = fmt.Sprintf("v%d", i)
				}
				run.mu.Lock()
				byNonce[cp.send(urlOf[op.T], v, packRes(op.T, op.Res))] = i
				run.mu.Unlock()
			}
		case "fail":
			if s != nil {
				faults++
				s.fail(streamErr(op.I))
			}
		case "down":
			if s != nil {
				faults++
				cp.mu.Lock()
				cp.failOpenForever = true
				cp.mu.Unlock()
				s.fail(streamErr(op.I))
			}
		case "up":
			cp.mu.Lock()
			cp.failOpenForever = false
			cp.mu.Unlock()
		case "auth":
			if s != nil {
				faults++
				s.fail(errAuth)
			}
		case "stall":
			if s != nil {
				s.setStall(true)
			}
		case "unstall":
			if s != nil {
				s.setStall(false)
			}
		}
	}
	if len(c.ApplyMS) > 0 {
		horizon += len(cps) * slices.Max(c.ApplyMS)
	}
	if d := time.Until(start.Add(ms(horizon) + T + 3*time.Second)); d > 0 {
		time.Sleep(d)
	}
	synctest.Wait()
	run.mu.Lock()
	defer run.mu.Unlock()
	if run.bad != nil {
		return run.bad
	}
	if faults > 0 {
		cx.Class("with stream faults")
	}
	for i, r := range recs {
		where := fmt.Sprintf("lookup %d (%s %q at %v, fetch timeout %v, cancelled after %v ms, own delays %v)", i, xdsresource.ResourceTypeToName[r.T], r.N, ms(r.At), T, r.Cancel, r.slept)
		if !r.done {
			return fmt.Errorf("%s never returned", where)
		}
		switch prop {
		case "C05":
			if err := run.checkC05(cx, cp, where, r, T); err != nil {
				return err
			}
		case "C06":
			if err := run.checkC06(cx, where, r, T, recs); err != nil {
				return err
			}
		}
	}
	return nil
}

// checkC05: a value of the kind supplied by the control plane xor an error, by the lookup's own deadline.
func (run *schedRun) checkC05(cx *Ctx, cp *fakeCP, where string, r *schedRec, T time.Duration) error {
	if _, ok := urlOf[r.T]; !ok {
		if r.err == nil || r.val != nil {
			return fmt.Errorf("%s: an unknown kind yields %v, %v", where, r.val, r.err)
		}
		if !r.end.Equal(r.t0) {
			return fmt.Errorf("%s: an unknown kind is rejected after %v", where, r.end.Sub(r.t0))
		}
		for _, q := range cp.log() {
			if _, known := urlOf[q.Type]; !known || q.URL == "" || slices.Contains(q.Names, r.N) {
				return fmt.Errorf("%s: an unknown kind was subscribed: %v", where, q)
			}
		}
		cx.Class("unknown kind")
		return nil
	}
	deadline := r.t0.Add(T)
	if !r.cancelAt.IsZero() && r.cancelAt.Before(deadline) {
		deadline = r.cancelAt
	}
	if limit := deadline.Add(r.total()); r.end.After(limit) {
		return fmt.Errorf("%s returned after %v, its deadline was after %v and its own delays took %v (value %v, error %v)", where, r.end.Sub(r.t0), deadline.Sub(r.t0), r.total(), r.val, r.err)
	}
	if r.err != nil {
		if r.val != nil {
			return fmt.Errorf("%s returned both a value (%v) and an error (%v)", where, r.val, r.err)
		}
		cx.Class("error")
		cx.NTIf(r.end.Equal(deadline) && !r.cancelAt.IsZero())
		return nil
	}
	if r.val == nil {
		return fmt.Errorf("%s returned neither a value nor an error", where)
	}
	s, err := readStampOrEmpty(r.T, r.val)
	if err != nil {
		return fmt.Errorf("%s: %v", where, err)
	}
	for _, u := range run.updates[r.T] {
		if x, ok := u.m[r.N]; ok && x == s && !u.at.After(r.end) {
			cx.Class("value")
			cx.ClassIf(s == emptyStamp, "value without content")
			cx.NTIf(r.end.After(r.t0))
			return nil
		}
	}
	return fmt.Errorf("%s returned stamp %d, which no accepted response had supplied for it", where, s)
}

// checkC06: what was applied strictly between the arrival and the deadline is returned at once.
func (run *schedRun) checkC06(cx *Ctx, where string, r *schedRec, T time.Duration, all []*schedRec) error {
	dl := r.t0.Add(T)
	if !r.cancelAt.IsZero() && r.cancelAt.Before(dl) {
		dl = r.cancelAt
	}
	ups := run.updates[r.T]
	// at is the state of the name strictly before an instant; tie: an update happened at that very instant
	present := func(at time.Time) (ok, tie bool) {
		for _, u := range ups {
			if u.at.Equal(at) {
				tie = true
			}
			if u.at.Before(at) {
				_, ok = u.m[r.N]
				if ok && at.Sub(u.at) >= 30*time.Second {
					tie = true // it may have been evicted
				}
			}
		}
		return ok, tie
	}
	need, ready, why := false, time.Time{}, ""
	if ok, tie := present(r.t0); ok && !tie && r.t0.Before(dl) {
		need, ready, why = true, r.t0, "it was cached before the lookup"
	}
	arrive := r.t0.Add(r.slept["get.miss"])
	if !need {
		if ok, tie := present(arrive); ok && !tie && arrive.Before(dl) {
			need, ready, why = true, arrive, "it was applied while the lookup was about to subscribe"
		}
	}
	if !need {
		for _, u := range slices.Concat(ups, run.raw[r.T]) {
			if _, ok := u.m[r.N]; ok && u.at.After(arrive) && u.at.Before(dl) && (!need || u.at.Before(ready)) {
				need, ready, why = true, arrive.Add(r.slept["get.wait"]), fmt.Sprintf("it was applied %v after the start, before the deadline after %v", u.at.Sub(r.t0), dl.Sub(r.t0))
				if u.at.After(ready) {
					ready = u.at
				}
				cx.NT()
				cx.Class("delivered while waiting")
				cx.ClassIf(u.at.Sub(r.t0) > 30*time.Second, "delivered after more than 30 s of waiting")
			}
		}
	}
	if !need {
		cx.Class("not required")
		return nil
	}
	if r.err != nil {
		return fmt.Errorf("%s fails with %q although %s", where, r.err, why)
	}
	limit := ready.Add(r.slept["get.woken"] + r.slept["get.expired"])
	if r.end.After(limit) {
		return fmt.Errorf("%s returned after %v, the resource was there after %v (%s)", where, r.end.Sub(r.t0), limit.Sub(r.t0), why)
	}
	if _, err := readStamp(r.T, r.val); err != nil {
		return fmt.Errorf("%s: %v", where, err)
	}
	cx.Class("returned")
	for _, o := range all {
		if o != r && o.T == r.T && o.N == r.N && o.err != nil && o.end.After(r.t0) && o.end.Before(r.end) {
			cx.Class("another waiter of the name gave up meanwhile")
			break
		}
	}
	for _, o := range all {
		if o != r && o.T == r.T && o.N == r.N && o.err != nil && o.t0.Before(r.t0) && !o.end.After(r.t0) {
			cx.Class("an earlier waiter of the name gave up before")
			break
		}
	}
	return nil
}

// instants around the interesting ones, so that orders and near coincidences are all drawn
func genInstant(t *rapid.T, hi int) int {
	x := 10 * ri(t, 0, hi/10)
	return max(0, x+pick(t, []int{0, 0, 0, 1, -1, 5}))
}

func genDelay(t *rapid.T) int {
	if !oneIn(t, 3) {
		return 0
	}
	return pick(t, []int{1, 10, 20, 50, 90, 99, 100, 101, 150})
}

// genDropped is a history about names that were supplied, dropped by an update of everything and asked for again much later.
func genDropped(t *rapid.T) schedCase {
	rt := pick(t, []rtype{tL, tC})
	c := schedCase{TimeoutMS: pick(t, []int{20000, 45000, 70000, 100000})}
	names := []string{"a", "b"}
	look := func(at int, n string) {
		l := schedLook{At: at, T: rt, N: n, Cancel: -1, Miss: genDelay(t), Wait: genDelay(t), Woken: genDelay(t), Exp: genDelay(t)}
		if oneIn(t, 6) {
			l.Cancel, l.DL = pick(t, []int{0, 1, 1000, 31000}), flip(t)
		}
		c.Looks = append(c.Looks, l)
	}
	stamp := 0
	push := func(at int, ns ...string) {
		op := schedCP{At: at, K: "push", T: rt}
		for _, n := range ns {
			stamp++
			op.Res = append(op.Res, hres{N: n, S: stamp})
		}
		c.CP = append(c.CP, op)
	}
	some := func() []string {
		var out []string
		for _, n := range names {
			if flip(t) {
				out = append(out, n)
			}
		}
		return out
	}
	look(genInstant(t, 220), "a")
	if flip(t) {
		look(genInstant(t, 220), pick(t, names))
	}
	push(250+genInstant(t, 200), names...)
	dropAt := 500 + 100*ri(t, 0, 330)
	push(dropAt)
	if flip(t) {
		c.CP[len(c.CP)-1].Res = []hres{{N: "b", S: 90}}
	}
	again := dropAt + 100*ri(t, 0, 600)
	for i := ri(t, 1, 3); i > 0; i-- {
		look(again+100*ri(t, 0, 100), pick(t, []string{"a", "a", "b"}))
	}
	for i := ri(t, 1, 3); i > 0; i-- {
		push(again+100*ri(t, 1, c.TimeoutMS/100), some()...)
	}
	return c
}

func genSched(t *rapid.T, prop string) schedCase {
	if prop == "C06" && oneIn(t, 12) {
		return genDropped(t)
	}
	c := schedCase{TimeoutMS: 100}
	types := []rtype{pick(t, dataTypes)}
	if oneIn(t, 3) {
		types = append(types, pick(t, dataTypes))
	}
	names := []string{"a", "b"}
	if prop == "C05" && oneIn(t, 3) {
		names = []string{"a", "b", "c", "d", "e", "f", "g"}
	}
	if oneIn(t, 25) { // a crowd
		for len(names) < 24 {
			names = append(names, fmt.Sprintf("n%d", len(names)))
		}
	}
	nameFor := func(rt rtype) string {
		if rt == tL && oneIn(t, 8) {
			return inbound
		}
		return pick(t, names)
	}
	late := 0
	nlooks := ri(t, 2, 7)
	if len(names) > 7 || oneIn(t, 40) {
		nlooks = ri(t, 8, 40)
	}
	if oneIn(t, 150) { // a multitude waits for one name, or for as many names
		n := pick(t, []int{40, 150, 300, 600})
		one := flip(t)
		for i := 0; i < n; i++ {
			l := schedLook{At: ri(t, 0, 5), T: types[0], N: "a", Cancel: -1}
			if !one {
				l.N = fmt.Sprintf("m%d", i)
				names = append(names, l.N)
			}
			c.Looks = append(c.Looks, l)
		}
	}
	for i := nlooks; i > 0; i-- {
		l := schedLook{At: genInstant(t, 220), T: pick(t, types), Cancel: -1, Miss: genDelay(t), Wait: genDelay(t), Woken: genDelay(t), Exp: genDelay(t)}
		l.N = nameFor(l.T)
		if oneIn(t, 3) {
			l.Cancel, l.DL = pick(t, []int{0, 1, 5, 10, 20, 50, 90, 99, 101, 200}), flip(t)
		}
		if oneIn(t, 20) {
			l.At += 61000
			late = 61000
		}
		c.Looks = append(c.Looks, l)
	}
	stamp := 0
	version := "" // of all responses
	if oneIn(t, 8) {
		version = "1"
	}
	push := func(at int) schedCP {
		op := schedCP{At: at, K: "push", T: pick(t, types), V: version}
		for _, n := range append(slices.Clone(names), inbound) {
			if n == inbound && op.T != tL || oneIn(t, 3) {
				continue
			}
			stamp++
			r := hres{N: n, S: stamp}
			if prop == "C05" && oneIn(t, 8) {
				r.Bad = pick(t, []string{"url", "trunc", "sem", "empty", "empty", "empty"})
			}
			op.Res = append(op.Res, r)
		}
		return op
	}
	for i := ri(t, 1, 5); i > 0; i-- {
		c.CP = append(c.CP, push(genInstant(t, 330)))
	}
	if late > 0 {
		c.CP = append(c.CP, push(late+genInstant(t, 330)))
	}
	if oneIn(t, 3) {
		c.ApplyMS = []int{pick(t, []int{1, 10, 50}), pick(t, []int{0, 20, 90})}
	}
	if prop == "C05" {
		c.TimeoutMS = pick(t, []int{100, 100, 50, 0})
		for i := ri(t, 0, 2); i > 0; i-- {
			l := schedLook{At: genInstant(t, 220), T: pick(t, []rtype{99, -1, tN, tN, 0, 6, 7, 1 << 20}), N: "unk", Cancel: -1, Miss: genDelay(t)}
			if l.T == tN {
				l.N = pick(t, []string{"", "nt", "a"})
			}
			c.Looks = append(c.Looks, l)
		}
	}
	if prop == "C05" && flip(t) || prop == "C06" && oneIn(t, 4) {
		for i := ri(t, 1, 2); i > 0; i-- {
			at := genInstant(t, 300)
			switch k := pick(t, []string{"fail", "fail", "down", "auth", "stall"}); k {
			case "down":
				c.CP = append(c.CP, schedCP{At: at, K: "down"}, schedCP{At: at + pick(t, []int{50, 700, 2000}), K: "up"})
			case "stall":
				c.CP = append(c.CP, schedCP{At: at, K: "stall"}, schedCP{At: at + pick(t, []int{10, 100, 500}), K: "unstall"})
			case "auth":
				if prop == "C05" {
					c.CP = append(c.CP, schedCP{At: at, K: "auth"})
				}
			default:
				c.CP = append(c.CP, schedCP{At: at, K: k, I: ri(t, 0, len(streamErrs)-1)})
			}
		}
	}
	if late == 0 && oneIn(t, 6) {
		// everything takes long: sweeps happen while lookups wait
		k := pick(t, []int{20, 300, 700})
		if c.TimeoutMS == 0 {
			c.TimeoutMS = 100
		}
		c.TimeoutMS *= k
		for i := range c.Looks {
			l := &c.Looks[i]
			l.At, l.Miss, l.Wait, l.Woken, l.Exp = l.At*k, l.Miss*k, l.Wait*k, l.Woken*k, l.Exp*k
			if l.Cancel > 0 {
				l.Cancel *= k
			}
		}
		for i := range c.CP {
			if c.CP[i].K == "up" {
				// not the outages: the client's back-off grows
				c.CP[i].At += c.CP[i-1].At / k * (k - 1)
				continue
			}
			c.CP[i].At *= k
		}
		for i := range c.ApplyMS {
			c.ApplyMS[i] *= k
		}
	}
	return c
}

func init() {
	register(spec[schedCase]{
		Prop: "C05", Name: "sched", Quick: 60000, Thorough: 4000000,
		Rule: "a lookup waited and was answered, or ended exactly at the deadline of a cancelled caller",
		Gen:  func(t *rapid.T) schedCase { return genSched(t, "C05") },
		Run:  func(cx *Ctx, c schedCase) error { return runSched(cx, c, "C05") },
	})
	register(spec[schedCase]{
		Prop: "C06", Name: "sched", Quick: 80000, Thorough: 5000000,
		Rule: "a resource was applied strictly between the subscription and the deadline of a waiting lookup",
		Gen:  func(t *rapid.T) schedCase { return genSched(t, "C06") },
		Run:  func(cx *Ctx, c schedCase) error { return runSched(cx, c, "C06") },
	})
}
