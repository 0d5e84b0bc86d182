package xdsverif

// Evictions racing with lookups and with responses being handled (C19), and clients that stop for good (C04, C05).

import (
	"context"
	"errors"
	"fmt"
	"slices"
	"sort"
	"strings"
	"sync"
	"testing/synctest"
	"time"

	"github.com/cloudwego/kitex/pkg/remote/trans/nphttp2/codes"
	kstatus "github.com/cloudwego/kitex/pkg/remote/trans/nphttp2/status"
	"google.golang.org/protobuf/types/known/anypb"
	"pgregory.net/rapid"

	"github.com/kitex-contrib/xds/core/xdsresource"
)

type evictCase struct {
	Looks   []schedLook `json:"looks"`
	Sets    []evictSet  `json:"sets"`
	ApplyMS []int       `json:"apply_ms"`
}

// evictSet changes what the control plane knows about a name and pushes it when the name is asked for.
type evictSet struct {
	At    int   `json:"at"`
	T     rtype `json:"t"`
	N     string
	S     int  `json:"s"` // 0: removed
	Force bool `json:"force,omitempty"`
}

// evictCP serves what is asked for, whenever the set asked for changes.
type evictCP struct {
	cp    *fakeCP
	mu    sync.Mutex
	state map[rtype]map[string]int
	last  map[rtype][]string
	had   map[rtype]map[string][]stampAt
}

type stampAt struct {
	s  int
	at time.Time
}

func (e *evictCP) onReq(s *fakeStream, q reqRec) {
	e.mu.Lock()
	defer e.mu.Unlock()
	old, seen := e.last[q.Type]
	e.last[q.Type] = q.Names
	if q.Type == tN || seen && slices.Equal(old, q.Names) && q.Nonce != "" {
		return
	}
	e.push(s, q.Type)
}

func (e *evictCP) push(s *fakeStream, t rtype) {
	var rs []hres
	for _, n := range e.last[t] {
		if v := e.state[t][n]; v != 0 {
			rs = append(rs, hres{N: n, S: v})
		}
	}
	s.push(e.cp.resp(urlOf[t], "v", e.cp.nextNonce(), packRes(t, rs)))
}

func (e *evictCP) set(t rtype, n string, v int, force bool) {
	e.mu.Lock()
	defer e.mu.Unlock()
	if e.state[t] == nil {
		e.state[t], e.had[t] = map[string]int{}, map[string][]stampAt{}
	}
	e.state[t][n] = v
	e.had[t][n] = append(e.had[t][n], stampAt{v, time.Now()})
	if s := e.cp.live(); s != nil && (force && e.last[t] != nil || slices.Contains(e.last[t], n)) {
		e.push(s, t)
	}
}

func runEvict(cx *Ctx, c evictCase) error {
	cp := newCP()
	e := &evictCP{cp: cp, state: map[rtype]map[string]int{}, last: map[rtype][]string{}, had: map[rtype]map[string][]stampAt{}}
	const T = 200 * time.Millisecond
	cp.onReq = e.onReq
	ch := startManager(cx, cp, mgrOpts{LDS: true, FetchTimeout: T})
	synctest.Wait()
	var m xmgr
	select {
	case r := <-ch:
		if r.err != nil {
			panic(stuck{"start-up fails: " + r.err.Error()})
		}
		m = r.m
	default:
		cx.Defer(func() { cp.shutdown() })
		panic(stuck{warmupStuck})
	}
	teardown(cx, cp, m)
	start := time.Now()
	i := 0
	clientYield.set(func(p string) {
		if p == "client.apply" && len(c.ApplyMS) > 0 {
			d := c.ApplyMS[i%len(c.ApplyMS)]
			i++
			time.Sleep(ms(d))
		}
	})
	cx.Defer(func() { clientYield.set(nil) })
	var mu sync.Mutex
	horizon := 0
	type result struct {
		l     schedLook
		where string
		t0    time.Time
		end   time.Time
		v     interface{}
		err   error
		slept bool
	}
	var results []result
	do := func(l schedLook, where string) {
		res := result{l: l, where: where, t0: time.Now()}
		ctx := context.WithValue(context.Background(), yieldKey{}, func(p string) {
			d := map[string]int{"get.miss": l.Miss, "get.wait": l.Wait, "get.woken": l.Woken, "get.expired": l.Exp}[p]
			if d > 0 {
				res.slept = true
				time.Sleep(ms(d))
			}
		})
		res.v, res.err = m.Get(ctx, l.T, l.N)
		res.end = time.Now()
		mu.Lock()
		results = append(results, res)
		mu.Unlock()
	}
	for k, l := range c.Looks {
		horizon = max(horizon, l.At+l.Miss+l.Wait+l.Woken+l.Exp)
		cx.Go(func() {
			time.Sleep(ms(l.At))
			do(l, fmt.Sprintf("lookup %d", k))
		})
	}
	sets := slices.Clone(c.Sets)
	sort.SliceStable(sets, func(i, j int) bool { return sets[i].At < sets[j].At })
	for _, s := range sets {
		if d := time.Until(start.Add(ms(s.At))); d > 0 {
			time.Sleep(d)
		}
		e.set(s.T, s.N, s.S, s.Force)
		horizon = max(horizon, s.At)
	}
	apply := 0
	for _, d := range c.ApplyMS {
		apply += d
	}
	settle := T + ms(3*apply) + 2*time.Second
	if d := time.Until(start.Add(ms(horizon) + settle)); d > 0 {
		time.Sleep(d)
	}
	// keep clear of a sweep while the final state is looked at
	if rem := 30*time.Second - time.Since(start)%(30*time.Second); rem < 5*time.Second {
		time.Sleep(rem + time.Second)
	}
	synctest.Wait()
	if len(results) != len(c.Looks) {
		return fmt.Errorf("%d of %d lookups returned", len(results), len(c.Looks))
	}
	// what is cached is of interest
	evicted := 0
	interest := func(t rtype) []string {
		var names []string
		for _, q := range cp.log() {
			if q.Type == t && q.URL == urlOf[t] {
				names = q.Names
			}
		}
		return names
	}
	lastAccess := func(t rtype, n string) (at time.Time) {
		for _, r := range results {
			if r.l.T == t && r.l.N == n && r.end.After(at) {
				at = r.end
			}
		}
		return at
	}
	sweep := start.Add(time.Since(start) / (30 * time.Second) * (30 * time.Second))
	for _, t := range dataTypes {
		want := interest(t)
		for n, v := range snapshot(m, t) {
			if n == inbound {
				continue
			}
			if !slices.Contains(want, n) {
				return fmt.Errorf("%s %q (%v) is cached at %v although the last request withdrew it and lists %q", xdsresource.ResourceTypeToName[t], n, v, time.Since(start), want)
			}
			// idle for longer than the period at the last sweep, and delivered before
			la := lastAccess(t, n)
			if sweep.After(start) && sweep.Sub(la) > 31*time.Second {
				late := false
				for _, h := range e.had[t][n] {
					if h.at.After(sweep.Add(-31*time.Second - ms(apply))) {
						late = true
					}
				}
				for _, q := range cp.log() {
					if q.Type == t && q.At.After(sweep.Add(-31*time.Second-ms(apply))) {
						late = true
					}
				}
				if !late {
					return fmt.Errorf("%s %q is still cached at %v, its last lookup ended at %v", xdsresource.ResourceTypeToName[t], n, time.Since(start), la.Sub(start))
				}
			}
		}
	}
	seenNames := map[string]bool{}
	for _, q := range cp.log() {
		key := fmt.Sprint(q.Type)
		for k := range seenNames {
			if n, ok := strings.CutPrefix(k, key+"/"); ok && !slices.Contains(q.Names, n) {
				evicted++
				delete(seenNames, k)
			}
		}
		for _, n := range q.Names {
			seenNames[key+"/"+n] = true
		}
	}
	cx.ClassIf(evicted > 0, "withdrawn on the wire")
	racing := false
	for _, r := range results {
		if r.slept && r.t0.Sub(start)/(30*time.Second) != r.end.Sub(start)/(30*time.Second) {
			racing = true
			cx.Class("lookup in progress across a sweep")
		}
		if r.err != nil {
			continue
		}
		s, err := readStamp(r.l.T, r.v)
		if err != nil {
			return fmt.Errorf("%s: %v", r.where, err)
		}
		ok := false
		for _, h := range e.had[r.l.T][r.l.N] {
			ok = ok || h.s == s && !h.at.After(r.end)
		}
		if !ok {
			return fmt.Errorf("%s of %q returned stamp %d, which the control plane never had before", r.where, r.l.N, s)
		}
	}
	cx.NTIf(evicted > 0 && (racing || apply > 0))
	// a later lookup obtains the current value
	clientYield.set(nil)
	for _, s := range sets {
		v := e.state[s.T][s.N]
		got, err := m.Get(context.Background(), s.T, s.N)
		synctest.Wait()
		if v == 0 {
			if err == nil && s.T.RequireFullADSResponse() {
				return fmt.Errorf("final lookup of %s %q yields %v, the control plane removed it", xdsresource.ResourceTypeToName[s.T], s.N, got)
			}
			continue
		}
		if err != nil {
			return fmt.Errorf("final lookup of %s %q fails (%v), the control plane has stamp %d", xdsresource.ResourceTypeToName[s.T], s.N, err, v)
		}
		if st, err := readStamp(s.T, got); err != nil || st != v {
			return fmt.Errorf("final lookup of %s %q returns stamp %d (%v), the control plane has %d", xdsresource.ResourceTypeToName[s.T], s.N, st, err, v)
		}
	}
	return nil
}

func genEvict(t *rapid.T) evictCase {
	var c evictCase
	types := []rtype{pick(t, dataTypes)}
	if oneIn(t, 4) {
		types = append(types, pick(t, dataTypes))
	}
	around := func() int {
		b := 30000 * ri(t, 0, 3)
		return max(0, b+pick(t, []int{-31000, -29990, -15000, -1000, -100, -50, -20, -10, -5, 5, 10, 20, 50, 100, 1000}))
	}
	delay := func() int {
		if oneIn(t, 2) {
			return 0
		}
		return pick(t, []int{1, 7, 15, 30, 60, 110, 150})
	}
	stamp := 0
	for _, rt := range types {
		for _, n := range []string{"a", "b"} {
			stamp++
			c.Sets = append(c.Sets, evictSet{At: 0, T: rt, N: n, S: stamp})
		}
	}
	for i := ri(t, 1, 6); i > 0; i-- {
		c.Looks = append(c.Looks, schedLook{At: around(), T: pick(t, types), N: pick(t, []string{"a", "b"}), Cancel: -1, Miss: delay(), Wait: delay(), Woken: delay(), Exp: delay()})
	}
	for i := ri(t, 0, 6); i > 0; i-- {
		s := evictSet{At: around(), T: pick(t, types), N: pick(t, []string{"a", "b"}), Force: oneIn(t, 3)}
		if !oneIn(t, 5) {
			stamp++
			s.S = stamp
		}
		c.Sets = append(c.Sets, s)
	}
	if !oneIn(t, 3) {
		c.ApplyMS = []int{delay(), delay()}
	}
	return c
}

// ---- stopping for good ----

type stopCase struct {
	NDS       bool     `json:"nds"`
	LDS       bool     `json:"lds"`
	TimeoutMS int      `json:"timeout_ms"`
	Stage     string   `json:"stage"` // run, nds, lds, connect, stall
	Auth      string   `json:"auth"`
	Cached    []string `json:"cached"`
	T         rtype    `json:"t"`
	Before    int      `json:"before"` // lookups of unknown names under way when it happens
	After     int      `json:"after"`  // lookups of unknown names afterwards
	GapMS     int      `json:"gap_ms"`
	CancelMS  int      `json:"cancel_ms"`
	Queued    int      `json:"queued"` // responses queued in front of the failure
	Again     bool     `json:"again"`
}

func authErr(k string) error {
	switch k {
	case "status":
		return kstatus.New(codes.Unauthenticated, "verif: bad token").Err()
	case "wrapped-long":
		return kstatus.Errorf(codes.Unauthenticated, "verif: %s", strings.Repeat("x", 300))
	}
	return errAuth
}

func runStop(cx *Ctx, c stopCase) error {
	cp := newCP()
	T := ms(c.TimeoutMS)
	o := mgrOpts{NDS: c.NDS, LDS: c.LDS, FetchTimeout: T}
	if T == 0 {
		T = time.Second
	}
	if c.Stage == "connect" {
		cp.failOpenForever = true
		cp.openErr = errors.New("verif: no route to host")
		if c.Auth == "open" {
			cp.openErr = errAuth
		}
	}
	begin := time.Now()
	ch := startManager(cx, cp, o)
	synctest.Wait()
	auth := func() {
		s := cp.live()
		if s == nil {
			panic(stuck{"the client opens no stream"})
		}
		if c.Auth == "queued" {
			s.failAfterQueue(errAuth)
			return
		}
		s.fail(authErr(c.Auth))
	}
	var m xmgr
	step := func(stage string) bool { // the rejection comes at this stage
		if c.Stage == stage {
			auth()
			synctest.Wait()
			return true
		}
		return false
	}
	stopped := c.Stage == "connect"
	if c.NDS && !stopped {
		if stopped = step("nds"); !stopped {
			cp.send(xdsresource.NameTableTypeURL, "nds-0", anys(nameTable(linTable)))
			synctest.Wait()
		}
	}
	if c.LDS && !stopped {
		if stopped = step("lds"); !stopped {
			cp.send(xdsresource.ListenerTypeURL, "lds-0", nil)
			synctest.Wait()
		}
	}
	limit := 30 * time.Second
	if c.Stage == "connect" {
		limit = time.Hour // its connection attempts back off for a quarter of an hour
	}
	for time.Since(begin) < limit && m == nil {
		select {
		case r := <-ch:
			if r.err != nil {
				cx.Class("start-up fails with an error")
				cx.NT()
				cp.shutdown()
				synctest.Wait()
				return nil
			}
			m = r.m
			continue
		default:
		}
		time.Sleep(500 * time.Millisecond)
		synctest.Wait()
	}
	if m == nil {
		cx.Defer(func() { cp.shutdown() })
		if c.Stage == "nds" || c.Stage == "lds" || c.Stage == "connect" {
			return fmt.Errorf("start-up does not return %v after the client stopped (stage %s)", limit, c.Stage)
		}
		panic(stuck{warmupStuck})
	}
	teardown(cx, cp, m)
	cached := map[string]int{}
	if !stopped {
		for i, n := range c.Cached {
			l := goGet(cx, m, context.Background(), c.T, n)
			synctest.Wait()
			if s := cp.live(); s != nil {
				var rs []*anypb.Any
				cached[n] = i + 1
				for k, v := range cached {
					w := k
					if c.T == tL && c.NDS && k != inbound {
						w = linWire[k]
					}
					rs = append(rs, packRes(c.T, []hres{{N: w, S: v}})...)
				}
				cp.send(urlOf[c.T], fmt.Sprint(i), rs)
				synctest.Wait()
			}
			if !l.finished() || l.err != nil {
				return fmt.Errorf("lookup of %q is not answered by its delivery: %v", n, l.err)
			}
		}
	}
	var looks []*lookup
	deadline := map[*lookup]time.Time{}
	spawn := func(n int, label string) {
		for i := 0; i < n; i++ {
			ctx := context.Background()
			d := T
			if c.CancelMS > 0 && i%3 == 1 && ms(c.CancelMS) < T {
				c2, cancel := context.WithTimeout(ctx, ms(c.CancelMS))
				cx.Defer(cancel)
				ctx, d = c2, ms(c.CancelMS)
			}
			l := goGet(cx, m, ctx, c.T, fmt.Sprintf("%s%d", label, i))
			deadline[l] = l.start.Add(d)
			looks = append(looks, l)
		}
	}
	check := func(where string) error {
		for i, l := range looks {
			if !l.finished() {
				return fmt.Errorf("%s: lookup %d of %q has not returned %v after its start (deadline after %v)", where, i, l.name, time.Since(l.start), deadline[l].Sub(l.start))
			}
			if l.err == nil {
				return fmt.Errorf("%s: lookup of %q, which was never supplied, succeeds with %v", where, l.name, l.val)
			}
			if l.end.After(deadline[l]) {
				return fmt.Errorf("%s: lookup of %q returned %v after its start, deadline after %v", where, l.name, l.end.Sub(l.start), deadline[l].Sub(l.start))
			}
		}
		for _, n := range sortedKeys(cached) {
			t0 := time.Now()
			l := goGet(cx, m, context.Background(), c.T, n)
			synctest.Wait()
			if !l.finished() {
				return fmt.Errorf("%s: lookup of the cached %q does not return", where, n)
			}
			if l.err != nil {
				return fmt.Errorf("%s: lookup of the cached %q fails: %v", where, n, l.err)
			}
			if !l.end.Equal(t0) {
				return fmt.Errorf("%s: lookup of the cached %q took %v", where, n, l.end.Sub(t0))
			}
			if s, err := readStamp(c.T, l.val); err != nil || s != cached[n] {
				return fmt.Errorf("%s: lookup of the cached %q returns stamp %d (%v), want %d", where, n, s, err, cached[n])
			}
		}
		return nil
	}
	if c.Stage == "connect" {
		// nothing to wait for
	} else if c.Stage == "stall" {
		// the next stream accepts the connection but nothing can be sent on it for a while
		if s := cp.live(); s != nil {
			cp.mu.Lock()
			cp.nextStall = true
			cp.mu.Unlock()
			s.fail(errReset)
			synctest.Wait()
		}
	}
	spawn(c.Before, "early")
	time.Sleep(ms(c.GapMS))
	opens, reqs := -1, -1
	if c.Stage == "run" {
		for i := 0; i < c.Queued; i++ {
			cp.send(urlOf[c.T], "same", nil)
		}
		if c.T == tL || c.T == tC {
			if c.Queued > 0 {
				cached = map[string]int{}
			}
		}
		auth()
		synctest.Wait()
		stopped = true
	}
	if stopped && c.Stage != "connect" {
		opens, reqs = cp.nopens(), cp.nreqs()
	}
	spawn(c.After, "late")
	synctest.Wait()
	cx.ClassIf(c.Before+c.After > 1024, "more lookups than the request queue holds")
	cx.Class("stage " + c.Stage)
	cx.NTIf(c.After > 0 && (stopped || c.Stage == "stall"))
	time.Sleep(T + time.Millisecond)
	synctest.Wait()
	if err := check("after it stopped"); err != nil {
		return err
	}
	if c.Again {
		spawn(3, "again")
		time.Sleep(T + time.Millisecond)
		synctest.Wait()
		if err := check("later"); err != nil {
			return err
		}
	}
	if opens >= 0 {
		time.Sleep(20 * time.Second)
		synctest.Wait()
		if n := cp.nopens(); n != opens {
			return fmt.Errorf("%d streams were opened after the authentication rejection", n-opens)
		}
		if n := cp.nreqs(); n != reqs {
			return fmt.Errorf("%d requests were sent after the authentication rejection", n-reqs)
		}
		return check("20 s later")
	}
	if c.Stage == "stall" {
		if s := cp.live(); s != nil {
			s.setStall(false)
		}
		synctest.Wait()
		want := sset{}
		for _, l := range looks {
			want[l.name] = true
		}
		for n := range cached {
			want[n] = true
		}
		if c.LDS && c.T == tL {
			want[inbound] = true
		}
		got := sset{}
		for _, q := range cp.log() {
			if q.Type == c.T {
				got = sset{}
				for _, n := range q.Names {
					got[n] = true
				}
			}
		}
		if len(want) > 0 && want.key() != got.key() {
			return fmt.Errorf("once requests can be sent again, the last one lists %d names, %d are of interest", len(got), len(want))
		}
	}
	return nil
}

func genStop(t *rapid.T) stopCase {
	c := stopCase{
		NDS: flip(t), LDS: flip(t), TimeoutMS: pick(t, []int{0, 100, 1000}), Stage: pick(t, []string{"run", "run", "run", "nds", "lds", "connect", "stall"}),
		Auth: pick(t, []string{"plain", "status", "wrapped-long", "queued"}), T: pick(t, dataTypes), Before: ri(t, 0, 4), After: ri(t, 0, 4),
		GapMS: pick(t, []int{0, 1, 50, 99, 1000}), CancelMS: pick(t, []int{0, 1, 30, 500}), Again: flip(t),
	}
	switch c.Stage {
	case "nds":
		c.NDS = true
	case "lds":
		c.LDS = true
	case "connect":
		if oneIn(t, 2) {
			c.Auth = "open"
		}
	}
	if c.Stage != "nds" && c.Stage != "lds" && c.Stage != "connect" {
		for _, n := range []string{"a", "b"} {
			if flip(t) {
				c.Cached = append(c.Cached, n)
			}
		}
	}
	if c.Stage == "run" && oneIn(t, 4) {
		c.Queued = ri(t, 1, 3)
	}
	if oneIn(t, 12) {
		c.After = pick(t, []int{1023, 1026, 1100})
		if c.Before > 0 && flip(t) {
			c.After = pick(t, []int{1020, 1024})
		}
	}
	return c
}

func init() {
	register(spec[evictCase]{
		Prop: "C19", Name: "race", Quick: 40000, Thorough: 3000000,
		Rule: "a name was withdrawn on the wire while responses were handled slowly or a lookup was in progress",
		Gen:  genEvict, Run: runEvict,
	})
	for _, p := range []string{"C04", "C05"} {
		register(spec[stopCase]{
			Prop: p, Name: "stop", Quick: 8000, Thorough: 400000,
			Rule: "lookups were made after the client stopped or while nothing could be sent",
			Gen: func(t *rapid.T) stopCase {
				c := genStop(t)
				if p == "C05" && (c.Stage == "nds" || c.Stage == "lds") {
					c.Stage = "run" // a start-up that hangs is C04's
				}
				return c
			},
			Run: runStop,
		})
	}
}
