package xdsverif

// Storms (C19): many idle names, looked up by parallel goroutines at the very instant of a sweep. The control plane
// answers at once, so every lookup has to succeed whatever the order, and what was looked up stays cached and asked for.

import (
	"context"
	"fmt"
	"slices"
	"sync"
	"sync/atomic"
	"testing/synctest"
	"time"

	"pgregory.net/rapid"

	"github.com/kitex-contrib/xds/core/xdsresource"
)

type stormCase struct {
	T      rtype        `json:"t"`
	Slow   bool         `json:"slow,omitempty"` // a handler that takes real time
	Names  int          `json:"names"`
	Rounds []stormRound `json:"rounds"`
}

type stormRound struct {
	Sweep int   `json:"sweep"` // the sweep the round falls on
	OffMS int   `json:"off"`
	First []int `json:"first"` // per goroutine, the first name
	Len   int   `json:"len"`   // names per goroutine
	Step  int   `json:"step"`
	Push  int   `json:"push,omitempty"` // the control plane re-sends everything so often at that instant, too
}

func runStorm(cx *Ctx, c stormCase) error {
	cp := newCP()
	e := &evictCP{cp: cp, state: map[rtype]map[string]int{}, last: map[rtype][]string{}, had: map[rtype]map[string][]stampAt{}}
	cp.onReq = e.onReq
	ch := startManager(cx, cp, mgrOpts{LDS: true, FetchTimeout: 200 * time.Millisecond})
	synctest.Wait()
	var m xmgr
	select {
	case r := <-ch:
		if r.err != nil {
			panic(stuck{"start-up fails: " + r.err.Error()})
		}
		m = r.m
	default:
		cx.Defer(func() { cp.shutdown() })
		panic(stuck{warmupStuck})
	}
	teardown(cx, cp, m)
	if c.Slow {
		m.RegisterXDSUpdateHandler(c.T, func(res map[string]xdsresource.Resource) {
			if len(res) > 0 {
				burn()
			}
		})
	}
	start := time.Now()
	name := func(i int) string { return fmt.Sprintf("n%03d", i%c.Names) }
	for i := 0; i < c.Names; i++ {
		e.set(c.T, name(i), i+1, false)
	}
	var mu sync.Mutex
	var bad error
	look := func(i int) {
		v, err := m.Get(context.Background(), c.T, name(i))
		if err == nil {
			var s int
			if s, err = readStamp(c.T, v); err == nil && s != i%c.Names+1 {
				err = fmt.Errorf("stamp %d", s)
			}
		}
		if err != nil {
			mu.Lock()
			if bad == nil {
				bad = fmt.Errorf("%s %q looked up at %v fails with %v, the control plane has it and answers at once", xdsresource.ResourceTypeToName[c.T], name(i), time.Since(start), err)
			}
			mu.Unlock()
		}
	}
	for i := 0; i < c.Names; i++ {
		look(i)
	}
	reqs := cp.nreqs()
	for _, r := range c.Rounds {
		at := start.Add(time.Duration(r.Sweep)*expire + ms(r.OffMS))
		var wg sync.WaitGroup
		asked := map[string]bool{}
		for _, f := range r.First {
			for k := 0; k < r.Len; k++ {
				asked[name(f+k*r.Step)] = true
			}
			wg.Add(1)
			cx.Go(func() {
				defer wg.Done()
				time.Sleep(time.Until(at))
				for k := 0; k < r.Len; k++ {
					look(f + k*r.Step)
				}
			})
		}
		if r.Push > 0 {
			cx.Go(func() {
				time.Sleep(time.Until(at))
				e.mu.Lock()
				if s := cp.live(); s != nil {
					for k := 0; k < r.Push; k++ {
						e.push(s, c.T)
					}
				}
				e.mu.Unlock()
			})
		}
		wg.Wait()
		time.Sleep(time.Second)
		synctest.Wait()
		if bad != nil {
			return bad
		}
		var interest []string
		for _, q := range cp.log() {
			if q.Type == c.T {
				interest = q.Names
			}
		}
		snap := snapshot(m, c.T)
		for n := range asked {
			if _, ok := snap[n]; !ok {
				return fmt.Errorf("%s %q, looked up at %v, is not cached a second later", xdsresource.ResourceTypeToName[c.T], n, at.Sub(start))
			}
			if !slices.Contains(interest, n) {
				return fmt.Errorf("%s %q, looked up at %v, is not asked for a second later: the last request lists %q", xdsresource.ResourceTypeToName[c.T], n, at.Sub(start), interest)
			}
		}
		for n := range snap {
			if n != inbound && !slices.Contains(interest, n) {
				return fmt.Errorf("%s %q is cached at %v although the last request lists %q", xdsresource.ResourceTypeToName[c.T], n, time.Since(start), interest)
			}
		}
		for _, n := range interest {
			if _, ok := snap[n]; !ok && n != inbound {
				return fmt.Errorf("%s %q is asked for at %v although it was evicted: the last request lists %q, cached are %q", xdsresource.ResourceTypeToName[c.T], n, time.Since(start), interest, sortedKeys(snap))
			}
		}
	}
	cx.ClassIf(cp.nreqs() > reqs+4, "requests during the storm")
	cx.NTIf(cp.nreqs() > reqs+2)
	return nil
}

var burnt atomic.Int64

// burn takes about 2 ms of real time: long enough for a waiting goroutine to be handed the mutex at the next release.
func burn() {
	for i := 0; i < 400000; i++ {
		burnt.Add(1)
	}
}

func genStorm(t *rapid.T) stormCase {
	c := stormCase{T: pick(t, dataTypes), Names: pick(t, []int{2, 10, 40, 100})}
	c.Slow = oneIn(t, 4)
	sweep := 0
	for i := ri(t, 1, 3); i > 0; i-- {
		sweep += ri(t, 2, 3)
		r := stormRound{Sweep: sweep, OffMS: pick(t, []int{0, 0, 0, 0, 1, -1}), Len: min(c.Names, pick(t, []int{1, 4, 30})), Step: pick(t, []int{1, 1, 3, c.Names - 1})}
		if oneIn(t, 4) {
			r.Push = ri(t, 1, 3)
		}
		for j := ri(t, 1, 6); j > 0; j-- {
			r.First = append(r.First, ri(t, 0, c.Names-1))
		}
		if c.Slow { // names come to be cached by few responses
			c.Names, r.Len, r.Push = 3, 1, pick(t, []int{3, 6})
		}
		c.Rounds = append(c.Rounds, r)
	}
	return c
}

func init() {
	register(spec[stormCase]{
		Prop: "C19", Name: "storm", Quick: 2000, Thorough: 200000,
		Rule: "requests were sent during the storm, so names were evicted or subscribed again",
		Gen:  genStorm, Run: runStorm,
	})
}
