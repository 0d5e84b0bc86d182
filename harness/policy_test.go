package xdsverif

// Policies derived from updates: C16 (circuit breaker), C17 (retry), C18 (limit). Histories of updates, rejected
// updates, reconnects, evictions and suites created late, on the real manager; after every step each suite is compared
// with what the reference derives from the control plane's messages.

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"runtime"
	"sort"
	"strconv"
	"testing/synctest"
	"time"

	"github.com/cloudwego/kitex/client"
	"github.com/cloudwego/kitex/pkg/circuitbreak"
	"github.com/cloudwego/kitex/pkg/endpoint"
	"github.com/cloudwego/kitex/pkg/kerrors"
	"github.com/cloudwego/kitex/pkg/limit"
	"github.com/cloudwego/kitex/pkg/retry"
	"github.com/cloudwego/kitex/pkg/rpcinfo"
	"github.com/cloudwego/kitex/pkg/utils"
	"google.golang.org/protobuf/types/known/anypb"
	"pgregory.net/rapid"

	"github.com/kitex-contrib/xds/core/xdsresource"
	"github.com/kitex-contrib/xds/xdssuite"
)

type polOp struct {
	K   string        `json:"k"` // get, push, bad, late, idle, reset, attach
	N   string        `json:"n,omitempty"`
	CDS []clusterSpec `json:"cds,omitempty"`
	RDS []rdsSpec     `json:"rds,omitempty"`
	LDS []lisSpec     `json:"lds,omitempty"`
	At  int           `json:"at,omitempty"` // bad: position of the corrupted slot
	P   uint32        `json:"p,omitempty"`  // late limiter: configured port
}

type polCase struct {
	Ops []polOp `json:"ops"`
}

// polEnv is the running system of a policy history.
type polEnv struct {
	cx    *Ctx
	cp    *fakeCP
	m     xmgr
	rt    xdsresource.ResourceType
	ver   int
	nPush int
}

func newPolEnv(cx *Ctx, rt xdsresource.ResourceType) *polEnv {
	cp := newCP()
	e := &polEnv{cx: cx, cp: cp, rt: rt}
	e.m = newManager(cx, cp, mgrOpts{NDS: true, LDS: true, FetchTimeout: 100 * time.Millisecond},
		map[string][]string{"a.default.svc.cluster.local": {"10.0.0.1"}, "b.default.svc.cluster.local": {"10.0.0.2"}})
	theDispatcher.use(e.m)
	return e
}

// subscribed is what the last request of the type on the live stream asks for (nil: no request yet).
func (e *polEnv) subscribed() map[string]bool {
	s := e.cp.live()
	if s == nil {
		return nil
	}
	var out map[string]bool
	for _, r := range e.cp.log() {
		if r.Stream == s.id && r.Type == e.rt {
			out = map[string]bool{}
			for _, n := range r.Names {
				out[n] = true
			}
		}
	}
	return out
}

// common executes the operations that are the same for every policy; handled is false for the others.
func (e *polEnv) common(op polOp) (handled bool) {
	switch op.K {
	case "get":
		ctx, cancel := context.WithTimeout(context.Background(), 50*time.Millisecond)
		defer cancel()
		_, _ = e.m.Get(ctx, e.rt, op.N)
		synctest.Wait()
	case "reset":
		e.cp.live().fail(errReset)
		synctest.Wait()
		for i := 0; i < 50 && e.cp.live() == nil; i++ {
			time.Sleep(200 * time.Millisecond)
			synctest.Wait()
		}
		if e.cp.live() == nil {
			panic(stuck{"the client does not open a stream again"})
		}
	case "idle":
		time.Sleep(65 * time.Second)
		synctest.Wait()
	default:
		return false
	}
	return true
}

// push sends resources; with bad a slot is corrupted. It reports whether the client can have processed it.
func (e *polEnv) push(as []*anypb.Any, bad bool, at int) bool {
	if e.subscribed() == nil {
		return false
	}
	if bad {
		junk := &anypb.Any{TypeUrl: urlOf[e.rt], Value: []byte{0x0a, 0xff, 0xff}}
		at %= len(as) + 1
		as = append(as[:at:at], append([]*anypb.Any{junk}, as[at:]...)...)
	} else {
		e.nPush++
	}
	e.ver++
	e.cp.send(urlOf[e.rt], "v"+strconv.Itoa(e.ver), as)
	synctest.Wait()
	return true
}

// ---- C16 ----

var cbNames = []string{"outbound|80||a", "outbound|80||b", "c", "d"}

func genCBCluster(t *rapid.T, n string) clusterSpec {
	s := clusterSpec{N: n, Type: pick(t, []string{"EDS", "EDS", "LOGICAL_DNS", "STATIC"}), LB: pick(t, []string{"ROUND_ROBIN", "RING_HASH"}), OD: !oneIn(t, 4)}
	if oneIn(t, 3) {
		s.Svc = pick(t, []string{"svc", "c", "outbound|80||a"})
	}
	if oneIn(t, 6) {
		cla := genCLA(t, n)
		s.Inline = &cla
	}
	if s.OD {
		s.Thr = optU32(t, 0, 1, 10, 33, 50, 85, 100)
		if s.Thr != nil && *s.Thr > 100 {
			*s.Thr %= 101
		}
		s.Vol = optU32(t, 0, 1, 5, 50, 1000, 32768, 65537, 1<<31, 4294967295)
		s.Noise = flip(t)
	}
	return s
}

func genC16(t *rapid.T) polCase {
	var c polCase
	for i := ri(t, 3, 16); i > 0; i-- {
		switch x := ri(t, 0, 19); {
		case x < 5:
			c.Ops = append(c.Ops, polOp{K: "get", N: pick(t, cbNames)})
		case x < 14:
			op := polOp{K: "push"}
			for _, n := range cbNames {
				if !oneIn(t, 3) {
					op.CDS = append(op.CDS, genCBCluster(t, n))
				}
			}
			if oneIn(t, 6) {
				op.K, op.At = "bad", ri(t, 0, 4)
			}
			c.Ops = append(c.Ops, op)
		case x < 17:
			c.Ops = append(c.Ops, polOp{K: "late"})
		case x < 19:
			c.Ops = append(c.Ops, polOp{K: "reset"})
		default:
			c.Ops = append(c.Ops, polOp{K: "idle"})
		}
	}
	return c
}

type cbSide struct {
	s     *clientSide
	had   map[string]bool // names an update configured since the breaker exists
	loose bool            // created after evictions that no update followed: evicted clusters may be configured or not
}

// wantCB is the configuration derived from one cluster (nil: none).
func wantCB(s clusterSpec) *circuitbreak.CBConfig {
	if !s.OD {
		return nil
	}
	if val32(s.Thr) != 0 && val32(s.Vol) != 0 {
		return &circuitbreak.CBConfig{Enable: true, ErrRate: float64(val32(s.Thr)) / 100, MinSample: int64(val32(s.Vol))}
	}
	return &circuitbreak.CBConfig{}
}

func (b *cbSide) check(where string, latest map[string]clusterSpec) error {
	got := cbConfigs(b.s.cb)
	names := map[string]bool{}
	for n := range got {
		names[n] = true
	}
	for n := range latest {
		names[n] = true
	}
	for n := range b.had {
		names[n] = true
	}
	for _, n := range sortedKeys(names) {
		g, ok := got[n]
		var want *circuitbreak.CBConfig
		if s, in := latest[n]; in {
			want = wantCB(s)
		}
		switch {
		case want != nil && want.Enable:
			if b.loose && !ok {
				continue
			}
			if !ok || !g.Enable || math.Abs(g.ErrRate-want.ErrRate) > 1e-12 || g.MinSample != want.MinSample {
				return fmt.Errorf("%s: cluster %q has configuration %+v (present: %v), want %+v", where, n, g, ok, *want)
			}
		case want != nil || b.had[n]:
			if b.loose && !ok {
				continue
			}
			if !ok || g.Enable {
				return fmt.Errorf("%s: cluster %q has configuration %+v (present: %v), want it disabled", where, n, g, ok)
			}
		default:
			if ok && g.Enable {
				return fmt.Errorf("%s: cluster %q has configuration %+v, want none", where, n, g)
			}
		}
	}
	return nil
}

func runC16(cx *Ctx, c polCase) error {
	e := newPolEnv(cx, xdsresource.ClusterType)
	latest := map[string]clusterSpec{}
	evicted := false
	var sides []*cbSide
	add := func() {
		s := newClientSide(xdssuite.WithServiceCircuitBreak(true))
		cx.Defer(s.close)
		b := &cbSide{s: s, had: map[string]bool{}, loose: evicted}
		if !evicted {
			for n, s := range latest {
				if s.OD {
					b.had[n] = true
				}
			}
		}
		sides = append(sides, b)
	}
	add()
	dropped := false
	for i, op := range c.Ops {
		where := fmt.Sprintf("after op %d (%s)", i, op.K)
		switch {
		case e.common(op):
			if op.K == "idle" && len(latest) > 0 {
				evicted = true
			}
		case op.K == "late":
			add()
			cx.ClassIf(len(latest) > 0, "breaker created after updates")
		default:
			var as []*anypb.Any
			for _, s := range op.CDS {
				as = append(as, anys(s.msg())...)
			}
			sub := e.subscribed()
			if !e.push(as, op.K == "bad", op.At) || op.K == "bad" {
				cx.ClassIf(op.K == "bad" && sub != nil, "rejected update")
				break
			}
			now := map[string]clusterSpec{}
			for _, s := range op.CDS {
				if sub[s.N] {
					now[s.N] = s
				}
			}
			for n, s := range latest {
				if w := wantCB(s); w != nil && w.Enable {
					if x, ok := now[n]; !ok || !x.OD {
						dropped = true
					}
				}
			}
			latest, evicted = now, false
			for _, b := range sides {
				b.loose = false
				for n, s := range latest {
					if s.OD {
						b.had[n] = true
					}
				}
			}
		}
		for j, b := range sides {
			if err := b.check(fmt.Sprintf("%s breaker %d", where, j), latest); err != nil {
				return err
			}
		}
	}
	cx.ClassIf(dropped, "an enabled cluster was dropped or lost its configuration")
	cx.ClassIf(e.nPush > 2, "more than two updates")
	cx.NTIf(dropped)
	return nil
}

// The behaviour of the installed breaker: it opens after the configured number of failures of a routed cluster.
type c16TripCase struct {
	CDS     []clusterSpec `json:"cds"`
	Next    []clusterSpec `json:"next"`
	Service bool          `json:"service"` // WithServiceCircuitBreak
}

func genC16Trip(t *rapid.T) c16TripCase {
	gen := func() []clusterSpec {
		var out []clusterSpec
		for _, n := range cbNames[:2] {
			if oneIn(t, 4) {
				continue
			}
			s := clusterSpec{N: n, Type: "EDS", LB: "ROUND_ROBIN", OD: true}
			s.Thr = optU32(t, 0, 10, 50, 100)
			if s.Thr != nil && *s.Thr > 100 {
				*s.Thr %= 101
			}
			s.Vol = optU32(t, 0, 1, 3, 10, 20)
			if s.Vol != nil && *s.Vol > 20 {
				*s.Vol %= 21
			}
			out = append(out, s)
		}
		return out
	}
	return c16TripCase{CDS: gen(), Next: gen(), Service: flip(t)}
}

func runC16Trip(cx *Ctx, c c16TripCase) error {
	st := newStub()
	theDispatcher.use(st)
	o := &client.Options{}
	xdssuite.NewClientOption(xdssuite.WithServiceCircuitBreak(c.Service)).F(o, &utils.Slice{})
	var mw endpoint.Middleware
	if c.Service {
		if o.CBSuite == nil {
			return errors.New("no circuit breaker is installed")
		}
		cx.Defer(func() { _ = o.CBSuite.Close() })
		mw = o.CBSuite.ServiceCBMW()
	} else {
		if len(o.IMWBs) != 1 {
			return fmt.Errorf("%d instance middlewares are installed, want the breaker's", len(o.IMWBs))
		}
		mw = o.IMWBs[0](context.Background())
	}
	fail := mw(func(context.Context, interface{}, interface{}) error { return kerrors.ErrRPCTimeout })
	had := map[string]bool{}
	for round, cds := range [][]clusterSpec{c.CDS, c.Next} {
		var as []*anypb.Any
		latest := map[string]clusterSpec{}
		for _, s := range cds {
			as = append(as, anys(s.msg())...)
			latest[s.N] = s
			had[s.N] = true
		}
		m, err := xdsresource.UnmarshalCDS(as)
		if err != nil {
			return fmt.Errorf("well-formed clusters rejected: %v", err)
		}
		if len(st.handlers[xdsresource.ClusterType]) == 0 {
			return errors.New("no cluster update handler is registered")
		}
		for _, h := range st.handlers[xdsresource.ClusterType] {
			h(m)
		}
		if round == 0 {
			continue // the second state is exercised: panels remember failures
		}
		for _, n := range cbNames[:2] {
			s, ok := latest[n]
			if !ok && !had[n] {
				continue // never configured: kitex's own default
			}
			w := &circuitbreak.CBConfig{}
			if ok {
				if x := wantCB(s); x != nil {
					w = x
				}
			}
			calls := 45
			for i := 0; i < calls; i++ {
				ri, to := callSpec{Svc: "Echo", Method: "Say"}.rpcInfo(worldHost)
				_ = to.SetTag(xdssuite.RouterClusterKey, n)
				err := fail(rpcinfo.NewCtxWithRPCInfo(context.Background(), ri), nil, nil)
				open := !errors.Is(err, kerrors.ErrRPCTimeout)
				// at most one window boundary can reset the counters while the calls are made
				if open && (!w.Enable || int64(i) < w.MinSample) {
					return fmt.Errorf("cluster %q: call %d is rejected (%v) under %+v", n, i, err, *w)
				}
				if !open && w.Enable && i == calls-1 {
					return fmt.Errorf("cluster %q: %d failing calls all pass under %+v", n, calls, *w)
				}
			}
			cx.ClassIf(w.Enable, "breaker opened")
			cx.ClassIf(!w.Enable, "breaker stayed closed")
			cx.NTIf(w.Enable)
		}
	}
	return nil
}

// ---- C17 ----

var rtNames = []string{"80", "8080", "a:80"}

func genPolicyRDS(t *rapid.T, n string) rdsSpec {
	s := genRDS(t, n, 2, 3, true)
	for vi := range s.VHs {
		for i := range s.VHs[vi].Routes {
			r := &s.VHs[vi].Routes[i]
			r.Hdrs = nil
			if flip(t) && (r.Dest == "redirect" || r.Dest == "direct" || r.Dest == "none" || r.Dest == "header") {
				r.Dest, r.C = "cluster", pick(t, clusterN)
			}
		}
	}
	return s
}

func genC17(t *rapid.T) polCase {
	var c polCase
	for i := ri(t, 3, 14); i > 0; i-- {
		switch x := ri(t, 0, 19); {
		case x < 6:
			c.Ops = append(c.Ops, polOp{K: "get", N: pick(t, rtNames)})
		case x < 14:
			op := polOp{K: "push"}
			for _, n := range rtNames {
				if flip(t) {
					op.RDS = append(op.RDS, genPolicyRDS(t, n))
				}
			}
			if oneIn(t, 6) {
				op.K, op.At = "bad", ri(t, 0, 3)
			}
			c.Ops = append(c.Ops, op)
		case x < 17:
			c.Ops = append(c.Ops, polOp{K: "late"})
		case x < 19:
			c.Ops = append(c.Ops, polOp{K: "reset"})
		default:
			c.Ops = append(c.Ops, polOp{K: "idle"})
		}
	}
	return c
}

// policyOf is the reference derivation of one route's retry policy.
func policyOf(r *retrySpec) retry.Policy {
	if r == nil {
		r = &retrySpec{}
	}
	num := int(val32(r.Num))
	rate := 0.0
	if r.Rate != "" {
		var err error
		rate, err = strconv.ParseFloat(r.Rate, 64)
		must(err)
	}
	bo := &retry.BackOffPolicy{BackOffType: retry.NoneBackOffType}
	if r.Backoff {
		base, max := dur(r.Base), dur(r.Max)
		if max > base {
			bo = &retry.BackOffPolicy{BackOffType: retry.RandomBackOffType, CfgItems: map[retry.BackOffCfgKey]float64{
				retry.MinMSBackOffCfgKey: float64(base.Milliseconds()), retry.MaxMSBackOffCfgKey: float64(max.Milliseconds()),
			}}
		} else {
			bo = &retry.BackOffPolicy{BackOffType: retry.FixedBackOffType, CfgItems: map[retry.BackOffCfgKey]float64{
				retry.FixMSBackOffCfgKey: float64(base.Milliseconds()),
			}}
		}
	}
	return retry.Policy{Enable: true, Type: retry.FailureType, FailurePolicy: &retry.FailurePolicy{
		StopPolicy: retry.StopPolicy{
			MaxRetryTimes: num, MaxDurationMS: uint32(num) * uint32(dur(r.PTT).Milliseconds()), CBPolicy: retry.CBPolicy{ErrorRate: rate},
		},
		BackOffPolicy: bo,
	}}
}

// policyDump renders the policy as a fresh container shows it.
func policyDump(p retry.Policy) string {
	rc := retry.NewRetryContainer()
	defer rc.Close()
	rc.NotifyPolicyChange("k", p)
	return canonDump(retryDump(rc)["k"])
}

func canonDump(v interface{}) string {
	b, err := json.Marshal(v)
	must(err)
	var m map[string]interface{}
	must(json.Unmarshal(b, &m))
	delete(m, "err_msg")
	b, err = json.Marshal(m)
	must(err)
	return string(b)
}

// wantPolicies lists the acceptable policies per key.
func wantPolicies(tables map[string]rdsSpec) map[string]map[string]bool {
	out := map[string]map[string]bool{}
	add := func(k, d string) {
		if out[k] == nil {
			out[k] = map[string]bool{}
		}
		out[k][d] = true
	}
	for _, s := range tables {
		for _, vh := range s.VHs {
			for _, r := range vh.Routes {
				cl := r.clusters()
				if len(cl) == 0 {
					continue
				}
				d := policyDump(policyOf(r.Retry))
				for _, k := range cl {
					add(k.N, d)
					if r.Retry != nil {
						for _, m := range r.Retry.Methods {
							add(k.N+"|"+m, d)
						}
					}
				}
			}
		}
	}
	return out
}

func checkPolicies(where string, rc *retry.Container, want map[string]map[string]bool) error {
	got := retryDump(rc)
	for _, k := range sortedKeys(want) {
		g, ok := got[k]
		if !ok {
			return fmt.Errorf("%s: no retry policy for %q", where, k)
		}
		if s := canonDump(g); !want[k][s] {
			return fmt.Errorf("%s: retry policy of %q is %s, want one of %v", where, k, s, sortedKeys(want[k]))
		}
	}
	for _, k := range sortedKeys(got) {
		if want[k] == nil {
			return fmt.Errorf("%s: retry policy of %q is left although no cached table refers to it: %s", where, k, canonDump(got[k]))
		}
	}
	return nil
}

type rcSide struct {
	s     *clientSide
	loose bool // existed before an eviction that no update followed
}

func runC17(cx *Ctx, c polCase) error {
	e := newPolEnv(cx, xdsresource.RouteConfigType)
	tables := map[string]rdsSpec{}
	want := wantPolicies(tables)
	var sides []*rcSide
	add := func() {
		s := newClientSide()
		cx.Defer(s.close)
		sides = append(sides, &rcSide{s: s})
	}
	add()
	removed, kept := false, false
	for i, op := range c.Ops {
		where := fmt.Sprintf("after op %d (%s)", i, op.K)
		switch {
		case e.common(op):
			if op.K == "idle" {
				tables = map[string]rdsSpec{}
				want = wantPolicies(tables)
				for _, s := range sides {
					s.loose = true
				}
			}
		case op.K == "late":
			add()
			cx.ClassIf(len(tables) > 0, "container created after updates")
		default:
			var as []*anypb.Any
			for j := range op.RDS {
				as = append(as, anys(op.RDS[j].msg())...)
			}
			sub := e.subscribed()
			if !e.push(as, op.K == "bad", op.At) || op.K == "bad" {
				cx.ClassIf(op.K == "bad" && sub != nil, "rejected update")
				break
			}
			n := 0
			for _, s := range op.RDS {
				if sub[s.N] {
					tables[s.N] = s
					n++
				}
			}
			kept = kept || n < len(tables)
			next := wantPolicies(tables)
			for k := range want {
				if next[k] == nil {
					removed = true
				}
			}
			want = next
			for _, s := range sides {
				s.loose = false
			}
		}
		for j, s := range sides {
			if s.loose {
				continue
			}
			if err := checkPolicies(fmt.Sprintf("%s container %d", where, j), s.s.rc, want); err != nil {
				return err
			}
		}
	}
	cx.ClassIf(removed, "a policy had to be removed")
	cx.ClassIf(kept, "a partial update omitted a cached table")
	cx.ClassIf(len(want) > 3, "more than three policies at the end")
	cx.NTIf(removed || kept)
	return nil
}

// ---- C18 ----

func genInbound(t *rapid.T) lisSpec {
	l := lisSpec{N: xdsresource.ReservedLdsResourceName}
	rt := func() filterSpec {
		f := filterSpec{K: "rds", RDS: "inbound", HF: genHF(t)}
		if flip(t) {
			s := genRDS(t, "inbound", 1, 1, true)
			f = filterSpec{K: "inline", Inline: &s, HF: genHF(t)}
		}
		if flip(t) && len(f.HF) == 0 {
			f.HF = []hfSpec{{K: "rl", Max: 7, TPF: uint32(pick(t, []int{0, 1, 100, 5000}))}}
		}
		return f
	}
	chain := func(port int) chainSpec {
		c := chainSpec{}
		if port >= 0 {
			p := uint32(port)
			c.Port = &p
		} else {
			c.Match = flip(t)
		}
		if oneIn(t, 4) {
			c.Filters = append(c.Filters, filterSpec{K: "other"})
		}
		c.Filters = append(c.Filters, rt())
		if oneIn(t, 4) {
			c.Filters = append(c.Filters, filterSpec{K: "none"})
		}
		return c
	}
	ports := []int{8888, 80, 9090, 15006, 65535}
	for _, p := range ports {
		if flip(t) {
			l.Chains = append(l.Chains, chain(p))
		}
	}
	if flip(t) {
		c := chain(-1)
		switch x := ri(t, 0, 3); {
		case x == 0:
			l.Default = &c
		case x == 1:
			l.Chains = append([]chainSpec{c}, l.Chains...)
		default:
			l.Chains = append(l.Chains, c)
		}
	}
	if len(l.Chains) > 1 && flip(t) {
		sort.SliceStable(l.Chains, func(i, j int) bool { return val32(l.Chains[i].Port) > val32(l.Chains[j].Port) })
	}
	return l
}

func genC18(t *rapid.T) polCase {
	var c polCase
	lims := 1
	if flip(t) {
		c.Ops = append(c.Ops, polOp{K: "attach"})
	}
	for i := ri(t, 3, 14); i > 0; i-- {
		switch x := ri(t, 0, 19); {
		case x < 2:
			c.Ops = append(c.Ops, polOp{K: "get", N: pick(t, []string{"a:80", "b:80"})})
		case x < 12:
			op := polOp{K: "push"}
			if !oneIn(t, 5) {
				op.LDS = append(op.LDS, genInbound(t))
			}
			if flip(t) {
				op.LDS = append(op.LDS, lisSpec{N: "10.0.0.1_80", Chains: []chainSpec{{Filters: []filterSpec{{K: "rds", RDS: "rt", HF: []hfSpec{{K: "rl", Max: 3, TPF: 3}}}}}}})
			}
			if oneIn(t, 6) {
				op.K, op.At = "bad", ri(t, 0, 2)
			}
			c.Ops = append(c.Ops, op)
		case x < 15:
			c.Ops = append(c.Ops, polOp{K: "late", P: uint32(pick(t, []int{0, 80, 8888, 9090, 1234, 15006, 65535}))})
			lims++
			if flip(t) {
				c.Ops = append(c.Ops, polOp{K: "attach", At: lims - 1})
			}
		case x < 17:
			op := polOp{K: "attach", At: ri(t, 0, 3)}
			if flip(t) {
				op.K = "handover"
				if !oneIn(t, 4) {
					op.LDS = append(op.LDS, genInbound(t))
				}
			}
			c.Ops = append(c.Ops, op)
		case x < 19:
			c.Ops = append(c.Ops, polOp{K: "reset"})
		default:
			c.Ops = append(c.Ops, polOp{K: "idle"})
		}
	}
	return c
}

// wantLimit is the reference limit (0: unlimited).
func wantLimit(in *lisSpec, port uint32) uint32 {
	if in == nil {
		return 0
	}
	var byPort, def *uint32
	chains := append([]chainSpec(nil), in.Chains...)
	if in.Default != nil {
		chains = append(chains, *in.Default)
	}
	for _, ch := range chains {
		for _, f := range ch.Filters {
			if f.K != "rds" && f.K != "inline" {
				continue
			}
			_, tpf := bucket(f.HF)
			v := tpf
			switch {
			case val32(ch.Port) == 0:
				def = &v
			case val32(ch.Port) == port:
				byPort = &v
			}
		}
	}
	switch {
	case byPort != nil:
		return *byPort
	case def != nil:
		return *def
	}
	return 0
}

func unlimited(v int) bool { return v <= 0 || v == math.MaxInt || v == math.MaxInt32 }

func limitIs(v int, want uint32) bool {
	if want == 0 {
		return unlimited(v)
	}
	return v == int(want)
}

// limSide is a server: it reads the option when it starts and is told changes through its updater from then on.
type limSide struct {
	port  uint32
	lim   *limit.Option
	up    *recUpdater
	start [2]int // MaxQPS, MaxConnections when it started
}

func (s *limSide) attach(u *recUpdater) {
	s.start = [2]int{s.lim.MaxQPS, s.lim.MaxConnections}
	s.up = u
	if s.lim.UpdateControl != nil {
		s.lim.UpdateControl(u)
	}
}

// startServer does what a starting server does with its limit option (a new one by default).
func startServer(lim *limit.Option) *limSide {
	if lim == nil {
		lim = newLimit()
	}
	s := &limSide{lim: lim}
	s.attach(&recUpdater{ret: true})
	return s
}

func (s *limSide) check(where string, in *lisSpec) error {
	if s.up == nil {
		return nil // nothing runs
	}
	want := wantLimit(in, s.port)
	l, how := s.start, "started with"
	if x, n := s.up.last(); n > 0 {
		l, how = x, "was last told"
	}
	if !limitIs(l[0], want) || !unlimited(l[1]) {
		return fmt.Errorf("%s: the running server's limiter %s %v, want QPS %d (0: unlimited) and any number of connections", where, how, l, want)
	}
	return nil
}

func runC18(cx *Ctx, c polCase) error {
	e := newPolEnv(cx, xdsresource.ListenerType)
	var in *lisSpec
	var sides []*limSide
	add := func(port uint32) {
		var opts []xdssuite.Option
		if port != 0 {
			opts = append(opts, xdssuite.WithServicePort(port))
		}
		sides = append(sides, &limSide{port: port, lim: newLimit(opts...)})
	}
	add(8888)
	changes := 0
	apply := func(op polOp) {
		old := in
		in = nil
		for j := range op.LDS {
			if op.LDS[j].N == xdsresource.ReservedLdsResourceName {
				in = &op.LDS[j]
			}
		}
		for _, s := range sides {
			if a, b := wantLimit(old, s.port), wantLimit(in, s.port); a != b {
				changes++
				cx.ClassIf(b == 0, "limit lifted")
				cx.ClassIf(s.up != nil, "changed while the server runs")
			}
		}
	}
	for i, op := range c.Ops {
		where := fmt.Sprintf("after op %d (%s)", i, op.K)
		switch {
		case e.common(op):
		case op.K == "late":
			add(op.P)
			cx.ClassIf(wantLimit(in, op.P) != 0, "limiter created under a limit")
		case op.K == "attach":
			s := sides[op.At%len(sides)]
			if s.up == nil {
				s.attach(&recUpdater{ret: true})
				cx.ClassIf(wantLimit(in, s.port) != 0, "server started under a limit")
			}
		case op.K == "handover":
			// the listener changes while the starting server takes over the limiter
			s := sides[op.At%len(sides)]
			if s.up == nil && e.subscribed()[xdsresource.ReservedLdsResourceName] {
				var as []*anypb.Any
				for _, l := range op.LDS {
					as = append(as, anys(l.msg())...)
				}
				sent := false
				send := func() {
					sent = true
					e.ver++
					e.cp.send(urlOf[e.rt], "v"+strconv.Itoa(e.ver), as)
					for k := 0; k < 200; k++ {
						runtime.Gosched()
					}
				}
				s.attach(&recUpdater{ret: true, once: send})
				if !sent {
					send()
				}
				synctest.Wait()
				apply(op)
				cx.Class("changed during the hand-over")
			}
		default:
			var as []*anypb.Any
			for _, l := range op.LDS {
				as = append(as, anys(l.msg())...)
			}
			sub := e.subscribed()
			if !e.push(as, op.K == "bad", op.At) || op.K == "bad" {
				cx.ClassIf(op.K == "bad" && sub != nil, "rejected update")
				break
			}
			apply(op)
		}
		for j, s := range sides {
			if err := s.check(fmt.Sprintf("%s limiter %d (port %d)", where, j, s.port), in); err != nil {
				return err
			}
		}
		// and a server that starts right now
		probe := &limSide{port: []uint32{8888, 80, 9090, 15006, 65535}[i%5], lim: newLimit(xdssuite.WithServicePort([]uint32{8888, 80, 9090, 15006, 65535}[i%5]))}
		probe.attach(&recUpdater{ret: true})
		if err := probe.check(fmt.Sprintf("%s a new limiter (port %d)", where, probe.port), in); err != nil {
			return err
		}
	}
	// every limiter made during the history serves a server that starts now
	for j, s := range sides {
		if s.up == nil {
			s.attach(&recUpdater{ret: true})
		}
		if err := s.check(fmt.Sprintf("finally limiter %d (port %d)", j, s.port), in); err != nil {
			return err
		}
	}
	cx.NTIf(changes > 1)
	return nil
}

func init() {
	register(spec[polCase]{
		Prop: "C16", Name: "history", Quick: 40000, Thorough: 2000000,
		Rule: "an update dropped, or took the configuration from, a cluster that was enabled",
		Gen:  genC16, Run: runC16,
	})
	register(spec[c16TripCase]{
		Prop: "C16", Name: "trip", Quick: 4000, Thorough: 200000, NoBubble: true,
		Rule: "a breaker configured by the update opened",
		Gen:  genC16Trip, Run: runC16Trip,
	})
	register(spec[polCase]{
		Prop: "C17", Name: "history", Quick: 40000, Thorough: 2000000,
		Rule: "a policy had to be removed, or a partial update omitted a cached table",
		Gen:  genC17, Run: runC17,
	})
	register(spec[polCase]{
		Prop: "C18", Name: "history", Quick: 40000, Thorough: 2000000,
		Rule: "the limit of some limiter changed more than once",
		Gen:  genC18, Run: runC18,
	})
}
