package xdsverif

// Histories: a program of lookups, responses, faults and idle time run against the real manager, client and cleaner
// in virtual time, next to a reference model. Each property asserts its own part of the comparison.

import (
	"context"
	"fmt"
	"runtime"
	"slices"
	"strings"
	"sync/atomic"
	"testing/synctest"
	"time"

	clusterv3 "github.com/envoyproxy/go-control-plane/envoy/config/cluster/v3"
	endpointv3 "github.com/envoyproxy/go-control-plane/envoy/config/endpoint/v3"
	listenerv3 "github.com/envoyproxy/go-control-plane/envoy/config/listener/v3"
	routev3 "github.com/envoyproxy/go-control-plane/envoy/config/route/v3"
	lrlv3 "github.com/envoyproxy/go-control-plane/envoy/extensions/filters/http/local_ratelimit/v3"
	hcmv3 "github.com/envoyproxy/go-control-plane/envoy/extensions/filters/network/http_connection_manager/v3"
	discoveryv3 "github.com/envoyproxy/go-control-plane/envoy/service/discovery/v3"
	typev3 "github.com/envoyproxy/go-control-plane/envoy/type/v3"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/anypb"
	"google.golang.org/protobuf/types/known/durationpb"
	"pgregory.net/rapid"

	"github.com/kitex-contrib/xds/core/xdsresource"
)

const inbound = "virtualInbound"

type rtype = xdsresource.ResourceType

const (
	tL = xdsresource.ListenerType
	tR = xdsresource.RouteConfigType
	tC = xdsresource.ClusterType
	tE = xdsresource.EndpointsType
	tN = xdsresource.NameTableType
)

var dataTypes = []rtype{tL, tR, tC, tE}

type histCase struct {
	NDS       bool                `json:"nds"`
	LDS       bool                `json:"lds"`
	TimeoutMS int                 `json:"timeout_ms"`
	Table     map[string][]string `json:"table"`
	Ops       []hop               `json:"ops"`
}

// hop is one operation of a history.
type hop struct {
	K      string              `json:"k"`
	T      rtype               `json:"t,omitempty"`
	N      string              `json:"n,omitempty"`
	Res    []hres              `json:"res,omitempty"`
	V      string              `json:"v,omitempty"`
	S      int                 `json:"s,omitempty"`
	Mask   uint32              `json:"mask,omitempty"`
	MS     int                 `json:"ms,omitempty"`
	I      int                 `json:"i,omitempty"`
	Bad    string              `json:"bad,omitempty"`
	Table  map[string][]string `json:"table,omitempty"`
	NoWait bool                `json:"nowait,omitempty"`
}

type hres struct {
	N   string `json:"n"`
	S   int    `json:"s"`
	Bad string `json:"bad,omitempty"`
}

// ---- payloads ----

// stamped builds a resource of type t named n whose decoded form reveals the stamp s.
func stamped(t rtype, n string, s int) proto.Message {
	switch t {
	case tL:
		l := rdsListener(n, fmt.Sprintf("rt-%d", s))
		if n == inbound {
			h := &hcmv3.HttpConnectionManager{
				RouteSpecifier: &hcmv3.HttpConnectionManager_Rds{Rds: &hcmv3.Rds{RouteConfigName: fmt.Sprintf("rt-%d", s)}},
				HttpFilters: []*hcmv3.HttpFilter{{Name: "rl", ConfigType: &hcmv3.HttpFilter_TypedConfig{
					TypedConfig: anyOf(rateURL, &lrlv3.LocalRateLimit{StatPrefix: "x", TokenBucket: &typev3.TokenBucket{
						MaxTokens: uint32(s + 10), TokensPerFill: u32(uint32(s + 10)), FillInterval: durationpb.New(time.Second),
					}}),
				}}},
			}
			l.FilterChains[0].Filters = []*listenerv3.Filter{hcmFilter(h)}
		}
		return l
	case tR:
		r := oneRoute(n, fmt.Sprintf("cl-%d", s))
		r.VirtualHosts[0].Routes[0].GetRoute().RetryPolicy = &routev3.RetryPolicy{
			NumRetries: u32(uint32(1 + s%5)), PerTryTimeout: durMS(100 + s),
		}
		return r
	case tC:
		c := edsCluster(n, fmt.Sprintf("es-%d", s))
		c.OutlierDetection = &clusterv3.OutlierDetection{
			FailurePercentageThreshold: u32(uint32(1 + s%100)), FailurePercentageRequestVolume: u32(uint32(s + 1)),
		}
		return c
	case tE:
		return oneEndpoint(n, uint32(s+1))
	}
	panic(harnessErr{"stamped: type"})
}

// readStamp checks the kind of a served value and extracts its stamp.
func readStamp(t rtype, v interface{}) (int, error) {
	bad := func(why string) (int, error) {
		return 0, fmt.Errorf("%s lookup returned %T: %s", xdsresource.ResourceTypeToName[t], v, why)
	}
	var s int
	switch t {
	case tL:
		l, ok := v.(*xdsresource.ListenerResource)
		if !ok {
			return bad("not a listener")
		}
		if l == nil {
			return bad("nil placeholder")
		}
		if len(l.NetworkFilters) != 1 {
			return bad("filters lost")
		}
		if _, err := fmt.Sscanf(l.NetworkFilters[0].RouteConfigName, "rt-%d", &s); err != nil {
			return bad("content")
		}
	case tR:
		r, ok := v.(*xdsresource.RouteConfigResource)
		if !ok {
			return bad("not a route table")
		}
		if r == nil || r.HTTPRouteConfig == nil || len(r.HTTPRouteConfig.VirtualHosts) != 1 || len(r.HTTPRouteConfig.VirtualHosts[0].Routes) != 1 || len(r.HTTPRouteConfig.VirtualHosts[0].Routes[0].WeightedClusters) != 1 {
			return bad("nil or truncated")
		}
		if _, err := fmt.Sscanf(r.HTTPRouteConfig.VirtualHosts[0].Routes[0].WeightedClusters[0].Name, "cl-%d", &s); err != nil {
			return bad("content")
		}
	case tC:
		c, ok := v.(*xdsresource.ClusterResource)
		if !ok {
			return bad("not a cluster")
		}
		if c == nil {
			return bad("nil placeholder")
		}
		if _, err := fmt.Sscanf(c.EndpointName, "es-%d", &s); err != nil {
			return bad("content")
		}
	case tE:
		e, ok := v.(*xdsresource.EndpointsResource)
		if !ok {
			return bad("not an endpoint set")
		}
		if e == nil {
			return bad("nil placeholder")
		}
		if len(e.Localities) != 1 || len(e.Localities[0].Endpoints) != 1 {
			return bad("truncated")
		}
		if _, err := fmt.Sscanf(e.Localities[0].Endpoints[0].Addr().String(), "10.9.9.9:%d", &s); err != nil {
			return bad("content")
		}
		s--
	default:
		return bad("unexpected type")
	}
	return s, nil
}

// emptyStamp stands for a resource built by emptyOf.
const emptyStamp = -7

func emptyOf(t rtype, n string) proto.Message {
	switch t {
	case tL:
		return &listenerv3.Listener{Name: n}
	case tR:
		return &routev3.RouteConfiguration{Name: n}
	case tC:
		return &clusterv3.Cluster{Name: n}
	case tE:
		return &endpointv3.ClusterLoadAssignment{ClusterName: n}
	}
	panic(harnessErr{"emptyOf: type"})
}

// readStampOrEmpty is readStamp for histories that also hold empty resources: such a resource is a value, too.
func readStampOrEmpty(t rtype, v interface{}) (int, error) {
	switch x := v.(type) {
	case *xdsresource.ListenerResource:
		if t == tL && x != nil && len(x.NetworkFilters) == 0 {
			return emptyStamp, nil
		}
	case *xdsresource.RouteConfigResource:
		if t == tR && x != nil && (x.HTTPRouteConfig == nil || len(x.HTTPRouteConfig.VirtualHosts) == 0) {
			return emptyStamp, nil
		}
	case *xdsresource.ClusterResource:
		if t == tC && x != nil && !strings.HasPrefix(x.EndpointName, "es-") {
			return emptyStamp, nil
		}
	case *xdsresource.EndpointsResource:
		if t == tE && x != nil && len(x.Localities) == 0 {
			return emptyStamp, nil
		}
	}
	return readStamp(t, v)
}

var badBytes = []byte{0x0a, 0xff, 0x01}

// packRes packs programmed resources, corrupting the marked slots. The slot is certain to be undecodable.
func packRes(t rtype, rs []hres) []*anypb.Any {
	out := make([]*anypb.Any, 0, len(rs))
	for _, r := range rs {
		m := stamped(t, r.N, r.S)
		a := anyOf(urlOf[t], m)
		switch r.Bad {
		case "":
		case "empty": // well-formed, with nothing in it
			a = anyOf(urlOf[t], emptyOf(t, r.N))
		case "url":
			if t == tC {
				a.TypeUrl = urlOf[tE]
			} else {
				a.TypeUrl = urlOf[tC]
			}
		case "trunc":
			a.Value = append(append([]byte(nil), a.Value...), badBytes...)
		case "sem": // a semantic error where the type has one
			switch t {
			case tR:
				rc := m.(*routev3.RouteConfiguration)
				if r.S%2 == 0 {
					rc.VirtualHosts[0].Routes[0].Action = nil
				} else {
					rc.VirtualHosts[0].Routes[0].Match = nil
				}
				a = anyOf(urlOf[t], rc)
			case tL:
				l := m.(*listenerv3.Listener)
				l.FilterChains[0].Filters = append(l.FilterChains[0].Filters, &listenerv3.Filter{Name: "x",
					ConfigType: &listenerv3.Filter_TypedConfig{TypedConfig: &anypb.Any{TypeUrl: hcmURL, Value: badBytes}}})
				a = anyOf(urlOf[t], l)
			default:
				a.TypeUrl = urlOf[tN]
			}
		default:
			panic(harnessErr{"packRes: " + r.Bad})
		}
		out = append(out, a)
	}
	return out
}

func anyBad(rs []hres) bool {
	for _, r := range rs {
		if r.Bad != "" && r.Bad != "empty" {
			return true
		}
	}
	return false
}

// ---- the model ----

type centry struct {
	stamp   int
	arrived time.Time // since when it is continuously cached
	touched time.Time // last lookup that hit or was answered
	tried   time.Time // last lookup of any outcome
}

type sset map[string]bool

func (s sset) clone() sset {
	o := sset{}
	for k := range s {
		o[k] = true
	}
	return o
}
func (s sset) key() string { return strings.Join(sortedKeys(s), "\x00") }
func subset(a, b sset) bool {
	for k := range a {
		if !b[k] {
			return false
		}
	}
	return true
}

type hmodel struct {
	nds, lds bool
	timeout  time.Duration
	interest map[rtype]sset
	maybe    map[rtype]sset // names whose withdrawal is not determined by the property
	unsure   map[rtype]sset // names of interest for which it is not determined whether the cache holds them
	states   map[rtype][]sset
	opens    map[rtype][]sset // with each state, the names whose withdrawal was open
	matched  map[rtype]int
	cache    map[rtype]map[string]*centry
	version  map[rtype]string
	table    map[string][]string
	ldsDirty bool                           // name table changed since the last accepted listener response
	last     map[rtype]map[string]time.Time // last lookup of any outcome, also of names not cached
	sweepAt  time.Time
	evicted  int
	grown    int
	dropped  int
	merged   int
}

func (m *hmodel) push(t rtype) {
	m.states[t] = append(m.states[t], m.interest[t].clone())
	m.opens[t] = append(m.opens[t], m.maybe[t].clone())
}

func (m *hmodel) subscribe(t rtype, n string) {
	if m.interest[t] == nil {
		m.interest[t] = sset{}
	}
	if m.interest[t][n] && !m.maybe[t][n] {
		return
	}
	if m.maybe[t][n] { // it may have been withdrawn in between, and its content be gone
		delete(m.maybe[t], n)
		delete(m.interest[t], n)
		m.push(t)
		if m.unsure[t] == nil {
			m.unsure[t] = sset{}
		}
		m.unsure[t][n] = true
	}
	m.interest[t][n] = true
	m.grown++
	m.push(t)
}

func (m *hmodel) resolve(n string) string {
	host, port, ok := strings.Cut(n, ":")
	if !ok {
		port = "80"
	}
	fq := host
	if !strings.Contains(host, ".") {
		fq = host + ".default.svc.cluster.local"
	}
	ips := m.table[fq]
	if len(ips) == 0 {
		ips = m.table[host]
	}
	if len(ips) == 0 {
		return ""
	}
	return ips[0] + "_" + port
}

// accept folds an accepted response; names in interest (certain or maybe) only. It returns the names delivered.
func (m *hmodel) accept(t rtype, rs []hres, version string, now time.Time) map[string]int {
	m.version[t] = version
	raw := map[string]int{}
	for _, r := range rs {
		raw[r.N] = r.S
		if r.Bad == "empty" {
			raw[r.N] = emptyStamp
		}
	}
	del := map[string]int{}
	for n := range m.interest[t] {
		k := n
		if t == tL && m.nds && n != inbound {
			k = m.resolve(n)
		}
		if s, ok := raw[k]; ok && k != "" {
			del[n] = s
		}
	}
	if m.cache[t] == nil {
		m.cache[t] = map[string]*centry{}
	}
	if t == tL || t == tC {
		delete(m.unsure, t)
	}
	for n, s := range del {
		delete(m.unsure[t], n)
		if e := m.cache[t][n]; e != nil {
			e.stamp = s
		} else {
			m.cache[t][n] = &centry{stamp: s, arrived: now, tried: m.last[t][n]}
		}
	}
	if t == tL || t == tC {
		for n := range m.cache[t] {
			if _, ok := del[n]; !ok {
				delete(m.cache[t], n)
				m.dropped++
			}
		}
	} else if len(m.cache[t]) > len(del) {
		m.merged++
	}
	if t == tL {
		m.ldsDirty = false
	}
	return del
}

const expire = 30 * time.Second

// sweeps applies every sweep up to now.
func (m *hmodel) sweeps(now time.Time) {
	for !m.sweepAt.After(now) {
		at := m.sweepAt
		m.sweepAt = m.sweepAt.Add(expire)
		for _, t := range append([]rtype{tN}, dataTypes...) {
			before := m.interest[t].clone()
			changed := false
			for _, n := range sortedKeys(m.cache[t]) {
				if t == tL && n == inbound {
					continue
				}
				e := m.cache[t][n]
				ref := e.arrived
				if e.tried.After(ref) {
					ref = e.tried
				}
				switch {
				case m.unsure[t][n]:
					m.markMaybe(t, n)
				case at.Sub(ref) > expire:
					delete(m.cache[t], n)
					delete(m.interest[t], n)
					m.evicted++
					changed = true
				case !e.touched.IsZero() && at.Sub(e.touched) <= expire:
				default:
					// looked up without success or merely re-delivered in between: not determined
					m.markMaybe(t, n)
				}
			}
			// names once cached, dropped by a full update and idle: their withdrawal is not determined
			if t == tL || t == tC {
				for n := range m.interest[t] {
					if _, ok := m.cache[t][n]; !ok && !(t == tL && n == inbound) && at.Sub(m.last[t][n]) > expire {
						m.markMaybe(t, n)
					}
				}
			}
			_ = before
			if changed {
				m.push(t)
			}
		}
	}
}

func (m *hmodel) markMaybe(t rtype, n string) {
	if m.maybe[t] == nil {
		m.maybe[t] = sset{}
	}
	m.maybe[t][n] = true
	m.opens[t][len(m.opens[t])-1][n] = true
}

// ---- the run ----

type hrun struct {
	cx                *Ctx
	c                 histCase
	cp                *fakeCP
	m                 xmgr
	mod               *hmodel
	want              map[string]bool // properties asserted
	seen              int             // requests consumed
	looks             []*hlook
	dead              bool // authentication rejected
	down              bool // streams cannot be opened
	stall             bool
	step              int
	t0                time.Time
	acks              []ackExp // acks expected in this step
	suite             *suites
	nfail, nrej, nacc int
	streamOf          int // stream live at the last verification
	firsts            map[int]map[rtype]bool
	issued            map[int]map[string]bool // nonces issued per stream
	rejAfter          bool
	failAfter         bool
	hit               int
	burst             []recvItem
	burstOn           *fakeStream
	gate              chan struct{} // the client waits before it hands the new stream to its sender
	gates, lags       int
	floods            int
	pushed            map[rtype]hop // latest response of the type, accepted or not
	changed           bool          // the set of names of interest may have changed between responses and their answers on the wire
	floor             map[rtype]int // position of the interest set when sends last began to be delayed
	outage            time.Time
	longOutage        bool
}

type hlook struct {
	*lookup
	deadline time.Time
	expect   int   // stamp expected, -1 unknown yet
	alts     []int // stamps of later responses of the same burst
	expAt    time.Time
	settled  bool
	lenient  bool
	checked  bool
}

type ackExp struct {
	t       rtype
	nonce   string
	version string
	reject  bool
	silent  bool // no request may echo it
}

func (r *hrun) errf(prop, f string, a ...any) error {
	if !r.want[prop] {
		return nil
	}
	return fmt.Errorf("op %d (%s) t=%v: %s", r.step, r.opName(), time.Since(r.t0), fmt.Sprintf(f, a...))
}

func (r *hrun) opName() string {
	if r.step >= 0 && r.step < len(r.c.Ops) {
		return string(canon(r.c.Ops[r.step]))
	}
	return "end"
}

func runHist(cx *Ctx, c histCase, props ...string) error {
	_, err := runHistory(cx, c, props...)
	return err
}

// runBacklog is runHist for histories with floods.
func runBacklog(cx *Ctx, c histCase, prop string) error {
	r, err := runHistory(cx, c, prop)
	cx.NTIf(r.floods > 0)
	return err
}

func runHistory(cx *Ctx, c histCase, props ...string) (*hrun, error) {
	r := &hrun{cx: cx, c: c, want: map[string]bool{}, firsts: map[int]map[rtype]bool{}, issued: map[int]map[string]bool{}}
	for _, p := range props {
		r.want[p] = true
	}
	r.cp = newCP()
	o := mgrOpts{NDS: c.NDS, LDS: c.LDS, FetchTimeout: time.Duration(c.TimeoutMS) * time.Millisecond}
	r.m = newManager(cx, r.cp, o, c.Table)
	cx.Defer(r.ungate)
	r.t0 = time.Now()
	r.mod = &hmodel{
		nds: c.NDS, lds: c.LDS, timeout: o.FetchTimeout, interest: map[rtype]sset{}, maybe: map[rtype]sset{}, unsure: map[rtype]sset{}, states: map[rtype][]sset{}, opens: map[rtype][]sset{},
		matched: map[rtype]int{}, cache: map[rtype]map[string]*centry{}, version: map[rtype]string{}, table: c.Table,
		last: map[rtype]map[string]time.Time{}, sweepAt: r.t0.Add(expire),
	}
	if o.FetchTimeout == 0 {
		r.mod.timeout = time.Second
	}
	for _, t := range append([]rtype{tN}, dataTypes...) {
		r.mod.interest[t] = nil
		r.mod.last[t] = map[string]time.Time{}
		r.mod.states[t], r.mod.opens[t] = []sset{{}}, []sset{{}}
	}
	if c.NDS {
		r.mod.subscribe(tN, "")
		r.mod.version[tN] = "nds-0"
		r.issued[0] = map[string]bool{"n1": true}
	}
	if c.LDS {
		r.mod.subscribe(tL, inbound)
		r.mod.version[tL] = "lds-0"
		if r.issued[0] == nil {
			r.issued[0] = map[string]bool{}
		}
		r.issued[0]["n1"], r.issued[0]["n2"] = true, true
	}
	if r.want["C02"] {
		theDispatcher.use(r.m)
		r.suite = newSuites(cx)
	}
	r.step = -1
	if err := r.verify(); err != nil {
		return r, err
	}
	time.Sleep(3 * time.Millisecond)
	for i := range c.Ops {
		r.step = i
		op := &c.Ops[i]
		if err := r.apply(op); err != nil {
			return r, err
		}
		if op.NoWait && i+1 < len(c.Ops) && isPush(c.Ops[i+1].K) && isPush(op.K) {
			continue
		}
		r.flush()
		synctest.Wait()
		if err := r.verify(); err != nil {
			return r, err
		}
	}
	r.step = len(c.Ops)
	err := r.finish()
	r.classify()
	return r, err
}

func isPush(k string) bool {
	return k == "push" || k == "serve" || k == "again" || k == "nds" || k == "unknown"
}

func (r *hrun) live() *fakeStream {
	if r.dead {
		return nil
	}
	return r.cp.live()
}

func (r *hrun) apply(op *hop) error {
	now := time.Now()
	switch op.K {
	case "get":
		r.get(op.T, op.N)
	case "gethit": // look up a name the model has cached
		if ks := sortedKeys(r.mod.cache[op.T]); len(ks) > 0 {
			r.get(op.T, ks[op.I%len(ks)])
		}
	case "push", "serve":
		s := r.live()
		if s == nil {
			return nil
		}
		if (r.subscribed(op.T) || r.busy()) && !r.requested(s.id, op.T) {
			return nil // a control plane answers requests it received on the stream
		}
		rs := op.Res
		if op.K == "serve" {
			rs = r.served(op)
		}
		if r.pushed == nil {
			r.pushed = map[rtype]hop{}
		}
		r.pushed[op.T] = hop{V: op.V, Res: rs}
		r.pushRes(s, op.T, op.V, rs, packRes(op.T, rs), anyBad(rs), now)
	case "nds":
		s := r.live()
		if s == nil {
			return nil
		}
		if (r.subscribed(tN) || r.busy()) && !r.requested(s.id, tN) {
			return nil
		}
		as := anys(nameTable(op.Table))
		switch op.Bad {
		case "url":
			as[0].TypeUrl = urlOf[tC]
		case "trunc":
			as[0].Value = append(append([]byte(nil), as[0].Value...), badBytes...)
		case "empty":
			as = nil
		case "second":
			as = append(as, &anypb.Any{TypeUrl: urlOf[tC]})
		case "second-trunc":
			as = append(as, &anypb.Any{TypeUrl: urlOf[tN], Value: badBytes})
		}
		n := r.nonce(s)
		r.queue(s, r.cp.resp(urlOf[tN], op.V, n, as))
		if len(r.mod.interest[tN]) == 0 && len(r.mod.states[tN]) == 1 {
			r.acks = append(r.acks, ackExp{t: tN, nonce: n, silent: true})
			return nil
		}
		if op.Bad != "" {
			r.nrej++
			r.rejAfter = r.rejAfter || r.nacc > 0
			r.acks = append(r.acks, ackExp{t: tN, nonce: n, version: r.mod.version[tN], reject: true})
			return nil
		}
		r.mod.version[tN] = op.V
		r.mod.table = op.Table
		r.mod.ldsDirty = true
		r.nacc++
		r.acks = append(r.acks, ackExp{t: tN, nonce: n, version: op.V})
	case "again": // the latest response of the type once more, or its content under another version
		s := r.live()
		old, ok := r.pushed[op.T]
		if s == nil || !ok || (r.subscribed(op.T) || r.busy()) && !r.requested(s.id, op.T) {
			return nil
		}
		if op.V == "" {
			op.V = old.V
		}
		r.pushRes(s, op.T, op.V, old.Res, packRes(op.T, old.Res), anyBad(old.Res), now)
	case "flood": // I responses of one type, the last ones perhaps rejected
		s := r.live()
		if s == nil || !r.subscribed(op.T) || !r.requested(s.id, op.T) {
			return nil
		}
		r.floods++
		for i := 0; i < op.I; i++ {
			var rs []hres
			if op.T != tL && op.T != tC || i == op.I-1 {
				rs = append(rs, op.Res...)
			}
			if op.Mask > 0 && i%int(op.Mask) == int(op.Mask)-1 && len(op.Res) > 0 {
				rs = append([]hres(nil), op.Res...)
				rs[0].Bad = "url"
			}
			r.pushRes(s, op.T, fmt.Sprintf("%s.%d", op.V, i), rs, packRes(op.T, rs), anyBad(rs), now)
		}
	case "release": // the stream takes requests again, and lookups start while it does
		if s := r.live(); s != nil && r.stall {
			if s.sendBudget >= 0 { // it may break in the meantime
				r.setFloor()
			}
			s.setStall(false)
			r.stall = false
			for _, x := range op.Res {
				r.getOrdered(op.T, x.N)
			}
		}
	case "unknown":
		s := r.live()
		if s == nil || r.busy() {
			return nil
		}
		n := r.nonce(s)
		url := []string{"type.googleapis.com/envoy.extensions.transport_sockets.tls.v3.Secret", "", "verif/unknown", "type.googleapis.com/envoy.service.runtime.v3.Runtime"}[op.I%4]
		r.queue(s, r.cp.resp(url, op.V, n, packRes(tC, op.Res)))
		r.acks = append(r.acks, ackExp{nonce: n, silent: true})
	case "adv":
		r.changed = r.changed || r.busy()
		time.Sleep(time.Duration(op.MS) * time.Millisecond)
	case "gate": // the stream breaks, and the client is slow to put the next one to use
		if s := r.live(); s != nil && !r.busy() {
			gate := make(chan struct{})
			r.gate = gate
			r.setFloor()
			clientYield.set(func(p string) {
				if p == "client.newstream" {
					<-gate
				}
			})
			r.nfail++
			r.gates++
			r.failAfter = r.failAfter || r.nacc > 0
			s.fail(streamErr(op.S))
			r.settle()
		}
	case "ungate":
		r.ungate()
	case "lag": // the next request takes I ms to be sent, whatever happens to the stream meanwhile
		if s := r.live(); s != nil && !r.busy() {
			r.cp.mu.Lock()
			s.lag = ms(op.MS)
			r.cp.mu.Unlock()
			r.setFloor()
			r.lags++
		}
	case "fail": // the stream breaks; the next I opens are refused
		if s := r.live(); s != nil && r.gate == nil {
			r.cp.mu.Lock()
			r.cp.failOpen = op.I
			r.cp.nextSendBudget = -1
			if op.MS > 0 {
				r.cp.nextSendBudget = op.MS - 1
			}
			r.cp.nextSendErr = op.S
			r.cp.openErr = streamErr(op.S + 1)
			r.cp.mu.Unlock()
			r.nfail++
			r.failAfter = r.failAfter || r.nacc > 0
			r.stall = false
			s.fail(streamErr(op.S))
			r.settle()
		}
	case "sendbreak": // after I more requests the stream breaks on Send
		if s := r.live(); s != nil && r.gate == nil {
			r.cp.mu.Lock()
			s.sendBudget, s.sendErr = op.I, op.S
			r.cp.mu.Unlock()
		}
	case "down":
		if s := r.live(); s != nil && r.gate == nil {
			r.outage = time.Now()
			r.cp.mu.Lock()
			r.cp.failOpenForever = true
			r.cp.openErr = streamErr(op.S)
			r.cp.mu.Unlock()
			r.down = true
			r.nfail++
			r.failAfter = r.failAfter || r.nacc > 0
			s.fail(streamErr(op.S + 1))
		}
	case "up":
		if r.down && !r.dead {
			r.cp.mu.Lock()
			r.cp.failOpenForever = false
			r.cp.mu.Unlock()
			r.down = false
			r.longOutage = r.longOutage || time.Since(r.outage) > 15*time.Minute
			r.settle()
		}
	case "stall":
		if s := r.live(); s != nil && !r.busy() {
			s.setStall(true)
			r.stall = true
		}
	case "unstall":
		if r.stall {
			if s := r.live(); s != nil {
				s.setStall(false)
			}
			r.stall = false
		}
	case "auth":
		if s := r.live(); s != nil && r.gate == nil {
			s.fail(errAuth)
			r.dead = true
			r.nfail++
			r.failAfter = r.failAfter || r.nacc > 0
		}
	default:
		panic(harnessErr{"op " + op.K})
	}
	return nil
}

// busy reports whether requests of the client do not reach the stream at present.
func (r *hrun) busy() bool { return r.stall || r.gate != nil || r.cp.lagging() }

// setFloor: requests composed from now on may reach the wire after newer ones that the client sends on the new stream.
func (r *hrun) setFloor() {
	if r.floor == nil {
		r.floor = map[rtype]int{}
		for t, i := range r.mod.matched {
			r.floor[t] = i
		}
	}
}

func (r *hrun) ungate() {
	if r.gate != nil {
		clientYield.set(nil)
		close(r.gate)
		r.gate = nil
	}
}

// queue collects the responses of a burst; flush hands them to the stream at once, so that whether the client gets
// them does not depend on how fast it answers the first ones.
func (r *hrun) queue(s *fakeStream, d *discoveryv3.DiscoveryResponse) {
	r.burstOn = s
	r.burst = append(r.burst, recvItem{resp: d})
}

func (r *hrun) flush() {
	if s := r.burstOn; s != nil {
		r.cp.mu.Lock()
		s.q = append(s.q, r.burst...)
		r.cp.cond.Broadcast()
		r.cp.mu.Unlock()
	}
	r.burst, r.burstOn = nil, nil
}

func (r *hrun) nonce(s *fakeStream) string {
	n := r.cp.nextNonce()
	if r.issued[s.id] == nil {
		r.issued[s.id] = map[string]bool{}
	}
	r.issued[s.id][n] = true
	return n
}

// served computes the resources of a "serve" op: the current interest, minus the masked names, plus extras.
func (r *hrun) served(op *hop) []hres {
	var rs []hres
	i := 0
	for _, n := range sortedKeys(r.mod.interest[op.T]) {
		k := n
		if op.T == tL && r.mod.nds && n != inbound {
			k = r.mod.resolve(n)
		}
		drop := op.Mask&(1<<(uint(i)%32)) != 0
		i++
		if drop || k == "" {
			continue
		}
		rs = append(rs, hres{N: k, S: op.S + i})
	}
	rs = append(rs, op.Res...)
	// a name at most once per response
	seen := map[string]bool{}
	out := rs[:0:0]
	for _, x := range rs {
		if !seen[x.N] {
			seen[x.N] = true
			out = append(out, x)
		}
	}
	if op.Bad != "" && len(out) > 0 {
		out[op.I%len(out)].Bad = op.Bad
	}
	return out
}

// requested reports whether the stream carried a request of the type.
func (r *hrun) requested(id int, t rtype) bool {
	for _, q := range r.cp.log() {
		if q.Stream == id && q.Type == t {
			return true
		}
	}
	return false
}

func (r *hrun) subscribed(t rtype) bool { return len(r.mod.states[t]) > 1 }

func (r *hrun) pushRes(s *fakeStream, t rtype, v string, rs []hres, as []*anypb.Any, bad bool, now time.Time) {
	n := r.nonce(s)
	r.queue(s, r.cp.resp(urlOf[t], v, n, as))
	if !r.subscribed(t) {
		r.acks = append(r.acks, ackExp{t: t, nonce: n, silent: true})
		return
	}
	if bad {
		r.nrej++
		r.rejAfter = r.rejAfter || r.nacc > 0
		r.acks = append(r.acks, ackExp{t: t, nonce: n, version: r.mod.version[t], reject: true})
		return
	}
	r.nacc++
	del := r.mod.accept(t, rs, v, now)
	for _, l := range r.looks {
		if l.rt == t && l.settled && !l.checked {
			if st, ok := del[l.name]; ok {
				l.alts = append(l.alts, st)
			}
		}
		if l.rt == t && !l.settled {
			if st, ok := del[l.name]; ok && now.Before(l.deadline) {
				l.expect, l.expAt, l.settled = st, now, true
				r.hit++
				if e := r.mod.cache[t][l.name]; e != nil {
					e.touched = now
					e.tried = now
				}
			}
		}
	}
	r.acks = append(r.acks, ackExp{t: t, nonce: n, version: v})
}

// getOrdered is get; it returns when the lookup has subscribed (or is over).
func (r *hrun) getOrdered(t rtype, n string) {
	var waits atomic.Bool
	ctx := context.WithValue(context.Background(), yieldKey{}, func(p string) {
		if p == "get.wait" {
			waits.Store(true)
		}
	})
	l := r.getCtx(ctx, t, n)
	for i := 0; i < 1000000 && !waits.Load() && !l.finished(); i++ {
		runtime.Gosched()
	}
}

func (r *hrun) get(t rtype, n string) { r.getCtx(context.Background(), t, n) }

func (r *hrun) getCtx(ctx context.Context, t rtype, n string) *hlook {
	now := time.Now()
	r.changed = r.changed || r.busy() || ctx != context.Background()
	l := &hlook{lookup: goGet(r.cx, r.m, ctx, t, n), deadline: now.Add(r.mod.timeout), expect: -1}
	r.looks = append(r.looks, l)
	r.mod.last[t][n] = now
	if e := r.mod.cache[t][n]; e != nil && !r.mod.maybe[t][n] {
		l.expect, l.expAt, l.settled = e.stamp, now, true
		e.touched, e.tried = now, now
		if t == tL && r.mod.ldsDirty || r.mod.unsure[t][n] {
			l.lenient = true
		}
		return l
	}
	if r.mod.maybe[t][n] {
		l.lenient = true
		// a hit keeps it, a miss subscribes again: either way it is of interest now, but its content is not determined
		if e := r.mod.cache[t][n]; e != nil {
			e.touched, e.tried = time.Time{}, now
		}
	}
	if t == tL && r.mod.ldsDirty || r.mod.unsure[t][n] {
		l.lenient = true
	}
	r.mod.subscribe(t, n)
	return l
}

// settle waits (in virtual time) until a stream is live and stable.
func (r *hrun) settle() {
	for i := 0; i < 4000; i++ {
		synctest.Wait()
		if s := r.cp.live(); s != nil {
			return
		}
		time.Sleep(137 * time.Millisecond)
	}
}

// verify compares the state reached at quiescence with the model.
func (r *hrun) verify() error {
	now := time.Now()
	m := r.mod
	if r.stall {
		if s := r.live(); s == nil {
			r.stall = false
		}
	}
	// a stream may have broken on Send: let the client reconnect
	if !r.dead && !r.down && r.cp.live() == nil {
		r.nfail++
		r.failAfter = r.failAfter || r.nacc > 0
		r.settle()
		if r.cp.live() == nil {
			if err := r.errf("C04", "no new stream although opens succeed again (opens so far: %d)", r.cp.nopens()); err != nil {
				return err
			}
			panic(stuck{"the client does not open a stream again"})
		}
		now = time.Now()
	}
	m.sweeps(now)

	// --- requests ---
	log := r.cp.log()
	fresh := log[r.seen:]
	r.seen = len(log)
	live := -1
	if s := r.live(); s != nil {
		live = s.id
	}
	echo := map[string][]reqRec{}
	for _, q := range fresh {
		if err := r.checkReq(q); err != nil {
			return err
		}
		if q.Nonce != "" {
			echo[q.Nonce] = append(echo[q.Nonce], q)
		}
	}
	if !r.busy() {
		if err := r.checkAcks(echo, live); err != nil {
			return err
		}
		r.changed = false
	}
	if live >= 0 && !r.busy() {
		for _, t := range append([]rtype{tN}, dataTypes...) {
			if !r.subscribed(t) {
				continue
			}
			var lastq *reqRec
			for i := range log {
				if log[i].Stream == live && log[i].URL == urlOf[t] {
					lastq = &log[i]
				}
			}
			if lastq == nil {
				if len(m.interest[t]) > 0 && len(m.interest[t]) > len(m.maybe[t]) {
					for _, p := range []string{"C03", "C04"} {
						if err := r.errf(p, "no %s request on live stream %d; interest %q", xdsresource.ResourceTypeToName[t], live, sortedKeys(m.interest[t])); err != nil {
							return err
						}
					}
				}
				continue
			}
			got := sset{}
			for _, n := range lastq.Names {
				got[n] = true
			}
			// withdrawals the property leaves open are read off the wire
			gone := false
			for n := range m.maybe[t] {
				if !got[n] {
					delete(m.interest[t], n)
					delete(m.cache[t], n)
					gone = true
				}
				delete(m.maybe[t], n)
			}
			for n := range m.unsure[t] {
				if !m.interest[t][n] {
					delete(m.unsure[t], n)
				}
			}
			if gone {
				m.push(t)
			}
			if normNames(t, got).key() != normNames(t, m.interest[t]).key() {
				if err := r.errf("C03", "last %s request on stream %d lists %q, interest set is %q", xdsresource.ResourceTypeToName[t], live, sortedKeys(got), sortedKeys(m.interest[t])); err != nil {
					return err
				}
				if err := r.errf("C19", "last %s request on stream %d lists %q, interest set is %q", xdsresource.ResourceTypeToName[t], live, sortedKeys(got), sortedKeys(m.interest[t])); err != nil {
					return err
				}
			}
		}
	}
	// --- served cache ---
	for _, t := range dataTypes {
		snap := snapshot(r.m, t)
		if err := r.checkSnap(t, snap); err != nil {
			return err
		}
	}
	// --- lookups ---
	if err := r.checkLooks(now); err != nil {
		return err
	}
	if r.dead {
		if n := r.cp.nopens(); n != len(r.cp.streams) {
			_ = n
		}
		if s := r.cp.live(); s != nil {
			if err := r.errf("C04", "a new stream was opened after an authentication rejection"); err != nil {
				return err
			}
		}
	}
	if !r.busy() && !r.cp.lagPending() {
		r.floor = nil
	}
	return nil
}

func normNames(t rtype, s sset) sset {
	if t != tN {
		return s
	}
	o := s.clone()
	delete(o, "")
	return o
}

func (r *hrun) checkReq(q reqRec) error {
	m := r.mod
	if q.Type == 0 {
		return r.errf("C03", "request with type URL %q", q.URL)
	}
	names := sset{}
	for _, n := range q.Names {
		names[n] = true
	}
	if q.Dup {
		if err := r.errf("C03", "request lists a name twice: %v", q); err != nil {
			return err
		}
	}
	nd := q.Node
	if nd.GetId() != "sidecar~10.1.2.3~pod-0.default~default.svc.cluster.local" || nd.GetMetadata().GetFields()["ISTIO_VERSION"] == nil {
		if err := r.errf("C03", "request does not identify the node: %v", nd); err != nil {
			return err
		}
	}
	// names: a state of the interest set, not older than the one an earlier request showed
	st := m.states[q.Type]
	nn := normNames(q.Type, names)
	shows := func(i int) bool {
		cur := normNames(q.Type, st[i])
		if nn.key() == cur.key() {
			return true
		}
		if !subset(nn, cur) {
			return false
		}
		// a sweep withdraws several names one by one, and open withdrawals may or may not have happened
		if i+1 < len(st) && subset(normNames(q.Type, st[i+1]), nn) {
			return true
		}
		open := true
		for n := range cur {
			if !nn[n] && !m.maybe[q.Type][n] && !m.opens[q.Type][i][n] && (i+1 >= len(st) || st[i+1][n]) {
				open = false
			}
		}
		return open
	}
	ok := false
	for i := m.matched[q.Type]; i < len(st) && !ok; i++ {
		if ok = shows(i); ok {
			m.matched[q.Type] = i
		}
	}
	if !ok && r.floor != nil {
		for i := r.floor[q.Type]; i < m.matched[q.Type] && !ok; i++ {
			ok = shows(i)
		}
	}
	if !ok {
		var ss []string
		for _, s := range st[m.matched[q.Type]:] {
			ss = append(ss, fmt.Sprintf("%q", sortedKeys(s)))
		}
		for _, p := range []string{"C03", "C19"} {
			if err := r.errf(p, "request %v lists names that never were the interest set; its values since the previous request: %s", q, strings.Join(ss, " -> ")); err != nil {
				return err
			}
		}
	}
	// nonces and versions per stream
	if r.firsts[q.Stream] == nil {
		r.firsts[q.Stream] = map[rtype]bool{}
	}
	if q.Nonce != "" && !r.issued[q.Stream][q.Nonce] {
		if err := r.errf("C04", "request %v carries a nonce that was not issued on its stream", q); err != nil {
			return err
		}
	}
	if q.Stream > 0 && !r.firsts[q.Stream][q.Type] {
		r.firsts[q.Stream][q.Type] = true
		if q.Nonce != "" {
			if err := r.errf("C04", "first %s request on stream %d carries nonce %q", xdsresource.ResourceTypeToName[q.Type], q.Stream, q.Nonce); err != nil {
				return err
			}
		}
		if q.Version != m.version[q.Type] {
			if err := r.errf("C04", "first %s request on stream %d carries version %q, last accepted is %q", xdsresource.ResourceTypeToName[q.Type], q.Stream, q.Version, m.version[q.Type]); err != nil {
				return err
			}
		}
	}
	return nil
}

func (r *hrun) checkAcks(echo map[string][]reqRec, live int) error {
	acks := r.acks
	r.acks = nil
	for _, a := range acks {
		qs := echo[a.nonce]
		tn := xdsresource.ResourceTypeToName[a.t]
		if a.silent {
			if len(qs) > 0 {
				if err := r.errf("C02", "response %s of an unknown or never-subscribed type was acknowledged: %v", a.nonce, qs); err != nil {
					return err
				}
			}
			continue
		}
		if !r.issued[live][a.nonce] {
			continue // the stream broke meanwhile
		}
		if len(qs) > 1 && r.changed {
			// requests composed later, for lookups that started or names withdrawn since, echo the same nonce
			for i, q := range qs[1:] {
				if q.Type == a.t && !q.HasErr && q.Version == a.version {
					continue
				}
				if err := r.errf("C02", "request %v echoes nonce %s of the %s response like %v before it", q, a.nonce, tn, qs[i]); err != nil {
					return err
				}
			}
			qs = qs[:1]
		}
		if len(qs) != 1 {
			if err := r.errf("C02", "%d requests echo nonce %s of the %s response, want exactly one: %v", len(qs), a.nonce, tn, qs); err != nil {
				return err
			}
			continue
		}
		q := qs[0]
		if q.Type != a.t {
			if err := r.errf("C02", "the %s response %s is answered by %v", tn, a.nonce, q); err != nil {
				return err
			}
		}
		if q.Version != a.version {
			if err := r.errf("C02", "answer %v to %s response %s carries version %q, want %q (rejected=%v)", q, tn, a.nonce, q.Version, a.version, a.reject); err != nil {
				return err
			}
		}
		if q.HasErr != a.reject || (a.reject && q.Err == "") {
			if err := r.errf("C02", "answer %v to %s response %s: error detail present=%v, want %v", q, tn, a.nonce, q.HasErr, a.reject); err != nil {
				return err
			}
		}
	}
	if r.suite != nil {
		d := r.suite.dump()
		onlyRejected := len(acks) > 0
		for _, a := range acks {
			if !a.reject && !a.silent {
				onlyRejected = false
			}
		}
		if onlyRejected && d != r.suite.last {
			if err := r.errf("C02", "a rejected response changed the installed policies:\nbefore %s\nafter  %s", r.suite.last, d); err != nil {
				return err
			}
		}
		r.suite.last = d
	}
	return nil
}

func (r *hrun) checkSnap(t rtype, snap map[string]interface{}) error {
	m := r.mod
	tn := xdsresource.ResourceTypeToName[t]
	for n, v := range snap {
		st, err := readStampOrEmpty(t, v)
		if err != nil {
			for _, p := range []string{"C01", "C05"} {
				if e := r.errf(p, "cached %s %q: %v", tn, n, err); e != nil {
					return e
				}
			}
			continue
		}
		if m.maybe[t][n] || m.unsure[t][n] || (t == tL && m.ldsDirty && n != inbound) {
			continue
		}
		if !m.interest[t][n] {
			if err := r.errf("C01", "%s %q is stored (stamp %d) but was never asked for (interest %q)", tn, n, st, sortedKeys(m.interest[t])); err != nil {
				return err
			}
		}
		e := m.cache[t][n]
		if e == nil {
			for _, p := range []string{"C01", "C02", "C04"} {
				if err := r.errf(p, "%s %q is served (stamp %d) but the fold of the accepted responses does not contain it", tn, n, st); err != nil {
					return err
				}
			}
			if m.last[t][n] != (time.Time{}) {
				if err := r.errf("C19", "%s %q is still cached after the sweep that had to evict it (last lookup %v)", tn, n, m.last[t][n].Sub(r.t0)); err != nil {
					return err
				}
			}
			continue
		}
		if e.stamp != st {
			for _, p := range []string{"C01", "C02", "C04", "C19"} {
				if err := r.errf(p, "%s %q is served with stamp %d, the most recent accepted response carried %d", tn, n, st, e.stamp); err != nil {
					return err
				}
			}
		}
	}
	for n, e := range m.cache[t] {
		if _, ok := snap[n]; ok || m.maybe[t][n] || m.unsure[t][n] || (t == tL && m.ldsDirty && n != inbound) {
			continue
		}
		for _, p := range []string{"C01", "C02", "C04", "C19"} {
			if err := r.errf(p, "%s %q (stamp %d) is not served although the accepted responses contain it", tn, n, e.stamp); err != nil {
				return err
			}
		}
	}
	return nil
}

func (r *hrun) checkLooks(now time.Time) error {
	props := []string{"C01", "C04", "C05", "C06", "C19"}
	fail := func(l *hlook, f string, a ...any) error {
		for _, p := range props {
			if err := r.errf(p, "lookup of %s %q started at %v: %s", xdsresource.ResourceTypeToName[l.rt], l.name, l.start.Sub(r.t0), fmt.Sprintf(f, a...)); err != nil {
				return err
			}
		}
		return nil
	}
	for _, l := range r.looks {
		if l.checked {
			continue
		}
		if !l.finished() {
			if l.settled && !l.lenient {
				if err := fail(l, "still waiting although stamp %d was served at %v", l.expect, l.expAt.Sub(r.t0)); err != nil {
					return err
				}
			}
			if now.After(l.deadline) {
				if err := fail(l, "still waiting at %v, after its deadline %v", now.Sub(r.t0), l.deadline.Sub(r.t0)); err != nil {
					return err
				}
			}
			continue
		}
		l.checked = true
		if (l.err == nil) == (l.val == nil) {
			if err := fail(l, "returned value %v and error %v", l.val, l.err); err != nil {
				return err
			}
		}
		if l.end.After(l.deadline) {
			if err := fail(l, "returned at %v, deadline %v", l.end.Sub(r.t0), l.deadline.Sub(r.t0)); err != nil {
				return err
			}
		}
		if l.err == nil && l.val != nil {
			st, err := readStampOrEmpty(l.rt, l.val)
			if err != nil {
				if e := fail(l, "%v", err); e != nil {
					return e
				}
				continue
			}
			if l.lenient {
				continue
			}
			if !l.settled {
				if err := fail(l, "returned stamp %d although no accepted response supplied it", st); err != nil {
					return err
				}
			} else if st != l.expect {
				// a later response of the same step may already have replaced it
				if !slices.Contains(l.alts, st) {
					if err := fail(l, "returned stamp %d, want %d", st, l.expect); err != nil {
						return err
					}
				}
			}
			continue
		}
		if l.lenient {
			continue
		}
		if l.settled {
			if err := fail(l, "failed with %v although stamp %d was served at %v", l.err, l.expect, l.expAt.Sub(r.t0)); err != nil {
				return err
			}
		} else if l.rt != tN && l.end.Before(l.deadline) {
			if err := fail(l, "failed at %v, before its deadline %v: %v", l.end.Sub(r.t0), l.deadline.Sub(r.t0), l.err); err != nil {
				return err
			}
		}
	}
	return nil
}

// finish looks every known name up once more and compares.
func (r *hrun) finish() error {
	r.ungate()
	r.cp.mu.Lock()
	for _, s := range r.cp.streams {
		s.lag = 0
	}
	r.cp.mu.Unlock()
	for i := 0; i < 100 && r.cp.lagging(); i++ {
		time.Sleep(100 * time.Millisecond)
	}
	if r.stall {
		if s := r.live(); s != nil {
			s.setStall(false)
		}
		r.stall = false
	}
	if r.down {
		r.cp.mu.Lock()
		r.cp.failOpenForever = false
		r.cp.mu.Unlock()
		r.down = false
		r.settle()
	}
	synctest.Wait()
	if err := r.verify(); err != nil {
		return err
	}
	for _, t := range dataTypes {
		names := sset{}
		for n := range r.mod.interest[t] {
			names[n] = true
		}
		for n := range r.mod.cache[t] {
			names[n] = true
		}
		for _, n := range sortedKeys(names) {
			r.get(t, n)
		}
	}
	synctest.Wait()
	if err := r.verify(); err != nil {
		return err
	}
	time.Sleep(r.mod.timeout + time.Millisecond)
	synctest.Wait()
	return r.verify()
}

// ---- generators ----

var (
	hostsL    = []string{"a.default.svc.cluster.local:8080", "a.default.svc.cluster.local", "b.default.svc.cluster.local:8080", "c", "c:9090", "ext.example.com:443"}
	tableKeys = []string{"a.default.svc.cluster.local", "b.default.svc.cluster.local", "c.default.svc.cluster.local", "ext.example.com"}
)

type histGen struct {
	maxOps  int
	weights map[string]int
	advMS   [2]int
	bads    bool
	empties bool // well-formed resources with nothing in them, and empty version strings
	bigAdv  bool
	rareAdv bool // a few long idle periods
	flood   int  // one in so many operations is a flood of responses behind a stalled sender
}

func genTable(t *rapid.T, label string) map[string][]string {
	out := map[string][]string{}
	for i, k := range tableKeys {
		if ri(t, 0, 9) == 0 {
			continue
		}
		n := ri(t, 1, 2)
		ips := []string{}
		for j := 0; j < n; j++ {
			// one address belongs to one service
			ips = append(ips, fmt.Sprintf("10.%d.0.%d", i, ri(t, 1, 2)))
		}
		out[k] = ips
	}
	if oneIn(t, 15) { // among many others
		for i := pick(t, []int{5, 20, 60}); i > 0; i-- {
			out[fmt.Sprintf("filler%d.elsewhere.svc.cluster.local", i)] = []string{"10.9.9.9"}
		}
	}
	return out
}

// names that are told apart by exact comparison only
var lookalikes = []func(string) string{
	strings.ToUpper,
	func(n string) string { return n + "." },
	func(n string) string { return n + " " },
	func(n string) string { return " " + n },
	func(n string) string { return n + "\x00" },
	func(n string) string { return n + "/" },
	func(n string) string { return n + "*" },
	func(n string) string { return n[:1] },
}

var longTail = []string{"|8080|v1|" + strings.Repeat("x", 50) + ".default.svc.cluster.local-", strings.Repeat("-y", 150), " .*/é-"}

func nameOf(t *rapid.T, rt rtype) string {
	switch rt {
	case tL:
		if ri(t, 0, 7) == 0 {
			return inbound
		}
		return pick(t, hostsL)
	case tR, tC, tE:
		if oneIn(t, 12) { // reserved for listeners only
			return inbound
		}
		p := map[rtype]string{tR: "r", tC: "c", tE: "e"}[rt]
		if oneIn(t, 5) {
			if oneIn(t, 4) {
				p += longTail[ri(t, 0, len(longTail)-1)]
			}
			return fmt.Sprintf("%s%d", p, ri(t, 4, 7))
		}
		if oneIn(t, 12) {
			return pick(t, lookalikes)(fmt.Sprintf("%s%d", p, ri(t, 0, 3)))
		}
		return fmt.Sprintf("%s%d", p, ri(t, 0, 3))
	}
	return "nt"
}

func rawName(t *rapid.T, rt rtype, nds bool) string {
	if rt == tL && nds && ri(t, 0, 5) > 0 {
		return fmt.Sprintf("10.%d.0.%d_%s", ri(t, 0, 3), ri(t, 1, 2), pick(t, []string{"80", "8080", "9090", "443"}))
	}
	return nameOf(t, rt)
}

func genHist(t *rapid.T, g histGen) histCase {
	c := histCase{
		NDS: ri(t, 0, 3) > 0, LDS: ri(t, 0, 3) > 0,
		TimeoutMS: pick(t, []int{0, 200, 1000, 2500}), Table: genTable(t, "t0"),
	}
	var kinds []string
	for _, k := range sortedKeys(g.weights) {
		for i := 0; i < g.weights[k]; i++ {
			kinds = append(kinds, k)
		}
	}
	// most cases concentrate on one or two types, so that histories of a name build up
	types := dataTypes
	switch ri(t, 0, 3) {
	case 0:
	case 1:
		types = []rtype{pick(t, dataTypes), pick(t, dataTypes)}
	default:
		types = []rtype{pick(t, dataTypes)}
	}
	n := ri(t, 2, g.maxOps)
	stamp := 0
	ver := 0
	for i := 0; i < n; i++ {
		if g.flood > 0 && oneIn(t, g.flood) {
			rt := pick(t, types)
			ver++
			stamp += 10
			c.Ops = append(c.Ops, hop{K: "get", T: rt, N: nameOf(t, rt)}, hop{K: "stall"})
			f := hop{K: "flood", T: rt, V: fmt.Sprintf("v%d", ver), I: pick(t, []int{1000, 1022, 1023, 1024, 1025, 1026, 1030, 1100}), Mask: uint32(pick(t, []int{0, 0, 1, 2, 97}))}
			if flip(t) {
				f.Res = []hres{{N: rawName(t, rt, c.NDS), S: stamp}}
			}
			c.Ops = append(c.Ops, f)
			for j := ri(t, 0, 4); j > 0; j-- {
				rt := pick(t, types)
				c.Ops = append(c.Ops, hop{K: "get", T: rt, N: nameOf(t, rt)})
			}
			if oneIn(t, 5) {
				c.Ops = append(c.Ops, hop{K: "adv", MS: 1000 * ri(t, 1, 70)})
			}
			switch ri(t, 0, 2) {
			case 0:
				c.Ops = append(c.Ops, hop{K: "fail", I: ri(t, 0, 2)})
			case 1:
				c.Ops = append(c.Ops, hop{K: "unstall"})
			default:
				op := hop{K: "release", T: rt}
				for j := ri(t, 1, 12); j > 0; j-- {
					op.Res = append(op.Res, hres{N: fmt.Sprintf("%s.%d", nameOf(t, rt), j)})
				}
				c.Ops = append(c.Ops, op)
			}
			continue
		}
		op := hop{K: pick(t, kinds)}
		switch op.K {
		case "get":
			op.T = pick(t, types)
			if ri(t, 0, 39) == 0 {
				op.T = tN
			}
			op.N = nameOf(t, op.T)
		case "gethit":
			op.T = pick(t, types)
			op.I = ri(t, 0, 5)
		case "push", "serve":
			op.T = pick(t, types)
			ver++
			op.V = fmt.Sprintf("v%d", ver)
			if ri(t, 0, 9) == 0 {
				op.V = "v1"
			}
			op.S = stamp
			stamp += 10
			max := 4
			if op.K == "serve" {
				max = 2
				if flip(t) {
					op.Mask = 0
				} else {
					op.Mask = uint32(ri(t, 0, 63))
				}
			}
			seen := map[string]bool{}
			for j := cnt(t, 0, max); j > 0; j-- {
				stamp++
				rn := rawName(t, op.T, c.NDS)
				if seen[rn] {
					continue
				}
				seen[rn] = true
				op.Res = append(op.Res, hres{N: rn, S: stamp})
			}
			if g.bads && op.K == "push" && len(op.Res) > 0 && oneIn(t, 12) { // all of them
				for j := range op.Res {
					op.Res[j].Bad = pick(t, []string{"url", "trunc", "sem"})
				}
			} else if g.bads && ri(t, 0, 2) == 0 {
				b := pick(t, []string{"url", "trunc", "sem"})
				if op.K == "serve" {
					op.Bad, op.I = b, ri(t, 0, 5)
				} else if len(op.Res) > 0 {
					op.Res[ri(t, 0, len(op.Res)-1)].Bad = b
				}
			} else if g.empties && ri(t, 0, 5) == 0 {
				if op.K == "serve" {
					op.Bad, op.I = "empty", ri(t, 0, 5)
				} else if len(op.Res) > 0 {
					op.Res[ri(t, 0, len(op.Res)-1)].Bad = "empty"
				}
			}
			if g.empties && ri(t, 0, 29) == 0 {
				op.V = ""
			}
			op.NoWait = ri(t, 0, 3) == 0
			stamp += 20
		case "again":
			op.T = pick(t, types)
			if oneIn(t, 30) { // a long series of responses of the type
				for j := pick(t, []int{17, 33, 65, 70, 130, 260}); j > 0; j-- {
					ver++
					o := hop{K: "push", T: op.T, V: fmt.Sprintf("v%d", ver), S: stamp, NoWait: oneIn(t, 4)}
					stamp += 10
					seen := map[string]bool{}
					for k := ri(t, 0, 2); k > 0; k-- {
						stamp++
						if rn := rawName(t, op.T, c.NDS); !seen[rn] {
							seen[rn] = true
							o.Res = append(o.Res, hres{N: rn, S: stamp})
						}
					}
					if g.bads && len(o.Res) > 0 && oneIn(t, 8) {
						o.Res[0].Bad = pick(t, []string{"url", "trunc", "sem"})
					}
					c.Ops = append(c.Ops, o)
					if oneIn(t, 20) {
						c.Ops = append(c.Ops, hop{K: "get", T: op.T, N: nameOf(t, op.T)})
					}
				}
				continue
			}
			if flip(t) {
				ver++
				op.V = fmt.Sprintf("v%d", ver)
			}
			op.NoWait = ri(t, 0, 3) == 0
		case "nds":
			ver++
			op.V = fmt.Sprintf("v%d", ver)
			op.Table = genTable(t, "t")
			if g.bads && ri(t, 0, 2) == 0 {
				op.Bad = pick(t, []string{"url", "trunc", "empty", "second", "second-trunc"})
			}
			op.NoWait = ri(t, 0, 3) == 0
		case "unknown":
			op.I = ri(t, 0, 3)
			op.V = "vu"
		case "adv":
			op.MS = 10 * ri(t, g.advMS[0]/10, g.advMS[1]/10)
			if g.bigAdv && ri(t, 0, 2) == 0 {
				op.MS = 1000 * ri(t, 5, 70)
			}
			if g.rareAdv && ri(t, 0, 7) == 0 {
				op.MS = 1000 * ri(t, 20, 70)
			}
		case "fail":
			op.I = ri(t, 0, 3)
			if oneIn(t, 40) { // one stream after the other
				rt := pick(t, types)
				for j := pick(t, []int{6, 12, 33}); j > 0; j-- {
					c.Ops = append(c.Ops, hop{K: "fail", I: ri(t, 0, 3), S: ri(t, 0, len(streamErrs)-1)})
					if flip(t) {
						ver++
						stamp += 10
						c.Ops = append(c.Ops, hop{K: "serve", T: rt, V: fmt.Sprintf("v%d", ver), S: stamp})
						stamp += 20
					}
				}
				continue
			}
			if ri(t, 0, 3) == 0 {
				op.MS = ri(t, 1, 4)
			}
			op.S = ri(t, 0, len(streamErrs)-1)
		case "sendbreak":
			op.I = ri(t, 0, 3)
			op.S = ri(t, 0, len(streamErrs)-1)
		case "down":
			op.S = ri(t, 0, len(streamErrs)-1)
		case "gate": // lookups in the meantime
			op.S = ri(t, 0, len(streamErrs)-1)
			c.Ops = append(c.Ops, op)
			for j := ri(t, 0, 3); j > 0; j-- {
				rt := pick(t, types)
				c.Ops = append(c.Ops, hop{K: "get", T: rt, N: nameOf(t, rt)})
			}
			if oneIn(t, 4) {
				c.Ops = append(c.Ops, hop{K: "adv", MS: 10 * ri(t, 1, 500)})
			}
			op = hop{K: "ungate"}
		case "lag":
			op.MS = 10 * ri(t, 1, 400)
		case "keep": // in use for long, without updates
			rt := pick(t, types)
			name, every := nameOf(t, rt), 1000*ri(t, 11, 29)+10*ri(t, 0, 90)
			c.Ops = append(c.Ops, hop{K: "get", T: rt, N: name})
			stamp += 10
			c.Ops = append(c.Ops, hop{K: "serve", T: rt, S: stamp, V: "keep"})
			for j := pick(t, []int{2, 5, 15, 40, 130}); j > 0; j-- {
				c.Ops = append(c.Ops, hop{K: "adv", MS: every}, hop{K: "get", T: rt, N: name})
			}
			continue
		case "outage": // a long one
			c.Ops = append(c.Ops, hop{K: "down", S: ri(t, 0, len(streamErrs)-1)}, hop{K: "adv", MS: 1000 * pick(t, []int{60, 600, 899, 901, 1000, 1900, 4000})})
			op.K = "up"
		}
		c.Ops = append(c.Ops, op)
	}
	return c
}

func (r *hrun) classify() {
	cx, m := r.cx, r.mod
	cx.ClassIf(m.dropped > 0, "full update dropped a name")
	cx.ClassIf(m.merged > 0, "partial update merged")
	cx.ClassIf(m.evicted > 0, "evicted")
	cx.ClassIf(r.nfail > 0, "stream failed")
	cx.ClassIf(r.dead, "auth rejected")
	cx.ClassIf(r.gates > 0, "slow hand-over of a new stream")
	cx.ClassIf(r.lags > 0, "slow send")
	cx.ClassIf(r.floods > 0, "over 1000 requests queued")
	cx.ClassIf(r.longOutage, "outage over 15 minutes")
	cx.ClassIf(r.nrej > 0, "rejected response")
	cx.ClassIf(r.nrej > 0 && r.rejAfter, "rejected after accepted")
	cx.ClassIf(!r.c.NDS, "no name table")
	cx.ClassIf(r.hit > 0, "lookup answered by a waiting delivery")
	switch {
	case r.floods > 0:
	case r.want["C02"]:
		cx.NTIf(r.rejAfter)
	case r.want["C03"]:
		cx.NTIf(m.grown >= 2 && (m.evicted > 0 || r.nfail > 0))
	case r.want["C04"]:
		cx.NTIf(r.failAfter)
	case r.want["C19"]:
		cx.NTIf(m.evicted > 0)
	case r.want["C01"]:
		cx.NTIf(r.nacc >= 3 && (m.dropped > 0 || m.merged > 0))
	}
}
