package xdsverif

// C15: the routing step decides the destination once and fails closed. Control-plane states (well-formed with a reference,
// or hostile: mutated messages, of which the client keeps what decodes, and withheld resources) are driven through the
// retry-key computation, the middleware and the resolver the way kitex does for a call and for its retries.

import (
	"context"
	"errors"
	"fmt"
	"testing/synctest"
	"time"

	"github.com/cloudwego/kitex/pkg/endpoint"
	"github.com/cloudwego/kitex/pkg/kerrors"
	"github.com/cloudwego/kitex/pkg/retry"
	"github.com/cloudwego/kitex/pkg/rpcinfo"
	"github.com/cloudwego/kitex/pkg/rpcinfo/remoteinfo"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/anypb"
	"pgregory.net/rapid"

	"github.com/kitex-contrib/xds/core/xdsresource"
	"github.com/kitex-contrib/xds/xdssuite"
)

type c15Case struct {
	W    worldSpec `json:"w"`
	Host *c15Raw   `json:"raw,omitempty"` // hostile: what the control plane sends instead of W
	Ops  []c15Op   `json:"ops"`
}

type c15Raw struct {
	L  []rawRes `json:"l"`
	R  []rawRes `json:"r"`
	C  []rawRes `json:"c"`
	E  []rawRes `json:"e"`
	By string   `json:"by"`
}

// c15Op is one call and its retries, or (live part) a change of the control plane.
type c15Op struct {
	K       string   `json:"k"` // call, resolve, put, del, nack, cut
	Call    callSpec `json:"call"`
	Pre     string   `json:"pre,omitempty"` // tag present before: "", tagged, locked
	Via     string   `json:"via"`           // mw, key (the retry container around the middleware)
	Tries   int      `json:"tries"`         // how often the middleware runs on the same call
	Preset  int      `json:"preset"`        // timeout of the call before routing, ms
	NextErr bool     `json:"nexterr,omitempty"`
	Fail    []int    `json:"fail,omitempty"` // resource types withheld from the first stage (retry key) only or throughout
	Once    bool     `json:"once,omitempty"` // the withheld ones become available after the first stage
	Method  bool     `json:"method,omitempty"`
	N       string   `json:"n,omitempty"`
	I       int      `json:"i,omitempty"`
	DL      int      `json:"dl,omitempty"` // deadline of the caller's context, ms
}

// withholding manager
type holdManager struct {
	*stubManager
	hold map[xdsresource.ResourceType]bool
	gets int
}

func (h *holdManager) Get(ctx context.Context, rt xdsresource.ResourceType, name string) (interface{}, error) {
	h.gets++
	if h.hold[rt] {
		return nil, errors.New("verif: withheld")
	}
	return h.stubManager.Get(ctx, rt, name)
}

func genC15Call(t *rapid.T, w worldSpec) c15Op {
	op := c15Op{K: "call", Call: genCall(t, w), Via: pick(t, []string{"mw", "key"}), Tries: ri(t, 1, 3), Preset: pick(t, []int{0, 1, 777}), NextErr: oneIn(t, 4), Method: flip(t)}
	if oneIn(t, 5) {
		op.Pre = pick(t, []string{"tagged", "locked"})
	}
	if oneIn(t, 4) {
		op.Fail = []int{int(pick(t, []xdsresource.ResourceType{tL, tR}))}
		op.Once = flip(t)
	}
	return op
}

func mutateSome(t *rapid.T, how *string, url string, ms ...proto.Message) []rawRes {
	var out []rawRes
	for _, m := range ms {
		for k := ri(t, 0, 3); k > 0; k-- {
			*how = mutateTree(t, m)
		}
		b, err := proto.MarshalOptions{Deterministic: true, AllowPartial: true}.Marshal(m)
		if err != nil {
			b = nil
		}
		if oneIn(t, 12) {
			*how = "bytes"
			b = mutateBytes(t, b)
		}
		out = append(out, rawRes{URL: url, B: b})
	}
	return out
}

func genC15(t *rapid.T) c15Case {
	c := c15Case{W: genWorld(t, 2, 3)}
	c.W.label(t)
	var rs []proto.Message
	for i := range c.W.Tables {
		rs = append(rs, c.W.Tables[i].msg())
	}
	var cs, es []proto.Message
	for _, n := range []string{"R1", "R2", "R3"} {
		cs = append(cs, genCluster(t, n).msg())
		es = append(es, genCLA(t, n).msg())
	}
	h := &c15Raw{}
	if !oneIn(t, 3) {
		h.L = mutateSome(t, &h.By, urlOf[tL], c.W.L.msg())
		h.R = mutateSome(t, &h.By, urlOf[tR], rs...)
		h.C = mutateSome(t, &h.By, urlOf[tC], cs...)
		h.E = mutateSome(t, &h.By, urlOf[tE], es...)
		c.Host = h
	}
	for i := ri(t, 1, 4); i > 0; i-- {
		c.Ops = append(c.Ops, genC15Call(t, c.W))
	}
	for _, n := range []string{"R1", "R2", "R3", "R9", ""} {
		if flip(t) {
			c.Ops = append(c.Ops, c15Op{K: "resolve", N: n})
		}
	}
	return c
}

// hostileStub keeps of the raw resources what decodes, each type's slots separately.
func (h *c15Raw) stub() *stubManager {
	st := newStub()
	for _, r := range h.L {
		if ls, err := xdsresource.UnmarshalLDS(rawAnys([]rawRes{r})); err == nil {
			for _, l := range ls {
				st.put(tL, worldHost, l)
			}
		}
	}
	for _, r := range h.R {
		if xs, err := xdsresource.UnmarshalRDS(rawAnys([]rawRes{r})); err == nil {
			for n, x := range xs {
				st.put(tR, n, x)
			}
		}
	}
	for _, r := range h.C {
		if xs, err := xdsresource.UnmarshalCDS(rawAnys([]rawRes{r})); err == nil {
			for n, x := range xs {
				st.put(tC, n, x)
			}
		}
	}
	for _, r := range h.E {
		if xs, err := xdsresource.UnmarshalEDS(rawAnys([]rawRes{r})); err == nil {
			for n, x := range xs {
				st.put(tE, n, x)
			}
		}
	}
	return st
}

var errNext = errors.New("verif: the call itself failed")

// stepper drives one call through the routing step and checks what holds whatever the control plane does.
type stepper struct {
	where    string
	to       remoteinfo.RemoteInfo
	ri       rpcinfo.RPCInfo
	preset   time.Duration
	preTag   bool // decided before the call
	preLock  bool
	preValue string
	decided  bool
	cluster  string
	timeout  time.Duration
}

func newStepper(where string, op c15Op) *stepper {
	s := &stepper{where: where, preset: time.Duration(op.Preset) * time.Millisecond}
	s.ri, s.to = op.Call.rpcInfo(worldHost)
	must(rpcinfo.AsMutableRPCConfig(s.ri.Config()).SetRPCTimeout(s.preset))
	if op.Pre != "" {
		s.preTag, s.preLock, s.preValue = true, op.Pre == "locked", "decided-before"
		must(s.to.SetTag(xdssuite.RouterClusterKey, s.preValue))
		if s.preLock {
			s.to.SetTagLock(xdssuite.RouterClusterKey)
		}
		s.decided, s.cluster, s.timeout = true, s.preValue, s.preset
	}
	return s
}

// observe records a decision made since the last look: never twice.
func (s *stepper) observe(at string) error {
	tag, ok := s.to.Tag(xdssuite.RouterClusterKey)
	to := s.ri.Config().RPCTimeout()
	switch {
	case !ok && s.decided:
		return fmt.Errorf("%s: %s: the decided destination %q is gone", s.where, at, s.cluster)
	case !ok:
		if to != s.preset {
			return fmt.Errorf("%s: %s: no destination is decided but the timeout changed from %v to %v", s.where, at, s.preset, to)
		}
	case s.decided:
		if tag != s.cluster || to != s.timeout {
			return fmt.Errorf("%s: %s: the destination was decided as %q with timeout %v and is now %q with %v", s.where, at, s.cluster, s.timeout, tag, to)
		}
	default:
		s.decided, s.cluster, s.timeout = true, tag, to
	}
	return nil
}

// locked checks that a destination decided by the routing step cannot be changed any more.
func (s *stepper) locked(at string) error {
	if s.preTag && !s.preLock {
		// the step changes nothing: the tag is still free
		if err := s.to.SetTag(xdssuite.RouterClusterKey, s.preValue); err != nil {
			return fmt.Errorf("%s: %s: the tag decided beforehand was locked by the routing step", s.where, at)
		}
		return nil
	}
	if err := s.to.SetTag(xdssuite.RouterClusterKey, "somewhere-else"); err == nil {
		return fmt.Errorf("%s: %s: the destination %q is not locked", s.where, at, s.cluster)
	}
	if tag, _ := s.to.Tag(xdssuite.RouterClusterKey); tag != s.cluster {
		return fmt.Errorf("%s: %s: the locked destination %q became %q", s.where, at, s.cluster, tag)
	}
	return nil
}

// middleware runs the middleware once on the call. mayFail/mustFail describe what the control plane allows.
func (s *stepper) middleware(ctx context.Context, mw endpoint.Middleware, nextErr bool, at string) (routed bool, err error) {
	before := s.decided
	n := 0
	var inner error
	type reqT struct{ x int }
	req, resp := &reqT{1}, &reqT{2}
	ep := mw(func(c context.Context, q, p interface{}) error {
		n++
		if q != interface{}(req) || p != interface{}(resp) || rpcinfo.GetRPCInfo(c) != s.ri {
			inner = fmt.Errorf("%s: %s: the call passed on is not the call made", s.where, at)
		}
		if _, ok := s.to.Tag(xdssuite.RouterClusterKey); !ok {
			inner = fmt.Errorf("%s: %s: the call was passed on without a destination", s.where, at)
		}
		if e := s.observe(at + ", in next"); e != nil && inner == nil {
			inner = e
		}
		if e := s.locked(at + ", in next"); e != nil && inner == nil {
			inner = e
		}
		if nextErr {
			return errNext
		}
		return nil
	})
	e := ep(rpcinfo.NewCtxWithRPCInfo(ctx, s.ri), req, resp)
	if inner != nil {
		return false, inner
	}
	if n > 1 {
		return false, fmt.Errorf("%s: %s: the call was passed on %d times", s.where, at, n)
	}
	if n == 1 {
		if nextErr && !errors.Is(e, errNext) || !nextErr && e != nil {
			return false, fmt.Errorf("%s: %s: the call was passed on and ended with %v", s.where, at, e)
		}
		return true, s.observe(at + ", after")
	}
	if before {
		return false, fmt.Errorf("%s: %s: the destination is decided (%q) but the call was not passed on: %v", s.where, at, s.cluster, e)
	}
	if e == nil {
		return false, fmt.Errorf("%s: %s: the call was neither passed on nor failed", s.where, at)
	}
	if !errors.Is(e, kerrors.ErrRoute) {
		return false, fmt.Errorf("%s: %s: the call failed with %v, which is no routing error", s.where, at, e)
	}
	if tag, ok := s.to.Tag(xdssuite.RouterClusterKey); ok {
		return false, fmt.Errorf("%s: %s: the call failed with %v but %q was recorded as its destination", s.where, at, e, tag)
	}
	return false, s.observe(at + ", after the failure")
}

// call runs a whole call: the retry container (if any) and the middleware, repeatedly on the same call.
// between runs after the first stage.
func (s *stepper) call(ctx context.Context, op c15Op, cs *clientSide, between func()) (routed []bool, keyed bool, err error) {
	var bad error
	tries := func(ctx context.Context) error {
		for i := 0; i < op.Tries; i++ {
			r, e := s.middleware(ctx, cs.mw, op.NextErr, fmt.Sprintf("try %d", i))
			if e != nil {
				bad = e
				return nil
			}
			routed = append(routed, r)
			if i == 0 && op.Via == "mw" {
				between()
			}
		}
		return nil
	}
	if op.Via == "mw" {
		_ = tries(ctx)
		return routed, false, bad
	}
	n := 0
	rctx := retry.PrepareRetryContext(rpcinfo.NewCtxWithRPCInfo(ctx, s.ri))
	_, _, e := cs.rc.WithRetryIfNeeded(rctx, nil, func(ctx context.Context, _ retry.Retryer) (rpcinfo.RPCInfo, interface{}, error) {
		n++
		if err := s.observe("retry key"); err != nil {
			bad = err
			return s.ri, nil, nil
		}
		if s.decided {
			keyed = true
			if err := s.locked("retry key"); err != nil {
				bad = err
				return s.ri, nil, nil
			}
		}
		between()
		return s.ri, nil, tries(ctx)
	}, s.ri, nil)
	if bad != nil {
		return routed, keyed, bad
	}
	if n != 1 || e != nil {
		return routed, keyed, fmt.Errorf("%s: the call ran %d times within the retry container: %v", s.where, n, e)
	}
	return routed, keyed, nil
}

func supported(r routed, cl string, to time.Duration) error {
	return checkRouted("decision", r, cl, to, nil)
}

func runC15(cx *Ctx, c c15Case) error {
	var st *stubManager
	if c.Host != nil {
		st = c.Host.stub()
	} else {
		var err error
		if st, err = c.W.stub(); err != nil {
			return err
		}
	}
	h := &holdManager{stubManager: st}
	theDispatcher.use(h)
	for i, op := range c.Ops {
		if op.K == "resolve" {
			res, err := xdssuite.NewXDSResolver().Resolve(context.Background(), op.N)
			if err == nil && len(res.Instances) == 0 {
				return fmt.Errorf("op %d: resolving %q yields neither endpoints nor an error", i, op.N)
			}
			cx.ClassIf(err == nil, "resolved")
			continue
		}
		opts := append(op.Call.options(), xdssuite.WithMatchRetryMethod(op.Method))
		h.hold = nil
		cs := newClientSide(opts...)
		withhold := map[xdsresource.ResourceType]bool{}
		for _, t := range op.Fail {
			withhold[xdsresource.ResourceType(t)] = true
		}
		h.hold = withhold
		// what may be decided while resources are withheld, and after
		first := c.designated(op.Call, st, withhold)
		second := first
		if op.Once {
			second = c.designated(op.Call, st, nil)
		}
		s := newStepper(fmt.Sprintf("op %d: call %s md %v grpc %v via %s, withheld %v (released %v)", i, op.Call.path(), op.Call.seen(), op.Call.Proto == grpcProto, op.Via, op.Fail, op.Once), op)
		pre := s.decided
		routed, keyed, err := s.call(op.Call.context(context.Background()), op, cs, func() {
			if op.Once {
				h.hold = nil
			}
		})
		cs.close()
		if err != nil {
			return err
		}
		if pre {
			cx.Class("decided before")
			for _, r := range routed {
				if !r {
					return fmt.Errorf("%s: not passed on", s.where)
				}
			}
			continue
		}
		// the stage that had to decide: the retry key or the first try, then the later ones
		stage := func(k int) outcome {
			if k == 0 {
				return first
			}
			return second
		}
		k := 0
		done := false
		visit := func(decided bool, at string) error {
			o := stage(k)
			k++
			if done {
				return nil
			}
			if decided {
				done = true
				return o.allows(s, at)
			}
			return o.refuses(s, at)
		}
		if op.Via == "key" {
			if err := visit(keyed, "retry key"); err != nil {
				return err
			}
		}
		for j, r := range routed {
			if err := visit(r, fmt.Sprintf("try %d", j)); err != nil {
				return err
			}
		}
		cx.NTIf(done)
		cx.ClassIf(done, "routed")
		cx.ClassIf(done && c.Host != nil, "routed in a hostile state")
		cx.ClassIf(!done, "failed closed")
		cx.ClassIf(len(op.Fail) > 0 && op.Once && done && !first.ok, "routed after an earlier stage failed")
		cx.ClassIf(keyed, "decided by the retry key")
		cx.ClassIf(len(routed) > 1, "repeated on the same call")
	}
	return nil
}

// outcome is what the control-plane state designates for a call.
type outcome struct {
	ok       bool // routable
	any      bool // not known (differential unavailable)
	clusters map[string]bool
	timeout  time.Duration
	why      string
}

func (o outcome) allows(s *stepper, at string) error {
	if o.any {
		return nil
	}
	if !o.ok {
		return fmt.Errorf("%s: %s: routed to %q although %s", s.where, at, s.cluster, o.why)
	}
	if !o.clusters[s.cluster] {
		return fmt.Errorf("%s: %s: destination %q, the matched route has %v", s.where, at, s.cluster, o.clusters)
	}
	if s.timeout != o.timeout {
		return fmt.Errorf("%s: %s: the timeout is %v, that of the matched route is %v", s.where, at, s.timeout, o.timeout)
	}
	return nil
}

func (o outcome) refuses(s *stepper, at string) error {
	if o.any || !o.ok {
		return nil
	}
	return fmt.Errorf("%s: %s: not routed although the control plane designates %v", s.where, at, o.clusters)
}

// designated is the reference for well-formed worlds; for hostile ones it reads the route the public router selects.
func (c c15Case) designated(call callSpec, st *stubManager, hold map[xdsresource.ResourceType]bool) outcome {
	if hold[tL] {
		return outcome{why: "the listener is withheld"}
	}
	if c.Host == nil {
		w := c.W
		if hold[tR] {
			w.Tables = nil
		}
		r := w.route(call)
		o := outcome{clusters: map[string]bool{}, timeout: r.timeout, why: "nothing matches (" + r.via + ")"}
		for _, d := range r.dest {
			if !r.err && (d.W > 0 || len(r.dest) == 1) {
				o.clusters[d.N], o.ok = true, true
			}
		}
		return o
	}
	if hold[tR] {
		return outcome{any: true}
	}
	// hostile: the decoded route tables are searched with the router; any cluster of the route may be drawn
	old := theDispatcher.get()
	theDispatcher.use(st)
	defer theDispatcher.use(old)
	o := outcome{clusters: map[string]bool{}, why: "the router finds no route or no cluster"}
	ri, _ := call.rpcInfo(worldHost)
	res, err := xdssuite.NewXDSRouter(call.options()...).Route(call.context(context.Background()), ri)
	if err != nil {
		return o
	}
	o.ok, o.timeout = true, res.RPCTimeout
	for _, cl := range weightedPeers(st, res.ClusterPicked, res.RPCTimeout) {
		o.clusters[cl] = true
	}
	o.clusters[res.ClusterPicked] = true
	return o
}

// weightedPeers lists the clusters that share a route with cl.
func weightedPeers(st *stubManager, cl string, to time.Duration) []string {
	var out []string
	route := func(r *xdsresource.Route) {
		if r == nil || r.Timeout != to {
			return
		}
		has := false
		for _, w := range r.WeightedClusters {
			has = has || w.Name == cl
		}
		for _, w := range r.WeightedClusters {
			if has {
				out = append(out, w.Name)
			}
		}
	}
	table := func(rc *xdsresource.RouteConfigResource) {
		if rc == nil {
			return
		}
		if h := rc.HTTPRouteConfig; h != nil {
			for _, vh := range h.VirtualHosts {
				for _, r := range vh.Routes {
					route(r)
				}
			}
		}
		if h := rc.ThriftRouteConfig; h != nil {
			for _, r := range h.Routes {
				route(r)
			}
		}
	}
	for _, v := range st.res[tL] {
		if l, ok := v.(*xdsresource.ListenerResource); ok {
			for _, f := range l.NetworkFilters {
				table(f.InlineRouteConfig)
			}
		}
	}
	for _, v := range st.res[tR] {
		if rc, ok := v.(*xdsresource.RouteConfigResource); ok {
			table(rc)
		}
	}
	return out
}

// ---- live: the same on the real manager, with resources withheld, supplied late, replaced and rejected ----

func genC15Live(t *rapid.T) c15Case {
	c := c15Case{W: genWorld(t, 2, 3)}
	c.W.label(t)
	h := &c15Raw{}
	var rs []proto.Message
	for i := range c.W.Tables {
		rs = append(rs, c.W.Tables[i].msg())
	}
	// the first slots are the plain ones, the others hostile replacements
	plain := func(url string, ms ...proto.Message) (out []rawRes) {
		for _, m := range ms {
			out = append(out, rawRes{URL: url, B: one(anys(m)).Value})
		}
		return out
	}
	h.L = append(plain(urlOf[tL], c.W.L.msg()), mutateSome(t, &h.By, urlOf[tL], c.W.L.msg(), c.W.L.msg())...)
	h.R = append(plain(urlOf[tR], rs...), mutateSome(t, &h.By, urlOf[tR], rs...)...)
	cl := genCluster(t, "R1")
	h.C = append(plain(urlOf[tC], cl.msg()), mutateSome(t, &h.By, urlOf[tC], cl.msg())...)
	ea := genCLA(t, "R1")
	h.E = append(plain(urlOf[tE], ea.msg()), mutateSome(t, &h.By, urlOf[tE], ea.msg())...)
	c.Host = h
	if !oneIn(t, 6) {
		c.Ops = append(c.Ops, c15Op{K: "put", N: "l"})
	}
	for i := range rs {
		if !oneIn(t, 6) {
			c.Ops = append(c.Ops, c15Op{K: "put", N: "r", I: i})
		}
	}
	c.Ops = append(c.Ops, c15Op{K: "put", N: "c"}, c15Op{K: "put", N: "e"})
	for i := ri(t, 2, 8); i > 0; i-- {
		switch x := ri(t, 0, 9); {
		case x < 4:
			op := genC15Call(t, c.W)
			op.Fail, op.Once = nil, false
			if oneIn(t, 4) {
				op.DL = pick(t, []int{1, 50, 150, 250})
			}
			c.Ops = append(c.Ops, op)
		case x < 5:
			c.Ops = append(c.Ops, c15Op{K: "resolve", N: pick(t, []string{"R1", "R2"})})
		case x < 8:
			c.Ops = append(c.Ops, c15Op{K: "put", N: pick(t, []string{"l", "l", "r", "r", "c", "e"}), I: ri(t, 0, 5)})
		case x < 9:
			c.Ops = append(c.Ops, c15Op{K: "del", N: pick(t, []string{"l", "r", "c", "e"}), I: ri(t, 0, 5)})
		default:
			c.Ops = append(c.Ops, c15Op{K: "cut"})
		}
	}
	return c
}

func (h *c15Raw) slot(kind string, i int) (xdsresource.ResourceType, *rawRes) {
	m := map[string]struct {
		t  xdsresource.ResourceType
		rs []rawRes
	}{"l": {tL, h.L}, "r": {tR, h.R}, "c": {tC, h.C}, "e": {tE, h.E}}[kind]
	if len(m.rs) == 0 {
		return m.t, nil
	}
	return m.t, &m.rs[i%len(m.rs)]
}

func runC15Live(cx *Ctx, c c15Case) error {
	cp := newCP()
	w := attachWorld(cp)
	w.put(tN, "nt", one(anys(nameTable(map[string][]string{"echo.default.svc.cluster.local": {"10.0.0.1"}}))))
	m := startWorld(cx, w, mgrOpts{NDS: true, LDS: true, FetchTimeout: 100 * time.Millisecond})
	theDispatcher.use(m)
	anyRouted, anyClosed := false, false
	for i, op := range c.Ops {
		switch op.K {
		case "put", "del":
			t, r := c.Host.slot(op.N, op.I)
			if r == nil {
				continue
			}
			key := fmt.Sprintf("%s%d", op.N, op.I%2) // a slot replaces another one of the same key
			if op.N == "l" {
				key = "l"
			}
			if op.K == "put" {
				w.put(t, key, &anypb.Any{TypeUrl: r.URL, Value: r.B})
			} else {
				w.del(t, key)
			}
			if s := cp.live(); s != nil && w.asked(s, t) {
				w.push(s, t)
			}
			synctest.Wait()
		case "cut":
			if s := cp.live(); s != nil {
				s.fail(errReset)
			}
			time.Sleep(2 * time.Second)
			synctest.Wait()
		case "resolve":
			res, err := xdssuite.NewXDSResolver().Resolve(context.Background(), op.N)
			if err == nil && len(res.Instances) == 0 {
				return fmt.Errorf("op %d: resolving %q yields neither endpoints nor an error", i, op.N)
			}
			cx.ClassIf(err == nil, "resolved")
		case "call":
			opts := append(op.Call.options(), xdssuite.WithMatchRetryMethod(op.Method))
			cs := newClientSide(opts...)
			ctx, cancel := context.Background(), func() {}
			if op.DL > 0 {
				ctx, cancel = context.WithTimeout(ctx, time.Duration(op.DL)*time.Millisecond)
			}
			s := newStepper(fmt.Sprintf("op %d: call %s md %v via %s on the live client", i, op.Call.path(), op.Call.seen(), op.Via), op)
			pre := s.decided
			routed, _, err := s.call(op.Call.context(ctx), op, cs, func() {})
			cancel()
			cs.close()
			if err != nil {
				return err
			}
			for _, r := range routed {
				anyRouted = anyRouted || r && !pre
				anyClosed = anyClosed || !r
			}
		}
		if cp.live() == nil {
			return fmt.Errorf("op %d: the client lost its stream for good", i)
		}
	}
	cx.NTIf(anyRouted)
	cx.ClassIf(anyRouted, "routed")
	cx.ClassIf(anyClosed, "failed closed")
	cx.ClassIf(anyClosed && anyRouted, "both")
	return nil
}

// asked reports whether the client requested the type on this stream.
func (w *cpWorld) asked(s *fakeStream, rt xdsresource.ResourceType) bool {
	for _, r := range w.cp.log() {
		if r.Stream == s.id && r.Type == rt {
			return true
		}
	}
	return false
}

func init() {
	register(spec[c15Case]{
		Prop: "C15", Name: "step", Quick: 60000, Thorough: 4000000, NoBubble: true,
		Rule: "a call was routed by the step itself",
		Gen:  genC15, Run: runC15,
	})
	register(spec[c15Case]{
		Prop: "C15", Name: "live", Quick: 24000, Thorough: 1200000,
		Rule: "a call was routed by the step itself on the real client",
		Gen:  genC15Live, Run: runC15Live,
	})
}
