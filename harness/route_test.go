package xdsverif

// Routing: C08 (which route), C09 (which cluster). A world is what the control plane says about one service; it is
// served by a stub manager (decoded by the real decoders) or end to end by the real manager.

import (
	"context"
	"errors"
	"fmt"
	"math"
	"slices"
	"strings"
	"testing/synctest"
	"time"

	"github.com/bytedance/gopkg/cloud/metainfo"
	"github.com/cloudwego/kitex/pkg/endpoint"
	"github.com/cloudwego/kitex/pkg/rpcinfo"
	"github.com/cloudwego/kitex/pkg/rpcinfo/remoteinfo"
	"github.com/cloudwego/kitex/transport"
	"google.golang.org/protobuf/types/known/anypb"
	"pgregory.net/rapid"

	"github.com/kitex-contrib/xds/core/xdsresource"
	"github.com/kitex-contrib/xds/xdssuite"
)

// callSpec is one RPC.
type callSpec struct {
	Pkg    string            `json:"pkg,omitempty"`
	Svc    string            `json:"svc"`
	Method string            `json:"method"`
	Proto  int               `json:"proto"` // index of protos
	MD     map[string]string `json:"md"`
	Ext    bool              `json:"ext,omitempty"`    // metadata through a configured extractor
	Fresh  bool              `json:"fresh,omitempty"`  // by a router of its own
	Absent bool              `json:"absent,omitempty"` // to a host the control plane does not know
}

var protos = []transport.Protocol{transport.PurePayload, transport.TTHeader, transport.GRPC, transport.Framed, transport.TTHeaderFramed, transport.HESSIAN2, transport.HTTP}

const grpcProto = 2

const worldHost = "echo.default.svc.cluster.local:80"

func (c callSpec) path() string {
	if c.Pkg == "" {
		return "/" + c.Svc + "/" + c.Method
	}
	return "/" + c.Pkg + "." + c.Svc + "/" + c.Method
}

type mdKey struct{}

func (c callSpec) context(parent context.Context) context.Context {
	if c.Ext {
		return context.WithValue(parent, mdKey{}, c.MD)
	}
	for _, k := range sortedKeys(c.MD) {
		parent = metainfo.WithValue(parent, k, c.MD[k])
	}
	return parent
}

// seen is the metadata the router can see.
func (c callSpec) seen() map[string]string {
	if c.Ext {
		return c.MD
	}
	out := map[string]string{}
	for k, v := range c.MD {
		if k != "" && v != "" { // metainfo cannot carry empty ones
			out[k] = v
		}
	}
	return out
}

func (c callSpec) options() []xdssuite.Option {
	if !c.Ext {
		return nil
	}
	return []xdssuite.Option{xdssuite.WithRouterMetaExtractor(func(ctx context.Context) map[string]string {
		m, _ := ctx.Value(mdKey{}).(map[string]string)
		return m
	})}
}

func (c callSpec) rpcInfo(host string) (rpcinfo.RPCInfo, remoteinfo.RemoteInfo) {
	to := remoteinfo.NewRemoteInfo(&rpcinfo.EndpointBasicInfo{ServiceName: host, Method: c.Method}, c.Method)
	var inv rpcinfo.Invocation
	if c.Pkg == "" {
		inv = rpcinfo.NewInvocation(c.Svc, c.Method)
	} else {
		inv = rpcinfo.NewInvocation(c.Svc, c.Method, c.Pkg)
	}
	cfg := rpcinfo.NewRPCConfig()
	must(rpcinfo.AsMutableRPCConfig(cfg).SetTransportProtocol(protos[c.Proto]))
	from := rpcinfo.NewEndpointInfo("caller", "", nil, nil)
	return rpcinfo.NewRPCInfo(from, to, inv, cfg, rpcinfo.NewRPCStats()), to
}

// worldSpec: the listener of the host and the named tables that exist.
type worldSpec struct {
	L      lisSpec   `json:"l"`
	Tables []rdsSpec `json:"tables,omitempty"`
}

func (w worldSpec) thrift() *filterSpec { return w.filter("thrift") }
func (w worldSpec) http() *filterSpec {
	if f := w.filter("rds"); f != nil {
		return f
	}
	return w.filter("inline")
}

func (w worldSpec) chains() []chainSpec {
	cs := append([]chainSpec(nil), w.L.Chains...)
	if w.L.Default != nil {
		cs = append(cs, *w.L.Default)
	}
	return cs
}

func (w worldSpec) filter(k string) *filterSpec {
	for _, c := range w.chains() {
		for i := range c.Filters {
			if c.Filters[i].K == k {
				return &c.Filters[i]
			}
		}
	}
	return nil
}

// routed is the outcome the reference designates; Dest lists the clusters of the route.
type routed struct {
	err     bool
	dest    []wcSpec
	timeout time.Duration
	via     string
	skipped int // routes that did not match before
}

func matchTable(s *rdsSpec, path string, md map[string]string) (*routeSpec, int) {
	n := 0
	for vi := range s.VHs {
		for i := range s.VHs[vi].Routes {
			r := &s.VHs[vi].Routes[i]
			if r.pathHolds(path) && allHold(r.Hdrs, md) {
				return r, n
			}
			n++
		}
	}
	return nil, n
}

// route is the reference router.
func (w worldSpec) route(c callSpec) routed {
	md := c.seen()
	if f := w.thrift(); f != nil && c.Proto != grpcProto {
		for i, r := range f.Thrift {
			if (r.Method == "" || r.Method == c.Method) && allHold(r.Hdrs, md) {
				return routed{dest: destOf(r.Dest, r.C, r.WC), via: "thrift", skipped: i}
			}
		}
	}
	f := w.http()
	if f == nil {
		return routed{err: true, via: "no http filter"}
	}
	name := f.RDS
	if f.K == "inline" {
		name = f.Inline.N
		if r, n := matchTable(f.Inline, c.path(), md); r != nil {
			return routed{dest: r.clusters(), timeout: dur(r.Timeout), via: "inline", skipped: n}
		}
	}
	for i := range w.Tables {
		if w.Tables[i].N == name {
			if r, n := matchTable(&w.Tables[i], c.path(), md); r != nil {
				return routed{dest: r.clusters(), timeout: dur(r.Timeout), via: "named", skipped: n}
			}
			return routed{err: true, via: "no match in named table"}
		}
	}
	return routed{err: true, via: "no named table"}
}

// stub decodes the world with the real decoders.
func (w worldSpec) stub() (*stubManager, error) {
	st := newStub()
	ls, err := xdsresource.UnmarshalLDS(anys(w.L.msg()))
	if err != nil {
		return nil, fmt.Errorf("well-formed listener rejected: %v", err)
	}
	st.put(xdsresource.ListenerType, worldHost, ls[w.L.N])
	for i := range w.Tables {
		rs, err := xdsresource.UnmarshalRDS(anys(w.Tables[i].msg()))
		if err != nil {
			return nil, fmt.Errorf("well-formed route table rejected: %v", err)
		}
		st.put(xdsresource.RouteConfigType, w.Tables[i].N, rs[w.Tables[i].N])
	}
	return st, nil
}

// label makes every route recognisable by its destination.
func (w *worldSpec) label(t *rapid.T) {
	n := 0
	dest := func(d, c *string, wc *[]wcSpec, rich bool) {
		n++
		*wc = nil
		*c = ""
		switch x := ri(t, 0, 19); {
		case x < 13:
			*d, *c = "cluster", fmt.Sprintf("R%d", n)
		case x < 18:
			*d = "weighted"
			*wc = []wcSpec{{N: fmt.Sprintf("R%d", n), W: uint32(pick(t, []int{1, 100}))}}
			if flip(t) {
				*wc = append(*wc, wcSpec{N: fmt.Sprintf("R%dz", n), W: 0})
			}
		default:
			*d = "none"
			if rich {
				*d = pick(t, []string{"none", "redirect", "direct", "header"})
			}
		}
	}
	table := func(s *rdsSpec) {
		for vi := range s.VHs {
			for i := range s.VHs[vi].Routes {
				r := &s.VHs[vi].Routes[i]
				dest(&r.Dest, &r.C, &r.WC, true)
				r.Retry = nil
				if r.Timeout == nil || r.Dest == "redirect" || r.Dest == "direct" {
					r.Timeout = nil
				}
			}
		}
	}
	each := func(c *chainSpec) {
		for i := range c.Filters {
			f := &c.Filters[i]
			for j := range f.Thrift {
				dest(&f.Thrift[j].Dest, &f.Thrift[j].C, &f.Thrift[j].WC, false)
			}
			if f.Inline != nil {
				table(f.Inline)
			}
		}
	}
	for i := range w.L.Chains {
		each(&w.L.Chains[i])
	}
	if w.L.Default != nil {
		each(w.L.Default)
	}
	for i := range w.Tables {
		table(&w.Tables[i])
	}
}

// genWorld draws a listener with at most one HTTP and one Thrift filter among others, and named tables.
func genWorld(t *rapid.T, maxVH, maxR int) worldSpec {
	w := worldSpec{L: lisSpec{N: "10.0.0.1_80"}}
	var fs []filterSpec
	other := func() {
		if oneIn(t, 4) {
			fs = append(fs, filterSpec{K: pick(t, []string{"other", "none"})})
		}
	}
	name := pick(t, []string{"80", "rt", "echo:80"})
	http := func() {
		switch x := ri(t, 0, 9); {
		case x < 4:
			fs = append(fs, filterSpec{K: "rds", RDS: name, HF: genHF(t)})
		case x < 9:
			s := genRDS(t, name, maxVH, maxR, false)
			if oneIn(t, 6) {
				s.N = ""
			}
			fs = append(fs, filterSpec{K: "inline", Inline: &s, HF: genHF(t)})
		}
	}
	thrift := func() {
		if flip(t) {
			fs = append(fs, filterSpec{K: "thrift", Thrift: genThrift(t, false)})
		}
	}
	other()
	if flip(t) {
		http()
		other()
		thrift()
	} else {
		thrift()
		other()
		http()
	}
	other()
	// spread over chains
	cur := chainSpec{}
	for _, f := range fs {
		if oneIn(t, 4) && len(cur.Filters) > 0 {
			w.L.Chains = append(w.L.Chains, cur)
			cur = chainSpec{Match: flip(t)}
		}
		cur.Filters = append(cur.Filters, f)
	}
	if oneIn(t, 5) {
		w.L.Default = &cur
	} else {
		w.L.Chains = append(w.L.Chains, cur)
	}
	if !oneIn(t, 6) {
		w.Tables = append(w.Tables, genRDS(t, name, maxVH, maxR, false))
	}
	if oneIn(t, 3) {
		w.Tables = append(w.Tables, genRDS(t, name+"x", maxVH, maxR, false))
	}
	return w
}

func genProto(t *rapid.T) int {
	if oneIn(t, 8) {
		return ri(t, 5, len(protos)-1)
	}
	return ri(t, 0, 4)
}

// genCall aims at a route of the world more often than not.
func genCall(t *rapid.T, w worldSpec) callSpec {
	c := callSpec{Svc: pick(t, []string{"Echo", "EchoService"}), Method: pick(t, methods), Proto: genProto(t), MD: map[string]string{}, Ext: flip(t)}
	if oneIn(t, 3) {
		c.Pkg = "pkg"
		if oneIn(t, 4) {
			c.Pkg = pick(t, []string{c.Svc, "pkg.v1", "Echo"})
		}
	}
	var hs []hdrSpec
	var paths []string
	var meths []string
	table := func(s *rdsSpec) {
		if s == nil {
			return
		}
		for _, vh := range s.VHs {
			for _, r := range vh.Routes {
				hs = append(hs, r.Hdrs...)
				if r.Path == "exact" {
					paths = append(paths, r.PathV)
				}
			}
		}
	}
	var route []hdrSpec
	var all [][]hdrSpec
	for _, ch := range w.chains() {
		for _, f := range ch.Filters {
			table(f.Inline)
			for _, r := range f.Thrift {
				meths = append(meths, r.Method)
				all = append(all, r.Hdrs)
			}
			if f.Inline != nil {
				for _, vh := range f.Inline.VHs {
					for _, r := range vh.Routes {
						all = append(all, r.Hdrs)
					}
				}
			}
		}
	}
	for i := range w.Tables {
		table(&w.Tables[i])
		for _, vh := range w.Tables[i].VHs {
			for _, r := range vh.Routes {
				all = append(all, r.Hdrs)
			}
		}
	}
	if len(paths) > 0 && flip(t) {
		p := strings.SplitN(strings.TrimPrefix(pick(t, paths), "/"), "/", 2)
		if len(p) == 2 {
			c.Pkg, c.Svc, c.Method = "", p[0], p[1]
			if i := strings.LastIndex(p[0], "."); i >= 0 {
				c.Pkg, c.Svc = p[0][:i], p[0][i+1:]
			}
		}
	}
	if len(all) > 0 && !oneIn(t, 4) {
		route = pick(t, all)
	}
	for _, h := range route {
		switch h.K {
		case "exact":
			c.MD[h.N] = h.V
		case "prefix":
			c.MD[h.N] = h.V + pick(t, []string{"", "x", "-1"})
		case "regex":
			if _, ok := c.MD[h.N]; !ok {
				c.MD[h.N] = pick(t, []string{"a", "abc", "ab", "prod-12", "b", "1"})
			}
		}
	}
	for i := ri(t, 0, 2); i > 0; i-- {
		n := pick(t, hdrNames)
		if _, ok := c.MD[n]; ok && flip(t) {
			delete(c.MD, n)
		} else {
			c.MD[n] = pick(t, append([]string{"zz", "prod-12", "AB"}, hdrVals...))
		}
	}
	_ = hs
	return c
}

type c08Case struct {
	W     worldSpec  `json:"w"`
	Calls []callSpec `json:"calls"`
	W2    *worldSpec `json:"w2,omitempty"` // replaces W before call At
	At    int        `json:"at,omitempty"`
}

// world is the one in force for call i: tables that an update leaves out stay.
func (c c08Case) world(i int) worldSpec {
	if c.W2 == nil || i < c.At {
		return c.W
	}
	w := *c.W2
	w.Tables = slices.Clone(w.Tables)
	for _, s := range c.W.Tables {
		if !slices.ContainsFunc(w.Tables, func(x rdsSpec) bool { return x.N == s.N }) {
			w.Tables = append(w.Tables, s)
		}
	}
	return w
}

const absentHost = "absent.default.svc.cluster.local:80"

func (c callSpec) host() string {
	if c.Absent {
		return absentHost
	}
	return worldHost
}

func genC08(t *rapid.T) c08Case {
	c := c08Case{W: genWorld(t, 3, 4)}
	c.W.label(t)
	if oneIn(t, 3) {
		w := genWorld(t, 3, 4)
		w.label(t)
		c.W2, c.At = &w, ri(t, 1, 4)
	}
	for i := 0; i < 5; i++ {
		x := genCall(t, c.world(i))
		if i > 0 && flip(t) { // like an earlier one, but for something
			y := pick(t, c.Calls)
			switch ri(t, 0, 3) {
			case 0:
				y.MD = x.MD
			case 1:
				y.Svc, y.Pkg = x.Svc, x.Pkg
			case 2:
				y.Proto = x.Proto
			default:
				y.Method = x.Method
			}
			x = y
		}
		x.Fresh, x.Absent = oneIn(t, 4), oneIn(t, 20)
		c.Calls = append(c.Calls, x)
	}
	return c
}

// checkRouted compares one routing result with the reference.
func checkRouted(where string, want routed, cluster string, timeout time.Duration, err error) error {
	var support []string
	for _, d := range want.dest {
		if d.W > 0 || len(want.dest) == 1 {
			support = append(support, d.N)
		}
	}
	if want.err || len(support) == 0 {
		if err == nil {
			return fmt.Errorf("%s: routed to %q although nothing matches or the route has no cluster (%s)", where, cluster, want.via)
		}
		return nil
	}
	if err != nil {
		return fmt.Errorf("%s: fails (%v), want %v through the %s route", where, err, support, want.via)
	}
	for _, s := range support {
		if s == cluster {
			if timeout != want.timeout {
				return fmt.Errorf("%s: timeout %v, want %v of the %s route to %s", where, timeout, want.timeout, want.via, cluster)
			}
			return nil
		}
	}
	return fmt.Errorf("%s: routed to %q, want one of %q through the %s route", where, cluster, support, want.via)
}

func classRouted(cx *Ctx, r routed) {
	cx.Class("via " + r.via)
	cx.ClassIf(!r.err && r.skipped > 0, "an earlier route did not match")
	cx.NTIf(!r.err && r.skipped > 0)
}

func runC08(cx *Ctx, c c08Case) error {
	st, err := c.W.stub()
	if err != nil {
		return err
	}
	theDispatcher.use(st)
	routers := map[bool]*xdssuite.XDSRouter{}
	for i, call := range c.Calls {
		if c.W2 != nil && i == c.At {
			if st, err = c.world(i).stub(); err != nil {
				return err
			}
			theDispatcher.use(st)
			cx.Class("routes replaced")
		}
		ri, to := call.rpcInfo(call.host())
		want := c.world(i).route(call)
		if call.Absent {
			want = routed{err: true, via: "absent listener"}
		}
		classRouted(cx, want)
		router := routers[call.Ext]
		if router == nil || call.Fresh {
			router = xdssuite.NewXDSRouter(call.options()...)
			routers[call.Ext] = router
		}
		res, err := router.Route(call.context(context.Background()), ri)
		if err == nil && res == nil {
			return fmt.Errorf("call %d: no result and no error", i)
		}
		var cl string
		var to2 time.Duration
		if err == nil {
			cl, to2 = res.ClusterPicked, res.RPCTimeout
		}
		if e := checkRouted(fmt.Sprintf("call %d %s md %v grpc %v", i, call.path(), call.seen(), call.Proto == grpcProto), want, cl, to2, err); e != nil {
			return e
		}
		if to.Method() != call.Method || ri.Invocation().MethodName() != call.Method {
			return errors.New("the router changed the call")
		}
	}
	return nil
}

// cpWorld answers every request with everything it knows, whenever the names asked for changed.
type cpWorld struct {
	cp   *fakeCP
	res  map[xdsresource.ResourceType]map[string]*anypb.Any
	last map[string]string
	ver  int
}

func attachWorld(cp *fakeCP) *cpWorld {
	w := &cpWorld{cp: cp, res: map[xdsresource.ResourceType]map[string]*anypb.Any{}, last: map[string]string{}}
	cp.mu.Lock()
	cp.onReq = w.onReq
	cp.mu.Unlock()
	return w
}

func (w *cpWorld) put(rt xdsresource.ResourceType, name string, a *anypb.Any) {
	w.cp.mu.Lock()
	defer w.cp.mu.Unlock()
	if w.res[rt] == nil {
		w.res[rt] = map[string]*anypb.Any{}
	}
	w.res[rt][name] = a
}

func (w *cpWorld) del(rt xdsresource.ResourceType, name string) {
	w.cp.mu.Lock()
	defer w.cp.mu.Unlock()
	delete(w.res[rt], name)
}

func (w *cpWorld) all(rt xdsresource.ResourceType) []*anypb.Any {
	w.cp.mu.Lock()
	defer w.cp.mu.Unlock()
	var out []*anypb.Any
	for _, n := range sortedKeys(w.res[rt]) {
		out = append(out, w.res[rt][n])
	}
	return out
}

func (w *cpWorld) onReq(s *fakeStream, r reqRec) {
	w.cp.mu.Lock()
	key := fmt.Sprintf("%d/%s", r.Stream, r.URL)
	names := strings.Join(r.Names, "\x00")
	old, seen := w.last[key]
	w.last[key] = names
	w.cp.mu.Unlock()
	if seen && old == names {
		return
	}
	w.push(s, r.Type)
}

// push sends everything of a type on the stream.
func (w *cpWorld) push(s *fakeStream, rt xdsresource.ResourceType) {
	n := w.cp.nextNonce()
	s.push(w.cp.resp(urlOf[rt], "v"+n, n, w.all(rt)))
}

// startWorld starts the real manager on a world whose name table is known.
func startWorld(cx *Ctx, w *cpWorld, o mgrOpts) xmgr {
	ch := startManager(cx, w.cp, o)
	synctest.Wait()
	select {
	case r := <-ch:
		if r.err != nil {
			panic(stuck{"start-up fails: " + r.err.Error()})
		}
		teardown(cx, w.cp, r.m)
		return r.m
	default:
		cx.Defer(func() { w.cp.shutdown() })
		panic(stuck{warmupStuck})
	}
}

func one(as []*anypb.Any) *anypb.Any { return as[0] }

// runC08E2E makes the same calls through the public middleware on the real manager.
func runC08E2E(cx *Ctx, c c08Case) error {
	cp := newCP()
	w := attachWorld(cp)
	w.put(xdsresource.NameTableType, "nt", one(anys(nameTable(map[string][]string{"echo.default.svc.cluster.local": {"10.0.0.1"}}))))
	w.put(xdsresource.ListenerType, c.W.L.N, one(anys(c.W.L.msg())))
	for i := range c.W.Tables {
		w.put(xdsresource.RouteConfigType, c.W.Tables[i].N, one(anys(c.W.Tables[i].msg())))
	}
	m := startWorld(cx, w, mgrOpts{NDS: true, LDS: true, FetchTimeout: 200 * time.Millisecond})
	theDispatcher.use(m)
	mws := map[bool]func(endpoint.Endpoint) endpoint.Endpoint{}
	for i, call := range c.Calls {
		if c.W2 != nil && i == c.At {
			for _, s := range c.W2.Tables {
				w.put(xdsresource.RouteConfigType, s.N, one(anys(s.msg())))
			}
			w.del(xdsresource.ListenerType, c.W.L.N)
			w.put(xdsresource.ListenerType, c.W2.L.N, one(anys(c.W2.L.msg())))
			if s := cp.live(); s != nil {
				for _, t := range []rtype{tR, tL} {
					if w.asked(s, t) {
						w.push(s, t)
					}
				}
			}
			synctest.Wait()
			cx.Class("routes replaced")
		}
		ri, to := call.rpcInfo(call.host())
		want := c.world(i).route(call)
		if call.Absent {
			want = routed{err: true, via: "absent listener"}
		}
		classRouted(cx, want)
		next := 0
		mw := mws[call.Ext]
		if mw == nil || call.Fresh {
			mw = xdssuite.NewXDSRouterMiddleware(call.options()...)
			mws[call.Ext] = mw
		}
		ep := mw(func(context.Context, interface{}, interface{}) error { next++; return nil })
		err := ep(rpcinfo.NewCtxWithRPCInfo(call.context(context.Background()), ri), nil, nil)
		cl, _ := to.Tag(xdssuite.RouterClusterKey)
		if e := checkRouted(fmt.Sprintf("call %d %s md %v grpc %v", i, call.path(), call.seen(), call.Proto == grpcProto), want, cl, ri.Config().RPCTimeout(), err); e != nil {
			return e
		}
	}
	return nil
}

// ---- C09 ----

type c09Case struct {
	Retry  *retrySpec `json:"retry,omitempty"`
	WC     []wcSpec   `json:"wc"`
	Thrift bool       `json:"thrift,omitempty"`
	Draws  int        `json:"draws"`
}

func genC09(t *rapid.T) c09Case {
	c := c09Case{Thrift: oneIn(t, 4), Draws: 6000}
	n := ri(t, 0, 6)
	budget := uint64(math.MaxUint32)
	for i := 0; i < n; i++ {
		w := wcSpec{N: fmt.Sprintf("k%d", i)}
		switch x := ri(t, 0, 9); {
		case x < 3:
			w.W = 0
		case x < 7:
			w.W = uint32(ri(t, 1, 100))
		case x < 8:
			w.W = 1
		default:
			w.W = uint32(pick(t, []int{1000, 1 << 16, 1 << 31, 1<<32 - 1, 1 << 30, 3}))
		}
		if uint64(w.W) > budget {
			w.W = uint32(budget)
		}
		budget -= uint64(w.W)
		if w.W == 0 && flip(t) {
			w.NoW = true
		}
		c.WC = append(c.WC, w)
	}
	if n == 1 && c.WC[0].W == 0 {
		c.WC[0].NoW, c.WC[0].W = false, 1 // a lone cluster of weight 0: the property gives two answers
	}
	if !c.Thrift && flip(t) {
		c.Retry = genRetry(t, false)
	}
	return c
}

func runC09(cx *Ctx, c c09Case) error {
	w := worldSpec{L: lisSpec{N: "10.0.0.1_80"}}
	if c.Thrift {
		w.L.Chains = []chainSpec{{Filters: []filterSpec{{K: "thrift", Thrift: []thriftSpec{{Dest: "weighted", WC: c.WC}}}}}}
	} else {
		w.L.Chains = []chainSpec{{Filters: []filterSpec{{K: "rds", RDS: "rt"}}}}
		w.Tables = []rdsSpec{{N: "rt", VHs: []vhSpec{{N: "v", Routes: []routeSpec{{Path: "root", Dest: "weighted", WC: c.WC, Retry: c.Retry}}}}}}
	}
	st, err := w.stub()
	if err != nil {
		return err
	}
	theDispatcher.use(st)
	router := xdssuite.NewXDSRouter()
	call := callSpec{Svc: "Echo", Method: "Say"}
	ctx := context.Background()
	ri, _ := call.rpcInfo(worldHost)
	total, positive := uint64(0), 0
	weight := map[string]uint64{}
	for _, k := range c.WC {
		total += uint64(k.W)
		weight[k.N] = uint64(k.W)
		if k.W > 0 {
			positive++
		}
	}
	hits := map[string]int{}
	draws := c.Draws
	if positive <= 1 {
		draws = 200
	}
	for i := 0; i < draws; i++ {
		res, err := router.Route(ctx, ri)
		if total == 0 {
			if err == nil {
				return fmt.Errorf("weights %v: routed to %q", c.WC, res.ClusterPicked)
			}
			if i > 20 {
				break
			}
			continue
		}
		if err != nil {
			return fmt.Errorf("weights %v: draw %d fails: %v", c.WC, i, err)
		}
		if w, ok := weight[res.ClusterPicked]; !ok || w == 0 {
			return fmt.Errorf("weights %v: cluster %q is picked", c.WC, res.ClusterPicked)
		}
		hits[res.ClusterPicked]++
	}
	if total > 0 {
		for _, k := range c.WC {
			p := float64(k.W) / float64(total)
			exp := p * float64(draws)
			// Bernstein: P(|X-np| > t) <= 2 exp(-t^2 / (2 (np(1-p) + t/3))); the bound below keeps it under 2e-14
			const l = 32.0
			tt := l/3 + math.Sqrt(l*l/9+2*l*exp*(1-p))
			if d := math.Abs(float64(hits[k.N]) - exp); d > tt {
				return fmt.Errorf("weights %v: cluster %q is picked %d times in %d draws, expected %.1f +- %.1f", c.WC, k.N, hits[k.N], draws, exp, tt)
			}
		}
	}
	cx.ClassIf(total == 0 && len(c.WC) > 0, "all weights zero")
	cx.ClassIf(len(c.WC) == 0, "no clusters")
	cx.ClassIf(positive == 1 && len(c.WC) > 1, "one cluster holds all the weight")
	cx.ClassIf(positive > 1 && positive < len(c.WC), "zero weights among several")
	cx.ClassIf(len(c.WC) > 1 && c.WC[0].W == 0 && total > 0, "first weight zero")
	cx.ClassIf(total > math.MaxInt32, "total above 2^31")
	cx.NTIf(len(c.WC) > 1)
	return nil
}

func init() {
	register(spec[c08Case]{
		Prop: "C08", Name: "match", Quick: 120000, Thorough: 6000000, NoBubble: true,
		Rule: "some call of the case is routed by a route that is not the first of its table",
		Gen:  genC08, Run: runC08,
	})
	register(spec[c08Case]{
		Prop: "C08", Name: "e2e", Quick: 8000, Thorough: 400000,
		Rule: "some call of the case is routed by a route that is not the first of its table",
		Gen:  genC08, Run: runC08E2E,
	})
	register(spec[c09Case]{
		Prop: "C09", Name: "pick", Quick: 24000, Thorough: 1000000, NoBubble: true,
		Rule: "the route lists several clusters",
		Gen:  genC09, Run: runC09,
	})
}
