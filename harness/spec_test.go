package xdsverif

// Structured specifications of listeners and route tables: what the control plane means. They are turned into messages
// for the code under test, and the reference oracles read them directly.

import (
	"fmt"
	"regexp"
	"strings"
	"time"

	udpatypev1 "github.com/cncf/xds/go/udpa/type/v1"
	corev3 "github.com/envoyproxy/go-control-plane/envoy/config/core/v3"
	listenerv3 "github.com/envoyproxy/go-control-plane/envoy/config/listener/v3"
	routev3 "github.com/envoyproxy/go-control-plane/envoy/config/route/v3"
	lrlv3 "github.com/envoyproxy/go-control-plane/envoy/extensions/filters/http/local_ratelimit/v3"
	routerv3 "github.com/envoyproxy/go-control-plane/envoy/extensions/filters/http/router/v3"
	hcmv3 "github.com/envoyproxy/go-control-plane/envoy/extensions/filters/network/http_connection_manager/v3"
	thriftv3 "github.com/envoyproxy/go-control-plane/envoy/extensions/filters/network/thrift_proxy/v3"
	matcherv3 "github.com/envoyproxy/go-control-plane/envoy/type/matcher/v3"
	typev3 "github.com/envoyproxy/go-control-plane/envoy/type/v3"
	"google.golang.org/protobuf/types/known/anypb"
	"google.golang.org/protobuf/types/known/durationpb"
	"google.golang.org/protobuf/types/known/structpb"
	"google.golang.org/protobuf/types/known/wrapperspb"
	"pgregory.net/rapid"
)

type hdrSpec struct {
	N string `json:"n"`
	K string `json:"k"` // exact, prefix, regex
	V string `json:"v"`
}

type wcSpec struct {
	N   string `json:"n"`
	W   uint32 `json:"w"`
	NoW bool   `json:"now,omitempty"` // weight absent
}

type retrySpec struct {
	On      string   `json:"on,omitempty"`
	Num     *uint32  `json:"num,omitempty"`
	PTT     *int64   `json:"ptt,omitempty"` // ns
	Idle    *int64   `json:"idle,omitempty"`
	Backoff bool     `json:"bo,omitempty"`
	Base    *int64   `json:"base,omitempty"`
	Max     *int64   `json:"max,omitempty"`
	Rate    string   `json:"rate,omitempty"`
	Methods []string `json:"methods,omitempty"`
	Noise   int      `json:"noise,omitempty"` // unrelated retriable headers: 1 before, 2 after, 3 non-exact
}

type routeSpec struct {
	Path    string     `json:"path"` // exact, root, prefix, regex, none
	PathV   string     `json:"pathv,omitempty"`
	Hdrs    []hdrSpec  `json:"hdrs,omitempty"`
	Dest    string     `json:"dest"` // cluster, weighted, none, redirect, direct
	C       string     `json:"c,omitempty"`
	WC      []wcSpec   `json:"wc,omitempty"`
	Timeout *int64     `json:"to,omitempty"` // ns
	Retry   *retrySpec `json:"retry,omitempty"`
	Noise   bool       `json:"noise,omitempty"` // fields without a bearing on the meaning
}

type vhSpec struct {
	N      string      `json:"n"`
	Routes []routeSpec `json:"routes"`
}

type rdsSpec struct {
	N   string   `json:"n"`
	VHs []vhSpec `json:"vhs"`
}

type thriftSpec struct {
	Method  string    `json:"method,omitempty"`
	Service string    `json:"service,omitempty"` // decoding only
	Hdrs    []hdrSpec `json:"hdrs,omitempty"`
	Dest    string    `json:"dest"`
	C       string    `json:"c,omitempty"`
	WC      []wcSpec  `json:"wc,omitempty"`
}

// httpFilter of an HTTP connection manager.
type hfSpec struct {
	K   string `json:"k"` // rl, rlstruct, rlempty, struct, router, other, none
	Max uint32 `json:"max,omitempty"`
	TPF uint32 `json:"tpf,omitempty"`
}

type filterSpec struct {
	K      string       `json:"k"` // rds, inline, thrift, other, none
	RDS    string       `json:"rds,omitempty"`
	Inline *rdsSpec     `json:"inline,omitempty"`
	Thrift []thriftSpec `json:"thrift,omitempty"`
	HF     []hfSpec     `json:"hf,omitempty"`
}

type chainSpec struct {
	Port    *uint32      `json:"port,omitempty"`
	Match   bool         `json:"match,omitempty"` // a match without a port
	Filters []filterSpec `json:"filters"`
}

type lisSpec struct {
	N       string      `json:"n"`
	Chains  []chainSpec `json:"chains"`
	Default *chainSpec  `json:"default,omitempty"`
}

// ---- messages ----

func hdrMsgs(hs []hdrSpec) []*routev3.HeaderMatcher {
	var out []*routev3.HeaderMatcher
	for _, h := range hs {
		sm := &matcherv3.StringMatcher{}
		switch h.K {
		case "exact":
			sm.MatchPattern = &matcherv3.StringMatcher_Exact{Exact: h.V}
		case "prefix":
			sm.MatchPattern = &matcherv3.StringMatcher_Prefix{Prefix: h.V}
		case "regex":
			sm.MatchPattern = &matcherv3.StringMatcher_SafeRegex{SafeRegex: &matcherv3.RegexMatcher{Regex: h.V}}
		default:
			panic(harnessErr{"hdr " + h.K})
		}
		out = append(out, &routev3.HeaderMatcher{Name: h.N, HeaderMatchSpecifier: &routev3.HeaderMatcher_StringMatch{StringMatch: sm}})
	}
	return out
}

func optDur(ns *int64) *durationpb.Duration {
	if ns == nil {
		return nil
	}
	return durationpb.New(time.Duration(*ns))
}

func exactHdr(n, v string) *routev3.HeaderMatcher {
	return &routev3.HeaderMatcher{Name: n, HeaderMatchSpecifier: &routev3.HeaderMatcher_StringMatch{
		StringMatch: &matcherv3.StringMatcher{MatchPattern: &matcherv3.StringMatcher_Exact{Exact: v}},
	}}
}

func (r *retrySpec) msg() *routev3.RetryPolicy {
	if r == nil {
		return nil
	}
	p := &routev3.RetryPolicy{RetryOn: r.On, PerTryTimeout: optDur(r.PTT), PerTryIdleTimeout: optDur(r.Idle)}
	if r.Num != nil {
		p.NumRetries = u32(*r.Num)
	}
	if r.Backoff {
		p.RetryBackOff = &routev3.RetryPolicy_RetryBackOff{BaseInterval: optDur(r.Base), MaxInterval: optDur(r.Max)}
	}
	if r.Noise&1 != 0 {
		p.RetriableHeaders = append(p.RetriableHeaders, exactHdr("x-noise", "0.25"))
	}
	if r.Rate != "" {
		p.RetriableHeaders = append(p.RetriableHeaders, exactHdr("kitexRetryErrorRate", r.Rate))
	}
	if len(r.Methods) > 0 {
		p.RetriableHeaders = append(p.RetriableHeaders, exactHdr("kitexRetryMethods", strings.Join(r.Methods, ",")))
	}
	if r.Noise&2 != 0 {
		p.RetriableHeaders = append(p.RetriableHeaders, &routev3.HeaderMatcher{Name: "x-noise2", HeaderMatchSpecifier: &routev3.HeaderMatcher_PresentMatch{PresentMatch: true}})
	}
	return p
}

func wcMsg(ws []wcSpec) []*routev3.WeightedCluster_ClusterWeight {
	var out []*routev3.WeightedCluster_ClusterWeight
	for _, w := range ws {
		c := &routev3.WeightedCluster_ClusterWeight{Name: w.N}
		if !w.NoW {
			c.Weight = u32(w.W)
		}
		out = append(out, c)
	}
	return out
}

func (r routeSpec) msg() *routev3.Route {
	m := &routev3.RouteMatch{Headers: hdrMsgs(r.Hdrs)}
	switch r.Path {
	case "exact":
		m.PathSpecifier = &routev3.RouteMatch_Path{Path: r.PathV}
	case "root":
		m.PathSpecifier = &routev3.RouteMatch_Prefix{Prefix: "/"}
	case "prefix":
		m.PathSpecifier = &routev3.RouteMatch_Prefix{Prefix: r.PathV}
	case "regex":
		m.PathSpecifier = &routev3.RouteMatch_SafeRegex{SafeRegex: &matcherv3.RegexMatcher{Regex: r.PathV}}
	case "sep":
		m.PathSpecifier = &routev3.RouteMatch_PathSeparatedPrefix{PathSeparatedPrefix: r.PathV}
	default:
		panic(harnessErr{"path " + r.Path})
	}
	out := &routev3.Route{Match: m}
	act := &routev3.RouteAction{Timeout: optDur(r.Timeout), RetryPolicy: r.Retry.msg()}
	if r.Noise {
		out.Name = "n"
		act.IdleTimeout = durationpb.New(77 * time.Second)
		act.MaxStreamDuration = &routev3.RouteAction_MaxStreamDuration{MaxStreamDuration: durationpb.New(78 * time.Second), GrpcTimeoutHeaderMax: durationpb.New(79 * time.Second)}
		act.Priority = corev3.RoutingPriority_HIGH
		act.HashPolicy = []*routev3.RouteAction_HashPolicy{{Terminal: true}}
		out.RequestHeadersToAdd = []*corev3.HeaderValueOption{{Header: &corev3.HeaderValue{Key: "env", Value: "prod"}}}
	}
	switch r.Dest {
	case "cluster":
		act.ClusterSpecifier = &routev3.RouteAction_Cluster{Cluster: r.C}
	case "weighted":
		act.ClusterSpecifier = &routev3.RouteAction_WeightedClusters{WeightedClusters: &routev3.WeightedCluster{Clusters: wcMsg(r.WC)}}
	case "header":
		act.ClusterSpecifier = &routev3.RouteAction_ClusterHeader{ClusterHeader: "x-cluster"}
	case "none":
	case "redirect":
		out.Action = &routev3.Route_Redirect{Redirect: &routev3.RedirectAction{}}
		return out
	case "direct":
		out.Action = &routev3.Route_DirectResponse{DirectResponse: &routev3.DirectResponseAction{Status: 404}}
		return out
	default:
		panic(harnessErr{"dest " + r.Dest})
	}
	out.Action = &routev3.Route_Route{Route: act}
	return out
}

func (s *rdsSpec) msg() *routev3.RouteConfiguration {
	rc := &routev3.RouteConfiguration{Name: s.N}
	for _, vh := range s.VHs {
		v := &routev3.VirtualHost{Name: vh.N, Domains: []string{"*"}}
		for _, r := range vh.Routes {
			v.Routes = append(v.Routes, r.msg())
		}
		rc.VirtualHosts = append(rc.VirtualHosts, v)
	}
	return rc
}

func (s thriftSpec) msg() *thriftv3.Route {
	m := &thriftv3.RouteMatch{Headers: hdrMsgs(s.Hdrs)}
	if s.Service != "" {
		m.MatchSpecifier = &thriftv3.RouteMatch_ServiceName{ServiceName: s.Service}
	} else {
		m.MatchSpecifier = &thriftv3.RouteMatch_MethodName{MethodName: s.Method}
	}
	a := &thriftv3.RouteAction{}
	switch s.Dest {
	case "cluster":
		a.ClusterSpecifier = &thriftv3.RouteAction_Cluster{Cluster: s.C}
	case "weighted":
		var cs []*thriftv3.WeightedCluster_ClusterWeight
		for _, w := range s.WC {
			c := &thriftv3.WeightedCluster_ClusterWeight{Name: w.N}
			if !w.NoW {
				c.Weight = u32(w.W)
			}
			cs = append(cs, c)
		}
		a.ClusterSpecifier = &thriftv3.RouteAction_WeightedClusters{WeightedClusters: &thriftv3.WeightedCluster{Clusters: cs}}
	case "none":
	default:
		panic(harnessErr{"thrift dest " + s.Dest})
	}
	return &thriftv3.Route{Match: m, Route: a}
}

func num(v float64) *structpb.Value { return structpb.NewNumberValue(v) }

func (h hfSpec) msg() *hcmv3.HttpFilter {
	typed := func(a *anypb.Any) *hcmv3.HttpFilter {
		return &hcmv3.HttpFilter{Name: "f-" + h.K, ConfigType: &hcmv3.HttpFilter_TypedConfig{TypedConfig: a}}
	}
	switch h.K {
	case "rl":
		return typed(anyOf(rateURL, &lrlv3.LocalRateLimit{StatPrefix: "x", TokenBucket: &typev3.TokenBucket{
			MaxTokens: h.Max, TokensPerFill: u32(h.TPF), FillInterval: durationpb.New(time.Second),
		}}))
	case "rlempty": // a rate-limit filter without a bucket (disabled)
		return typed(anyOf(rateURL, &lrlv3.LocalRateLimit{StatPrefix: "x"}))
	case "rlstruct":
		st, err := structpb.NewStruct(map[string]interface{}{"stat_prefix": "x", "token_bucket": map[string]interface{}{
			"max_tokens": float64(h.Max), "tokens_per_fill": float64(h.TPF), "fill_interval": "1s",
		}})
		must(err)
		return typed(anyOf(structURL, &udpatypev1.TypedStruct{TypeUrl: rateURL, Value: st}))
	case "struct": // some other filter configured by a struct
		st, err := structpb.NewStruct(map[string]interface{}{"a": map[string]interface{}{"max_tokens": 7.0}})
		must(err)
		return typed(anyOf(structURL, &udpatypev1.TypedStruct{TypeUrl: "type.googleapis.com/verif.Other", Value: st}))
	case "router":
		return typed(anyOf("type.googleapis.com/envoy.extensions.filters.http.router.v3.Router", &routerv3.Router{}))
	case "other":
		return typed(&anypb.Any{TypeUrl: "type.googleapis.com/verif.Unknown", Value: []byte{1, 2, 3}})
	case "disc":
		return &hcmv3.HttpFilter{Name: "f-disc", ConfigType: &hcmv3.HttpFilter_ConfigDiscovery{ConfigDiscovery: &corev3.ExtensionConfigSource{}}}
	case "none":
		return &hcmv3.HttpFilter{Name: "f-none"}
	}
	panic(harnessErr{"hf " + h.K})
}

func (f filterSpec) msg() *listenerv3.Filter {
	switch f.K {
	case "rds", "inline":
		h := &hcmv3.HttpConnectionManager{}
		if f.K == "rds" {
			h.RouteSpecifier = &hcmv3.HttpConnectionManager_Rds{Rds: &hcmv3.Rds{RouteConfigName: f.RDS}}
		} else {
			h.RouteSpecifier = &hcmv3.HttpConnectionManager_RouteConfig{RouteConfig: f.Inline.msg()}
		}
		for _, x := range f.HF {
			h.HttpFilters = append(h.HttpFilters, x.msg())
		}
		return hcmFilter(h)
	case "thrift":
		rc := &thriftv3.RouteConfiguration{Name: "tr"}
		for _, r := range f.Thrift {
			rc.Routes = append(rc.Routes, r.msg())
		}
		return &listenerv3.Filter{Name: "thrift", ConfigType: &listenerv3.Filter_TypedConfig{TypedConfig: anyOf(thriftURL, &thriftv3.ThriftProxy{RouteConfig: rc})}}
	case "other":
		return &listenerv3.Filter{Name: "tcp", ConfigType: &listenerv3.Filter_TypedConfig{TypedConfig: &anypb.Any{
			TypeUrl: "type.googleapis.com/envoy.extensions.filters.network.tcp_proxy.v3.TcpProxy", Value: []byte{9, 9},
		}}}
	case "none":
		return &listenerv3.Filter{Name: "empty"}
	}
	panic(harnessErr{"filter " + f.K})
}

func (c chainSpec) msg() *listenerv3.FilterChain {
	fc := &listenerv3.FilterChain{}
	if c.Port != nil {
		fc.FilterChainMatch = &listenerv3.FilterChainMatch{DestinationPort: &wrapperspb.UInt32Value{Value: *c.Port}}
	} else if c.Match {
		fc.FilterChainMatch = &listenerv3.FilterChainMatch{ServerNames: []string{"x"}}
	}
	for _, f := range c.Filters {
		fc.Filters = append(fc.Filters, f.msg())
	}
	return fc
}

func (l lisSpec) msg() *listenerv3.Listener {
	m := &listenerv3.Listener{Name: l.N}
	for _, c := range l.Chains {
		m.FilterChains = append(m.FilterChains, c.msg())
	}
	if l.Default != nil {
		m.DefaultFilterChain = l.Default.msg()
	}
	return m
}

// ---- reference semantics ----

// holds is the reference meaning of one header condition.
func (h hdrSpec) holds(md map[string]string) bool {
	v, ok := md[h.N]
	if !ok {
		return false
	}
	switch h.K {
	case "exact":
		return v == h.V
	case "prefix":
		return len(v) >= len(h.V) && v[:len(h.V)] == h.V
	case "regex":
		re, err := regexp.Compile(h.V)
		return err == nil && re.FindStringIndex(v) != nil
	}
	panic(harnessErr{"hdr " + h.K})
}

func allHold(hs []hdrSpec, md map[string]string) bool {
	for _, h := range hs {
		if !h.holds(md) {
			return false
		}
	}
	return true
}

func (r routeSpec) pathHolds(path string) bool {
	switch r.Path {
	case "exact":
		return r.PathV == path
	case "root":
		return true
	}
	return false // unsupported path conditions never hold
}

func (r routeSpec) clusters() []wcSpec { return destOf(r.Dest, r.C, r.WC) }

func destOf(dest, c string, wc []wcSpec) []wcSpec {
	switch dest {
	case "cluster":
		return []wcSpec{{N: c, W: 1}}
	case "weighted":
		out := make([]wcSpec, 0, len(wc))
		for _, w := range wc {
			if w.NoW {
				w.W = 0
			}
			out = append(out, wcSpec{N: w.N, W: w.W})
		}
		return out
	}
	return nil
}

func dur(ns *int64) time.Duration {
	if ns == nil {
		return 0
	}
	return time.Duration(*ns)
}

// ---- generators ----

var (
	hdrNames = []string{"env", "user", "version", "X-Case", "x-case"}
	hdrVals  = []string{"", "a", "ab", "abc", "b", "prod", "prod-1", "α", "a b", "1.2"}
	regexes  = []string{"^a", "b$", "^abc$", "pro.-[0-9]+", ".*", "a|b", "^$", "[", "(?P<n>a)", "a{2,1}", "(?i)AB", "\\d+"}
	clusterN = []string{"outbound|80||a", "c1", "c2", "c3", "c4"}
	svcNames = []string{"Echo", "EchoService", "pkg.Echo"}
	methods  = []string{"Say", "say", "Echo", "Get"}
)

func genHdrs(t *rapid.T, max int) []hdrSpec {
	var out []hdrSpec
	for i := cnt(t, 0, max); i > 0; i-- {
		h := hdrSpec{N: pick(t, hdrNames), K: pick(t, []string{"exact", "prefix", "regex"})}
		if oneIn(t, 12) {
			h.N = word(t)
		}
		if h.K == "regex" {
			h.V = pick(t, regexes)
		} else {
			h.V = pick(t, hdrVals)
			if oneIn(t, 8) {
				h.V = stretch(t, word(t))
			}
		}
		out = append(out, h)
	}
	return out
}

func genWC(t *rapid.T) []wcSpec {
	var out []wcSpec
	for i := cnt(t, 0, 4); i > 0; i-- {
		w := wcSpec{N: stretch(t, pick(t, clusterN)), W: drawU32(t, 26, 0, 1, 2, 10, 50, 100, 1<<20, 1<<26)}
		if oneIn(t, 8) {
			w.NoW, w.W = true, 0
		}
		out = append(out, w)
	}
	return out
}

func genDest(t *rapid.T, extra []string) (dest, c string, wc []wcSpec) {
	switch x := ri(t, 0, 9); {
	case x < 5:
		return "cluster", pick(t, clusterN), nil
	case x < 8:
		return "weighted", "", genWC(t)
	default:
		return pick(t, append([]string{"none"}, extra...)), "", nil
	}
}

func optNS(t *rapid.T, vals ...int64) *int64 {
	if oneIn(t, 5) {
		return nil
	}
	v := pick(t, vals)
	if oneIn(t, 4) { // any number of milliseconds
		v = int64(anyU32(t, 20)) * nsMS
	}
	return &v
}

const (
	nsMS = int64(time.Millisecond)
	nsS  = int64(time.Second)
)

var retryOns = []string{"", "5xx", "gateway-error,connect-failure", "retriable-headers"}

// genRetry: any values (decoding); valid restricts to what the retry container installs as given.
func genRetry(t *rapid.T, valid bool) *retrySpec {
	if oneIn(t, 4) {
		return nil
	}
	r := &retrySpec{On: pick(t, retryOns)}
	if valid {
		if !oneIn(t, 6) {
			n := uint32(ri(t, 0, 5))
			r.Num = &n
		}
		r.PTT = optNS(t, 0, nsMS, 10*nsMS, 250*nsMS, nsS, 3*nsS)
		if flip(t) {
			r.Backoff = true
			b := int64(ri(t, 1, 500)) * nsMS
			r.Base = &b
			if !oneIn(t, 4) {
				m := int64(ri(t, 1, 1000)) * nsMS
				if flip(t) {
					m = b + int64(ri(t, 1, 500))*nsMS
				}
				r.Max = &m
			}
		}
		if flip(t) {
			r.Rate = pick(t, []string{"0.1", "0.05", "0.3", "0.25", "2e-1", ".15"})
		}
	} else {
		if !oneIn(t, 5) {
			n := drawU32(t, 31, 0, 1, 2, 3, 5, 7, 100, 1<<30)
			r.Num = &n
		}
		r.PTT = optNS(t, 0, 1, nsMS, 1500*nsMS, 2*nsS, 3600*nsS)
		r.Idle = optNS(t, 0, 5, nsMS, 7*nsS)
		if flip(t) {
			r.Backoff = true
			r.Base = optNS(t, 0, 1, nsMS, 25*nsMS, 3*nsS)
			r.Max = optNS(t, 0, 1, nsMS, 250*nsMS, 10*nsS)
		}
		if flip(t) {
			r.Rate = pick(t, []string{"0.1", "0", "1", "0.75", "1e-3", "2", "0.30"})
		}
	}
	if flip(t) {
		for i := cnt(t, 1, 3); i > 0; i-- {
			r.Methods = append(r.Methods, pick(t, methods))
		}
	}
	r.Noise = ri(t, 0, 3)
	return r
}

func genRoute(t *rapid.T, validRetry bool) routeSpec {
	r := routeSpec{}
	switch x := ri(t, 0, 9); {
	case x < 4:
		r.Path = "root"
	case x < 8:
		r.Path, r.PathV = "exact", "/"+pick(t, svcNames)+"/"+pick(t, methods)
		if oneIn(t, 10) {
			r.PathV = "/" + word(t) + "." + word(t) + "/" + stretch(t, word(t))
		}
		if oneIn(t, 12) { // near misses
			r.PathV = pick(t, []string{r.PathV + "/", "/" + r.PathV, strings.ToLower(r.PathV), r.PathV[1:], r.PathV + "*", "*"})
		}
	default:
		r.Path = pick(t, []string{"prefix", "regex", "sep"})
		r.PathV = pick(t, []string{"/Echo", "/pkg.Echo/Say", "/Echo/", "", "/.*"})
		if r.Path == "prefix" && r.PathV == "" {
			r.PathV = "/Echo/"
		}
	}
	r.Hdrs = genHdrs(t, 3)
	r.Dest, r.C, r.WC = genDest(t, []string{"redirect", "direct", "header"})
	if r.Dest != "redirect" && r.Dest != "direct" {
		r.Timeout = optNS(t, 0, 1, nsMS, 500*nsMS, nsS, 1234567890, 15*nsS)
		r.Retry = genRetry(t, validRetry)
	}
	r.Noise = oneIn(t, 4)
	return r
}

func genRDS(t *rapid.T, name string, maxVH, maxR int, validRetry bool) rdsSpec {
	s := rdsSpec{N: name}
	for i := cnt(t, 0, maxVH); i > 0; i-- {
		vh := vhSpec{N: fmt.Sprintf("vh%d", i)}
		if oneIn(t, 4) {
			vh.N = pick(t, []string{"", "*", "vh1", "vh2", "inbound|http|80"})
		}
		for j := cnt(t, 0, maxR); j > 0; j-- {
			vh.Routes = append(vh.Routes, genRoute(t, validRetry))
		}
		s.VHs = append(s.VHs, vh)
	}
	return s
}

func genThrift(t *rapid.T, service bool) []thriftSpec {
	var out []thriftSpec
	for i := cnt(t, 0, 4); i > 0; i-- {
		s := thriftSpec{Hdrs: genHdrs(t, 2)}
		switch x := ri(t, 0, 5); {
		case x < 3:
			s.Method = pick(t, methods)
			if oneIn(t, 8) {
				s.Method = stretch(t, word(t))
			}
		case x == 3 && service:
			s.Service = pick(t, svcNames)
		}
		s.Dest, s.C, s.WC = genDest(t, nil)
		out = append(out, s)
	}
	return out
}

// genHF draws the HTTP filter chain, with at most one real bucket.
func genHF(t *rapid.T) []hfSpec {
	var out []hfSpec
	real := false
	for i := cnt(t, 0, 4); i > 0; i-- {
		h := hfSpec{K: pick(t, []string{"rl", "rlstruct", "router", "struct", "other", "rlempty", "none", "disc"})}
		if h.K == "rl" || h.K == "rlstruct" {
			if real {
				continue
			}
			real = true
			h.TPF = drawU32(t, 32, 0, 1, 5, 100, 1000, 65536, 4294967295, 2147483648)
			h.Max = max(1, drawU32(t, 32, 1, 5, 100, 4294967295))
		}
		out = append(out, h)
	}
	return out
}

// bucket is the reference rate limit of an HTTP filter chain.
func bucket(hf []hfSpec) (max, tpf uint32) {
	for _, h := range hf {
		if h.K == "rl" || h.K == "rlstruct" {
			return h.Max, h.TPF
		}
	}
	return 0, 0
}
