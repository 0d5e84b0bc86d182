package xdsverif

// Builders of control-plane messages.

import (
	mathbits "math/bits"
	"slices"
	"sort"
	"strings"
	"time"

	clusterv3 "github.com/envoyproxy/go-control-plane/envoy/config/cluster/v3"
	corev3 "github.com/envoyproxy/go-control-plane/envoy/config/core/v3"
	endpointv3 "github.com/envoyproxy/go-control-plane/envoy/config/endpoint/v3"
	listenerv3 "github.com/envoyproxy/go-control-plane/envoy/config/listener/v3"
	routev3 "github.com/envoyproxy/go-control-plane/envoy/config/route/v3"
	hcmv3 "github.com/envoyproxy/go-control-plane/envoy/extensions/filters/network/http_connection_manager/v3"
	"google.golang.org/protobuf/encoding/protowire"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/types/known/anypb"
	"google.golang.org/protobuf/types/known/durationpb"
	"google.golang.org/protobuf/types/known/structpb"
	"google.golang.org/protobuf/types/known/wrapperspb"
	"pgregory.net/rapid"

	ndsv1 "github.com/kitex-contrib/xds/core/api/kitex_gen/istio.io/istio/pkg/dns/proto/istio_networking_nds_v1"
	"github.com/kitex-contrib/xds/core/xdsresource"
)

var urlOf = map[xdsresource.ResourceType]string{
	xdsresource.ListenerType:    "type.googleapis.com/envoy.config.listener.v3.Listener",
	xdsresource.RouteConfigType: "type.googleapis.com/envoy.config.route.v3.RouteConfiguration",
	xdsresource.ClusterType:     "type.googleapis.com/envoy.config.cluster.v3.Cluster",
	xdsresource.EndpointsType:   "type.googleapis.com/envoy.config.endpoint.v3.ClusterLoadAssignment",
	xdsresource.NameTableType:   "type.googleapis.com/istio.networking.nds.v1.NameTable",
}

const hcmURL = "type.googleapis.com/envoy.extensions.filters.network.http_connection_manager.v3.HttpConnectionManager"
const thriftURL = "type.googleapis.com/envoy.extensions.filters.network.thrift_proxy.v3.ThriftProxy"
const rateURL = "type.googleapis.com/envoy.extensions.filters.http.local_ratelimit.v3.LocalRateLimit"
const structURL = "type.googleapis.com/udpa.type.v1.TypedStruct"

func anyOf(url string, m proto.Message) *anypb.Any {
	b, err := proto.MarshalOptions{Deterministic: true}.Marshal(m)
	must(err)
	return &anypb.Any{TypeUrl: url, Value: b}
}

// anys packs xDS resources under their own type URLs.
func anys(ms ...proto.Message) []*anypb.Any {
	out := make([]*anypb.Any, 0, len(ms))
	for _, m := range ms {
		var u string
		switch m.(type) {
		case *listenerv3.Listener:
			u = urlOf[xdsresource.ListenerType]
		case *routev3.RouteConfiguration:
			u = urlOf[xdsresource.RouteConfigType]
		case *clusterv3.Cluster:
			u = urlOf[xdsresource.ClusterType]
		case *endpointv3.ClusterLoadAssignment:
			u = urlOf[xdsresource.EndpointsType]
		case *ndsv1.NameTable:
			u = urlOf[xdsresource.NameTableType]
		default:
			panic(harnessErr{"anys: unknown message"})
		}
		out = append(out, anyOf(u, m))
	}
	return out
}

func nameTable(t map[string][]string) *ndsv1.NameTable {
	nt := &ndsv1.NameTable{Table: map[string]*ndsv1.NameTable_NameInfo{}}
	for k, v := range t {
		nt.Table[k] = &ndsv1.NameTable_NameInfo{Ips: append([]string(nil), v...), Registry: "Kubernetes"}
	}
	return nt
}

func u32(v uint32) *wrapperspb.UInt32Value { return &wrapperspb.UInt32Value{Value: v} }

func durMS(ms int) *durationpb.Duration { return durationpb.New(time.Duration(ms) * time.Millisecond) }

// rdsListener is a listener with one HTTP filter naming a route table.
func rdsListener(name, route string) *listenerv3.Listener {
	return &listenerv3.Listener{Name: name, FilterChains: []*listenerv3.FilterChain{{
		Filters: []*listenerv3.Filter{hcmFilter(&hcmv3.HttpConnectionManager{
			RouteSpecifier: &hcmv3.HttpConnectionManager_Rds{Rds: &hcmv3.Rds{RouteConfigName: route}},
		})},
	}}}
}

func hcmFilter(h *hcmv3.HttpConnectionManager) *listenerv3.Filter {
	return &listenerv3.Filter{Name: "hcm", ConfigType: &listenerv3.Filter_TypedConfig{TypedConfig: anyOf(hcmURL, h)}}
}

// oneRoute is a route table sending everything to one cluster.
func oneRoute(name, cluster string) *routev3.RouteConfiguration {
	return &routev3.RouteConfiguration{Name: name, VirtualHosts: []*routev3.VirtualHost{{
		Name: "vh", Domains: []string{"*"}, Routes: []*routev3.Route{{
			Match:  &routev3.RouteMatch{PathSpecifier: &routev3.RouteMatch_Prefix{Prefix: "/"}},
			Action: &routev3.Route_Route{Route: &routev3.RouteAction{ClusterSpecifier: &routev3.RouteAction_Cluster{Cluster: cluster}}},
		}},
	}}}
}

func edsCluster(name, svc string) *clusterv3.Cluster {
	return &clusterv3.Cluster{
		Name: name, ClusterDiscoveryType: &clusterv3.Cluster_Type{Type: clusterv3.Cluster_EDS},
		EdsClusterConfig: &clusterv3.Cluster_EdsClusterConfig{ServiceName: svc},
	}
}

func lbEndpoint(ip string, port, weight uint32) *endpointv3.LbEndpoint {
	e := &endpointv3.LbEndpoint{HostIdentifier: &endpointv3.LbEndpoint_Endpoint{Endpoint: &endpointv3.Endpoint{
		Address: &corev3.Address{Address: &corev3.Address_SocketAddress{SocketAddress: &corev3.SocketAddress{
			Address: ip, PortSpecifier: &corev3.SocketAddress_PortValue{PortValue: port},
		}}},
	}}}
	if weight > 0 {
		e.LoadBalancingWeight = u32(weight)
	}
	return e
}

func oneEndpoint(name string, port uint32) *endpointv3.ClusterLoadAssignment {
	return &endpointv3.ClusterLoadAssignment{ClusterName: name, Endpoints: []*endpointv3.LocalityLbEndpoints{
		{LbEndpoints: []*endpointv3.LbEndpoint{lbEndpoint("10.9.9.9", port, 1)}},
	}}
}

func sortedKeys[V any](m map[string]V) []string {
	out := make([]string, 0, len(m))
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// ---- generators: uniform draws (rapid's own integers and samples lean heavily to the low end) ----

// ri draws uniformly from [lo, hi]; it shrinks towards lo.
func ri(t *rapid.T, lo, hi int) int {
	n := uint64(hi - lo + 1)
	if n <= 1 {
		return lo
	}
	bits := 2
	for m := n; m > 0; m >>= 1 {
		bits++
	}
	var x uint64
	for i := 0; i < bits; i++ {
		x <<= 1
		if bitGen.Draw(t, "b") {
			x |= 1
		}
	}
	hi64, lo64 := mathbits.Mul64(x<<(64-uint(bits)), n)
	_ = lo64
	return lo + int(hi64)
}

var bitGen = rapid.Bool()

func flip(t *rapid.T) bool { return bitGen.Draw(t, "b") }

// oneIn is true with probability 1/n; it shrinks to false.
func oneIn(t *rapid.T, n int) bool { return ri(t, 0, n-1) == n-1 }

// cnt draws a number of elements, now and then a large one.
func cnt(t *rapid.T, lo, hi int) int {
	if oneIn(t, 50) {
		return ri(t, lo, 8*hi+8)
	}
	return ri(t, lo, hi)
}

// anyU32 draws a number of any magnitude up to so many bits.
func anyU32(t *rapid.T, bits int) uint32 {
	return uint32(ri(t, 0, 1<<ri(t, 0, bits)-1))
}

// drawU32 draws one of the values given, or any number of so many bits.
func drawU32(t *rapid.T, bits int, vals ...int) uint32 {
	if oneIn(t, 4) {
		return anyU32(t, bits)
	}
	return uint32(pick(t, vals))
}

const wordChars = "abcdefghijklmnopqrstuvwxyz0123456789"

// word draws a DNS label.
func word(t *rapid.T) string {
	b := make([]byte, ri(t, 1, 8))
	for i := range b {
		b[i] = wordChars[ri(t, 0, len(wordChars)-1)]
	}
	if len(b) > 2 && oneIn(t, 3) {
		b[len(b)/2] = '-'
	}
	return string(b)
}

// stretch makes a name long now and then.
func stretch(t *rapid.T, s string) string {
	if oneIn(t, 25) {
		return s + strings.Repeat("-"+word(t), pick(t, []int{8, 20, 60}))
	}
	return s
}

func pick[T any](t *rapid.T, xs []T) T { return xs[ri(t, 0, len(xs)-1)] }

// decorate adds to a message what has no bearing on its meaning here: fields unknown to this version of the API, and
// metadata, which may be nested deeply. d tells what and where.
func decorate(m proto.Message, d int) {
	var ns []node
	nodesOf(m.ProtoReflect(), nil, 0, &ns)
	n := ns[d/4%len(ns)]
	switch d % 4 {
	case 0, 1:
		var b []byte
		for _, f := range [][]byte{protowire.AppendString(protowire.AppendTag(nil, 4007, protowire.BytesType), strings.Repeat("u", 1+d%7*40)), protowire.AppendVarint(protowire.AppendTag(nil, 4008, protowire.VarintType), uint64(d))}[:1+d%2] {
			b = append(b, f...)
		}
		n.m.SetUnknown(append(slices.Clone(n.m.GetUnknown()), b...))
	default:
		deep := structpb.NewStringValue("leaf")
		for i := 0; i < d%97; i++ {
			if i%2 == 0 {
				deep = structpb.NewListValue(&structpb.ListValue{Values: []*structpb.Value{deep}})
			} else {
				deep = structpb.NewStructValue(&structpb.Struct{Fields: map[string]*structpb.Value{"istio": deep}})
			}
		}
		md := &corev3.Metadata{FilterMetadata: map[string]*structpb.Struct{"istio": {Fields: map[string]*structpb.Value{"deep": deep, "config": structpb.NewStringValue("/apis/networking.istio.io/v1alpha3")}}}}
		// the message itself, or the first after it that takes metadata
		for i := range ns {
			n = ns[(d/4+i)%len(ns)]
			if fd := n.m.Descriptor().Fields().ByName("metadata"); fd != nil && !fd.IsList() && !fd.IsMap() && fd.Message() != nil && fd.Message().FullName() == "envoy.config.core.v3.Metadata" {
				n.m.Set(fd, protoreflect.ValueOfMessage(md.ProtoReflect()))
				break
			}
		}
	}
	for _, f := range n.repack {
		f()
	}
}

// genDecor draws the decorations of a response: (resource, decoration) pairs.
func genDecor(t *rapid.T) []int {
	if !oneIn(t, 3) {
		return nil
	}
	var out []int
	for i := ri(t, 1, 3); i > 0; i-- {
		out = append(out, ri(t, 0, 7), ri(t, 0, 2000))
	}
	return out
}

// decorated is the response with its decorations.
func decorated(decor []int, ms []proto.Message) []*anypb.Any {
	for i := 0; i+1 < len(decor) && len(ms) > 0; i += 2 {
		decorate(ms[decor[i]%len(ms)], decor[i+1])
	}
	return anys(ms...)
}
