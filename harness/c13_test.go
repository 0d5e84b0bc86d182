package xdsverif

// C13: decoders are total. Responses are built from well-formed messages that are then mutated: on the message tree
// (any field cleared, replaced by an empty or extreme value, duplicated; recursively inside packed configurations), on
// the encoded bytes, and on the type URLs; or are arbitrary bytes. An independent validity oracle decodes the same bytes
// and decides whether the response is well-formed, malformed, or (where the property is silent) either.

import (
	"fmt"
	"math"
	"testing/synctest"

	udpatypev1 "github.com/cncf/xds/go/udpa/type/v1"
	clusterv3 "github.com/envoyproxy/go-control-plane/envoy/config/cluster/v3"
	endpointv3 "github.com/envoyproxy/go-control-plane/envoy/config/endpoint/v3"
	listenerv3 "github.com/envoyproxy/go-control-plane/envoy/config/listener/v3"
	routev3 "github.com/envoyproxy/go-control-plane/envoy/config/route/v3"
	lrlv3 "github.com/envoyproxy/go-control-plane/envoy/extensions/filters/http/local_ratelimit/v3"
	hcmv3 "github.com/envoyproxy/go-control-plane/envoy/extensions/filters/network/http_connection_manager/v3"
	thriftv3 "github.com/envoyproxy/go-control-plane/envoy/extensions/filters/network/thrift_proxy/v3"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/types/known/anypb"
	"pgregory.net/rapid"

	ndsv1 "github.com/kitex-contrib/xds/core/api/kitex_gen/istio.io/istio/pkg/dns/proto/istio_networking_nds_v1"
	"github.com/kitex-contrib/xds/core/xdsresource"
)

type rawRes struct {
	URL string `json:"url"`
	B   []byte `json:"b"`
}

type c13Case struct {
	Type string   `json:"type"`
	Res  []rawRes `json:"res"`
	How  string   `json:"how"` // how the last mutation was made (informational)
}

var c13Types = map[string]xdsresource.ResourceType{
	"LDS": xdsresource.ListenerType, "RDS": xdsresource.RouteConfigType, "CDS": xdsresource.ClusterType,
	"EDS": xdsresource.EndpointsType, "NDS": xdsresource.NameTableType,
}

// packed configurations the mutator can look into
var packed = map[string]func() proto.Message{
	hcmURL:    func() proto.Message { return &hcmv3.HttpConnectionManager{} },
	thriftURL: func() proto.Message { return &thriftv3.ThriftProxy{} },
	rateURL:   func() proto.Message { return &lrlv3.LocalRateLimit{} },
	structURL: func() proto.Message { return &udpatypev1.TypedStruct{} },
}

func genBase(t *rapid.T, typ string, i int) proto.Message {
	name := fmt.Sprintf("r%d", i)
	switch typ {
	case "LDS":
		l := lisSpec{N: name}
		for j := cnt(t, 0, 3); j > 0; j-- {
			l.Chains = append(l.Chains, genChain(t))
		}
		if oneIn(t, 4) {
			d := genChain(t)
			l.Default = &d
		}
		return l.msg()
	case "RDS":
		s := genRDS(t, name, 3, 3, false)
		return s.msg()
	case "CDS":
		return genCluster(t, name).msg()
	case "EDS":
		return genCLA(t, name).msg()
	}
	tab := map[string][]string{}
	for j := ri(t, 0, 3); j > 0; j-- {
		tab[pick(t, []string{"a", "b", "c.d"})] = []string{"10.0.0.1"}
	}
	return nameTable(tab)
}

// nodes lists every message of a tree, looking into lists, maps and packed configurations (which are reported with a
// function that repacks them).
type node struct {
	m      protoreflect.Message
	repack []func()
}

func nodesOf(m protoreflect.Message, repack []func(), depth int, out *[]node) {
	if depth > 14 || len(*out) > 400 {
		return
	}
	*out = append(*out, node{m, repack})
	if a, ok := m.Interface().(*anypb.Any); ok {
		if mk := packed[a.TypeUrl]; mk != nil {
			inner := mk()
			if proto.Unmarshal(a.Value, inner) == nil {
				rp := append([]func(){func() {
					if b, err := (proto.MarshalOptions{Deterministic: true, AllowPartial: true}).Marshal(inner); err == nil {
						a.Value = b
					}
				}}, repack...)
				nodesOf(inner.ProtoReflect(), rp, depth+1, out)
			}
		}
		return
	}
	fds := m.Descriptor().Fields()
	for i := 0; i < fds.Len(); i++ { // in field order: Range is not deterministic
		fd := fds.Get(i)
		if !m.Has(fd) || fd.Message() == nil {
			continue
		}
		v := m.Get(fd)
		switch {
		case fd.IsMap():
			// map order is random: do not descend
		case fd.IsList():
			for j := 0; j < v.List().Len(); j++ {
				nodesOf(v.List().Get(j).Message(), repack, depth+1, out)
			}
		default:
			nodesOf(v.Message(), repack, depth+1, out)
		}
	}
}

func scalarOf(t *rapid.T, fd protoreflect.FieldDescriptor) protoreflect.Value {
	switch fd.Kind() {
	case protoreflect.BoolKind:
		return protoreflect.ValueOfBool(flip(t))
	case protoreflect.EnumKind:
		return protoreflect.ValueOfEnum(protoreflect.EnumNumber(pick(t, []int32{0, 1, 2, 3, 99, -1, math.MaxInt32})))
	case protoreflect.Int32Kind, protoreflect.Sint32Kind, protoreflect.Sfixed32Kind:
		return protoreflect.ValueOfInt32(pick(t, []int32{0, 1, -1, math.MaxInt32, math.MinInt32}))
	case protoreflect.Uint32Kind, protoreflect.Fixed32Kind:
		return protoreflect.ValueOfUint32(pick(t, []uint32{0, 1, 65536, math.MaxUint32}))
	case protoreflect.Int64Kind, protoreflect.Sint64Kind, protoreflect.Sfixed64Kind:
		return protoreflect.ValueOfInt64(pick(t, []int64{0, 1, -1, math.MaxInt64, math.MinInt64}))
	case protoreflect.Uint64Kind, protoreflect.Fixed64Kind:
		return protoreflect.ValueOfUint64(pick(t, []uint64{0, 1, math.MaxUint64}))
	case protoreflect.FloatKind:
		return protoreflect.ValueOfFloat32(pick(t, []float32{0, -1, float32(math.NaN()), float32(math.Inf(1))}))
	case protoreflect.DoubleKind:
		return protoreflect.ValueOfFloat64(pick(t, []float64{0, -1, 1e300, math.NaN(), math.Inf(-1)}))
	case protoreflect.StringKind:
		return protoreflect.ValueOfString(pick(t, []string{"", "/", "x", "(", "[", "kitexRetryErrorRate", "kitexRetryMethods", "NaN", ",", hcmURL, thriftURL, rateURL, structURL, "type.googleapis.com/x"}))
	default:
		return protoreflect.ValueOfBytes(pick(t, [][]byte{{}, {0xff}, {0x0a, 0x00}, {0x0a, 0x7f}, {0x08, 0x96}}))
	}
}

// mutateTree changes one field of one message of the tree.
func mutateTree(t *rapid.T, root proto.Message) string {
	var ns []node
	nodesOf(root.ProtoReflect(), nil, 0, &ns)
	n := ns[ri(t, 0, len(ns)-1)]
	fds := n.m.Descriptor().Fields()
	if fds.Len() == 0 {
		return "none"
	}
	// prefer populated fields
	var pop []protoreflect.FieldDescriptor
	for i := 0; i < fds.Len(); i++ {
		if n.m.Has(fds.Get(i)) {
			pop = append(pop, fds.Get(i))
		}
	}
	fd := fds.Get(ri(t, 0, fds.Len()-1))
	if len(pop) > 0 && !oneIn(t, 4) {
		fd = pick(t, pop)
	}
	how := ""
	switch {
	case fd.IsMap():
		how = "map cleared"
		n.m.Clear(fd)
	case fd.IsList():
		l := n.m.Mutable(fd).List()
		switch ri(t, 0, 3) {
		case 0:
			how = "list cleared"
			n.m.Clear(fd)
		case 1:
			how = "empty element appended"
			if fd.Message() != nil {
				l.Append(l.NewElement())
			} else {
				l.Append(scalarOf(t, fd))
			}
		case 2:
			how = "element duplicated"
			if l.Len() > 0 {
				v := l.Get(ri(t, 0, l.Len()-1))
				if fd.Message() != nil {
					v = protoreflect.ValueOfMessage(proto.Clone(v.Message().Interface()).ProtoReflect())
				}
				l.Append(v)
			}
		case 3:
			how = "element emptied"
			if l.Len() > 0 && fd.Message() != nil {
				l.Set(ri(t, 0, l.Len()-1), l.NewElement())
			}
		}
	case fd.Message() != nil:
		if n.m.Has(fd) && flip(t) {
			how = "message cleared"
			n.m.Clear(fd)
		} else {
			how = "message emptied"
			n.m.Set(fd, n.m.NewField(fd))
		}
	default:
		how = "scalar set"
		n.m.Set(fd, scalarOf(t, fd))
	}
	for _, f := range n.repack {
		f()
	}
	return how
}

func mutateBytes(t *rapid.T, b []byte) []byte {
	b = append([]byte(nil), b...)
	for k := ri(t, 1, 3); k > 0; k-- {
		switch ri(t, 0, 5) {
		case 0:
			if len(b) > 0 {
				b[ri(t, 0, len(b)-1)] = byte(ri(t, 0, 255))
			}
		case 1:
			if len(b) > 0 {
				b = b[:ri(t, 0, len(b)-1)]
			}
		case 2:
			i := ri(t, 0, len(b))
			ins := make([]byte, ri(t, 1, 4))
			for j := range ins {
				ins[j] = byte(ri(t, 0, 255))
			}
			b = append(b[:i:i], append(ins, b[i:]...)...)
		case 3:
			if len(b) > 1 {
				i := ri(t, 0, len(b)-1)
				j := ri(t, i, len(b)-1)
				b = append(b[:i:i], b[j:]...)
			}
		case 4:
			if len(b) > 0 {
				b[ri(t, 0, len(b)-1)] ^= 1 << ri(t, 0, 7)
			}
		case 5:
			if len(b) > 1 {
				i := ri(t, 0, len(b)-1)
				j := ri(t, i, len(b)-1)
				b = append(b, b[i:j]...)
			}
		}
	}
	return b
}

var hostileURLs = []string{"", "type.googleapis.com/", "envoy.config.cluster.v3.Cluster", "type.googleapis.com/envoy.api.v2.Cluster", hcmURL, "x"}

func genC13(t *rapid.T) c13Case {
	c := c13Case{Type: pick(t, []string{"LDS", "LDS", "RDS", "CDS", "EDS", "NDS"}), How: "none"}
	url := urlOf[c13Types[c.Type]]
	for i := cnt(t, 0, 3); i > 0; i-- {
		m := genBase(t, c.Type, i)
		r := rawRes{URL: url}
		how := ri(t, 0, 9)
		if how <= 4 {
			for k := ri(t, 1, 3); k > 0; k-- {
				c.How = mutateTree(t, m)
			}
		}
		for d := genDecor(t); len(d) > 0; d = d[2:] {
			decorate(m, d[1])
		}
		b, err := proto.MarshalOptions{Deterministic: true}.Marshal(m)
		if err != nil { // a mutation made it unencodable
			b = nil
		}
		r.B = b
		switch how {
		case 5, 6:
			c.How = "bytes"
			r.B = mutateBytes(t, b)
		case 7:
			c.How = "random"
			r.B = make([]byte, ri(t, 0, 40))
			for j := range r.B {
				r.B[j] = byte(ri(t, 0, 255))
			}
		case 8:
			if flip(t) {
				c.How = "url"
				r.URL = pick(t, append([]string{urlOf[xdsresource.ClusterType], urlOf[xdsresource.ListenerType], urlOf[xdsresource.RouteConfigType], urlOf[xdsresource.NameTableType], urlOf[xdsresource.EndpointsType]}, hostileURLs...))
			}
		}
		c.Res = append(c.Res, r)
	}
	return c
}

// ---- validity oracle ----

type verdict int

const (
	wellFormed verdict = iota
	dontCare
	malformed
)

func worst(a, b verdict) verdict {
	if b > a {
		return b
	}
	return a
}

func httpTableVerdict(rc *routev3.RouteConfiguration) verdict {
	for _, vh := range rc.GetVirtualHosts() {
		for _, r := range vh.GetRoutes() {
			if r.GetMatch() == nil || r.GetAction() == nil {
				return malformed
			}
		}
	}
	return wellFormed
}

func chainVerdict(fc *listenerv3.FilterChain) verdict {
	v := wellFormed
	for _, f := range fc.GetFilters() {
		tc := f.GetTypedConfig()
		switch tc.GetTypeUrl() {
		case thriftURL:
			var tp thriftv3.ThriftProxy
			if proto.Unmarshal(tc.GetValue(), &tp) != nil {
				return malformed
			}
			for _, r := range tp.GetRouteConfig().GetRoutes() {
				if r.GetMatch() == nil || r.GetRoute() == nil {
					return malformed
				}
			}
		case hcmURL:
			var h hcmv3.HttpConnectionManager
			if proto.Unmarshal(tc.GetValue(), &h) != nil {
				return malformed
			}
			found := false
			for _, hf := range h.GetHttpFilters() {
				hc := hf.GetTypedConfig()
				switch hc.GetTypeUrl() {
				case rateURL:
					var l lrlv3.LocalRateLimit
					if proto.Unmarshal(hc.GetValue(), &l) != nil {
						if found {
							v = worst(v, dontCare)
						} else {
							v = worst(v, malformed)
						}
					}
					found = found || l.GetTokenBucket() != nil
				case structURL:
					var ts udpatypev1.TypedStruct
					if proto.Unmarshal(hc.GetValue(), &ts) != nil {
						v = worst(v, dontCare)
					}
					if _, ok := ts.GetValue().GetFields()["token_bucket"]; ok {
						found = true
					}
				}
			}
			switch rs := h.GetRouteSpecifier().(type) {
			case *hcmv3.HttpConnectionManager_Rds:
				if rs.Rds.GetRouteConfigName() == "" {
					v = worst(v, dontCare)
				}
			case *hcmv3.HttpConnectionManager_RouteConfig:
				v = worst(v, httpTableVerdict(rs.RouteConfig))
			case nil:
				v = worst(v, dontCare)
			}
		}
	}
	return v
}

func judge(typ xdsresource.ResourceType, res []rawRes) verdict {
	if typ == xdsresource.NameTableType && len(res) == 0 {
		return malformed
	}
	v := wellFormed
	for _, r := range res {
		if r.URL != urlOf[typ] {
			return malformed
		}
		var err error
		switch typ {
		case xdsresource.ListenerType:
			var m listenerv3.Listener
			if err = proto.Unmarshal(r.B, &m); err == nil {
				for _, fc := range m.GetFilterChains() {
					v = worst(v, chainVerdict(fc))
				}
				if m.GetDefaultFilterChain() != nil {
					v = worst(v, chainVerdict(m.GetDefaultFilterChain()))
				}
			}
		case xdsresource.RouteConfigType:
			var m routev3.RouteConfiguration
			if err = proto.Unmarshal(r.B, &m); err == nil {
				v = worst(v, httpTableVerdict(&m))
			}
		case xdsresource.ClusterType:
			err = proto.Unmarshal(r.B, &clusterv3.Cluster{})
		case xdsresource.EndpointsType:
			err = proto.Unmarshal(r.B, &endpointv3.ClusterLoadAssignment{})
		case xdsresource.NameTableType:
			err = proto.Unmarshal(r.B, &ndsv1.NameTable{})
		}
		if err != nil {
			return malformed
		}
	}
	return v
}

func rawAnys(res []rawRes) []*anypb.Any {
	out := make([]*anypb.Any, 0, len(res))
	for _, r := range res {
		out = append(out, &anypb.Any{TypeUrl: r.URL, Value: append([]byte(nil), r.B...)})
	}
	return out
}

func decodeAll(typ xdsresource.ResourceType, as []*anypb.Any) (err error) {
	switch typ {
	case xdsresource.ListenerType:
		_, err = xdsresource.UnmarshalLDS(as)
	case xdsresource.RouteConfigType:
		_, err = xdsresource.UnmarshalRDS(as)
	case xdsresource.ClusterType:
		_, err = xdsresource.UnmarshalCDS(as)
	case xdsresource.EndpointsType:
		_, err = xdsresource.UnmarshalEDS(as)
	case xdsresource.NameTableType:
		_, err = xdsresource.UnmarshalNDS(as)
	}
	return err
}

func classC13(cx *Ctx, c c13Case, v verdict) {
	cx.Class([]string{"well-formed", "either", "malformed"}[v])
	cx.Class("mutation: " + c.How)
	cx.NTIf(len(c.Res) > 0 && c.How != "none")
}

func runC13(cx *Ctx, c c13Case) error {
	typ := c13Types[c.Type]
	v := judge(typ, c.Res)
	classC13(cx, c, v)
	err := decodeAll(typ, rawAnys(c.Res))
	if v == wellFormed && err != nil {
		return fmt.Errorf("well-formed %s response is reported as an error: %v", c.Type, err)
	}
	if v == malformed && err == nil {
		return fmt.Errorf("malformed %s response is not reported as an error", c.Type)
	}
	return nil
}

// runC13Loop sends the response to a real client that is subscribed to its type: the response must be answered (with an
// error detail exactly when malformed), and the client must go on processing what follows.
func runC13Loop(cx *Ctx, c c13Case) error {
	typ := c13Types[c.Type]
	v := judge(typ, c.Res)
	classC13(cx, c, v)
	cp := newCP()
	m := newManager(cx, cp, defMgr(), map[string][]string{"a.default.svc.cluster.local": {"10.0.0.1"}})
	ask := []struct {
		rt xdsresource.ResourceType
		n  string
	}{{xdsresource.ListenerType, "a:80"}, {xdsresource.RouteConfigType, "r1"}, {xdsresource.ClusterType, "r1"}, {xdsresource.EndpointsType, "r1"}}
	for _, a := range ask {
		goGet(cx, m, cx.t.Context(), a.rt, a.n)
	}
	synctest.Wait()
	before := cp.nreqs()
	nonce := cp.send(urlOf[typ], "v1", rawAnys(c.Res))
	synctest.Wait()
	if cp.live() == nil {
		return fmt.Errorf("the client dropped the stream after a %s response", c.Type)
	}
	acked := 0
	for _, r := range cp.log()[before:] {
		if r.Nonce != nonce {
			continue
		}
		acked++
		if v == wellFormed && r.HasErr {
			return fmt.Errorf("well-formed %s response is rejected: %s", c.Type, r.Err)
		}
		if v == malformed && !r.HasErr {
			return fmt.Errorf("malformed %s response is acknowledged", c.Type)
		}
	}
	if acked != 1 {
		return fmt.Errorf("%s response is answered %d times: the receive loop does not work any more", c.Type, acked)
	}
	// the view is not frozen
	l := goGet(cx, m, cx.t.Context(), xdsresource.ClusterType, "after")
	synctest.Wait()
	cp.send(urlOf[xdsresource.ClusterType], "v2", anys(edsCluster("after", "after-svc")))
	synctest.Wait()
	if !l.finished() || l.err != nil {
		return fmt.Errorf("after a %s response the client does not apply updates any more (lookup finished: %v, error: %v)", c.Type, l.finished(), l.err)
	}
	return nil
}

func init() {
	register(spec[c13Case]{
		Prop: "C13", Name: "decode", Quick: 200000, Thorough: 20000000, NoBubble: true,
		Rule: "the response has at least one resource and some resource was mutated",
		Gen:  genC13, Run: runC13,
	})
	register(spec[c13Case]{
		Prop: "C13", Name: "loop", Quick: 12000, Thorough: 600000,
		Rule: "the response has at least one resource and some resource was mutated",
		Gen:  genC13, Run: runC13Loop,
	})
}
