package xdsverif

// C12: decoding clusters, load assignments and name tables, compared with the specification the messages were built
// from. The endpoint specifications are shared with C10.

import (
	"fmt"
	"net"
	"strconv"
	"strings"

	clusterv3 "github.com/envoyproxy/go-control-plane/envoy/config/cluster/v3"
	corev3 "github.com/envoyproxy/go-control-plane/envoy/config/core/v3"
	endpointv3 "github.com/envoyproxy/go-control-plane/envoy/config/endpoint/v3"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/anypb"
	"pgregory.net/rapid"

	ndsv1 "github.com/kitex-contrib/xds/core/api/kitex_gen/istio.io/istio/pkg/dns/proto/istio_networking_nds_v1"
	"github.com/kitex-contrib/xds/core/xdsresource"
)

type epSpec struct {
	IP string `json:"ip"`
	P  uint32 `json:"p"`
	W  uint32 `json:"w,omitempty"` // 0: absent
	Z  bool   `json:"z,omitempty"` // weight present and 0
	H  int32  `json:"h,omitempty"` // health status
}

func (e epSpec) addr() string { return net.JoinHostPort(e.IP, strconv.Itoa(int(e.P))) }

// claSpec is a load assignment: endpoints per locality.
type claSpec struct {
	N    string     `json:"n"`
	Locs [][]epSpec `json:"locs"`
	Prio []uint32   `json:"prio,omitempty"` // priority per locality
}

type clusterSpec struct {
	N      string   `json:"n"`
	Type   string   `json:"type"` // EDS, LOGICAL_DNS, STATIC
	LB     string   `json:"lb"`   // ROUND_ROBIN, RING_HASH
	Svc    string   `json:"svc,omitempty"`
	EdsCfg bool     `json:"edscfg,omitempty"`
	OD     bool     `json:"od,omitempty"`
	Thr    *uint32  `json:"thr,omitempty"`
	Vol    *uint32  `json:"vol,omitempty"`
	Noise  bool     `json:"noise,omitempty"` // other outlier fields are set
	Inline *claSpec `json:"inline,omitempty"`
}

type hostSpec struct {
	H   string   `json:"h"`
	IPs []string `json:"ips"`
}

func (s claSpec) msg() *endpointv3.ClusterLoadAssignment {
	m := &endpointv3.ClusterLoadAssignment{ClusterName: s.N}
	for i, l := range s.Locs {
		ll := &endpointv3.LocalityLbEndpoints{}
		if i < len(s.Prio) {
			ll.Priority = s.Prio[i]
			ll.LoadBalancingWeight = u32(s.Prio[i] * 5)
			ll.Locality = &corev3.Locality{Region: "r", Zone: fmt.Sprintf("z%d", s.Prio[i])}
		}
		for _, e := range l {
			x := lbEndpoint(e.IP, e.P, e.W)
			if e.Z {
				x.LoadBalancingWeight = u32(0)
			}
			x.HealthStatus = corev3.HealthStatus(e.H)
			ll.LbEndpoints = append(ll.LbEndpoints, x)
		}
		m.Endpoints = append(m.Endpoints, ll)
	}
	return m
}

func (s claSpec) flat() []epSpec {
	var out []epSpec
	for _, l := range s.Locs {
		out = append(out, l...)
	}
	return out
}

func (s clusterSpec) msg() *clusterv3.Cluster {
	m := &clusterv3.Cluster{
		Name:                 s.N,
		ClusterDiscoveryType: &clusterv3.Cluster_Type{Type: clusterv3.Cluster_DiscoveryType(clusterv3.Cluster_DiscoveryType_value[s.Type])},
		LbPolicy:             clusterv3.Cluster_LbPolicy(clusterv3.Cluster_LbPolicy_value[s.LB]),
	}
	if s.EdsCfg || s.Svc != "" {
		m.EdsClusterConfig = &clusterv3.Cluster_EdsClusterConfig{ServiceName: s.Svc}
	}
	if s.OD {
		m.OutlierDetection = &clusterv3.OutlierDetection{}
		if s.Thr != nil {
			m.OutlierDetection.FailurePercentageThreshold = u32(*s.Thr)
		}
		if s.Vol != nil {
			m.OutlierDetection.FailurePercentageRequestVolume = u32(*s.Vol)
		}
		if s.Noise {
			m.OutlierDetection.Consecutive_5Xx = u32(7)
			m.OutlierDetection.EnforcingFailurePercentage = u32(33)
			m.OutlierDetection.SuccessRateRequestVolume = u32(44)
			m.OutlierDetection.FailurePercentageMinimumHosts = u32(55)
			m.OutlierDetection.MaxEjectionPercent = u32(66)
		}
	}
	if s.Inline != nil {
		m.LoadAssignment = s.Inline.msg()
	}
	return m
}

func (s clusterSpec) edsName() string {
	if s.Svc != "" {
		return s.Svc
	}
	return s.N
}

var epIPs = []string{"10.0.0.1", "10.0.0.2", "10.0.0.10", "192.168.1.1", "::1", "fe80::1", "255.255.255.255", "backend.local"}

func genEp(t *rapid.T) epSpec {
	e := epSpec{IP: pick(t, epIPs), P: drawU32(t, 16, 1, 80, 8080, 8888, 443, 65535)}
	if oneIn(t, 4) {
		e.IP = fmt.Sprintf("%d.%d.%d.%d", ri(t, 1, 255), ri(t, 0, 255), ri(t, 0, 255), ri(t, 0, 255))
	}
	e.W = drawU32(t, 32, 0, 1, 2, 10, 100, 128, 1<<20)
	if e.W == 0 && flip(t) {
		e.Z = true
	}
	if oneIn(t, 4) {
		e.H = int32(ri(t, 1, 5))
	}
	return e
}

func genCLA(t *rapid.T, name string) claSpec {
	s := claSpec{N: name}
	for i := cnt(t, 0, 3); i > 0; i-- {
		l := []epSpec{}
		for j := cnt(t, 0, 4); j > 0; j-- {
			l = append(l, genEp(t))
		}
		s.Locs = append(s.Locs, l)
	}
	if oneIn(t, 3) {
		for range s.Locs {
			s.Prio = append(s.Prio, uint32(ri(t, 0, 2)))
		}
	}
	return s
}

func optU32(t *rapid.T, vals ...int) *uint32 {
	if oneIn(t, 5) {
		return nil
	}
	v := drawU32(t, 32, vals...)
	return &v
}

func genCluster(t *rapid.T, name string) clusterSpec {
	s := clusterSpec{
		N: name, Type: pick(t, []string{"EDS", "LOGICAL_DNS", "STATIC"}), LB: pick(t, []string{"ROUND_ROBIN", "RING_HASH"}),
		EdsCfg: flip(t), OD: flip(t),
	}
	if flip(t) {
		s.Svc = stretch(t, pick(t, []string{"svc-a", "svc-b", "other|80", name}))
	}
	if s.OD {
		s.Thr = optU32(t, 0, 1, 10, 50, 85, 100)
		s.Vol = optU32(t, 0, 1, 5, 50, 1000, 4294967295)
		s.Noise = flip(t)
	}
	if oneIn(t, 3) {
		c := genCLA(t, name)
		if oneIn(t, 4) {
			c.N = "" // inline assignments may leave the name out
		}
		s.Inline = &c
	}
	return s
}

type c12Case struct {
	Kind  string        `json:"kind"`
	CDS   []clusterSpec `json:"cds,omitempty"`
	EDS   []claSpec     `json:"eds,omitempty"`
	NDS   [][]hostSpec  `json:"nds,omitempty"` // per resource of the response
	Decor []int         `json:"decor,omitempty"`
}

var nameStems = []string{"outbound|80||a.default.svc.cluster.local", "outbound|80|v1|a.default.svc.cluster.local", "c", "C", "c ", "名", "x/y"}

func genNames(t *rapid.T, max int, stems []string) []string {
	var out []string
	seen := map[string]bool{}
	for i := cnt(t, 0, max); i > 0; i-- {
		n := stretch(t, pick(t, stems))
		if oneIn(t, 5) {
			n = word(t)
		}
		if flip(t) {
			n += strconv.Itoa(ri(t, 0, 99))
		}
		if !seen[n] {
			seen[n] = true
			out = append(out, n)
		}
	}
	return out
}

func genC12(t *rapid.T) c12Case {
	c := c12Case{Kind: pick(t, []string{"cds", "eds", "nds"})}
	switch c.Kind {
	case "cds":
		for _, n := range genNames(t, 6, nameStems) {
			c.CDS = append(c.CDS, genCluster(t, n))
		}
	case "eds":
		for _, n := range genNames(t, 6, nameStems) {
			c.EDS = append(c.EDS, genCLA(t, n))
		}
	case "nds":
		names := genNames(t, 10, []string{"a.default.svc.cluster.local", "a.default.svc.cluster.local.", "A.b", "host", "host.", "x.y.z", "*.wild", "", ".", "host:80", "10.0.0.1"})
		c.NDS = make([][]hostSpec, ri(t, 1, 3))
		for _, n := range names {
			h := hostSpec{H: n}
			for j := cnt(t, 0, 4); j > 0; j-- {
				h.IPs = append(h.IPs, pick(t, []string{"10.0.0.1", "10.0.0.2", "::1", "1.2.3.4", ""}))
			}
			i := ri(t, 0, len(c.NDS)-1)
			c.NDS[i] = append(c.NDS[i], h)
		}
	}
	c.Decor = genDecor(t)
	return c
}

func checkEndpoints(where string, got *xdsresource.EndpointsResource, want *claSpec) error {
	if got == nil {
		if want == nil || len(want.Locs) == 0 {
			return nil
		}
		return fmt.Errorf("%s: endpoints lost, want %v", where, want.Locs)
	}
	var locs [][]epSpec
	if want != nil {
		locs = want.Locs
	}
	if len(got.Localities) != len(locs) {
		return fmt.Errorf("%s: %d localities, want %d", where, len(got.Localities), len(locs))
	}
	for i, l := range locs {
		g := got.Localities[i]
		if g == nil || len(g.Endpoints) != len(l) {
			return fmt.Errorf("%s: locality %d is %+v, want %d endpoints", where, i, g, len(l))
		}
		for j, e := range l {
			ge := g.Endpoints[j]
			if ge == nil || ge.Addr() == nil {
				return fmt.Errorf("%s: locality %d endpoint %d lost", where, i, j)
			}
			if ge.Addr().String() != e.addr() || ge.Addr().Network() != "tcp" || ge.Weight() != e.W {
				return fmt.Errorf("%s: locality %d endpoint %d is %s/%s weight %d, want %v", where, i, j, ge.Addr().Network(), ge.Addr(), ge.Weight(), e)
			}
		}
	}
	return nil
}

var (
	dtOf = map[string]xdsresource.ClusterDiscoveryType{
		"EDS": xdsresource.ClusterDiscoveryTypeEDS, "LOGICAL_DNS": xdsresource.ClusterDiscoveryTypeLogicalDNS, "STATIC": xdsresource.ClusterDiscoveryTypeStatic,
	}
	lbOf = map[string]xdsresource.ClusterLbPolicy{"ROUND_ROBIN": xdsresource.ClusterLbRoundRobin, "RING_HASH": xdsresource.ClusterLbRingHash}
)

func val32(p *uint32) uint32 {
	if p == nil {
		return 0
	}
	return *p
}

func checkCluster(where string, g *xdsresource.ClusterResource, s clusterSpec) error {
	if g == nil {
		return fmt.Errorf("%s: lost", where)
	}
	if g.DiscoveryType != dtOf[s.Type] {
		return fmt.Errorf("%s: discovery type %v, want %s", where, g.DiscoveryType, s.Type)
	}
	if g.LbPolicy != lbOf[s.LB] {
		return fmt.Errorf("%s: load-balancing policy %v, want %s", where, g.LbPolicy, s.LB)
	}
	if g.EndpointName != s.edsName() {
		return fmt.Errorf("%s: EDS service name %q, want %q", where, g.EndpointName, s.edsName())
	}
	var thr, vol uint32
	if s.OD {
		thr, vol = val32(s.Thr), val32(s.Vol)
	}
	if g.OutlierDetection == nil {
		if s.OD {
			return fmt.Errorf("%s: outlier detection lost", where)
		}
	} else if !s.OD {
		return fmt.Errorf("%s: outlier detection %+v invented", where, *g.OutlierDetection)
	} else if g.OutlierDetection.FailurePercentageThreshold != thr || g.OutlierDetection.FailurePercentageRequestVolume != vol {
		return fmt.Errorf("%s: outlier detection %+v, want threshold %d volume %d", where, *g.OutlierDetection, thr, vol)
	}
	if g.InlineEDS() != g.InlineEndpoints {
		return fmt.Errorf("%s: InlineEDS() disagrees with InlineEndpoints", where)
	}
	return checkEndpoints(where+" inline", g.InlineEndpoints, s.Inline)
}

func checkKeys(got map[string]xdsresource.Resource, want []string) error {
	w := map[string]bool{}
	for _, n := range want {
		w[n] = true
		if _, ok := got[n]; !ok {
			return fmt.Errorf("resource %q lost", n)
		}
	}
	for n := range got {
		if !w[n] {
			return fmt.Errorf("resource %q was not sent", n)
		}
	}
	return nil
}

func runC12(cx *Ctx, c c12Case) error {
	cx.Class(c.Kind)
	switch c.Kind {
	case "cds":
		var ms []proto.Message
		var names []string
		for _, s := range c.CDS {
			ms = append(ms, s.msg())
			names = append(names, s.N)
		}
		got, err := xdsresource.UnmarshalCDS(decorated(c.Decor, ms))
		if err != nil {
			return fmt.Errorf("well-formed clusters rejected: %v", err)
		}
		if err := checkKeys(got, names); err != nil {
			return err
		}
		for _, s := range c.CDS {
			g, ok := got[s.N].(*xdsresource.ClusterResource)
			if !ok {
				return fmt.Errorf("cluster %q decoded as %T", s.N, got[s.N])
			}
			if err := checkCluster(fmt.Sprintf("cluster %q", s.N), g, s); err != nil {
				return err
			}
			cx.ClassIf(s.Inline != nil && len(s.Inline.flat()) > 1, "inline endpoints")
			cx.ClassIf(s.Svc == "", "defaulted EDS name")
			cx.ClassIf(s.OD && val32(s.Thr) != val32(s.Vol), "outlier detection")
		}
		cx.NTIf(len(c.CDS) > 1)
	case "eds":
		var ms []proto.Message
		var names []string
		for _, s := range c.EDS {
			ms = append(ms, s.msg())
			names = append(names, s.N)
		}
		got, err := xdsresource.UnmarshalEDS(decorated(c.Decor, ms))
		if err != nil {
			return fmt.Errorf("well-formed load assignments rejected: %v", err)
		}
		if err := checkKeys(got, names); err != nil {
			return err
		}
		nt := 0
		for _, s := range c.EDS {
			s := s
			g, ok := got[s.N].(*xdsresource.EndpointsResource)
			if !ok {
				return fmt.Errorf("load assignment %q decoded as %T", s.N, got[s.N])
			}
			if err := checkEndpoints(fmt.Sprintf("load assignment %q", s.N), g, &s); err != nil {
				return err
			}
			if len(s.flat()) > 1 {
				nt++
			}
			cx.ClassIf(len(s.Locs) > 1, "several localities")
		}
		cx.NTIf(nt > 0)
	case "nds":
		var as []*anypb.Any
		want := map[string][]string{}
		for _, r := range c.NDS {
			nt := &ndsv1.NameTable{Table: map[string]*ndsv1.NameTable_NameInfo{}}
			for _, h := range r {
				nt.Table[h.H] = &ndsv1.NameTable_NameInfo{Ips: h.IPs, Registry: "Kubernetes"}
				want[h.H] = h.IPs
			}
			as = append(as, anys(nt)...)
		}
		got, err := xdsresource.UnmarshalNDS(as)
		if err != nil {
			return fmt.Errorf("well-formed name table rejected: %v", err)
		}
		if got == nil {
			return fmt.Errorf("no name table decoded")
		}
		for h, ips := range want {
			g, ok := got.NameTable[h]
			if !ok {
				return fmt.Errorf("host %q lost", h)
			}
			if len(g) != len(ips) || strings.Join(g, ",") != strings.Join(ips, ",") {
				return fmt.Errorf("host %q has addresses %q, want %q", h, g, ips)
			}
		}
		for h := range got.NameTable {
			if _, ok := want[h]; !ok {
				return fmt.Errorf("host %q was not sent", h)
			}
		}
		cx.NTIf(len(want) > 1)
		cx.ClassIf(len(c.NDS) > 1, "several name tables in a response")
	}
	return nil
}

func init() {
	register(spec[c12Case]{
		Prop: "C12", Name: "decode", Quick: 120000, Thorough: 6000000, NoBubble: true,
		Rule: "the response carried several clusters, several endpoints in one assignment, or several hosts",
		Gen:  genC12, Run: runC12,
	})
}
