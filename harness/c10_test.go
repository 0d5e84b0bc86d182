package xdsverif

// C10: resolution. Clusters and load assignments are served by a stub (decoded by the real decoders) or, with updates
// between resolutions, by the fake control plane through the real manager; the resolver's result is compared with what
// the control plane lists.

import (
	"context"
	"fmt"
	"testing/synctest"
	"time"

	"github.com/cloudwego/kitex/pkg/discovery"
	"github.com/cloudwego/kitex/pkg/rpcinfo"
	"github.com/cloudwego/kitex/pkg/rpcinfo/remoteinfo"
	"pgregory.net/rapid"

	"github.com/kitex-contrib/xds/core/xdsresource"
	"github.com/kitex-contrib/xds/xdssuite"
)

type c10Op struct {
	K string       `json:"k"` // resolve, cluster, drop, eps
	N string       `json:"n,omitempty"`
	C *clusterSpec `json:"c,omitempty"`
	E *claSpec     `json:"e,omitempty"`
}

type c10Case struct {
	CDS []clusterSpec `json:"cds"`
	EDS []claSpec     `json:"eds"`
	Ops []c10Op       `json:"ops"`
}

var (
	c10Clusters = []string{"outbound|80||a", "outbound|80||b", "c"}
	c10Svcs     = []string{"outbound|80||a", "outbound|80||b", "c", "svc-a", "svc-b", "other|80"}
)

func genC10Cluster(t *rapid.T, n string) clusterSpec {
	s := genCluster(t, n)
	if flip(t) {
		s.Inline = nil
	}
	return s
}

func genC10(t *rapid.T) c10Case {
	var c c10Case
	for _, n := range c10Clusters {
		if !oneIn(t, 5) {
			c.CDS = append(c.CDS, genC10Cluster(t, n))
		}
	}
	for _, n := range c10Svcs {
		if !oneIn(t, 4) {
			c.EDS = append(c.EDS, genCLA(t, n))
		}
	}
	for i := ri(t, 1, 9); i > 0; i-- {
		switch x := ri(t, 0, 9); {
		case x < 6 || i == 1:
			c.Ops = append(c.Ops, c10Op{K: "resolve", N: pick(t, append([]string{"absent"}, append(c10Clusters, c10Clusters...)...))})
		case x < 7:
			s := genC10Cluster(t, pick(t, c10Clusters))
			c.Ops = append(c.Ops, c10Op{K: "cluster", C: &s})
		case x < 8:
			c.Ops = append(c.Ops, c10Op{K: "drop", N: pick(t, c10Clusters)})
		default:
			e := genCLA(t, pick(t, c10Svcs))
			c.Ops = append(c.Ops, c10Op{K: "eps", E: &e})
		}
	}
	return c
}

type c10World struct {
	cds map[string]clusterSpec
	eds map[string]claSpec
}

func newC10World(c c10Case) *c10World {
	w := &c10World{map[string]clusterSpec{}, map[string]claSpec{}}
	for _, s := range c.CDS {
		w.cds[s.N] = s
	}
	for _, s := range c.EDS {
		w.eds[s.N] = s
	}
	return w
}

// resolve is the reference: the endpoints (nil: an error); alt are acceptable besides.
func (w *c10World) resolve(n string) (want []epSpec, ambiguous bool, how string) {
	c, ok := w.cds[n]
	if !ok {
		return nil, false, "no cluster"
	}
	if c.Inline != nil {
		if len(c.Inline.flat()) > 0 {
			return c.Inline.flat(), false, "inline"
		}
		// an inline assignment without endpoints: an error, or the named one
		e := w.eds[c.edsName()]
		return e.flat(), true, "empty inline"
	}
	e, ok := w.eds[c.edsName()]
	if !ok {
		return nil, false, "no assignment"
	}
	if len(e.flat()) == 0 {
		return nil, false, "empty assignment"
	}
	return e.flat(), false, "named"
}

func checkResolved(n string, res discovery.Result, err error, want []epSpec, amb bool, how string) error {
	if err != nil {
		if len(want) == 0 || amb {
			return nil
		}
		return fmt.Errorf("resolving %q fails (%v), want %v (%s)", n, err, want, how)
	}
	if len(want) == 0 {
		return fmt.Errorf("resolving %q succeeds with %d instances, want an error (%s)", n, len(res.Instances), how)
	}
	if len(res.Instances) != len(want) {
		return fmt.Errorf("resolving %q gives %d instances, want %v (%s)", n, len(res.Instances), want, how)
	}
	for i, e := range want {
		g := res.Instances[i]
		if g == nil || g.Address() == nil {
			return fmt.Errorf("resolving %q: instance %d is missing, want %s (%s)", n, i, e.addr(), how)
		}
		if g.Address().String() != e.addr() || g.Address().Network() != "tcp" {
			return fmt.Errorf("resolving %q: instance %d is %s/%s, want %s (%s)", n, i, g.Address().Network(), g.Address(), e.addr(), how)
		}
		if g.Weight() != int(e.W) && !(e.W == 0 && g.Weight() == discovery.DefaultWeight) {
			return fmt.Errorf("resolving %q: instance %d has weight %d, want %d", n, i, g.Weight(), e.W)
		}
	}
	if !res.Cacheable || res.CacheKey != n {
		return fmt.Errorf("resolving %q: cacheable %v under %q", n, res.Cacheable, res.CacheKey)
	}
	return nil
}

func (c c10Case) classes(cx *Ctx, how string, want []epSpec) {
	cx.Class("resolved: " + how)
	cx.NTIf(len(want) > 1)
}

// target checks that a routed call is resolved under its cluster.
func checkTarget(r discovery.Resolver, cluster string) error {
	to := remoteinfo.NewRemoteInfo(&rpcinfo.EndpointBasicInfo{ServiceName: "svc", Tags: map[string]string{xdssuite.RouterClusterKey: cluster}}, "m")
	if got := r.Target(context.Background(), to); got != cluster {
		return fmt.Errorf("a call routed to %q is resolved as %q", cluster, got)
	}
	return nil
}

func runC10(cx *Ctx, c c10Case) error {
	w := newC10World(c)
	load := func() error {
		st := newStub()
		for n, s := range w.cds {
			m, err := xdsresource.UnmarshalCDS(anys(s.msg()))
			if err != nil {
				return fmt.Errorf("well-formed cluster rejected: %v", err)
			}
			st.put(xdsresource.ClusterType, n, m[n])
		}
		for n, s := range w.eds {
			m, err := xdsresource.UnmarshalEDS(anys(s.msg()))
			if err != nil {
				return fmt.Errorf("well-formed load assignment rejected: %v", err)
			}
			st.put(xdsresource.EndpointsType, n, m[n])
		}
		theDispatcher.use(st)
		return nil
	}
	if err := load(); err != nil {
		return err
	}
	for _, op := range c.Ops {
		switch op.K {
		case "resolve":
			r := xdssuite.NewXDSResolver()
			if err := checkTarget(r, op.N); err != nil {
				return err
			}
			want, amb, how := w.resolve(op.N)
			c.classes(cx, how, want)
			res, err := r.Resolve(context.Background(), op.N)
			if err := checkResolved(op.N, res, err, want, amb, how); err != nil {
				return err
			}
		case "cluster":
			w.cds[op.C.N] = *op.C
		case "drop":
			delete(w.cds, op.N)
		case "eps":
			w.eds[op.E.N] = *op.E
		}
		if op.K != "resolve" {
			if err := load(); err != nil {
				return err
			}
		}
	}
	return nil
}

func runC10E2E(cx *Ctx, c c10Case) error {
	cp := newCP()
	cw := attachWorld(cp)
	w := newC10World(c)
	cw.put(xdsresource.NameTableType, "nt", one(anys(nameTable(map[string][]string{"a": {"10.0.0.1"}}))))
	for n, s := range w.cds {
		cw.put(xdsresource.ClusterType, n, one(anys(s.msg())))
	}
	for n, s := range w.eds {
		cw.put(xdsresource.EndpointsType, n, one(anys(s.msg())))
	}
	m := startWorld(cx, cw, mgrOpts{NDS: true, LDS: true, FetchTimeout: 200 * time.Millisecond})
	theDispatcher.use(m)
	r := newClientSide()
	cx.Defer(r.close)
	pushes := 0
	push := func(rt xdsresource.ResourceType) {
		for _, q := range cp.log() {
			if q.Type == rt {
				pushes++
				cw.push(cp.live(), rt)
				synctest.Wait()
				return
			}
		}
	}
	for _, op := range c.Ops {
		switch op.K {
		case "resolve":
			want, amb, how := w.resolve(op.N)
			c.classes(cx, how, want)
			cx.ClassIf(pushes > 0, "resolved after an update")
			res, err := r.resolver.Resolve(context.Background(), op.N)
			if err := checkResolved(op.N, res, err, want, amb, how); err != nil {
				return err
			}
		case "cluster":
			w.cds[op.C.N] = *op.C
			cw.put(xdsresource.ClusterType, op.C.N, one(anys(op.C.msg())))
			push(xdsresource.ClusterType)
		case "drop":
			delete(w.cds, op.N)
			cw.del(xdsresource.ClusterType, op.N)
			push(xdsresource.ClusterType)
		case "eps":
			w.eds[op.E.N] = *op.E
			cw.put(xdsresource.EndpointsType, op.E.N, one(anys(op.E.msg())))
			push(xdsresource.EndpointsType)
		}
	}
	return nil
}

func init() {
	register(spec[c10Case]{
		Prop: "C10", Name: "resolve", Quick: 80000, Thorough: 4000000, NoBubble: true,
		Rule: "some resolution of the case must yield several endpoints",
		Gen:  genC10, Run: runC10,
	})
	register(spec[c10Case]{
		Prop: "C10", Name: "e2e", Quick: 16000, Thorough: 800000,
		Rule: "some resolution of the case must yield several endpoints",
		Gen:  genC10, Run: runC10E2E,
	})
}
