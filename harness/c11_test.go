package xdsverif

// C11: decoding listeners and route tables. The decoded public structures are compared, field by field and condition by
// condition (conditions by what they match), with the specification the messages were built from.

import (
	"fmt"
	"time"

	"google.golang.org/protobuf/proto"
	"pgregory.net/rapid"

	"github.com/kitex-contrib/xds/core/xdsresource"
)

type c11Case struct {
	LDS   []lisSpec           `json:"lds,omitempty"`
	RDS   []rdsSpec           `json:"rds,omitempty"`
	MD    []map[string]string `json:"md"` // metadata probes
	Decor []int               `json:"decor,omitempty"`
}

func genMD(t *rapid.T) map[string]string {
	md := map[string]string{}
	for _, n := range hdrNames {
		if flip(t) {
			md[n] = pick(t, append([]string{"prod-12", "xa", "AB", "zabz", "7"}, hdrVals...))
		}
	}
	return md
}

func genFilter(t *rapid.T, rname string) filterSpec {
	f := filterSpec{K: pick(t, []string{"rds", "inline", "thrift", "other", "none", "rds", "inline"})}
	switch f.K {
	case "rds":
		f.RDS = pick(t, []string{"80", "8080", "rt", "a.default.svc.cluster.local:80"})
		f.HF = genHF(t)
	case "inline":
		s := genRDS(t, rname, 2, 3, false)
		f.Inline = &s
		f.HF = genHF(t)
	case "thrift":
		f.Thrift = genThrift(t, true)
	}
	return f
}

func genChain(t *rapid.T) chainSpec {
	c := chainSpec{}
	switch ri(t, 0, 3) {
	case 0:
		c.Match = true
	case 1, 2:
		p := drawU32(t, 16, 0, 80, 8080, 9090, 65535)
		c.Port = &p
	}
	for i := ri(t, 0, 3); i > 0; i-- {
		c.Filters = append(c.Filters, genFilter(t, fmt.Sprintf("in%d", i)))
	}
	return c
}

func genC11(t *rapid.T) c11Case {
	var c c11Case
	if flip(t) {
		for i := cnt(t, 1, 3); i > 0; i-- {
			l := lisSpec{N: fmt.Sprintf("10.0.0.%d_80", i)}
			for j := cnt(t, 0, 3); j > 0; j-- {
				l.Chains = append(l.Chains, genChain(t))
			}
			if oneIn(t, 4) {
				d := genChain(t)
				l.Default = &d
			}
			c.LDS = append(c.LDS, l)
		}
	} else {
		for i := cnt(t, 1, 3); i > 0; i-- {
			c.RDS = append(c.RDS, genRDS(t, fmt.Sprintf("rt%d", i), 3, 4, false))
		}
	}
	for i := 0; i < 3; i++ {
		c.MD = append(c.MD, genMD(t))
	}
	c.Decor = genDecor(t)
	return c
}

func checkClusters(where string, got []*xdsresource.WeightedCluster, want []wcSpec) error {
	if len(got) != len(want) {
		return fmt.Errorf("%s: %d destination clusters, want %v", where, len(got), want)
	}
	for i, w := range want {
		if got[i] == nil || got[i].Name != w.N || got[i].Weight != w.W {
			return fmt.Errorf("%s: destination %d is %+v, want %v", where, i, got[i], w)
		}
	}
	return nil
}

// probes derives metadata that tells the conditions apart, in addition to the random probes.
func probes(hs []hdrSpec, base []map[string]string) []map[string]string {
	out := append([]map[string]string(nil), base...)
	out = append(out, map[string]string{})
	// satisfy everything where possible, then violate one condition at a time
	all := map[string]string{}
	for _, h := range hs {
		switch h.K {
		case "exact", "prefix":
			all[h.N] = h.V
		case "regex":
			if _, ok := all[h.N]; !ok {
				all[h.N] = "abc"
			}
		}
	}
	out = append(out, all)
	for _, h := range hs {
		for _, v := range []string{"", h.V + "z", "z" + h.V, "a", "b", "1"} {
			m := map[string]string{}
			for k, x := range all {
				m[k] = x
			}
			m[h.N] = v
			out = append(out, m)
		}
		m := map[string]string{}
		for k, x := range all {
			if k != h.N {
				m[k] = x
			}
		}
		out = append(out, m)
	}
	return out
}

var probePaths = []string{"", "/", "/Echo/Say", "/Echo/say", "/EchoService/Echo", "/pkg.Echo/Get", "/pkg.Echo/Say", "/Echo", "/Echo/"}

func checkMatchMeta(where string, m xdsresource.RouteMatch, hs []hdrSpec, mds []map[string]string, cx *Ctx) error {
	for _, md := range probes(hs, mds) {
		got, want := m.MatchMeta(md), allHold(hs, md)
		if got != want {
			return fmt.Errorf("%s: conditions %v on metadata %v: decoded says %v, want %v", where, hs, md, got, want)
		}
		if cx != nil && want && len(hs) > 0 {
			cx.Class("condition satisfied by a probe")
		}
	}
	return nil
}

func checkHTTPRoute(where string, got *xdsresource.Route, want routeSpec, mds []map[string]string, cx *Ctx) error {
	if got == nil || got.Match == nil {
		return fmt.Errorf("%s: lost", where)
	}
	paths := append([]string{want.PathV, want.PathV + "x"}, probePaths...)
	for _, p := range paths {
		if g, w := got.Match.MatchPath(p), want.pathHolds(p); g != w {
			return fmt.Errorf("%s: path condition %s %q on %q: decoded says %v, want %v", where, want.Path, want.PathV, p, g, w)
		}
	}
	if err := checkMatchMeta(where, got.Match, want.Hdrs, mds, cx); err != nil {
		return err
	}
	if err := checkClusters(where, got.WeightedClusters, want.clusters()); err != nil {
		return err
	}
	if want.Dest == "redirect" || want.Dest == "direct" {
		return nil
	}
	if got.Timeout != dur(want.Timeout) {
		return fmt.Errorf("%s: timeout %v, want %v", where, got.Timeout, dur(want.Timeout))
	}
	return checkRetrySpec(where, got.RetryPolicy, want.Retry)
}

func checkRetrySpec(where string, g xdsresource.RetryPolicy, r *retrySpec) error {
	if r == nil {
		r = &retrySpec{}
	}
	num := 0
	if r.Num != nil {
		num = int(*r.Num)
	}
	rate := 0.0
	if r.Rate != "" {
		if _, err := fmt.Sscan(r.Rate, &rate); err != nil {
			panic(harnessErr{err.Error()})
		}
	}
	bad := func(f string, got, want any) error {
		return fmt.Errorf("%s: retry %s is %v, want %v", where, f, got, want)
	}
	switch {
	case g.RetryOn != r.On:
		return bad("conditions", g.RetryOn, r.On)
	case g.NumRetries != num:
		return bad("attempts", g.NumRetries, num)
	case g.PerTryTimeout != dur(r.PTT):
		return bad("per-try timeout", g.PerTryTimeout, dur(r.PTT))
	case g.PerTryIdleTimeout != dur(r.Idle):
		return bad("per-try idle timeout", g.PerTryIdleTimeout, dur(r.Idle))
	case g.CBErrorRate != rate:
		return bad("error rate", g.CBErrorRate, rate)
	case fmt.Sprint(g.Methods) != fmt.Sprint(r.Methods) || len(g.Methods) != len(r.Methods):
		return bad("methods", g.Methods, r.Methods)
	}
	if !r.Backoff {
		if g.RetryBackOff != nil && (g.RetryBackOff.BaseInterval != 0 || g.RetryBackOff.MaxInterval != 0) {
			return bad("back-off", *g.RetryBackOff, nil)
		}
		return nil
	}
	if g.RetryBackOff == nil {
		return bad("back-off", nil, []time.Duration{dur(r.Base), dur(r.Max)})
	}
	if g.RetryBackOff.BaseInterval != dur(r.Base) {
		return bad("back-off base", g.RetryBackOff.BaseInterval, dur(r.Base))
	}
	if g.RetryBackOff.MaxInterval != dur(r.Max) {
		return bad("back-off maximum", g.RetryBackOff.MaxInterval, dur(r.Max))
	}
	return nil
}

func checkVHs(where string, got *xdsresource.HTTPRouteConfig, want []vhSpec, mds []map[string]string, cx *Ctx) error {
	if got == nil {
		return fmt.Errorf("%s: no HTTP route table", where)
	}
	if len(got.VirtualHosts) != len(want) {
		return fmt.Errorf("%s: %d virtual hosts, want %d", where, len(got.VirtualHosts), len(want))
	}
	for i, vh := range want {
		g := got.VirtualHosts[i]
		w := fmt.Sprintf("%s vh[%d]", where, i)
		if g == nil || g.Name != vh.N {
			return fmt.Errorf("%s: %+v, want name %q", w, g, vh.N)
		}
		if len(g.Routes) != len(vh.Routes) {
			return fmt.Errorf("%s: %d routes, want %d", w, len(g.Routes), len(vh.Routes))
		}
		for j, r := range vh.Routes {
			if err := checkHTTPRoute(fmt.Sprintf("%s route[%d]", w, j), g.Routes[j], r, mds, cx); err != nil {
				return err
			}
		}
	}
	return nil
}

func checkListener(l lisSpec, g *xdsresource.ListenerResource, mds []map[string]string, cx *Ctx) error {
	if g == nil {
		return fmt.Errorf("listener %q lost", l.N)
	}
	chains := append([]chainSpec(nil), l.Chains...)
	if l.Default != nil {
		chains = append(chains, *l.Default)
	}
	i := 0
	for ci, c := range chains {
		port := uint32(0)
		if c.Port != nil {
			port = *c.Port
		}
		for fi, f := range c.Filters {
			if f.K == "other" || f.K == "none" {
				continue
			}
			w := fmt.Sprintf("listener %q chain %d filter %d (%s)", l.N, ci, fi, f.K)
			if i >= len(g.NetworkFilters) {
				return fmt.Errorf("%s: lost", w)
			}
			n := g.NetworkFilters[i]
			i++
			wantType := xdsresource.NetworkFilterTypeHTTP
			if f.K == "thrift" {
				wantType = xdsresource.NetworkFilterTypeThrift
			}
			if n == nil || n.FilterType != wantType {
				return fmt.Errorf("%s: decoded as %+v", w, n)
			}
			if n.RoutePort != port {
				return fmt.Errorf("%s: destination port %d, want %d", w, n.RoutePort, port)
			}
			ir := n.InlineRouteConfig
			if f.K == "thrift" {
				if ir == nil || ir.ThriftRouteConfig == nil || len(ir.ThriftRouteConfig.Routes) != len(f.Thrift) {
					return fmt.Errorf("%s: thrift routes lost: %+v", w, ir)
				}
				for k, r := range f.Thrift {
					gr := ir.ThriftRouteConfig.Routes[k]
					rw := fmt.Sprintf("%s route[%d]", w, k)
					if gr == nil || gr.Match == nil {
						return fmt.Errorf("%s: lost", rw)
					}
					if r.Service == "" {
						for _, m := range append([]string{r.Method + "x", ""}, methods...) {
							if gm, wm := gr.Match.MatchPath(m), r.Method == "" || r.Method == m; gm != wm {
								return fmt.Errorf("%s: method condition %q on %q: decoded says %v, want %v", rw, r.Method, m, gm, wm)
							}
						}
					} else if tm, ok := gr.Match.(*xdsresource.ThriftRouteMatch); !ok || tm.ServiceName != r.Service {
						return fmt.Errorf("%s: service condition %q lost", rw, r.Service)
					} else if tm.Method != "" {
						return fmt.Errorf("%s: a method condition %q besides the service condition %q", rw, tm.Method, r.Service)
					}
					if err := checkMatchMeta(rw, gr.Match, r.Hdrs, mds, cx); err != nil {
						return err
					}
					if err := checkClusters(rw, gr.WeightedClusters, destOf(r.Dest, r.C, r.WC)); err != nil {
						return err
					}
				}
				continue
			}
			max, tpf := bucket(f.HF)
			if ir == nil {
				if f.K == "inline" || max != 0 || tpf != 0 {
					return fmt.Errorf("%s: route table and rate limit lost", w)
				}
			} else if ir.MaxTokens != max || ir.TokensPerFill != tpf {
				return fmt.Errorf("%s: rate limit (%d,%d), want (%d,%d); filters %v", w, ir.MaxTokens, ir.TokensPerFill, max, tpf, f.HF)
			}
			if f.K == "rds" {
				if n.RouteConfigName != f.RDS {
					return fmt.Errorf("%s: route table name %q, want %q", w, n.RouteConfigName, f.RDS)
				}
				if ir != nil && ir.HTTPRouteConfig != nil && len(ir.HTTPRouteConfig.VirtualHosts) > 0 {
					return fmt.Errorf("%s: has an inline table", w)
				}
				continue
			}
			if n.RouteConfigName != f.Inline.N {
				return fmt.Errorf("%s: inline route table name %q, want %q", w, n.RouteConfigName, f.Inline.N)
			}
			if err := checkVHs(w, ir.HTTPRouteConfig, f.Inline.VHs, mds, cx); err != nil {
				return err
			}
		}
	}
	if i != len(g.NetworkFilters) {
		return fmt.Errorf("listener %q: %d filters decoded, want %d", l.N, len(g.NetworkFilters), i)
	}
	return nil
}

func runC11(cx *Ctx, c c11Case) error {
	nt := false
	if len(c.LDS) > 0 {
		var ms []proto.Message
		for _, l := range c.LDS {
			ms = append(ms, l.msg())
		}
		got, err := xdsresource.UnmarshalLDS(decorated(c.Decor, ms))
		if err != nil {
			return fmt.Errorf("well-formed listeners rejected: %v", err)
		}
		if len(got) != len(c.LDS) {
			return fmt.Errorf("%d listeners decoded, want %d", len(got), len(c.LDS))
		}
		for _, l := range c.LDS {
			if err := checkListener(l, got[l.N], c.MD, cx); err != nil {
				return err
			}
			nf := 0
			for _, ch := range l.Chains {
				for _, f := range ch.Filters {
					if f.K != "other" && f.K != "none" {
						nf++
					}
					if f.K == "thrift" && len(f.Thrift) > 0 {
						cx.Class("thrift routes")
					}
					_, tpf := bucket(f.HF)
					cx.ClassIf(tpf > 0, "rate limit")
					cx.ClassIf(tpf > 0 && len(f.HF) > 1, "rate limit among other filters")
					cx.ClassIf(f.K == "inline", "inline table")
					cx.ClassIf(f.K == "rds", "named table")
				}
			}
			nt = nt || nf > 0
		}
	}
	if len(c.RDS) > 0 {
		var ms []proto.Message
		for _, r := range c.RDS {
			ms = append(ms, r.msg())
		}
		got, err := xdsresource.UnmarshalRDS(decorated(c.Decor, ms))
		if err != nil {
			return fmt.Errorf("well-formed route tables rejected: %v", err)
		}
		if len(got) != len(c.RDS) {
			return fmt.Errorf("%d route tables decoded, want %d", len(got), len(c.RDS))
		}
		for _, r := range c.RDS {
			rc, ok := got[r.N].(*xdsresource.RouteConfigResource)
			if !ok || rc == nil {
				return fmt.Errorf("route table %q decoded as %T", r.N, got[r.N])
			}
			if err := checkVHs("table "+r.N, rc.HTTPRouteConfig, r.VHs, c.MD, cx); err != nil {
				return err
			}
			for _, vh := range r.VHs {
				for _, rt := range vh.Routes {
					nt = true
					cx.ClassIf(rt.Retry != nil, "retry policy")
					cx.ClassIf(rt.Retry != nil && rt.Retry.Backoff, "back-off")
					cx.ClassIf(len(rt.Hdrs) > 1, "several conditions")
					cx.ClassIf(rt.Dest == "weighted" && len(rt.WC) > 1, "weighted clusters")
				}
			}
		}
	}
	cx.NTIf(nt)
	return nil
}

func init() {
	register(spec[c11Case]{
		Prop: "C11", Name: "decode", Quick: 60000, Thorough: 3000000, NoBubble: true,
		Rule: "at least one route or one HTTP/Thrift filter was decoded and compared",
		Gen:  genC11, Run: runC11,
	})
}
