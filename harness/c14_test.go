package xdsverif

// C14: a service address is bound to the listener the name table designates.

import (
	"context"
	"fmt"
	"strings"
	"testing/synctest"
	"time"

	"google.golang.org/protobuf/types/known/anypb"
	"pgregory.net/rapid"
)

type c14Case struct {
	PodNS  string              `json:"pod_ns"`
	MetaNS string              `json:"meta_ns,omitempty"`
	Domain string              `json:"domain,omitempty"`
	Table  map[string][]string `json:"table"`
	Ops    []c14Op             `json:"ops"`
}

type c14Op struct {
	K     string              `json:"k"` // get, lds, nds, badnds, cut, adv
	N     string              `json:"n,omitempty"`
	Ls    []hres              `json:"ls,omitempty"`
	Table map[string][]string `json:"table,omitempty"`
}

func (c c14Case) ns() string {
	if c.MetaNS != "" {
		return c.MetaNS
	}
	return c.PodNS
}

func (c c14Case) domain() string {
	if c.Domain == "" {
		return "cluster.local"
	}
	return c.Domain
}

// expand is the reference expansion to the fully qualified service name, in lower case.
func (c c14Case) expand(host string) string {
	host = strings.ToLower(host)
	suffix := strings.ToLower(".svc." + c.domain())
	if strings.Contains(host, ".svc.") {
		return host
	}
	switch n := strings.Count(host, "."); {
	case n == 0 || n >= 3:
		return host + "." + strings.ToLower(c.ns()) + suffix
	case n == 1:
		return host + suffix
	case strings.HasSuffix(host, ".svc"):
		return host + strings.ToLower("."+c.domain())
	}
	return host
}

// binding returns the acceptable listener names of a looked-up name; "" stands for unbound.
func (c c14Case) binding(table map[string][]string, name string) (out []string, how string) {
	host, port, ok := strings.Cut(name, ":")
	if !ok {
		port = "80"
	}
	low := map[string][]string{}
	for k, v := range table {
		low[strings.ToLower(k)] = v
	}
	lit := strings.ToLower(host)
	fq := c.expand(host)
	first := func(h string) string {
		if ips := low[h]; len(ips) > 0 {
			return ips[0] + "_" + port
		}
		return ""
	}
	if b := first(fq); b != "" {
		if fq == lit {
			return []string{b}, "qualified"
		}
		return []string{b}, "expanded"
	}
	l := first(lit)
	if _, listed := low[fq]; listed && l != "" {
		// the qualified name is listed without address: whether the literal host is consulted is left open
		return []string{"", l}, "open"
	}
	if l != "" {
		return []string{l}, "literal"
	}
	return []string{""}, "unresolved"
}

var c14Ports = []string{"80", "8080", "9090"}

func genC14(t *rapid.T) c14Case {
	c := c14Case{PodNS: pick(t, []string{"default", "prod"})}
	if oneIn(t, 5) {
		c.PodNS = word(t)
	}
	if oneIn(t, 3) {
		c.MetaNS = pick(t, []string{"default", "prod", "staging", "Prod"})
	}
	c.Domain = pick(t, []string{"", "", "cluster.local", "corp.example", "local", "svc.cluster.local"})
	if oneIn(t, 8) {
		c.Domain = word(t) + "." + word(t)
	}
	// services and the spellings they are called by
	svcs := []string{"echo", "user", "a-b", "svc", "prod", "default"}
	var hosts []string
	nhosts := ri(t, 2, 5)
	if oneIn(t, 200) {
		nhosts = ri(t, 6, 30)
	}
	for i := nhosts; i > 0; i-- {
		s := pick(t, svcs)
		ns := pick(t, []string{c.ns(), c.PodNS, "prod", "other"})
		if oneIn(t, 4) {
			s = stretch(t, word(t))
		}
		if oneIn(t, 8) {
			ns = word(t)
		}
		switch ri(t, 0, 10) {
		case 10:
			hosts = append(hosts, pick(t, []string{s + "." + ns + "." + c.domain(), s + "." + ns + "." + ns + "." + c.domain(), s + "." + c.domain()}))
		case 0, 1, 2:
			hosts = append(hosts, s)
		case 3:
			hosts = append(hosts, s+"."+ns)
		case 4:
			hosts = append(hosts, s+"."+ns+".svc")
		case 5:
			hosts = append(hosts, s+"."+ns+".svc."+c.domain())
		case 6:
			hosts = append(hosts, s+"."+ns+".svc.elsewhere.io")
		case 7:
			hosts = append(hosts, pick(t, []string{"www.example.com", "example.com", "db.internal", "my-svc.example.com", "x.svc-prod.io", "a.b.dev", "svc.prod.com"}))
		case 8:
			hosts = append(hosts, pick(t, []string{"org.cloudwego.kitex.greetprovider", "org.cloudwego.kitex.samples.api.GreetProvider"}))
		default:
			hosts = append(hosts, pick(t, []string{"10.0.0.7", "10.0.1.1", "127.0.0.1"}))
		}
	}
	// every host, its expansion and near misses of it may be listed
	var keys []string
	for _, h := range hosts {
		keys = append(keys, h, c.expand(h))
		if !strings.Contains(h, ".") || strings.Count(h, ".") >= 3 {
			for _, ns := range []string{c.PodNS, c.ns(), "other"} {
				keys = append(keys, h+"."+ns+".svc."+c.domain(), h+"."+ns+".svc.cluster.local", h+"."+ns+".svc", h+"."+ns)
			}
		} else if strings.Count(h, ".") == 1 {
			keys = append(keys, h+".svc.cluster.local", h+".svc")
		} else if strings.Count(h, ".") == 2 {
			keys = append(keys, h+"."+c.domain(), h+".svc."+c.domain(), h+"."+c.ns()+".svc."+c.domain())
		}
	}
	hosts = append(hosts, c.expand(hosts[0]))
	c.Table = c14Table(t, keys)
	var names []string
	for _, h := range hosts {
		for i := ri(t, 1, 2); i > 0; i-- {
			n := mixCase(t, h)
			if flip(t) {
				n += ":" + pick(t, c14Ports)
			}
			names = append(names, n)
		}
	}
	cur := []map[string][]string{c.Table}
	for i := ri(t, 1, 4); i > 0; i-- {
		c.Ops = append(c.Ops, c14Op{K: "get", N: pick(t, names)})
	}
	for i := ri(t, 2, 8); i > 0; i-- {
		switch k := ri(t, 0, 11); {
		case k < 4:
			c.Ops = append(c.Ops, c14Op{K: "get", N: pick(t, names)})
		case k < 9:
			c.Ops = append(c.Ops, c14Op{K: "lds", Ls: c14Listeners(t, cur, hosts)})
		case k == 9:
			tb := c14Table(t, keys)
			if oneIn(t, 6) {
				tb = map[string][]string{}
			}
			cur = append(cur, tb)
			c.Ops = append(c.Ops, c14Op{K: "nds", Table: tb})
			if flip(t) {
				c.Ops = append(c.Ops, c14Op{K: "lds", Ls: c14Listeners(t, cur, hosts)})
			}
		case k == 10:
			c.Ops = append(c.Ops, c14Op{K: pick(t, []string{"badnds", "cut"})})
		default:
			c.Ops = append(c.Ops, c14Op{K: "adv"})
		}
	}
	return c
}

// mixCase changes the case of some letters.
func mixCase(t *rapid.T, s string) string {
	switch ri(t, 0, 3) {
	case 0:
		return strings.ToUpper(s)
	case 1:
		b := []byte(s)
		for i := range b {
			if flip(t) {
				b[i] = strings.ToUpper(string(b[i]))[0]
			}
		}
		return string(b)
	}
	return s
}

// c14Table lists a part of the keys, no two of which differ in case only.
func c14Table(t *rapid.T, keys []string) map[string][]string {
	out := map[string][]string{}
	seen := map[string]bool{}
	for i, k := range keys {
		if seen[strings.ToLower(k)] || oneIn(t, 3) {
			continue
		}
		if strings.Count(k, ".") == 2 && strings.HasSuffix(strings.ToLower(k), ".svc") && oneIn(t, 2) {
			continue
		}
		seen[strings.ToLower(k)] = true
		if oneIn(t, 4) {
			k = mixCase(t, k)
		}
		ips := []string{}
		for j := ri(t, 0, 3); j > 0; j-- {
			if oneIn(t, 8) {
				ips = append(ips, fmt.Sprintf("fd00::%d", ri(t, 1, 4)))
			} else {
				ips = append(ips, fmt.Sprintf("10.0.%d.%d", i%5, ri(t, 1, 3)))
			}
		}
		out[k] = ips
	}
	if oneIn(t, 15) { // among many others
		for i := pick(t, []int{5, 20, 60}); i > 0; i-- {
			out[fmt.Sprintf("filler%d.elsewhere.svc.%s", i, "cluster.local")] = []string{"10.9.9.9"}
		}
	}
	return out
}

// c14Listeners draws the listeners of a response: those the tables designate, on some ports, and decoys.
func c14Listeners(t *rapid.T, tables []map[string][]string, hosts []string) []hres {
	var out []hres
	seen := map[string]bool{}
	add := func(n string) {
		if !seen[n] {
			seen[n] = true
			out = append(out, hres{N: n, S: len(out) + 1000*ri(t, 0, 9)})
		}
	}
	for _, tb := range tables {
		for _, k := range sortedKeys(tb) {
			for _, ip := range tb[k] {
				for _, p := range c14Ports {
					if !oneIn(t, 3) {
						add(ip + "_" + p)
					}
				}
			}
		}
	}
	for _, h := range hosts {
		if oneIn(t, 2) {
			add(h)
		}
		for _, p := range c14Ports {
			if oneIn(t, 3) {
				add(h + "_" + p)
			}
			if oneIn(t, 3) {
				add(h + ":" + p)
			}
		}
	}
	for _, d := range []string{"", "_80", "_8080", "80", "0.0.0.0_80", "10.0.0.7_80", "127.0.0.1_80"} {
		if oneIn(t, 4) {
			add(d)
		}
	}
	return out
}

func runC14(cx *Ctx, c c14Case) error {
	cp := newCP()
	o := mgrOpts{NDS: true, LDS: true, Namespace: c.PodNS, Domain: c.Domain, FetchTimeout: 500 * time.Millisecond}
	if c.MetaNS != "" {
		o.Metas = fmt.Sprintf(`{"NAMESPACE":%q}`, c.MetaNS)
	}
	m := newManager(cx, cp, o, c.Table)
	table := c.Table                        // the current table
	bound := []map[string][]string{c.Table} // tables a binding may stem from
	listed := map[string]int{}
	asked, late := map[string]bool{}, map[string]bool{} // late: first looked up since the last listener response
	rejected := false
	boundTo, moved := 0, false
	allowed := func(name string) (map[int]bool, bool, string) {
		vals, none := map[int]bool{}, false
		how := ""
		for _, tb := range bound {
			bs, h := c.binding(tb, name)
			how = h
			for _, b := range bs {
				if s, ok := listed[b]; ok && b != "" {
					vals[s] = true
				} else {
					none = true
				}
			}
		}
		return vals, none, how
	}
	var looks []*lookup
	settle := func(i int, op c14Op) error {
		synctest.Wait()
		where := func(n string) string {
			return fmt.Sprintf("after op %d (%s): listener of %q (namespace %q, domain %q, table %v)", i, op.K, n, c.ns(), c.domain(), table)
		}
		snap := snapshot(m, tL)
		for n := range asked {
			vals, none, how := allowed(n)
			v, ok := snap[n]
			if !ok {
				if !none && !late[n] {
					bs, _ := c.binding(table, n)
					return fmt.Errorf("%s is not served, the table designates %q which the control plane supplied", where(n), bs)
				}
				cx.Class("unserved-" + how)
				continue
			}
			s, err := readStamp(tL, v)
			if err != nil {
				return fmt.Errorf("%s: %v", where(n), err)
			}
			if !vals[s] {
				bs, _ := c.binding(table, n)
				name := ""
				for k, x := range listed {
					if x == s {
						name = k
					}
				}
				return fmt.Errorf("%s is served by %q (stamp %d), the table designates %q", where(n), name, s, bs)
			}
			boundTo++
			cx.Class("served-" + how)
		}
		for n := range snap {
			if !asked[n] && n != inbound {
				return fmt.Errorf("%s is served and was never looked up", where(n))
			}
		}
		return nil
	}
	for i, op := range c.Ops {
		switch op.K {
		case "get":
			if !asked[op.N] {
				asked[op.N], late[op.N] = true, true
			}
			looks = append(looks, goGet(cx, m, context.Background(), tL, op.N))
		case "lds":
			listed = map[string]int{}
			for _, l := range op.Ls {
				listed[l.N] = l.S
			}
			bound, late = []map[string][]string{table}, map[string]bool{}
			cp.send(urlOf[tL], fmt.Sprintf("l%d", i), packRes(tL, op.Ls))
		case "nds":
			table = op.Table
			bound = append(bound, table)
			moved = true
			cp.send(urlOf[tN], fmt.Sprintf("t%d", i), anys(nameTable(op.Table)))
		case "badnds":
			rejected = true
			cp.send(urlOf[tN], fmt.Sprintf("t%d", i), []*anypb.Any{{TypeUrl: urlOf[tN], Value: []byte{0xff}}})
		case "cut":
			cp.live().fail(errReset)
			time.Sleep(3 * time.Second)
		case "adv":
			time.Sleep(600 * time.Millisecond)
		}
		if err := settle(i, op); err != nil {
			return err
		}
		if op.K == "lds" {
			// lookups see what the cache serves, and those that wait are answered
			for n := range asked {
				if vals, none, _ := allowed(n); !none {
					ctx, cancel := context.WithTimeout(context.Background(), time.Millisecond)
					v, err := m.Get(ctx, tL, n)
					cancel()
					if err != nil {
						return fmt.Errorf("op %d: lookup of %q fails (%v) although its listener is there", i, n, err)
					}
					if s, e := readStamp(tL, v); e != nil || !vals[s] {
						return fmt.Errorf("op %d: lookup of %q returned stamp %d, %v; want one of %v", i, n, s, e, vals)
					}
				}
			}
			for _, l := range looks {
				if vals, none, _ := allowed(l.name); !none && !l.finished() {
					return fmt.Errorf("op %d: the waiting lookup of %q was not answered, its listener (stamp %v) was supplied", i, l.name, vals)
				}
			}
		}
	}
	time.Sleep(time.Second)
	synctest.Wait()
	cx.NTIf(boundTo > 0 && len(asked) > 1)
	cx.ClassIf(moved && boundTo > 0, "table-changed")
	cx.ClassIf(rejected && boundTo > 0, "table-rejected")
	cx.ClassIf(c.MetaNS != "" && c.MetaNS != c.PodNS && boundTo > 0, "namespace-overridden")
	return nil
}

func init() {
	register(spec[c14Case]{
		Prop: "C14", Name: "bind", Quick: 50000, Thorough: 2500000,
		Rule: "at least two names were looked up and one was served by a listener",
		Gen:  genC14, Run: runC14,
	})
}
