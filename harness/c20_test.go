package xdsverif

// C20: node identity and bootstrap validation. The node is read from every request on the wire of the real client; the
// initialisation is driven in re-executed processes, since it acts on a process-wide singleton.

import (
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"reflect"
	"runtime"
	"slices"
	"strings"
	"sync"
	"testing/synctest"
	"time"

	"google.golang.org/protobuf/types/known/structpb"
	"pgregory.net/rapid"

	"github.com/kitex-contrib/xds"
	"github.com/kitex-contrib/xds/core/manager"
	"github.com/kitex-contrib/xds/core/xdsresource"
	"github.com/kitex-contrib/xds/xdssuite"
)

type c20Case struct {
	NS       *string                `json:"ns,omitempty"` // nil: unset
	Name     *string                `json:"name,omitempty"`
	IP       *string                `json:"ip,omitempty"`
	Domain   *string                `json:"domain,omitempty"`
	Version  *string                `json:"version,omitempty"`
	Metas    map[string]interface{} `json:"metas,omitempty"`
	HasMetas bool                   `json:"has_metas,omitempty"`
	BadMetas string                 `json:"bad_metas,omitempty"` // text that is no JSON object
	NDS      bool                   `json:"nds"`
	LDS      bool                   `json:"lds"`
	Ops      []string               `json:"ops,omitempty"`
}

func strp(s string) *string { return &s }

func val(p *string) string {
	if p == nil {
		return ""
	}
	return *p
}

func genMetaValue(t *rapid.T, depth int) interface{} {
	switch x := ri(t, 0, 9); {
	case x < 5:
		return pick(t, []string{"", "v", "Kubernetes", "α \"quoted\" \\", "a,b", "{}"})
	case x < 6:
		return float64(pick(t, []int{0, 1, -3, 1 << 30}))
	case x < 7:
		return flip(t)
	case x < 8:
		return nil
	case depth > 0 && x == 8:
		m := map[string]interface{}{}
		for i := ri(t, 0, 2); i > 0; i-- {
			m[pick(t, []string{"app", "version", "NAMESPACE"})] = genMetaValue(t, depth-1)
		}
		return m
	case depth > 0:
		var l []interface{}
		for i := ri(t, 0, 2); i > 0; i-- {
			l = append(l, genMetaValue(t, depth-1))
		}
		if l == nil {
			l = []interface{}{}
		}
		return l
	}
	return 1.5
}

func genC20(t *rapid.T) c20Case {
	c := c20Case{NDS: !oneIn(t, 4), LDS: !oneIn(t, 4)}
	ip := pick(t, []string{"10.1.2.3", "10.1.2.30", "1.2.3.4", "fd00::1", "::1", "fe80::1%eth0", "0.1.2.3"})
	if oneIn(t, 4) {
		ip = fmt.Sprintf("%d.%d.%d.%d", ri(t, 1, 255), ri(t, 0, 255), ri(t, 0, 255), ri(t, 0, 255))
	}
	c.NS, c.Name, c.IP = strp(pick(t, []string{"default", "prod", "a-b"})), strp(pick(t, []string{"pod-0", "svc-7d9f-x", "p~q", "p.q", "Pod-A", " pod", "pod/0"})), strp(ip)
	if oneIn(t, 4) {
		c.NS, c.Name = strp(word(t)), strp(stretch(t, word(t)))
	}
	if oneIn(t, 4) {
		for _, p := range []**string{&c.NS, &c.Name, &c.IP} {
			switch ri(t, 0, 5) {
			case 0, 1:
				*p = nil
			case 2:
				*p = strp("")
			}
		}
	}
	if flip(t) {
		c.Domain = strp(pick(t, []string{"", "cluster.local", "corp.example", "local", "Corp.Example", "corp."}))
	}
	if flip(t) {
		c.Version = strp(pick(t, []string{"", "1.13.5", "1.16.5"}))
	}
	switch ri(t, 0, 9) {
	case 0, 1:
	case 2:
		c.HasMetas, c.BadMetas = true, pick(t, []string{"not json", "[1]", "{", "\"s\"", "{\"a\":}", "null,"})
	default:
		c.HasMetas = true
		c.Metas = map[string]interface{}{}
		for i := cnt(t, 0, 3); i > 0; i-- {
			k := pick(t, []string{"CLUSTER_ID", "LABELS", "NAME", "ISTIO_VERSION", "MESH_ID", "", "instance_ips"})
			if oneIn(t, 4) {
				k = stretch(t, word(t))
			}
			c.Metas[k] = genMetaValue(t, 2)
		}
		if oneIn(t, 3) {
			v := pick(t, []interface{}{"", nil, 1.0, true, []interface{}{"prod"}})
			if !oneIn(t, 3) {
				v = pick(t, []string{"prod", "staging", "default"})
			}
			c.Metas["NAMESPACE"] = v
		}
		if flip(t) {
			var v interface{}
			switch ri(t, 0, 12) {
			case 10:
				v = ip + pick(t, []string{"/32", "/24", ":80", "%eth0", "."})
			case 11:
				v = pick(t, []string{"::ffff:", "[", "0", "."}) + ip
			case 12:
				v = "9.9.9.9," + ip + pick(t, []string{"/32", "/24", ":80"}) + ",8.8.8.8"
			case 8:
				v = "9.9.9.9," + ip + ",8.8.8.8"
			case 9:
				v = ip + "," + ip
			case 0:
				v = ""
			case 1:
				v = ip
			case 2:
				v = "1" + ip // contains the address without listing it
			case 3:
				v = ip + "0"
			case 4:
				v = "9.9.9.9," + ip + "1," + "8.8.8.8"
			case 5:
				v = "9.9.9.9," + ip
			case 6:
				v = ip + ",9.9.9.9"
			default:
				v = "9.9.9.9"
				if oneIn(t, 4) {
					v = genMetaValue(t, 1)
				}
			}
			c.Metas["INSTANCE_IPS"] = v
		}
	}
	for i := ri(t, 0, 5); i > 0; i-- {
		c.Ops = append(c.Ops, pick(t, []string{"get", "ack", "nack", "cut", "evict"}))
	}
	return c
}

func (c c20Case) setEnv() {
	set := func(k string, v *string) {
		if v == nil {
			must(os.Unsetenv(k))
		} else {
			must(os.Setenv(k, *v))
		}
	}
	// by the names of the documentation
	set("POD_NAMESPACE", c.NS)
	set("POD_NAME", c.Name)
	set("INSTANCE_IP", c.IP)
	set(manager.KitexXdsDomain, c.Domain)
	set(manager.IstioVersion, c.Version)
	set("KITEX_XDS_METAS", c.metas())
}

func (c c20Case) metas() *string {
	switch {
	case !c.HasMetas:
		return nil
	case c.BadMetas != "":
		return &c.BadMetas
	}
	m := c.Metas
	if m == nil {
		m = map[string]interface{}{}
	}
	b, err := json.Marshal(m)
	must(err)
	return strp(string(b))
}

func (c c20Case) valid() bool { return val(c.NS) != "" && val(c.Name) != "" && val(c.IP) != "" }

func (c c20Case) domain() string {
	if d := val(c.Domain); d != "" {
		return d
	}
	return "cluster.local"
}

func elements(list string) map[string]bool {
	out := map[string]bool{}
	for _, e := range strings.Split(list, ",") {
		if e = strings.TrimSpace(e); e != "" {
			out[e] = true
		}
	}
	return out
}

// checkNode compares the node of a request with the environment.
func (c c20Case) checkNode(r reqRec) error {
	n := r.Node
	if n == nil {
		return fmt.Errorf("request %v identifies no node", r)
	}
	want := fmt.Sprintf("sidecar~%s~%s.%s~%s.svc.%s", *c.IP, *c.Name, *c.NS, *c.NS, c.domain())
	if n.Id != want {
		return fmt.Errorf("request %v identifies the node as %q, want %q", r, n.Id, want)
	}
	got := n.GetMetadata().AsMap()
	if !c.HasMetas || c.BadMetas != "" {
		v, ok := got["ISTIO_VERSION"]
		if !c.HasMetas && (!ok || v != val(c.Version)) {
			return fmt.Errorf("no metadata is given: ISTIO_VERSION is %v (present: %v), want %q", v, ok, val(c.Version))
		}
		return nil
	}
	ref, err := structpb.NewStruct(c.Metas)
	must(err)
	for k, v := range ref.AsMap() {
		g, ok := got[k]
		if !ok {
			return fmt.Errorf("metadata %q = %v is not carried: %v", k, v, got)
		}
		if k != "INSTANCE_IPS" {
			if !reflect.DeepEqual(g, v) {
				return fmt.Errorf("metadata %q is %v, want %v", k, g, v)
			}
			continue
		}
		s, _ := g.(string)
		have := elements(s)
		if !have[*c.IP] {
			return fmt.Errorf("INSTANCE_IPS is supplied as %v and sent as %v: the pod address %s is no element", v, g, *c.IP)
		}
		if sv, ok := v.(string); ok {
			for e := range elements(sv) {
				if !have[e] {
					return fmt.Errorf("INSTANCE_IPS is supplied as %v and sent as %v: element %s is lost", v, g, e)
				}
			}
			for e := range have {
				if e != *c.IP && !elements(sv)[e] {
					return fmt.Errorf("INSTANCE_IPS is supplied as %v and sent as %v: element %s is made up", v, g, e)
				}
			}
		}
	}
	return nil
}

func runC20(cx *Ctx, c c20Case) error {
	cp := newCP()
	o := mgrOpts{NDS: c.NDS, LDS: c.LDS, FetchTimeout: 100 * time.Millisecond, RawEnv: c.setEnv}
	if !c.valid() {
		ch := startManager(cx, cp, o)
		synctest.Wait()
		cx.Class("incomplete environment")
		cx.NT()
		select {
		case r := <-ch:
			if r.err == nil {
				if r.m != nil {
					teardown(cx, cp, r.m)
				}
				return fmt.Errorf("initialisation succeeds without namespace, name or address of the pod (%q, %q, %q)", val(c.NS), val(c.Name), val(c.IP))
			}
			if r.m != nil {
				return fmt.Errorf("initialisation fails with %v and yields a manager", r.err)
			}
			return nil
		default:
			cx.Defer(func() { cp.shutdown() })
			return fmt.Errorf("initialisation does not fail without namespace, name or address of the pod (%q, %q, %q): it waits for the control plane", val(c.NS), val(c.Name), val(c.IP))
		}
	}
	// a service in either namespace, for name expansion
	meta, _ := c.Metas["NAMESPACE"].(string)
	spaces := []string{"default", "prod", "a-b", "staging"}
	for _, ns := range []string{*c.NS, meta} {
		if ns != "" && !slices.Contains(spaces, ns) {
			spaces = append(spaces, ns)
		}
	}
	table := map[string][]string{}
	for i, ns := range spaces {
		table["echo."+ns+".svc."+c.domain()] = []string{fmt.Sprintf("10.0.0.%d", i)}
	}
	m := newManager(cx, cp, o, table)
	if c.NDS {
		l := goGet(cx, m, context.Background(), tL, "echo")
		synctest.Wait()
		var ls []hres
		for i := range spaces {
			ls = append(ls, hres{N: fmt.Sprintf("10.0.0.%d_80", i), S: i})
		}
		cp.send(urlOf[tL], "lx", packRes(tL, ls))
		synctest.Wait()
		want := *c.NS
		if meta != "" && c.BadMetas == "" {
			want = meta
			cx.ClassIf(want != *c.NS, "namespace overridden")
		}
		if !l.finished() || l.err != nil {
			return fmt.Errorf("echo is not resolved within namespace %s (pod %s, metadata %q)", want, *c.NS, meta)
		}
		s, err := readStamp(tL, l.val)
		if err != nil {
			return err
		}
		if spaces[s] != want {
			return fmt.Errorf("echo is expanded within namespace %s, want %s (pod %s, metadata %q)", spaces[s], want, *c.NS, meta)
		}
	}
	for i, op := range c.Ops {
		switch op {
		case "get":
			goGet(cx, m, context.Background(), pick2(i, tR, tC, tE), fmt.Sprintf("n%d", i))
		case "ack":
			cp.send(urlOf[tC], fmt.Sprintf("c%d", i), nil)
		case "nack":
			cp.send(urlOf[tN], fmt.Sprintf("c%d", i), nil)
		case "cut":
			cp.live().fail(errReset)
			time.Sleep(2 * time.Second)
		case "evict":
			time.Sleep(31 * time.Second)
		}
		synctest.Wait()
	}
	time.Sleep(time.Second) // the lookups end
	synctest.Wait()
	reqs := cp.log()
	streams := map[int]bool{}
	for _, r := range reqs {
		streams[r.Stream] = true
		if err := c.checkNode(r); err != nil {
			return err
		}
	}
	_, ips := c.Metas["INSTANCE_IPS"]
	cx.ClassIf(ips, "INSTANCE_IPS supplied")
	cx.ClassIf(!c.HasMetas, "no metadata")
	cx.ClassIf(c.BadMetas != "", "unreadable metadata")
	cx.ClassIf(len(streams) > 1, "several streams")
	cx.NTIf(len(reqs) > 0 && (c.HasMetas || c.Domain != nil))
	cx.ClassIf(len(reqs) > 0, "requests checked")
	return nil
}

func pick2(i int, xs ...rtype) rtype { return xs[i%len(xs)] }

// ---- initialisation ----

type c20InitStep struct {
	Missing string `json:"missing,omitempty"` // ns, name, ip
	Empty   bool   `json:"empty,omitempty"`
	CP      int    `json:"cp"`
	Via     string `json:"via"`             // addr, cfg, env
	Twice   bool   `json:"twice,omitempty"` // two concurrent calls, the other one against the next control plane
	Set     bool   `json:"set,omitempty"`   // SetXDSResourceManager with another manager afterwards
}

type c20InitCase struct {
	Steps []c20InitStep `json:"steps"`
}

type c20InitOut struct {
	Err    []string `json:"err"` // per step, "" when it succeeded
	Inited []bool   `json:"inited"`
	Served []int    `json:"served"` // the control plane that serves lookups, -1 when not initialised
}

func genC20Init(t *rapid.T) c20InitCase {
	var c c20InitCase
	for i := ri(t, 1, 4); i > 0; i-- {
		s := c20InitStep{CP: ri(t, 0, 2), Via: pick(t, []string{"addr", "cfg", "env"})}
		if oneIn(t, 3) {
			s.Missing, s.Empty = pick(t, []string{"ns", "name", "ip"}), flip(t)
		} else {
			s.Twice = oneIn(t, 4)
		}
		s.Set = oneIn(t, 5)
		c.Steps = append(c.Steps, s)
	}
	return c
}

// setCPIndex: the control plane an env-configured process talks to is control plane 0.
func (s c20InitStep) cp() int {
	if s.Via == "env" {
		return 0
	}
	return s.CP
}

const c20Env = "VERIF_C20_CASE"

func init() { helpers["c20init"] = c20Helper }

// lockWaiters: the goroutines waiting for a lock inside the code under test (id -> stack).
func lockWaiters() map[string]string {
	buf := make([]byte, 4<<20)
	res := map[string]string{}
	for _, g := range strings.Split(string(buf[:runtime.Stack(buf, true)]), "\n\n") {
		head, _, _ := strings.Cut(g, "\n")
		if strings.Contains(g, "github.com/kitex-contrib/xds") && (strings.Contains(head, "[sync.Mutex.Lock") ||
			strings.Contains(head, "[sync.RWMutex.") || strings.Contains(head, "[semacquire")) {
			id, _, _ := strings.Cut(head, " [")
			res[id] = g
		}
	}
	return res
}

func c20Helper() int {
	var c c20InitCase
	must(json.Unmarshal([]byte(os.Getenv(c20Env)), &c))
	go func() {
		// a process that does not come to its end because of a lock nobody will release
		time.Sleep(*fHang/2 - 5*time.Second)
		before := lockWaiters()
		time.Sleep(*fHang / 4)
		for id, g := range lockWaiters() {
			if before[id] != "" {
				fmt.Printf("\nC20HANG %s\n", g)
				os.Exit(3)
			}
		}
	}()
	for i := 0; i < 4; i++ {
		cp := newCP()
		w := attachWorld(cp)
		w.put(tN, "nt", one(anys(nameTable(map[string][]string{"a": {"10.0.0.1"}}))))
		w.put(tC, "c", one(anys(edsCluster("c", "c"))))
		w.put(tE, "c", one(anys(oneEndpoint("c", uint32(1000+i)))))
		injMu.Lock()
		inj[fmt.Sprintf("verif-cp%d", i)] = cp
		injMu.Unlock()
	}
	served := func() int {
		if !xdssuite.XDSInited() {
			return -1
		}
		for end := time.Now().Add(40 * time.Second); time.Now().Before(end); {
			res, err := xdssuite.NewXDSResolver().Resolve(context.Background(), "c")
			if err == nil && len(res.Instances) == 1 {
				var port int
				_, a, _ := strings.Cut(res.Instances[0].Address().String(), ":")
				fmt.Sscanf(a, "%d", &port)
				return port - 1000
			}
		}
		return -2
	}
	var out c20InitOut
	for _, s := range c.Steps {
		for k, v := range map[string]string{manager.PodNamespace: "ns", manager.PodName: "name", manager.InstanceIP: "ip"} {
			must(os.Setenv(k, "x-"+v))
			if s.Missing == v {
				if s.Empty {
					must(os.Setenv(k, ""))
				} else {
					must(os.Unsetenv(k))
				}
			}
		}
		initOn := func(i int) error {
			addr := fmt.Sprintf("verif-cp%d", i)
			switch s.Via {
			case "addr":
				return xds.Init(xds.WithXDSServerAddress(addr))
			case "cfg":
				return xds.Init(xds.WithXDSServerConfig(&manager.XDSServerConfig{SvrAddr: addr, FetchXDSTimeout: 20 * time.Second}))
			}
			return xds.Init()
		}
		var err error
		if s.Twice {
			var wg sync.WaitGroup
			var errs [2]error
			for j := 0; j < 2; j++ {
				wg.Add(1)
				go func() { defer wg.Done(); errs[j] = initOn(s.CP + j) }()
			}
			wg.Wait()
			if err = errs[0]; err == nil {
				err = errs[1]
			}
		} else {
			err = initOn(s.CP)
		}
		e := ""
		if err != nil {
			e = err.Error()
		}
		before := served()
		if s.Set && xdssuite.XDSInited() {
			other := newStub()
			other.put(tC, "c", &xdsresource.ClusterResource{InlineEndpoints: must1(xdsresource.UnmarshalEDS(anys(oneEndpoint("c", 1099))))["c"].(*xdsresource.EndpointsResource)})
			_ = xdssuite.SetXDSResourceManager(other)
		}
		after := served()
		if after != before {
			after = 100 + after
		}
		out.Err, out.Inited, out.Served = append(out.Err, e), append(out.Inited, xdssuite.XDSInited()), append(out.Served, after)
	}
	b, err := json.Marshal(out)
	must(err)
	fmt.Printf("\nC20OUT %s\n", b)
	return 0
}

func runC20Init(cx *Ctx, c c20InitCase) error {
	b, err := json.Marshal(c)
	must(err)
	exe, err := os.Executable()
	must(err)
	cmd := exec.Command(exe, "-test.run", "^$", "-v.helper", "c20init")
	for _, kv := range os.Environ() {
		k, _, _ := strings.Cut(kv, "=")
		switch k {
		case manager.PodNamespace, manager.PodName, manager.InstanceIP, manager.KitexXdsDomain, manager.KitexXdsMetas, manager.IstioVersion:
		default:
			cmd.Env = append(cmd.Env, kv)
		}
	}
	cmd.Args = append(cmd.Args, "-v.hang", fHang.String())
	cmd.Env = append(cmd.Env, c20Env+"="+string(b), manager.IstioAddrEnvKey+"=verif-cp0")
	var so, se strings.Builder
	cmd.Stdout, cmd.Stderr = &so, &se
	done := make(chan error, 1)
	must(cmd.Start())
	go func() { done <- cmd.Wait() }()
	select {
	case err = <-done:
	case <-time.After(*fHang - 10*time.Second):
		_ = cmd.Process.Kill()
		<-done
		return harnessErr{"the initialisation helper does not end: " + se.String()}
	}
	_, js, ok := strings.Cut(so.String(), "C20OUT ")
	if err != nil || !ok {
		for _, k := range []string{"panic: ", "fatal error: "} {
			if i := strings.Index(se.String(), k); i >= 0 && strings.Contains(se.String()[i:], "github.com/kitex-contrib/xds") {
				return fmt.Errorf("initialisation (or a lookup after it) ends the process: %s", trimStack(se.String()[i:]))
			}
		}
		if _, g, ok := strings.Cut(so.String(), "C20HANG "); ok {
			return fmt.Errorf("initialisation (or a lookup after it) waits for ever for a lock: %s", trimStack(g))
		}
		return harnessErr{fmt.Sprintf("initialisation helper: %v\n%s\n%s", err, so.String(), se.String())}
	}
	var out c20InitOut
	must(json.Unmarshal([]byte(js), &out))
	first := -1
	for i, s := range c.Steps {
		at := fmt.Sprintf("initialisation %d of %+v (outcome %+v)", i, c.Steps, out)
		if first < 0 {
			if s.Missing != "" {
				if out.Err[i] == "" {
					return fmt.Errorf("%s: succeeds although the pod's %s is missing", at, s.Missing)
				}
				if out.Inited[i] {
					return fmt.Errorf("%s: the failed initialisation leaves a client behind", at)
				}
				cx.Class("failed first")
				continue
			}
			if out.Err[i] != "" {
				return fmt.Errorf("%s: fails: %s", at, out.Err[i])
			}
			if !out.Inited[i] {
				return fmt.Errorf("%s: succeeded without a manager", at)
			}
			first = out.Served[i]
			if first != s.cp() && !(s.Twice && s.Via != "env" && first == s.CP+1) {
				if first == -2 {
					return harnessErr{at + ": lookups are not served"}
				}
				return fmt.Errorf("%s: lookups are served by control plane %d", at, first)
			}
			continue
		}
		if s.Missing == "" && out.Err[i] != "" {
			return fmt.Errorf("%s: initialising again fails: %s", at, out.Err[i])
		}
		if !out.Inited[i] || out.Served[i] != first {
			return fmt.Errorf("%s: initialising again replaced the first manager (served by %d, before by %d)", at, out.Served[i], first)
		}
		cx.Class("initialised again")
		cx.NT()
	}
	return nil
}

func init() {
	register(spec[c20Case]{
		Prop: "C20", Name: "node", Quick: 40000, Thorough: 2000000,
		Rule: "the environment is incomplete, or requests of a client with metadata or a domain were checked",
		Gen:  genC20, Run: runC20,
	})
	register(spec[c20InitCase]{
		Prop: "C20", Name: "init", Quick: 320, Thorough: 8000, NoBubble: true,
		Rule: "an initialisation followed a successful one",
		Gen:  genC20Init, Run: runC20Init,
	})
}
