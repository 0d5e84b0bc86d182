package xdsverif

// The public xdssuite options, applied to bare kitex option structs so that what they install can be read back.

import (
	"encoding/json"
	"fmt"
	"os"
	"sync"

	"github.com/cloudwego/kitex/client"
	"github.com/cloudwego/kitex/pkg/circuitbreak"
	"github.com/cloudwego/kitex/pkg/discovery"
	"github.com/cloudwego/kitex/pkg/endpoint"
	"github.com/cloudwego/kitex/pkg/limit"
	"github.com/cloudwego/kitex/pkg/retry"
	"github.com/cloudwego/kitex/pkg/utils"
	"github.com/cloudwego/kitex/server"

	"github.com/kitex-contrib/xds/xdssuite"
)

// recUpdater records what the running server's limiter is told.
type recUpdater struct {
	mu    sync.Mutex
	calls [][2]int // MaxQPS, MaxConnections
	ret   bool
	once  func() // runs inside the first call
}

func (u *recUpdater) UpdateLimit(o *limit.Option) bool {
	u.mu.Lock()
	defer u.mu.Unlock()
	u.calls = append(u.calls, [2]int{o.MaxQPS, o.MaxConnections})
	if f := u.once; f != nil {
		u.once = nil
		f()
	}
	return u.ret
}

func (u *recUpdater) last() ([2]int, int) {
	u.mu.Lock()
	defer u.mu.Unlock()
	if len(u.calls) == 0 {
		return [2]int{}, 0
	}
	return u.calls[len(u.calls)-1], len(u.calls)
}

type clientSide struct {
	opts     *client.Options
	cb       *circuitbreak.CBSuite
	rc       *retry.Container
	mw       endpoint.Middleware
	resolver discovery.Resolver
}

func newClientSide(opts ...xdssuite.Option) *clientSide {
	o := &client.Options{}
	xdssuite.NewClientOption(opts...).F(o, &utils.Slice{})
	return &clientSide{opts: o, cb: o.CBSuite, rc: o.RetryContainer, mw: o.XDSRouterMiddleware, resolver: o.Resolver}
}

func (c *clientSide) close() {
	if c.cb != nil {
		_ = c.cb.Close()
	}
	if c.rc != nil {
		_ = c.rc.Close()
	}
}

// newLimit applies the server suite.
func newLimit(opts ...xdssuite.Option) *limit.Option {
	o := &server.Options{}
	xdssuite.NewServerOption(opts...).F(o, &utils.Slice{})
	return o.Limit.Limits
}

func cbConfigs(cb *circuitbreak.CBSuite) map[string]circuitbreak.CBConfig {
	out := map[string]circuitbreak.CBConfig{}
	d, ok := cb.Dump().(map[string]interface{})
	if !ok {
		panic(harnessErr{"CBSuite.Dump shape"})
	}
	b, err := json.Marshal(d["cb_config"])
	must(err)
	var cfg struct {
		Service map[string]circuitbreak.CBConfig `json:"service"`
	}
	must(json.Unmarshal(b, &cfg))
	for k, v := range cfg.Service {
		out[k] = v
	}
	return out
}

func retryDump(rc *retry.Container) map[string]interface{} {
	d, ok := rc.Dump().(map[string]interface{})
	if !ok {
		panic(harnessErr{"retry.Container.Dump shape"})
	}
	delete(d, "msg")
	delete(d, "has_code_cfg")
	return d
}

// suites is a client and a server suite on the current manager.
type suites struct {
	cl   *clientSide
	lim  *limit.Option
	up   *recUpdater
	last string
}

func newSuites(cx *Ctx) *suites {
	s := &suites{cl: newClientSide(xdssuite.WithServiceCircuitBreak(true)), lim: newLimit(), up: &recUpdater{ret: true}}
	cx.Defer(s.cl.close)
	s.lim.UpdateControl(s.up)
	s.last = s.dump()
	return s
}

// dump renders every installed policy canonically.
func (s *suites) dump() string {
	q, _ := s.up.last()
	b, err := json.Marshal(map[string]interface{}{
		"cb": cbConfigs(s.cl.cb), "retry": retryDump(s.cl.rc), "limit": q,
	})
	must(err)
	return string(b)
}

// runHelper is the entry point of re-executed helper processes.
func runHelper(name string) int {
	f := helpers[name]
	if f == nil {
		fmt.Fprintln(os.Stderr, "no helper", name)
		return 2
	}
	return f()
}

var helpers = map[string]func() int{}
