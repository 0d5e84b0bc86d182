package xdsverif

// Building the real manager around the fake control plane, and the xdssuite singleton.

import (
	"context"
	"errors"
	"fmt"
	"os"
	"sync"
	"sync/atomic"
	"testing/synctest"
	"time"

	"github.com/bytedance/gopkg/cloud/circuitbreaker"
	"github.com/kitex-contrib/xds"
	"github.com/kitex-contrib/xds/core/manager"
	"github.com/kitex-contrib/xds/core/xdsresource"
	"github.com/kitex-contrib/xds/xdssuite"
)

// xmgr is the public surface of the manager.
type xmgr interface {
	Get(ctx context.Context, rt xdsresource.ResourceType, name string) (interface{}, error)
	RegisterXDSUpdateHandler(rt xdsresource.ResourceType, h xdsresource.XDSUpdateHandler)
	Dump()
	Close()
}

type mgrOpts struct {
	NDS, LDS     bool // required at start-up
	FetchTimeout time.Duration
	Namespace    string
	Domain       string
	Metas        string
	PodName      string
	PodIP        string
	DumpPath     string
	RawEnv       func() // sets the environment instead of the fields above
}

func defMgr() mgrOpts { return mgrOpts{NDS: true, LDS: true} }

func setEnv(kv map[string]string) {
	for k, v := range kv {
		if v == "" {
			must(os.Unsetenv(k))
		} else {
			must(os.Setenv(k, v))
		}
	}
}

func (o mgrOpts) env() {
	if o.RawEnv != nil {
		o.RawEnv()
		return
	}
	ns, pn, ip := o.Namespace, o.PodName, o.PodIP
	if ns == "" {
		ns = "default"
	}
	if pn == "" {
		pn = "pod-0"
	}
	if ip == "" {
		ip = "10.1.2.3"
	}
	setEnv(map[string]string{
		manager.PodNamespace: ns, manager.PodName: pn, manager.InstanceIP: ip,
		manager.KitexXdsDomain: o.Domain, manager.KitexXdsMetas: o.Metas, manager.IstioVersion: "",
	})
}

// startManager calls the public constructor; it returns a channel that yields the result (warm-up blocks it).
func startManager(cx *Ctx, cp *fakeCP, o mgrOpts) <-chan mgrResult {
	o.env()
	addr := fmt.Sprintf("verif-%p", cp)
	injMu.Lock()
	inj[addr] = cp
	injMu.Unlock()
	ch := make(chan mgrResult, 1)
	cfg := xds.WithXDSServerConfig(&manager.XDSServerConfig{
		SvrName: "verif", SvrAddr: addr, NDSNotRequired: !o.NDS, LDSNotRequired: !o.LDS, FetchXDSTimeout: o.FetchTimeout,
	})
	opt := manager.Option{F: func(op *manager.Options) {
		op.XDSSvrConfig.SvrAddr = addr // the injected client is found by it, in any case
		if o.DumpPath != "" {
			op.DumpPath = o.DumpPath
		}
	}}
	cx.Defer(func() {
		injMu.Lock()
		delete(inj, addr)
		injMu.Unlock()
	})
	cx.Go(func() {
		var r mgrResult
		// NewXDSResourceManager returns a concrete pointer: keep a nil pointer out of the interface
		m, err := manager.NewXDSResourceManager(nil, cfg, opt)
		r.err = err
		if m != nil {
			r.m = m
		}
		ch <- r
	})
	return ch
}

type mgrResult struct {
	m   xmgr
	err error
}

// newManager starts a manager and completes its warm-up with the given name table and inbound listener.
// Every case ends with the streams rejected and the manager closed.
func newManager(cx *Ctx, cp *fakeCP, o mgrOpts, table map[string][]string) xmgr {
	ch := startManager(cx, cp, o)
	synctest.Wait()
	var m xmgr
	got := func() bool {
		if m == nil {
			select {
			case r := <-ch:
				if r.err != nil {
					cx.Defer(func() { cp.shutdown() })
					panic(stuck{"start-up fails: " + r.err.Error()})
				}
				m = r.m
			default:
			}
		}
		return m != nil
	}
	got()
	if o.NDS {
		cp.send(xdsresource.NameTableTypeURL, "nds-0", anys(nameTable(table)))
		synctest.Wait()
	}
	if o.LDS {
		cp.send(xdsresource.ListenerTypeURL, "lds-0", nil)
		synctest.Wait()
	}
	if got() {
		teardown(cx, cp, m)
		return m
	}
	// the constructor did not return although it got everything it asked for
	cx.Defer(func() { cp.shutdown() })
	panic(stuck{warmupStuck})
}

// stuck is raised when the client does not get where every check needs it: a violation.
type stuck struct{ msg string }

func (s stuck) Error() string { return s.msg }

const warmupStuck = "start-up did not complete although the control plane answered"

func teardown(cx *Ctx, cp *fakeCP, m xmgr) {
	cx.Defer(func() {
		m.Close()
		cp.shutdown()
		synctest.Wait()
	})
}

// ---- lookups ----

type lookup struct {
	rt     xdsresource.ResourceType
	name   string
	start  time.Time
	end    time.Time
	done   bool
	val    interface{}
	err    error
	ticket int
	cancel context.CancelFunc
	mu     sync.Mutex
}

func (l *lookup) finished() bool { l.mu.Lock(); defer l.mu.Unlock(); return l.done }

// goGet starts a lookup in its own goroutine.
func goGet(cx *Ctx, m xmgr, ctx context.Context, rt xdsresource.ResourceType, name string) *lookup {
	l := &lookup{rt: rt, name: name, start: time.Now()}
	ctx, l.cancel = context.WithCancel(ctx)
	cx.Go(func() {
		v, err := m.Get(ctx, rt, name)
		l.mu.Lock()
		l.val, l.err, l.end, l.done = v, err, time.Now(), true
		l.mu.Unlock()
	})
	return l
}

// snapshot reads the served cache of a type through the registration replay.
func snapshot(m xmgr, rt xdsresource.ResourceType) map[string]interface{} {
	out := map[string]interface{}{}
	var off atomic.Bool
	m.RegisterXDSUpdateHandler(rt, func(res map[string]xdsresource.Resource) {
		if !off.Load() {
			for k, v := range res {
				out[k] = v
			}
		}
	})
	off.Store(true)
	return out
}

// ---- the xdssuite singleton ----

type dispatcher struct {
	mu sync.RWMutex
	m  xdssuite.XDSResourceManager
}

var theDispatcher = &dispatcher{}

func (d *dispatcher) get() xdssuite.XDSResourceManager {
	d.mu.RLock()
	defer d.mu.RUnlock()
	return d.m
}

func (d *dispatcher) Get(ctx context.Context, rt xdsresource.ResourceType, name string) (interface{}, error) {
	m := d.get()
	if m == nil {
		return nil, errors.New("verif: no manager")
	}
	return m.Get(ctx, rt, name)
}

func (d *dispatcher) RegisterXDSUpdateHandler(rt xdsresource.ResourceType, h xdsresource.XDSUpdateHandler) {
	if m := d.get(); m != nil {
		m.RegisterXDSUpdateHandler(rt, h)
	}
}

// use makes xdssuite act on m for the rest of the case.
func (d *dispatcher) use(m xdssuite.XDSResourceManager) { d.mu.Lock(); d.m = m; d.mu.Unlock() }

func installDispatcher() {
	_ = xdssuite.SetXDSResourceManager(theDispatcher)
	// all circuit-breaker panels share one ticker goroutine: start it outside every bubble
	_, err := circuitbreaker.NewPanel(nil, circuitbreaker.Options{})
	must(err)
}

// stubManager serves fixed resources (pure properties).
type stubManager struct {
	res      map[xdsresource.ResourceType]map[string]interface{}
	handlers map[xdsresource.ResourceType][]xdsresource.XDSUpdateHandler
}

func newStub() *stubManager {
	return &stubManager{res: map[xdsresource.ResourceType]map[string]interface{}{}, handlers: map[xdsresource.ResourceType][]xdsresource.XDSUpdateHandler{}}
}

func (s *stubManager) put(rt xdsresource.ResourceType, name string, v interface{}) {
	if s.res[rt] == nil {
		s.res[rt] = map[string]interface{}{}
	}
	s.res[rt][name] = v
}

func (s *stubManager) Get(_ context.Context, rt xdsresource.ResourceType, name string) (interface{}, error) {
	if v, ok := s.res[rt][name]; ok {
		return v, nil
	}
	return nil, fmt.Errorf("verif: %s %q not found", xdsresource.ResourceTypeToName[rt], name)
}

func (s *stubManager) RegisterXDSUpdateHandler(rt xdsresource.ResourceType, h xdsresource.XDSUpdateHandler) {
	s.handlers[rt] = append(s.handlers[rt], h)
}
