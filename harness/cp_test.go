package xdsverif

// The fake control plane: an in-memory ADS client whose streams follow the test program.

import (
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"sort"
	"sync"
	"syscall"
	"time"

	"github.com/cloudwego/kitex/client/callopt"
	"github.com/cloudwego/kitex/pkg/remote/trans/nphttp2/codes"
	kstatus "github.com/cloudwego/kitex/pkg/remote/trans/nphttp2/status"
	"github.com/cloudwego/kitex/pkg/streaming"
	corev3 "github.com/envoyproxy/go-control-plane/envoy/config/core/v3"
	discoveryv3 "github.com/envoyproxy/go-control-plane/envoy/service/discovery/v3"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/anypb"

	ads "github.com/kitex-contrib/xds/core/api/kitex_gen/envoy/service/discovery/v3/aggregateddiscoveryservice"
	"github.com/kitex-contrib/xds/core/manager"
	"github.com/kitex-contrib/xds/core/xdsresource"
)

// reqRec is one request as the control plane saw it.
type reqRec struct {
	Stream  int
	At      time.Time
	Type    xdsresource.ResourceType
	URL     string
	Version string
	Nonce   string
	Names   []string // sorted, distinct
	Dup     bool     // a name was listed twice
	Err     string   // error detail ("" when absent)
	HasErr  bool
	Node    *corev3.Node
}

func (r reqRec) String() string {
	return fmt.Sprintf("{s%d %s v=%q n=%q names=%q err=%v}", r.Stream, xdsresource.ResourceTypeToName[r.Type], r.Version, r.Nonce, r.Names, r.HasErr)
}

type fakeCP struct {
	mu       sync.Mutex
	cond     *sync.Cond
	reqs     []reqRec
	streams  []*fakeStream
	opens    int
	failOpen int   // number of further opens to refuse
	openErr  error // error of refused opens
	// failOpenForever refuses every open until cleared
	failOpenForever bool
	onReq           func(s *fakeStream, r reqRec) // called without locks held
	nonce           int
	// failSendAfter: programs the next stream: Send fails after n requests (-1: never)
	nextSendBudget int
	nextSendErr    int
	nextStall      bool // nothing can be sent on the next stream until it is released
	done           bool
	quit           chan struct{} // closed by shutdown
	lastNonce      string        // nonce of the response received last
	lags           int           // Sends taking their time at present
}

func newCP() *fakeCP {
	cp := &fakeCP{nextSendBudget: -1, quit: make(chan struct{})}
	cp.cond = sync.NewCond(&cp.mu)
	return cp
}

type recvItem struct {
	resp *discoveryv3.DiscoveryResponse
	err  error
}

type fakeStream struct {
	streaming.Stream // nil: calls outside Send/Recv/Close/Context would panic
	cp               *fakeCP
	id               int
	q                []recvItem
	broken           error // sticky: set once the stream failed
	closed           bool
	stalled          bool          // Send blocks
	lag              time.Duration // the next Send takes so long
	sendBudget       int           // -1: unlimited
	sendErr          int           // the error when it is used up, of streamErrs
	recvCalls        int
	delivered        int // responses handed to the client
}

var (
	errReset = errors.New("verif: stream reset")
	errAuth  = kstatus.Err(codes.Unauthenticated, "verif: authentication failed")
)

// streamErrs are the ways a stream may end, other than a rejected authentication.
var streamErrs = []error{
	errReset, io.EOF, context.Canceled, context.DeadlineExceeded, io.ErrUnexpectedEOF, syscall.ECONNRESET, net.ErrClosed,
	os.ErrDeadlineExceeded, fmt.Errorf("verif: stream: %w", io.EOF), fmt.Errorf("verif: stream: %w", context.Canceled),
	kstatus.Err(codes.Unavailable, "verif: unavailable"), kstatus.Err(codes.Canceled, "verif: cancelled"),
	kstatus.Err(codes.DeadlineExceeded, "verif: deadline"), kstatus.Err(codes.Internal, "verif: internal"),
	kstatus.Err(codes.ResourceExhausted, "verif: exhausted"), kstatus.Err(codes.Unknown, "verif: unauthenticated, says the text"),
	kstatus.Err(codes.Aborted, "verif: aborted"), errors.New(""),
	kstatus.Err(codes.InvalidArgument, "verif: invalid"), kstatus.Err(codes.NotFound, "verif: not found"), kstatus.Err(codes.Unimplemented, "verif: unimplemented"),
}

func streamErr(i int) error { return streamErrs[i%len(streamErrs)] }

func (cp *fakeCP) StreamAggregatedResources(ctx context.Context, _ ...callopt.Option) (ads.AggregatedDiscoveryService_StreamAggregatedResourcesClient, error) {
	cp.mu.Lock()
	defer cp.mu.Unlock()
	cp.opens++
	if cp.done || cp.failOpenForever || cp.failOpen > 0 {
		if cp.failOpen > 0 {
			cp.failOpen--
		}
		if cp.openErr != nil {
			return nil, cp.openErr
		}
		return nil, errors.New("verif: connection refused")
	}
	s := &fakeStream{cp: cp, id: len(cp.streams), sendBudget: cp.nextSendBudget, sendErr: cp.nextSendErr}
	s.stalled = cp.nextStall
	cp.nextSendBudget, cp.nextStall = -1, false
	cp.streams = append(cp.streams, s)
	return s, nil
}

func (cp *fakeCP) DeltaAggregatedResources(context.Context, ...callopt.Option) (ads.AggregatedDiscoveryService_DeltaAggregatedResourcesClient, error) {
	return nil, errors.New("verif: delta not supported")
}

func (s *fakeStream) Context() context.Context { return context.Background() }

func (s *fakeStream) Close() error {
	s.cp.mu.Lock()
	s.closed = true
	if s.broken == nil {
		s.broken = errReset
	}
	s.cp.cond.Broadcast()
	s.cp.mu.Unlock()
	return nil
}

func (s *fakeStream) Send(r *discoveryv3.DiscoveryRequest) error {
	cp := s.cp
	b, err := proto.Marshal(r)
	if err != nil {
		s.fail(err)
		return err
	}
	cp.mu.Lock()
	if d := s.lag; d > 0 {
		s.lag = 0
		cp.lags++
		cp.mu.Unlock()
		select {
		case <-time.After(d):
		case <-cp.quit:
		}
		cp.mu.Lock()
		cp.lags--
	}
	for s.stalled && s.broken == nil {
		cp.cond.Wait()
	}
	if s.broken != nil {
		err := s.broken
		cp.mu.Unlock()
		return err
	}
	if s.sendBudget == 0 {
		err := streamErr(s.sendErr)
		s.broken = err
		cp.cond.Broadcast()
		cp.mu.Unlock()
		return err
	}
	if s.sendBudget > 0 {
		s.sendBudget--
	}
	var d discoveryv3.DiscoveryRequest
	must(proto.Unmarshal(b, &d))
	rec := reqRec{
		Stream: s.id, At: time.Now(), URL: d.TypeUrl, Type: xdsresource.ResourceURLToType[d.TypeUrl],
		Version: d.VersionInfo, Nonce: d.ResponseNonce, Node: d.Node,
	}
	rec.Names = append(rec.Names, d.ResourceNames...)
	sort.Strings(rec.Names)
	for i := 1; i < len(rec.Names); i++ {
		if rec.Names[i] == rec.Names[i-1] {
			rec.Dup = true
		}
	}
	if d.ErrorDetail != nil {
		rec.HasErr, rec.Err = true, d.ErrorDetail.Message
	}
	cp.reqs = append(cp.reqs, rec)
	f := cp.onReq
	cp.cond.Broadcast()
	cp.mu.Unlock()
	if f != nil {
		f(s, rec)
	}
	return nil
}

func (s *fakeStream) Recv() (*discoveryv3.DiscoveryResponse, error) {
	cp := s.cp
	cp.mu.Lock()
	defer cp.mu.Unlock()
	s.recvCalls++
	cp.cond.Broadcast()
	for {
		if len(s.q) > 0 {
			it := s.q[0]
			s.q = s.q[1:]
			if it.err != nil {
				s.broken = it.err
				cp.cond.Broadcast()
				return nil, it.err
			}
			s.delivered++
			cp.lastNonce = it.resp.GetNonce()
			return it.resp, nil
		}
		if s.broken != nil {
			return nil, s.broken
		}
		cp.cond.Wait()
	}
}

// fail breaks the stream at once: queued responses are lost.
func (s *fakeStream) fail(err error) {
	s.cp.mu.Lock()
	s.q = nil
	if s.broken == nil {
		s.broken = err
	}
	s.cp.cond.Broadcast()
	s.cp.mu.Unlock()
}

// failAfterQueue breaks the stream after the queued responses were received.
func (s *fakeStream) failAfterQueue(err error) {
	s.cp.mu.Lock()
	s.q = append(s.q, recvItem{err: err})
	s.cp.cond.Broadcast()
	s.cp.mu.Unlock()
}

func (s *fakeStream) setStall(v bool) {
	s.cp.mu.Lock()
	s.stalled = v
	s.cp.cond.Broadcast()
	s.cp.mu.Unlock()
}

func (s *fakeStream) alive() bool {
	s.cp.mu.Lock()
	defer s.cp.mu.Unlock()
	return s.broken == nil
}

// push queues a response; the wire copy is decoded again so that the client never shares memory with the harness.
func (s *fakeStream) push(r *discoveryv3.DiscoveryResponse) {
	s.cp.mu.Lock()
	s.q = append(s.q, recvItem{resp: r})
	s.cp.cond.Broadcast()
	s.cp.mu.Unlock()
}

func (cp *fakeCP) nextNonce() string {
	cp.mu.Lock()
	defer cp.mu.Unlock()
	cp.nonce++
	return fmt.Sprintf("n%d", cp.nonce)
}

func (cp *fakeCP) resp(url, version, nonce string, res []*anypb.Any) *discoveryv3.DiscoveryResponse {
	return &discoveryv3.DiscoveryResponse{TypeUrl: url, VersionInfo: version, Nonce: nonce, Resources: res}
}

// send pushes a response with a fresh nonce on the live stream and returns the nonce.
func (cp *fakeCP) send(url, version string, res []*anypb.Any) string {
	n := cp.nextNonce()
	s := cp.live()
	if s == nil {
		panic(stuck{"the client has no live stream although the control plane did not end it"})
	}
	s.push(cp.resp(url, version, n, res))
	return n
}

// live returns the newest stream if it is alive.
func (cp *fakeCP) live() *fakeStream {
	cp.mu.Lock()
	defer cp.mu.Unlock()
	if len(cp.streams) == 0 {
		return nil
	}
	s := cp.streams[len(cp.streams)-1]
	if s.broken != nil {
		return nil
	}
	return s
}

func (cp *fakeCP) lagging() bool {
	cp.mu.Lock()
	defer cp.mu.Unlock()
	return cp.lags > 0
}

func (cp *fakeCP) lagPending() bool {
	cp.mu.Lock()
	defer cp.mu.Unlock()
	for _, s := range cp.streams {
		if s.lag > 0 && s.broken == nil {
			return true
		}
	}
	return false
}

func (cp *fakeCP) log() []reqRec {
	cp.mu.Lock()
	defer cp.mu.Unlock()
	return append([]reqRec(nil), cp.reqs...)
}

func (cp *fakeCP) nreqs() int {
	cp.mu.Lock()
	defer cp.mu.Unlock()
	return len(cp.reqs)
}

func (cp *fakeCP) nopens() int {
	cp.mu.Lock()
	defer cp.mu.Unlock()
	return cp.opens
}

// shutdown ends every stream with an authentication error, which stops the client's goroutines.
func (cp *fakeCP) shutdown() {
	cp.mu.Lock()
	cp.done = false
	cp.failOpenForever = false
	cp.failOpen = 0
	cp.onReq = nil
	select {
	case <-cp.quit:
	default:
		close(cp.quit)
	}
	for _, s := range cp.streams {
		s.stalled, s.lag = false, 0
		s.q = nil
		if s.broken == nil {
			s.broken = errAuth
		}
	}
	cp.cond.Broadcast()
	cp.mu.Unlock()
}

// ---- injection ----

var (
	injMu sync.Mutex
	inj   = map[string]*fakeCP{}
)

func init() {
	manager.SetVerifADSClient(func(c *manager.XDSServerConfig) (manager.ADSClient, bool) {
		injMu.Lock()
		defer injMu.Unlock()
		cp, ok := inj[c.SvrAddr]
		if !ok {
			return nil, false
		}
		return cp, true
	})
	manager.SetVerifYield(func(ctx context.Context, point string) {
		if p, ok := ctx.Value(yieldKey{}).(func(string)); ok {
			p(point)
			return
		}
		if f := clientYield.load(); f != nil {
			f(point)
		}
	})
}

type yieldKey struct{}

type yieldHook struct {
	mu sync.Mutex
	f  func(string)
}

func (y *yieldHook) load() func(string) { y.mu.Lock(); defer y.mu.Unlock(); return y.f }
func (y *yieldHook) set(f func(string)) { y.mu.Lock(); y.f = f; y.mu.Unlock() }

// clientYield is consulted at the client's own scheduling points (no caller context there).
var clientYield yieldHook
