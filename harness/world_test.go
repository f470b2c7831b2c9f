package harness

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"reflect"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"testing/synctest"
	"time"

	"github.com/cloudwego/kitex/client/callopt"
	"github.com/cloudwego/kitex/pkg/kerrors"
	"github.com/cloudwego/kitex/pkg/klog"
	"github.com/cloudwego/kitex/pkg/remote/trans/nphttp2/codes"
	"github.com/cloudwego/kitex/pkg/remote/trans/nphttp2/metadata"
	"github.com/cloudwego/kitex/pkg/remote/trans/nphttp2/status"
	"github.com/cloudwego/kitex/pkg/retry"
	v3core "github.com/envoyproxy/go-control-plane/envoy/config/core/v3"
	discoveryv3 "github.com/envoyproxy/go-control-plane/envoy/service/discovery/v3"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/anypb"

	ads "github.com/kitex-contrib/xds/core/api/kitex_gen/envoy/service/discovery/v3/aggregateddiscoveryservice"
	"github.com/kitex-contrib/xds/core/manager"
	"github.com/kitex-contrib/xds/core/xdsresource"
	"github.com/kitex-contrib/xds/xdssuite"
)

type RT = xdsresource.ResourceType

const (
	L = xdsresource.ListenerType
	R = xdsresource.RouteConfigType
	C = xdsresource.ClusterType
	E = xdsresource.EndpointsType
	N = xdsresource.NameTableType
)

// type URLs are spelled out: the harness does not trust the tables of the code under test
var urlOf = map[RT]string{
	L: "type.googleapis.com/envoy.config.listener.v3.Listener",
	R: "type.googleapis.com/envoy.config.route.v3.RouteConfiguration",
	C: "type.googleapis.com/envoy.config.cluster.v3.Cluster",
	E: "type.googleapis.com/envoy.config.endpoint.v3.ClusterLoadAssignment",
	N: "type.googleapis.com/istio.networking.nds.v1.NameTable",
}

var typeOf = func() map[string]RT {
	m := map[string]RT{}
	for t, u := range urlOf {
		m[u] = t
	}
	return m
}()

var tname = map[RT]string{L: "LDS", R: "RDS", C: "CDS", E: "EDS", N: "NDS"}

// names under which Dump writes the types
var dumpName = map[RT]string{L: "Listener", R: "RouteConfig", C: "Cluster", E: "ClusterLoadAssignment"}

const inbound = "virtualInbound"

// ---------------------------------------------------------------- global setup

type proxyManager struct {
	cur atomic.Pointer[mgrBox]
}
type mgrBox struct{ m xdssuite.XDSResourceManager }

func (p *proxyManager) Get(ctx context.Context, t RT, n string) (interface{}, error) {
	return p.cur.Load().m.Get(ctx, t, n)
}

func (p *proxyManager) RegisterXDSUpdateHandler(t RT, h xdsresource.XDSUpdateHandler) {
	p.cur.Load().m.RegisterXDSUpdateHandler(t, h)
}

var (
	proxy   = &proxyManager{}
	scratch string
	worldNo atomic.Int64
	logRing = &ring{}
)

type ring struct {
	mu     sync.Mutex
	lines  []string
	panics []string
}

func (r *ring) Write(b []byte) (int, error) {
	s := string(b)
	r.mu.Lock()
	if strings.Contains(s, "run receiver panic") {
		r.panics = append(r.panics, s)
	}
	r.mu.Unlock()
	return len(b), nil
}

func (r *ring) takePanics() []string {
	r.mu.Lock()
	defer r.mu.Unlock()
	p := r.panics
	r.panics = nil
	return p
}

func setup(r *Run) {
	scratch = *fScr
	if scratch == "" {
		d, err := os.MkdirTemp("", "verifscr")
		if err != nil {
			panic(err)
		}
		scratch = d
		r.t.Cleanup(func() { os.RemoveAll(d) })
	}
	klog.SetOutput(io.Discard)
	klog.SetLevel(klog.LevelError)
	klog.SetOutput(logRing)
	setEnv(defaultEnv())
	// the breakers share one ticker goroutine for the process: it must not belong to a bubble
	keepTicker = retry.NewRetryContainer()
	if err := xdssuite.SetXDSResourceManager(proxy); err != nil {
		panic(err)
	}
	ads.VerifNewClient = func(dest string) ads.Client {
		if cp := curCP.Load(); cp != nil {
			cp.destService = dest
			return cp
		}
		return nil
	}
}

var keepTicker *retry.Container

var curCP atomic.Pointer[CP]

var envKeys = []string{
	"POD_NAMESPACE", "POD_NAME", "INSTANCE_IP", "KITEX_XDS_DOMAIN", "KITEX_XDS_METAS", "ISTIO_VERSION",
}

func defaultEnv() map[string]string {
	return map[string]string{"POD_NAMESPACE": "ns1", "POD_NAME": "pod1", "INSTANCE_IP": "10.9.8.7"}
}

func setEnv(e map[string]string) {
	for _, k := range envKeys {
		if v, ok := e[k]; ok {
			os.Setenv(k, v)
		} else {
			os.Unsetenv(k)
		}
	}
}

// ---------------------------------------------------------------- events

type Ev struct {
	At      time.Duration
	Kind    string // open, openerr, send, senderr, recv, enter, fail, close, lookup, ret, push
	Stream  int
	T       RT
	URL     string
	Nonce   string
	Version string
	Names   []string
	Err     string // error detail
	HasErr  bool
	Note    string
}

func (e Ev) String() string {
	s := fmt.Sprintf("%9.3fs %-7s", e.At.Seconds(), e.Kind)
	if e.Stream > 0 {
		s += fmt.Sprintf(" s%d", e.Stream)
	}
	if e.URL != "" || e.T != 0 {
		s += " " + tname[e.T]
	}
	if e.Kind == "send" || e.Kind == "recv" || e.Kind == "push" || e.Kind == "senderr" {
		s += fmt.Sprintf(" nonce=%q ver=%q names=%v", e.Nonce, e.Version, e.Names)
	}
	if e.HasErr {
		s += " ERR(" + e.Err + ")"
	}
	return s + " " + e.Note
}

// ---------------------------------------------------------------- fake control plane

type CP struct {
	c           *Case
	w           *World
	mu          sync.Mutex
	t0          time.Time
	streams     []*Stream
	log         []Ev
	nonce       int
	down        bool
	destService string
	opens       int
	rejected    int // 1 once an authentication rejection was handed to the client, then +1 for each further stream
	// OpenErr decides the outcome of the n-th stream creation (1-based).
	OpenErr func(n int) error
	// OnOpen configures a new stream before it is handed out.
	OnOpen func(s *Stream)
	// OnReq is invoked (on the sender's goroutine) for each request accepted by a live stream.
	OnReq func(s *Stream, req *discoveryv3.DiscoveryRequest)
	// SendDelay, if set, runs at the beginning of each Send.
	SendHook func(s *Stream, req *discoveryv3.DiscoveryRequest)
	RecvHook func(s *Stream) // after the pop of a response, before it is returned
	// HandleHook is invoked last before a response is returned, EnterHook when the next one is asked for.
	HandleHook func(r *discoveryv3.DiscoveryResponse)
	EnterHook  func()
	nonceStyle int
	counter    map[RT]int
	counterOf  int // the stream the counters belong to
	node       *v3core.Node
	expNode    *v3core.Node
}

func newCP(c *Case) *CP {
	return &CP{c: c, t0: time.Now()}
}

func (cp *CP) add(e Ev) {
	cp.mu.Lock()
	e.At = time.Since(cp.t0)
	cp.log = append(cp.log, e)
	cp.mu.Unlock()
	cp.c.Logf("%s", e)
}

// Mark returns the current length of the log.
func (cp *CP) Mark() int {
	cp.mu.Lock()
	defer cp.mu.Unlock()
	return len(cp.log)
}

// Since returns the events logged since mark.
func (cp *CP) Since(mark int) []Ev {
	cp.mu.Lock()
	defer cp.mu.Unlock()
	return append([]Ev(nil), cp.log[mark:]...)
}

func filterEv(evs []Ev, f func(e Ev) bool) (out []Ev) {
	for _, e := range evs {
		if f(e) {
			out = append(out, e)
		}
	}
	return
}

func sends(evs []Ev) []Ev { return filterEv(evs, func(e Ev) bool { return e.Kind == "send" }) }

// Live returns the newest stream if it is alive.
func (cp *CP) Live() *Stream {
	cp.mu.Lock()
	defer cp.mu.Unlock()
	for i := len(cp.streams) - 1; i >= 0; i-- {
		s := cp.streams[i]
		if s.alive() {
			return s
		}
		break
	}
	return nil
}

func (cp *CP) Last() *Stream {
	cp.mu.Lock()
	defer cp.mu.Unlock()
	if len(cp.streams) == 0 {
		return nil
	}
	return cp.streams[len(cp.streams)-1]
}

func (cp *CP) Streams() []*Stream {
	cp.mu.Lock()
	defer cp.mu.Unlock()
	return append([]*Stream(nil), cp.streams...)
}

// Steady ends the injected stalls and failures of sends.
func (s *Stream) Steady() {
	s.ReleaseSend()
	s.mu.Lock()
	s.FailSendAt = 0
	s.mu.Unlock()
}

func (cp *CP) NumStreams() int {
	cp.mu.Lock()
	defer cp.mu.Unlock()
	return len(cp.streams)
}

// failErr is an error that is no authentication rejection.
func failErr(r intner) error { return failErrN(r.Intn(9)) }

func failErrN(n int) error {
	switch n % 9 {
	case 0:
		return io.EOF
	case 1:
		return status.Err(codes.Unavailable, "transport is closing")
	case 2:
		return status.Err(codes.Internal, "stream terminated by RST_STREAM")
	case 3:
		return status.Err(codes.ResourceExhausted, "too many streams")
	case 4:
		return status.Err(codes.Canceled, "context canceled")
	case 5:
		return status.Err(codes.DeadlineExceeded, "max connection age")
	case 6:
		return context.Canceled
	case 7:
		return kerrors.ErrRemoteOrNetwork.WithCause(errors.New("connection reset by peer"))
	}
	return errors.New("connection reset")
}

func authErr() error { return status.Err(codes.Unauthenticated, "rejected by the control plane") }

func (cp *CP) StreamAggregatedResources(ctx context.Context, _ ...callopt.Option) (ads.AggregatedDiscoveryService_StreamAggregatedResourcesClient, error) {
	cp.mu.Lock()
	if cp.down {
		cp.mu.Unlock()
		return nil, authErr()
	}
	if cp.rejected > 0 {
		// rejected before: the client must not come back
		if cp.rejected++; cp.rejected > 100 {
			cp.mu.Unlock()
			cp.c.Violate("C04", "auth-ignored", "the client opened more than 100 streams after an authentication rejection")
			select {}
		}
	}
	cp.opens++
	n := cp.opens
	oe, oo := cp.OpenErr, cp.OnOpen
	cp.mu.Unlock()
	if oe != nil {
		if err := oe(n); err != nil {
			cp.add(Ev{Kind: "openerr", Note: fmt.Sprintf("#%d %v", n, err)})
			cp.noteRejection(err)
			return nil, err
		}
	}
	s := &Stream{cp: cp, notify: make(chan struct{}, 1), dead: make(chan struct{}), issued: map[string]bool{}}
	cp.mu.Lock()
	cp.streams = append(cp.streams, s)
	s.id = len(cp.streams)
	cp.mu.Unlock()
	if oo != nil {
		oo(s)
	}
	cp.add(Ev{Kind: "open", Stream: s.id})
	return s, nil
}

// noteRejection remembers that the client was told that it is not authenticated.
func (cp *CP) noteRejection(err error) {
	if s, ok := status.FromError(err); ok && s.Code() == codes.Unauthenticated {
		cp.mu.Lock()
		if cp.rejected == 0 {
			cp.rejected = 1
		}
		cp.mu.Unlock()
	}
}

func (cp *CP) DeltaAggregatedResources(ctx context.Context, _ ...callopt.Option) (ads.AggregatedDiscoveryService_DeltaAggregatedResourcesClient, error) {
	return nil, errors.New("delta is not supported")
}

func (cp *CP) NextNonce() string {
	cp.mu.Lock()
	defer cp.mu.Unlock()
	cp.nonce++
	return fmt.Sprintf("n%d", cp.nonce)
}

// nonceFor gives the nonce of a response: unique, or (as control planes do) from a counter per type that starts again with every
// stream, or an opaque string.
func (cp *CP) nonceFor(t RT) string {
	switch cp.nonceStyle {
	case 1:
		cp.mu.Lock()
		defer cp.mu.Unlock()
		if cp.counter == nil || cp.counterOf != len(cp.streams) {
			cp.counter, cp.counterOf = map[RT]int{}, len(cp.streams)
		}
		cp.counter[t]++
		return fmt.Sprint(cp.counter[t])
	case 2:
		return cp.NextNonce() + "/+=é \"-\x00" + strings.Repeat("z", 40)
	}
	return cp.NextNonce()
}

func (cp *CP) shutdown() {
	cp.mu.Lock()
	cp.down = true
	ss := append([]*Stream(nil), cp.streams...)
	cp.mu.Unlock()
	for _, s := range ss {
		s.Fail(authErr())
		s.ReleaseSend()
	}
}

type Stream struct {
	cp     *CP
	id     int
	mu     sync.Mutex
	q      []*discoveryv3.DiscoveryResponse
	err    error
	sErr   error
	closed bool
	notify chan struct{}
	dead   chan struct{}
	gate   chan struct{} // Send blocks while it is open
	issued map[string]bool
	asked  map[RT]bool // types requested on this stream
	nsend  int
	// FailSendAt makes the n-th Send (1-based) fail, together with the stream.
	FailSendAt int
}

func (s *Stream) alive() bool {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.err == nil && !s.closed
}

func (s *Stream) wake() {
	select {
	case s.notify <- struct{}{}:
	default:
	}
}

// Push queues a response.
func (s *Stream) Push(resp *discoveryv3.DiscoveryResponse) {
	s.mu.Lock()
	s.q = append(s.q, resp)
	s.mu.Unlock()
	s.wake()
}

// Asked tells whether the type has been requested on this stream: a control plane sends nothing before.
func (s *Stream) Asked(t RT) bool {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.asked[t]
}

// Fail terminates the stream: responses already queued are still received first (as on a real connection).
func (s *Stream) Fail(err error) {
	s.mu.Lock()
	if s.err == nil {
		s.err = err
		close(s.dead)
	}
	s.mu.Unlock()
	s.wake()
}

// FailSend makes sends fail from now on, the receiving side notices only on Fail.
func (s *Stream) FailSend(err error) {
	s.mu.Lock()
	s.sErr = err
	s.mu.Unlock()
}

// BlockSend makes Send block (flow control of a stalled peer) until ReleaseSend or the failure of the stream.
func (s *Stream) BlockSend() {
	s.mu.Lock()
	if s.gate == nil {
		s.gate = make(chan struct{})
	}
	s.mu.Unlock()
}

func (s *Stream) ReleaseSend() {
	s.mu.Lock()
	if s.gate != nil {
		close(s.gate)
		s.gate = nil
	}
	s.mu.Unlock()
}

func (s *Stream) Send(req *discoveryv3.DiscoveryRequest) error {
	req = proto.Clone(req).(*discoveryv3.DiscoveryRequest)
	if h := s.cp.SendHook; h != nil {
		h(s, req)
	}
	s.mu.Lock()
	g := s.gate
	s.mu.Unlock()
	if g != nil {
		select {
		case <-g:
		case <-s.dead:
		}
	}
	s.mu.Lock()
	s.nsend++
	n := s.nsend
	err := s.err
	if err == nil && s.closed {
		err = errors.New("send on a closed stream")
	}
	if err == nil && s.sErr != nil {
		err = s.sErr
	}
	if err == nil && s.FailSendAt > 0 && n >= s.FailSendAt {
		err = errors.New("injected send failure")
		s.mu.Unlock()
		s.Fail(err)
		s.mu.Lock()
	}
	nonceOK := req.ResponseNonce == "" || s.issued[req.TypeUrl+"|"+req.ResponseNonce]
	s.mu.Unlock()
	ev := Ev{Kind: "send", Stream: s.id, URL: req.TypeUrl, T: typeOf[req.TypeUrl], Nonce: req.ResponseNonce, Version: req.VersionInfo, Names: append([]string(nil), req.ResourceNames...)}
	sort.Strings(ev.Names)
	if req.ErrorDetail != nil {
		ev.HasErr, ev.Err = true, req.ErrorDetail.Message
		if len(ev.Err) > 120 {
			ev.Err = ev.Err[:120]
		}
	}
	if err != nil {
		ev.Kind, ev.Note = "senderr", err.Error()
	}
	s.cp.add(ev)
	c := s.cp.c
	// monitors that are always on
	if !nonceOK {
		c.Violate("C04", "foreign-nonce", "request of %s on stream %d carries nonce %q which was not issued on that stream", tname[ev.T], s.id, req.ResponseNonce)
	}
	if ev.T == 0 {
		c.Violate("C03", "unknown-type", "request of unknown type %q", req.TypeUrl)
	}
	for i := 1; i < len(ev.Names); i++ {
		if ev.Names[i] == ev.Names[i-1] {
			c.Violate("C03", "duplicate-name", "request lists %q twice", ev.Names[i])
		}
	}
	if exp := s.cp.expNode; exp != nil && !proto.Equal(exp, req.Node) {
		c.Violate("C03", "node", "request identifies node %v, expected %v", req.Node, exp)
	}
	s.cp.mu.Lock()
	if s.cp.node == nil {
		s.cp.node = req.Node
	}
	s.cp.mu.Unlock()
	if err != nil {
		return err
	}
	s.mu.Lock()
	if s.asked == nil {
		s.asked = map[RT]bool{}
	}
	s.asked[ev.T] = true
	s.mu.Unlock()
	if h := s.cp.OnReq; h != nil {
		h(s, req)
	}
	return nil
}

func (s *Stream) Recv() (*discoveryv3.DiscoveryResponse, error) {
	if h := s.cp.EnterHook; h != nil {
		h()
	}
	s.cp.add(Ev{Kind: "enter", Stream: s.id})
	for {
		s.mu.Lock()
		if s.closed {
			s.mu.Unlock()
			return nil, errors.New("receive on a closed stream")
		}
		if len(s.q) > 0 {
			r := s.q[0]
			s.q = s.q[1:]
			s.issued[r.TypeUrl+"|"+r.Nonce] = true
			s.mu.Unlock()
			if h := s.cp.RecvHook; h != nil {
				h(s)
			}
			s.cp.add(Ev{Kind: "recv", Stream: s.id, URL: r.TypeUrl, T: typeOf[r.TypeUrl], Nonce: r.Nonce, Version: r.VersionInfo, Note: fmt.Sprintf("%d resources", len(r.Resources))})
			if h := s.cp.HandleHook; h != nil {
				h(r)
			}
			return r, nil
		}
		err := s.err
		s.mu.Unlock()
		if err != nil {
			s.cp.add(Ev{Kind: "fail", Stream: s.id, Note: err.Error()})
			s.cp.noteRejection(err)
			return nil, err
		}
		<-s.notify
	}
}

func (s *Stream) Close() error {
	s.mu.Lock()
	s.closed = true
	s.mu.Unlock()
	s.wake()
	s.cp.add(Ev{Kind: "close", Stream: s.id})
	return nil
}

func (s *Stream) SetHeader(metadata.MD) error  { return nil }
func (s *Stream) SendHeader(metadata.MD) error { return nil }
func (s *Stream) SetTrailer(metadata.MD)       {}
func (s *Stream) Header() (metadata.MD, error) { return nil, nil }
func (s *Stream) Trailer() metadata.MD         { return nil }
func (s *Stream) Context() context.Context     { return context.Background() }
func (s *Stream) RecvMsg(m interface{}) error  { return errors.New("not supported") }
func (s *Stream) SendMsg(m interface{}) error  { return errors.New("not supported") }

// ---------------------------------------------------------------- world

type Manager interface {
	xdssuite.XDSResourceManager
	Dump()
	Close()
}

type WCfg struct {
	NDS, LDS bool // required at start-up
	Timeout  time.Duration
	Table    map[string][]string // initial name table answered during the warm-up
	Inbound  proto.Message       // initial inbound listener (optional)
	Env      map[string]string
	NoWarm   bool // do not answer the warm-up
	Pre      func(cp *CP)
}

type World struct {
	c    *Case
	cp   *CP
	m    Manager
	cfg  WCfg
	dump string
	err  error
}

// Prepare installs a fresh control plane and returns the options to build a manager with.
func Prepare(c *Case, cfg WCfg) (*World, []manager.Option) {
	w := &World{c: c, cfg: cfg, cp: newCP(c)}
	w.cp.w = w
	if cfg.Env == nil {
		cfg.Env = defaultEnv()
	}
	setEnv(cfg.Env)
	w.dump = filepath.Join(scratch, fmt.Sprintf("dump%d.json", worldNo.Add(1)))
	curCP.Store(w.cp)
	if cfg.Pre != nil {
		cfg.Pre(w.cp)
	}
	return w, []manager.Option{{F: func(o *manager.Options) {
		o.XDSSvrConfig = &manager.XDSServerConfig{
			SvrName: "fake-istiod", SvrAddr: "127.0.0.1:1",
			NDSNotRequired: !cfg.NDS, LDSNotRequired: !cfg.LDS, FetchXDSTimeout: cfg.Timeout,
		}
		o.DumpPath = w.dump
	}}}
}

// NewWorld builds the real manager and client around a fake control plane.
func NewWorld(c *Case, cfg WCfg) *World {
	w, opts := Prepare(c, cfg)
	if !cfg.NoWarm {
		w.warm()
	}
	m, err := manager.NewXDSResourceManager(nil, opts...)
	w.err = err
	if err == nil {
		w.m = m
		proxy.cur.Store(&mgrBox{m})
	}
	if !cfg.NoWarm {
		synctest.Wait()
	}
	return w
}

// warm answers the first request of the name table and of the inbound listener.
func (w *World) warm() {
	prev := w.cp.OnReq
	done := map[RT]bool{}
	w.cp.OnReq = func(s *Stream, req *discoveryv3.DiscoveryRequest) {
		t := typeOf[req.TypeUrl]
		if req.ResponseNonce == "" && !done[t] && (t == N && w.cfg.NDS || t == L && w.cfg.LDS) {
			done[t] = true
			var res []proto.Message
			if t == N {
				res = []proto.Message{mkTable(w.cfg.Table)}
			} else if w.cfg.Inbound != nil {
				res = []proto.Message{w.cfg.Inbound}
			}
			s.Push(w.Resp(t, "v0", res...))
			return
		}
		if prev != nil {
			prev(s, req)
		}
	}
}

func (w *World) Close() {
	if w.m != nil {
		w.m.Close()
	}
	w.cp.shutdown()
	time.Sleep(3 * time.Minute)
	synctest.Wait()
	w.finish()
}

func (w *World) finish() {
	curCP.CompareAndSwap(w.cp, nil)
	os.Remove(w.dump)
	for _, p := range logRing.takePanics() {
		w.c.Logf("%s", p)
		w.c.Violate(w.c.R.prop, "receiver-panic", "the receive loop panicked: %s", trimStack(p))
	}
}

func mustAny(m proto.Message) *anypb.Any {
	a, err := anypb.New(m)
	if err != nil {
		panic(err)
	}
	return a
}

// Resp builds a response with a fresh nonce.
func (w *World) Resp(t RT, version string, res ...proto.Message) *discoveryv3.DiscoveryResponse {
	r := &discoveryv3.DiscoveryResponse{TypeUrl: urlOf[t], VersionInfo: version, Nonce: w.cp.nonceFor(t)}
	for _, m := range res {
		if a, ok := m.(*anypb.Any); ok {
			r.Resources = append(r.Resources, a)
			continue
		}
		r.Resources = append(r.Resources, mustAny(m))
	}
	return r
}

// Push sends a response on the live stream and waits until it is processed.
func (w *World) Push(resp *discoveryv3.DiscoveryResponse) bool {
	s := w.cp.Live()
	if s == nil {
		return false
	}
	s.Push(resp)
	synctest.Wait()
	return true
}

// ---------------------------------------------------------------- lookups

type Lookup struct {
	T          RT
	Name       string
	Val        interface{}
	Err        error
	Stamp      string
	Start, End time.Duration
	Limit      time.Duration
	Panicked   bool
}

// Get performs a lookup with the monitors of C05 on its result.
func (w *World) Get(ctx context.Context, t RT, name string) *Lookup {
	l := &Lookup{T: t, Name: name, Start: time.Since(w.cp.t0)}
	lim := w.cfg.Timeout
	if lim == 0 {
		lim = time.Second
	}
	if dl, ok := ctx.Deadline(); ok {
		if d := time.Until(dl); d < lim {
			lim = d
		}
		if lim < 0 {
			lim = 0
		}
	}
	l.Limit = lim
	w.cp.add(Ev{Kind: "lookup", T: t, Note: name})
	func() {
		defer func() {
			if p := recover(); p != nil {
				l.Panicked = true
				st := string(debug.Stack())
				w.c.Violate("C05", "panic", "lookup of %s %q panicked: %v\n%s", tname[t], name, p, trimStack(st))
				if w.c.R.prop != "C05" {
					w.c.Violate(w.c.R.prop, "panic", "lookup of %s %q panicked: %v\n%s", tname[t], name, p, trimStack(st))
				}
			}
		}()
		l.Val, l.Err = w.m.Get(ctx, t, name)
	}()
	l.End = time.Since(w.cp.t0)
	if l.Panicked {
		return l
	}
	w.c.R.Count("lookups", 1)
	isNil := l.Val == nil
	if !isNil {
		v := reflect.ValueOf(l.Val)
		isNil = v.Kind() == reflect.Ptr && v.IsNil()
	}
	switch {
	case l.Err != nil && l.Val != nil && !isNil:
		w.c.Violate("C05", "both", "lookup of %s %q returned a value and an error", tname[t], name)
	case l.Err == nil && l.Val == nil:
		w.c.Violate("C05", "neither", "lookup of %s %q returned neither a value nor an error", tname[t], name)
	case l.Err == nil && isNil:
		w.c.Violate("C05", "placeholder", "lookup of %s %q returned a nil %T", tname[t], name, l.Val)
	}
	if l.Err == nil && !isNil {
		ok := false
		switch t {
		case L:
			_, ok = l.Val.(*xdsresource.ListenerResource)
		case R:
			_, ok = l.Val.(*xdsresource.RouteConfigResource)
		case C:
			_, ok = l.Val.(*xdsresource.ClusterResource)
		case E:
			_, ok = l.Val.(*xdsresource.EndpointsResource)
		}
		if !ok {
			w.c.Violate("C05", "kind", "lookup of %s %q returned a %T", tname[t], name, l.Val)
		} else {
			l.Stamp = stampOf(l.Val)
		}
	}
	w.cp.add(Ev{Kind: "ret", T: t, Note: fmt.Sprintf("%s -> %q err=%v", name, l.Stamp, l.Err)})
	return l
}

// CheckDeadline verifies the bound on the duration of a lookup, exact in virtual time.
func (w *World) CheckDeadline(l *Lookup) {
	if d := l.End - l.Start; d > l.Limit {
		w.c.Violate("C05", "late", "lookup of %s %q returned after %v, its deadline was %v", tname[l.T], l.Name, d, l.Limit)
	}
}

// peek looks a name up without waiting: a cached value is returned, a miss fails at once.
func (w *World) Peek(t RT, name string) *Lookup {
	ctx, cancel := context.WithCancel(context.Background())
	cancel()
	return w.Get(ctx, t, name)
}

// DumpRaw returns the dumped cache.
func (w *World) DumpRaw() string {
	os.Remove(w.dump)
	if w.m == nil {
		return "" // still being initialised
	}
	w.m.Dump()
	b, err := os.ReadFile(w.dump)
	if err != nil {
		return ""
	}
	return string(b)
}

// DumpNames returns type -> name -> raw json of the cache, ok is false when it cannot be read.
func (w *World) DumpNames() (map[RT]map[string]string, bool) {
	raw := w.DumpRaw()
	var top map[string]map[string]json.RawMessage
	if json.Unmarshal([]byte(raw), &top) != nil {
		w.c.R.Count("unreadable_dumps", 1)
		return nil, false
	}
	out := map[RT]map[string]string{}
	for t, n := range dumpName {
		out[t] = map[string]string{}
		for k, v := range top[n] {
			out[t][k] = string(v)
		}
	}
	w.c.R.Count("cache_snapshots", 1)
	return out, true
}

func sortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func setOf(names []string) map[string]bool {
	m := map[string]bool{}
	for _, n := range names {
		m[n] = true
	}
	return m
}

func sameSet(a map[string]bool, b []string) bool {
	sb := setOf(b)
	if len(a) != len(sb) {
		return false
	}
	for k := range a {
		if !sb[k] {
			return false
		}
	}
	return true
}
