package harness

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"sync"
	"sync/atomic"
	"testing/synctest"
	"time"

	"github.com/cloudwego/kitex/client/callopt"
	"github.com/cloudwego/kitex/pkg/circuitbreak"
	"github.com/cloudwego/kitex/pkg/klog"
	"github.com/cloudwego/kitex/pkg/limit"
	"github.com/cloudwego/kitex/pkg/remote/trans/nphttp2/metadata"
	"github.com/cloudwego/kitex/pkg/retry"
	"github.com/cloudwego/kitex/pkg/rpcinfo"
	v3endpoint "github.com/envoyproxy/go-control-plane/envoy/config/endpoint/v3"
	v3route "github.com/envoyproxy/go-control-plane/envoy/config/route/v3"
	discoveryv3 "github.com/envoyproxy/go-control-plane/envoy/service/discovery/v3"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/anypb"

	ads "github.com/kitex-contrib/xds/core/api/kitex_gen/envoy/service/discovery/v3/aggregateddiscoveryservice"
	"github.com/kitex-contrib/xds/core/manager"
	"github.com/kitex-contrib/xds/core/xdsresource"
	"github.com/kitex-contrib/xds/xdssuite"
)

// ---------------------------------------------------------------- C07: everything at once under the race detector

// A happens-before edge made by the harness would hide a race, so this control plane shares nothing between its
// methods: the responses and the failures of each stream are a timetable made beforehand, in virtual time, and no
// monitor locks anything. Only the order of the streams is counted, when they are opened.

type routeConfig = v3route.RouteConfiguration

type raceCP struct {
	t0      time.Time
	opens   atomic.Int32
	scripts []*raceStream
}

type raceResp struct {
	at   time.Duration
	resp *discoveryv3.DiscoveryResponse
}

type raceStream struct {
	ads.AggregatedDiscoveryService_StreamAggregatedResourcesClient
	cp       *raceCP
	openErr  int // opening fails that many times before
	resps    []raceResp
	end      time.Duration
	err      error
	next     int // only used by Recv
	sendFrom time.Duration
	stalls   bool // sends take a virtual instant
}

func (cp *raceCP) StreamAggregatedResources(context.Context, ...callopt.Option) (ads.AggregatedDiscoveryService_StreamAggregatedResourcesClient, error) {
	n := int(cp.opens.Add(1)) - 1
	for _, s := range cp.scripts {
		if n < s.openErr {
			return nil, errors.New("connection refused")
		}
		if n -= s.openErr; n == 0 {
			return s, nil
		}
		n--
	}
	return nil, authErr()
}

func (cp *raceCP) DeltaAggregatedResources(context.Context, ...callopt.Option) (ads.AggregatedDiscoveryService_DeltaAggregatedResourcesClient, error) {
	return nil, errors.New("delta is not supported")
}

func (s *raceStream) Recv() (*discoveryv3.DiscoveryResponse, error) {
	if s.next < len(s.resps) {
		r := s.resps[s.next]
		s.next++
		if d := r.at - time.Since(s.cp.t0); d > 0 {
			time.Sleep(d)
		}
		return r.resp, nil
	}
	if d := s.end - time.Since(s.cp.t0); d > 0 {
		time.Sleep(d)
	}
	return nil, s.err
}

func (s *raceStream) Send(req *discoveryv3.DiscoveryRequest) error {
	if s.stalls {
		time.Sleep(10 * time.Millisecond)
	}
	if time.Since(s.cp.t0) >= s.sendFrom {
		return errors.New("broken pipe")
	}
	_, err := proto.Marshal(req)
	return err
}

func (s *raceStream) Close() error                 { return nil }
func (s *raceStream) SetHeader(metadata.MD) error  { return nil }
func (s *raceStream) SendHeader(metadata.MD) error { return nil }
func (s *raceStream) SetTrailer(metadata.MD)       {}
func (s *raceStream) Header() (metadata.MD, error) { return nil, nil }
func (s *raceStream) Trailer() metadata.MD         { return nil }
func (s *raceStream) Context() context.Context     { return context.Background() }
func (s *raceStream) RecvMsg(m interface{}) error  { return errors.New("not supported") }
func (s *raceStream) SendMsg(m interface{}) error  { return errors.New("not supported") }

var curRace atomic.Pointer[raceCP]

// plainUpdater is an updater of a limiter that relies on being called by one goroutine at a time.
type plainUpdater struct {
	calls, qps, conns int
}

func (u *plainUpdater) UpdateLimit(o *limit.Option) bool {
	u.calls++
	u.qps, u.conns = o.MaxQPS, o.MaxConnections
	return true
}

// raceLog is what one goroutine saw.
type raceLog struct {
	gets, values, calls, regs, updates int
	hash                               []byte
}

func (l *raceLog) note(s string) { l.hash = append(append(l.hash, s...), ';') }

var raceNames = map[RT][]string{
	L: {"svc-a:80", "svc-b:8080", "svc-c.ns2:80", inbound}, R: {"r1", "r2", "r3"}, C: {"c1", "c2", "c3"}, E: {"e1", "e2", "e3"},
}

func raceResponse(r intner, g *gen, t RT, no int, nds bool) *discoveryv3.DiscoveryResponse {
	resp := &discoveryv3.DiscoveryResponse{TypeUrl: urlOf[t], VersionInfo: fmt.Sprint("v", no), Nonce: fmt.Sprint("n", no)}
	add := func(m proto.Message) { resp.Resources = append(resp.Resources, mustAny(m)) }
	ips := []string{"10.0.0.1", "10.0.0.2", "10.0.0.3"}
	switch t {
	case N:
		tb := map[string][]string{}
		for _, h := range []string{"svc-a.ns1.svc.cluster.local", "svc-b.ns1.svc.cluster.local", "svc-c.ns2.svc.cluster.local"} {
			if chance(r, 85) {
				tb[h] = []string{pick(r, ips)}
			}
		}
		add(mkTable(tb))
	case L:
		if chance(r, 90) {
			add(linListener(inbound, fmt.Sprintf("st-%d-", no), no))
		}
		ns := []string{"svc-a:80", "svc-b:8080", "svc-c.ns2:80"}
		if nds {
			ns = []string{"10.0.0.1_80", "10.0.0.2_80", "10.0.0.3_80", "10.0.0.1_8080", "10.0.0.2_8080", "10.0.0.3_8080"}
		}
		for _, n := range ns {
			if chance(r, 85) {
				add(mkListener(n, pick(r, raceNames[R])))
			}
		}
	case R:
		for _, n := range raceNames[R] {
			if !chance(r, 75) {
				continue
			}
			tb := g.table(n)
			for _, vh := range tb.VirtualHosts {
				for _, rt := range vh.Routes {
					if a := rt.GetRoute(); a != nil && chance(r, 50) {
						a.RetryPolicy = linRoute(n, "x").(*routeConfig).VirtualHosts[0].Routes[0].GetRoute().RetryPolicy
					}
				}
			}
			if chance(r, 60) {
				tb = linRoute(n, pick(r, raceNames[C])).(*routeConfig)
			}
			add(tb)
		}
	case C:
		for _, n := range raceNames[C] {
			if chance(r, 75) {
				add(linCluster(n, pick(r, raceNames[E]), no))
			}
		}
	case E:
		for _, n := range raceNames[E] {
			if chance(r, 75) {
				cla := mkEndpoints(n, fmt.Sprintf("10.1.%d.%d", no/250%250, no%250)).(*v3endpoint.ClusterLoadAssignment)
				lb := cla.Endpoints[0]
				for j := r.Intn(4); j > 0; j-- {
					lb.LbEndpoints = append(lb.LbEndpoints, mkEndpoint(fmt.Sprintf("10.2.0.%d", j), 1, uint32(r.Intn(20))))
				}
				add(cla)
			}
		}
	}
	if chance(r, 8) {
		at := r.Intn(len(resp.Resources) + 1)
		resp.Resources = append(resp.Resources[:at:at], append([]*anypb.Any{badAny(g.r, t)}, resp.Resources[at:]...)...)
	}
	return resp
}

func raceCases(r *Run, n int) {
	klog.SetLevel(klog.LevelFatal) // the lock of the log would order everything
	prev := ads.VerifNewClient
	ads.VerifNewClient = func(dest string) ads.Client {
		if cp := curRace.Load(); cp != nil {
			return cp
		}
		return prev(dest)
	}
	// (first: what the decoders keep for the life of the process is cold)
	for i := 0; i < n/10; i++ {
		r.Case("race-decode", i, func(c *Case) { raceDecodeCase(c) })
	}
	for i := 0; i < n; i++ {
		r.Case("race", i, func(c *Case) { raceCase(c) })
	}
}

func raceCase(c *Case) {
	rng := c.Rng
	runtime.GOMAXPROCS(pick(rng, []int{2, 4, 8}))
	defer runtime.GOMAXPROCS(4)
	c.Bubble(func() {
		g := &gen{r: rng}
		nds, lds := chance(rng, 60), chance(rng, 70)
		grid := pick(rng, []time.Duration{10, 50, 300, 1500})
		grid *= time.Millisecond
		steps := 30
		total := time.Duration(steps) * grid
		cp := &raceCP{t0: time.Now()}
		types := []RT{L, R, C, E, L, R, C, E, R, C}
		if nds {
			types = append(types, N, N)
		}
		start := 100 * time.Millisecond
		no := 1
		first := &raceStream{cp: cp}
		first.resps = append(first.resps,
			raceResp{10 * time.Millisecond, raceResponse(rng, &gen{r: rng}, N, no, nds)},
			raceResp{20 * time.Millisecond, raceResponse(rng, g, L, no, nds)})
		if !nds {
			first.resps = first.resps[1:]
		}
		for i := range first.resps {
			// the warm-up must succeed
			if t := typeOf[first.resps[i].resp.TypeUrl]; t == N {
				first.resps[i].resp.Resources = []*anypb.Any{mustAny(mkTable(map[string][]string{"svc-a.ns1.svc.cluster.local": {"10.0.0.1"}}))}
			} else {
				first.resps[i].resp.Resources = []*anypb.Any{mustAny(linListener(inbound, "st-0-", 1))}
			}
		}
		at := time.Duration(0)
		fails := 0
		auth := false
		for s := first; ; s = (&raceStream{cp: cp}) {
			s.stalls = chance(rng, 30)
			life := grid * time.Duration(2+rng.Intn(steps))
			for k := time.Duration(1); k*grid <= life; k++ {
				for b, nb := 0, rng.Intn(4); b < nb; b++ {
					no++
					s.resps = append(s.resps, raceResp{start + at + k*grid, raceResponse(rng, g, pick(rng, types), no, nds)})
				}
			}
			at += life
			s.end, s.sendFrom = start+at, start+at
			if chance(rng, 30) {
				s.sendFrom -= grid * time.Duration(rng.Intn(3))
			}
			s.err = errors.New("broken")
			if len(cp.scripts) > 0 && chance(rng, 40) {
				s.openErr = 1 + rng.Intn(2)
			}
			cp.scripts = append(cp.scripts, s)
			if at >= total {
				auth = chance(rng, 70)
				if auth {
					s.err = authErr()
				}
				break
			}
			fails++
			// the stream after opens some time later (back-off)
			at += 2 * time.Second
		}
		end := start + at
		setEnv(defaultEnv())
		dump := filepath.Join(scratch, fmt.Sprintf("race%d.json", worldNo.Add(1)))
		defer os.Remove(dump)
		curRace.Store(cp)
		defer curRace.Store(nil)
		m, err := manager.NewXDSResourceManager(nil, manager.Option{F: func(o *manager.Options) {
			o.XDSSvrConfig = &manager.XDSServerConfig{
				SvrName: "fake-istiod", SvrAddr: "127.0.0.1:1",
				NDSNotRequired: !nds, LDSNotRequired: !lds, FetchXDSTimeout: pick(rng, []time.Duration{1, 2, 5}) * grid,
			}
			o.DumpPath = dump
		}})
		if err != nil {
			c.R.harnessError("the manager could not be built: " + err.Error())
			return
		}
		proxy.cur.Store(&mgrBox{m})
		for t, ns := range raceNames {
			for _, n := range ns {
				ctx, cancel := context.WithCancel(context.Background())
				cancel()
				_, _ = m.Get(ctx, t, n)
			}
		}
		synctest.Wait()
		var wg sync.WaitGroup
		var logs []*raceLog
		// spawn starts a goroutine acting at random instants of the grid
		spawn := func(from time.Duration, every int, f func(rr intner, l *raceLog)) {
			l := &raceLog{}
			logs = append(logs, l)
			seed := rng.Int63()
			wg.Add(1)
			go func() {
				defer wg.Done()
				rr := newRand(seed)
				if d := from - time.Since(cp.t0); d > 0 {
					time.Sleep(d)
				}
				for time.Since(cp.t0) < end+3*grid {
					f(rr, l)
					time.Sleep(grid * time.Duration(1+rr.Intn(every)))
				}
			}()
		}
		look := func(rr intner, l *raceLog, t RT, n string) {
			ctx, cancel := context.WithTimeout(context.Background(), grid*time.Duration(rr.Intn(4)))
			v, err := m.Get(ctx, t, n)
			cancel()
			l.gets++
			if err != nil {
				l.note("-")
				return
			}
			l.values++
			b, _ := json.Marshal(v)
			l.note(stampOf(v) + fmt.Sprint(len(b)))
		}
		for i, n := 0, 3+rng.Intn(6); i < n; i++ {
			focus := pick(rng, types[:4])
			spawn(start, 3, func(rr intner, l *raceLog) {
				for b, nb := 0, 1+rr.Intn(6); b < nb; b++ {
					look(rr, l, focus, pick(rr, raceNames[focus]))
				}
			})
		}
		// clients of the suite, created before or while the updates arrive
		for i, n := 0, 1+rng.Intn(3); i < n; i++ {
			from := start
			if chance(rng, 60) {
				from += grid * time.Duration(rng.Intn(steps))
			}
			seed := rng.Int63()
			svcCB := chance(rng, 60)
			l0 := &raceLog{}
			logs = append(logs, l0)
			wg.Add(1)
			go func() {
				defer wg.Done()
				rr := newRand(seed)
				if d := from - time.Since(cp.t0); d > 0 {
					time.Sleep(d)
				}
				var opts []xdssuite.Option
				if svcCB {
					opts = append(opts, xdssuite.WithServiceCircuitBreak(true))
				}
				if rr.Intn(2) == 0 {
					opts = append(opts, xdssuite.WithMatchRetryMethod(true))
				}
				cl := newClient(opts...)
				defer cl.Close()
				var inner sync.WaitGroup
				cnt := make([]raceLog, 3)
				for w := range cnt {
					s2 := rr.Int63()
					inner.Add(1)
					go func() {
						defer inner.Done()
						rr := newRand(s2)
						l := &cnt[w]
						for time.Since(cp.t0) < end+3*grid {
							raceCall(rr, l, cl, grid)
							time.Sleep(grid * time.Duration(1+rr.Intn(3)))
						}
					}()
				}
				inner.Wait()
				for w := range cnt {
					l0.calls += cnt[w].calls
					l0.hash = append(l0.hash, cnt[w].hash...)
				}
			}()
		}
		// servers
		ups := make([]*plainUpdater, 1+rng.Intn(3))
		for i := range ups {
			ups[i] = &plainUpdater{}
			up := ups[i]
			from := start
			if chance(rng, 60) {
				from += grid * time.Duration(rng.Intn(steps))
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				if d := from - time.Since(cp.t0); d > 0 {
					time.Sleep(d)
				}
				o := serverLimit()
				o.UpdateControl(up)
			}()
		}
		// handlers and dumps
		spawn(start, 8, func(rr intner, l *raceLog) {
			l.regs++
			m.RegisterXDSUpdateHandler(pick(rr, types[:4]), func(up map[string]xdsresource.Resource) {
				for n, v := range up {
					b, _ := json.Marshal(v)
					_ = append(b, n...)
				}
			})
		})
		spawn(start, 4, func(rr intner, l *raceLog) { m.Dump() })
		// the end: the control plane refuses the client while it is being closed
		closeAt := end
		if chance(rng, 20) {
			closeAt -= grid * time.Duration(rng.Intn(steps))
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			if d := closeAt - time.Since(cp.t0); d > 0 {
				time.Sleep(d)
			}
			m.Close()
		}()
		done := make(chan struct{})
		go func() {
			wg.Wait()
			close(done)
		}()
		select {
		case <-done:
		case <-time.After(30 * time.Minute):
			buf := make([]byte, 4<<20)
			for _, g := range blockedInRepo(string(buf[:runtime.Stack(buf, true)])) {
				c.Logf("blocked: %s", g)
			}
			c.Violate("C07", "deadlock", "the concurrent operations did not end")
			return
		}
		synctest.Wait()
		time.Sleep(3 * time.Minute)
		synctest.Wait()
		h := fnv.New64a()
		for _, l := range logs {
			c.R.Count("gets", l.gets)
			c.R.Count("values", l.values)
			c.R.Count("calls", l.calls)
			c.R.Count("registrations", l.regs)
			_, _ = h.Write(l.hash)
			_, _ = h.Write([]byte{0})
		}
		for _, u := range ups {
			c.R.Count("limits", u.calls)
		}
		c.R.Count("responses", no)
		c.R.Count("stream_failures", fails)
		if auth {
			c.R.Count("auth_failures_at_close", 1)
		}
		c.R.Count("evaluations", 1)
		c.R.Distinct("nontrivial", fmt.Sprintf("%s %x", c.ID, h.Sum64()))
		c.R.Sample("race: %d responses, %d stream failures, auth %v, grid %v", no, fails, auth, grid)
	})
}

// raceDecodeCase: the receive loops of several clients of one process decode at the same time.
func raceDecodeCase(c *Case) {
	runtime.GOMAXPROCS(4)
	var wg sync.WaitGroup
	var total, accepted atomic.Int64
	for k := 0; k < 4; k++ {
		rng := rand.New(rand.NewSource(c.Rng.Int63()))
		wg.Add(1)
		go func() {
			defer wg.Done()
			g := &gen{r: rng}
			for j := 0; j < 25; j++ {
				t := pick(rng, []RT{N, L, R, C, E})
				resp := raceResponse(rng, g, t, j, true)
				var err error
				switch t {
				case N:
					_, err = xdsresource.UnmarshalNDS(resp.Resources)
				case L:
					_, err = xdsresource.UnmarshalLDS(resp.Resources)
				case R:
					_, err = xdsresource.UnmarshalRDS(resp.Resources)
				case C:
					_, err = xdsresource.UnmarshalCDS(resp.Resources)
				case E:
					_, err = xdsresource.UnmarshalEDS(resp.Resources)
				}
				total.Add(1)
				if err == nil {
					accepted.Add(1)
				}
			}
		}()
	}
	wg.Wait()
	c.R.Count("parallel_decodes", int(total.Load()))
	c.R.Count("parallel_decodes_accepted", int(accepted.Load()))
	c.R.Count("evaluations", 1)
	c.R.Distinct("nontrivial", c.ID)
}

// raceCall is a call through what the suite installs.
func raceCall(rr *rand.Rand, l *raceLog, cl *suiteClient, grid time.Duration) {
	k := &call{dest: pick(rr, raceNames[L][:3]), pkg: pick(rr, gPackages), svc: pick(rr, gServices), method: pick(rr, gMethods), tp: pick(rr, transports)}
	if rr.Intn(2) == 0 {
		k.md = map[string]string{"k1": "v1"}
	}
	ctx, cancel := context.WithTimeout(context.Background(), 2*grid)
	defer cancel()
	ri := k.info()
	ctx = rpcinfo.NewCtxWithRPCInfo(k.ctx(ctx), ri)
	attempt := func() error {
		return cl.mw(func(ctx context.Context, _, _ interface{}) error {
			to := rpcinfo.GetRPCInfo(ctx).To()
			d := cl.rs.Target(ctx, to)
			l.note(d)
			res, err := cl.rs.Resolve(ctx, d)
			if err == nil {
				l.note(fmt.Sprint(len(res.Instances)))
			}
			return err
		})(ctx, nil, nil)
	}
	l.calls++
	switch rr.Intn(4) {
	case 0:
		_ = attempt()
	case 1, 2:
		n := 0
		_, _, err := cl.rc.WithRetryIfNeeded(ctx, nil, func(ctx context.Context, _ retry.Retryer) (rpcinfo.RPCInfo, interface{}, error) {
			n++
			if n > 1 {
				return ri, nil, nil
			}
			return ri, nil, attempt()
		}, ri, nil)
		if err == nil {
			l.note("ok")
		}
	case 3:
		if cl.cb != nil {
			if cl.mw != nil {
				for _, n := range raceNames[C] {
					l.note(n)
				}
			}
			_ = cl.cb.ServicePanel().DumpBreakers()
			_, _ = cl.cb.Dump().(map[string]interface{})
		}
		_ = cl.rc.Dump()
		_ = circuitbreak.TypeSuccess
	}
}

// closeCases: the client is closed while the control plane refuses it, breaks the stream or answers, at one instant.
func closeCases(r *Run, n, each int) {
	prev := ads.VerifNewClient
	ads.VerifNewClient = func(dest string) ads.Client {
		if cp := curRace.Load(); cp != nil {
			return cp
		}
		return prev(dest)
	}
	defer func() { ads.VerifNewClient = prev }()
	var sink atomic.Int64
	for i := 0; i < n; i++ {
		r.Case("close", i, func(c *Case) {
			rng := c.Rng
			runtime.GOMAXPROCS(4)
			for k := 0; k < each; k++ {
				kind := pick(rng, []string{"auth", "auth", "broken", "answer"})
				spin := [3]int{rng.Intn(3000), rng.Intn(3000), rng.Intn(3000)}
				c.Bubble(func() {
					const at = 50 * time.Millisecond
					cp := &raceCP{t0: time.Now()}
					s := &raceStream{cp: cp, end: at, sendFrom: at, err: errors.New("broken")}
					if kind == "auth" {
						s.err = authErr()
					}
					if kind == "answer" {
						s.end, s.sendFrom = 2*at, 2*at
						s.resps = []raceResp{{at, raceResponse(rng, &gen{r: rng}, C, 1, false)}}
					}
					cp.scripts = []*raceStream{s}
					curRace.Store(cp)
					defer curRace.Store(nil)
					m, err := manager.NewXDSResourceManager(nil, manager.Option{F: func(o *manager.Options) {
						o.XDSSvrConfig = &manager.XDSServerConfig{
							SvrName: "fake-istiod", SvrAddr: "127.0.0.1:1", NDSNotRequired: true, LDSNotRequired: true, FetchXDSTimeout: at,
						}
						o.DumpPath = filepath.Join(scratch, "close.json")
					}})
					if err != nil {
						c.R.harnessError("the manager could not be built: " + err.Error())
						return
					}
					var wg sync.WaitGroup
					do := func(spin int, f func()) {
						wg.Add(1)
						go func() {
							defer wg.Done()
							time.Sleep(at - time.Since(cp.t0))
							x := int64(0)
							for j := 0; j < spin; j++ {
								x += int64(j) ^ x
							}
							if x == 1 {
								sink.Add(x)
							}
							f()
						}()
					}
					do(spin[0], func() { m.Close() })
					var errs [2]error
					var els [2]time.Duration
					for g := range errs {
						do(spin[1+g], func() {
							t := time.Now()
							_, errs[g] = m.Get(context.Background(), C, raceNames[C][g])
							els[g] = time.Since(t)
						})
					}
					wg.Wait()
					for g := range els {
						if els[g] > at {
							c.Violate("C07", "late", "a lookup concurrent with Close took %v, its timeout is %v", els[g], at)
						}
						if errs[g] != nil {
							c.R.Count("lookups_failed_at_close", 1)
						}
					}
					c.R.Count("closes_"+kind, 1)
					time.Sleep(time.Minute)
				})
			}
			for _, p := range logRing.takePanics() {
				c.Violate("C07", "receiver-panic", "the receive loop panicked: %s", trimStack(p))
			}
			c.R.Count("evaluations", 1)
			c.R.Distinct("nontrivial", c.ID)
		})
	}
}
