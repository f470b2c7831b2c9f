package harness

import (
	"context"
	"errors"
	"fmt"
	"math"
	"math/rand"
	"sort"
	"strings"
	"sync"
	"testing/synctest"
	"time"

	"github.com/bytedance/gopkg/cloud/metainfo"
	"github.com/cloudwego/kitex/pkg/rpcinfo"
	"github.com/cloudwego/kitex/pkg/rpcinfo/remoteinfo"
	"github.com/cloudwego/kitex/transport"
	v3listener "github.com/envoyproxy/go-control-plane/envoy/config/listener/v3"
	v3route "github.com/envoyproxy/go-control-plane/envoy/config/route/v3"
	v3thrift "github.com/envoyproxy/go-control-plane/envoy/extensions/filters/network/thrift_proxy/v3"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/anypb"
	"google.golang.org/protobuf/types/known/durationpb"

	"github.com/kitex-contrib/xds/core/xdsresource"
	"github.com/kitex-contrib/xds/xdssuite"
)

// ---------------------------------------------------------------- a manager that serves decoded resources

type resKey struct {
	t RT
	n string
}

// stubMgr serves what the real decoders made of the protos; anything else is an error, as the real manager answers.
type stubMgr struct {
	mu  sync.Mutex
	res map[resKey]interface{}
	err error
}

func (s *stubMgr) Get(ctx context.Context, t RT, n string) (interface{}, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.err != nil {
		return nil, s.err
	}
	if v, ok := s.res[resKey{t, n}]; ok {
		return v, nil
	}
	return nil, fmt.Errorf("stub: no %s %q", tname[t], n)
}

func (s *stubMgr) RegisterXDSUpdateHandler(RT, xdsresource.XDSUpdateHandler) {}

func (s *stubMgr) put(t RT, n string, v interface{}) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.res == nil {
		s.res = map[resKey]interface{}{}
	}
	s.res[resKey{t, n}] = v
}

func (s *stubMgr) listener(name string, l *v3listener.Listener) error {
	m, err := xdsresource.UnmarshalLDS([]*anypb.Any{mustAny(l)})
	if err != nil {
		return err
	}
	if m[l.Name] == nil {
		return errors.New("the decoded listener is missing")
	}
	s.put(L, name, m[l.Name])
	return nil
}

func (s *stubMgr) table(t *v3route.RouteConfiguration) error {
	m, err := xdsresource.UnmarshalRDS([]*anypb.Any{mustAny(t)})
	if err != nil {
		return err
	}
	v, ok := m[t.Name].(*xdsresource.RouteConfigResource)
	if !ok {
		return errors.New("the decoded table is missing")
	}
	s.put(R, t.Name, v)
	return nil
}

func use(m xdssuite.XDSResourceManager) { proxy.cur.Store(&mgrBox{m}) }

// ---------------------------------------------------------------- calls

type call struct {
	dest, pkg, svc, method string
	tp                     transport.Protocol
	md                     map[string]string
	extractor              bool // metadata by a custom extractor instead of metainfo
}

type mdKey struct{}

func (k *call) String() string {
	return fmt.Sprintf("%s %s.%s/%s tp=%d md=%q ext=%v", k.dest, k.pkg, k.svc, k.method, k.tp, k.md, k.extractor)
}

func (k *call) path() string {
	if k.pkg == "" {
		return "/" + k.svc + "/" + k.method
	}
	return "/" + k.pkg + "." + k.svc + "/" + k.method
}

func (k *call) info() rpcinfo.RPCInfo {
	to := remoteinfo.NewRemoteInfo(&rpcinfo.EndpointBasicInfo{ServiceName: k.dest, Method: k.method}, k.method)
	cfg := rpcinfo.NewRPCConfig()
	mc := rpcinfo.AsMutableRPCConfig(cfg)
	_ = mc.SetTransportProtocol(k.tp)
	_ = mc.SetRPCTimeout(initialTimeout)
	from := rpcinfo.EmptyEndpointInfo()
	return rpcinfo.NewRPCInfo(from, to, rpcinfo.NewInvocation(k.svc, k.method, k.pkg), cfg, rpcinfo.NewRPCStats())
}

const initialTimeout = 777*time.Hour + 3

func (k *call) ctx(ctx context.Context) context.Context {
	if k.extractor {
		// what metainfo carries must not count
		if len(k.md) > 0 {
			ctx = metainfo.WithValue(ctx, "k1", "other")
		}
		return context.WithValue(ctx, mdKey{}, k.md)
	}
	for _, n := range sortedKeys(k.md) {
		ctx = metainfo.WithValue(ctx, n, k.md[n])
	}
	return ctx
}

// meta is the metadata the routing sees.
func (k *call) meta() map[string]string {
	if k.extractor {
		return k.md
	}
	m := map[string]string{}
	for n, v := range k.md {
		if v != "" {
			m[n] = v // metainfo ignores empty values
		}
	}
	return m
}

func extractorOpt() xdssuite.Option {
	return xdssuite.WithRouterMetaExtractor(func(ctx context.Context) map[string]string {
		m, _ := ctx.Value(mdKey{}).(map[string]string)
		return m
	})
}

// routers gives the router with the default extraction and the one with a custom extractor.
func routers() [2]*xdssuite.XDSRouter {
	return [2]*xdssuite.XDSRouter{xdssuite.NewXDSRouter(), xdssuite.NewXDSRouter(extractorOpt())}
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

var transports = []transport.Protocol{
	transport.PurePayload, transport.TTHeader, transport.Framed, transport.TTHeaderFramed, transport.HTTP,
	transport.GRPC, transport.GRPC,
}

// ---------------------------------------------------------------- reference routing

type outcome struct {
	kind  string // thrift, inline, named, nomatch, nofilter, notable, nolistener
	route *refRoute
	index int
}

func firstMatch(vhs []refVH, path string, md map[string]string) (*refRoute, int) {
	i := 0
	for _, vh := range vhs {
		for _, rt := range vh.routes {
			if rt.pathHolds(path, "") && condsHold(rt.conds, md) {
				return rt, i
			}
			i++
		}
	}
	return nil, -1
}

// refTarget is the reference of the whole routing of a call: at most one Thrift and one HTTP filter per listener.
func refTarget(fs []refFilter, tables map[string][]refVH, k *call) outcome {
	var th, ht *refFilter
	for i := range fs {
		if fs[i].thrift {
			th = &fs[i]
		} else {
			ht = &fs[i]
		}
	}
	md := k.meta()
	if k.tp != transport.GRPC && th != nil {
		for i, rt := range th.routes {
			if rt.pathHolds("", k.method) && condsHold(rt.conds, md) {
				return outcome{"thrift", rt, i}
			}
		}
	}
	if ht == nil {
		return outcome{kind: "nofilter"}
	}
	if ht.inline {
		if rt, i := firstMatch(ht.vhs, k.path(), md); rt != nil {
			return outcome{"inline", rt, i}
		}
	}
	vhs, ok := tables[ht.routeName]
	if !ok {
		return outcome{kind: "notable"}
	}
	if rt, i := firstMatch(vhs, k.path(), md); rt != nil {
		return outcome{"named", rt, i}
	}
	return outcome{kind: "nomatch"}
}

// pickable gives the clusters the route may be sent to, empty when selection must fail.
func (r *refRoute) pickable() map[string]bool {
	m := map[string]bool{}
	if len(r.clusters) == 1 {
		m[r.clusters[0].Name] = true
		return m
	}
	for _, c := range r.clusters {
		if c.Weight > 0 {
			m[c.Name] = true
		}
	}
	return m
}

// checkRoute compares one routing with the reference, "" when they agree.
func checkRoute(o outcome, res *xdssuite.RouteResult, err error) string {
	if (res == nil) == (err == nil) {
		return fmt.Sprintf("result %v, error %v", res, err)
	}
	if o.route == nil {
		if err == nil {
			return fmt.Sprintf("routed to %q although %s", res.ClusterPicked, o.kind)
		}
		return ""
	}
	ok := o.route.pickable()
	if len(ok) == 0 {
		if err == nil {
			return fmt.Sprintf("routed to %q although the matching route (%s %d) has no cluster to pick", res.ClusterPicked, o.kind, o.index)
		}
		return ""
	}
	if err != nil {
		return fmt.Sprintf("error %v although the %s route %d matches", err, o.kind, o.index)
	}
	if !ok[res.ClusterPicked] {
		return fmt.Sprintf("routed to %q, the first matching route (%s %d) leads to %v", res.ClusterPicked, o.kind, o.index, sortedKeys(ok))
	}
	if res.RPCTimeout != o.route.timeout {
		return fmt.Sprintf("timeout %v, the matched route has %v", res.RPCTimeout, o.route.timeout)
	}
	return ""
}

// scene is a listener and its tables, with the reference reading of them.
type scene struct {
	l      *v3listener.Listener
	tables []*v3route.RouteConfiguration
	fs     []refFilter
	refs   map[string][]refVH
	routes []*refRoute
}

// scene generates a listener with at most one HTTP and one Thrift filter.
func (g *gen) scene(lname string) *scene {
	r := g.r
	s := &scene{refs: map[string][]refVH{}}
	var fs []*v3listener.Filter
	rname := g.id("table")
	withTable := chance(r, 90)
	switch {
	case chance(r, 8):
		// no HTTP filter
	case chance(r, 35):
		t := g.table(rname)
		if chance(r, 10) {
			t.Name = ""
			withTable = false
		}
		fs = append(fs, typedFilter("hcm", mustAny(g.hcm(t, "", 1))))
	default:
		fs = append(fs, typedFilter("hcm", mustAny(g.hcm(nil, rname, 1))))
	}
	if chance(r, 45) {
		fs = append(fs, g.thriftFilter(false))
	}
	r.Shuffle(len(fs), func(i, j int) { fs[i], fs[j] = fs[j], fs[i] })
	s.l = g.listenerOf(lname, fs)
	if withTable {
		s.tables = append(s.tables, g.table(rname))
	}
	if chance(r, 40) {
		s.tables = append(s.tables, g.table(g.id("decoy")))
	}
	s.fs = refListenerFilters(s.l)
	for _, t := range s.tables {
		s.refs[t.Name] = refTable(t)
		for _, vh := range s.refs[t.Name] {
			s.routes = append(s.routes, vh.routes...)
		}
	}
	for _, f := range s.fs {
		s.routes = append(s.routes, f.routes...)
		for _, vh := range f.vhs {
			s.routes = append(s.routes, vh.routes...)
		}
	}
	return s
}

func (s *scene) install(m *stubMgr, name string) error {
	if err := m.listener(name, s.l); err != nil {
		return err
	}
	for _, t := range s.tables {
		if err := m.table(t); err != nil {
			return err
		}
	}
	return nil
}

// call generates a call, mostly one that satisfies some route of the scene.
func (g *gen) call(dest string, s *scene) *call {
	r := g.r
	k := &call{
		dest: dest, pkg: pick(r, gPackages), svc: pick(r, gServices), method: pick(r, gMethods),
		tp: pick(r, transports), extractor: chance(r, 50), md: randMD(r),
	}
	if len(s.routes) > 0 && chance(r, 75) {
		rt := pick(r, s.routes)
		if md := satisfy(r, rt.conds); md != nil {
			if chance(r, 50) {
				for n, v := range randMD(r) {
					if _, ok := md[n]; !ok {
						md[n] = v
					}
				}
			}
			k.md = md
		}
		switch {
		case strings.HasPrefix(rt.path, "exact:"):
			k.fit(r, rt.path[6:])
		case strings.HasPrefix(rt.path, "method:") && rt.path != "method:":
			k.method = rt.path[7:]
		}
		if chance(r, 20) && len(k.md) > 0 {
			// near miss
			n := pick(r, sortedKeys(k.md))
			if x := r.Intn(10); x < 3 {
				delete(k.md, n)
			} else if x < 5 {
				// another spelling of the key is another key
				v := k.md[n]
				delete(k.md, n)
				if u := strings.ToUpper(n); u != n && chance(r, 50) {
					n = u
				} else {
					n = strings.ToLower(n)
				}
				k.md[n] = v
			} else {
				k.md[n] = pick(r, candidates(rt.conds))
			}
		}
	}
	if k.extractor && len(k.md) == 0 && chance(r, 50) {
		k.md = nil
	}
	return k
}

// fit chooses package, service and method whose path is p, when there are such.
func (k *call) fit(r *rand.Rand, p string) {
	for _, i := range r.Perm(len(gPackages)) {
		for _, j := range r.Perm(len(gServices)) {
			for _, m := range gMethods {
				c := call{pkg: gPackages[i], svc: gServices[j], method: m}
				if c.path() == p {
					k.pkg, k.svc, k.method = c.pkg, c.svc, c.method
					return
				}
			}
		}
	}
}

// ---------------------------------------------------------------- C08

func matchCases(r *Run, n int) {
	for i := 0; i < n; i++ {
		r.Case("match", i, func(c *Case) {
			g := &gen{r: c.Rng}
			m := &stubMgr{}
			use(m)
			names := []string{"svcA:80", "svcB"}[:1+c.Rng.Intn(2)]
			scenes := map[string]*scene{}
			for _, n := range names {
				s := g.scene("10.0.0.1_80")
				scenes[n] = s
				if err := s.install(m, n); err != nil {
					c.Violate("C08", "decode", "well-formed configuration rejected: %v", err)
					return
				}
				c.Logf("listener of %s: %v", n, s.l)
				for _, t := range s.tables {
					c.Logf("table %v", t)
				}
			}
			rs := routers()
			for j := 0; j < 25; j++ {
				n := pick(c.Rng, names)
				k := g.call(n, scenes[n])
				if chance(c.Rng, 3) {
					k.dest = "unknown"
				}
				c.route(rs, scenes, k)
			}
		})
	}
}

// route routes one call and compares it with the reference.
func (c *Case) route(rs [2]*xdssuite.XDSRouter, scenes map[string]*scene, k *call) {
	r := c.R
	o := outcome{kind: "nolistener"}
	s := scenes[k.dest]
	if s != nil {
		o = refTarget(s.fs, s.refs, k)
	}
	ri := k.info()
	res, err := rs[b2i(k.extractor)].Route(rpcinfo.NewCtxWithRPCInfo(k.ctx(context.Background()), ri), ri)
	if e := checkRoute(o, res, err); e != "" {
		c.Violate("C08", "route", "call %v: %s", k, e)
	}
	r.Count("calls", 1)
	r.Count("outcome."+o.kind, 1)
	if s == nil {
		return
	}
	if o.route != nil && len(o.route.pickable()) == 0 {
		r.Count("outcome.nothing_to_pick", 1)
	}
	if r.Distinct("nontrivial", fmt.Sprint(c.ID, k)) {
		r.Sample("%v -> %s %d of %d routes", k, o.kind, o.index, len(s.routes))
	}
}

// endToEndCases: the same through the real manager and client, with updates of the tables in between.
func matchEndToEnd(r *Run, n int) {
	for i := 0; i < n; i++ {
		r.Case("match-e2e", i, func(c *Case) {
			c.Bubble(func() {
				g := &gen{r: c.Rng}
				w := NewWorld(c, WCfg{})
				defer w.Close()
				rs := routers()
				for round := 0; round < 3; round++ {
					s := g.scene("svcA:80")
					c.Logf("listener %v", s.l)
					for _, t := range s.tables {
						c.Logf("table %v", t)
					}
					if round == 0 {
						// the first lookups subscribe
						w.Peek(L, "svcA:80")
						synctest.Wait()
					}
					w.Push(w.Resp(L, fmt.Sprint("l", round), s.l))
					for _, n := range sortedKeys(s.refs) {
						w.Peek(R, n)
						synctest.Wait()
					}
					res := []proto.Message{}
					for _, t := range s.tables {
						res = append(res, t)
					}
					w.Push(w.Resp(R, fmt.Sprint("r", round), res...))
					for j := 0; j < 12; j++ {
						k := g.call("svcA:80", s)
						c.route(rs, map[string]*scene{"svcA:80": s}, k)
					}
				}
			})
		})
	}
}

// ---------------------------------------------------------------- C09

func (g *gen) vector() []uint32 {
	r := g.r
	n := pick(r, []int{1, 2, 2, 3, 3, 4, 5, 8, 20})
	ws := make([]uint32, n)
	switch r.Intn(9) {
	case 0: // one cluster holds everything
		ws[r.Intn(n)] = pick(r, []uint32{1, 7, 100, math.MaxUint32})
	case 1: // ones and zeros
		for i := range ws {
			ws[i] = uint32(r.Intn(2))
		}
	case 2: // large, the total exceeds 32 bits
		for i := range ws {
			ws[i] = math.MaxUint32 - uint32(r.Intn(1000))
		}
	case 3: // the total is a multiple of 2^32
		for i := range ws {
			ws[i] = 1 << 31
		}
	case 4: // percentages
		left := uint32(100)
		for i := range ws {
			ws[i] = uint32(r.Intn(int(left) + 1))
			left -= ws[i]
		}
		ws[n-1] += left
	case 5: // all zero
	case 6: // unequal magnitudes
		for i := range ws {
			ws[i] = uint32(1) << uint(r.Intn(32))
		}
	case 7: // equal
		v := uint32(1 + r.Intn(5))
		for i := range ws {
			ws[i] = v
		}
	default:
		for i := range ws {
			if chance(r, 75) {
				ws[i] = uint32(r.Intn(1000))
			}
		}
	}
	if n > 1 && chance(r, 30) {
		ws[0] = 0
	}
	if n > 1 && chance(r, 30) {
		ws[n-1] = 0
	}
	return ws
}

type wroute struct {
	ws    []uint32
	names []string
	exp   map[string]float64 // probability per cluster, empty when the route must fail
	calls []*call
	got   map[string]int
	errs  int
	n     int
}

func (g *gen) wroute(ws []uint32, dup bool) *wroute {
	w := &wroute{ws: ws, exp: map[string]float64{}, got: map[string]int{}}
	total := 0.0
	for i := range ws {
		total += float64(ws[i])
		w.names = append(w.names, g.id("c"))
	}
	if dup && len(ws) > 2 {
		w.names[1] = w.names[2]
	}
	if len(ws) == 1 {
		w.exp[w.names[0]] = 1
	} else if total > 0 {
		for i, n := range w.names {
			if ws[i] > 0 {
				w.exp[n] += float64(ws[i]) / total
			}
		}
	}
	return w
}

func (w *wroute) httpClusters() *v3route.WeightedCluster {
	p := &v3route.WeightedCluster{}
	for i, n := range w.names {
		cw := &v3route.WeightedCluster_ClusterWeight{Name: n}
		if w.ws[i] != 0 || i%2 == 0 {
			cw.Weight = u32(w.ws[i])
		}
		p.Clusters = append(p.Clusters, cw)
	}
	return p
}

func (w *wroute) thriftClusters() *v3thrift.WeightedCluster {
	p := &v3thrift.WeightedCluster{}
	for i, n := range w.names {
		cw := &v3thrift.WeightedCluster_ClusterWeight{Name: n}
		if w.ws[i] != 0 || i%2 == 0 {
			cw.Weight = u32(w.ws[i])
		}
		p.Clusters = append(p.Clusters, cw)
	}
	return p
}

func (w *wroute) check(c *Case, what string) {
	for _, n := range sortedKeys(w.got) {
		if w.exp[n] == 0 {
			c.Violate("C09", "support", "%s with weights %v (%v): %q was picked %d times of %d", what, w.ws, w.names, n, w.got[n], w.n)
			return
		}
	}
	if len(w.exp) == 0 {
		if w.errs != w.n {
			c.Violate("C09", "arbitrary", "%s with weights %v: a cluster was picked", what, w.ws)
		}
		return
	}
	if w.errs > 0 {
		c.Violate("C09", "error", "%s with weights %v: %d of %d selections failed", what, w.ws, w.errs, w.n)
		return
	}
	for _, n := range sortedKeys(w.exp) {
		p := w.exp[n]
		mean := p * float64(w.n)
		if p == 1 {
			if w.got[n] != w.n {
				c.Violate("C09", "support", "%s with weights %v: %q holds all the weight, picked %d times of %d", what, w.ws, n, w.got[n], w.n)
			}
			continue
		}
		if d, lim := math.Abs(float64(w.got[n])-mean), 12*math.Sqrt(mean*(1-p))+40; d > lim {
			c.Violate("C09", "frequency", "%s with weights %v (%v): %q was picked %d times of %d, expected %.0f +- %.0f", what, w.ws, w.names, n, w.got[n], w.n, mean, lim)
		}
	}
}

// weightCases draws from several routes of one router, interleaved, by several goroutines.
func weightCases(r *Run, n, draws int) {
	for i := 0; i < n; i++ {
		r.Case("weights", i, func(c *Case) {
			g := &gen{r: c.Rng}
			m := &stubMgr{}
			use(m)
			k := 1 + c.Rng.Intn(3)
			thrift := chance(c.Rng, 35)
			var routes []*wroute
			t := &v3route.RouteConfiguration{Name: "t", VirtualHosts: []*v3route.VirtualHost{{Name: "vh"}}}
			tp := &v3thrift.ThriftProxy{RouteConfig: &v3thrift.RouteConfiguration{}}
			for j := 0; j < k; j++ {
				w := g.wroute(g.vector(), chance(c.Rng, 10))
				routes = append(routes, w)
				method := fmt.Sprint("M", j)
				w.calls = append(w.calls, &call{dest: "s", pkg: "p", svc: "Svc", method: method, tp: pick(c.Rng, []transport.Protocol{transport.TTHeader, transport.Framed})})
				if thrift {
					a := &v3thrift.RouteAction{}
					if len(w.ws) == 1 && chance(c.Rng, 50) {
						a.ClusterSpecifier = &v3thrift.RouteAction_Cluster{Cluster: w.names[0]}
					} else {
						a.ClusterSpecifier = &v3thrift.RouteAction_WeightedClusters{WeightedClusters: w.thriftClusters()}
					}
					tp.RouteConfig.Routes = append(tp.RouteConfig.Routes, &v3thrift.Route{Match: &v3thrift.RouteMatch{MatchSpecifier: &v3thrift.RouteMatch_MethodName{MethodName: method}}, Route: a})
					continue
				}
				a := &v3route.RouteAction{Timeout: durationpb.New(time.Duration(j+1) * time.Second)}
				if len(w.ws) == 1 && chance(c.Rng, 50) {
					a.ClusterSpecifier = &v3route.RouteAction_Cluster{Cluster: w.names[0]}
				} else {
					a.ClusterSpecifier = &v3route.RouteAction_WeightedClusters{WeightedClusters: w.httpClusters()}
				}
				t.VirtualHosts[0].Routes = append(t.VirtualHosts[0].Routes, &v3route.Route{
					Match:  &v3route.RouteMatch{PathSpecifier: &v3route.RouteMatch_Path{Path: "/p.Svc/" + method}},
					Action: &v3route.Route_Route{Route: a},
				})
			}
			// a route without clusters
			t.VirtualHosts[0].Routes = append(t.VirtualHosts[0].Routes, &v3route.Route{
				Match:  &v3route.RouteMatch{PathSpecifier: &v3route.RouteMatch_Path{Path: "/p.Svc/None"}},
				Action: &v3route.Route_Route{Route: &v3route.RouteAction{ClusterSpecifier: &v3route.RouteAction_WeightedClusters{WeightedClusters: &v3route.WeightedCluster{}}}},
			}, &v3route.Route{
				Match:  &v3route.RouteMatch{PathSpecifier: &v3route.RouteMatch_Prefix{Prefix: "/"}},
				Action: &v3route.Route_Route{Route: &v3route.RouteAction{ClusterSpecifier: &v3route.RouteAction_Cluster{Cluster: "fallback"}}},
			})
			var filters []*v3listener.Filter
			inline := chance(c.Rng, 30)
			if inline {
				filters = append(filters, typedFilter("hcm", mustAny(g.hcm(t, "", 0))))
			} else {
				filters = append(filters, typedFilter("hcm", mustAny(g.hcm(nil, "t", 0))))
			}
			if thrift {
				filters = append(filters, typedFilter("thrift", mustAny(tp)))
			}
			must(m.listener("s", g.listenerOf("s", filters)))
			if !inline {
				must(m.table(t))
			}
			rt := xdssuite.NewXDSRouter()
			none := (&call{dest: "s", pkg: "p", svc: "Svc", method: "None", tp: transport.GRPC}).info()
			if res, err := rt.Route(context.Background(), none); err == nil {
				c.Violate("C09", "arbitrary", "a route without clusters was sent to %q", res.ClusterPicked)
			}
			workers := pick(c.Rng, []int{1, 1, 4})
			per := draws / workers / k
			var mu sync.Mutex
			var wg sync.WaitGroup
			viaMW := chance(c.Rng, 25)
			mw := xdssuite.NewXDSRouterMiddleware()(func(context.Context, interface{}, interface{}) error { return nil })
			if viaMW {
				per /= 3
			}
			for x := 0; x < workers; x++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					defer c.recovered("draws")
					got := make([]map[string]int, k)
					errs := make([]int, k)
					ris := make([]rpcinfo.RPCInfo, k)
					for j := range got {
						got[j] = map[string]int{}
						ris[j] = routes[j].calls[0].info()
					}
					ctx := context.Background()
					for d := 0; d < per; d++ {
						for j := 0; j < k; j++ {
							if viaMW {
								ri := routes[j].calls[0].info()
								if err := mw(rpcinfo.NewCtxWithRPCInfo(ctx, ri), nil, nil); err != nil {
									errs[j]++
								} else {
									tag, _ := ri.To().Tag(xdssuite.RouterClusterKey)
									got[j][tag]++
								}
								continue
							}
							res, err := rt.Route(ctx, ris[j])
							if err != nil {
								errs[j]++
							} else {
								got[j][res.ClusterPicked]++
							}
						}
					}
					mu.Lock()
					defer mu.Unlock()
					for j := range got {
						for n, v := range got[j] {
							routes[j].got[n] += v
						}
						routes[j].errs += errs[j]
						routes[j].n += per
					}
				}()
			}
			wg.Wait()
			for _, w := range routes {
				what := "HTTP route"
				if thrift {
					what = "Thrift route"
				}
				w.check(c, what)
				r.Count("draws", w.n)
				r.Count("vectors", 1)
				if len(w.ws) > 1 {
					vs := append([]uint32(nil), w.ws...)
					sort.Slice(vs, func(a, b int) bool { return vs[a] < vs[b] })
					r.Distinct("nontrivial", fmt.Sprint(thrift, w.ws))
					r.Sample("%s weights %v -> %v", what, w.ws, w.got)
				}
			}
		})
	}
}

// exhaustive small vectors: every vector of up to 3 weights of a small domain.
func smallVectors(r *Run, draws int) {
	dom := []uint32{0, 1, 2, 5, 1 << 31}
	idx := 0
	var rec func(p []uint32)
	rec = func(p []uint32) {
		if len(p) > 0 {
			ws := append([]uint32(nil), p...)
			r.Case("small", idx, func(c *Case) {
				g := &gen{r: c.Rng}
				m := &stubMgr{}
				use(m)
				w := g.wroute(ws, false)
				t := &v3route.RouteConfiguration{Name: "t", VirtualHosts: []*v3route.VirtualHost{{Name: "vh", Routes: []*v3route.Route{{
					Match:  &v3route.RouteMatch{PathSpecifier: &v3route.RouteMatch_Prefix{Prefix: "/"}},
					Action: &v3route.Route_Route{Route: &v3route.RouteAction{ClusterSpecifier: &v3route.RouteAction_WeightedClusters{WeightedClusters: w.httpClusters()}}},
				}}}}}
				must(m.listener("s", &v3listener.Listener{Name: "s", FilterChains: []*v3listener.FilterChain{{Filters: []*v3listener.Filter{typedFilter("hcm", mustAny(g.hcm(nil, "t", 0)))}}}}))
				must(m.table(t))
				rt := xdssuite.NewXDSRouter()
				ri := (&call{dest: "s", svc: "Svc", method: "M", tp: transport.GRPC}).info()
				for d := 0; d < draws; d++ {
					res, err := rt.Route(context.Background(), ri)
					w.n++
					if err != nil {
						w.errs++
					} else {
						w.got[res.ClusterPicked]++
					}
				}
				w.check(c, "HTTP route")
				r.Count("draws", w.n)
				r.Count("vectors", 1)
				r.Distinct("nontrivial", fmt.Sprint(ws))
			})
			idx++
		}
		if len(p) == 3 {
			return
		}
		for _, v := range dom {
			rec(append(p[:len(p):len(p)], v))
		}
	}
	rec(nil)
}

func init() {
	register("C08", func(r *Run) {
		matchCases(r, r.N(32000, 600000))
		matchEndToEnd(r, r.N(800, 8000))
	})
	register("C09", func(r *Run) {
		exactVectors(r, r.N(4, 5), uint32(r.N(6, 8)))
		largeVectors(r, r.N(2400, 20000))
		smallVectors(r, r.N(40000, 1000000))
		weightCases(r, r.N(160, 3000), r.N(300000, 1500000))
	})
}
