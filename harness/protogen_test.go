package harness

import (
	"fmt"
	"math/rand"
	"regexp"
	"sort"
	"strings"
	"time"

	udpatypev1 "github.com/cncf/xds/go/udpa/type/v1"
	v3core "github.com/envoyproxy/go-control-plane/envoy/config/core/v3"
	v3listener "github.com/envoyproxy/go-control-plane/envoy/config/listener/v3"
	v3route "github.com/envoyproxy/go-control-plane/envoy/config/route/v3"
	v3ratelimit "github.com/envoyproxy/go-control-plane/envoy/extensions/filters/http/local_ratelimit/v3"
	v3router "github.com/envoyproxy/go-control-plane/envoy/extensions/filters/http/router/v3"
	v3hcm "github.com/envoyproxy/go-control-plane/envoy/extensions/filters/network/http_connection_manager/v3"
	v3tcp "github.com/envoyproxy/go-control-plane/envoy/extensions/filters/network/tcp_proxy/v3"
	v3thrift "github.com/envoyproxy/go-control-plane/envoy/extensions/filters/network/thrift_proxy/v3"
	v3matcher "github.com/envoyproxy/go-control-plane/envoy/type/matcher/v3"
	v3type "github.com/envoyproxy/go-control-plane/envoy/type/v3"
	"google.golang.org/protobuf/types/known/anypb"
	"google.golang.org/protobuf/types/known/durationpb"
	"google.golang.org/protobuf/types/known/structpb"
)

// Generators of route configurations and listeners, and the reference reading of the protos: the summaries below are
// computed from the protos alone, never through the repository.

var (
	gHeaders  = []string{"k1", "k2", "env", "User-Id", "X-T", "kitex.lane"}
	gValues   = []string{"a", "ab", "abc", "b", "prod", "prod-1", "1", "12", "A", "ab c", "é", "a,b"}
	gRegexes  = []string{"^a.*", "a+", "^prod$", "[0-9]+", "b$", "^(a|b)$", "^prod(-[0-9])?$", ".*", "(?i)^ab", "^$", "x"}
	gPackages = []string{"", "p", "p.q", "org.kitex"}
	gServices = []string{"Svc", "svc", "S2", "p.Svc"}
	gMethods  = []string{"Get", "get", "Set", "GetAll", "M/x", "Ge"}
)

// cond is a header condition as the control plane stated it.
type cond struct{ kind, name, val string }

func (c cond) holds(md map[string]string) bool {
	v, ok := md[c.name]
	if !ok {
		return false
	}
	switch c.kind {
	case "exact":
		return v == c.val
	case "prefix":
		return strings.HasPrefix(v, c.val)
	case "regex":
		ok, err := regexp.MatchString(c.val, v)
		return err == nil && ok
	}
	return false
}

func condsHold(cs []cond, md map[string]string) bool {
	for _, c := range cs {
		if !c.holds(md) {
			return false
		}
	}
	return true
}

// refConds reads the supported conditions; others counts the unsupported ones.
func refConds(hs []*v3route.HeaderMatcher) (cs []cond, others int) {
	for _, h := range hs {
		sm, ok := h.HeaderMatchSpecifier.(*v3route.HeaderMatcher_StringMatch)
		if !ok {
			others++
			continue
		}
		switch p := sm.StringMatch.GetMatchPattern().(type) {
		case *v3matcher.StringMatcher_Exact:
			cs = append(cs, cond{"exact", h.Name, p.Exact})
		case *v3matcher.StringMatcher_Prefix:
			cs = append(cs, cond{"prefix", h.Name, p.Prefix})
		case *v3matcher.StringMatcher_SafeRegex:
			cs = append(cs, cond{"regex", h.Name, p.SafeRegex.GetRegex()})
		default:
			others++
		}
	}
	return
}

type refCluster struct {
	Name   string
	Weight uint32
}

// refRoute is what a route means.
type refRoute struct {
	thrift   bool
	path     string // "exact:<p>", "all", "never"; for Thrift "method:<m>" or "service:<s>"
	conds    []cond
	others   int // unsupported conditions
	single   bool
	clusters []refCluster
	timeout  time.Duration
	retry    string
}

func (r *refRoute) pathHolds(path, method string) bool {
	switch {
	case r.path == "all":
		return true
	case strings.HasPrefix(r.path, "exact:"):
		return r.path[6:] == path
	case strings.HasPrefix(r.path, "method:"):
		return r.path[7:] == "" || r.path[7:] == method
	}
	return false
}

func refHTTPRoute(p *v3route.Route) *refRoute {
	r := &refRoute{path: "never"}
	switch s := p.GetMatch().GetPathSpecifier().(type) {
	case *v3route.RouteMatch_Path:
		r.path = "exact:" + s.Path
	case *v3route.RouteMatch_Prefix:
		if s.Prefix == "/" {
			r.path = "all"
		}
	}
	r.conds, r.others = refConds(p.GetMatch().GetHeaders())
	a := p.GetRoute()
	if a == nil {
		return r
	}
	switch s := a.ClusterSpecifier.(type) {
	case *v3route.RouteAction_Cluster:
		r.single = true
		r.clusters = []refCluster{{s.Cluster, 1}}
	case *v3route.RouteAction_WeightedClusters:
		for _, w := range s.WeightedClusters.GetClusters() {
			r.clusters = append(r.clusters, refCluster{w.Name, w.GetWeight().GetValue()})
		}
	}
	r.timeout = refDur(a.GetTimeout())
	if rp := a.RetryPolicy; rp != nil {
		er, methods := "", []string{}
		for _, h := range rp.RetriableHeaders {
			v := h.GetStringMatch().GetExact()
			if v == "" {
				continue
			}
			switch h.Name {
			case "kitexRetryErrorRate":
				er = v
			case "kitexRetryMethods":
				methods = strings.Split(v, ",")
			}
		}
		bo := "none"
		if b := rp.RetryBackOff; b != nil {
			bo = fmt.Sprintf("%v..%v", refDur(b.BaseInterval), refDur(b.MaxInterval))
		}
		r.retry = retryString(int(rp.GetNumRetries().GetValue()), refDur(rp.PerTryTimeout), refDur(rp.PerTryIdleTimeout), er, methods, bo)
	} else {
		r.retry = retryString(0, 0, 0, "", nil, "none")
	}
	return r
}

func retryString(n int, tmo, idle time.Duration, rate string, methods []string, backoff string) string {
	if rate == "" {
		rate = "0"
	}
	var f float64
	fmt.Sscanf(rate, "%g", &f)
	return fmt.Sprintf("attempts=%d per-try=%v idle=%v rate=%g methods=%q backoff=%s", n, tmo, idle, f, methods, backoff)
}

func refDur(d *durationpb.Duration) time.Duration {
	if d == nil {
		return 0
	}
	return time.Duration(d.Seconds)*time.Second + time.Duration(d.Nanos)
}

func refThriftRoute(p *v3thrift.Route) *refRoute {
	r := &refRoute{thrift: true, path: "method:"}
	switch s := p.GetMatch().GetMatchSpecifier().(type) {
	case *v3thrift.RouteMatch_MethodName:
		r.path = "method:" + s.MethodName
	case *v3thrift.RouteMatch_ServiceName:
		r.path = "service:" + s.ServiceName
	}
	r.conds, r.others = refConds(p.GetMatch().GetHeaders())
	switch s := p.GetRoute().GetClusterSpecifier().(type) {
	case *v3thrift.RouteAction_Cluster:
		r.single = true
		r.clusters = []refCluster{{s.Cluster, 1}}
	case *v3thrift.RouteAction_WeightedClusters:
		for _, w := range s.WeightedClusters.GetClusters() {
			r.clusters = append(r.clusters, refCluster{w.Name, w.GetWeight().GetValue()})
		}
	}
	return r
}

// refVH is a virtual host.
type refVH struct {
	name   string
	routes []*refRoute
}

func refTable(rc *v3route.RouteConfiguration) (vhs []refVH) {
	for _, v := range rc.GetVirtualHosts() {
		h := refVH{name: v.Name}
		for _, rt := range v.Routes {
			h.routes = append(h.routes, refHTTPRoute(rt))
		}
		vhs = append(vhs, h)
	}
	return
}

// refFilter is a network filter of a listener.
type refFilter struct {
	thrift    bool
	port      uint32
	routeName string
	inline    bool
	vhs       []refVH     // inline HTTP table
	routes    []*refRoute // Thrift routes
	hasBucket bool
	maxTokens uint32
	perFill   uint32
}

func anyIs(a *anypb.Any, full string) bool { return a.GetTypeUrl() == "type.googleapis.com/"+full }

// refListenerFilters reads the filters of a listener, in order, the default chain last.
func refListenerFilters(l *v3listener.Listener) (fs []refFilter) {
	chains := append([]*v3listener.FilterChain(nil), l.FilterChains...)
	if l.DefaultFilterChain != nil {
		chains = append(chains, l.DefaultFilterChain)
	}
	for _, fc := range chains {
		port := fc.GetFilterChainMatch().GetDestinationPort().GetValue()
		for _, f := range fc.Filters {
			tc := f.GetTypedConfig()
			switch {
			case anyIs(tc, "envoy.extensions.filters.network.thrift_proxy.v3.ThriftProxy"):
				m := &v3thrift.ThriftProxy{}
				must(tc.UnmarshalTo(m))
				rf := refFilter{thrift: true, port: port, inline: true}
				for _, rt := range m.GetRouteConfig().GetRoutes() {
					rf.routes = append(rf.routes, refThriftRoute(rt))
				}
				fs = append(fs, rf)
			case anyIs(tc, "envoy.extensions.filters.network.http_connection_manager.v3.HttpConnectionManager"):
				m := &v3hcm.HttpConnectionManager{}
				must(tc.UnmarshalTo(m))
				rf := refFilter{port: port}
				switch s := m.RouteSpecifier.(type) {
				case *v3hcm.HttpConnectionManager_Rds:
					rf.routeName = s.Rds.RouteConfigName
				case *v3hcm.HttpConnectionManager_RouteConfig:
					rf.inline, rf.routeName, rf.vhs = true, s.RouteConfig.Name, refTable(s.RouteConfig)
				}
				rf.hasBucket, rf.maxTokens, rf.perFill = refBucket(m)
				fs = append(fs, rf)
			}
		}
	}
	return
}

func refBucket(m *v3hcm.HttpConnectionManager) (bool, uint32, uint32) {
	for _, hf := range m.HttpFilters {
		tc := hf.GetTypedConfig()
		switch {
		case anyIs(tc, "envoy.extensions.filters.http.local_ratelimit.v3.LocalRateLimit"):
			l := &v3ratelimit.LocalRateLimit{}
			must(tc.UnmarshalTo(l))
			if l.TokenBucket != nil {
				return true, l.TokenBucket.MaxTokens, l.TokenBucket.TokensPerFill.GetValue()
			}
		case anyIs(tc, "udpa.type.v1.TypedStruct"):
			s := &udpatypev1.TypedStruct{}
			must(tc.UnmarshalTo(s))
			if b := s.GetValue().GetFields()["token_bucket"].GetStructValue(); b != nil {
				return true, uint32(b.Fields["max_tokens"].GetNumberValue()), uint32(b.Fields["tokens_per_fill"].GetNumberValue())
			}
		}
	}
	return false, 0, 0
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

// ---------------------------------------------------------------- generators

// gen generates protos; uniq makes the clusters of the routes distinguishable.
type gen struct {
	r           *rand.Rand
	n           int
	unsupported bool // also conditions and specifiers the repository does not support
}

func (g *gen) id(p string) string {
	g.n++
	return fmt.Sprintf("%s%d", p, g.n)
}

func (g *gen) dur() *durationpb.Duration {
	switch g.r.Intn(6) {
	case 0:
		return nil
	case 1:
		return durationpb.New(0)
	case 2:
		return durationpb.New(time.Duration(1 + g.r.Int63n(int64(time.Hour))))
	case 3:
		return durationpb.New(time.Duration(1+g.r.Intn(100)) * time.Second)
	}
	return durationpb.New(time.Duration(1+g.r.Intn(5000)) * time.Millisecond)
}

func (g *gen) msdur() *durationpb.Duration {
	if chance(g.r, 30) {
		return durationpb.New(time.Duration(1 + g.r.Int63n(int64(3*time.Second))))
	}
	return durationpb.New(time.Duration(1+g.r.Intn(3000)) * time.Millisecond)
}

func strMatch(name string, m *v3matcher.StringMatcher) *v3route.HeaderMatcher {
	return &v3route.HeaderMatcher{Name: name, HeaderMatchSpecifier: &v3route.HeaderMatcher_StringMatch{StringMatch: m}}
}

func exactM(name, v string) *v3route.HeaderMatcher {
	return strMatch(name, &v3matcher.StringMatcher{MatchPattern: &v3matcher.StringMatcher_Exact{Exact: v}})
}

func prefixM(name, v string) *v3route.HeaderMatcher {
	return strMatch(name, &v3matcher.StringMatcher{MatchPattern: &v3matcher.StringMatcher_Prefix{Prefix: v}})
}

func regexM(name, v string) *v3route.HeaderMatcher {
	rx := &v3matcher.RegexMatcher{Regex: v, EngineType: &v3matcher.RegexMatcher_GoogleRe2{GoogleRe2: &v3matcher.RegexMatcher_GoogleRE2{}}}
	return strMatch(name, &v3matcher.StringMatcher{MatchPattern: &v3matcher.StringMatcher_SafeRegex{SafeRegex: rx}})
}

func (g *gen) header() *v3route.HeaderMatcher {
	r := g.r
	name := pick(r, gHeaders)
	if g.unsupported && chance(r, 12) {
		switch r.Intn(5) {
		case 0:
			return strMatch(name, &v3matcher.StringMatcher{MatchPattern: &v3matcher.StringMatcher_Suffix{Suffix: "b"}})
		case 1:
			return strMatch(name, &v3matcher.StringMatcher{MatchPattern: &v3matcher.StringMatcher_Contains{Contains: "b"}})
		case 2:
			return &v3route.HeaderMatcher{Name: name, HeaderMatchSpecifier: &v3route.HeaderMatcher_PresentMatch{PresentMatch: true}}
		case 3:
			return &v3route.HeaderMatcher{Name: name, HeaderMatchSpecifier: &v3route.HeaderMatcher_RangeMatch{RangeMatch: &v3type.Int64Range{Start: 1, End: 5}}}
		}
		return &v3route.HeaderMatcher{Name: name}
	}
	switch r.Intn(9) {
	case 0, 1, 2, 3:
		return exactM(name, pick(r, gValues))
	case 4, 5:
		v := pick(r, gValues)
		return prefixM(name, strings.ToValidUTF8(v[:1+r.Intn(len(v))], ""))
	case 6:
		if chance(r, 50) {
			return prefixM(name, "")
		}
		return exactM(name, "")
	}
	return regexM(name, pick(r, gRegexes))
}

func (g *gen) headers() (hs []*v3route.HeaderMatcher) {
	n := pick(g.r, []int{0, 0, 0, 1, 1, 1, 2, 2, 3, 4})
	for i := 0; i < n; i++ {
		hs = append(hs, g.header())
	}
	return
}

func (g *gen) path() string {
	pkg, svc, m := pick(g.r, gPackages), pick(g.r, gServices), pick(g.r, gMethods)
	if pkg != "" {
		svc = pkg + "." + svc
	}
	p := "/" + svc + "/" + m
	switch g.r.Intn(20) {
	case 0:
		return p + "/"
	case 1:
		return p[1:]
	case 2:
		return "/" + m
	case 3:
		return "/"
	}
	return p
}

func (g *gen) weight() uint32 {
	switch g.r.Intn(8) {
	case 0:
		return 0
	case 1:
		return 1
	case 2:
		return 100
	case 3:
		return uint32(1) << 31
	case 4:
		return ^uint32(0)
	}
	return uint32(g.r.Intn(1000))
}

// weighted lists n clusters.
func (g *gen) weighted(n int) *v3route.WeightedCluster {
	w := &v3route.WeightedCluster{}
	for i := 0; i < n; i++ {
		cw := &v3route.WeightedCluster_ClusterWeight{Name: g.id("c")}
		if v := g.weight(); v != 0 || chance(g.r, 50) {
			cw.Weight = u32(v)
		}
		w.Clusters = append(w.Clusters, cw)
	}
	return w
}

func (g *gen) retryPolicy() *v3route.RetryPolicy {
	r := g.r
	rp := &v3route.RetryPolicy{RetryOn: pick(r, []string{"", "5xx", "connect-failure,refused-stream"}), PerTryTimeout: g.dur()}
	if chance(r, 85) {
		rp.NumRetries = u32(uint32(r.Intn(6)))
	}
	if chance(r, 30) {
		rp.PerTryIdleTimeout = g.dur()
	}
	if chance(r, 60) {
		bo := &v3route.RetryPolicy_RetryBackOff{BaseInterval: g.msdur()}
		if chance(r, 75) {
			bo.MaxInterval = g.msdur()
		}
		rp.RetryBackOff = bo
	}
	if chance(r, 20) {
		rp.RetriableHeaders = append(rp.RetriableHeaders, exactM("other", "0.9"))
	}
	if chance(r, 50) {
		rp.RetriableHeaders = append(rp.RetriableHeaders, exactM("kitexRetryErrorRate", pick(r, []string{"0.1", "0.05", "0.3", "0.25", "1e-2", "0.5", "0.95", "1", "0.123456789"})))
	}
	if chance(r, 20) {
		rp.RetriableHeaders = append(rp.RetriableHeaders, prefixM("kitexRetryMethods", "Zz"))
	}
	if chance(r, 50) {
		rp.RetriableHeaders = append(rp.RetriableHeaders, exactM("kitexRetryMethods", pick(r, []string{"Get", "Get,Set", "Set,Get,get", "Get;Set", "a.b,c/d", "A,B,C,D,E,F,G,H,I,J"})))
	}
	r.Shuffle(len(rp.RetriableHeaders), func(i, j int) {
		rp.RetriableHeaders[i], rp.RetriableHeaders[j] = rp.RetriableHeaders[j], rp.RetriableHeaders[i]
	})
	if len(rp.RetriableHeaders) > 0 && chance(r, 10) {
		rp.RetriableHeaders = append(rp.RetriableHeaders, &v3route.HeaderMatcher{Name: "kitexRetryMethods"})
	}
	return rp
}

func (g *gen) httpRoute() *v3route.Route {
	r := g.r
	m := &v3route.RouteMatch{Headers: g.headers()}
	switch r.Intn(12) {
	case 0, 1, 2, 3, 4, 5:
		m.PathSpecifier = &v3route.RouteMatch_Path{Path: g.path()}
	case 6, 7, 8:
		m.PathSpecifier = &v3route.RouteMatch_Prefix{Prefix: "/"}
	case 9:
		p := g.path()
		m.PathSpecifier = &v3route.RouteMatch_Prefix{Prefix: p[:1+r.Intn(len(p))]}
	case 10:
		switch r.Intn(4) {
		case 0:
			m.PathSpecifier = &v3route.RouteMatch_SafeRegex{SafeRegex: &v3matcher.RegexMatcher{Regex: ".*"}}
		case 1:
			m.PathSpecifier = &v3route.RouteMatch_PathSeparatedPrefix{PathSeparatedPrefix: "/p.Svc"}
		case 2:
			m.PathSpecifier = &v3route.RouteMatch_ConnectMatcher_{ConnectMatcher: &v3route.RouteMatch_ConnectMatcher{}}
		}
	case 11:
		m.PathSpecifier = &v3route.RouteMatch_Prefix{Prefix: pick(r, []string{"", "//", "/p", "/S"})}
	}
	if m.CaseSensitive == nil && chance(r, 10) {
		m.QueryParameters = nil
	}
	rt := &v3route.Route{Name: g.id("r"), Match: m}
	a := &v3route.RouteAction{Timeout: g.dur()}
	if chance(r, 20) {
		// fields of similar meaning that must not leak in
		a.IdleTimeout = g.msdur()
		a.MaxStreamDuration = &v3route.RouteAction_MaxStreamDuration{MaxStreamDuration: g.msdur(), GrpcTimeoutHeaderMax: g.msdur()}
	}
	switch r.Intn(8) {
	case 0:
		a.ClusterSpecifier = &v3route.RouteAction_WeightedClusters{WeightedClusters: g.weighted(r.Intn(4))}
	case 1:
		// all the weight on one cluster
		w := g.weighted(1 + r.Intn(4))
		for _, c := range w.Clusters {
			c.Weight = u32(0)
		}
		w.Clusters[r.Intn(len(w.Clusters))].Weight = u32(1 + g.weight()/2)
		a.ClusterSpecifier = &v3route.RouteAction_WeightedClusters{WeightedClusters: w}
	case 2:
		if chance(r, 30) {
			a.ClusterSpecifier = &v3route.RouteAction_ClusterHeader{ClusterHeader: "x"}
		} else {
			a.ClusterSpecifier = &v3route.RouteAction_Cluster{Cluster: g.id("c")}
		}
	default:
		a.ClusterSpecifier = &v3route.RouteAction_Cluster{Cluster: g.id("c")}
	}
	if chance(r, 40) {
		a.RetryPolicy = g.retryPolicy()
	}
	rt.Action = &v3route.Route_Route{Route: a}
	if chance(r, 4) {
		rt.Action = &v3route.Route_DirectResponse{DirectResponse: &v3route.DirectResponseAction{Status: 404}}
	}
	return rt
}

func (g *gen) table(name string) *v3route.RouteConfiguration {
	rc := &v3route.RouteConfiguration{Name: name}
	for i, n := 0, pick(g.r, []int{0, 1, 1, 1, 2, 2, 3}); i < n; i++ {
		vh := &v3route.VirtualHost{Name: pick(g.r, []string{g.id("vh"), g.id("vh"), "vh", "allow_any", "block_all", "passthrough", "inbound|http|8080", "svc.ns1.svc.cluster.local:80", ""}), Domains: pick(g.r, [][]string{{"*"}, {"svc.example.com"}, nil, {"a", "b:80"}})}
		for j, k := 0, g.r.Intn(6); j < k; j++ {
			vh.Routes = append(vh.Routes, g.httpRoute())
		}
		rc.VirtualHosts = append(rc.VirtualHosts, vh)
	}
	return rc
}

func (g *gen) thriftRoute(service bool) *v3thrift.Route {
	r := g.r
	m := &v3thrift.RouteMatch{Headers: g.headers()}
	switch {
	case service && chance(r, 20):
		m.MatchSpecifier = &v3thrift.RouteMatch_ServiceName{ServiceName: pick(r, gServices)}
	case chance(r, 25):
		m.MatchSpecifier = &v3thrift.RouteMatch_MethodName{MethodName: ""}
	default:
		m.MatchSpecifier = &v3thrift.RouteMatch_MethodName{MethodName: pick(r, gMethods)}
	}
	a := &v3thrift.RouteAction{}
	switch r.Intn(5) {
	case 0:
		w := &v3thrift.WeightedCluster{}
		for _, c := range g.weighted(r.Intn(4)).Clusters {
			w.Clusters = append(w.Clusters, &v3thrift.WeightedCluster_ClusterWeight{Name: c.Name, Weight: c.Weight})
		}
		a.ClusterSpecifier = &v3thrift.RouteAction_WeightedClusters{WeightedClusters: w}
	default:
		a.ClusterSpecifier = &v3thrift.RouteAction_Cluster{Cluster: g.id("tc")}
	}
	return &v3thrift.Route{Match: m, Route: a}
}

func (g *gen) thriftFilter(service bool) *v3listener.Filter {
	tp := &v3thrift.ThriftProxy{StatPrefix: "t"}
	if chance(g.r, 93) {
		tp.RouteConfig = &v3thrift.RouteConfiguration{Name: "tr"}
		for i, n := 0, g.r.Intn(5); i < n; i++ {
			tp.RouteConfig.Routes = append(tp.RouteConfig.Routes, g.thriftRoute(service))
		}
	}
	return typedFilter("thrift", mustAny(tp))
}

func typedFilter(name string, a *anypb.Any) *v3listener.Filter {
	return &v3listener.Filter{Name: name, ConfigType: &v3listener.Filter_TypedConfig{TypedConfig: a}}
}

func typedHTTPFilter(name string, a *anypb.Any) *v3hcm.HttpFilter {
	return &v3hcm.HttpFilter{Name: name, ConfigType: &v3hcm.HttpFilter_TypedConfig{TypedConfig: a}}
}

func bucketFilter(max, fill uint32, asStruct bool) *v3hcm.HttpFilter {
	if asStruct {
		st := &structpb.Struct{Fields: map[string]*structpb.Value{
			"stat_prefix": structpb.NewStringValue("http_local_rate_limiter"),
			"token_bucket": structpb.NewStructValue(&structpb.Struct{Fields: map[string]*structpb.Value{
				"max_tokens":      structpb.NewNumberValue(float64(max)),
				"tokens_per_fill": structpb.NewNumberValue(float64(fill)),
				"fill_interval":   structpb.NewStringValue("1s"),
			}}),
		}}
		return typedHTTPFilter("envoy.filters.http.local_ratelimit", mustAny(&udpatypev1.TypedStruct{
			TypeUrl: "type.googleapis.com/envoy.extensions.filters.http.local_ratelimit.v3.LocalRateLimit", Value: st,
		}))
	}
	return typedHTTPFilter("envoy.filters.http.local_ratelimit", mustAny(&v3ratelimit.LocalRateLimit{
		StatPrefix:  "http_local_rate_limiter",
		TokenBucket: &v3type.TokenBucket{MaxTokens: max, TokensPerFill: u32(fill), FillInterval: durationpb.New(time.Second)},
	}))
}

// noiseHTTPFilter has nothing to do with rate limits.
func (g *gen) noiseHTTPFilter() *v3hcm.HttpFilter {
	switch g.r.Intn(6) {
	case 0:
		return typedHTTPFilter("router", mustAny(&v3router.Router{}))
	case 1:
		return typedHTTPFilter("stats", mustAny(&udpatypev1.TypedStruct{
			TypeUrl: "type.googleapis.com/stats.PluginConfig",
			Value:   &structpb.Struct{Fields: map[string]*structpb.Value{"max_tokens": structpb.NewNumberValue(7)}},
		}))
	case 2:
		return &v3hcm.HttpFilter{Name: "discovered", ConfigType: &v3hcm.HttpFilter_ConfigDiscovery{ConfigDiscovery: &v3core.ExtensionConfigSource{}}}
	case 3:
		return &v3hcm.HttpFilter{Name: "empty"}
	case 4:
		// a limiter without bucket
		return typedHTTPFilter("envoy.filters.http.local_ratelimit", mustAny(&v3ratelimit.LocalRateLimit{StatPrefix: "x"}))
	}
	return typedHTTPFilter("unknown", &anypb.Any{TypeUrl: "type.googleapis.com/unknown.Filter", Value: []byte{1, 2, 3}})
}

// hcm builds an HTTP connection manager; withBucket: 0 no bucket, 1 maybe, 2 always.
func (g *gen) hcm(inlineTable *v3route.RouteConfiguration, rdsName string, withBucket int) *v3hcm.HttpConnectionManager {
	r := g.r
	m := &v3hcm.HttpConnectionManager{StatPrefix: "h"}
	if inlineTable != nil {
		m.RouteSpecifier = &v3hcm.HttpConnectionManager_RouteConfig{RouteConfig: inlineTable}
	} else {
		m.RouteSpecifier = &v3hcm.HttpConnectionManager_Rds{Rds: &v3hcm.Rds{RouteConfigName: rdsName}}
	}
	for i, n := 0, r.Intn(4); i < n; i++ {
		m.HttpFilters = append(m.HttpFilters, g.noiseHTTPFilter())
	}
	if withBucket == 2 || withBucket == 1 && chance(r, 50) {
		f := bucketFilter(uint32(r.Intn(1000)), pick(r, []uint32{0, 1, 10, 100, 5000, uint32(r.Intn(1 << 20))}), chance(r, 40))
		i := r.Intn(len(m.HttpFilters) + 1)
		m.HttpFilters = append(m.HttpFilters[:i], append([]*v3hcm.HttpFilter{f}, m.HttpFilters[i:]...)...)
	}
	return m
}

func (g *gen) noiseFilter() *v3listener.Filter {
	switch g.r.Intn(4) {
	case 0:
		return typedFilter("tcp", mustAny(&v3tcp.TcpProxy{StatPrefix: "t"}))
	case 1:
		return typedFilter("unknown", &anypb.Any{TypeUrl: "type.googleapis.com/unknown.NetworkFilter", Value: []byte{0xff, 1}})
	case 2:
		return &v3listener.Filter{Name: "none"}
	}
	return &v3listener.Filter{Name: "discovered", ConfigType: &v3listener.Filter_ConfigDiscovery{ConfigDiscovery: &v3core.ExtensionConfigSource{}}}
}

func (g *gen) chainMatch() *v3listener.FilterChainMatch {
	switch g.r.Intn(4) {
	case 0:
		return nil
	case 1:
		return &v3listener.FilterChainMatch{TransportProtocol: "raw_buffer"}
	}
	return &v3listener.FilterChainMatch{DestinationPort: u32(uint32(g.r.Intn(65536)))}
}

// listenerOf spreads the filters over chains (and the default chain), among filters of other kinds.
func (g *gen) listenerOf(name string, filters []*v3listener.Filter) *v3listener.Listener {
	r := g.r
	l := &v3listener.Listener{Name: name}
	n := 1 + r.Intn(3)
	chains := make([]*v3listener.FilterChain, n)
	for i := range chains {
		chains[i] = &v3listener.FilterChain{Name: fmt.Sprint("chain", i), FilterChainMatch: g.chainMatch()}
	}
	at := make([]int, len(filters))
	for i := range filters {
		at[i] = r.Intn(n)
	}
	sort.Ints(at)
	for i, f := range filters {
		c := chains[at[i]]
		if chance(r, 25) {
			c.Filters = append(c.Filters, g.noiseFilter())
		}
		c.Filters = append(c.Filters, f)
	}
	if chance(r, 25) {
		chains[n-1].Filters = append(chains[n-1].Filters, g.noiseFilter())
	}
	if chance(r, 40) {
		l.DefaultFilterChain = chains[n-1]
		chains = chains[:n-1]
	}
	l.FilterChains = chains
	return l
}
