package harness

import (
	"fmt"
	"math/rand"
	"net"
	"strconv"
	"strings"

	v3cluster "github.com/envoyproxy/go-control-plane/envoy/config/cluster/v3"
	v3core "github.com/envoyproxy/go-control-plane/envoy/config/core/v3"
	v3endpoint "github.com/envoyproxy/go-control-plane/envoy/config/endpoint/v3"
	v3listener "github.com/envoyproxy/go-control-plane/envoy/config/listener/v3"
	v3route "github.com/envoyproxy/go-control-plane/envoy/config/route/v3"
	"google.golang.org/protobuf/types/known/anypb"

	dnsProto "github.com/kitex-contrib/xds/core/api/kitex_gen/istio.io/istio/pkg/dns/proto/istio_networking_nds_v1"
	"github.com/kitex-contrib/xds/core/xdsresource"
)

// candidates are the values tried for a header carrying conditions.
func candidates(cs []cond) []string {
	out := append([]string{""}, gValues...)
	for _, c := range cs {
		if c.kind != "regex" {
			out = append(out, c.val, c.val+"x", "x"+c.val, strings.ToUpper(c.val))
			if len(c.val) > 0 {
				out = append(out, c.val[:len(c.val)-1])
			}
		}
	}
	return out
}

// satisfy builds metadata that meets all the conditions if one of the candidates does, nil otherwise.
func satisfy(r *rand.Rand, cs []cond) map[string]string {
	by := map[string][]cond{}
	for _, c := range cs {
		by[c.name] = append(by[c.name], c)
	}
	md := map[string]string{}
	for _, n := range sortedKeys(by) {
		ok := []string{}
		for _, v := range candidates(by[n]) {
			if condsHold(by[n], map[string]string{n: v}) {
				ok = append(ok, v)
			}
		}
		if len(ok) == 0 {
			return nil
		}
		md[n] = pick(r, ok)
	}
	return md
}

// probes are metadata around the conditions: all hold, one violated, one absent, random.
func probes(r *rand.Rand, cs []cond) (out []map[string]string) {
	clone := func(m map[string]string) map[string]string {
		c := map[string]string{}
		for k, v := range m {
			c[k] = v
		}
		return c
	}
	out = append(out, nil, map[string]string{})
	base := satisfy(r, cs)
	if base != nil {
		out = append(out, base)
		extra := clone(base)
		extra["unrelated"] = "z"
		out = append(out, extra)
		for _, k := range sortedKeys(base) {
			m := clone(base)
			delete(m, k)
			out = append(out, m)
			m = clone(base)
			delete(m, k)
			m[strings.ToUpper(k)] = base[k]
			out = append(out, m)
			for i := 0; i < 4; i++ {
				m = clone(base)
				m[k] = pick(r, candidates(cs))
				out = append(out, m)
			}
		}
	}
	for i := 0; i < 3; i++ {
		out = append(out, randMD(r))
	}
	return
}

func randMD(r *rand.Rand) map[string]string {
	m := map[string]string{}
	for _, h := range gHeaders {
		if chance(r, 45) {
			m[h] = pick(r, gValues)
		}
	}
	return m
}

// cmpRoute compares a decoded route with its reference, "" when they agree.
func cmpRoute(r *rand.Rand, d *xdsresource.Route, ref *refRoute, nprobe *int) string {
	if d == nil {
		return "the route is nil"
	}
	if d.Match == nil {
		return "the route has no match"
	}
	if !ref.thrift {
		paths := []string{"/", "/x", "//", "/p.Svc/Get"}
		if strings.HasPrefix(ref.path, "exact:") {
			p := ref.path[6:]
			paths = append(paths, p, p+"/", p+"x", strings.ToLower(p), "/"+p)
			if len(p) > 1 {
				paths = append(paths, p[:len(p)-1])
			}
		}
		for _, p := range paths {
			*nprobe++
			if got, want := d.Match.MatchPath(p), ref.pathHolds(p, ""); got != want {
				return fmt.Sprintf("path condition %q: MatchPath(%q) = %v", ref.path, p, got)
			}
		}
	} else if strings.HasPrefix(ref.path, "method:") {
		for _, m := range append([]string{ref.path[7:] + "x", "y" + ref.path[7:], ref.path[7:]}, gMethods...) {
			if m == "" {
				continue
			}
			*nprobe++
			if got, want := d.Match.MatchPath(m), ref.pathHolds("", m); got != want {
				return fmt.Sprintf("method condition %q: MatchPath(%q) = %v", ref.path, m, got)
			}
		}
	} else if tm, ok := d.Match.(*xdsresource.ThriftRouteMatch); ok && tm.ServiceName != ref.path[8:] {
		return fmt.Sprintf("service condition %q decoded as %q", ref.path, tm.ServiceName)
	}
	for _, md := range probes(r, ref.conds) {
		*nprobe++
		got, want := d.Match.MatchMeta(md), condsHold(ref.conds, md)
		if got == want || ref.others > 0 && want {
			continue
		}
		return fmt.Sprintf("header conditions %v: MatchMeta(%q) = %v", ref.conds, md, got)
	}
	var cl []string
	for _, wc := range d.WeightedClusters {
		if wc == nil {
			return "nil weighted cluster"
		}
		w := wc.Weight
		if ref.single {
			w = 1
		}
		cl = append(cl, fmt.Sprintf("%s=%d", wc.Name, w))
	}
	var want []string
	for _, c := range ref.clusters {
		want = append(want, fmt.Sprintf("%s=%d", c.Name, c.Weight))
	}
	if strings.Join(cl, " ") != strings.Join(want, " ") {
		return fmt.Sprintf("clusters %v, expected %v", cl, want)
	}
	if ref.thrift {
		return ""
	}
	if ref.retry == "" {
		return "" // the action is not a route
	}
	if d.Timeout != ref.timeout {
		return fmt.Sprintf("timeout %v, expected %v", d.Timeout, ref.timeout)
	}
	bo := "none"
	if b := d.RetryPolicy.RetryBackOff; b != nil {
		bo = fmt.Sprintf("%v..%v", b.BaseInterval, b.MaxInterval)
	}
	rp := d.RetryPolicy
	if got := retryString(rp.NumRetries, rp.PerTryTimeout, rp.PerTryIdleTimeout, fmt.Sprint(rp.CBErrorRate), rp.Methods, bo); got != ref.retry {
		return fmt.Sprintf("retry policy %s, expected %s", got, ref.retry)
	}
	return ""
}

func cmpVHs(r *rand.Rand, rc *xdsresource.RouteConfigResource, ref []refVH, np *int) string {
	var vhs []*xdsresource.VirtualHost
	if rc != nil && rc.HTTPRouteConfig != nil {
		vhs = rc.HTTPRouteConfig.VirtualHosts
	}
	if len(vhs) != len(ref) {
		return fmt.Sprintf("%d virtual hosts, expected %d", len(vhs), len(ref))
	}
	for i, v := range vhs {
		if v == nil {
			return "nil virtual host"
		}
		if v.Name != ref[i].name {
			return fmt.Sprintf("virtual host %d is %q, expected %q", i, v.Name, ref[i].name)
		}
		if len(v.Routes) != len(ref[i].routes) {
			return fmt.Sprintf("virtual host %q has %d routes, expected %d", v.Name, len(v.Routes), len(ref[i].routes))
		}
		for j, rt := range v.Routes {
			if e := cmpRoute(r, rt, ref[i].routes[j], np); e != "" {
				return fmt.Sprintf("virtual host %q route %d: %s", v.Name, j, e)
			}
		}
	}
	return ""
}

func cmpListener(r *rand.Rand, d *xdsresource.ListenerResource, ref []refFilter, np *int) string {
	if d == nil {
		return "nil listener"
	}
	if len(d.NetworkFilters) != len(ref) {
		return fmt.Sprintf("%d filters, expected %d", len(d.NetworkFilters), len(ref))
	}
	for i, f := range d.NetworkFilters {
		w := ref[i]
		at := fmt.Sprintf("filter %d: ", i)
		if f == nil {
			return at + "nil"
		}
		if thrift := f.FilterType == xdsresource.NetworkFilterTypeThrift; thrift != w.thrift {
			return at + fmt.Sprintf("thrift=%v", thrift)
		}
		if f.RoutePort != w.port {
			return at + fmt.Sprintf("destination port %d, expected %d", f.RoutePort, w.port)
		}
		var max, fill uint32
		if f.InlineRouteConfig != nil {
			max, fill = f.InlineRouteConfig.MaxTokens, f.InlineRouteConfig.TokensPerFill
		}
		if w.thrift {
			var rs []*xdsresource.Route
			if f.InlineRouteConfig != nil && f.InlineRouteConfig.ThriftRouteConfig != nil {
				rs = f.InlineRouteConfig.ThriftRouteConfig.Routes
			}
			if len(rs) != len(w.routes) {
				return at + fmt.Sprintf("%d Thrift routes, expected %d", len(rs), len(w.routes))
			}
			for j, rt := range rs {
				if e := cmpRoute(r, rt, w.routes[j], np); e != "" {
					return at + fmt.Sprintf("Thrift route %d: %s", j, e)
				}
			}
			continue
		}
		if max != w.maxTokens || fill != w.perFill {
			return at + fmt.Sprintf("bucket max=%d fill=%d, expected max=%d fill=%d", max, fill, w.maxTokens, w.perFill)
		}
		if f.RouteConfigName != w.routeName {
			return at + fmt.Sprintf("route table %q, expected %q", f.RouteConfigName, w.routeName)
		}
		if e := cmpVHs(r, f.InlineRouteConfig, w.vhs, np); e != "" {
			return at + e
		}
	}
	return ""
}

func keysOf[V any](m map[string]V) string { return fmt.Sprintf("%q", sortedKeys(m)) }

// pname yields names of resources of different shapes.
func pname(r *rand.Rand, i int) string {
	switch r.Intn(5) {
	case 0:
		return fmt.Sprintf("outbound|80||svc%d.default.svc.cluster.local", i)
	case 1:
		return fmt.Sprintf("10.0.0.%d_80", i)
	case 2:
		return fmt.Sprintf("Name %d é", i)
	case 3:
		return fmt.Sprintf("%d", i)
	}
	return fmt.Sprintf("inbound|%d||", i)
}

func decodeRouteCases(r *Run, n int) {
	for i := 0; i < n; i++ {
		r.Case("rds", i, func(c *Case) {
			g := &gen{r: c.Rng, unsupported: chance(c.Rng, 30)}
			var raw []*anypb.Any
			ref := map[string][]refVH{}
			routes, np := 0, 0
			for j, k := 0, c.Rng.Intn(4); j <= k; j++ {
				name := pname(c.Rng, j)
				if _, dup := ref[name]; dup {
					continue
				}
				t := g.table(name)
				ref[name] = refTable(t)
				for _, v := range t.VirtualHosts {
					routes += len(v.Routes)
				}
				raw = append(raw, mustAny(t))
				c.Logf("%v", t)
			}
			got, err := xdsresource.UnmarshalRDS(raw)
			if err != nil {
				c.Violate("C11", "rejected", "well-formed route tables rejected: %v", err)
				c.Violate("C13", "rejected", "well-formed route tables rejected: %v", err)
				return
			}
			if keysOf(got) != keysOf(ref) {
				c.Violate("C11", "names", "decoded tables %s, expected %s", keysOf(got), keysOf(ref))
				return
			}
			for _, name := range sortedKeys(ref) {
				rc, ok := got[name].(*xdsresource.RouteConfigResource)
				if !ok || rc == nil {
					c.Violate("C11", "kind", "table %q decoded as %T", name, got[name])
					continue
				}
				if e := cmpVHs(c.Rng, rc, ref[name], &np); e != "" {
					c.Violate("C11", "route", "table %q: %s", name, e)
				}
			}
			r.Count("routes_compared", routes)
			r.Count("match_probes", np)
			if routes > 0 {
				r.Distinct("nontrivial", fmt.Sprint("rds", raw))
				r.Sample("rds %v", raw[0])
			}
		})
	}
}

func decodeListenerCases(r *Run, n int) {
	for i := 0; i < n; i++ {
		r.Case("lds", i, func(c *Case) {
			g := &gen{r: c.Rng, unsupported: chance(c.Rng, 30)}
			var raw []*anypb.Any
			ref := map[string][]refFilter{}
			nf, np := 0, 0
			for j, k := 0, c.Rng.Intn(4); j <= k; j++ {
				name := pname(c.Rng, j)
				if _, dup := ref[name]; dup {
					continue
				}
				l := g.listenerOf(name, g.filters(c.Rng.Intn(5)))
				ref[name] = refListenerFilters(l)
				nf += len(ref[name])
				raw = append(raw, mustAny(l))
				c.Logf("%v", l)
			}
			got, err := xdsresource.UnmarshalLDS(raw)
			if err != nil {
				c.Violate("C11", "rejected", "well-formed listeners rejected: %v", err)
				return
			}
			if keysOf(got) != keysOf(ref) {
				c.Violate("C11", "names", "decoded listeners %s, expected %s", keysOf(got), keysOf(ref))
				return
			}
			for _, name := range sortedKeys(ref) {
				if e := cmpListener(c.Rng, got[name], ref[name], &np); e != "" {
					c.Violate("C11", "listener", "listener %q: %s", name, e)
				}
			}
			r.Count("filters_compared", nf)
			r.Count("match_probes", np)
			if nf > 0 {
				r.Distinct("nontrivial", fmt.Sprint("lds", raw))
				r.Sample("lds %v", raw[0])
			}
		})
	}
}

// filters generates n network filters the repository reads.
func (g *gen) filters(n int) (fs []*v3listener.Filter) {
	for i := 0; i < n; i++ {
		switch g.r.Intn(3) {
		case 0:
			fs = append(fs, g.thriftFilter(true))
		case 1:
			var rc *v3route.RouteConfiguration = g.table(g.id("inline"))
			if chance(g.r, 20) {
				rc.Name = ""
			}
			fs = append(fs, typedFilter("hcm", mustAny(g.hcm(rc, "", 1))))
		default:
			fs = append(fs, typedFilter("hcm", mustAny(g.hcm(nil, g.id("rds"), 1))))
		}
	}
	return
}

// ---------------------------------------------------------------- C12

func (g *gen) addr() string {
	return pick(g.r, []string{"10.0.0.1", "127.0.0.1", "192.168.255.254", "::1", "2001:db8::7", "host.example.com", "10.0.0." + strconv.Itoa(g.r.Intn(256))})
}

func (g *gen) endpoint() *v3endpoint.LbEndpoint {
	port := pick(g.r, []uint32{0, 1, 80, 8080, 65535, uint32(g.r.Intn(65536))})
	ep := mkEndpoint(g.addr(), port, 0)
	switch g.r.Intn(5) {
	case 0:
		ep.LoadBalancingWeight = u32(0)
	case 1:
		ep.LoadBalancingWeight = u32(uint32(g.r.Intn(1 << 30)))
	case 2, 3:
		ep.LoadBalancingWeight = u32(uint32(1 + g.r.Intn(200)))
	}
	if chance(g.r, 20) {
		ep.HealthStatus = v3core.HealthStatus_HEALTHY
	} else if chance(g.r, 25) {
		// the client keeps every endpoint listed, whatever the health reported
		ep.HealthStatus = v3core.HealthStatus(g.r.Intn(6))
	}
	return ep
}

func (g *gen) cla(name string, minLoc int) *v3endpoint.ClusterLoadAssignment {
	cla := &v3endpoint.ClusterLoadAssignment{ClusterName: name}
	for i, n := 0, minLoc+g.r.Intn(4); i < n; i++ {
		le := &v3endpoint.LocalityLbEndpoints{Priority: uint32(g.r.Intn(3)), Locality: &v3core.Locality{Zone: fmt.Sprint("z", g.r.Intn(3))}}
		if chance(g.r, 30) {
			le.LoadBalancingWeight = u32(uint32(1 + g.r.Intn(100)))
		}
		k := g.r.Intn(5)
		if chance(g.r, 3) {
			k = 60
		}
		for j := 0; j < k; j++ {
			le.LbEndpoints = append(le.LbEndpoints, g.endpoint())
		}
		cla.Endpoints = append(cla.Endpoints, le)
	}
	return cla
}

// refCLA renders the localities of a load assignment.
func refCLA(cla *v3endpoint.ClusterLoadAssignment) (out []string) {
	for i, le := range cla.GetEndpoints() {
		for _, ep := range le.LbEndpoints {
			sa := ep.GetEndpoint().GetAddress().GetSocketAddress()
			a := sa.GetAddress()
			if strings.Contains(a, ":") {
				a = "[" + a + "]"
			}
			out = append(out, fmt.Sprintf("%d tcp %s:%d w=%d", i, a, sa.GetPortValue(), ep.GetLoadBalancingWeight().GetValue()))
		}
		if len(le.LbEndpoints) == 0 {
			out = append(out, fmt.Sprintf("%d empty", i))
		}
	}
	return
}

func sumEndpoints(d *xdsresource.EndpointsResource) (out []string) {
	if d == nil {
		return nil
	}
	for i, l := range d.Localities {
		if l == nil || len(l.Endpoints) == 0 {
			out = append(out, fmt.Sprintf("%d empty", i))
			continue
		}
		for _, e := range l.Endpoints {
			if e == nil || e.Addr() == nil {
				out = append(out, fmt.Sprintf("%d nil", i))
				continue
			}
			out = append(out, fmt.Sprintf("%d %s %s w=%d", i, e.Addr().Network(), e.Addr().String(), e.Weight()))
		}
	}
	return
}

func sameStrings(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func (g *gen) cluster(name string) *v3cluster.Cluster {
	r := g.r
	cl := &v3cluster.Cluster{Name: name}
	cl.ClusterDiscoveryType = &v3cluster.Cluster_Type{Type: pick(r, []v3cluster.Cluster_DiscoveryType{v3cluster.Cluster_EDS, v3cluster.Cluster_EDS, v3cluster.Cluster_STATIC, v3cluster.Cluster_LOGICAL_DNS})}
	cl.LbPolicy = pick(r, []v3cluster.Cluster_LbPolicy{v3cluster.Cluster_ROUND_ROBIN, v3cluster.Cluster_RING_HASH})
	// types and policies the client has no value for: what they become is not specified, the rest of the cluster is
	if chance(r, 8) {
		cl.ClusterDiscoveryType = &v3cluster.Cluster_Type{Type: pick(r, []v3cluster.Cluster_DiscoveryType{v3cluster.Cluster_STRICT_DNS, v3cluster.Cluster_ORIGINAL_DST})}
	} else if chance(r, 4) {
		cl.ClusterDiscoveryType = &v3cluster.Cluster_ClusterType{ClusterType: &v3cluster.Cluster_CustomClusterType{Name: "envoy.clusters.dynamic_forward_proxy"}}
	}
	if chance(r, 8) {
		cl.LbPolicy = pick(r, []v3cluster.Cluster_LbPolicy{v3cluster.Cluster_LEAST_REQUEST, v3cluster.Cluster_RANDOM, v3cluster.Cluster_MAGLEV, v3cluster.Cluster_CLUSTER_PROVIDED})
	}
	switch r.Intn(4) {
	case 0:
	case 1:
		cl.EdsClusterConfig = &v3cluster.Cluster_EdsClusterConfig{}
	default:
		cl.EdsClusterConfig = &v3cluster.Cluster_EdsClusterConfig{ServiceName: g.id("eds")}
	}
	if chance(r, 60) {
		cl.OutlierDetection = g.outlier()
	}
	if chance(r, 40) {
		cl.LoadAssignment = g.cla(pick(r, []string{name, "", "other"}), r.Intn(2))
	}
	return cl
}

func (g *gen) outlier() *v3cluster.OutlierDetection {
	r := g.r
	o := &v3cluster.OutlierDetection{}
	if chance(r, 85) {
		o.FailurePercentageThreshold = u32(pick(r, []uint32{0, 1, 10, 33, 50, 99, 100, 101, 255, 256, 1 << 31}))
	}
	if chance(r, 85) {
		o.FailurePercentageRequestVolume = u32(pick(r, []uint32{0, 1, 5, 50, 1000, 1 << 31}))
	}
	if chance(r, 30) {
		// fields of similar meaning that must not leak in
		o.SuccessRateRequestVolume = u32(77)
		o.EnforcingFailurePercentage = u32(66)
		o.FailurePercentageMinimumHosts = u32(55)
		o.Consecutive_5Xx = u32(44)
	}
	return o
}

func decodeClusterCases(r *Run, n int) {
	for i := 0; i < n; i++ {
		r.Case("cds", i, func(c *Case) {
			g := &gen{r: c.Rng}
			var raw []*anypb.Any
			ref := map[string]*v3cluster.Cluster{}
			for j, k := 0, pick(c.Rng, []int{0, 1, 2, 3, 6, 40}); j <= k; j++ {
				name := pname(c.Rng, j)
				if ref[name] == nil {
					ref[name] = g.cluster(name)
					raw = append(raw, mustAny(ref[name]))
				}
			}
			got, err := xdsresource.UnmarshalCDS(raw)
			if err != nil {
				c.Violate("C12", "rejected", "well-formed clusters rejected: %v", err)
				return
			}
			if keysOf(got) != keysOf(ref) {
				c.Violate("C12", "names", "decoded clusters %s, expected %s", keysOf(got), keysOf(ref))
				return
			}
			for _, name := range sortedKeys(ref) {
				p := ref[name]
				d, ok := got[name].(*xdsresource.ClusterResource)
				if !ok || d == nil {
					c.Violate("C12", "kind", "cluster %q decoded as %T", name, got[name])
					continue
				}
				want := map[v3cluster.Cluster_DiscoveryType]string{v3cluster.Cluster_EDS: "EDS", v3cluster.Cluster_STATIC: "Static", v3cluster.Cluster_LOGICAL_DNS: "LOGICAL_DNS"}[p.GetType()]
				if _, custom := p.ClusterDiscoveryType.(*v3cluster.Cluster_ClusterType); want != "" && !custom && d.DiscoveryType.String() != want {
					c.Violate("C12", "discovery-type", "cluster %q: discovery type %v, expected %s", name, d.DiscoveryType, want)
				}
				want = map[v3cluster.Cluster_LbPolicy]string{v3cluster.Cluster_ROUND_ROBIN: "roundrobin", v3cluster.Cluster_RING_HASH: "ringhash"}[p.LbPolicy]
				if want != "" && d.LbPolicy.String() != want {
					c.Violate("C12", "lb-policy", "cluster %q: policy %v, expected %s", name, d.LbPolicy, want)
				}
				want = p.GetEdsClusterConfig().GetServiceName()
				if want == "" {
					want = name
				}
				if d.EndpointName != want {
					c.Violate("C12", "eds-name", "cluster %q: EDS name %q, expected %q", name, d.EndpointName, want)
				}
				if (d.OutlierDetection != nil) != (p.OutlierDetection != nil) {
					c.Violate("C12", "outlier", "cluster %q: outlier detection %v, expected %v", name, d.OutlierDetection, p.OutlierDetection)
				} else if o := d.OutlierDetection; o != nil {
					if o.FailurePercentageThreshold != p.OutlierDetection.FailurePercentageThreshold.GetValue() || o.FailurePercentageRequestVolume != p.OutlierDetection.FailurePercentageRequestVolume.GetValue() {
						c.Violate("C12", "outlier", "cluster %q: outlier detection %v, expected %v", name, o, p.OutlierDetection)
					}
				}
				if a, b := sumEndpoints(d.InlineEndpoints), refCLA(p.LoadAssignment); !sameStrings(a, b) {
					c.Violate("C12", "inline", "cluster %q: inline endpoints %q, expected %q", name, a, b)
				}
			}
			r.Count("clusters_compared", len(ref))
			r.Distinct("nontrivial", fmt.Sprint("cds", raw))
			r.Sample("cds %v", raw[0])
		})
	}
}

func decodeEndpointCases(r *Run, n int) {
	for i := 0; i < n; i++ {
		r.Case("eds", i, func(c *Case) {
			g := &gen{r: c.Rng}
			var raw []*anypb.Any
			ref := map[string]*v3endpoint.ClusterLoadAssignment{}
			ne := 0
			for j, k := 0, pick(c.Rng, []int{0, 1, 2, 3, 6, 40}); j <= k; j++ {
				name := pname(c.Rng, j)
				if ref[name] == nil {
					ref[name] = g.cla(name, 0)
					raw = append(raw, mustAny(ref[name]))
				}
			}
			got, err := xdsresource.UnmarshalEDS(raw)
			if err != nil {
				c.Violate("C12", "rejected", "well-formed load assignments rejected: %v", err)
				return
			}
			if keysOf(got) != keysOf(ref) {
				c.Violate("C12", "names", "decoded load assignments %s, expected %s", keysOf(got), keysOf(ref))
				return
			}
			for _, name := range sortedKeys(ref) {
				d, ok := got[name].(*xdsresource.EndpointsResource)
				if !ok {
					c.Violate("C12", "kind", "load assignment %q decoded as %T", name, got[name])
					continue
				}
				a, b := sumEndpoints(d), refCLA(ref[name])
				ne += len(b)
				if !sameStrings(a, b) {
					c.Violate("C12", "endpoints", "load assignment %q: %q, expected %q", name, a, b)
				}
			}
			r.Count("endpoints_compared", ne)
			if ne > 0 {
				r.Distinct("nontrivial", fmt.Sprint("eds", raw))
				r.Sample("eds %v", raw[0])
			}
		})
	}
}

func (g *gen) nameTables() ([]*dnsProto.NameTable, map[string][]string) {
	r := g.r
	ref := map[string][]string{}
	var nts []*dnsProto.NameTable
	for i, n := 0, 1+r.Intn(4); i < n; i++ {
		nt := &dnsProto.NameTable{Table: map[string]*dnsProto.NameTable_NameInfo{}}
		for j, k := 0, r.Intn(8); j < k; j++ {
			h := g.id(pick(r, []string{"svc", "Svc", "www.example", "a.b.c"})) + pick(r, []string{"", ".ns1.svc.cluster.local", ".com", ".", ".ns1.svc.cluster.local."})
			ips := []string{}
			most := 5
			if chance(r, 5) {
				most = 60 // a headless service
			}
			for x, y := 0, r.Intn(most); x < y; x++ {
				if chance(r, 10) {
					ips = append(ips, fmt.Sprintf("fd00::%x:%x", r.Intn(1<<16), r.Intn(1<<16)))
					continue
				}
				ips = append(ips, net.IPv4(10, byte(r.Intn(4)), 0, byte(r.Intn(256))).String())
			}
			nt.Table[h] = &dnsProto.NameTable_NameInfo{Ips: ips, Registry: "Kubernetes", Shortname: "s", Namespace: "n"}
			ref[strings.ToLower(h)] = ips
		}
		nts = append(nts, nt)
	}
	return nts, ref
}

func decodeNameCases(r *Run, n int) {
	for i := 0; i < n; i++ {
		r.Case("nds", i, func(c *Case) {
			g := &gen{r: c.Rng}
			nts, ref := g.nameTables()
			var raw []*anypb.Any
			for _, nt := range nts {
				raw = append(raw, mustAny(nt))
			}
			got, err := xdsresource.UnmarshalNDS(raw)
			if err != nil || got == nil {
				c.Violate("C12", "rejected", "well-formed name table rejected: %v", err)
				return
			}
			low := map[string][]string{}
			for k, v := range got.NameTable {
				low[strings.ToLower(k)] = v
			}
			if keysOf(low) != keysOf(ref) || len(low) != len(got.NameTable) {
				c.Violate("C12", "hosts", "decoded hosts %s, expected %s", keysOf(got.NameTable), keysOf(ref))
				return
			}
			for _, h := range sortedKeys(ref) {
				if !sameStrings(low[h], ref[h]) {
					c.Violate("C12", "addresses", "host %q: %v, expected %v", h, low[h], ref[h])
				}
			}
			r.Count("hosts_compared", len(ref))
			if len(ref) > 0 {
				r.Distinct("nontrivial", fmt.Sprint("nds", len(nts), ref))
				r.Sample("nds %v", raw)
			}
		})
	}
}

func init() {
	register("C11", func(r *Run) {
		decodeRouteCases(r, r.N(24000, 400000))
		decodeListenerCases(r, r.N(24000, 400000))
	})
	register("C12", func(r *Run) {
		decodeClusterCases(r, r.N(24000, 400000))
		decodeEndpointCases(r, r.N(16000, 300000))
		decodeNameCases(r, r.N(16000, 300000))
	})
}
