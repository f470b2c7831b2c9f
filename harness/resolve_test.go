package harness

import (
	"context"
	"fmt"
	"sort"
	"strings"
	"sync"
	"testing/synctest"
	"time"

	"github.com/cloudwego/kitex/pkg/discovery"
	"github.com/cloudwego/kitex/pkg/rpcinfo"
	"github.com/cloudwego/kitex/pkg/rpcinfo/remoteinfo"
	v3cluster "github.com/envoyproxy/go-control-plane/envoy/config/cluster/v3"
	v3endpoint "github.com/envoyproxy/go-control-plane/envoy/config/endpoint/v3"
	discoveryv3 "github.com/envoyproxy/go-control-plane/envoy/service/discovery/v3"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/anypb"

	"github.com/kitex-contrib/xds/core/xdsresource"
	"github.com/kitex-contrib/xds/xdssuite"
)

// refInstances flattens a load assignment, nil when it has no endpoint.
func refInstances(cla *v3endpoint.ClusterLoadAssignment) (out []string) {
	for _, le := range cla.GetEndpoints() {
		for _, ep := range le.LbEndpoints {
			sa := ep.GetEndpoint().GetAddress().GetSocketAddress()
			a := sa.GetAddress()
			if strings.Contains(a, ":") {
				a = "[" + a + "]"
			}
			out = append(out, fmt.Sprintf("tcp %s:%d w=%d", a, sa.GetPortValue(), ep.GetLoadBalancingWeight().GetValue()))
		}
	}
	return
}

// refResolution gives the endpoints of a cluster, nil when the resolution must fail.
func refResolution(name string, cs map[string]*v3cluster.Cluster, es map[string]*v3endpoint.ClusterLoadAssignment) []string {
	cl := cs[name]
	if cl == nil {
		return nil
	}
	if cl.LoadAssignment != nil {
		return refInstances(cl.LoadAssignment)
	}
	n := cl.GetEdsClusterConfig().GetServiceName()
	if n == "" {
		n = cl.Name
	}
	if es[n] == nil {
		return nil
	}
	return refInstances(es[n])
}

func sumResult(res discovery.Result) (out []string) {
	for _, i := range res.Instances {
		if i == nil || i.Address() == nil {
			out = append(out, "nil")
			continue
		}
		out = append(out, fmt.Sprintf("%s %s w=%d", i.Address().Network(), i.Address().String(), i.Weight()))
	}
	return
}

// resolveCheck verifies one resolution against the acceptable endpoint lists (nil: an error).
func (c *Case) resolveCheck(name string, res discovery.Result, err error, want ...[]string) {
	c.R.Count("resolutions", 1)
	got := sumResult(res)
	if err == nil && len(got) == 0 {
		c.Violate("C10", "empty", "resolving %q succeeded without endpoints", name)
		return
	}
	ok := false
	for _, w := range want {
		if err != nil && w == nil || err == nil && w != nil && sameStrings(got, w) {
			ok = true
		}
	}
	if !ok {
		c.Violate("C10", "endpoints", "resolving %q gave %q (error %v), expected %q", name, got, err, want)
		return
	}
	if err != nil {
		c.R.Count("resolutions.failed", 1)
		return
	}
	c.R.Count("instances_compared", len(got))
	if !res.Cacheable || res.CacheKey != name {
		c.Violate("C10", "cache-key", "resolving %q: cacheable %v, key %q", name, res.Cacheable, res.CacheKey)
	}
}

// edsCluster generates a cluster whose endpoints are at es (EDS name) or inline.
func (g *gen) resCluster(name string, edsNames []string) *v3cluster.Cluster {
	r := g.r
	cl := g.cluster(name)
	cl.LoadAssignment = nil
	switch r.Intn(6) {
	case 0, 1:
		cl.LoadAssignment = g.cla(pick(r, []string{name, "", pick(r, edsNames)}), 1)
		if len(refInstances(cl.LoadAssignment)) == 0 {
			// an empty inline assignment: no endpoints elsewhere either
			cl.EdsClusterConfig = &v3cluster.Cluster_EdsClusterConfig{ServiceName: "absent"}
			break
		}
		fallthrough
	case 2:
		cl.EdsClusterConfig = pick(r, []*v3cluster.Cluster_EdsClusterConfig{nil, {}, {ServiceName: pick(r, edsNames)}})
	default:
		cl.EdsClusterConfig = &v3cluster.Cluster_EdsClusterConfig{ServiceName: pick(r, edsNames)}
	}
	return cl
}

// resolveCases: one decoded configuration per case, resolved repeatedly.
func resolveCases(r *Run, n int) {
	for i := 0; i < n; i++ {
		r.Case("resolve", i, func(c *Case) {
			g := &gen{r: c.Rng}
			m := &stubMgr{}
			use(m)
			names := []string{"c1", pick(c.Rng, []string{"c2", "C1", "c"}), "outbound|80||x.y", "c4"}
			eds := []string{"c1", "c2", "e1", pick(c.Rng, []string{"e2", "E1", "e"}), "outbound|80||x.y", "e-missing"}
			cs, es := map[string]*v3cluster.Cluster{}, map[string]*v3endpoint.ClusterLoadAssignment{}
			var rawC, rawE []*anypb.Any
			for _, n := range names[:3] {
				cs[n] = g.resCluster(n, eds)
				rawC = append(rawC, mustAny(cs[n]))
			}
			for _, n := range eds[:5] {
				if chance(c.Rng, 80) {
					es[n] = g.cla(n, 0)
					rawE = append(rawE, mustAny(es[n]))
				}
			}
			dc, err := xdsresource.UnmarshalCDS(rawC)
			must(err)
			for n, v := range dc {
				m.put(C, n, v)
			}
			if len(rawE) > 0 {
				de, err := xdsresource.UnmarshalEDS(rawE)
				must(err)
				for n, v := range de {
					m.put(E, n, v)
				}
			}
			rs := xdssuite.NewXDSResolver()
			for rep := 0; rep < 3; rep++ {
				for _, n := range names {
					want := refResolution(n, cs, es)
					desc := n
					if chance(c.Rng, 50) {
						// the way the client asks
						to := remoteinfo.NewRemoteInfo(&rpcinfo.EndpointBasicInfo{ServiceName: "service"}, "m")
						_ = to.SetTag(xdssuite.RouterClusterKey, n)
						desc = rs.Target(context.Background(), to)
						if desc != n {
							c.Violate("C10", "target", "the target of a call routed to %q is %q", n, desc)
							continue
						}
					}
					res, err := rs.Resolve(context.Background(), desc)
					c.resolveCheck(n, res, err, want)
					// what the caller does with the result stays with the caller
					sort.Slice(res.Instances, func(a, b int) bool { return res.Instances[a].Weight() < res.Instances[b].Weight() })
					if want != nil {
						r.Distinct("nontrivial", fmt.Sprint(want))
						r.Sample("%s -> %q", n, want)
					}
				}
			}
		})
	}
}

// autoServer answers the requests of clusters and endpoints from its state, at most the names requested.
type autoServer struct {
	w    *World
	mu   sync.Mutex
	cs   map[string]*v3cluster.Cluster
	es   map[string]*v3endpoint.ClusterLoadAssignment
	want map[RT]map[string]bool
	last map[RT]string
	ver  int
	hold map[RT]bool // answers withheld
	// every state that was ever pushed, with the virtual time
	hist []serverState
}

type serverState struct {
	at time.Time
	cs map[string]*v3cluster.Cluster
	es map[string]*v3endpoint.ClusterLoadAssignment
}

func (a *autoServer) snapshot() {
	s := serverState{at: time.Now(), cs: map[string]*v3cluster.Cluster{}, es: map[string]*v3endpoint.ClusterLoadAssignment{}}
	for k, v := range a.cs {
		s.cs[k] = v
	}
	for k, v := range a.es {
		s.es[k] = v
	}
	a.hist = append(a.hist, s)
}

func (a *autoServer) onReq(s *Stream, req *discoveryv3.DiscoveryRequest) {
	t := typeOf[req.TypeUrl]
	if t != C && t != E {
		return
	}
	a.mu.Lock()
	defer a.mu.Unlock()
	names := append([]string(nil), req.ResourceNames...)
	sort.Strings(names)
	key := fmt.Sprint(s.id, names)
	if a.last[t] == key {
		return // an acknowledgement
	}
	a.last[t] = key
	a.want[t] = setOf(names)
	a.answer(s, t)
}

// answer pushes the resources of the names requested.
func (a *autoServer) answer(s *Stream, t RT) {
	if a.hold[t] || s == nil {
		return
	}
	a.ver++
	var res []proto.Message
	for _, n := range sortedKeys(a.want[t]) {
		if t == C && a.cs[n] != nil {
			res = append(res, a.cs[n])
		}
		if t == E && a.es[n] != nil {
			res = append(res, a.es[n])
		}
	}
	s.Push(a.w.Resp(t, fmt.Sprint("v", a.ver), res...))
}

func resolveEndToEnd(r *Run, n int) {
	for i := 0; i < n; i++ {
		r.Case("resolve-e2e", i, func(c *Case) {
			c.Bubble(func() {
				g := &gen{r: c.Rng}
				w := NewWorld(c, WCfg{})
				defer w.Close()
				a := &autoServer{
					w: w, cs: map[string]*v3cluster.Cluster{}, es: map[string]*v3endpoint.ClusterLoadAssignment{},
					want: map[RT]map[string]bool{}, last: map[RT]string{}, hold: map[RT]bool{},
				}
				w.cp.OnReq = a.onReq
				names := []string{"c1", pick(c.Rng, []string{"c2", "C1", "c"}), "outbound|80||x.y", "c4"}
				eds := []string{"c1", "c2", "e1", pick(c.Rng, []string{"e2", "E1", "e"}), "outbound|80||x.y", "e-missing"}
				change := func() {
					a.mu.Lock()
					defer a.mu.Unlock()
					for j, k := 0, 1+c.Rng.Intn(3); j < k; j++ {
						if chance(c.Rng, 55) {
							n := pick(c.Rng, names)
							if chance(c.Rng, 15) {
								delete(a.cs, n)
							} else {
								a.cs[n] = g.resCluster(n, eds)
							}
							c.Logf("cluster %s: %v", n, a.cs[n])
						} else {
							// endpoint sets merge: the control plane empties them, it does not withdraw them
							n := pick(c.Rng, eds[:5])
							a.es[n] = g.cla(n, 0)
							c.Logf("endpoints %s: %v", n, a.es[n])
						}
					}
					a.snapshot()
					s := w.cp.Live()
					if s == nil {
						return
					}
					for _, t := range []RT{C, E} {
						if s.Asked(t) && len(a.want[t]) > 0 {
							a.answer(s, t)
						}
					}
				}
				a.mu.Lock()
				a.snapshot()
				a.mu.Unlock()
				change()
				rs := xdssuite.NewXDSResolver()
				for step := 0; step < 12; step++ {
					switch c.Rng.Intn(8) {
					case 0:
						if s := w.cp.Live(); s != nil {
							s.Fail(fmt.Errorf("stream broken"))
							time.Sleep(20 * time.Second)
						}
					case 1:
						time.Sleep(time.Duration(c.Rng.Intn(40)) * time.Second)
					default:
						change()
					}
					synctest.Wait()
					conc := chance(c.Rng, 30)
					if !conc {
						for _, n := range names {
							res, err := rs.Resolve(context.Background(), n)
							synctest.Wait()
							c.resolveCheck(n, res, err, refResolution(n, a.cs, a.es))
							r.Distinct("nontrivial", fmt.Sprint(step > 0, refResolution(n, a.cs, a.es)))
						}
						continue
					}
					// resolutions racing with updates: one of the states in force meanwhile
					var wg sync.WaitGroup
					a.mu.Lock()
					first := len(a.hist) - 1
					a.mu.Unlock()
					for x := 0; x < 3; x++ {
						n := pick(c.Rng, names)
						wg.Add(1)
						go func() {
							defer wg.Done()
							defer c.recovered("resolver")
							for y := 0; y < 6; y++ {
								res, err := rs.Resolve(context.Background(), n)
								a.mu.Lock()
								hist := append([]serverState(nil), a.hist[first:]...)
								a.mu.Unlock()
								var want [][]string
								for _, sc := range hist {
									for _, se := range hist {
										want = append(want, refResolution(n, sc.cs, se.es))
									}
								}
								c.resolveCheck(n, res, err, want...)
							}
						}()
					}
					for x := 0; x < 3; x++ {
						change()
						for y := c.Rng.Intn(200); y > 0; y-- {
							w.cp.NumStreams()
						}
					}
					wg.Wait()
					synctest.Wait()
					r.Count("concurrent_rounds", 1)
				}
			})
		})
	}
}

// withheldCases: nothing, or only the cluster, is supplied; the resolution fails in time.
func withheldCases(r *Run, n int) {
	for i := 0; i < n; i++ {
		r.Case("withheld", i, func(c *Case) {
			c.Bubble(func() {
				g := &gen{r: c.Rng}
				to := time.Duration(50+c.Rng.Intn(2000)) * time.Millisecond
				w := NewWorld(c, WCfg{Timeout: to})
				defer w.Close()
				a := &autoServer{
					w: w, cs: map[string]*v3cluster.Cluster{}, es: map[string]*v3endpoint.ClusterLoadAssignment{},
					want: map[RT]map[string]bool{}, last: map[RT]string{}, hold: map[RT]bool{},
				}
				w.cp.OnReq = a.onReq
				mode := c.Rng.Intn(4)
				cl := &v3cluster.Cluster{Name: "c1", EdsClusterConfig: &v3cluster.Cluster_EdsClusterConfig{ServiceName: "e1"}}
				switch mode {
				case 0:
					a.hold[C] = true
				case 1:
					a.cs["c1"] = cl
					a.hold[E] = true
				case 2:
					a.cs["c1"] = cl
					a.es["e1"] = &v3endpoint.ClusterLoadAssignment{ClusterName: "e1"}
				case 3:
					a.cs["c1"] = cl
					a.es["e1"] = &v3endpoint.ClusterLoadAssignment{ClusterName: "e1", Endpoints: []*v3endpoint.LocalityLbEndpoints{{}, {}}}
				}
				rs := xdssuite.NewXDSResolver()
				ctx := context.Background()
				lim := 2 * to
				if chance(c.Rng, 40) {
					d := time.Duration(1+c.Rng.Intn(3000)) * time.Millisecond
					var cancel func()
					ctx, cancel = context.WithTimeout(ctx, d)
					defer cancel()
					if d < lim {
						lim = d
					}
				}
				start := time.Now()
				res, err := rs.Resolve(ctx, "c1")
				d := time.Since(start)
				c.resolveCheck("c1", res, err, nil)
				if d > lim {
					c.Violate("C10", "late", "the resolution returned after %v, limit %v", d, lim)
				}
				r.Distinct("nontrivial", fmt.Sprint("withheld", mode, to, lim))
				// supplied later
				a.mu.Lock()
				a.hold = map[RT]bool{}
				a.cs["c1"] = cl
				a.es["e1"] = g.cla("e1", 1)
				s := w.cp.Live()
				for _, t := range []RT{C, E} {
					if s.Asked(t) {
						a.answer(s, t)
					}
				}
				a.mu.Unlock()
				synctest.Wait()
				res, err = rs.Resolve(context.Background(), "c1")
				c.resolveCheck("c1", res, err, refResolution("c1", a.cs, a.es))
			})
		})
	}
}

func init() {
	register("C10", func(r *Run) {
		resolveCases(r, r.N(16000, 300000))
		resolveEndToEnd(r, r.N(2400, 40000))
		withheldCases(r, r.N(800, 8000))
	})
}
