package harness

import (
	"context"
	"errors"
	"fmt"
	"runtime/debug"
	"sync"
	"sync/atomic"
	"testing/synctest"
	"time"

	"github.com/cloudwego/kitex/pkg/endpoint"
	"github.com/cloudwego/kitex/pkg/kerrors"
	"github.com/cloudwego/kitex/pkg/retry"
	"github.com/cloudwego/kitex/pkg/rpcinfo"
	"github.com/cloudwego/kitex/pkg/rpcinfo/remoteinfo"
	v3listener "github.com/envoyproxy/go-control-plane/envoy/config/listener/v3"
	v3route "github.com/envoyproxy/go-control-plane/envoy/config/route/v3"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/anypb"
	"google.golang.org/protobuf/types/known/durationpb"

	"github.com/kitex-contrib/xds/core/xdsresource"
	"github.com/kitex-contrib/xds/xdssuite"
)

const tagKey = xdssuite.RouterClusterKey

var errNext = errors.New("error of the next endpoint")

// dest is the destination of a call as the next step sees it.
type dest struct {
	tag     string
	has     bool
	timeout time.Duration
}

func destOf(ri rpcinfo.RPCInfo) (d dest) {
	d.timeout = ri.Config().RPCTimeout()
	if ri.To() != nil {
		d.tag, d.has = ri.To().Tag(tagKey)
	}
	return
}

// locked tells whether the destination can no longer be changed (it restores it otherwise).
func locked(ri rpcinfo.RPCInfo) bool {
	was, _ := ri.To().Tag(tagKey)
	ro := remoteinfo.AsRemoteInfo(ri.To())
	_ = ro.SetTag(tagKey, "another cluster")
	now, _ := ri.To().Tag(tagKey)
	if now == was {
		return true
	}
	_ = ro.SetTag(tagKey, was)
	return false
}

// pass drives the routing step of one call.
type pass struct {
	n      int
	at     dest // at the moment the next step is entered
	req    interface{}
	resp   interface{}
	riSame bool
	err    error
	panicd bool
}

func (c *Case) pass(mw endpoint.Middleware, ctx context.Context, ri rpcinfo.RPCInfo, fail bool) *pass {
	p := &pass{}
	req, resp := new(int), new(int)
	func() {
		defer func() {
			if v := recover(); v != nil {
				p.panicd = true
				c.Violate("C15", "panic", "the routing step panicked: %v\n%s", v, trimStack(string(debug.Stack())))
			}
		}()
		p.err = mw(func(ctx context.Context, a, b interface{}) error {
			p.n++
			p.at = destOf(ri)
			p.req, p.resp = a, b
			p.riSame = rpcinfo.GetRPCInfo(ctx) == ri
			if fail {
				return errNext
			}
			return nil
		})(rpcinfo.NewCtxWithRPCInfo(ctx, ri), req, resp)
	}()
	if p.panicd {
		return p
	}
	c.R.Count("passes", 1)
	if p.n > 1 {
		c.Violate("C15", "twice", "the call was passed on %d times", p.n)
	}
	if p.n == 1 {
		if p.req != req || p.resp != resp || !p.riSame {
			c.Violate("C15", "altered", "the call passed on is not the call made")
		}
		if fail && !errors.Is(p.err, errNext) || !fail && p.err != nil {
			c.Violate("C15", "result", "the next step returned an error: %v, the call returned %v", fail, p.err)
		}
	}
	if p.n == 0 && p.err == nil {
		c.Violate("C15", "swallowed", "the call succeeded without being passed on")
	}
	return p
}

// routed verifies the step for an undecided call: want lists the acceptable clusters (empty: it must fail).
func (c *Case) routed(what string, ri rpcinfo.RPCInfo, p *pass, want map[string]bool, timeout time.Duration) {
	if p.panicd {
		return
	}
	if len(want) == 0 {
		c.refused(what, ri, p)
		return
	}
	if p.n != 1 {
		c.Violate("C15", "not-passed", "%s: the call should be routed to %v but was not passed on (%v)", what, sortedKeys(want), p.err)
		return
	}
	if !p.at.has || !want[p.at.tag] {
		c.Violate("C15", "destination", "%s: passed on with the destination %q (set: %v), expected one of %v", what, p.at.tag, p.at.has, sortedKeys(want))
	}
	if p.at.timeout != timeout {
		c.Violate("C15", "timeout", "%s: passed on with the timeout %v, the route has %v", what, p.at.timeout, timeout)
	}
	if !locked(ri) {
		c.Violate("C15", "unlocked", "%s: the destination is not locked", what)
	}
	if now := destOf(ri); now != p.at {
		c.Violate("C15", "changed", "%s: the destination changed after the call was passed on: %v, %v", what, p.at, now)
	}
	c.R.Count("routed", 1)
}

func (c *Case) refused(what string, ri rpcinfo.RPCInfo, p *pass) {
	if p.panicd {
		return
	}
	if p.n != 0 {
		c.Violate("C15", "fails-open", "%s: the call cannot be routed but was passed on with the destination %q", what, p.at.tag)
		return
	}
	if !errors.Is(p.err, kerrors.ErrRoute) {
		c.Violate("C15", "error-kind", "%s: the call failed with %v, which is no routing error", what, p.err)
	}
	if now := destOf(ri); now.has {
		c.Violate("C15", "half-decided", "%s: the routing failed but the destination is %q", what, now.tag)
	}
	c.R.Count("refused", 1)
}

// untouched verifies the step for a call whose destination was decided before.
func (c *Case) untouched(what string, ri rpcinfo.RPCInfo, p *pass, was dest) {
	if p.panicd {
		return
	}
	if p.n != 1 {
		c.Violate("C15", "not-passed", "%s: a call decided before was not passed on: %v", what, p.err)
		return
	}
	if p.at != was {
		c.Violate("C15", "decided-twice", "%s: the destination was %+v, passed on with %+v", what, was, p.at)
	}
	if now := destOf(ri); now != was {
		c.Violate("C15", "decided-twice", "%s: the destination was %+v, now %+v", what, was, now)
	}
	c.R.Count("decided_before", 1)
}

// retryKey makes the retry container compute the key of the call, as the client does before the middlewares.
func (c *Case) retryKey(rc *retry.Container, ctx context.Context, ri rpcinfo.RPCInfo, f func(rpcinfo.RPCInfo)) {
	calls := 0
	defer func() {
		if v := recover(); v != nil {
			c.Violate("C15", "panic", "the computation of the retry key panicked: %v\n%s", v, trimStack(string(debug.Stack())))
		}
	}()
	_, _, _ = rc.WithRetryIfNeeded(rpcinfo.NewCtxWithRPCInfo(ctx, ri), nil, func(ctx context.Context, _ retry.Retryer) (rpcinfo.RPCInfo, interface{}, error) {
		calls++
		if calls == 1 && f != nil {
			f(ri)
		}
		return ri, nil, nil
	}, ri, nil)
	c.R.Count("retry_keys", 1)
}

// mwCases: calls through the routing step of real suites over decoded configurations.
func mwCases(r *Run, n int) {
	for i := 0; i < n; i++ {
		r.Case("step", i, func(c *Case) {
			g := &gen{r: c.Rng}
			m := &stubMgr{}
			use(m)
			names := []string{"svcA:80", "svcB"}
			scenes := map[string]*scene{}
			load := func() bool {
				for _, n := range names {
					s := g.scene("10.0.0.1_80")
					scenes[n] = s
					if err := s.install(m, n); err != nil {
						c.Violate("C15", "decode", "well-formed configuration rejected: %v", err)
						return false
					}
					c.Logf("listener of %s: %v tables %v", n, s.l, s.tables)
				}
				return true
			}
			if !load() {
				return
			}
			var cls [2]*suiteClient
			for e := range cls {
				var opts []xdssuite.Option
				if e == 1 {
					opts = append(opts, extractorOpt())
				}
				if chance(c.Rng, 50) {
					opts = append(opts, xdssuite.WithMatchRetryMethod(true))
				}
				if chance(c.Rng, 50) {
					opts = append(opts, xdssuite.WithServiceCircuitBreak(true))
				}
				cls[e] = newClient(opts...)
				defer cls[e].Close()
			}
			for j := 0; j < 16; j++ {
				n := pick(c.Rng, names)
				k := g.call(n, scenes[n])
				if chance(c.Rng, 5) {
					k.dest = "unknown"
				}
				c.step(g, cls[b2i(k.extractor)], m, scenes[k.dest], k, load, scenes)
			}
		})
	}
}

func expected(s *scene, k *call) (o outcome, want map[string]bool, timeout time.Duration) {
	o = outcome{kind: "nolistener"}
	if s != nil {
		o = refTarget(s.fs, s.refs, k)
	}
	if o.route != nil {
		want, timeout = o.route.pickable(), o.route.timeout
	}
	return
}

// step is one call, decided or not before, with what may happen around the routing step.
func (c *Case) step(g *gen, cl *suiteClient, m *stubMgr, s *scene, k *call, reload func() bool, scenes map[string]*scene) {
	o, want, timeout := expected(s, k)
	ctx := k.ctx(context.Background())
	ri := k.info()
	fail := chance(c.Rng, 30)
	kind := c.Rng.Intn(8)
	what := fmt.Sprintf("call %v (%s %d)", k, o.kind, o.index)
	c.R.Count("outcome."+o.kind, 1)
	if c.R.Distinct("nontrivial", fmt.Sprint(c.ID, kind, k)) {
		c.R.Sample("kind %d %s -> %v %v", kind, what, sortedKeys(want), timeout)
	}
	switch kind {
	default:
		p := c.pass(cl.mw, ctx, ri, fail)
		c.routed(what, ri, p, want, timeout)
		if kind == 1 {
			// again: a retry, or a second layer
			was := destOf(ri)
			p = c.pass(cl.mw, ctx, ri, fail)
			if len(want) > 0 {
				c.untouched("again: "+what, ri, p, was)
			} else {
				c.refused("again: "+what, ri, p)
			}
		}
	case 2:
		// decided by somebody else, not locked
		was := dest{tag: pick(c.Rng, []string{"other", "", "c1", "outbound|80||x"}), has: true, timeout: initialTimeout}
		_ = remoteinfo.AsRemoteInfo(ri.To()).SetTag(tagKey, was.tag)
		if chance(c.Rng, 50) {
			was.timeout = 5 * time.Second
			_ = rpcinfo.AsMutableRPCConfig(ri.Config()).SetRPCTimeout(was.timeout)
		}
		if chance(c.Rng, 40) {
			c.retryKey(cl.rc, ctx, ri, nil)
			if now := destOf(ri); now != was {
				c.Violate("C15", "decided-twice", "%s: the retry key changed the destination from %+v to %+v", what, was, now)
			}
		}
		c.untouched("decided before: "+what, ri, c.pass(cl.mw, ctx, ri, fail), was)
		if locked(ri) {
			c.Violate("C15", "decided-twice", "%s: the step locked a destination decided by somebody else", what)
		}
	case 3:
		// the configuration changes between two steps of the same call
		p := c.pass(cl.mw, ctx, ri, fail)
		c.routed(what, ri, p, want, timeout)
		if p.panicd || !reload() {
			return
		}
		was := destOf(ri)
		if was.has {
			c.untouched("after an update: "+what, ri, c.pass(cl.mw, ctx, ri, fail), was)
			c.retryKey(cl.rc, ctx, ri, nil)
			if now := destOf(ri); now != was {
				c.Violate("C15", "decided-twice", "%s: the retry key changed the destination from %+v to %+v", what, was, now)
			}
		} else {
			// undecided so far: the new configuration decides
			_, w2, t2 := expected(scenes[k.dest], k)
			c.routed("after an update: "+what, ri, c.pass(cl.mw, ctx, ri, fail), w2, t2)
		}
	case 4, 5:
		// the retry key is computed first, the step runs inside
		inner := 0
		c.retryKey(cl.rc, ctx, ri, func(ri rpcinfo.RPCInfo) {
			inner++
			was := destOf(ri)
			if !was.has {
				c.routed("after the retry key: "+what, ri, c.pass(cl.mw, ctx, ri, fail), want, timeout)
				return
			}
			if !want[was.tag] {
				c.Violate("C15", "destination", "%s: the retry key decided %q, expected one of %v", what, was.tag, sortedKeys(want))
			}
			if was.timeout != timeout {
				c.Violate("C15", "timeout", "%s: the retry key set the timeout %v, the route has %v", what, was.timeout, timeout)
			}
			if !locked(ri) {
				c.Violate("C15", "unlocked", "%s: the retry key left the destination unlocked", what)
			}
			if kind == 5 && !reload() {
				return
			}
			c.untouched("after the retry key: "+what, ri, c.pass(cl.mw, ctx, ri, fail), was)
		})
		if inner != 1 {
			c.R.Count("retry_not_called", 1)
		}
	case 6:
		// no destination at all
		if !chance(c.Rng, 30) {
			p := c.pass(cl.mw, ctx, ri, fail)
			c.routed(what, ri, p, want, timeout)
			return
		}
		ni := rpcinfo.NewRPCInfo(ri.From(), nil, ri.Invocation(), ri.Config(), ri.Stats())
		c.retryKey(cl.rc, ctx, ni, nil)
		if p := c.pass(cl.mw, ctx, ni, fail); !p.panicd && p.n != 0 {
			c.Violate("C15", "fails-open", "a call without destination was passed on")
		}
	case 7:
		// the manager fails for a while
		m.mu.Lock()
		m.err = pick(c.Rng, []error{errors.New("fetch timeout"), context.Canceled, context.DeadlineExceeded})
		m.mu.Unlock()
		c.routed("nothing available: "+what, ri, c.pass(cl.mw, ctx, ri, fail), nil, 0)
		c.retryKey(cl.rc, ctx, k.info(), nil)
		if _, err := cl.rs.Resolve(ctx, "c1"); err == nil {
			c.Violate("C15", "resolved", "the resolver succeeded although nothing is available")
		}
		m.mu.Lock()
		m.err = nil
		m.mu.Unlock()
		c.routed("available again: "+what, ri, c.pass(cl.mw, ctx, ri, fail), want, timeout)
	}
}

// ---------------------------------------------------------------- hostile configurations

// hostileStep drives a call over a configuration of which only the invariants are known.
func (c *Case) hostileStep(g *gen, cl *suiteClient, k *call) {
	ctx := k.ctx(context.Background())
	ri := k.info()
	check := func(ri rpcinfo.RPCInfo) {
		before := destOf(ri)
		p := c.pass(cl.mw, ctx, ri, false)
		if p.panicd {
			return
		}
		switch {
		case before.has:
			c.untouched("hostile", ri, p, before)
		case p.n == 0:
			c.refused("hostile", ri, p)
		default:
			if !p.at.has || !locked(ri) {
				c.Violate("C15", "destination", "passed on with the destination %+v, locked %v", p.at, locked(ri))
			}
			if p.at.timeout == initialTimeout {
				c.Violate("C15", "timeout", "passed on without the timeout of the route")
			}
			c.R.Count("routed", 1)
		}
	}
	if chance(c.Rng, 40) {
		c.retryKey(cl.rc, ctx, ri, check)
	} else {
		check(ri)
	}
	d := destOf(ri)
	if !d.has {
		d.tag = pick(c.Rng, []string{"c1", "c2", "c3", ""})
	}
	func() {
		defer func() {
			if v := recover(); v != nil {
				c.Violate("C15", "panic", "the resolver panicked: %v\n%s", v, trimStack(string(debug.Stack())))
			}
		}()
		res, err := cl.rs.Resolve(ctx, d.tag)
		if err == nil && len(res.Instances) == 0 {
			c.Violate("C15", "resolved", "the resolver succeeded without endpoints")
		}
		if t := cl.rs.Target(ctx, ri.To()); destOf(ri).has && t != d.tag {
			c.Violate("C15", "destination", "the target of a call decided for %q is %q", d.tag, t)
		}
	}()
	c.R.Count("hostile_calls", 1)
}

// hostileSet generates mutated resources of all types.
func (g *gen) hostileSet(lname string) map[RT]*anypb.Any {
	r := g.r
	g.unsupported = true
	s := g.scene(lname)
	eds := []string{"c1", "e1"}
	ms := map[RT]proto.Message{L: s.l, C: g.resCluster(pick(r, []string{"c1", "c2", "c3"}), eds), E: g.cla(pick(r, eds), 0)}
	if len(s.tables) > 0 {
		ms[R] = s.tables[0]
	} else {
		ms[R] = g.table("table1")
	}
	out := map[RT]*anypb.Any{}
	for _, t := range []RT{L, R, C, E} {
		m := ms[t]
		mutate(r, m, r.Intn(5))
		a := mustAny(m)
		if chance(r, 10) {
			a.Value = mutateBytes(r, a.Value)
		}
		out[t] = a
	}
	return out
}

func hostileCases(r *Run, n int) {
	for i := 0; i < n; i++ {
		r.Case("hostile", i, func(c *Case) {
			g := &gen{r: c.Rng}
			m := &stubMgr{}
			use(m)
			cl := newClient()
			defer cl.Close()
			for round := 0; round < 3; round++ {
				hs := g.hostileSet("svcA:80")
				for _, t := range []RT{L, R, C, E} {
					a := hs[t]
					res, err := decodeAny(t, []*anypb.Any{a})
					r.Count(fmt.Sprint("hostile.", tname[t], ".accepted.", err == nil), 1)
					if err != nil {
						continue
					}
					for _, n := range sortedKeys(res) {
						if t == L {
							m.put(L, "svcA:80", res[n])
							c.Logf("listener %v", a)
							continue
						}
						m.put(t, n, res[n])
						if t == R {
							m.put(R, "table1", res[n])
							m.put(R, "", res[n])
						}
					}
				}
				for j := 0; j < 6; j++ {
					k := g.call("svcA:80", &scene{})
					k.extractor = false
					c.hostileStep(g, cl, k)
				}
			}
			r.Distinct("nontrivial", c.ID)
		})
	}
}

// decodeAny decodes as the client does.
func decodeAny(t RT, as []*anypb.Any) (map[string]interface{}, error) {
	out := map[string]interface{}{}
	var res map[string]xdsresource.Resource
	var err error
	switch t {
	case L:
		ls, e := xdsresource.UnmarshalLDS(as)
		if e != nil {
			return nil, e
		}
		for n, l := range ls {
			if l != nil {
				out[n] = l
			}
		}
		return out, nil
	case R:
		res, err = xdsresource.UnmarshalRDS(as)
	case C:
		res, err = xdsresource.UnmarshalCDS(as)
	case E:
		res, err = xdsresource.UnmarshalEDS(as)
	case N:
		tab, e := xdsresource.UnmarshalNDS(as)
		if e != nil {
			return nil, e
		}
		out[""] = tab
		return out, nil
	}
	if err != nil {
		return nil, err
	}
	for n, v := range res {
		out[n] = v
	}
	return out, nil
}

// hostileEndToEnd: the same through the real client and manager.
func hostileEndToEnd(r *Run, n int) {
	for i := 0; i < n; i++ {
		r.Case("hostile-e2e", i, func(c *Case) {
			c.Bubble(func() {
				g := &gen{r: c.Rng}
				w := NewWorld(c, WCfg{Timeout: 300 * time.Millisecond})
				defer w.Close()
				cl := newClient()
				defer cl.Close()
				for round := 0; round < 4; round++ {
					hs := g.hostileSet("svcA:80")
					for _, t := range []RT{L, R, C, E} {
						name := map[RT]string{L: "svcA:80", R: "table1", C: "c1", E: "e1"}[t]
						w.Peek(t, name)
						synctest.Wait()
						resp := w.Resp(t, fmt.Sprint("v", round))
						resp.Resources = append(resp.Resources, hs[t])
						w.Push(resp)
					}
					for j := 0; j < 4; j++ {
						k := g.call("svcA:80", &scene{})
						k.extractor = false
						c.hostileStep(g, cl, k)
					}
				}
				r.Distinct("nontrivial", c.ID)
			})
		})
	}
}

// ---------------------------------------------------------------- withheld resources

func simpleListener(name, table string) *v3listener.Listener {
	return mkListener(name, table).(*v3listener.Listener)
}

func oneRoute(table string, timeout time.Duration, clusters ...string) *v3route.RouteConfiguration {
	a := &v3route.RouteAction{Timeout: durationpb.New(timeout)}
	if len(clusters) == 1 {
		a.ClusterSpecifier = &v3route.RouteAction_Cluster{Cluster: clusters[0]}
	} else {
		w := &v3route.WeightedCluster{}
		for _, n := range clusters {
			w.Clusters = append(w.Clusters, &v3route.WeightedCluster_ClusterWeight{Name: n, Weight: u32(1)})
		}
		a.ClusterSpecifier = &v3route.RouteAction_WeightedClusters{WeightedClusters: w}
	}
	return &v3route.RouteConfiguration{Name: table, VirtualHosts: []*v3route.VirtualHost{{Name: "vh", Routes: []*v3route.Route{{
		Match:  &v3route.RouteMatch{PathSpecifier: &v3route.RouteMatch_Prefix{Prefix: "/"}},
		Action: &v3route.Route_Route{Route: a},
	}}}}}
}

var withheldModes = []string{"nothing", "listener-only", "no-match", "no-cluster", "zero-weights", "withdrawn", "empty-listener", "unresolvable", "cancelled", "rejected-client", "nacked", "outage"}

func withheldCallCases(r *Run, n int) {
	for i := 0; i < n; i++ {
		r.Case("withheld-call", i, func(c *Case) {
			mode := pick(c.Rng, withheldModes)
			c.Bubble(func() { c.withheldCall(mode) })
		})
	}
}

func (c *Case) withheldCall(mode string) {
	g := &gen{r: c.Rng}
	to := time.Duration(50+c.Rng.Intn(1500)) * time.Millisecond
	cfg := WCfg{Timeout: to}
	lname := "svcA:80"
	if mode == "unresolvable" {
		cfg.NDS = true
		cfg.Table = map[string][]string{"other.ns1.svc.cluster.local": {"10.0.0.9"}}
	}
	w := NewWorld(c, cfg)
	defer w.Close()
	if w.err != nil {
		c.R.harnessError(fmt.Sprint("withheld: no manager: ", w.err))
		return
	}
	cl := newClient(xdssuite.WithMatchRetryMethod(chance(c.Rng, 50)))
	defer cl.Close()
	k := g.call(lname, &scene{})
	k.extractor = false
	ctx := k.ctx(context.Background())
	c.Logf("mode %s timeout %v", mode, to)
	push := func(t RT, ms ...proto.Message) {
		if s := w.cp.Live(); s != nil && s.Asked(t) {
			s.Push(w.Resp(t, g.id("v"), ms...))
			synctest.Wait()
		}
	}
	supply := func(route *v3route.RouteConfiguration) {
		w.Peek(L, lname)
		synctest.Wait()
		push(L, simpleListener(lname, "rt"))
		w.Peek(R, "rt")
		synctest.Wait()
		if route != nil {
			push(R, route)
		}
	}
	switch mode {
	case "listener-only":
		supply(nil)
	case "no-match":
		rt := oneRoute("rt", time.Second, "c1")
		rt.VirtualHosts[0].Routes[0].Match.PathSpecifier = &v3route.RouteMatch_Path{Path: "/nothing/like/it"}
		supply(rt)
	case "no-cluster":
		supply(oneRoute("rt", time.Second))
	case "zero-weights":
		rt := oneRoute("rt", time.Second, "c1", "c2")
		for _, cw := range rt.VirtualHosts[0].Routes[0].GetRoute().GetWeightedClusters().Clusters {
			cw.Weight = u32(0)
		}
		supply(rt)
	case "withdrawn":
		supply(oneRoute("rt", time.Second, "c1"))
		push(L) // the listener is gone
	case "empty-listener":
		w.Peek(L, lname)
		synctest.Wait()
		push(L, &v3listener.Listener{Name: lname})
	case "nacked":
		w.Peek(L, lname)
		synctest.Wait()
		if s := w.cp.Live(); s != nil {
			resp := w.Resp(L, "bad")
			resp.Resources = append(resp.Resources, mustAny(simpleListener(lname, "rt")), badAny(c.Rng, L))
			s.Push(resp)
			synctest.Wait()
		}
	case "rejected-client":
		w.cp.mu.Lock()
		w.cp.down = true
		w.cp.mu.Unlock()
		w.cp.Live().Fail(authErr())
		time.Sleep(time.Minute)
	case "outage":
		w.cp.OpenErr = func(n int) error { return failErrN(n) }
		w.cp.Live().Fail(failErr(c.Rng))
		synctest.Wait()
	}
	lim := 2 * to
	if mode == "cancelled" || chance(c.Rng, 25) {
		d := time.Duration(c.Rng.Intn(1500)) * time.Millisecond
		var cancel func()
		ctx, cancel = context.WithTimeout(ctx, d)
		defer cancel()
		if d < lim {
			lim = d
		}
	}
	nothing := map[string]bool{}
	for j, n := 0, 1+c.Rng.Intn(3); j < n; j++ {
		ri := k.info()
		start := time.Now()
		order := c.Rng.Intn(3)
		limit := lim
		what := fmt.Sprintf("%s (%v)", mode, k)
		if order == 0 {
			limit *= 2
			c.retryKey(cl.rc, ctx, ri, func(ri rpcinfo.RPCInfo) {
				c.routed(what, ri, c.pass(cl.mw, ctx, ri, false), nothing, 0)
			})
		} else {
			c.routed(what, ri, c.pass(cl.mw, ctx, ri, false), nothing, 0)
		}
		if d := time.Since(start); d > limit {
			c.Violate("C15", "late", "%s: the routing failed after %v, limit %v", what, d, limit)
		}
		if res, err := cl.rs.Resolve(ctx, "c1"); err == nil {
			c.Violate("C15", "resolved", "%s: the resolver succeeded with %v", what, sumResult(res))
		}
	}
	c.R.Distinct("nontrivial", fmt.Sprint(mode, to, lim, k))
	c.R.Count("withheld."+mode, 1)
	if mode == "unresolvable" || mode == "rejected-client" {
		return
	}
	// supplied in the end
	w.cp.OpenErr = nil
	time.Sleep(30 * time.Second)
	synctest.Wait()
	supply(oneRoute("rt", 7*time.Second, "c9"))
	ri := k.info()
	c.routed(mode+", then supplied", ri, c.pass(cl.mw, k.ctx(context.Background()), ri, false), map[string]bool{"c9": true}, 7*time.Second)
}

// ---------------------------------------------------------------- updates racing with calls

// pairCases: each state of the table leads to clusters and a timeout of its own; a call must get both from one state.
func pairCases(r *Run, n int) {
	for i := 0; i < n; i++ {
		r.Case("pairs", i, func(c *Case) {
			c.Bubble(func() {
				w := NewWorld(c, WCfg{})
				defer w.Close()
				cl := newClient()
				defer cl.Close()
				w.Peek(L, "svcA")
				synctest.Wait()
				w.Push(w.Resp(L, "l", simpleListener("svcA", "rt")))
				w.Peek(R, "rt")
				synctest.Wait()
				state := func(v int) *v3route.RouteConfiguration {
					return oneRoute("rt", time.Duration(v)*time.Second, fmt.Sprintf("c%d-a", v), fmt.Sprintf("c%d-b", v))
				}
				w.Push(w.Resp(R, "1", state(1)))
				var stop atomic.Bool
				var wg sync.WaitGroup
				seen := make([]map[string]bool, 4)
				for x := range seen {
					seen[x] = map[string]bool{}
					wg.Add(1)
					go func() {
						defer wg.Done()
						defer c.recovered("caller")
						last := 0
						for y := 0; y < 400 && !(stop.Load() && y > 40); y++ {
							k := &call{dest: "svcA", svc: "Svc", method: "M", tp: transports[y%len(transports)]}
							ri := k.info()
							check := func(ri rpcinfo.RPCInfo) {
								p := c.pass(cl.mw, k.ctx(context.Background()), ri, false)
								if p.n != 1 {
									c.Violate("C15", "not-passed", "the call was not passed on: %v", p.err)
									return
								}
								var v int
								var ab string
								fmt.Sscanf(p.at.tag, "c%d-%s", &v, &ab)
								if p.at.timeout != time.Duration(v)*time.Second {
									c.Violate("C15", "timeout", "destination %q with the timeout %v of another state", p.at.tag, p.at.timeout)
								}
								if v < last {
									c.Violate("C15", "destination", "destination %q after one of state %d", p.at.tag, last)
								}
								last = v
								seen[x][p.at.tag] = true
							}
							if y%3 == 0 {
								c.retryKey(cl.rc, k.ctx(context.Background()), ri, check)
							} else {
								check(ri)
							}
						}
					}()
				}
				for v := 2; v < 12; v++ {
					w.cp.Live().Push(w.Resp(R, fmt.Sprint(v), state(v)))
					for y := c.Rng.Intn(3000); y > 0; y-- {
						w.cp.NumStreams()
					}
				}
				stop.Store(true)
				wg.Wait()
				all := map[string]bool{}
				for _, s := range seen {
					for n := range s {
						all[n] = true
					}
				}
				r.Count("concurrent_destinations_seen", len(all))
				r.Distinct("nontrivial", fmt.Sprint("pairs", c.ID))
			})
		})
	}
}

func init() {
	register("C15", func(r *Run) {
		mwCases(r, r.N(16000, 300000))
		hostileCases(r, r.N(12000, 300000))
		hostileEndToEnd(r, r.N(600, 8000))
		withheldCallCases(r, r.N(1200, 12000))
		pairCases(r, r.N(120, 1200))
	})
}
