package harness

import (
	"context"
	"errors"
	"fmt"
	"math"
	"runtime"
	"strings"
	"sync"
	"testing/synctest"
	"time"

	"github.com/cloudwego/kitex/pkg/circuitbreak"
	"github.com/cloudwego/kitex/pkg/endpoint"
	"github.com/cloudwego/kitex/pkg/kerrors"
	"github.com/cloudwego/kitex/pkg/limit"
	"github.com/cloudwego/kitex/pkg/retry"
	"github.com/cloudwego/kitex/pkg/rpcinfo"
	"github.com/cloudwego/kitex/pkg/rpcinfo/remoteinfo"
	v3cluster "github.com/envoyproxy/go-control-plane/envoy/config/cluster/v3"
	v3listener "github.com/envoyproxy/go-control-plane/envoy/config/listener/v3"
	v3route "github.com/envoyproxy/go-control-plane/envoy/config/route/v3"
	v3hcm "github.com/envoyproxy/go-control-plane/envoy/extensions/filters/network/http_connection_manager/v3"
	v3thrift "github.com/envoyproxy/go-control-plane/envoy/extensions/filters/network/thrift_proxy/v3"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/anypb"
	"google.golang.org/protobuf/types/known/durationpb"

	"github.com/kitex-contrib/xds/xdssuite"
)

// policyWorld drives a manager through updates; the three kinds of policies are compared after every step.
type policyWorld struct {
	c    *Case
	g    *gen
	w    *World
	ver  int
	subs map[RT]map[string]bool
	ops  []string
}

func newPolicyWorld(c *Case, cfg WCfg) *policyWorld {
	p := &policyWorld{c: c, g: &gen{r: c.Rng}, subs: map[RT]map[string]bool{}}
	p.w = NewWorld(c, cfg)
	for _, t := range []RT{L, R, C, E} {
		p.subs[t] = map[string]bool{}
	}
	return p
}

func (p *policyWorld) sub(t RT, names ...string) {
	for _, n := range names {
		p.w.Peek(t, n)
		p.subs[t][n] = true
	}
	synctest.Wait()
}

// push delivers a response without waiting; false when the type cannot be pushed now.
func (p *policyWorld) push(t RT, ms ...proto.Message) bool {
	s := p.w.cp.Live()
	if s == nil || !s.Asked(t) {
		return false
	}
	// versions repeat now and then
	if p.ver == 0 || chance(p.c.Rng, 85) {
		p.ver++
	}
	s.Push(p.w.Resp(t, fmt.Sprint("v", p.ver), ms...))
	return true
}

// pushBad delivers a response that is rejected as a whole.
func (p *policyWorld) pushBad(t RT, ms ...proto.Message) bool {
	s := p.w.cp.Live()
	if s == nil || !s.Asked(t) {
		return false
	}
	p.ver++
	resp := p.w.Resp(t, fmt.Sprint("bad", p.ver), ms...)
	at := p.c.Rng.Intn(len(resp.Resources) + 1)
	resp.Resources = append(resp.Resources[:at:at], append([]*anypb.Any{badAny(p.c.Rng, t)}, resp.Resources[at:]...)...)
	s.Push(resp)
	return true
}

// reconnect breaks the stream and waits for the next one.
func (p *policyWorld) reconnect() {
	if s := p.w.cp.Live(); s != nil {
		s.Fail(failErr(p.c.Rng))
	}
	for i := 0; i < 40 && p.w.cp.Live() == nil; i++ {
		time.Sleep(500 * time.Millisecond)
		synctest.Wait()
	}
	synctest.Wait()
}

func (p *policyWorld) op(format string, a ...interface{}) {
	s := fmt.Sprintf(format, a...)
	p.ops = append(p.ops, s)
	p.c.Logf("op %s", s)
}

// ---------------------------------------------------------------- C16

type cbRef struct {
	enable bool
	rate   uint32
	volume uint32
}

func (r cbRef) String() string {
	if !r.enable {
		return "disabled"
	}
	return fmt.Sprintf("rate=%d%% volume=%d", r.rate, r.volume)
}

func refBreaker(cl *v3cluster.Cluster) (cbRef, bool) {
	o := cl.GetOutlierDetection()
	if o == nil {
		return cbRef{}, false
	}
	t, v := o.GetFailurePercentageThreshold().GetValue(), o.GetFailurePercentageRequestVolume().GetValue()
	if t == 0 || v == 0 {
		return cbRef{}, true
	}
	return cbRef{true, t, v}, true
}

type cbSuite struct {
	id       int
	cl       *suiteClient
	ever     map[string]bool // configured by an update since (or at) its creation
	service  bool
	settling bool // created while updates were under way
}

type cbWorld struct {
	*policyWorld
	cur    map[string]cbRef
	past   map[string]bool
	suites []*cbSuite
}

func (p *cbWorld) apply(cls []*v3cluster.Cluster) {
	p.cur = map[string]cbRef{}
	for _, cl := range cls {
		if r, ok := refBreaker(cl); ok && p.subs[C][cl.Name] {
			p.cur[cl.Name] = r
			p.past[cl.Name] = true
			for _, s := range p.suites {
				s.ever[cl.Name] = true
			}
		}
	}
}

func (p *cbWorld) newSuite(service bool) *cbSuite {
	s := &cbSuite{id: len(p.suites), service: service, ever: map[string]bool{}}
	s.cl = newClient(xdssuite.WithServiceCircuitBreak(service))
	for n := range p.cur {
		s.ever[n] = true
	}
	p.suites = append(p.suites, s)
	return s
}

var cbDefault = circuitbreak.GetDefaultCBConfig()

func (p *cbWorld) check(op string) {
	c := p.c
	for _, s := range p.suites {
		if s.cl.cb == nil {
			continue
		}
		top, _ := s.cl.cb.Dump().(map[string]interface{})
		cfgs, _ := top["cb_config"].(map[string]interface{})
		got, ok := cfgs["service"].(map[string]interface{})
		if !ok {
			c.R.harnessError("the dump of the circuit breaker cannot be read")
			return
		}
		c.R.Count("breaker_dumps", 1)
		names := map[string]bool{}
		for n := range got {
			names[n] = true
		}
		for n := range p.past {
			names[n] = true
		}
		for _, n := range sortedKeys(names) {
			var cfg *circuitbreak.CBConfig
			if v, ok := got[n].(circuitbreak.CBConfig); ok {
				cfg = &v
			}
			want, in := p.cur[n]
			c.R.Count("breaker_configs_compared", 1)
			switch {
			case in && cfg == nil:
				c.Violate("C16", "missing", "after %s: cluster %q has no configuration, expected %v", op, n, want)
			case in && want.enable && (!cfg.Enable || math.Abs(cfg.ErrRate-float64(want.rate)/100) > 1e-9 || cfg.MinSample != int64(want.volume)):
				c.Violate("C16", "config", "after %s: cluster %q is configured as %+v, expected %v", op, n, *cfg, want)
			case in && !want.enable && cfg.Enable:
				c.Violate("C16", "not-disabled", "after %s: cluster %q is configured as %+v, expected it disabled", op, n, *cfg)
			case !in && cfg == nil && s.ever[n] && !s.settling:
				c.Violate("C16", "not-disabled", "after %s: cluster %q, configured before, has the default configuration instead of a disabled one", op, n)
			case !in && cfg != nil && cfg.Enable && *cfg != cbDefault:
				c.Violate("C16", "stale", "after %s: cluster %q is configured as %+v, the latest update does not configure it", op, n, *cfg)
			case !in && cfg != nil && cfg.Enable && s.ever[n] && !s.settling:
				c.Violate("C16", "not-disabled", "after %s: cluster %q, configured before, is enabled with the default configuration", op, n)
			}
		}
	}
}

// trip calls through the breaker of a suite and compares every decision with a reference breaker.
func (p *cbWorld) trip(s *cbSuite, name string) {
	c := p.c
	var mw endpoint.Middleware
	if s.service {
		mw = circuitbreak.NewCircuitBreakerMW(*s.cl.cb.ServiceControl(), s.cl.cb.ServicePanel())
	} else {
		mw = func(next endpoint.Endpoint) endpoint.Endpoint { return endpoint.Chain(s.cl.imws...)(next) }
	}
	want, in := p.cur[name]
	if !in && !s.ever[name] {
		return
	}
	k := &call{dest: "svc", svc: "Svc", method: "M"}
	n := 40 + int(want.volume)
	if want.volume > 400 {
		n = 300
	}
	// failures a little above or below the threshold
	pct := c.Rng.Intn(101)
	if want.enable && chance(c.Rng, 60) {
		pct = int(want.rate) + c.Rng.Intn(15) - 5
	}
	fails, total, open := 0, 0, false
	errNow := error(nil)
	ep := mw(func(context.Context, interface{}, interface{}) error { return errNow })
	passed := 0
	for i := 0; i < n; i++ {
		ri := k.info()
		_ = remoteinfo.AsRemoteInfo(ri.To()).SetTag(tagKey, name)
		errNow = nil
		bad := c.Rng.Intn(100) < pct
		if bad {
			errNow = pick(c.Rng, []error{kerrors.ErrRPCTimeout, errors.New("failed")})
		}
		err := ep(rpcinfo.NewCtxWithRPCInfo(context.Background(), ri), nil, nil)
		rejected := errors.Is(err, kerrors.ErrCircuitBreak) || errors.Is(err, kerrors.ErrServiceCircuitBreak)
		if rejected != open {
			c.Violate("C16", "behaviour", "cluster %q (%v): call %d after %d failures of %d was rejected: %v, expected %v", name, want, i, fails, total, rejected, open)
			return
		}
		if open {
			continue
		}
		passed++
		total++
		if bad {
			fails++
			open = want.enable && total >= int(want.volume) && float64(fails)/float64(total) >= float64(want.rate)/100
		}
	}
	c.R.Count("breaker_probes", 1)
	c.R.Count("breaker_calls", n)
	if open {
		c.R.Count("breakers_tripped", 1)
	}
}

func (p *cbWorld) cluster(name string) *v3cluster.Cluster {
	cl := p.g.cluster(name)
	if cl.OutlierDetection != nil && chance(p.c.Rng, 60) {
		cl.OutlierDetection.FailurePercentageThreshold = u32(uint32(1 + p.c.Rng.Intn(100)))
		if chance(p.c.Rng, 5) {
			cl.OutlierDetection.FailurePercentageThreshold = u32(uint32(101 + p.c.Rng.Intn(200)))
		}
		cl.OutlierDetection.FailurePercentageRequestVolume = u32(pick(p.c.Rng, []uint32{1, 2, 5, 10, 50, 100}))
	}
	return cl
}

func (p *cbWorld) batch() (cls []*v3cluster.Cluster, ms []proto.Message) {
	for _, n := range sortedKeys(p.subs[C]) {
		if chance(p.c.Rng, 65) {
			cl := p.cluster(n)
			cls = append(cls, cl)
		}
	}
	p.c.Rng.Shuffle(len(cls), func(i, j int) { cls[i], cls[j] = cls[j], cls[i] })
	for _, cl := range cls {
		ms = append(ms, cl)
	}
	return
}

func breakerCases(r *Run, n int) {
	pool := []string{"c1", "c2", "outbound|80|v1|a.b.svc.cluster.local", "outbound|80|v2|a.b.svc.cluster.local", "c5", "c6"}
	for i := 0; i < n; i++ {
		r.Case("breaker", i, func(c *Case) {
			names := pool
			if chance(c.Rng, 40) {
				// names that are not the same
				names = append([]string{"C1", "outbound|80|V1|a.b.svc.cluster.local", "outbound|80||a.b.svc.cluster.local", "c1.", "c"}, pool...)
				c.Rng.Shuffle(len(names), func(i, j int) { names[i], names[j] = names[j], names[i] })
			}
			c.Bubble(func() {
				p := &cbWorld{policyWorld: newPolicyWorld(c, WCfg{LDS: chance(c.Rng, 30)}), cur: map[string]cbRef{}, past: map[string]bool{}}
				defer p.w.Close()
				defer func() {
					for _, s := range p.suites {
						s.cl.Close()
					}
				}()
				if chance(c.Rng, 60) {
					p.newSuite(true)
				}
				if chance(c.Rng, 40) {
					p.newSuite(false)
				}
				if chance(c.Rng, 80) {
					p.sub(C, names[:1+c.Rng.Intn(len(names))]...)
				}
				if chance(c.Rng, 3) {
					var many []string
					for j, n := 0, 70+c.Rng.Intn(80); j < n; j++ {
						many = append(many, fmt.Sprintf("outbound|%d||m%d.svc", 8000+j, j))
					}
					p.sub(C, many...)
				}
				var last []proto.Message
				var lastCls []*v3cluster.Cluster
				for step := 0; step < 14; step++ {
					switch x := c.Rng.Intn(20); {
					case x < 8:
						cls, ms := p.batch()
						if p.push(C, ms...) {
							p.apply(cls)
							p.op("update of %d clusters %v", len(cls), p.cur)
							last, lastCls = ms, cls
						}
					case x == 8:
						if len(lastCls) == 0 {
							break
						}
						// the same clusters, one thing changed
						j := c.Rng.Intn(len(lastCls))
						switch c.Rng.Intn(3) {
						case 0:
							lastCls = append(append([]*v3cluster.Cluster(nil), lastCls[:j]...), lastCls[j+1:]...)
						case 1:
							cl := proto.Clone(lastCls[j]).(*v3cluster.Cluster)
							cl.OutlierDetection = nil
							lastCls = append(append(append([]*v3cluster.Cluster(nil), lastCls[:j]...), cl), lastCls[j+1:]...)
						case 2:
							cl := p.cluster(lastCls[j].Name)
							lastCls = append(append(append([]*v3cluster.Cluster(nil), lastCls[:j]...), cl), lastCls[j+1:]...)
						}
						last = nil
						for _, cl := range lastCls {
							last = append(last, cl)
						}
						if p.push(C, last...) {
							p.apply(lastCls)
							p.op("small change %v", p.cur)
						}
					case x == 9:
						if len(last) > 0 && p.push(C, last...) {
							p.apply(lastCls)
							p.op("same update again")
						}
					case x == 10:
						if p.push(C) {
							p.apply(nil)
							p.op("empty update")
						}
					case x <= 12:
						_, ms := p.batch()
						if p.pushBad(C, ms...) {
							p.op("rejected update")
						}
					case x == 13:
						p.op("reconnect")
						p.reconnect()
					case x <= 15:
						if len(p.suites) < 6 {
							s := p.newSuite(chance(c.Rng, 60))
							p.op("new suite %d", s.id)
						}
					case x == 16:
						n := pick(c.Rng, names)
						p.sub(C, n)
						p.op("subscribe %s", n)
					case x == 17:
						// other types do not matter
						p.sub(R, "rt")
						p.push(R, p.g.table("rt"))
						p.sub(E, "c1")
						p.push(E, p.g.cla("c1", 0))
						p.op("other types")
					case x == 18:
						// several updates in a row
						for j := 0; j < 3; j++ {
							cls, ms := p.batch()
							if p.push(C, ms...) {
								p.apply(cls)
							}
						}
						p.op("burst %v", p.cur)
					case x == 19:
						// suites created while updates arrive
						var wg sync.WaitGroup
						wg.Add(1)
						var s *cbSuite
						service := chance(c.Rng, 70)
						go func() {
							defer wg.Done()
							defer c.recovered("suite")
							s = &cbSuite{service: service, ever: map[string]bool{}, settling: true, cl: newClient(xdssuite.WithServiceCircuitBreak(service))}
						}()
						for j := 0; j < 3; j++ {
							cls, ms := p.batch()
							if p.push(C, ms...) {
								p.apply(cls)
							}
						}
						wg.Wait()
						synctest.Wait()
						if s != nil {
							for n := range p.cur {
								s.ever[n] = true
							}
							p.suites = append(p.suites, s)
						}
						p.op("suite during updates %v", p.cur)
					}
					synctest.Wait()
					if len(p.ops) > 0 {
						p.check(p.ops[len(p.ops)-1])
					}
				}
				// behaviour at the end, of the old suites and of a new one
				p.newSuite(chance(c.Rng, 50))
				for _, s := range p.suites {
					for _, n := range names {
						if chance(c.Rng, 60) && !(s.settling && !p.known(n)) {
							p.trip(s, n)
						}
					}
				}
				if len(p.past) > 0 {
					r.Distinct("nontrivial", strings.Join(p.ops, ";"))
					r.Sample("%s", strings.Join(p.ops, "; "))
				}
			})
		})
	}
}

func (p *cbWorld) known(n string) bool { _, ok := p.cur[n]; return ok }

// ---------------------------------------------------------------- C17

// refRetry lists per policy key the acceptable policies (several when routes disagree).
func refRetry(tables map[string]*v3route.RouteConfiguration) map[string]map[string]bool {
	out := map[string]map[string]bool{}
	add := func(k, p string) {
		if out[k] == nil {
			out[k] = map[string]bool{}
		}
		out[k][p] = true
	}
	for _, tn := range sortedKeys(tables) {
		for _, vh := range tables[tn].VirtualHosts {
			for _, rt := range vh.Routes {
				a := rt.GetRoute()
				if a == nil {
					continue
				}
				var cs []string
				switch s := a.ClusterSpecifier.(type) {
				case *v3route.RouteAction_Cluster:
					cs = []string{s.Cluster}
				case *v3route.RouteAction_WeightedClusters:
					for _, w := range s.WeightedClusters.GetClusters() {
						cs = append(cs, w.Name)
					}
				}
				pol, methods := refPolicy(a.RetryPolicy)
				for _, cl := range cs {
					add(cl, pol)
					for _, m := range methods {
						add(cl+"|"+m, pol)
					}
				}
			}
		}
	}
	return out
}

func refPolicy(rp *v3route.RetryPolicy) (string, []string) {
	n := int(rp.GetNumRetries().GetValue())
	rate, methods := 0.1, []string(nil) // what Kitex makes of an absent or invalid rate
	for _, h := range rp.GetRetriableHeaders() {
		v := h.GetStringMatch().GetExact()
		if v == "" {
			continue
		}
		switch h.Name {
		case "kitexRetryErrorRate":
			var f float64
			if _, err := fmt.Sscanf(v, "%g", &f); err == nil && f > 0 && f <= 0.3 {
				rate = f
			}
		case "kitexRetryMethods":
			methods = strings.Split(v, ",")
		}
	}
	bo := "none"
	if b := rp.GetRetryBackOff(); b != nil {
		base, max := refDur(b.BaseInterval).Milliseconds(), refDur(b.MaxInterval).Milliseconds()
		if max > base {
			bo = fmt.Sprintf("random %d..%d", base, max)
		} else {
			bo = fmt.Sprintf("fixed %d", base)
		}
	}
	per := refDur(rp.GetPerTryTimeout()).Milliseconds()
	return fmt.Sprintf("attempts=%d total=%dms rate=%g backoff=%s", n, per*int64(n), rate, bo), methods
}

// sumRetry normalises what the container has installed under a key.
func sumRetry(v interface{}) string {
	m, ok := v.(map[string]interface{})
	if !ok {
		return fmt.Sprintf("%v", v)
	}
	if m["enable"] != true {
		return "not enabled"
	}
	if e, ok := m["err_msg"]; ok {
		return fmt.Sprint("error ", e)
	}
	p, ok := m["failure_retry"].(*retry.FailurePolicy)
	if !ok || p == nil {
		return "no failure retry"
	}
	bo := "none"
	if b := p.BackOffPolicy; b != nil {
		switch b.BackOffType {
		case retry.NoneBackOffType:
		case retry.FixedBackOffType:
			bo = fmt.Sprintf("fixed %g", b.CfgItems[retry.FixMSBackOffCfgKey])
		case retry.RandomBackOffType:
			bo = fmt.Sprintf("random %g..%g", b.CfgItems[retry.MinMSBackOffCfgKey], b.CfgItems[retry.MaxMSBackOffCfgKey])
		default:
			bo = string(b.BackOffType)
		}
	}
	s := fmt.Sprintf("attempts=%d total=%dms rate=%g backoff=%s", p.StopPolicy.MaxRetryTimes, p.StopPolicy.MaxDurationMS, p.StopPolicy.CBPolicy.ErrorRate, bo)
	if p.RetrySameNode {
		s += " same-node"
	}
	return s
}

type rpSuite struct {
	id    int
	cl    *suiteClient
	dirty bool // tables were evicted since the last update
}

type rpWorld struct {
	*policyWorld
	cached map[string]*v3route.RouteConfiguration
	suites []*rpSuite
}

func (p *rpWorld) newSuite() *rpSuite {
	s := &rpSuite{id: len(p.suites), cl: newClient(xdssuite.WithMatchRetryMethod(chance(p.c.Rng, 50)))}
	p.suites = append(p.suites, s)
	return s
}

func (p *rpWorld) apply(ts []*v3route.RouteConfiguration) {
	for _, t := range ts {
		if p.subs[R][t.Name] {
			p.cached[t.Name] = t
		}
	}
	for _, s := range p.suites {
		s.dirty = false
	}
}

func (p *rpWorld) check(op string) {
	c := p.c
	want := refRetry(p.cached)
	for _, s := range p.suites {
		if s.dirty {
			continue
		}
		got, ok := s.cl.rc.Dump().(map[string]interface{})
		if !ok {
			c.R.harnessError("the dump of the retry container cannot be read")
			return
		}
		c.R.Count("retry_dumps", 1)
		keys := map[string]bool{}
		for k := range got {
			if k != "has_code_cfg" && k != "msg" {
				keys[k] = true
			}
		}
		for k := range want {
			keys[k] = true
		}
		for _, k := range sortedKeys(keys) {
			c.R.Count("retry_policies_compared", 1)
			v, has := got[k]
			switch {
			case want[k] == nil:
				c.Violate("C17", "stale", "after %s: a policy is installed for %q (%s), no cached table leads there", op, k, sumRetry(v))
			case !has:
				c.Violate("C17", "missing", "after %s: no policy is installed for %q, expected %v", op, k, sortedKeys(want[k]))
			case !want[k][sumRetry(v)]:
				c.Violate("C17", "policy", "after %s: the policy of %q is %q, expected %v", op, k, sumRetry(v), sortedKeys(want[k]))
			}
		}
	}
}

// exercise makes failing calls with a policy and compares their instants with it, in virtual time.
func (p *rpWorld) exercise(s *rpSuite, key string, want map[string]bool) {
	c := p.c
	if len(want) != 1 {
		return
	}
	pol := sortedKeys(want)[0]
	var n, total int
	var rate float64
	var kind string
	if _, err := fmt.Sscanf(pol, "attempts=%d total=%dms rate=%g backoff=%s", &n, &total, &rate, &kind); err != nil {
		c.R.harnessError(err.Error())
		return
	}
	lo, hi := 0, 0
	rest := pol[strings.Index(pol, "backoff=")+8:]
	switch kind {
	case "fixed":
		fmt.Sscanf(rest, "fixed %d", &lo)
		hi = lo
	case "random":
		fmt.Sscanf(rest, "random %d..%d", &lo, &hi)
	}
	// the breaker of the container counts per service and method
	k := &call{dest: fmt.Sprintf("svc-%x", key), svc: "Svc", method: "M"}
	ri := k.info()
	_ = remoteinfo.AsRemoteInfo(ri.To()).SetTag(tagKey, key)
	var at []time.Duration
	cost := time.Duration(c.Rng.Intn(50)) * time.Millisecond
	start := time.Now()
	ctx := rpcinfo.NewCtxWithRPCInfo(context.Background(), ri)
	_, _, err := s.cl.rc.WithRetryIfNeeded(ctx, nil, func(context.Context, retry.Retryer) (rpcinfo.RPCInfo, interface{}, error) {
		at = append(at, time.Since(start))
		time.Sleep(cost)
		return ri, nil, kerrors.ErrRPCTimeout
	}, ri, nil)
	if err == nil {
		c.Violate("C17", "behaviour", "a call that always fails succeeded under policy %s", pol)
	}
	exp := 1
	for i := 1; i <= n && i <= len(at); i++ {
		ended := at[i-1] + cost
		if total > 0 && ended > time.Duration(total)*time.Millisecond {
			break
		}
		exp++
		if i < len(at) {
			d := at[i] - ended
			if d < time.Duration(lo)*time.Millisecond || d > time.Duration(hi)*time.Millisecond {
				c.Violate("C17", "behaviour", "policy %s of %q: attempt %d came %v after the previous one", pol, key, i, d)
				return
			}
		}
	}
	if len(at) != exp {
		c.Violate("C17", "behaviour", "policy %s of %q: %d calls at %v (each takes %v), expected %d", pol, key, len(at), at, cost, exp)
	}
	c.R.Count("retry_probes", 1)
	c.R.Count("retry_probe_calls", len(at))
}

func (p *rpWorld) policy() *v3route.RetryPolicy {
	r := p.c.Rng
	if chance(r, 15) {
		return nil
	}
	ms := func(max int) *durationpb.Duration {
		return durationpb.New(time.Duration(1+r.Intn(max)) * time.Millisecond)
	}
	rp := &v3route.RetryPolicy{RetryOn: "5xx"}
	if chance(r, 90) {
		rp.NumRetries = u32(uint32(r.Intn(6)))
	}
	if chance(r, 85) {
		rp.PerTryTimeout = ms(pick(r, []int{20, 3000, 36000000}))
		if chance(r, 10) {
			rp.PerTryTimeout = durationpb.New(0)
		}
	}
	if chance(r, 30) {
		rp.PerTryIdleTimeout = ms(500)
	}
	if chance(r, 65) {
		bo := &v3route.RetryPolicy_RetryBackOff{BaseInterval: ms(pick(r, []int{300, 300, 5000}))}
		switch r.Intn(5) {
		case 0:
		case 1:
			bo.MaxInterval = bo.BaseInterval
		case 2:
			bo.MaxInterval = ms(300)
		default:
			bo.MaxInterval = durationpb.New(refDur(bo.BaseInterval) + time.Duration(1+r.Intn(2000))*time.Millisecond)
		}
		rp.RetryBackOff = bo
	}
	if chance(r, 55) {
		rp.RetriableHeaders = append(rp.RetriableHeaders, exactM("kitexRetryErrorRate", pick(r, []string{"0.1", "0.05", "0.3", "0.25", "1e-2", "0.5", "-1", "abc", "0"})))
	}
	if chance(r, 55) {
		rp.RetriableHeaders = append(rp.RetriableHeaders, exactM("kitexRetryMethods", pick(r, []string{"Get", "Get,Set", "Set,Get,get", "Get;Set,Set"})))
	}
	r.Shuffle(len(rp.RetriableHeaders), func(i, j int) {
		rp.RetriableHeaders[i], rp.RetriableHeaders[j] = rp.RetriableHeaders[j], rp.RetriableHeaders[i]
	})
	return rp
}

// table makes a table whose clusters are mostly its own, sometimes shared with other tables.
func (p *rpWorld) table(name string) *v3route.RouteConfiguration {
	r := p.c.Rng
	t := &v3route.RouteConfiguration{Name: name}
	used := map[string]*v3route.RetryPolicy{}
	for i, n := 0, pick(r, []int{0, 1, 1, 2}); i < n; i++ {
		vh := &v3route.VirtualHost{Name: fmt.Sprint("vh", i), Domains: []string{"*"}}
		for j, m := 0, r.Intn(4); j < m; j++ {
			var cs []string
			for k, l := 0, pick(r, []int{1, 1, 1, 2, 3}); k < l; k++ {
				cn := fmt.Sprintf("%s-c%d", name, r.Intn(4))
				if chance(r, 12) {
					cn = "shared"
				}
				cs = append(cs, cn)
			}
			pol := p.policy()
			if len(cs) == 1 && used[cs[0]] != nil && chance(r, 80) {
				pol = used[cs[0]] // mostly the routes of a table agree on a cluster
			}
			for _, cn := range cs {
				used[cn] = pol
			}
			a := &v3route.RouteAction{Timeout: p.g.dur(), RetryPolicy: pol}
			if len(cs) == 1 && chance(r, 60) {
				a.ClusterSpecifier = &v3route.RouteAction_Cluster{Cluster: cs[0]}
			} else {
				w := &v3route.WeightedCluster{}
				for _, cn := range cs {
					cw := &v3route.WeightedCluster_ClusterWeight{Name: cn, Weight: u32(uint32(1 + r.Intn(100)))}
					if chance(r, 10) {
						cw.Weight = u32(0) // still named by the table
					}
					w.Clusters = append(w.Clusters, cw)
				}
				a.ClusterSpecifier = &v3route.RouteAction_WeightedClusters{WeightedClusters: w}
			}
			vh.Routes = append(vh.Routes, &v3route.Route{
				Match:  &v3route.RouteMatch{PathSpecifier: &v3route.RouteMatch_Path{Path: p.g.path()}, Headers: p.g.headers()},
				Action: &v3route.Route_Route{Route: a},
			})
			if chance(r, 6) {
				vh.Routes = append(vh.Routes, &v3route.Route{
					Match:  &v3route.RouteMatch{PathSpecifier: &v3route.RouteMatch_Prefix{Prefix: "/"}},
					Action: &v3route.Route_DirectResponse{DirectResponse: &v3route.DirectResponseAction{Status: 404}},
				})
			}
		}
		t.VirtualHosts = append(t.VirtualHosts, vh)
	}
	return t
}

func (p *rpWorld) batch(pct int) (ts []*v3route.RouteConfiguration, ms []proto.Message) {
	for _, n := range sortedKeys(p.subs[R]) {
		if chance(p.c.Rng, pct) {
			t := p.table(n)
			if old := p.cached[n]; old != nil && chance(p.c.Rng, 40) {
				// a small change of the table in force
				t = proto.Clone(old).(*v3route.RouteConfiguration)
				p.tweak(t)
			}
			ts = append(ts, t)
		}
	}
	p.c.Rng.Shuffle(len(ts), func(i, j int) { ts[i], ts[j] = ts[j], ts[i] })
	for _, t := range ts {
		ms = append(ms, t)
	}
	return
}

func (p *rpWorld) tweak(t *v3route.RouteConfiguration) {
	r := p.c.Rng
	if len(t.VirtualHosts) == 0 {
		return
	}
	vh := pick(r, t.VirtualHosts)
	if len(vh.Routes) == 0 {
		return
	}
	i := r.Intn(len(vh.Routes))
	switch r.Intn(3) {
	case 0:
		vh.Routes = append(vh.Routes[:i], vh.Routes[i+1:]...)
	case 1:
		if a := vh.Routes[i].GetRoute(); a != nil {
			a.RetryPolicy = p.policy()
		}
	case 2:
		if a := vh.Routes[i].GetRoute(); a != nil && a.RetryPolicy != nil {
			switch r.Intn(3) {
			case 0:
				a.RetryPolicy.RetriableHeaders = nil
			case 1:
				a.RetryPolicy.RetryBackOff = nil
			case 2:
				a.RetryPolicy.NumRetries = u32(uint32(r.Intn(6)))
			}
		}
	}
}

func retryCases(r *Run, n int) {
	for i := 0; i < n; i++ {
		r.Case("retry", i, func(c *Case) {
			names := []string{"80", "9080", "svc.ns1:80", "other"}
			if chance(c.Rng, 30) {
				names = []string{"80", "Svc.ns1:80", "8", "svc.ns1:80"}
			}
			c.Bubble(func() {
				p := &rpWorld{policyWorld: newPolicyWorld(c, WCfg{LDS: chance(c.Rng, 30)}), cached: map[string]*v3route.RouteConfiguration{}}
				defer p.w.Close()
				defer func() {
					for _, s := range p.suites {
						s.cl.Close()
					}
				}()
				if chance(c.Rng, 75) {
					p.newSuite()
				}
				p.sub(R, names[:1+c.Rng.Intn(len(names))]...)
				seen := 0
				for step := 0; step < 14; step++ {
					switch x := c.Rng.Intn(20); {
					case x < 7:
						ts, ms := p.batch(55)
						if p.push(R, ms...) {
							p.apply(ts)
							seen += len(ts)
							p.op("update of %d tables", len(ts))
						}
					case x == 7:
						ts, ms := p.batch(100)
						if p.push(R, ms...) {
							p.apply(ts)
							p.op("full update of %d tables", len(ts))
						}
					case x == 8:
						// a table loses all its routes
						n := pick(c.Rng, sortedKeysOr(p.subs[R], "other"))
						t := &v3route.RouteConfiguration{Name: n}
						if p.push(R, t) {
							p.apply([]*v3route.RouteConfiguration{t})
							p.op("table %s emptied", n)
						}
					case x == 9:
						if p.push(R) {
							p.apply(nil)
							p.op("update without tables")
						}
					case x <= 11:
						_, ms := p.batch(70)
						if p.pushBad(R, ms...) {
							p.op("rejected update")
						}
					case x == 12:
						p.op("reconnect")
						p.reconnect()
					case x <= 14:
						if len(p.suites) < 5 {
							p.newSuite()
							p.op("new suite")
						}
					case x == 15:
						n := pick(c.Rng, names)
						p.sub(R, n)
						p.op("subscribe %s", n)
					case x == 16:
						// inline tables and other types do not matter
						p.sub(L, "svc")
						p.push(L, p.g.listenerOf("svc", []*v3listener.Filter{typedFilter("hcm", mustAny(p.g.hcm(p.table("inline"), "", 1)))}))
						p.sub(C, "c1")
						p.push(C, p.g.cluster("c1"))
						p.op("other types")
					case x == 17:
						// nothing is used for minutes: everything is evicted
						time.Sleep(5 * time.Minute)
						synctest.Wait()
						p.cached, p.subs[R] = map[string]*v3route.RouteConfiguration{}, map[string]bool{}
						for _, s := range p.suites {
							s.dirty = true
						}
						p.op("evicted")
						p.sub(R, names[:1+c.Rng.Intn(len(names))]...)
					case x == 18:
						for j := 0; j < 3; j++ {
							ts, ms := p.batch(50)
							if p.push(R, ms...) {
								p.apply(ts)
							}
						}
						p.op("burst")
					case x == 19:
						var wg sync.WaitGroup
						wg.Add(1)
						var s *rpSuite
						go func() {
							defer wg.Done()
							defer c.recovered("suite")
							s = &rpSuite{cl: newClient()}
						}()
						for j := 0; j < 3; j++ {
							ts, ms := p.batch(50)
							if p.push(R, ms...) {
								p.apply(ts)
							}
						}
						wg.Wait()
						if s != nil {
							p.suites = append(p.suites, s)
						}
						p.op("suite during updates")
					}
					synctest.Wait()
					if len(p.ops) > 0 {
						p.check(p.ops[len(p.ops)-1])
					}
				}
				s := p.newSuite()
				p.check("the end")
				want := refRetry(p.cached)
				for _, k := range sortedKeys(want) {
					p.exercise(s, k, want[k])
				}
				// calls take their time: nothing may have been evicted meanwhile that is judged later
				if seen > 0 {
					r.Distinct("nontrivial", fmt.Sprint(strings.Join(p.ops, ";"), want))
					r.Sample("%s -> %v", strings.Join(p.ops, "; "), want)
				}
			})
		})
	}
}

func sortedKeysOr[V any](m map[string]V, def string) []string {
	if len(m) == 0 {
		return []string{def}
	}
	return sortedKeys(m)
}

// ---------------------------------------------------------------- C18

// refLimit gives the QPS limit of a port, 0 when unlimited.
func refLimit(l *v3listener.Listener, port uint32) uint64 {
	if l == nil {
		return 0
	}
	buckets := map[uint32]uint64{}
	for _, f := range refListenerFilters(l) {
		if _, ok := buckets[f.port]; !ok || !f.thrift {
			buckets[f.port] = uint64(f.perFill)
		}
	}
	if v, ok := buckets[port]; ok {
		return v
	}
	return buckets[0]
}

type recUpdater struct {
	mu     sync.Mutex
	opts   []limit.Option
	hold   int    // keeps every call going for a while
	during func() // happens during the first call
}

func (u *recUpdater) UpdateLimit(o *limit.Option) bool {
	u.mu.Lock()
	if o != nil {
		u.opts = append(u.opts, limit.Option{MaxConnections: o.MaxConnections, MaxQPS: o.MaxQPS})
	}
	u.mu.Unlock()
	if u.during != nil {
		u.during()
		u.during = nil
	}
	for i := 0; i < u.hold; i++ {
		runtime.Gosched()
	}
	return true
}

func (u *recUpdater) last() (limit.Option, int) {
	u.mu.Lock()
	defer u.mu.Unlock()
	if len(u.opts) == 0 {
		return limit.Option{}, 0
	}
	return u.opts[len(u.opts)-1], len(u.opts)
}

type limServer struct {
	id   int
	port uint32
	opt  *limit.Option
	up   *recUpdater
}

type limWorld struct {
	*policyWorld
	inbound *v3listener.Listener
	servers []*limServer
	ports   []uint32
}

func (p *limWorld) newServer(port uint32) *limServer {
	synctest.Wait()
	s := &limServer{id: len(p.servers), port: port, opt: serverLimit(portOpts(port)...)}
	p.servers = append(p.servers, s)
	// the server builds its limiter from the option, and then asks for the limit in force through UpdateControl
	p.c.R.Count("limits_compared", 1)
	if e := limitOK(*s.opt, refLimit(p.inbound, port)); e != "" {
		p.c.Violate("C18", "option", "a new server of port %d: %s", port, e)
	}
	return s
}

func portOpts(port uint32) []xdssuite.Option {
	if port == 0 {
		return nil
	}
	return []xdssuite.Option{xdssuite.WithServicePort(port)}
}

func isUnlimited(n int) bool { return n <= 0 || n >= math.MaxInt32 }

func limitOK(o limit.Option, want uint64) string {
	if want == 0 || want >= math.MaxInt32 {
		if !isUnlimited(o.MaxQPS) {
			return fmt.Sprintf("the QPS limit is %d, expected none", o.MaxQPS)
		}
	} else if uint64(o.MaxQPS) != want {
		return fmt.Sprintf("the QPS limit is %d, expected %d", o.MaxQPS, want)
	}
	if !isUnlimited(o.MaxConnections) {
		return fmt.Sprintf("connections are limited to %d", o.MaxConnections)
	}
	return ""
}

func (p *limWorld) check(op string) {
	c := p.c
	for _, s := range p.servers {
		want := refLimit(p.inbound, s.port)
		if s.up == nil {
			continue
		}
		o, n := s.up.last()
		if n == 0 {
			c.Violate("C18", "not-pushed", "after %s: the running server of port %d got no limit", op, s.port)
		} else if e := limitOK(o, want); e != "" {
			c.Violate("C18", "pushed", "after %s: the running server of port %d was given the wrong limit: %s", op, s.port, e)
		}
		c.R.Count("running_limits_compared", 1)
	}
}

func (p *limWorld) start(s *limServer) {
	s.up = &recUpdater{}
	if chance(p.c.Rng, 40) {
		// updates arrive while the limiter of the server is being set up
		s.up.hold = pick(p.c.Rng, []int{100, 1000})
		s.up.during = func() { p.update(p.listener(inbound)) }
	}
	s.opt.UpdateControl(s.up)
	synctest.Wait()
	s.up.hold = 0
}

// listener makes an inbound listener with at most one chain per port.
func (p *limWorld) listener(name string) *v3listener.Listener {
	r := p.c.Rng
	g := p.g
	l := &v3listener.Listener{Name: name}
	var chains []*v3listener.FilterChain
	var def *v3listener.FilterChain
	for _, port := range append([]uint32{0}, p.ports...) {
		if chance(r, 45) {
			continue
		}
		fc := &v3listener.FilterChain{Name: fmt.Sprint("chain", port)}
		if port != 0 {
			fc.FilterChainMatch = &v3listener.FilterChainMatch{DestinationPort: u32(port)}
		} else if chance(r, 40) {
			fc.FilterChainMatch = &v3listener.FilterChainMatch{TransportProtocol: "raw_buffer"}
		}
		var t *v3route.RouteConfiguration
		if chance(r, 85) {
			t = g.table(fmt.Sprint("inbound|", port))
		}
		m := g.hcm(t, "rds", 0)
		if chance(r, 75) {
			fill := pick(r, []uint32{0, 1, 5, 10, 100, 5000, uint32(1 + r.Intn(1<<20))})
			f := bucketFilter(pick(r, []uint32{fill, fill + 7, 1}), fill, chance(r, 50))
			i := r.Intn(len(m.HttpFilters) + 1)
			m.HttpFilters = append(m.HttpFilters[:i:i], append([]*v3hcm.HttpFilter{f}, m.HttpFilters[i:]...)...)
		}
		hf := typedFilter("hcm", mustAny(m))
		tf := typedFilter("thrift", mustAny(&v3thrift.ThriftProxy{RouteConfig: &v3thrift.RouteConfiguration{}}))
		switch r.Intn(8) {
		case 0:
			fc.Filters = []*v3listener.Filter{tf, hf}
		case 1:
			fc.Filters = []*v3listener.Filter{hf, tf}
		case 2:
			fc.Filters = []*v3listener.Filter{g.noiseFilter(), hf, g.noiseFilter()}
		case 3:
			fc.Filters = []*v3listener.Filter{tf}
			if chance(r, 70) {
				fc.Filters = append(fc.Filters, hf)
			}
		default:
			fc.Filters = []*v3listener.Filter{hf}
		}
		if port == 0 && fc.FilterChainMatch == nil && chance(r, 40) {
			def = fc
			continue
		}
		chains = append(chains, fc)
	}
	r.Shuffle(len(chains), func(i, j int) { chains[i], chains[j] = chains[j], chains[i] })
	l.FilterChains, l.DefaultFilterChain = chains, def
	return l
}

// update pushes a listener response; inb is nil when the inbound listener is missing from it.
func (p *limWorld) update(inb *v3listener.Listener) bool {
	var ms []proto.Message
	if inb != nil {
		ms = append(ms, inb)
	}
	for _, n := range sortedKeys(p.subs[L]) {
		if chance(p.c.Rng, 60) {
			ms = append(ms, p.listener(n))
		}
	}
	p.c.Rng.Shuffle(len(ms), func(i, j int) { ms[i], ms[j] = ms[j], ms[i] })
	if !p.push(L, ms...) {
		return false
	}
	p.inbound = inb
	return true
}

func limitCases(r *Run, n int) {
	for i := 0; i < n; i++ {
		r.Case("limit", i, func(c *Case) {
			c.Bubble(func() {
				cfg := WCfg{LDS: true, NDS: chance(c.Rng, 40)}
				hosts := func() map[string][]string {
					return map[string][]string{"svc.ns1.svc.cluster.local": {fmt.Sprintf("10.0.0.%d", 1+c.Rng.Intn(3))}}
				}
				if cfg.NDS {
					cfg.Table = hosts()
				}
				pre := &limWorld{policyWorld: &policyWorld{c: c, g: &gen{r: c.Rng}}, ports: []uint32{8080, 9090, 7070}}
				var first *v3listener.Listener
				if chance(c.Rng, 50) {
					first = pre.listener(inbound)
					cfg.Inbound = first
				}
				p := &limWorld{policyWorld: newPolicyWorld(c, cfg), ports: pre.ports, inbound: first}
				defer p.w.Close()
				port := func() uint32 { return pick(c.Rng, []uint32{8080, 8080, 9090, 0, 1234}) }
				if chance(c.Rng, 80) {
					s := p.newServer(port())
					if chance(c.Rng, 60) {
						p.start(s)
					}
				}
				if chance(c.Rng, 40) && !cfg.NDS {
					p.sub(L, "svc:80", "out")
				}
				if chance(c.Rng, 40) && cfg.NDS {
					p.sub(L, "svc:80")
				}
				p.op("start %v", refLimit(p.inbound, 8080))
				p.check("the start")
				for step := 0; step < 14; step++ {
					switch x := c.Rng.Intn(20); {
					case x < 7:
						if p.update(p.listener(inbound)) {
							p.op("update 8080:%d 9090:%d other:%d", refLimit(p.inbound, 8080), refLimit(p.inbound, 9090), refLimit(p.inbound, 1))
						}
					case x == 7:
						if p.update(nil) {
							p.op("inbound listener missing")
						}
					case x == 8:
						if p.inbound != nil && p.update(p.inbound) {
							p.op("same inbound listener")
						}
					case x <= 10:
						if p.pushBad(L, p.listener(inbound)) {
							p.op("rejected update")
						}
					case x == 11:
						p.op("reconnect")
						p.reconnect()
					case x <= 13:
						if len(p.servers) < 6 {
							s := p.newServer(port())
							p.op("new server of port %d", s.port)
							if chance(c.Rng, 50) {
								p.check("the creation of a limiter")
								p.start(s)
							}
						}
					case x == 14:
						for _, s := range p.servers {
							if s.up == nil {
								p.start(s)
								p.op("server %d runs", s.id)
								break
							}
						}
					case x == 15:
						if cfg.NDS {
							p.push(N, mkTable(hosts()))
							p.op("name table")
						}
					case x == 16:
						// the inbound listener is never evicted
						time.Sleep(7 * time.Minute)
						p.subs[L] = map[string]bool{}
						p.op("idle")
					case x == 17:
						p.update(p.listener(inbound))
						p.update(nil)
						p.update(p.listener(inbound))
						p.op("burst %d", refLimit(p.inbound, 8080))
					case x == 18:
						p.sub(C, "c1")
						p.push(C, p.g.cluster("c1"))
						p.sub(R, "inbound|8080")
						p.push(R, p.g.table("inbound|8080"))
						p.op("other types")
					case x == 19:
						// created and started while updates arrive
						var wg sync.WaitGroup
						wg.Add(1)
						var s *limServer
						pt := port()
						hold := pick(c.Rng, []int{0, 10, 100, 1000})
						go func() {
							defer wg.Done()
							defer c.recovered("server")
							x := &limServer{port: pt, opt: serverLimit(portOpts(pt)...), up: &recUpdater{hold: hold}}
							x.opt.UpdateControl(x.up)
							s = x
						}()
						for j := 0; j < 4; j++ {
							p.update(p.listener(inbound))
						}
						wg.Wait()
						synctest.Wait()
						if s != nil {
							s.up.hold = 0
							p.servers = append(p.servers, s)
						}
						p.op("server of port %d during updates", pt)
					}
					synctest.Wait()
					p.check(p.ops[len(p.ops)-1])
				}
				p.newServer(port())
				for _, s := range p.servers {
					if s.up == nil {
						s.up = &recUpdater{}
						s.opt.UpdateControl(s.up)
					}
				}
				p.check("the end")
				r.Distinct("nontrivial", strings.Join(p.ops, ";"))
				r.Sample("%s", strings.Join(p.ops, "; "))
			})
		})
	}
}

func init() {
	register("C16", func(r *Run) { breakerCases(r, r.N(3200, 60000)) })
	register("C17", func(r *Run) { retryCases(r, r.N(4000, 80000)) })
	register("C18", func(r *Run) { limitCases(r, r.N(4000, 80000)) })
}
