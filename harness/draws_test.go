package harness

import (
	"context"
	"fmt"
	"math"
	"math/rand"
	"sort"

	"github.com/bytedance/gopkg/lang/fastrand"
	"github.com/cloudwego/kitex/pkg/rpcinfo"
	"github.com/cloudwego/kitex/transport"
	v3listener "github.com/envoyproxy/go-control-plane/envoy/config/listener/v3"
	v3route "github.com/envoyproxy/go-control-plane/envoy/config/route/v3"
	v3thrift "github.com/envoyproxy/go-control-plane/envoy/extensions/filters/network/thrift_proxy/v3"

	"github.com/kitex-contrib/xds/xdssuite"
)

// The selections of C09 with the random source under control: the draws a selection makes are observed and decided.
// The tree of all the draws is walked for small totals, which gives the exact probability of every cluster; for large
// totals the single draw is probed at the boundaries, and the pieces between them are measured.
// A selection whose randomness comes from elsewhere is left to the statistical monitor.

type drawn struct {
	fn string
	n  uint64
}

func (d drawn) bounded() bool {
	switch d.fn {
	case "Int63n", "Int31n", "Intn", "Uint32n", "Uint64n":
		return d.n > 0
	}
	return false
}

// picker evaluates one selection with scripted draws.
type picker struct {
	rt  *xdssuite.XDSRouter
	ri  rpcinfo.RPCInfo
	log []drawn
	n   int
}

func (p *picker) pick(script []uint64) (string, error) {
	p.log = p.log[:0]
	p.n++
	i := 0
	h := func(fn string, n uint64) (uint64, bool) {
		p.log = append(p.log, drawn{fn, n})
		v := uint64(0)
		if i < len(script) {
			v = script[i]
		}
		i++
		if n > 0 && v >= n {
			v = n - 1
		}
		return v, true
	}
	fastrand.Hook.Store(&h)
	defer fastrand.Hook.Store(nil)
	res, err := p.rt.Route(context.Background(), p.ri)
	if err != nil {
		return "", err
	}
	return res.ClusterPicked, nil
}

// tree walks every combination of draws; false when a draw is not bounded, or there are too many leaves, or the
// outcome does not depend on the draws alone.
func (p *picker) tree(limit int) (map[string]float64, string, bool) {
	prob := map[string]float64{}
	leaves := 0
	bad := ""
	var walk func(prefix []uint64, w float64) bool
	walk = func(prefix []uint64, w float64) bool {
		if leaves++; leaves > limit || len(prefix) > 8 {
			return false
		}
		name, err := p.pick(prefix)
		k := len(prefix)
		if len(p.log) < k {
			return false
		}
		if len(p.log) == k {
			if err != nil {
				bad = fmt.Sprintf("draws %v: %v", prefix, err)
				name = "(error)"
			}
			prob[name] += w
			return true
		}
		d := p.log[k]
		if !d.bounded() || d.n > uint64(limit) {
			return false
		}
		for v := uint64(0); v < d.n; v++ {
			if !walk(append(prefix[:k:k], v), w/float64(d.n)) {
				return false
			}
		}
		return true
	}
	ok := walk(nil, 1)
	return prob, bad, ok
}

// orders of the clusters whose cumulative sums are probed.
func (w *wroute) orders() [][]int {
	id := make([]int, len(w.ws))
	for i := range id {
		id[i] = i
	}
	by := func(less func(a, b int) bool) []int {
		o := append([]int(nil), id...)
		sort.SliceStable(o, func(a, b int) bool { return less(o[a], o[b]) })
		return o
	}
	return [][]int{
		id,
		by(func(a, b int) bool { return a > b }),
		by(func(a, b int) bool { return w.ws[a] < w.ws[b] }),
		by(func(a, b int) bool { return w.ws[a] > w.ws[b] }),
		by(func(a, b int) bool { return w.names[a] < w.names[b] }),
		by(func(a, b int) bool { return w.names[a] > w.names[b] }),
	}
}

// probes are the values of a draw below n worth looking at.
func (w *wroute) probes(n, total uint64, rng *rand.Rand, extra int) []uint64 {
	set := map[uint64]bool{}
	add := func(v uint64) {
		if v < n {
			set[v] = true
		}
	}
	near := func(v uint64) {
		add(v - 2)
		add(v - 1)
		add(v)
		add(v + 1)
		add(v + 2)
	}
	near(0)
	near(n)
	for _, o := range w.orders() {
		c := uint64(0)
		for _, i := range o {
			c += uint64(w.ws[i])
			near(c)
			if total > 0 && n != total {
				near(uint64(float64(c) / float64(total) * float64(n)))
			}
		}
	}
	for _, v := range w.ws {
		near(uint64(v))
	}
	for s := 0; s < 64; s++ {
		near(uint64(1) << uint(s))
	}
	for i := 0; i < extra; i++ {
		if n > 0 && n <= math.MaxInt64 {
			add(uint64(rng.Int63n(int64(n))))
		}
	}
	out := make([]uint64, 0, len(set))
	for v := range set {
		out = append(out, v)
	}
	sort.Slice(out, func(a, b int) bool { return out[a] < out[b] })
	return out
}

// pieces measures the intervals of a draw that lead to the same cluster.
func (p *picker) pieces(w *wroute, n, total uint64, rng *rand.Rand, extra int) (map[string]float64, map[string]uint64, bool) {
	at := func(v uint64) (string, bool) {
		name, err := p.pick([]uint64{v})
		if len(p.log) != 1 || p.log[0].n != n {
			return "", false
		}
		if err != nil {
			name = "(error)"
		}
		return name, true
	}
	seen := map[string]uint64{}
	type piece struct {
		from uint64
		name string
	}
	ps := w.probes(n, total, rng, extra)
	var out []piece
	var prev uint64
	var prevName string
	for i, v := range ps {
		name, ok := at(v)
		if !ok {
			return nil, nil, false
		}
		if _, ok := seen[name]; !ok {
			seen[name] = v
		}
		if i == 0 {
			out = append(out, piece{0, name})
		} else if name != prevName {
			// a change between two neighbouring probes: bisect every change found
			lo, hi := prev, v
			for cur := prevName; cur != name; {
				a, b := lo, hi
				for a+1 < b {
					m := a + (b-a)/2
					x, ok := at(m)
					if !ok {
						return nil, nil, false
					}
					if x == cur {
						a = m
					} else {
						b = m
					}
				}
				x, ok := at(b)
				if !ok || x == cur {
					return nil, nil, false
				}
				out = append(out, piece{b, x})
				if len(out) > 20000 {
					return nil, nil, false
				}
				if _, ok := seen[x]; !ok {
					seen[x] = b
				}
				cur, lo = x, b
			}
		}
		prev, prevName = v, name
	}
	// the pieces predict fresh values
	for i := 0; i < 2000; i++ {
		v := uint64(rng.Int63n(int64(n)))
		x, ok := at(v)
		k := sort.Search(len(out), func(i int) bool { return out[i].from > v }) - 1
		if !ok || out[k].name != x {
			return nil, seen, false
		}
	}
	share := map[string]float64{}
	for i, pc := range out {
		end := n
		if i+1 < len(out) {
			end = out[i+1].from
		}
		share[pc.name] += float64(end-pc.from) / float64(n)
	}
	return share, seen, true
}

// controlled decides one route; what describes it.
func (w *wroute) controlled(r *Run, c *Case, p *picker, what string, limit, extra int) {
	what = fmt.Sprintf("%s with weights %v (%v)", what, w.ws, w.names)
	if len(w.ws) > 30 {
		what = fmt.Sprintf("route with %d weights %v...", len(w.ws), w.ws[:30])
	}
	var total uint64
	for _, v := range w.ws {
		total += uint64(v)
	}
	name, err := p.pick([]uint64{0})
	log := append([]drawn(nil), p.log...)
	if len(w.exp) == 0 {
		if err == nil {
			c.Violate("C09", "arbitrary", "%s: %q was picked", what, name)
		}
		r.Count("refused", 1)
		return
	}
	support := func(name string, at interface{}) bool {
		if w.exp[name] == 0 {
			c.Violate("C09", "support", "%s: %q is picked when the draws %v are %v", what, name, log, at)
			return false
		}
		return true
	}
	if err != nil {
		c.Violate("C09", "error", "%s: the selection fails when the draws %v are 0: %v", what, log, err)
		return
	}
	if !support(name, 0) {
		return
	}
	if len(log) == 0 {
		r.Count("uncontrolled", 1)
		return
	}
	if prob, bad, ok := p.tree(limit); ok {
		r.Count("exact", 1)
		r.Distinct("nontrivial", "exact"+fmt.Sprint(w.ws))
		if bad != "" {
			c.Violate("C09", "error", "%s: the selection fails, %s", what, bad)
			return
		}
		for _, n := range sortedKeys(prob) {
			if !support(n, "enumerated") {
				return
			}
		}
		for _, n := range sortedKeys(w.exp) {
			if math.Abs(prob[n]-w.exp[n]) > 1e-6 {
				c.Violate("C09", "probability", "%s: over all the values of the draws %v, %q is picked with probability %g, expected %g", what, log, n, prob[n], w.exp[n])
				return
			}
		}
		return
	}
	if len(log) != 1 {
		r.Count("unmeasured", 1)
		return
	}
	d := log[0]
	if !d.bounded() || d.n > math.MaxInt64 {
		for _, v := range w.probes(d.n, total, c.Rng, extra) {
			name, err := p.pick([]uint64{v})
			if err != nil {
				c.Violate("C09", "error", "%s: the selection fails when the draw %v is %d: %v", what, d, v, err)
				return
			}
			if !support(name, v) {
				return
			}
		}
		r.Count("probed", 1)
		return
	}
	share, seen, ok := p.pieces(w, d.n, total, c.Rng, extra)
	for _, n := range sortedKeys(seen) {
		if n == "(error)" {
			c.Violate("C09", "error", "%s: the selection fails when the draw %v is %d", what, d, seen[n])
			return
		}
		if !support(n, seen[n]) {
			return
		}
	}
	if !ok {
		r.Count("unmeasured", 1)
		return
	}
	r.Count("measured", 1)
	r.Distinct("nontrivial", "measured"+fmt.Sprint(w.ws))
	for _, n := range sortedKeys(w.exp) {
		if math.Abs(share[n]-w.exp[n]) > 1e-6 {
			c.Violate("C09", "probability", "%s: %q is picked for %g of the values of the draw %v, expected %g", what, n, share[n], d, w.exp[n])
			return
		}
	}
}

// controlledRoute builds a router with one route.
func (g *gen) controlledRoute(w *wroute, thrift bool) *picker {
	m := &stubMgr{}
	use(m)
	tp := transport.GRPC
	if thrift {
		tp = transport.TTHeader
		f := &v3thrift.ThriftProxy{RouteConfig: &v3thrift.RouteConfiguration{Routes: []*v3thrift.Route{{
			Match: &v3thrift.RouteMatch{MatchSpecifier: &v3thrift.RouteMatch_MethodName{MethodName: ""}},
			Route: &v3thrift.RouteAction{ClusterSpecifier: &v3thrift.RouteAction_WeightedClusters{WeightedClusters: w.thriftClusters()}},
		}}}}
		must(m.listener("s", &v3listener.Listener{Name: "s", FilterChains: []*v3listener.FilterChain{{Filters: []*v3listener.Filter{typedFilter("thrift", mustAny(f))}}}}))
	} else {
		must(m.listener("s", &v3listener.Listener{Name: "s", FilterChains: []*v3listener.FilterChain{{Filters: []*v3listener.Filter{typedFilter("hcm", mustAny(g.hcm(nil, "t", 0)))}}}}))
		must(m.table(&v3route.RouteConfiguration{Name: "t", VirtualHosts: []*v3route.VirtualHost{{Name: "vh", Routes: []*v3route.Route{{
			Match:  &v3route.RouteMatch{PathSpecifier: &v3route.RouteMatch_Prefix{Prefix: "/"}},
			Action: &v3route.Route_Route{Route: &v3route.RouteAction{ClusterSpecifier: &v3route.RouteAction_WeightedClusters{WeightedClusters: w.httpClusters()}}},
		}}}}}))
	}
	return &picker{rt: xdssuite.NewXDSRouter(), ri: (&call{dest: "s", svc: "Svc", method: "M", tp: tp}).info()}
}

// exactVectors: every vector of up to max weights below dom, with all its draws.
func exactVectors(r *Run, max int, dom uint32) {
	idx := 0
	var block [][]uint32
	flush := func() {
		if len(block) == 0 {
			return
		}
		b := block
		block = nil
		r.Case("exact", idx, func(c *Case) {
			for i, ws := range b {
				g := &gen{r: c.Rng}
				w := g.wroute(ws, false)
				p := g.controlledRoute(w, i%4 == 3)
				w.controlled(r, c, p, "route", 4096, 0)
				r.Count("selections", p.n)
				r.Count("vectors", 1)
			}
		})
		idx++
	}
	var rec func(p []uint32)
	rec = func(p []uint32) {
		if len(p) > 0 {
			if block = append(block, append([]uint32(nil), p...)); len(block) == 200 {
				flush()
			}
		}
		if len(p) == max {
			return
		}
		for v := uint32(0); v < dom; v++ {
			rec(append(p[:len(p):len(p)], v))
		}
	}
	rec(nil)
	flush()
}

// largeVectors: random vectors, of any magnitude, length and order.
func largeVectors(r *Run, n int) {
	for i := 0; i < n; i++ {
		r.Case("measured", i, func(c *Case) {
			rng := c.Rng
			g := &gen{r: rng}
			ws := g.vector()
			switch rng.Intn(6) {
			case 0: // many clusters
				ws = make([]uint32, pick(rng, []int{50, 128, 257, 600}))
				mag := pick(rng, []int{1, 2, 10, 1000, 1 << 20})
				for j := range ws {
					if chance(rng, 80) {
						ws[j] = uint32(rng.Intn(mag + 1))
					}
				}
			case 1: // a large one next to small ones and zeros
				ws = make([]uint32, 2+rng.Intn(6))
				for j := range ws {
					ws[j] = uint32(rng.Intn(3))
				}
				ws[rng.Intn(len(ws))] = uint32(1) << uint(5+rng.Intn(27))
			case 2: // around a power of two or of ten
				tot := pick(rng, []int64{100, 127, 128, 255, 256, 1000, 1 << 12, 10000, 1 << 16, 100000, 1000000, 1 << 20, 1 << 31, 1 << 32}) + int64(rng.Intn(5)-2)
				k := 2 + rng.Intn(5)
				ws = nil
				for j := 0; j < k-1 && tot > 0; j++ {
					v := rng.Int63n(tot)
					if v > math.MaxUint32 {
						v = math.MaxUint32
					}
					ws = append(ws, uint32(v))
					tot -= v
				}
				ws = append(ws, uint32(min(tot, math.MaxUint32)))
			}
			w := g.wroute(ws, chance(rng, 10))
			thrift := chance(rng, 30)
			p := g.controlledRoute(w, thrift)
			w.controlled(r, c, p, "route", 3000, 3000)
			r.Count("selections", p.n)
			r.Count("vectors", 1)
		})
	}
}
