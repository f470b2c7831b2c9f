package harness

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"os"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"testing/synctest"
	"time"

	"github.com/cloudwego/kitex/pkg/circuitbreak"
	v3cluster "github.com/envoyproxy/go-control-plane/envoy/config/cluster/v3"
	v3listener "github.com/envoyproxy/go-control-plane/envoy/config/listener/v3"
	v3route "github.com/envoyproxy/go-control-plane/envoy/config/route/v3"
	v3hcm "github.com/envoyproxy/go-control-plane/envoy/extensions/filters/network/http_connection_manager/v3"
	discoveryv3 "github.com/envoyproxy/go-control-plane/envoy/service/discovery/v3"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/anypb"

	"github.com/kitex-contrib/xds/core/manager"
	"github.com/kitex-contrib/xds/core/xdsresource"
)

// ---------------------------------------------------------------- C07: histories of registers

// The receiver of the client is one goroutine, so the updates of a name are a sequence of writes: the write a response
// makes lies between the return of the Recv that delivered it and the next call of Recv. Lookups and dumps are reads.
// All the instants come from one atomic counter. With sequential writes (each of all the names of a kind at once) a
// history is linearizable iff every read can be given a write index such that the write began before the read ended,
// the next write had not ended before the read began, and the indices do not go down along the real-time order of the
// reads: giving every read, in the order of the ends, the least index possible decides it.

type linWrite struct {
	t          RT
	no         int // the number of the response
	bad        bool
	res        map[string]string // stamps, of listeners under their own names
	table      map[string][]string
	begin, end int64 // 0: not (yet)
	at         time.Duration
}

type linRead struct {
	t          RT
	name       string
	begin, end int64
	from, to   time.Duration
	stamp      string // "" when absent
	dump       bool
	all        []linItem // of a dump: every name, at one instant
}

type linItem struct {
	t           RT
	name, stamp string
}

type linMark struct {
	t    RT
	id   int
	seen sync.Map // stamp -> true, after the handler is done
}

type linWorld struct {
	*policyWorld
	m     *Model
	clk   atomic.Int64
	began atomic.Int64 // number of the last response delivered
	mu    sync.Mutex
	plan  map[string]*linWrite
	order []*linWrite
	open  *linWrite
	reads []linRead
	viol  []func()
	marks map[RT]*atomic.Pointer[[]*linMark]
	spin  int
	no    int
	names map[RT][]string
	ips   []string
	cbs   atomic.Pointer[[]*suiteClient]
	lims  atomic.Pointer[[]*recUpdater]
	subAt map[string]int64
	nmark int
	ticks time.Duration // the instant of the creation of the manager
	full  int           // percentage of the names in a response
}

func newLinWorld(c *Case, timeout time.Duration) *linWorld {
	return newLinWorldCfg(c, WCfg{NDS: chance(c.Rng, 60), LDS: chance(c.Rng, 60), Timeout: timeout})
}

func newLinWorldCfg(c *Case, cfg WCfg) *linWorld {
	r := c.Rng
	p := &linWorld{plan: map[string]*linWrite{}, marks: map[RT]*atomic.Pointer[[]*linMark]{}}
	p.names = map[RT][]string{
		L: {"svc-a", "svc-b:8080", "svc-c.ns2", inbound}, R: {"r1", "r2", "r3"}, C: {"c1", "c2", "c3"}, E: {"e1", "e2", "e3"},
	}
	p.ips = []string{"10.0.0.1", "10.0.0.2", "10.0.0.3"}
	p.full = pick(r, []int{50, 75, 100})
	if cfg.NDS {
		cfg.Table = p.table(c)
	}
	if cfg.LDS {
		cfg.Inbound = linListener(inbound, "st-inbound0-", 1)
	}
	cfg.Pre = func(cp *CP) {
		cp.HandleHook = p.deliver
		cp.EnterHook = p.enter
	}
	for _, t := range []RT{L, R, C, E} {
		p.marks[t] = &atomic.Pointer[[]*linMark]{}
		p.marks[t].Store(&[]*linMark{})
	}
	p.cbs.Store(&[]*suiteClient{})
	p.lims.Store(&[]*recUpdater{})
	p.policyWorld = newPolicyWorld(c, cfg)
	p.ticks = time.Since(p.w.cp.t0)
	if p.w.err != nil {
		c.R.harnessError("the world could not be built: " + p.w.err.Error())
		return nil
	}
	p.m = newModel(cfg)
	// what the warm-up delivered
	if cfg.NDS {
		p.order = append(p.order, &linWrite{t: N, table: cfg.Table, begin: 1, end: 2})
	}
	if cfg.LDS {
		p.order = append(p.order, &linWrite{t: L, res: map[string]string{inbound: "st-inbound0-"}, begin: 3, end: 4})
	}
	p.clk.Store(10)
	return p
}

func (p *linWorld) table(c *Case) map[string][]string {
	t := map[string][]string{}
	for _, h := range []string{"svc-a.ns1.svc.cluster.local", "svc-b.ns1.svc.cluster.local", "svc-c.ns2.svc.cluster.local"} {
		if chance(c.Rng, 85) {
			t[h] = []string{pick(c.Rng, p.ips)}
		}
	}
	return t
}

func linListener(name, stamp string, no int) proto.Message {
	if name != inbound {
		return mkListener(name, stamp)
	}
	hcm := &v3hcm.HttpConnectionManager{
		RouteSpecifier: &v3hcm.HttpConnectionManager_RouteConfig{RouteConfig: oneRoute(stamp, time.Second, "in")},
		HttpFilters:    []*v3hcm.HttpFilter{bucketFilter(uint32(no), uint32(no), no%2 == 0)},
	}
	return &v3listener.Listener{Name: name, FilterChains: []*v3listener.FilterChain{{
		Filters: []*v3listener.Filter{{Name: "hcm", ConfigType: &v3listener.Filter_TypedConfig{TypedConfig: mustAny(hcm)}}},
	}}}
}

func linRoute(name, stamp string) proto.Message {
	t := oneRoute(name, time.Second, stamp)
	t.VirtualHosts[0].Routes[0].GetRoute().RetryPolicy = &v3route.RetryPolicy{NumRetries: u32(2)}
	return t
}

func linCluster(name, stamp string, no int) proto.Message {
	cl := mkCluster(name, stamp).(*v3cluster.Cluster)
	cl.OutlierDetection = &v3cluster.OutlierDetection{FailurePercentageThreshold: u32(50), FailurePercentageRequestVolume: u32(uint32(no))}
	return cl
}

// write plans a response.
func (p *linWorld) write(t RT, pct int) (*linWrite, *discoveryv3.DiscoveryResponse) {
	r := p.c.Rng
	p.mu.Lock()
	p.no++
	w := &linWrite{t: t, no: p.no}
	p.mu.Unlock()
	var ms []proto.Message
	if t == N {
		w.table = p.table(p.c)
		ms = append(ms, mkTable(w.table))
	} else {
		w.res = map[string]string{}
		ns := p.names[t]
		if t == L {
			ns = []string{inbound}
			if p.m.nds {
				for _, ip := range p.ips {
					ns = append(ns, ip+"_80", ip+"_8080")
				}
			} else {
				ns = p.names[L]
			}
		}
		for i, n := range ns {
			if !chance(r, pct) {
				continue
			}
			st := fmt.Sprintf("st-%d-%d-", w.no, i)
			w.res[n] = st
			switch t {
			case L:
				ms = append(ms, linListener(n, st, w.no))
			case R:
				ms = append(ms, linRoute(n, st))
			case C:
				ms = append(ms, linCluster(n, st, w.no))
			case E:
				ms = append(ms, mkEndpoints(n, st))
			}
		}
		r.Shuffle(len(ms), func(i, j int) { ms[i], ms[j] = ms[j], ms[i] })
	}
	resp := p.w.Resp(t, fmt.Sprint("v", w.no), ms...)
	return w, resp
}

func (p *linWorld) post(t RT, pct int, bad bool) *linWrite {
	s := p.w.cp.Live()
	if s == nil || !s.Asked(t) {
		return nil
	}
	w, resp := p.write(t, pct)
	if bad {
		w.bad = true
		at := p.c.Rng.Intn(len(resp.Resources) + 1)
		resp.Resources = append(resp.Resources[:at:at], append([]*anypb.Any{badAny(p.c.Rng, t)}, resp.Resources[at:]...)...)
	}
	p.mu.Lock()
	p.plan[resp.Nonce] = w
	p.mu.Unlock()
	s.Push(resp)
	return w
}

func (p *linWorld) deliver(resp *discoveryv3.DiscoveryResponse) {
	p.mu.Lock()
	defer p.mu.Unlock()
	w := p.plan[resp.Nonce]
	if w == nil {
		return
	}
	w.at = time.Since(p.w.cp.t0)
	p.began.Store(int64(w.no))
	w.begin = p.clk.Add(1)
	p.open = w
	p.order = append(p.order, w)
}

func (p *linWorld) enter() {
	p.mu.Lock()
	defer p.mu.Unlock()
	if p.open != nil {
		p.open.end = p.clk.Add(1)
		p.open = nil
	}
}

func (p *linWorld) violate(key, format string, a ...interface{}) {
	msg := fmt.Sprintf(format, a...)
	p.mu.Lock()
	p.viol = append(p.viol, func() { p.c.Violate("C07", key, "%s", msg) })
	p.mu.Unlock()
}

// register adds a handler that records what it has been given once it is done.
func (p *linWorld) register(t RT) {
	p.mu.Lock()
	p.nmark++
	mk := &linMark{t: t, id: p.nmark}
	p.mu.Unlock()
	spin := p.spin
	p.w.m.RegisterXDSUpdateHandler(t, func(up map[string]xdsresource.Resource) {
		var sts []string
		for _, v := range up {
			sts = append(sts, stampOf(v))
		}
		for i := 0; i < spin; i++ {
			runtime.Gosched()
		}
		for _, s := range sts {
			mk.seen.Store(s, true)
		}
		p.c.R.Count("handler_calls", 1)
	})
	for {
		old := p.marks[t].Load()
		n := append(append([]*linMark(nil), *old...), mk)
		if p.marks[t].CompareAndSwap(old, &n) {
			return
		}
	}
}

func (p *linWorld) addClient() {
	cl := newClient()
	for {
		old := p.cbs.Load()
		n := append(append([]*suiteClient(nil), *old...), cl)
		if p.cbs.CompareAndSwap(old, &n) {
			return
		}
	}
}

func (p *linWorld) addServer() {
	o := serverLimit()
	up := &recUpdater{hold: p.spin / 2}
	o.UpdateControl(up)
	for {
		old := p.lims.Load()
		n := append(append([]*recUpdater(nil), *old...), up)
		if p.lims.CompareAndSwap(old, &n) {
			return
		}
	}
}

// look performs and records a lookup, with the monitors of what must be in force by then.
func (p *linWorld) look(ctx context.Context, t RT, name string, deep bool) *linRead {
	marks := *p.marks[t].Load()
	cbs, lims := *p.cbs.Load(), *p.lims.Load()
	rd := linRead{t: t, name: name, from: time.Since(p.w.cp.t0), begin: p.clk.Add(1)}
	v, err := p.w.m.Get(ctx, t, name)
	if err == nil {
		rd.stamp = stampOf(v)
		for _, m := range marks {
			if _, ok := m.seen.Load(rd.stamp); !ok {
				p.violate("policy-before-data", "a lookup of %s %q exposes %q, handler %d, registered before, has not completed for it", tname[t], name, rd.stamp, m.id)
				break
			}
		}
		p.c.R.Count("handlers_verified", len(marks))
		if deep {
			p.policies(&rd, cbs, lims)
		}
	}
	rd.end = p.clk.Add(1)
	rd.to = time.Since(p.w.cp.t0)
	if err == nil && rd.stamp == "" {
		p.violate("no-stamp", "a lookup of %s %q gives %v", tname[t], name, v)
	}
	p.mu.Lock()
	p.reads = append(p.reads, rd)
	p.mu.Unlock()
	return &rd
}

// laterBegan tells whether a response after no that changes the name may have begun.
func (p *linWorld) laterBegan(t RT, name string, no int) bool {
	p.mu.Lock()
	defer p.mu.Unlock()
	for _, w := range p.order {
		if w.t == t && !w.bad && w.no > no {
			if _, has := w.res[name]; has || t == L || t == C {
				return true
			}
		}
	}
	return false
}

// policies verifies that what the suites derive from an exposed resource is in force.
func (p *linWorld) policies(rd *linRead, cbs []*suiteClient, lims []*recUpdater) {
	var no int
	if _, err := fmt.Sscanf(rd.stamp, "st-%d-", &no); err != nil {
		return
	}
	n := 0
	switch {
	case rd.t == C:
		for _, cl := range cbs {
			got := breakerConfigs(cl)
			if got == nil {
				continue
			}
			n++
			cfg, ok := got[rd.name]
			switch {
			case !ok:
				p.violate("policy-before-data", "a lookup of cluster %q exposes response %d, a breaker registered before has no configuration for it", rd.name, no)
			case cfg.Enable && cfg.MinSample < int64(no):
				p.violate("policy-before-data", "a lookup of cluster %q exposes response %d, a breaker registered before still has the configuration of response %d", rd.name, no, cfg.MinSample)
			case !cfg.Enable && !p.laterBegan(C, rd.name, no):
				p.violate("policy-before-data", "a lookup of cluster %q exposes response %d, a breaker registered before is disabled", rd.name, no)
			}
		}
	case rd.t == R:
		for _, cl := range cbs {
			n++
			got, ok := cl.rc.Dump().(map[string]interface{})
			if _, has := got[rd.stamp]; ok && !has && !p.laterBegan(R, rd.name, no) && !p.tickIn(rd.from, time.Since(p.w.cp.t0)) {
				p.violate("policy-before-data", "a lookup of table %q exposes response %d, a retry container registered before has no policy for it", rd.name, no)
			}
		}
	case rd.t == L && rd.name == inbound:
		for _, u := range lims {
			n++
			if o, k := u.last(); k == 0 || o.MaxQPS < no {
				p.violate("policy-before-data", "a lookup of the inbound listener exposes response %d, a running server was last given the limit %d", no, o.MaxQPS)
			}
		}
	}
	p.c.R.Count("policies_verified", n)
}

func breakerConfigs(cl *suiteClient) map[string]circuitbreak.CBConfig {
	if cl.cb == nil {
		return nil
	}
	top, _ := cl.cb.Dump().(map[string]interface{})
	cfgs, _ := top["cb_config"].(map[string]interface{})
	got, ok := cfgs["service"].(map[string]interface{})
	if !ok {
		return nil
	}
	out := map[string]circuitbreak.CBConfig{}
	for n, v := range got {
		if c, ok := v.(circuitbreak.CBConfig); ok {
			out[n] = c
		}
	}
	return out
}

// dump records the dump as one read of every name.
func (p *linWorld) dump(path string) {
	from, begin := time.Since(p.w.cp.t0), p.clk.Add(1)
	p.w.m.Dump()
	end, to := p.clk.Add(1), time.Since(p.w.cp.t0)
	b, err := os.ReadFile(path)
	if err != nil {
		return
	}
	var top map[string]map[string]json.RawMessage
	if json.Unmarshal(b, &top) != nil {
		p.c.R.Count("unreadable_dumps", 1)
		return
	}
	p.c.R.Count("dumps", 1)
	p.mu.Lock()
	defer p.mu.Unlock()
	rd := linRead{from: from, to: to, begin: begin, end: end, dump: true}
	for _, t := range []RT{L, R, C, E} {
		dn := dumpName[t]
		for _, n := range p.names[t] {
			it := linItem{t: t, name: n}
			if raw, ok := top[dn][n]; ok {
				s := string(raw)
				i := strings.Index(s, "st-")
				if i < 0 {
					continue
				}
				j := strings.IndexAny(s[i:], "\":,")
				if j < 0 {
					continue
				}
				it.stamp = s[i : i+j]
			}
			rd.all = append(rd.all, it)
		}
	}
	p.reads = append(p.reads, rd)
}

// tickIn tells whether the cleaner may have run in the interval.
func (p *linWorld) tickIn(from, to time.Duration) bool {
	const every = 30 * time.Second
	for k := p.ticks + every; k <= to; k += every {
		if k >= from {
			return true
		}
	}
	return false
}

// values gives, for every name, its value after each accepted response; index 0 is before the first.
func (p *linWorld) values() (ws []*linWrite, vals map[RT]map[string][]string) {
	for _, w := range p.order {
		if !w.bad {
			if w.end == 0 {
				w.end = math.MaxInt64
			}
			ws = append(ws, w)
		}
	}
	vals = map[RT]map[string][]string{}
	for _, t := range []RT{L, R, C, E} {
		vals[t] = map[string][]string{}
		for _, name := range p.names[t] {
			vs := make([]string, 1, len(ws)+1)
			var table map[string][]string
			var ls map[string]string
			for _, w := range ws {
				v := vs[len(vs)-1]
				switch {
				case t == L && (w.t == N || w.t == L):
					if w.t == N {
						table = w.table
					} else {
						ls = w.res
					}
					ln := name
					if p.m.nds && name != inbound {
						ln = refListener(name, "ns1", "cluster.local", table)
					}
					v = ls[ln]
				case t != w.t:
				case t == C:
					v = w.res[name]
				default:
					if x, ok := w.res[name]; ok {
						v = x
					}
				}
				vs = append(vs, v)
			}
			vals[t][name] = vs
		}
	}
	return
}

// judge checks the history: the responses are a sequence of writes, each of all the names of a kind at once.
func (p *linWorld) judge() {
	p.mu.Lock()
	defer p.mu.Unlock()
	if p.open != nil && p.open.end == 0 {
		p.open.end = math.MaxInt64
	}
	c := p.c
	rs := append([]linRead(nil), p.reads...)
	sort.SliceStable(rs, func(i, j int) bool { return rs[i].end < rs[j].end })
	ws, vals := p.values()
	gets := map[RT]map[string][]*linRead{L: {}, R: {}, C: {}, E: {}}
	for i := range rs {
		if rd := &rs[i]; !rd.dump {
			gets[rd.t][rd.name] = append(gets[rd.t][rd.name], rd)
		}
	}
	// subscribed tells whether the name certainly was of interest, with no sweep, from before clock b until to
	subscribed := func(t RT, name string, b int64, to time.Duration) bool {
		if t == L && name == inbound && p.w.cfg.LDS && !p.tickIn(0, to) {
			return true
		}
		g := gets[t][name]
		for i := sort.Search(len(g), func(i int) bool { return g[i].end >= b }) - 1; i >= 0; i-- {
			if !p.tickIn(g[i].from, to) {
				return true
			}
			if p.ticks > 0 && to-g[i].from > 2*time.Minute {
				break
			}
		}
		return false
	}
	type done struct {
		end int64
		idx int
	}
	var hist []done // prefix maxima of the indices chosen
	overlap := 0
	bad := map[string]bool{}
	for _, rd := range rs {
		items := rd.all
		if items == nil {
			items = []linItem{{rd.t, rd.name, rd.stamp}}
		}
		lb := 0
		if k := sort.Search(len(hist), func(i int) bool { return hist[i].end >= rd.begin }); k > 0 {
			lb = hist[k-1].idx // of the reads that ended before this one began
		}
		// the last write that ended before the read began
		first := sort.Search(len(ws), func(i int) bool { return ws[i].end >= rd.begin })
		// explains tells whether the value is the one after write i
		explains := func(it linItem, i int) bool {
			vs := vals[it.t][it.name]
			if it.stamp != "" || vs[i] == "" {
				return vs[i] == it.stamp
			}
			// absence: possible unless the name certainly is of interest since before the value came
			k := i
			for k > 1 && vs[k-1] == vs[i] {
				k--
			}
			return !(k > 0 && subscribed(it.t, it.name, ws[k-1].begin, rd.to))
		}
		feas := -1
		for i := max(first, lb); i <= len(ws) && (i == 0 || ws[i-1].begin < rd.end) && feas < 0; i++ {
			ok := true
			for _, it := range items {
				ok = ok && explains(it, i)
			}
			if ok {
				feas = i
			}
		}
		if feas < 0 {
			key, op, what, which := "not-linearizable", "a lookup", "no single state explains it", items[0]
			if rd.dump {
				op = "a dump"
			}
			for _, it := range items {
				one, known, stale := false, false, false
				for i, v := range vals[it.t][it.name] {
					known = known || v == it.stamp
					begun := i == 0 || ws[i-1].begin < rd.end
					stale = stale || begun && v == it.stamp
					one = one || begun && i >= max(first, lb) && explains(it, i)
				}
				if one {
					continue
				}
				which = it
				switch {
				case it.stamp == "":
					what, key = "absence", "lost"
				case !known:
					what, key = "value never in force", "never-current"
				case stale:
					what, key = "stale value", "stale"
				default:
					what, key = "value not yet delivered", "early"
				}
				break
			}
			if !bad[key] {
				bad[key] = true
				vs := vals[which.t][which.name]
				for i, w := range ws {
					if vs[i+1] != vs[i] || i+1 == lb {
						c.Logf("write %d (%s) makes %s %q %q [%d,%d] at %v", i+1, tname[w.t], tname[which.t], which.name, vs[i+1], w.begin, w.end, w.at)
					}
				}
				for _, x := range rs {
					if x.dump || x.t == which.t && x.name == which.name {
						c.Logf("read of %s %q: %q [%d,%d] at %v..%v %v", tname[x.t], x.name, x.stamp, x.begin, x.end, x.from, x.to, x.all)
					}
				}
				c.Violate("C07", key, "%s of %s %q in [%d,%d] (%v..%v) gives %q: %s; earlier operations have seen write %d, %d writes had ended",
					op, tname[which.t], which.name, rd.begin, rd.end, rd.from, rd.to, which.stamp, what, lb, first)
			}
			continue
		}
		for i := first; i < len(ws) && ws[i].begin < rd.end; i++ {
			overlap++
		}
		solid := false
		for _, it := range items {
			solid = solid || it.stamp != ""
		}
		if solid {
			n := feas
			if len(hist) > 0 && hist[len(hist)-1].idx > n {
				n = hist[len(hist)-1].idx
			}
			hist = append(hist, done{rd.end, n})
		}
	}
	c.R.Count("reads_judged", len(rs))
	c.R.Count("reads_overlapping_writes", overlap)
	for _, f := range p.viol {
		f()
	}
	p.viol = nil
	c.R.Count("writes", len(p.order))
}

// within waits for the goroutines in virtual time.
func (p *linWorld) within(wg *sync.WaitGroup, what string, d time.Duration) bool {
	ch := make(chan struct{})
	go func() {
		wg.Wait()
		close(ch)
	}()
	select {
	case <-ch:
		return true
	case <-time.After(d):
		buf := make([]byte, 4<<20)
		n := runtime.Stack(buf, true)
		for _, g := range blockedInRepo(string(buf[:n])) {
			p.c.Logf("blocked: %s", g)
		}
		p.c.Violate("C07", "deadlock", "%s did not end within %v", what, d)
		return false
	}
}

// settle checks that the manager still works after all that happened.
func (p *linWorld) settle() {
	for i := 0; i < 240 && p.w.cp.Live() == nil; i++ {
		time.Sleep(time.Second)
		synctest.Wait()
	}
	s := p.w.cp.Live()
	if s == nil {
		p.c.Violate("C07", "wedged", "no stream is opened any more")
		return
	}
	for _, t := range []RT{L, R, C, E} {
		for _, n := range p.names[t] {
			ctx, cancel := context.WithCancel(context.Background())
			cancel()
			p.look(ctx, t, n, false)
		}
	}
	synctest.Wait()
	if p.m.nds {
		if w := p.post(N, 100, false); w == nil {
			p.c.Violate("C07", "wedged", "the name table is not requested on the live stream")
		}
		synctest.Wait()
	}
	for _, t := range []RT{L, R, C, E} {
		w := p.post(t, 100, false)
		if w == nil {
			p.c.Violate("C07", "wedged", "%s is not requested on the live stream although names are looked up", tname[t])
			return
		}
		synctest.Wait()
		if w.begin == 0 || w.end == 0 {
			p.c.Violate("C07", "wedged", "a response of %s is not processed (delivered: %v)", tname[t], w.begin > 0)
			return
		}
		for _, n := range p.names[t] {
			p.mu.Lock()
			_, vals := p.values()
			p.mu.Unlock()
			last := vals[t][n][len(vals[t][n])-1]
			ctx, cancel := context.WithCancel(context.Background())
			cancel()
			rd := p.look(ctx, t, n, true)
			if rd.stamp != last {
				p.c.Violate("C07", "final", "at rest %s %q is %q, the last response gives %q", tname[t], n, rd.stamp, last)
			}
		}
	}
}

// chaosCases: everything at once, on a grid of virtual instants.
func linChaos(r *Run, name string, n int, evict bool) {
	for i := 0; i < n; i++ {
		r.Case(name, i, func(c *Case) {
			rng := c.Rng
			runtime.GOMAXPROCS(pick(rng, []int{1, 2, 4, 8}))
			defer runtime.GOMAXPROCS(4)
			c.Bubble(func() {
				p := newLinWorld(c, pick(rng, []time.Duration{200, 500, 1500})*time.Millisecond)
				if p == nil {
					return
				}
				defer p.w.Close()
				defer func() { manager.VerifYield = nil }()
				p.spin = pick(rng, []int{0, 0, 5, 50, 300})
				grid, steps := 100*time.Millisecond, 25
				if evict {
					grid, steps = time.Second, 100
				}
				if chance(rng, 60) {
					var k atomic.Int64
					every := int64(2 + rng.Intn(6))
					vsleep := chance(rng, 50)
					spins := pick(rng, []int{3, 30, 300})
					manager.VerifYield = func(string, RT, string) {
						if k.Add(1)%every != 0 {
							return
						}
						if vsleep {
							time.Sleep(grid)
							return
						}
						for i := 0; i < spins; i++ {
							runtime.Gosched()
						}
					}
				}
				if chance(rng, 30) {
					p.w.cp.RecvHook = func(*Stream) {
						for i := 0; i < 20; i++ {
							runtime.Gosched()
						}
					}
				}
				for _, t := range []RT{L, R, C, E} {
					if chance(rng, 60) {
						p.register(t)
					}
					for _, n := range p.names[t] {
						if chance(rng, 50) {
							ctx, cancel := context.WithCancel(context.Background())
							cancel()
							p.look(ctx, t, n, false)
						}
					}
				}
				if chance(rng, 70) {
					p.addClient()
				}
				if chance(rng, 50) {
					p.addServer()
				}
				synctest.Wait()
				types := []RT{L, R, C, E}
				var wg sync.WaitGroup
				lookers := 3 + rng.Intn(10)
				heavy := chance(rng, 50)
				for g := 0; g < lookers; g++ {
					seed := rng.Int63()
					focus := chance(rng, 60)
					ft := pick(rng, types)
					wg.Add(1)
					go func() {
						defer wg.Done()
						rr := newRand(seed)
						for now := 0; now < steps; {
							k := 1 + rr.Intn(4)
							if evict {
								k = 1 + rr.Intn(20)
							}
							time.Sleep(time.Duration(k) * grid)
							now += k
							burst := 1 + rr.Intn(4)
							if heavy {
								burst *= 8
							}
							for b := 0; b < burst; b++ {
								t := ft
								if !focus {
									t = pick(rr, types)
								}
								// names have seasons of use, so that some are evicted
								n := pick(rr, p.names[t])
								if evict {
									n = p.names[t][(now/35+rr.Intn(2))%len(p.names[t])]
								}
								ctx, cancel := context.Background(), context.CancelFunc(func() {})
								switch rr.Intn(4) {
								case 0:
									ctx, cancel = context.WithCancel(ctx)
									cancel()
								case 1:
									ctx, cancel = context.WithTimeout(ctx, time.Duration(1+rr.Intn(4))*grid)
								case 2:
									if heavy {
										ctx, cancel = context.WithCancel(ctx)
										cancel()
									}
								}
								p.look(ctx, t, n, rr.Intn(8) == 0)
								cancel()
							}
						}
					}()
				}
				// what happens at each instant
				kinds := map[string]int{}
				wg.Add(1)
				go func() {
					defer wg.Done()
					for s := 0; s < steps; s++ {
						time.Sleep(grid)
						for b, nb := 0, rng.Intn(4); b < nb; b++ {
							switch x := rng.Intn(24); {
							case x < 14:
								t := pick(rng, types)
								if w := p.post(t, p.full, false); w != nil {
									kinds["push "+tname[t]]++
								}
							case x == 14:
								t := pick(rng, types)
								if w := p.post(t, p.full, true); w != nil {
									kinds["bad "+tname[t]]++
								}
							case x < 18 && p.m.nds:
								if w := p.post(N, 100, chance(rng, 10)); w != nil {
									kinds["push NDS"]++
								}
							case x == 18:
								if st := p.w.cp.Live(); st != nil {
									st.Fail(errors.New("broken"))
									kinds["fail"]++
								}
							case x == 19:
								p.register(pick(rng, types))
								kinds["register"]++
							case x == 20:
								if len(*p.cbs.Load()) < 3 {
									p.addClient()
									kinds["client"]++
								}
							case x == 21:
								if len(*p.lims.Load()) < 3 {
									p.addServer()
									kinds["server"]++
								}
							}
						}
					}
				}()
				wg.Add(1)
				go func() {
					defer wg.Done()
					for s := 0; s < steps; s += 3 {
						time.Sleep(3 * grid)
						p.dump(p.w.dump)
					}
				}()
				if !p.within(&wg, "the concurrent operations", time.Duration(steps)*grid+10*time.Minute) {
					return
				}
				manager.VerifYield = nil
				synctest.Wait()
				p.settle()
				p.judge()
				for _, cl := range *p.cbs.Load() {
					cl.Close()
				}
				r.Count("evaluations", 1)
				for k, v := range kinds {
					r.Count("chaos "+k, v)
				}
				r.Count("streams", p.w.cp.NumStreams())
				// the interleaving actually seen: the order of the begins and ends
				r.Distinct("nontrivial", p.order2())
				r.Sample("%d lookers, %d reads, %d writes, %v", lookers, len(p.reads), len(p.order), kinds)
			})
		})
	}
}

// order2 is the interleaving of the history: reads and writes in the order of their begins and ends.
func (p *linWorld) order2() string {
	p.mu.Lock()
	defer p.mu.Unlock()
	type ev struct {
		at int64
		s  string
	}
	var es []ev
	for _, w := range p.order {
		es = append(es, ev{w.begin, "w" + tname[w.t]}, ev{w.end, "W"})
	}
	for _, rd := range p.reads {
		if !rd.dump {
			es = append(es, ev{rd.begin, "r" + tname[rd.t] + rd.name}, ev{rd.end, "R" + rd.stamp})
		}
	}
	sort.Slice(es, func(i, j int) bool { return es[i].at < es[j].at })
	var b strings.Builder
	for _, e := range es {
		b.WriteString(e.s)
	}
	return b.String()
}

// linSched: two lookups of one name held at each of their VerifYield points, in every order with what else can happen.
//
//	S, s  the first (second) lookup starts, or goes on to its next point
//	U     a response with the name      V  a response without the name
//	X     the first lookup is cancelled  E  time passes until the sweep has come
//	R     the stream breaks and is re-opened
//	P     another lookup, cancelled beforehand
//	B     a rejected response with the name
const linAlphabet = "SsUVXERPB"

func linScheds(r *Run, name string, n, length int) {
	// the kinds of worlds: of which type, is the name already wanted (and cached)
	types := []RT{R, C, E, L}
	for i := 0; i < n; i++ {
		r.Case(name, i, func(c *Case) {
			x := i
			t := types[x%len(types)]
			x /= len(types)
			pre := x % 3 // 0: never looked up, 1: wanted, 2: cached
			x /= 3
			var b strings.Builder
			total := 1
			for k := 0; k < length; k++ {
				total *= len(linAlphabet)
			}
			if x >= total || n < 12*total {
				// beyond the complete part, or only a sample of it
				for k := 0; k < length; k++ {
					b.WriteByte(linAlphabet[c.Rng.Intn(len(linAlphabet))])
				}
			} else {
				for k := 0; k < length; k++ {
					b.WriteByte(linAlphabet[x%len(linAlphabet)])
					x /= len(linAlphabet)
				}
			}
			linSched(c, t, pre, b.String())
		})
	}
}

type linHeld struct {
	gid  string
	at   string
	gate chan struct{}
	done bool
	stop context.CancelFunc
	rd   *linRead
}

func gid() string {
	var buf [40]byte
	n := runtime.Stack(buf[:], false)
	f := strings.Fields(string(buf[:n]))
	return f[1]
}

func linSched(c *Case, t RT, pre int, sched string) {
	c.Logf("%s pre=%d %s", tname[t], pre, sched)
	c.Bubble(func() {
		p := newLinWorldCfg(c, WCfg{Timeout: 600 * time.Second})
		if p == nil {
			return
		}
		defer p.w.Close()
		defer func() { manager.VerifYield = nil }()
		p.full = 100
		p.register(t)
		name := p.names[t][0]
		peek := func() {
			ctx, cancel := context.WithCancel(context.Background())
			cancel()
			p.look(ctx, t, name, false)
		}
		if pre > 0 {
			peek()
			synctest.Wait()
		}
		if pre > 1 {
			p.post(t, 100, false)
			synctest.Wait()
		}
		var mu sync.Mutex
		held := map[string]*linHeld{}
		var ls [2]*linHeld
		hold := true
		manager.VerifYield = func(pt string, _ RT, _ string) {
			mu.Lock()
			h := held[gid()]
			if h == nil || !hold {
				mu.Unlock()
				return
			}
			h.at = pt
			g := make(chan struct{})
			h.gate = g
			mu.Unlock()
			<-g
		}
		var wg sync.WaitGroup
		start := func(i int) {
			ctx, cancel := context.WithCancel(context.Background())
			h := &linHeld{stop: cancel}
			ls[i] = h
			wg.Add(1)
			go func() {
				defer wg.Done()
				mu.Lock()
				held[gid()] = h
				mu.Unlock()
				rd := p.look(ctx, t, name, false)
				mu.Lock()
				h.done, h.rd = true, rd
				mu.Unlock()
			}()
		}
		// release lets a lookup go on; nothing when it waits for a delivery
		release := func(h *linHeld) {
			mu.Lock()
			g := h.gate
			h.gate = nil
			mu.Unlock()
			if g != nil {
				close(g)
			}
		}
		var trace strings.Builder
		for k := 0; k < len(sched); k++ {
			switch sched[k] {
			case 'S', 's':
				i := 0
				if sched[k] == 's' {
					i = 1
				}
				if ls[i] == nil {
					start(i)
				} else {
					release(ls[i])
				}
			case 'U':
				p.post(t, 100, false)
			case 'V':
				p.post(t, 0, false)
			case 'B':
				p.post(t, 100, true)
			case 'X':
				if ls[0] != nil {
					ls[0].stop()
				}
			case 'E':
				time.Sleep(31 * time.Second)
			case 'R':
				if s := p.w.cp.Live(); s != nil {
					s.Fail(errors.New("broken"))
				}
				time.Sleep(time.Second)
			case 'P':
				peek()
			}
			synctest.Wait()
			trace.WriteByte(sched[k])
			for _, h := range ls {
				if h != nil {
					mu.Lock()
					switch {
					case h.done:
						trace.WriteString("." + ternary(h.rd.stamp != "", "v", "e"))
					case h.gate != nil:
						trace.WriteString("." + h.at[:1])
					default:
						trace.WriteString("._")
					}
					mu.Unlock()
				}
			}
		}
		mu.Lock()
		hold = false
		mu.Unlock()
		for _, h := range ls {
			if h != nil {
				release(h)
			}
		}
		synctest.Wait()
		p.settle()
		if !p.within(&wg, "a lookup whose name has been delivered", time.Second) {
			return
		}
		p.judge()
		c.R.Count("evaluations", 1)
		c.R.Distinct("nontrivial", fmt.Sprint(tname[t], pre, trace.String()))
		c.R.Distinct("states of two lookups", trace.String()[strings.LastIndexAny(trace.String(), linAlphabet):])
		c.R.Sample("%s pre=%d %s: %s", tname[t], pre, sched, trace.String())
	})
}

func ternary(b bool, x, y string) string {
	if b {
		return x
	}
	return y
}

func init() {
	register("C07", func(r *Run) {
		if *fMode == "race" {
			raceCases(r, r.N(960, 12000))
			return
		}
		closeCases(r, r.N(160, 4000), 100)
		linScheds(r, "schedules", 12*729, 3)
		linScheds(r, "schedules-long", r.N(6000, 12*59049), r.N(7, 5))
		linChaos(r, "chaos", r.N(2400, 30000), false)
		linChaos(r, "chaos-evict", r.N(1200, 15000), true)
	})
}
