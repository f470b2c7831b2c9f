package harness

import (
	"context"
	"fmt"
	"regexp"
	"runtime"
	"sort"
	"strings"
	"testing/synctest"
	"time"

	discoveryv3 "github.com/envoyproxy/go-control-plane/envoy/service/discovery/v3"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/anypb"
)

// The engine drives random scripted histories step by step (synctest.Wait between the steps), with the wire, the cache
// and the lookups compared with the model after every step. Used by C01-C04 with different mixes.

type Mix struct {
	Lookup, Push, Bad, Burst, Table, Unknown, Fail, Outage, Time, SendFail int
	Ops                                                                    int
	BigNames                                                               int // extra names per type
}

type pending struct {
	l    *Lookup
	done chan struct{}
	dl   time.Duration
	// stamp of the first delivery since the lookup started waiting
	delivered string
	at        time.Duration
}

type Engine struct {
	c       *Case
	w       *World
	m       *Model
	mix     Mix
	names   map[RT][]string
	stampNo int
	verNo   int
	pend    []*pending
	maxTime time.Duration
	failOpn int
	sig     []string // abstract history, for the distinct count
	ips     []string
	// what the history contained
	nresp, nnack, nrec int
	noCheck            bool                  // the cache is being resynchronised
	startSub           bool                  // the subscription of the inbound listener is due
	rej                map[string]string     // stamp -> the rejected response that carried it
	rejTables          []map[string][]string // the tables rejected since the last accepted one
}

func newEngine(c *Case, mix Mix) *Engine {
	e := &Engine{c: c, mix: mix, maxTime: 26 * time.Second, rej: map[string]string{}}
	e.ips = []string{"10.0.0.1", "10.0.0.2", "10.0.0.3", "10.0.0.4"}
	cfg := WCfg{NDS: chance(c.Rng, 70), LDS: chance(c.Rng, 70)}
	cfg.Table = e.randTable()
	if chance(c.Rng, 70) {
		cfg.Inbound = mkListener(inbound, "st-inbound-")
	}
	if chance(c.Rng, 40) {
		cfg.Timeout = time.Duration(1+c.Rng.Intn(40)) * 100 * time.Millisecond
	}
	e.names = map[RT][]string{
		L: {"svc-a", "svc-b:8080", "Svc-C.ns2", "svc-d.ns1.svc.cluster.local", "www.example.com:443", "svc-e"},
		R: {"r1", "r2", "r3", "r4"},
		C: {"c1", "c2", "c3", "c4"},
		E: {"e1", "e2", "e3", "e4"},
	}
	if chance(c.Rng, 30) {
		// the same names in every type
		for _, t := range []RT{R, C, E} {
			e.names[t] = []string{"n1", "n2", "svc-a", "www.example.com:443"}
		}
		e.names[L] = append(e.names[L], "n1")
	}
	for i := 0; i < mix.BigNames; i++ {
		for _, t := range []RT{L, R, C, E} {
			e.names[t] = append(e.names[t], fmt.Sprintf("x%d-%s", i, strings.ToLower(tname[t])))
		}
	}
	if chance(c.Rng, 50) {
		runtime.GOMAXPROCS(1)
	} else {
		runtime.GOMAXPROCS(4)
	}
	cfg.Pre = func(cp *CP) {
		cp.OpenErr = func(n int) error {
			if e.failOpn > 0 {
				e.failOpn--
				return failErrN(n)
			}
			return nil
		}
	}
	e.w = NewWorld(c, cfg)
	if e.w.err != nil {
		c.Violate("C20", "init", "initialisation failed: %v", e.w.err)
		return nil
	}
	e.w.cfg = cfg
	e.m = newModel(cfg)
	if cfg.NDS {
		e.m.sub(N, "")
		e.m.acceptTable("v0", cfg.Table)
	}
	if cfg.LDS {
		e.m.sub(L, inbound)
		res := map[string]string{}
		if cfg.Inbound != nil {
			res[inbound] = "st-inbound-"
		}
		e.m.accept(L, "v0", res)
	}
	for _, ev := range e.w.cp.Since(0) {
		if ev.Kind == "recv" {
			e.m.nonce[ev.T] = ev.Nonce
		}
	}
	e.w.cp.expNode = e.w.cp.node
	e.checkCache("start")
	return e
}

func (e *Engine) elapsed() time.Duration { return time.Since(e.w.cp.t0) }

func (e *Engine) stamp() string {
	e.stampNo++
	return fmt.Sprintf("st-%d-", e.stampNo)
}

func (e *Engine) version() string {
	// versions repeat now and then, and may be empty
	if chance(e.c.Rng, 2) {
		return ""
	}
	if chance(e.c.Rng, 85) {
		e.verNo++
	}
	return fmt.Sprintf("v%d", e.verNo)
}

func (e *Engine) randTable() map[string][]string {
	r := e.c.Rng
	t := map[string][]string{}
	for _, h := range []string{
		"svc-a.ns1.svc.cluster.local", "svc-b.ns1.svc.cluster.local", "svc-c.ns2.svc.cluster.local",
		"svc-d.ns1.svc.cluster.local", "www.example.com", "svc-e", "svc-e.ns1.svc.cluster.local",
	} {
		switch r.Intn(5) {
		case 0:
		case 1:
			if chance(r, 30) {
				t[h] = nil
				continue
			}
			fallthrough
		default:
			n := 1 + r.Intn(2)
			for i := 0; i < n; i++ {
				t[h] = append(t[h], pick(r, e.ips))
			}
		}
	}
	return t
}

// randRes draws the resources of a response: name -> stamp, in wire order.
func (e *Engine) randRes(t RT) ([]string, map[string]string) {
	r := e.c.Rng
	var pool []string
	switch {
	case t == L && e.m.nds:
		for _, ip := range e.ips {
			for _, p := range []string{"80", "8080", "443"} {
				pool = append(pool, ip+"_"+p)
			}
		}
		pool = append(pool, inbound, "svc-a")
	case t == L:
		pool = append(append(pool, e.names[L]...), inbound)
	default:
		pool = append(append(pool, e.names[t]...), "unasked-1", "unasked-2")
	}
	keep := 20 + r.Intn(70)
	if chance(r, 8) {
		keep = 0
	}
	var order []string
	res := map[string]string{}
	for _, i := range r.Perm(len(pool)) {
		if chance(r, keep) {
			order = append(order, pool[i])
			res[pool[i]] = e.stamp()
		}
	}
	return order, res
}

func (e *Engine) message(t RT, version string, order []string, res map[string]string) *discoveryv3.DiscoveryResponse {
	var ms []proto.Message
	for _, n := range order {
		ms = append(ms, mk(t, n, res[n]))
	}
	return e.w.Resp(t, version, ms...)
}

// badAny is a resource the decoders must reject.
func badAny(r intner, t RT) *anypb.Any {
	switch r.Intn(3) {
	case 0:
		return &anypb.Any{TypeUrl: "type.googleapis.com/unknown.Type", Value: []byte{}}
	case 1:
		return &anypb.Any{TypeUrl: urlOf[t], Value: []byte{0x0a, 0xff, 0x01}}
	}
	for o, u := range urlOf {
		if o != t {
			return &anypb.Any{TypeUrl: u}
		}
	}
	return nil
}

func (e *Engine) badResp(t RT) *discoveryv3.DiscoveryResponse {
	r := e.c.Rng
	var resp *discoveryv3.DiscoveryResponse
	if t == N {
		resp = e.w.Resp(N, e.version())
		if chance(r, 50) {
			tb := e.randTable()
			e.rejTables = append(e.rejTables, tb)
			resp.Resources = append(resp.Resources, mustAny(mkTable(tb)))
		}
		if len(resp.Resources) > 0 || chance(r, 60) {
			resp.Resources = append(resp.Resources, badAny(r, N))
		}
		return resp
	}
	order, res := e.randRes(t)
	resp = e.message(t, e.version(), order, res)
	bad := badAny(r, t)
	if t == R && chance(r, 30) {
		bad = mustAny(badRoute(r, pick(r, e.names[R])))
	}
	for n, st := range res {
		e.rej[st] = fmt.Sprintf("%s response %q (%s)", tname[t], resp.Nonce, n)
	}
	i := r.Intn(len(resp.Resources) + 1)
	resp.Resources = append(resp.Resources[:i], append([]*anypb.Any{bad}, resp.Resources[i:]...)...)
	if chance(r, 3) {
		// a long error message
		for k, m := 0, 50+r.Intn(400); k < m; k++ {
			resp.Resources = append(resp.Resources, badAny(r, t))
		}
		return resp
	}
	if chance(r, 20) {
		resp.Resources = resp.Resources[i : i+1]
	}
	return resp
}

func (e *Engine) subscribed() []RT {
	var ts []RT
	for _, t := range []RT{L, R, C, E, N} {
		if e.m.interest[t] != nil {
			ts = append(ts, t)
		}
	}
	return ts
}

func (e *Engine) live() bool { return e.w.cp.Live() != nil }

// ---- monitors of one step

func (e *Engine) checkNames(op string, ev Ev) {
	if ev.T != 0 && !sameSet(e.m.interest[ev.T], ev.Names) {
		e.c.Violate("C03", "names", "after %s: request of %s lists %v, the interest set is %v", op, tname[ev.T], ev.Names, sortedKeys(e.m.interest[ev.T]))
	}
}

type expAck struct {
	t              RT
	nonce, version string
	nack           bool
}

// checkAcks: the sends since mark are exactly the acknowledgements expected, in order.
func (e *Engine) checkAcks(op string, mark int, exp []expAck) {
	c := e.c
	ss := sends(e.w.cp.Since(mark))
	c.R.Count("acks_checked", len(exp))
	byNonce := map[string][]Ev{}
	for _, s := range ss {
		byNonce[tname[s.T]+s.Nonce] = append(byNonce[tname[s.T]+s.Nonce], s)
		e.checkNames(op, s)
	}
	for _, x := range exp {
		got := byNonce[tname[x.t]+x.nonce]
		kind := "accepted"
		if x.nack {
			kind = "rejected"
		}
		if len(got) != 1 {
			c.Violate("C02", "ack-count", "after %s: the %s %s response %q got %d requests echoing its nonce, expected 1", op, kind, tname[x.t], x.nonce, len(got))
			continue
		}
		g := got[0]
		if g.HasErr != x.nack {
			c.Violate("C02", "ack-error", "after %s: the %s %s response %q got error_detail=%v (%s)", op, kind, tname[x.t], x.nonce, g.HasErr, g.Err)
		}
		if g.Version != x.version {
			c.Violate("C02", "ack-version", "after %s: the %s %s response %q was answered with version %q, expected %q", op, kind, tname[x.t], x.nonce, g.Version, x.version)
		}
	}
	if len(ss) > len(exp) {
		known := map[string]bool{}
		for _, x := range exp {
			known[tname[x.t]+x.nonce] = true
		}
		for _, s := range ss {
			if !known[tname[s.T]+s.Nonce] && !(e.startSub && s.T == L && s.Nonce == "") {
				c.Violate("C02", "extra-request", "after %s: unexpected request %s", op, s)
			}
		}
	}
}

// checkCache compares the dumped cache with the model, and looks up every subscribed name.
func (e *Engine) checkCache(op string) {
	c := e.c
	if e.noCheck {
		return
	}
	snap, ok := e.w.DumpNames()
	if !ok {
		return
	}
	e.checkRejected(op, snap)
	for _, t := range []RT{L, R, C, E} {
		want := e.m.cache[t]
		for n, st := range want {
			j, ok := snap[t][n]
			if !ok {
				c.Violate("C01", "missing", "after %s: %s %q is not in the cache, the fold has %s", op, tname[t], n, st)
			} else if !strings.Contains(j, st) {
				c.Violate("C01", "content", "after %s: %s %q in the cache is not the one of the fold (%s): %s", op, tname[t], n, st, j)
			}
		}
		for n, j := range snap[t] {
			if _, ok := want[n]; !ok {
				key := "extra"
				if !e.m.interest[t][n] {
					key = "never-asked"
				}
				c.Violate("C01", key, "after %s: the cache has %s %q, the fold does not (subscribed: %v): %s", op, tname[t], n, e.m.interest[t][n], j)
			}
		}
	}
}

var stampRx = regexp.MustCompile(`st-\d+-`)

// checkRejected: nothing of a rejected response is in the cache, and no rejected name table binds the listeners.
func (e *Engine) checkRejected(op string, snap map[RT]map[string]string) {
	for _, t := range []RT{L, R, C, E} {
		for n, j := range snap[t] {
			for _, st := range stampRx.FindAllString(j, -1) {
				if from, ok := e.rej[st]; ok {
					e.c.Violate("C02", "nack-served", "after %s: %s %q in the cache carries %s of the rejected %s", op, tname[t], n, st, from)
				}
			}
		}
	}
	e.c.R.Count("rejected_stamps_watched", len(e.rej))
	if !e.m.nds {
		return
	}
	for n := range e.m.interest[L] {
		j, ok := snap[L][n]
		if want, in := e.m.cache[L][n]; !ok || n == inbound || in && strings.Contains(j, want) {
			continue
		}
		for _, tb := range e.rejTables {
			if ln := refListener(n, e.m.ns, e.m.dom, tb); ln != "" && e.m.lds[ln] != "" && strings.Contains(j, e.m.lds[ln]) {
				e.c.Violate("C02", "nack-table", "after %s: LDS %q is bound to %q, as a rejected name table says", op, n, ln)
			}
		}
	}
}

// probe looks every subscribed name up.
func (e *Engine) probe(op string) {
	for _, t := range []RT{L, R, C, E} {
		for _, n := range sortedKeys(e.m.interest[t]) {
			st, in := e.m.cache[t][n]
			if !in && e.waiting(t, n) {
				continue // the miss would share the notifier of the waiting lookup
			}
			l := e.w.Peek(t, n)
			e.c.R.Count("probes", 1)
			if from, ok := e.rej[l.Stamp]; ok && l.Err == nil {
				e.c.Violate("C02", "nack-served", "after %s: lookup of %s %q returned %s of the rejected %s", op, tname[t], n, l.Stamp, from)
			}
			if in && l.Err != nil {
				e.c.Violate("C01", "lookup-missing", "after %s: lookup of %s %q failed (%v), the fold has %s", op, tname[t], n, l.Err, st)
			} else if in && l.Stamp != st {
				e.c.Violate("C01", "lookup-content", "after %s: lookup of %s %q returned %s, the fold has %s", op, tname[t], n, l.Stamp, st)
			} else if !in && l.Err == nil {
				e.c.Violate("C01", "lookup-extra", "after %s: lookup of %s %q returned %s, the fold does not have it", op, tname[t], n, l.Stamp)
			}
		}
	}
	synctest.Wait()
}

func (e *Engine) waiting(t RT, n string) bool {
	for _, p := range e.pend {
		if p.l.T == t && p.l.Name == n && p.at == 0 {
			return true
		}
	}
	return false
}

// ---- steps

func (e *Engine) opLookup() {
	r := e.c.Rng
	t := pick(r, []RT{L, R, C, E})
	n := pick(r, e.names[t])
	if t == L && chance(r, 15) {
		n = inbound
	}
	st, cached := e.m.cache[t][n]
	mark := e.w.cp.Mark()
	op := fmt.Sprintf("lookup %s %s", tname[t], n)
	e.sig = append(e.sig, "lookup "+tname[t])
	if cached {
		l := e.w.Get(context.Background(), t, n)
		if l.End != l.Start {
			e.c.Violate("C05", "cached-late", "lookup of the cached %s %q took %v", tname[t], n, l.End-l.Start)
		}
		if l.Err != nil || l.Stamp != st {
			e.c.Violate("C01", "lookup-content", "%s returned %q err=%v, the fold has %s", op, l.Stamp, l.Err, st)
			if !e.live() {
				e.c.Violate("C04", "outage-lookup", "%s during an outage returned %q err=%v, cached %s", op, l.Stamp, l.Err, st)
			}
		}
		synctest.Wait()
		if ss := sends(e.w.cp.Since(mark)); len(ss) > 0 {
			for _, s := range ss {
				e.checkNames(op, s)
			}
		}
		return
	}
	fresh := e.m.sub(t, n)
	p := &pending{done: make(chan struct{})}
	p.l = &Lookup{T: t, Name: n}
	tmo := e.w.cfg.Timeout
	if tmo == 0 {
		tmo = time.Second
	}
	p.dl = e.elapsed() + tmo
	ctx, cancel := context.WithCancel(context.Background())
	if chance(r, 25) {
		d := time.Duration(1+r.Intn(20)) * 100 * time.Millisecond
		ctx, cancel = context.WithTimeout(context.Background(), d)
		if e.elapsed()+d < p.dl {
			p.dl = e.elapsed() + d
		}
	}
	go func() {
		defer close(p.done)
		defer cancel()
		l := e.w.Get(ctx, t, n)
		e.w.CheckDeadline(l)
		*p.l = *l
	}()
	synctest.Wait()
	e.pend = append(e.pend, p)
	ss := sends(e.w.cp.Since(mark))
	seen := false
	for _, s := range ss {
		e.checkNames(op, s)
		if s.T != t {
			e.c.Violate("C03", "other-type", "%s was followed by a request of %s", op, tname[s.T])
			continue
		}
		seen = true
		if s.Version != e.m.ver[t] {
			e.c.Violate("C02", "sub-version", "%s: request with version %q, the last accepted is %q", op, s.Version, e.m.ver[t])
		}
		if s.Nonce != e.m.nonce[t] {
			e.c.Violate("C02", "sub-nonce", "%s: request with nonce %q, the last one on this stream is %q", op, s.Nonce, e.m.nonce[t])
		}
	}
	if fresh && e.live() && !seen {
		e.c.Violate("C03", "no-request", "%s added a name but no request of the type followed", op)
	}
}

// delivered marks the pending lookups the accepted response supplies.
func (e *Engine) settle(op string) {
	now := e.elapsed()
	var rest []*pending
	for _, p := range e.pend {
		st, in := e.m.cache[p.l.T][p.l.Name]
		if in && p.delivered == "" && now <= p.dl {
			p.delivered = st
		}
		select {
		case <-p.done:
			if p.l.Panicked {
				continue
			}
			if p.delivered != "" {
				if p.l.Err != nil {
					e.c.Violate("C06", "lost", "after %s: lookup of %s %q returned %v although %s had been accepted before its deadline", op, tname[p.l.T], p.l.Name, p.l.Err, p.delivered)
					e.c.Violate("C01", "lookup-missing", "after %s: lookup of %s %q returned %v although the fold has %s", op, tname[p.l.T], p.l.Name, p.l.Err, p.delivered)
				}
			} else if p.l.Err == nil {
				e.c.Violate("C01", "lookup-extra", "after %s: lookup of %s %q returned %s, not supplied by any accepted response", op, tname[p.l.T], p.l.Name, p.l.Stamp)
			}
		default:
			if p.delivered != "" {
				e.c.Violate("C06", "waiting", "after %s: lookup of %s %q still waits although %s was accepted", op, tname[p.l.T], p.l.Name, p.delivered)
				continue
			}
			if now > p.dl {
				e.c.Violate("C05", "late", "after %s: lookup of %s %q still waits after its deadline", op, tname[p.l.T], p.l.Name)
				continue
			}
			rest = append(rest, p)
		}
	}
	e.pend = rest
}

type plan struct {
	resp  *discoveryv3.DiscoveryResponse
	exp   []expAck
	apply func()
	desc  string
}

func (e *Engine) planGood(t RT) plan {
	v := e.version()
	if t == N {
		tb := e.randTable()
		resp := e.w.Resp(N, v, mkTable(tb))
		return plan{resp: resp, exp: []expAck{{N, resp.Nonce, v, false}}, desc: "NDS push " + v, apply: func() {
			e.m.nonce[N] = resp.Nonce
			e.m.acceptTable(v, tb)
			e.rejTables = nil
		}}
	}
	order, res := e.randRes(t)
	resp := e.message(t, v, order, res)
	return plan{resp: resp, exp: []expAck{{t, resp.Nonce, v, false}}, desc: fmt.Sprintf("%s push %s %v", tname[t], v, order), apply: func() {
		e.m.nonce[t] = resp.Nonce
		e.m.accept(t, v, res)
	}}
}

func (e *Engine) planBad(t RT) plan {
	resp := e.badResp(t)
	return plan{resp: resp, exp: []expAck{{t, resp.Nonce, "*", true}}, desc: fmt.Sprintf("bad %s push", tname[t]), apply: func() {
		e.m.nonce[t] = resp.Nonce
	}}
}

func (e *Engine) planUnknown() plan {
	r := e.c.Rng
	var un []RT
	for _, t := range []RT{L, R, C, E, N} {
		if e.m.interest[t] == nil {
			un = append(un, t)
		}
	}
	var resp *discoveryv3.DiscoveryResponse
	if len(un) > 0 && chance(r, 60) {
		t := pick(r, un)
		if t == N {
			resp = e.w.Resp(N, e.version(), mkTable(e.randTable()))
		} else {
			order, res := e.randRes(t)
			resp = e.message(t, e.version(), order, res)
		}
		return plan{resp: resp, desc: "push of the unsubscribed " + tname[t], apply: func() {}}
	}
	resp = e.w.Resp(L, e.version(), mkListener(inbound, e.stamp()))
	resp.TypeUrl = pick(r, []string{"type.googleapis.com/unknown", "", "type.googleapis.com/envoy.extensions.transport_sockets.tls.v3.Secret", "envoy.config.listener.v3.Listener"})
	return plan{resp: resp, desc: "push of unknown type " + resp.TypeUrl, apply: func() {}}
}

func (e *Engine) run(ps ...plan) {
	s := e.w.cp.Live()
	if s == nil {
		return
	}
	mark := e.w.cp.Mark()
	var exp []expAck
	var descs []string
	for i := range ps {
		e.c.Logf("-- %s nonce %s", ps[i].desc, ps[i].resp.Nonce)
		descs = append(descs, ps[i].desc)
		e.sig = append(e.sig, strings.SplitN(ps[i].desc, " v", 2)[0])
		s.Push(ps[i].resp)
	}
	// model, in order
	for i := range ps {
		for _, x := range ps[i].exp {
			if x.version == "*" {
				x.version = e.m.ver[x.t]
			}
			exp = append(exp, x)
		}
		ps[i].apply()
		now := e.elapsed()
		for _, p := range e.pend {
			if st, in := e.m.cache[p.l.T][p.l.Name]; in && p.delivered == "" && now <= p.dl {
				p.delivered = st
			}
		}
		e.c.R.Count("responses", 1)
		e.nresp++
	}
	synctest.Wait()
	op := strings.Join(descs, " + ")
	e.checkAcks(op, mark, exp)
	e.checkCache(op)
	e.settle(op)
}

func (e *Engine) opPush()    { e.run(e.planGood(pick(e.c.Rng, e.subscribed()))) }
func (e *Engine) opUnknown() { e.run(e.planUnknown()) }

func (e *Engine) opBad() {
	before := e.w.DumpRaw()
	vers := map[RT]string{}
	for t, v := range e.m.ver {
		vers[t] = v
	}
	p := e.planBad(pick(e.c.Rng, e.subscribed()))
	if !e.live() {
		return
	}
	e.run(p)
	if after := e.w.DumpRaw(); after != before {
		e.c.Violate("C02", "nack-cache", "the rejected %s changed the cache\nbefore: %s\nafter: %s", p.desc, before, after)
	}
	e.c.R.Count("nacks", 1)
	e.nnack++
}

func (e *Engine) opBurst() {
	n := 2 + e.c.Rng.Intn(4)
	var ps []plan
	for i := 0; i < n; i++ {
		switch e.c.Rng.Intn(6) {
		case 0:
			ps = append(ps, e.planBad(pick(e.c.Rng, e.subscribed())))
		case 1:
			ps = append(ps, e.planUnknown())
		default:
			ps = append(ps, e.planGood(pick(e.c.Rng, e.subscribed())))
		}
	}
	e.run(ps...)
}

func (e *Engine) opTime() {
	d := time.Duration(1+e.c.Rng.Intn(15)) * 100 * time.Millisecond
	e.advance(d)
}

func (e *Engine) advance(d time.Duration) {
	mark := e.w.cp.Mark()
	was := e.w.cp.NumStreams()
	time.Sleep(d)
	synctest.Wait()
	if e.w.cp.NumStreams() != was {
		e.reconnected("time", mark)
	}
	e.settle(fmt.Sprintf("%v", d))
	e.sig = append(e.sig, "time")
}

// reconnected checks the resubscription on the new stream.
func (e *Engine) reconnected(op string, mark int) {
	c := e.c
	s := e.w.cp.Last()
	e.m.nonce = map[RT]string{}
	c.R.Count("reconnects", 1)
	e.nrec++
	if !s.alive() {
		return
	}
	var ss []Ev
	for _, x := range sends(e.w.cp.Since(mark)) {
		if x.Stream == s.id {
			ss = append(ss, x)
		}
	}
	got := map[RT]int{}
	for _, x := range ss {
		got[x.T]++
		e.checkNames(op, x)
		if !sameSet(e.m.interest[x.T], x.Names) {
			c.Violate("C04", "resub-names", "%s: resubscription of %s lists %v, the interest set is %v", op, tname[x.T], x.Names, sortedKeys(e.m.interest[x.T]))
		}
		if x.Version != e.m.ver[x.T] {
			c.Violate("C04", "resub-version", "%s: resubscription of %s carries version %q, the last accepted is %q", op, tname[x.T], x.Version, e.m.ver[x.T])
		}
		if x.Nonce != "" {
			c.Violate("C04", "resub-nonce", "%s: resubscription of %s carries nonce %q", op, tname[x.T], x.Nonce)
		}
		if x.HasErr {
			c.Violate("C04", "resub-error", "%s: resubscription of %s carries an error detail", op, tname[x.T])
		}
	}
	for t, set := range e.m.interest {
		if len(set) > 0 && got[t] == 0 {
			c.Violate("C04", "resub-missing", "%s: %s (%v) was not requested on the new stream", op, tname[t], sortedKeys(set))
			c.Violate("C03", "resub-missing", "%s: %s (%v) was not requested on the new stream", op, tname[t], sortedKeys(set))
		}
		if got[t] > 1 && !(e.startSub && t == L) {
			c.Violate("C04", "resub-twice", "%s: %s was requested %d times on the new stream", op, tname[t], got[t])
		}
	}
}

func (e *Engine) opFail() {
	s := e.w.cp.Live()
	if s == nil {
		return
	}
	mark := e.w.cp.Mark()
	was := e.w.cp.NumStreams()
	e.c.Logf("-- stream %d fails", s.id)
	e.sig = append(e.sig, "fail")
	// responses may still be queued when the connection breaks
	s.Fail(failErr(e.c.Rng))
	synctest.Wait()
	if e.w.cp.NumStreams() != was {
		e.reconnected("stream failure", mark)
	}
	e.checkOutage("stream failure")
}

// checkOutage: nothing cached is lost by a failure.
func (e *Engine) checkOutage(op string) {
	snap, ok := e.w.DumpNames()
	if !ok {
		return
	}
	for t, m := range e.m.cache {
		for n, st := range m {
			if !strings.Contains(snap[t][n], st) {
				e.c.Violate("C04", "cache-lost", "after %s: %s %q (%s) is not served any more", op, tname[t], n, st)
			}
		}
	}
}

func (e *Engine) opOutage() {
	if !e.live() {
		return
	}
	e.failOpn = 1 + e.c.Rng.Intn(3)
	e.opFail()
	e.sig = append(e.sig, fmt.Sprintf("outage%d", e.failOpn))
	// lookups during the outage
	k := e.c.Rng.Intn(5)
	for i := 0; i < k; i++ {
		if chance(e.c.Rng, 60) {
			e.opLookup()
		} else {
			e.advance(time.Duration(e.c.Rng.Intn(400)) * time.Millisecond)
		}
	}
	for i := 0; i < 100 && !e.live(); i++ {
		e.advance(200 * time.Millisecond)
	}
	if !e.live() {
		e.c.Violate("C04", "no-reconnect", "no new stream %v after the control plane became reachable", 20*time.Second)
	}
}

// opSendFail: the connection breaks in the middle of a write; the reader notices a bit later.
func (e *Engine) opSendFail() {
	s := e.w.cp.Live()
	if s == nil {
		return
	}
	e.sig = append(e.sig, "sendfail")
	s.FailSend(failErr(e.c.Rng))
	switch e.c.Rng.Intn(3) {
	case 0:
		e.quietLookup()
	case 1:
		p := e.planGood(pick(e.c.Rng, e.subscribed()))
		e.c.Logf("-- %s (answer cannot be sent)", p.desc)
		s.Push(p.resp)
		p.apply()
		now := e.elapsed()
		for _, q := range e.pend {
			if st, in := e.m.cache[q.l.T][q.l.Name]; in && q.delivered == "" && now <= q.dl {
				q.delivered = st
			}
		}
		synctest.Wait()
		e.checkCache(p.desc)
		e.settle(p.desc)
	}
	if chance(e.c.Rng, 50) {
		e.advance(time.Duration(e.c.Rng.Intn(300)) * time.Millisecond)
	}
	e.opFail()
}

func (e *Engine) quietLookup() {
	r := e.c.Rng
	t := pick(r, []RT{L, R, C, E})
	n := pick(r, e.names[t])
	if _, ok := e.m.cache[t][n]; ok || e.waiting(t, n) {
		return
	}
	e.m.sub(t, n)
	e.w.Peek(t, n)
	synctest.Wait()
}

func (e *Engine) step() {
	x := e.mix
	type w struct {
		n int
		f func()
	}
	ws := []w{
		{x.Lookup, e.opLookup}, {x.Push, e.opPush}, {x.Bad, e.opBad}, {x.Burst, e.opBurst},
		{x.Table, func() {
			if e.m.nds {
				e.run(e.planGood(N))
			}
		}},
		{x.Unknown, e.opUnknown}, {x.Fail, e.opFail}, {x.Outage, e.opOutage}, {x.Time, e.opTime}, {x.SendFail, e.opSendFail},
	}
	tot := 0
	for _, y := range ws {
		tot += y.n
	}
	k := e.c.Rng.Intn(tot)
	for _, y := range ws {
		if k < y.n {
			if len(e.subscribed()) == 0 {
				e.opLookup()
				return
			}
			y.f()
			return
		}
		k -= y.n
	}
}

// quiesce is the final check: the last request of each type on the live stream is the interest set.
func (e *Engine) quiesce() {
	for i := 0; i < 200 && !e.live(); i++ {
		e.advance(500 * time.Millisecond)
	}
	time.Sleep(2 * time.Second)
	synctest.Wait()
	s := e.w.cp.Live()
	if s == nil {
		return
	}
	last := map[RT]Ev{}
	for _, ev := range sends(e.w.cp.Since(0)) {
		if ev.Stream == s.id {
			last[ev.T] = ev
		}
	}
	for t, set := range e.m.interest {
		ev, ok := last[t]
		if !ok {
			if len(set) > 0 {
				e.c.Violate("C03", "final-missing", "quiescent: no request of %s on the live stream, the interest set is %v", tname[t], sortedKeys(set))
			}
			continue
		}
		if !sameSet(set, ev.Names) {
			e.c.Violate("C03", "final", "quiescent: the last request of %s on the live stream lists %v, the interest set is %v", tname[t], ev.Names, sortedKeys(set))
		}
	}
}

// play runs one history.
func (e *Engine) play() {
	for i := 0; i < e.mix.Ops && e.elapsed() < e.maxTime-3*time.Second; i++ {
		e.step()
		if chance(e.c.Rng, 12) {
			e.probe("probe")
		}
		if e.c.nviol > 0 {
			break
		}
	}
	if e.elapsed() < 29*time.Second {
		e.settle("end")
		e.probe("end")
		e.checkCache("end")
		if e.elapsed() < 25*time.Second {
			e.quiesce()
		}
	}
	for _, p := range e.pend {
		<-p.done
	}
	h := strings.Join(e.sig, ";")
	if len(e.sig) >= 8 && (e.nresp >= 3 && e.c.R.prop != "C02" && e.c.R.prop != "C04" || e.c.R.prop == "C02" && e.nnack > 0 || e.c.R.prop == "C04" && e.nrec > 0) {
		e.c.R.Distinct("nontrivial", h)
	}
	sig := []string{}
	for _, t := range []RT{L, R, C, E} {
		sig = append(sig, fmt.Sprintf("%d/%d", len(e.m.cache[t]), len(e.m.interest[t])))
	}
	sort.Strings(sig)
	e.c.R.Distinct("final_states", strings.Join(sig, " ")+h)
	e.c.R.Count("steps", len(e.sig))
	if len(e.sig) > 8 {
		e.c.R.Sample("case %s: %s", e.c.ID, strings.Join(e.sig, "; "))
	}
}

func engineCases(r *Run, name string, n int, mix Mix) {
	for i := 0; i < n; i++ {
		r.Case(name, i, func(c *Case) {
			c.Bubble(func() {
				e := newEngine(c, mix)
				if e == nil {
					return
				}
				e.w.cp.nonceStyle = pick(c.Rng, []int{0, 0, 0, 1, 1, 2})
				e.play()
				e.w.Close()
			})
		})
	}
}

var startMix = Mix{Lookup: 30, Push: 30, Bad: 15, Burst: 12, Table: 8, Unknown: 5, Fail: 8, Outage: 3, Time: 5, SendFail: 4, Ops: 20}

func init() {
	register("C01", func(r *Run) {
		startupCases(r, "startup", r.N(600, 6000), startMix)
		engineCases(r, "fold", r.N(6000, 60000), Mix{Lookup: 30, Push: 30, Bad: 6, Burst: 12, Table: 8, Unknown: 5, Fail: 4, Outage: 2, Time: 5, SendFail: 2, Ops: 60})
		engineCases(r, "wide", r.N(400, 4000), Mix{Lookup: 60, Push: 30, Bad: 3, Burst: 12, Table: 8, Unknown: 2, Fail: 4, Ops: 150, BigNames: 40})
		chaosCases(r, "chaos", r.N(3000, 40000), 0)
	})
	register("C02", func(r *Run) {
		startupCases(r, "startup", r.N(1000, 10000), startMix)
		evictCases(r, r.N(600, 6000))
		stuckCases(r, "stuck", r.N(72, 360))
		engineCases(r, "acks", r.N(6000, 60000), Mix{Lookup: 18, Push: 25, Bad: 30, Burst: 20, Table: 5, Unknown: 15, Fail: 4, Outage: 1, Time: 3, Ops: 60})
		chaosCases(r, "chaos", r.N(3000, 40000), 0)
	})
	register("C03", func(r *Run) {
		startupCases(r, "startup", r.N(600, 6000), startMix)
		engineCases(r, "interest", r.N(5000, 50000), Mix{Lookup: 50, Push: 15, Bad: 8, Burst: 8, Table: 4, Unknown: 4, Fail: 8, Outage: 5, Time: 4, SendFail: 8, Ops: 60})
		chaosCases(r, "chaos", r.N(3000, 40000), 0)
		chaosCases(r, "many", r.N(80, 800), 900)
		stuckCases(r, "stuck", r.N(126, 360))
		evictCases(r, r.N(1000, 10000))
		sweepWaitCases(r, r.N(400, 4000))
	})
	register("C04", func(r *Run) {
		startupCases(r, "startup", r.N(1200, 12000), startMix)
		engineCases(r, "failures", r.N(5000, 50000), Mix{Lookup: 25, Push: 20, Bad: 8, Burst: 8, Table: 4, Unknown: 3, Fail: 20, Outage: 14, Time: 6, SendFail: 14, Ops: 50})
		chaosCases(r, "chaos", r.N(3000, 40000), 0)
		chaosCases(r, "many", r.N(48, 400), 900)
		authCases(r, "auth", r.N(600, 6000))
		stuckCases(r, "stuck", r.N(54, 180))
		longOutageCases(r, "outage", r.N(48, 400))
	})
}
