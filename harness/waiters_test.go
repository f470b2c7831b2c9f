package harness

import (
	"context"
	"errors"
	"fmt"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"testing/synctest"
	"time"

	"google.golang.org/protobuf/proto"

	"github.com/kitex-contrib/xds/core/manager"
)

// Waiting lookups against deliveries (C05, C06). A scenario is a timetable in virtual time: lookups with their own
// deadlines and cancellations, responses that supply or remove names, and delays at the steps of a lookup (the
// VerifYield points). The oracles only use the instants at which the control plane saw its response being read.

type wlook struct {
	t      RT
	name   string
	start  time.Duration
	cancel time.Duration // after the start; <0: none, 0: cancelled before the lookup
	useDL  bool          // through a context deadline instead of a cancellation
}

type wdeliver struct {
	at  time.Duration
	t   RT
	res []string // names supplied
	bad bool     // the response must be rejected
	act string   // "": response, "fail": stream failure
}

type wscenario struct {
	timeout time.Duration
	looks   []wlook
	dels    []wdeliver
	yields  map[string]time.Duration // delay at each point
	presub  []string                 // "<type>/<name>" looked up (and cancelled) before
	procs   int
}

func (s *wscenario) String() string {
	var b strings.Builder
	fmt.Fprintf(&b, "timeout=%v procs=%d yields=%v presub=%v;", s.timeout, s.procs, s.yields, s.presub)
	for _, l := range s.looks {
		fmt.Fprintf(&b, " lookup(%s %s @%v cancel %v)", tname[l.t], l.name, l.start, l.cancel)
	}
	for _, d := range s.dels {
		fmt.Fprintf(&b, " deliver(%s %v @%v bad=%v %s)", tname[d.t], d.res, d.at, d.bad, d.act)
	}
	return b.String()
}

func setYield(delays map[string]time.Duration) (restore func()) {
	if len(delays) == 0 {
		manager.VerifYield = nil
		return func() {}
	}
	var n atomic.Int64
	manager.VerifYield = func(p string, _ RT, _ string) {
		if d := delays[p]; d > 0 {
			n.Add(1)
			time.Sleep(d)
		}
	}
	return func() { manager.VerifYield = nil }
}

type wresult struct {
	wlook
	l    *Lookup
	done bool
}

func runWaiters(c *Case, sc *wscenario) {
	runtime.GOMAXPROCS(sc.procs)
	defer runtime.GOMAXPROCS(4)
	c.Logf("scenario %s", sc)
	cfg := WCfg{Timeout: sc.timeout}
	w := NewWorld(c, cfg)
	if w.err != nil {
		c.Violate("C05", "init", "initialisation failed: %v", w.err)
		return
	}
	w.cfg = cfg
	tmo := sc.timeout
	if tmo == 0 {
		tmo = time.Second
	}
	subscribed := map[string]time.Duration{}
	for _, p := range sc.presub {
		i := strings.IndexByte(p, '/')
		t := map[string]RT{"LDS": L, "RDS": R, "CDS": C, "EDS": E}[p[:i]]
		w.Peek(t, p[i+1:])
		subscribed[p] = -1
	}
	synctest.Wait()
	restore := setYield(sc.yields)
	defer restore()
	slack := sc.yields["miss"] + sc.yields["wait"] + sc.yields["woken"] + sc.yields["expired"]
	base := time.Since(w.cp.t0)
	rs := make([]*wresult, len(sc.looks))
	var wg sync.WaitGroup
	for i, wl := range sc.looks {
		r := &wresult{wlook: wl}
		rs[i] = r
		wg.Add(1)
		go func() {
			defer wg.Done()
			time.Sleep(wl.start)
			ctx, cancel := context.Background(), context.CancelFunc(func() {})
			switch {
			case wl.cancel == 0:
				ctx, cancel = context.WithCancel(ctx)
				cancel()
			case wl.cancel > 0 && wl.useDL:
				ctx, cancel = context.WithTimeout(ctx, wl.cancel)
			case wl.cancel > 0:
				ctx, cancel = context.WithCancel(ctx)
				time.AfterFunc(wl.cancel, cancel)
			}
			r.l = w.Get(ctx, wl.t, wl.name)
			cancel()
			r.done = true
		}()
	}
	// deliveries: a timetable of its own, responses of one instant back to back
	dels := append([]wdeliver(nil), sc.dels...)
	sort.SliceStable(dels, func(i, j int) bool { return dels[i].at < dels[j].at })
	type sent struct {
		d      wdeliver
		stamps map[string]string
	}
	pushed := map[string]sent{}
	var order []string
	go func() {
		now := time.Duration(0)
		for k, d := range dels {
			time.Sleep(d.at - now)
			now = d.at
			s := w.cp.Live()
			if s == nil {
				continue
			}
			if d.act == "fail" {
				s.Fail(errors.New("connection reset"))
				continue
			}
			st := map[string]string{}
			var ms []proto.Message
			for _, n := range d.res {
				st[n] = fmt.Sprintf("st-%d-%s-", k, n)
				ms = append(ms, mk(d.t, n, st[n]))
			}
			if d.bad {
				ms = append(ms, badAny(c.Rng, d.t))
			}
			resp := w.Resp(d.t, fmt.Sprintf("v%d", k), ms...)
			w.cp.mu.Lock()
			pushed[resp.Nonce] = sent{d, st}
			order = append(order, resp.Nonce)
			w.cp.mu.Unlock()
			s.Push(resp)
		}
	}()
	wg.Wait()
	time.Sleep(time.Second)
	synctest.Wait()
	// ---- oracles
	evs := w.cp.Since(0)
	// earliest instant at which each name is certainly subscribed
	for _, r := range rs {
		k := tname[r.t] + "/" + r.name
		at := r.start + sc.yields["miss"]
		if o, ok := subscribed[k]; !ok || at < o {
			subscribed[k] = at
		}
	}
	type iv struct {
		from, to time.Duration
		stamp    string
		sure     bool
	}
	ivs := map[string][]*iv{}
	forever := time.Duration(1 << 60)
	nacc := 0
	for _, ev := range evs {
		if ev.Kind != "recv" {
			continue
		}
		s, ok := pushed[ev.Nonce]
		if !ok || s.d.bad {
			continue
		}
		nacc++
		at := ev.At - base
		if s.d.t == L || s.d.t == C { // the response replaces the whole set
			for k, l := range ivs {
				if strings.HasPrefix(k, tname[s.d.t]+"/") && len(l) > 0 && l[len(l)-1].to == forever {
					l[len(l)-1].to = at
				}
			}
		}
		for n, st := range s.stamps {
			k := tname[s.d.t] + "/" + n
			sub, any := subscribed[k]
			l := ivs[k]
			if len(l) > 0 && l[len(l)-1].to == forever {
				l[len(l)-1].to = at
			}
			ivs[k] = append(ivs[k], &iv{at, forever, st, any && sub < at})
		}
	}
	c.R.Count("deliveries", nacc)
	outcome := []string{}
	for i, r := range rs {
		if !r.done || r.l.Panicked {
			outcome = append(outcome, "x")
			continue
		}
		lim := tmo
		if r.cancel >= 0 && r.cancel < lim {
			lim = r.cancel
		}
		s, e := r.start, r.l.End-base
		if e > s+lim+slack {
			c.Violate("C05", "late", "lookup #%d of %s %q returned %v after its start, its deadline was %v (injected delays: at most %v)", i, tname[r.t], r.name, e-s, lim, slack)
		}
		k := tname[r.t] + "/" + r.name
		// the value must have been current at some moment of the lookup
		if r.l.Err == nil {
			ok := false
			for _, v := range ivs[k] {
				if v.stamp == r.l.Stamp && v.from <= e && v.to >= s {
					ok = true
				}
			}
			if !ok {
				for _, p := range []string{"C05", "C06"} {
					c.Violate(p, "value", "lookup #%d of %s %q in [%v,%v] returned %q, which no accepted response made current in that time", i, tname[r.t], r.name, s, e, r.l.Stamp)
				}
			}
		}
		// a resource accepted before the deadline is returned, at once
		ready := s + sc.yields["miss"]
		var must *iv
		at := forever
		for _, v := range ivs[k] {
			if !v.sure {
				continue
			}
			var t time.Duration
			switch {
			case v.from > ready && v.from < s+lim:
				t = v.from // delivered to the waiting lookup
			case v.from <= ready && v.to > ready && v.from < s+lim:
				t = max(v.from, s) // already there when the lookup looked
				if v.from == s && sc.yields["miss"] == 0 {
					t = s
				}
			default:
				continue
			}
			if t < at {
				must, at = v, t
			}
		}
		if must != nil && (lim > 0 || must.from < s) {
			if r.l.Err != nil {
				c.Violate("C06", "lost", "lookup #%d of %s %q started at %v with deadline %v returned %q at %v although %s was accepted at %v", i, tname[r.t], r.name, s, s+lim, r.l.Err, e, must.stamp, must.from)
			} else if e > at+slack {
				c.Violate("C06", "delayed", "lookup #%d of %s %q started at %v: %s was accepted at %v, it returned at %v (injected delays: at most %v)", i, tname[r.t], r.name, s, must.stamp, must.from, e, slack)
			}
			c.R.Count("deliveries_to_lookups", 1)
		}
		o := "E"
		if r.l.Err == nil {
			o = "V"
		}
		outcome = append(outcome, o)
	}
	c.R.Distinct("interleavings", interleaving(evs))
	if len(rs) > 0 && nacc > 0 {
		c.R.Distinct("nontrivial", sc.String())
	}
	c.R.Distinct("outcomes", strings.Join(outcome, ""))
	c.R.Sample("case %s: %s -> %s", c.ID, sc, strings.Join(outcome, ""))
	restore()
	w.Close()
}

func waiterCases(r *Run, n int) {
	for i := 0; i < n; i++ {
		r.Case("waiters", i, func(c *Case) {
			c.Bubble(func() { runWaiters(c, randScenario(c)) })
		})
	}
}

func randScenario(c *Case) *wscenario {
	r := c.Rng
	ms := time.Millisecond
	sc := &wscenario{timeout: []time.Duration{0, 20 * ms, 50 * ms, 300 * ms}[r.Intn(4)], procs: []int{1, 1, 4, 8}[r.Intn(4)], yields: map[string]time.Duration{}}
	if chance(r, 5) {
		sc.timeout = []time.Duration{1100 * ms, 11 * time.Second, 16 * time.Second, 31 * time.Second, 61 * time.Second, 11 * time.Minute}[r.Intn(6)]
	}
	if chance(r, 60) {
		for _, p := range []string{"miss", "wait", "woken", "expired"} {
			if chance(r, 45) {
				sc.yields[p] = time.Duration(1+r.Intn(6)) * ms
			}
		}
	}
	types := []RT{L, R, C, E}
	if chance(r, 60) {
		types = []RT{pick(r, types)}
	}
	names := []string{"n1", "n2", "n3"}[:1+r.Intn(3)]
	horizon := 12
	if chance(r, 30) {
		horizon = 60
	}
	grid := func() time.Duration { return time.Duration(r.Intn(horizon)) * ms }
	for _, t := range types {
		for _, n := range names {
			if chance(r, 50) {
				sc.presub = append(sc.presub, tname[t]+"/"+n)
			}
		}
	}
	nl := 1 + r.Intn(7)
	if chance(r, 10) {
		nl = 20 + r.Intn(30)
	}
	quitters := 55
	if chance(r, 2) {
		// a crowd on one name, most of which gives up
		nl, quitters = 65+r.Intn(200), pick(r, []int{55, 80, 95})
		names, types = names[:1], types[:1]
	}
	for i := 0; i < nl; i++ {
		l := wlook{t: pick(r, types), name: pick(r, names), start: grid(), cancel: -1, useDL: chance(r, 50)}
		if chance(r, quitters) {
			l.cancel = time.Duration(r.Intn(12)) * ms
		}
		sc.looks = append(sc.looks, l)
	}
	nd := 1 + r.Intn(5)
	for i := 0; i < nd; i++ {
		d := wdeliver{at: grid() + time.Duration(r.Intn(3))*ms, t: pick(r, types), bad: chance(r, 12)}
		for _, n := range append(names, "unasked") {
			if chance(r, 60) {
				d.res = append(d.res, n)
			}
		}
		if chance(r, 8) {
			d.act = "fail"
		}
		if sc.timeout > time.Second && chance(r, 60) {
			d.at += sc.timeout - time.Duration(50+r.Intn(1000))*ms
		}
		sc.dels = append(sc.dels, d)
		// supplied and withdrawn in one breath
		if chance(r, 30) {
			sc.dels = append(sc.dels, wdeliver{at: d.at, t: d.t})
		}
	}
	return sc
}

// gridCases enumerates two lookups of one name against one delivery.
func gridCases(r *Run, types []RT, full bool) {
	ms := time.Millisecond
	idx := 0
	ys := []map[string]time.Duration{
		{}, {"miss": 1 * ms}, {"expired": 1 * ms}, {"wait": 1 * ms}, {"woken": 1 * ms}, {"miss": 2 * ms}, {"expired": 2 * ms},
		{"miss": 1 * ms, "expired": 2 * ms}, {"woken": 2 * ms, "expired": 1 * ms},
	}
	cas := []time.Duration{-1, 1 * ms, 2 * ms, 3 * ms}
	bs := []time.Duration{0, 1 * ms, 2 * ms, 3 * ms}
	cbs := []time.Duration{-1, 0, 2 * ms, 4 * ms}
	ds := []time.Duration{1 * ms, 2 * ms, 3 * ms, 4 * ms, 5 * ms}
	for _, t := range types {
		for _, y := range ys {
			for _, ca := range cas {
				for _, b := range bs {
					for _, cb := range cbs {
						for _, d := range ds {
							if !full && (idx%2 == 1) {
								idx++
								continue
							}
							sc := &wscenario{timeout: 6 * ms, procs: 1 + idx/2%2*3, yields: y}
							sc.looks = []wlook{{t: t, name: "n", start: 0, cancel: ca}, {t: t, name: "n", start: b, cancel: cb}}
							sc.dels = []wdeliver{{at: d, t: t, res: []string{"n", "m"}}}
							if idx%3 == 0 {
								sc.dels = append(sc.dels, wdeliver{at: d, t: t, res: []string{"m"}})
							}
							if idx%5 == 0 {
								sc.presub = []string{tname[t] + "/n"}
							}
							r.Case("grid", idx, func(c *Case) {
								c.Bubble(func() { runWaiters(c, sc) })
							})
							idx++
						}
					}
				}
			}
		}
	}
}

// ---------------------------------------------------------------- kinds, names, closed managers

func kindCases(r *Run, n int) {
	for i := 0; i < n; i++ {
		r.Case("kinds", i, func(c *Case) {
			c.Bubble(func() {
				nds := chance(c.Rng, 50)
				cfg := WCfg{NDS: nds, LDS: chance(c.Rng, 50), Table: map[string][]string{"svc.ns1.svc.cluster.local": {"10.0.0.1"}}, Timeout: time.Duration(c.Rng.Intn(3)) * 100 * time.Millisecond}
				w := NewWorld(c, cfg)
				if w.err != nil {
					return
				}
				w.cfg = cfg
				defer w.Close()
				// the same name in every type, with different stamps
				for _, t := range []RT{L, R, C, E} {
					w.Peek(t, "svc")
				}
				synctest.Wait()
				for _, t := range []RT{L, R, C, E} {
					n := "svc"
					if t == L && nds {
						n = "10.0.0.1_80"
					}
					w.Push(w.Resp(t, "v1", mk(t, n, "st-"+tname[t]+"-")))
				}
				for _, t := range []RT{L, R, C, E} {
					if l := w.Get(context.Background(), t, "svc"); l.Err != nil || l.Stamp != "st-"+tname[t]+"-" {
						c.Violate("C05", "kind", "lookup of %s %q returned %s err=%v", tname[t], "svc", l.Stamp, l.Err)
					}
				}
				synctest.Wait()
				// unknown kinds
				mark := w.cp.Mark()
				ks := []int{-1 << 40, -7, -1, 0, 6, 7, 8, 9, 10, 15, 16, 31, 32, 63, 64, 100, 255, 256, 257, 1 << 20, 1<<32 + 1, 1<<32 + 3, 1 << 62}
				for k := 0; k < 6; k++ {
					ks = append(ks, 6+c.Rng.Intn(1<<30))
				}
				names := []string{"svc", "", "virtualInbound", "x"}
				for _, k := range ks {
					n := pick(c.Rng, names)
					ctx := context.Background()
					for rep := 0; rep < 2; rep++ {
						l := w.Get(ctx, RT(k), n)
						if l.Panicked {
							continue
						}
						if l.Err == nil {
							c.Violate("C05", "unknown-kind", "lookup of kind %d %q succeeded", k, n)
						}
						if l.End != l.Start {
							c.Violate("C05", "unknown-kind-late", "lookup of the unknown kind %d was rejected after %v, not immediately", k, l.End-l.Start)
						}
						c.R.Count("unknown_kinds", 1)
					}
				}
				synctest.Wait()
				if ss := sends(w.cp.Since(mark)); len(ss) > 0 {
					c.Violate("C05", "unknown-kind-subscribed", "lookups of unknown kinds were followed by the request %s", ss[0])
				}
				// no trace of them in the following subscriptions either
				mark = w.cp.Mark()
				w.cp.Live().Fail(errors.New("connection reset"))
				synctest.Wait()
				time.Sleep(3 * time.Second)
				synctest.Wait()
				for _, s := range sends(w.cp.Since(mark)) {
					if s.T == 0 {
						c.Violate("C05", "unknown-kind-subscribed", "after lookups of unknown kinds the client requested %q", s.URL)
					}
				}
				// hostile names
				hostile := []string{
					"", ":", "::", ":80", "svc:", "svc:80:80", "svc:99999999", " svc", "svc\x00", "SVC", strings.Repeat("a", 70000), "10.0.0.1_80", "[::1]:80", "svc.svc.svc.svc.svc",
					".", "..", "svc.", ".svc.", "%s%d%n", "\xff\xfe", "svc.ns1.svc.cluster.local:80", "svc.ns1:x",
				}
				for k := 0; k < 12; k++ {
					n := pick(c.Rng, hostile)
					t := pick(c.Rng, []RT{L, L, R, C, E, N})
					l := w.Get(context.Background(), t, n)
					w.CheckDeadline(l)
					if supplied := t == C && n == "" && k > 5 && l.Stamp == "st-nc-"; t != L && l.Err == nil && !supplied {
						c.Violate("C05", "never-supplied", "lookup of %s %q succeeded, the control plane supplied no such resource", tname[t], n)
					}
					if k == 5 {
						res := "svc"
						if nds {
							res = "10.0.0.1_80"
						}
						w.Push(w.Resp(L, "v2", mkListener(res, "st-h-"), mkListener("", "st-empty-"), mkListener("_80", "st-e80-")))
						w.Push(w.Resp(N, "v2", mkTable(map[string][]string{"svc.ns1.svc.cluster.local": {"10.0.0.1"}, "": {"10.0.0.2"}, "x": {}})))
						w.Push(w.Resp(C, "v2", mkCluster("", "st-nc-")))
					}
				}
				c.R.Distinct("nontrivial", fmt.Sprintf("kinds %v %v %v", nds, cfg.LDS, ks))
				if chance(c.Rng, 50) {
					w.closedLookups()
				}
			})
		})
	}
}

// closedLookups: lookups of a closed manager still return in time.
func (w *World) closedLookups() {
	c := w.c
	cached := w.Peek(C, "svc")
	_ = cached
	m := w.m
	m.Close()
	w.m = closedMgr{m}
	synctest.Wait()
	var wg sync.WaitGroup
	k := 1 + c.Rng.Intn(8)
	if chance(c.Rng, 10) {
		k = 1200
	}
	for i := 0; i < k; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			l := w.Get(context.Background(), []RT{L, R, C, E}[i%4], fmt.Sprintf("closed-%d", i))
			w.CheckDeadline(l)
		}()
	}
	done := make(chan struct{})
	go func() { wg.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(5 * time.Second):
		c.Violate("C05", "closed-hangs", "lookups of a closed manager still wait after 5 s")
	}
	if l := w.Get(context.Background(), E, "svc"); l.Err != nil || l.End != l.Start {
		c.Violate("C05", "closed-cached", "lookup of a cached name after Close: err=%v after %v", l.Err, l.End-l.Start)
	}
	c.R.Count("closed_managers", 1)
}

type closedMgr struct{ Manager }

func (closedMgr) Close() {}

func init() {
	register("C05", func(r *Run) {
		kindCases(r, r.N(320, 3000))
		waiterCases(r, r.N(8000, 80000))
		gridCases(r, []RT{C, R}, r.Thorough())
		engineCases(r, "engine", r.N(800, 10000), Mix{Lookup: 50, Push: 25, Bad: 6, Burst: 12, Table: 8, Unknown: 5, Fail: 4, Outage: 2, Time: 12, SendFail: 2, Ops: 60})
		chaosCases(r, "chaos", r.N(800, 8000), 0)
		authCases(r, "auth", r.N(200, 2000))
		stuckCases(r, "stuck", r.N(54, 180))
	})
	register("C06", func(r *Run) {
		waiterCases(r, r.N(16000, 160000))
		gridCases(r, []RT{C, R, L, E}, true)
		chaosCases(r, "chaos", r.N(1200, 12000), 0)
	})
}
