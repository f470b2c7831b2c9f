package harness

import (
	"context"
	"errors"
	"fmt"
	"strings"
	"sync"
	"testing/synctest"
	"time"

	discoveryv3 "github.com/envoyproxy/go-control-plane/envoy/service/discovery/v3"
)

// ---------------------------------------------------------------- chaos

// A chaos phase runs lookups, pushes, stream failures and stalls concurrently, at random virtual instants. The
// monitors work on the event log, with every ordering the instants leave open admitted; a final resynchronisation is
// compared exactly with the model.

type snapState struct {
	at    time.Duration
	cache map[RT]map[string]string
}

func (e *Engine) snapshot(at time.Duration) snapState {
	s := snapState{at: at, cache: map[RT]map[string]string{}}
	for t, m := range e.m.cache {
		c := map[string]string{}
		for k, v := range m {
			c[k] = v
		}
		s.cache[t] = c
	}
	return s
}

// fullPush synchronises every subscribed type with a response carrying every name.
func (e *Engine) fullPush() {
	for _, t := range []RT{N, L, R, C, E} {
		if e.m.interest[t] == nil {
			continue
		}
		if t == N {
			e.run(e.planGood(N))
			continue
		}
		var order []string
		res := map[string]string{}
		add := func(n string) {
			if _, ok := res[n]; !ok && n != "" {
				order = append(order, n)
				res[n] = e.stamp()
			}
		}
		for _, n := range sortedKeys(e.m.interest[t]) {
			if t == L {
				n = e.m.bind(n)
			}
			add(n)
		}
		v := e.version()
		resp := e.message(t, v, order, res)
		tt := t
		e.run(plan{resp: resp, exp: []expAck{{t, resp.Nonce, v, false}}, desc: "full " + tname[t] + " push", apply: func() {
			e.m.nonce[tt] = resp.Nonce
			e.m.accept(tt, v, res)
		}})
	}
}

func (e *Engine) waitLive(max time.Duration) bool {
	for d := time.Duration(0); d < max; d += 100 * time.Millisecond {
		if e.live() {
			return true
		}
		time.Sleep(100 * time.Millisecond)
		synctest.Wait()
	}
	return e.live()
}

func (e *Engine) chaos(newNames int) {
	c, r := e.c, e.c.Rng
	// every type is subscribed before, so that each response is acknowledged
	for _, t := range []RT{L, R, C, E} {
		for i := 0; i < 2; i++ {
			n := pick(r, e.names[t])
			if _, ok := e.m.cache[t][n]; ok {
				continue
			}
			e.m.sub(t, n)
			e.w.Peek(t, n)
		}
	}
	synctest.Wait()
	if !e.waitLive(10 * time.Second) {
		return
	}
	e.fullPush()
	if c.nviol > 0 {
		return
	}
	pre := map[RT]map[string]bool{}
	all := map[RT]map[string]bool{}
	for t, m := range e.m.interest {
		pre[t], all[t] = map[string]bool{}, map[string]bool{}
		for n := range m {
			pre[t][n], all[t][n] = true, true
		}
	}
	plans := map[string]plan{}
	kinds := map[string]bool{}
	type act struct {
		at time.Duration
		f  func()
	}
	var acts []act
	offs := []time.Duration{0, 0, 0, time.Millisecond, 5 * time.Millisecond, 20 * time.Millisecond, 100 * time.Millisecond, 400 * time.Millisecond}
	var mu sync.Mutex
	var looks []*Lookup
	cp := e.w.cp
	if chance(r, 40) {
		d := time.Duration(1+r.Intn(10)) * time.Millisecond
		cp.SendHook = func(s *Stream, _ *discoveryv3.DiscoveryRequest) { time.Sleep(d) }
		kinds["slow-send"] = true
	}
	if chance(r, 30) {
		k := 1 + r.Intn(5)
		left := 1 + r.Intn(2)
		cp.OnOpen = func(s *Stream) {
			if left > 0 {
				left--
				s.FailSendAt = k
			}
		}
		kinds[fmt.Sprintf("resub-fails-at-%d", k)] = true
	}
	n := 5 + r.Intn(12)
	if newNames > 100 {
		n += newNames
	}
	nn := 0
	for i := 0; i < n; i++ {
		at := pick(r, offs)
		k := r.Intn(100)
		if i >= 17 {
			k = 0
		}
		switch {
		case k < 45:
			t := pick(r, []RT{L, R, C, E})
			name := pick(r, e.names[t])
			if chance(r, 40) || i >= 17 {
				nn++
				name = fmt.Sprintf("new%d-%s", nn, strings.ToLower(tname[t]))
			}
			if t == L && chance(r, 10) {
				name = inbound
			}
			all[t][name] = true
			ctx := context.Background()
			var cancel context.CancelFunc = func() {}
			var cd time.Duration
			if chance(r, 30) {
				cd = time.Duration(1+r.Intn(300)) * time.Millisecond
			}
			acts = append(acts, act{at, func() {
				if cd > 0 {
					ctx, cancel = context.WithTimeout(ctx, cd)
				}
				defer cancel()
				l := e.w.Get(ctx, t, name)
				e.w.CheckDeadline(l)
				mu.Lock()
				looks = append(looks, l)
				mu.Unlock()
			}})
			kinds["lookup"] = true
		case k < 75:
			t := pick(r, e.subscribed())
			p := e.planGood(t)
			if chance(r, 25) {
				p = e.planBad(t)
				kinds["bad"] = true
			}
			plans[p.resp.Nonce] = p
			acts = append(acts, act{at, func() {
				if s := cp.Live(); s != nil && s.Asked(t) {
					s.Push(p.resp)
				}
			}})
			kinds["push "+tname[t]] = true
		case k < 86:
			no, ferr := 0, failErr(r)
			if chance(r, 50) {
				no = 1 + r.Intn(2)
			}
			acts = append(acts, act{at, func() {
				if s := cp.Live(); s != nil {
					cp.mu.Lock()
					e.failOpn = no
					cp.mu.Unlock()
					s.Fail(ferr)
				}
			}})
			kinds["fail"] = true
		case k < 94:
			d := time.Duration(r.Intn(200)) * time.Millisecond
			acts = append(acts, act{at, func() {
				if s := cp.Live(); s != nil {
					s.BlockSend()
					time.Sleep(d)
					s.ReleaseSend()
				}
			}})
			kinds["stall"] = true
		case k < 97:
			d, ferr := time.Duration(r.Intn(100))*time.Millisecond, failErr(r)
			acts = append(acts, act{at, func() {
				if s := cp.Live(); s != nil {
					s.FailSend(ferr)
					time.Sleep(d)
					s.Fail(ferr)
				}
			}})
			kinds["send-fails"] = true
		default:
			acts = append(acts, act{at, func() { e.w.DumpRaw() }})
			kinds["dump"] = true
		}
	}
	streamBefore := cp.NumStreams()
	mark := cp.Mark()
	t0 := e.elapsed()
	var wg sync.WaitGroup
	for _, a := range acts {
		wg.Add(1)
		go func() {
			defer wg.Done()
			time.Sleep(a.at)
			a.f()
		}()
	}
	wg.Wait()
	cp.OnOpen = nil
	time.Sleep(800 * time.Millisecond)
	synctest.Wait()
	ok := e.waitLive(12 * time.Second)
	cp.SendHook = nil
	for _, s := range cp.Streams() {
		s.Steady()
	}
	time.Sleep(300 * time.Millisecond)
	synctest.Wait()
	if !ok {
		c.Violate("C04", "no-reconnect", "no new stream 12 s after the control plane became reachable")
		return
	}
	live := cp.Live()
	if live == nil {
		return
	}
	if cp.NumStreams() > streamBefore {
		e.nrec += cp.NumStreams() - streamBefore
		c.R.Count("reconnects", cp.NumStreams()-streamBefore)
	}
	// ---- monitors over the log
	evs := cp.Since(mark)
	states := []snapState{e.snapshot(t0)}
	type want struct {
		ev      Ev
		version string
		nack    bool
	}
	var wants []want
	for _, ev := range evs {
		if ev.Kind != "recv" {
			continue
		}
		p, ok := plans[ev.Nonce]
		if !ok {
			continue
		}
		delete(plans, ev.Nonce)
		w := want{ev: ev, version: e.m.ver[ev.T]}
		if len(p.exp) > 0 && !p.exp[0].nack {
			w.version = p.exp[0].version
		}
		w.nack = p.exp[0].nack
		if w.nack {
			e.nnack++
		}
		p.apply()
		e.nresp++
		if ev.Stream != live.id {
			delete(e.m.nonce, ev.T)
		}
		wants = append(wants, w)
		states = append(states, e.snapshot(ev.At))
	}
	if cp.NumStreams() > streamBefore {
		keep := map[RT]string{}
		for _, w := range wants {
			if w.ev.Stream == live.id {
				keep[w.ev.T] = w.ev.Nonce
			}
		}
		e.m.nonce = keep
	}
	c.R.Count("responses", len(wants))
	for _, w := range wants {
		var echo []Ev
		for _, ev := range evs {
			if ev.Kind == "send" && ev.Stream == w.ev.Stream && ev.Nonce == w.ev.Nonce && ev.T == w.ev.T {
				echo = append(echo, ev)
			}
		}
		if len(echo) == 0 {
			if w.ev.Stream == live.id {
				c.Violate("C02", "chaos-no-ack", "response %q of %s received on the live stream %d was never acknowledged", w.ev.Nonce, tname[w.ev.T], live.id)
			}
			continue
		}
		c.R.Count("acks_checked", 1)
		for i, g := range echo {
			if g.HasErr != (w.nack && i == 0) {
				c.Violate("C02", "chaos-ack-error", "response %q of %s (rejected: %v): request #%d echoing it has error_detail=%v (%s)", w.ev.Nonce, tname[w.ev.T], w.nack, i+1, g.HasErr, g.Err)
			}
			if g.Version != w.version {
				c.Violate("C02", "chaos-ack-version", "response %q of %s: request #%d echoing it has version %q, expected %q", w.ev.Nonce, tname[w.ev.T], i+1, g.Version, w.version)
			}
		}
	}
	last := map[RT]map[string]bool{}
	for t, m := range pre {
		last[t] = m
	}
	lastLive := map[RT]Ev{}
	firstOn := map[string]bool{}
	for _, ev := range evs {
		if ev.Kind != "send" {
			continue
		}
		set := setOf(ev.Names)
		for n := range last[ev.T] {
			if !set[n] {
				c.Violate("C03", "chaos-shrunk", "request %s does not list %q, which was subscribed before", ev, n)
			}
		}
		for n := range set {
			if !all[ev.T][n] {
				c.Violate("C03", "chaos-foreign", "request %s lists %q, which was never asked for", ev, n)
			}
		}
		last[ev.T] = set
		if ev.Stream == live.id {
			lastLive[ev.T] = ev
		}
		key := fmt.Sprintf("%d/%d", ev.Stream, ev.T)
		if ev.Stream > streamBefore && !firstOn[key] && ev.Nonce == "" {
			c.R.Count("resubscriptions", 1)
			if ev.HasErr {
				c.Violate("C04", "chaos-resub-error", "first request %s on a new stream carries an error detail", ev)
			}
		}
		firstOn[key] = true
	}
	for t, m := range all {
		for n := range m {
			e.m.sub(t, n)
		}
		ev, ok := lastLive[t]
		if cp.NumStreams() == streamBefore && !ok && len(all[t]) == len(pre[t]) {
			continue
		}
		if !ok {
			c.Violate("C04", "chaos-resub-missing", "%s was not requested on the new stream %d", tname[t], live.id)
			c.Violate("C03", "chaos-resub-missing", "%s was not requested on the new stream %d", tname[t], live.id)
		} else if !sameSet(m, ev.Names) {
			c.Violate("C03", "chaos-final", "quiescent: the last request of %s lists %v, the interest set is %v", tname[t], ev.Names, sortedKeys(m))
			if cp.NumStreams() > streamBefore {
				c.Violate("C04", "chaos-final", "quiescent: the last request of %s on the new stream lists %v, the interest set is %v", tname[t], ev.Names, sortedKeys(m))
			}
		}
	}
	// every subscribed type was requested again with the last accepted version and without a nonce
	e.checkFirstRequests(evs, wants0(wants, func(w want) (Ev, string) { return w.ev, w.version }), states, streamBefore)
	// ---- lookups
	for _, l := range looks {
		if l.Panicked || !pre[l.T][l.Name] {
			if !l.Panicked && l.Err == nil && l.Stamp == "?" {
				c.Violate("C01", "chaos-value", "lookup of %s %q returned an unknown value", tname[l.T], l.Name)
			}
			continue
		}
		okVal, mustHave := false, ""
		for i, s := range states {
			end := time.Duration(1 << 62)
			if i+1 < len(states) {
				end = states[i+1].at
			}
			if s.at > l.End || end < l.Start {
				continue
			}
			st, in := s.cache[l.T][l.Name]
			if !in {
				continue
			}
			if st == l.Stamp {
				okVal = true
			}
			if min(end, l.End) > max(s.at, l.Start) || (s.at > l.Start && s.at < l.End) {
				mustHave = st
			}
		}
		c.R.Count("lookups_explained", 1)
		if l.Err == nil && !okVal {
			c.Violate("C01", "chaos-value", "lookup of %s %q in [%v,%v] returned %s, which was not current at any moment of it", tname[l.T], l.Name, l.Start, l.End, l.Stamp)
			c.Violate("C07", "chaos-value", "lookup of %s %q in [%v,%v] returned %s, which was not current at any moment of it", tname[l.T], l.Name, l.Start, l.End, l.Stamp)
		}
		if l.Err != nil && mustHave != "" {
			for _, p := range []string{"C01", "C06", "C04"} {
				c.Violate(p, "chaos-lost", "lookup of %s %q in [%v,%v] failed (%v) although %s was current before its deadline", tname[l.T], l.Name, l.Start, l.End, l.Err, mustHave)
			}
		}
	}
	ks := sortedKeys(kinds)
	e.sig = append(e.sig, "chaos("+strings.Join(ks, ",")+")")
	c.R.Distinct("interleavings", interleaving(evs))
	if c.nviol > 0 {
		return
	}
	// ---- resynchronisation, exact again
	e.noCheck = true
	e.fullPush()
	e.noCheck = false
	e.checkCache("resynchronisation")
	e.probe("resynchronisation")
}

// interleaving is the order of the observed events, for the distinct count.
func interleaving(evs []Ev) string {
	var b strings.Builder
	for _, ev := range evs {
		fmt.Fprintf(&b, "%s%d%d;", ev.Kind, ev.T, ev.Stream)
	}
	return b.String()
}

type verPoint struct {
	at  int // position in the log
	t   RT
	ver string
}

func wants0[T any](ws []T, f func(T) (Ev, string)) (out []struct {
	ev  Ev
	ver string
}) {
	for _, w := range ws {
		ev, v := f(w)
		out = append(out, struct {
			ev  Ev
			ver string
		}{ev, v})
	}
	return
}

// checkFirstRequests: on a new stream the first request of each type carries the last accepted version. The responses
// received on earlier streams were all processed before; those of the stream itself may have been.
func (e *Engine) checkFirstRequests(evs []Ev, ws []struct {
	ev  Ev
	ver string
}, states []snapState, streamBefore int,
) {
	seen := map[string]bool{}
	for _, ev := range evs {
		if ev.Kind != "send" || ev.Stream <= streamBefore {
			continue
		}
		key := fmt.Sprintf("%d/%d", ev.Stream, ev.T)
		if seen[key] {
			continue
		}
		seen[key] = true
		// versions in force when the stream was opened, and later
		prev, any := "", false
		okv := map[string]bool{}
		for _, w := range ws {
			if w.ev.T != ev.T {
				continue
			}
			if w.ev.Stream < ev.Stream {
				prev, any = w.ver, true
			} else if w.ev.Stream == ev.Stream {
				okv[w.ver] = true
			}
		}
		if any {
			okv[prev] = true
			if !okv[ev.Version] {
				e.c.Violate("C04", "chaos-resub-version", "first request %s on stream %d: the last accepted version is %q", ev, ev.Stream, prev)
			}
		}
	}
}

func chaosCases(r *Run, name string, n int, newNames int) {
	for i := 0; i < n; i++ {
		r.Case(name, i, func(c *Case) {
			c.Bubble(func() {
				nn := 0
				if newNames > 0 {
					nn = newNames/2 + c.Rng.Intn(newNames)
					if i%10 == 9 {
						nn = 2000 + c.Rng.Intn(1000)
					}
				}
				e := newEngine(c, Mix{Lookup: 30, Push: 30, Bad: 6, Burst: 10, Table: 6, Unknown: 3, Fail: 5, Ops: 12})
				if e == nil {
					return
				}
				for i := 0; i < e.mix.Ops && e.c.nviol == 0; i++ {
					e.step()
				}
				// the lookups still waiting would interfere
				for _, p := range e.pend {
					<-p.done
				}
				synctest.Wait()
				e.settle("before chaos")
				for k := 0; k < 2 && e.c.nviol == 0 && e.elapsed() < 10*time.Second; k++ {
					e.chaos(nn)
				}
				if e.elapsed() < 25*time.Second && c.nviol == 0 {
					e.quiesce()
				}
				c.R.Distinct("nontrivial", strings.Join(e.sig, ";"))
				c.R.Sample("case %s: %s", c.ID, strings.Join(e.sig, "; "))
				e.w.Close()
			})
		})
	}
}

// ---------------------------------------------------------------- authentication rejections

// rejected checks that the client stopped for good and that lookups still return.
func (e *Engine) rejected(op string, many int) {
	c, w, r := e.c, e.w, e.c.Rng
	mark := w.cp.Mark()
	opens := w.cp.opens
	// lookups of cached and of missing names, concurrently
	type res struct {
		l  *Lookup
		st string
	}
	var mu sync.Mutex
	var out []res
	var wg sync.WaitGroup
	look := func(ctx context.Context, t RT, n, st string) {
		wg.Add(1)
		go func() {
			defer wg.Done()
			l := w.Get(ctx, t, n)
			w.CheckDeadline(l)
			mu.Lock()
			out = append(out, res{l, st})
			mu.Unlock()
		}()
	}
	ncached := 0
	for _, t := range []RT{L, R, C, E} {
		for n, st := range e.m.cache[t] {
			look(context.Background(), t, n, st)
			ncached++
		}
	}
	for i := 0; i < many; i++ {
		look(context.Background(), pick(r, []RT{L, R, C, E}), fmt.Sprintf("missing-%d", i), "")
	}
	doneCh := make(chan struct{})
	go func() { wg.Wait(); close(doneCh) }()
	lim := w.cfg.Timeout
	if lim == 0 {
		lim = time.Second
	}
	select {
	case <-doneCh:
	case <-time.After(lim + time.Second):
		synctest.Wait()
		select {
		case <-doneCh:
		default:
			mu.Lock()
			n := ncached + many - len(out)
			mu.Unlock()
			c.Violate("C04", "lookup-hangs", "after %s: %d lookups still wait %v after their deadline", op, n, time.Second)
			c.Violate("C05", "late", "after %s: %d lookups still wait %v after their deadline", op, n, time.Second)
			return
		}
	}
	for _, x := range out {
		if x.l.Panicked {
			continue
		}
		switch {
		case x.st != "" && x.l.Err != nil:
			c.Violate("C04", "auth-cached", "after %s: lookup of the cached %s %q failed: %v", op, tname[x.l.T], x.l.Name, x.l.Err)
		case x.st != "" && x.l.Stamp != x.st:
			c.Violate("C04", "auth-cached", "after %s: lookup of the cached %s %q returned %s, cached %s", op, tname[x.l.T], x.l.Name, x.l.Stamp, x.st)
		case x.st == "" && x.l.Err == nil:
			c.Violate("C05", "auth-extra", "after %s: lookup of the missing %s %q succeeded", op, tname[x.l.T], x.l.Name)
		}
	}
	c.R.Count("lookups_after_rejection", len(out))
	e.w.DumpRaw()
	time.Sleep(time.Duration(1+r.Intn(20)) * time.Minute)
	synctest.Wait()
	// cached or evicted, lookups still return
	for _, t := range []RT{L, R, C, E} {
		n := pick(r, e.names[t])
		l := w.Get(context.Background(), t, n)
		w.CheckDeadline(l)
	}
	if w.cp.opens != opens {
		c.Violate("C04", "reopened", "after %s: the client opened %d more streams", op, w.cp.opens-opens)
	}
	if ss := sends(w.cp.Since(mark)); len(ss) > 0 {
		c.Violate("C04", "sent-after-rejection", "after %s: the client still sent %s", op, ss[0])
	}
}

func authCases(r *Run, name string, n int) {
	for i := 0; i < n; i++ {
		r.Case(name, i, func(c *Case) {
			c.Bubble(func() {
				mode := i % 5
				many := c.Rng.Intn(12)
				if chance(c.Rng, 12) {
					many = 1400 + c.Rng.Intn(500)
				}
				if mode >= 3 {
					authStart(c, mode, many)
					return
				}
				e := newEngine(c, Mix{Lookup: 35, Push: 35, Bad: 6, Burst: 10, Table: 6, Fail: 5, Outage: 3, SendFail: 3, Ops: 5 + c.Rng.Intn(20)})
				if e == nil {
					return
				}
				for i := 0; i < e.mix.Ops && c.nviol == 0 && e.elapsed() < 15*time.Second; i++ {
					e.step()
				}
				if c.nviol > 0 || !e.waitLive(10*time.Second) {
					e.w.Close()
					return
				}
				e.settle("before the rejection")
				op := ""
				switch mode {
				case 0:
					op = "an authentication rejection of the stream"
					e.w.cp.Live().Fail(authErr())
				case 1:
					op = "an authentication rejection of the new stream"
					e.w.cp.OpenErr = func(int) error { return authErr() }
					e.w.cp.Live().Fail(failErr(c.Rng))
				case 2:
					op = "an authentication rejection after an outage"
					k := 1 + c.Rng.Intn(3)
					e.w.cp.OpenErr = func(n int) error {
						if k--; k < 0 {
							return authErr()
						}
						return failErrN(n)
					}
					e.w.cp.Live().Fail(failErr(c.Rng))
					time.Sleep(8 * time.Second)
				}
				synctest.Wait()
				e.settle(op)
				c.Logf("-- %s", op)
				e.sig = append(e.sig, op)
				e.rejected(op, many)
				for _, p := range e.pend {
					<-p.done
				}
				c.R.Count("auth_rejections", 1)
				c.R.Distinct("nontrivial", strings.Join(e.sig, ";"))
				e.w.Close()
			})
		})
	}
}

// authStart: the rejection comes during the start-up.
func authStart(c *Case, mode, many int) {
	cfg := WCfg{NDS: chance(c.Rng, 60), LDS: true, NoWarm: true}
	after := c.Rng.Intn(2)
	// the stream may break first, the rejection then answers one of the attempts to open another
	breaks, failure, outage := chance(c.Rng, 50), failErr(c.Rng), c.Rng.Intn(3)
	cfg.Pre = func(cp *CP) {
		if mode == 3 {
			cp.OpenErr = func(int) error { return authErr() }
			return
		}
		if breaks {
			cp.OpenErr = func(n int) error {
				if n == 1 {
					return nil
				}
				if n < 2+outage {
					return failErrN(n)
				}
				return authErr()
			}
		}
		cp.OnReq = func(s *Stream, req *discoveryv3.DiscoveryRequest) {
			t := typeOf[req.TypeUrl]
			if req.ResponseNonce != "" {
				return
			}
			if t == N && after == 1 {
				s.Push(cp.w.Resp(N, "v0", mkTable(nil)))
				return
			}
			if breaks {
				s.Fail(failure)
				return
			}
			s.Fail(authErr())
		}
	}
	w, _ := (*World)(nil), 0
	done := make(chan struct{})
	go func() {
		defer close(done)
		w = NewWorld(c, cfg)
	}()
	select {
	case <-done:
	case <-time.After(5 * time.Minute):
		c.Violate("C04", "init-hangs", "the initialisation hangs after an authentication rejection (start-up mode %d)", mode)
		return
	}
	c.R.Count("auth_rejections", 1)
	c.R.Distinct("nontrivial", fmt.Sprintf("startup mode %d nds %v after %d breaks %v outage %d many %d", mode, cfg.NDS, after, breaks, outage, many))
	if w.err != nil || w.m == nil {
		w.cp.shutdown()
		time.Sleep(3 * time.Minute)
		w.finish()
		return
	}
	e := &Engine{c: c, w: w, m: newModel(cfg), names: map[RT][]string{L: {"a"}, R: {"b"}, C: {"c"}, E: {"d"}}}
	e.w.cfg = cfg
	e.rejected("an authentication rejection during the start-up", many)
	w.Close()
}

// ---------------------------------------------------------------- stuck sender

// A control plane that stops reading: requests cannot be sent, lookups of cached names must not notice.
func stuckCases(r *Run, name string, n int) {
	for i := 0; i < n; i++ {
		r.Case(name, i, func(c *Case) {
			c.Bubble(func() {
				e := newEngine(c, Mix{Lookup: 35, Push: 35, Burst: 10, Table: 6, Ops: 10})
				if e == nil {
					return
				}
				for i := 0; i < e.mix.Ops && c.nviol == 0; i++ {
					e.step()
				}
				for _, p := range e.pend {
					<-p.done
				}
				e.settle("before the stall")
				e.fullPush()
				s := e.w.cp.Live()
				if s == nil || c.nviol > 0 {
					e.w.Close()
					return
				}
				s.BlockSend()
				many := []int{3, 200, 1023, 1024, 1025, 1026, 1027, 1500, 2600}[i%9]
				var wg sync.WaitGroup
				for k := 0; k < many; k++ {
					t := []RT{L, R, C, E}[k%4]
					n := fmt.Sprintf("stuck-%d", k)
					e.m.sub(t, n)
					wg.Add(1)
					go func() {
						defer wg.Done()
						l := e.w.Get(context.Background(), t, n)
						e.w.CheckDeadline(l)
					}()
				}
				synctest.Wait()
				// cached lookups are immediate
				done := make(chan struct{})
				go func() {
					defer close(done)
					for _, t := range []RT{L, R, C, E} {
						for n, st := range e.m.cache[t] {
							l := e.w.Get(context.Background(), t, n)
							if l.End != l.Start {
								c.Violate("C05", "cached-late", "%d requests waiting for a stalled stream: lookup of the cached %s %q took %v", many, tname[t], n, l.End-l.Start)
							}
							if l.Err != nil || l.Stamp != st {
								c.Violate("C04", "cached-lost", "%d requests waiting for a stalled stream: lookup of the cached %s %q returned %s err=%v, cached %s", many, tname[t], n, l.Stamp, l.Err, st)
							}
						}
					}
				}()
				synctest.Wait()
				select {
				case <-done:
				default:
					for _, p := range []string{"C04", "C05", "C07"} {
						c.Violate(p, "stalled-lookup", "%d requests waiting for a stalled stream: lookups of cached names block", many)
					}
					s.ReleaseSend()
					e.w.Close()
					return
				}
				// the responses received meanwhile are applied, and answered later
				mark := e.w.cp.Mark()
				var exp []expAck
				for k := c.Rng.Intn(6); k > 0; k-- {
					t := pick(c.Rng, e.subscribed())
					p := e.planGood(t)
					if chance(c.Rng, 30) {
						p = e.planBad(t)
					}
					c.Logf("-- %s nonce %s during the stall", p.desc, p.resp.Nonce)
					s.Push(p.resp)
					for _, x := range p.exp {
						if x.version == "*" {
							x.version = e.m.ver[x.t]
						}
						exp = append(exp, x)
					}
					p.apply()
					for x := c.Rng.Intn(3); x > 0; x-- {
						// new names behind the answer
						synctest.Wait()
						n := fmt.Sprintf("stuck-late-%d-%d", k, x)
						lt := t
						if lt == N {
							lt = L
						}
						e.m.sub(lt, n)
						wg.Add(1)
						go func() {
							defer wg.Done()
							l := e.w.Get(context.Background(), lt, n)
							e.w.CheckDeadline(l)
						}()
					}
					if chance(c.Rng, 40) {
						synctest.Wait()
						e.checkCache("a push during the stall")
					}
					if c.nviol > 0 {
						break
					}
				}
				synctest.Wait()
				lim := e.w.cfg.Timeout
				if lim == 0 {
					lim = time.Second
				}
				time.Sleep(lim)
				synctest.Wait()
				w := make(chan struct{})
				go func() { wg.Wait(); close(w) }()
				synctest.Wait()
				select {
				case <-w:
				default:
					c.Violate("C05", "late", "%d requests waiting for a stalled stream: lookups still wait after their deadline", many)
					c.Violate("C04", "lookup-hangs", "%d requests waiting for a stalled stream: lookups still wait after their deadline", many)
				}
				how := "release"
				if i%2 == 0 {
					// lookups of new names while the queue drains
					var more []func()
					if chance(c.Rng, 70) {
						// (mostly of one type, and one of each other)
						main, others := c.Rng.Intn(4), c.Rng.Perm(40)
						for k := 0; k < 80; k++ {
							t, n := []RT{L, R, C, E}[main], fmt.Sprintf("stuck-drain-%d", k)
							for j := 1; j < 4; j++ {
								if others[j] == k {
									t = []RT{L, R, C, E}[(main+j)%4]
								}
							}
							e.m.sub(t, n)
							more = append(more, func() {
								defer wg.Done()
								l := e.w.Get(context.Background(), t, n)
								e.w.CheckDeadline(l)
							})
						}
						wg.Add(len(more))
						how = "release under load"
					}
					s.ReleaseSend()
					for k := 0; k < len(more); k += 20 {
						go func() {
							for _, f := range more[k : k+20] {
								go f()
							}
						}()
					}
				} else {
					how = "failure"
					s.Fail(errors.New("connection reset"))
				}
				time.Sleep(2 * time.Second)
				synctest.Wait()
				e.waitLive(5 * time.Second)
				c.R.Count("stalls", 1)
				c.R.Distinct("nontrivial", fmt.Sprintf("stall %d %s %s", many, how, strings.Join(e.sig, ";")))
				if how != "failure" {
					checkAnswers(c, e, mark, exp)
				}
				if c.nviol == 0 {
					e.quiesce()
				}
				e.w.Close()
			})
		})
	}
}

// checkAnswers: the first request echoing the nonce of each response is its answer, and no other request carries an error.
func checkAnswers(c *Case, e *Engine, mark int, exp []expAck) {
	by := map[string][]Ev{}
	for _, s := range sends(e.w.cp.Since(mark)) {
		by[s.Nonce] = append(by[s.Nonce], s)
	}
	for _, x := range exp {
		c.R.Count("acks_checked", 1)
		got := by[x.nonce]
		if len(got) == 0 {
			c.Violate("C02", "ack-count", "the response %q of %s received while the stream was stalled was never answered", x.nonce, tname[x.t])
			continue
		}
		g := got[0]
		if g.T != x.t || g.HasErr != x.nack || g.Version != x.version {
			c.Violate("C02", "ack-stalled", "the response %q of %s received while the stream was stalled was answered with %s version %q error_detail=%v, expected version %q error_detail=%v", x.nonce, tname[x.t], tname[g.T], g.Version, g.HasErr, x.version, x.nack)
		}
		for _, g := range got[1:] {
			if g.HasErr {
				c.Violate("C02", "ack-count", "the response %q of %s received while the stream was stalled was rejected twice", x.nonce, tname[x.t])
			}
		}
	}
}

// ---------------------------------------------------------------- long outages

func longOutageCases(r *Run, name string, n int) {
	for i := 0; i < n; i++ {
		r.Case(name, i, func(c *Case) {
			c.Bubble(func() {
				nds := chance(c.Rng, 60)
				cfg := WCfg{NDS: nds, LDS: true, Table: map[string][]string{"a": {"10.0.0.1"}}, Inbound: mkListener(inbound, "st-in-")}
				until := time.Duration(1+c.Rng.Intn(50)) * time.Minute
				if i%3 == 0 {
					until = time.Duration(c.Rng.Intn(25)) * time.Second
				}
				first := i%4 == 3
				var t0 time.Time
				down := first
				cfg.Pre = func(cp *CP) {
					t0 = time.Now()
					cp.OpenErr = func(n int) error {
						if down && time.Since(t0) < until {
							return failErrN(n)
						}
						return nil
					}
				}
				if first && until > 10*time.Minute {
					until = 10 * time.Minute // the client gives up after 15 minutes at start-up
				}
				w := NewWorld(c, cfg)
				if w.err != nil {
					c.Violate("C04", "init", "initialisation failed: %v", w.err)
					return
				}
				if !first {
					t0, down = time.Now(), true
					w.cp.Live().Fail(failErr(c.Rng))
				}
				for time.Since(t0) < until {
					l := w.Get(context.Background(), L, inbound)
					if l.Err != nil || l.Stamp != "st-in-" {
						c.Violate("C04", "outage-lookup", "%v into an outage: lookup of the inbound listener returned %s err=%v", time.Since(t0), l.Stamp, l.Err)
						break
					}
					time.Sleep(7 * time.Second)
				}
				time.Sleep(3 * time.Minute) // the longest back-off interval is 90 s
				synctest.Wait()
				s := w.cp.Live()
				if s == nil {
					c.Violate("C04", "no-reconnect", "no new stream 3 minutes after an outage of %v", until)
				} else {
					got := map[RT]Ev{}
					for _, ev := range sends(w.cp.Since(0)) {
						if ev.Stream == s.id && ev.Nonce == "" {
							got[ev.T] = ev
						}
					}
					if ev, ok := got[L]; !ok || !sameSet(map[string]bool{inbound: true}, ev.Names) || (!first && ev.Version != "v0") {
						c.Violate("C04", "resub", "after an outage of %v: resubscription of the listeners: %v", until, ev)
					}
					if ev, ok := got[N]; nds && (!ok || (!first && ev.Version != "v0")) {
						c.Violate("C04", "resub", "after an outage of %v: resubscription of the name table: %v", until, ev)
					}
					w.Push(w.Resp(L, "v1", mkListener(inbound, "st-new-")))
					if l := w.Get(context.Background(), L, inbound); l.Stamp != "st-new-" {
						c.Violate("C04", "converge", "after an outage of %v: lookup returned %s err=%v", until, l.Stamp, l.Err)
					}
				}
				c.R.Count("long_outages", 1)
				c.R.Distinct("nontrivial", fmt.Sprintf("outage %v nds %v start %v", until, nds, first))
				w.Close()
			})
		})
	}
}
