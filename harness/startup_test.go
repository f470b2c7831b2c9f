package harness

import (
	"fmt"
	"runtime"
	"strings"
	"testing/synctest"
	"time"
)

// The initialisation against a control plane that rejects nothing but answers badly: responses that cannot be decoded, streams that
// break, that cannot be opened or written to, before, between and while the name table and the inbound listener arrive. Every request
// and answer is monitored as in any other history, which then goes on from the state reached; once the control plane has
// answered well the initialisation has to end.
func startupCases(r *Run, name string, n int, mix Mix) {
	for i := 0; i < n; i++ {
		r.Case(name, i, func(c *Case) {
			c.Bubble(func() {
				e := newEngineFaulty(c, mix)
				if e == nil {
					return
				}
				if e.w.m != nil && c.nviol == 0 {
					e.play()
				}
				e.w.Close()
			})
		})
	}
}

func newEngineFaulty(c *Case, mix Mix) *Engine {
	r := c.Rng
	e := &Engine{c: c, mix: mix, maxTime: 26 * time.Second, rej: map[string]string{}}
	e.ips = []string{"10.0.0.1", "10.0.0.2", "10.0.0.3", "10.0.0.4"}
	cfg := WCfg{NDS: chance(r, 75), LDS: true, NoWarm: true}
	if cfg.NDS {
		cfg.LDS = chance(r, 80)
	}
	if chance(r, 40) {
		cfg.Timeout = time.Duration(1+r.Intn(40)) * 100 * time.Millisecond
	}
	e.names = map[RT][]string{
		L: {"svc-a", "svc-b:8080", "Svc-C.ns2", "svc-d.ns1.svc.cluster.local", "www.example.com:443", "svc-e"},
		R: {"r1", "r2", "r3", "r4"},
		C: {"c1", "c2", "c3", "c4"},
		E: {"e1", "e2", "e3", "e4"},
	}
	runtime.GOMAXPROCS(pick(r, []int{1, 4}))
	if chance(r, 25) {
		e.failOpn = 1 + r.Intn(4) // unreachable at first
	}
	style := pick(r, []int{0, 1, 2})
	sendFailAt := 0
	if chance(r, 20) {
		sendFailAt = 1 + r.Intn(2) // the connection breaks while the first requests are written
	}
	cfg.Pre = func(cp *CP) {
		e.w = cp.w
		cp.nonceStyle = style
		cp.OpenErr = func(n int) error {
			if e.failOpn > 0 {
				e.failOpn--
				return failErrN(n)
			}
			return nil
		}
		cp.OnOpen = func(s *Stream) {
			if s.id == 1 {
				s.FailSendAt = sendFailAt
			}
		}
	}
	e.m = newModel(cfg)
	done := make(chan *World, 1)
	go func() { done <- NewWorld(c, cfg) }()
	finished := func() bool {
		if e.w == nil || e.w.m != nil || e.w.err != nil {
			return e.w != nil
		}
		select {
		case e.w = <-done:
			return true
		default:
			return false
		}
	}
	first := N
	if !cfg.NDS {
		first = L
	}
	subs := func(t RT) {
		if t == N {
			e.m.sub(N, "")
		} else {
			e.m.sub(L, inbound)
		}
	}
	synctest.Wait()
	subs(first)
	wait := first // the type the initialisation waits for
	began := func() { e.sig = append(e.sig, "wait "+tname[wait]) }
	began()
	faults := r.Intn(7)
	for i := 0; !finished() && c.nviol == 0; i++ {
		synctest.Wait()
		s := e.w.cp.Live()
		for j := 0; j < 100 && (s == nil || !s.Asked(wait)); j++ {
			mark, was := e.w.cp.Mark(), e.w.cp.NumStreams()
			time.Sleep(200 * time.Millisecond)
			synctest.Wait()
			if e.w.cp.NumStreams() != was && was > 0 {
				e.reconnected("start-up", mark)
			}
			s = e.w.cp.Live()
		}
		if s == nil {
			c.Violate("C04", "no-reconnect", "no new stream 20s after the control plane became reachable, during the initialisation")
			return e
		}
		if !s.Asked(wait) {
			c.Violate("C03", "startup-missing", "the initialisation does not request %s on the live stream", tname[wait])
			c.Violate("C04", "resub-missing", "the initialisation does not request %s on the live stream", tname[wait])
			return e
		}
		x := r.Intn(100)
		if i >= faults {
			x = 99
		}
		switch {
		case x < 40:
			p := e.planBad(wait)
			e.startRun(p, nil)
			e.nnack++
			c.R.Count("startup_nacks", 1)
			if finished() && wait == N {
				// the next step is only reached by an accepted table
				c.Violate("C02", "startup-nack", "the initialisation ended by the rejected %s", p.desc)
			}
		case x < 55:
			e.opFail()
		case x < 65:
			e.failOpn = 1 + r.Intn(3)
			e.opFail()
		case x < 72:
			s.FailSend(failErr(r))
			e.sig = append(e.sig, "sendfail")
			// the answer cannot be sent
			p := e.planBad(wait)
			s.Push(p.resp)
			p.apply()
			synctest.Wait()
			e.opFail()
		case x < 78:
			e.startRun(e.planUnknown(), nil)
		case x < 84:
			time.Sleep(time.Duration(r.Intn(2000)) * time.Millisecond)
			synctest.Wait()
		case x < 92 && wait == N && cfg.LDS:
			// the good answer, and the stream breaks at once
			p := e.planGood(N)
			mark := e.w.cp.Mark()
			s.Push(p.resp)
			s.Fail(failErr(r))
			p.apply()
			subs(L)
			synctest.Wait()
			e.sig = append(e.sig, p.desc, "fail at once")
			e.startSub = true
			e.reconnected("start-up", mark)
			e.startSub = false
			wait = L
			began()
		default:
			p := e.planGood(wait)
			if wait == N && cfg.LDS {
				e.startRun(p, func() { subs(L) })
				wait = L
				began()
				break
			}
			e.startRun(p, nil)
			if !finished() {
				c.Violate("C04", "init-hangs", "the initialisation does not end although the control plane has answered: %v", e.sig)
				return e
			}
		}
	}
	if c.nviol > 0 {
		return e
	}
	if e.w.err != nil {
		c.Violate("C20", "init", "initialisation failed: %v", e.w.err)
		return nil
	}
	c.R.Count("startups", 1)
	c.R.Distinct("startup_histories", strings.Join(e.sig, ";"))
	e.w.cp.expNode = e.w.cp.node
	e.w.cp.OnOpen = nil
	e.checkCache("start")
	// as much time as the other histories have before the first sweep
	if e.elapsed() > 15*time.Second {
		e.mix.Ops = 0
		e.quickEnd()
	}
	return e
}

// startRun delivers one response; next, if any, is the subscription that follows its acceptance.
func (e *Engine) startRun(p plan, next func()) {
	s := e.w.cp.Live()
	if s == nil {
		return
	}
	mark, was := e.w.cp.Mark(), e.w.cp.NumStreams()
	e.c.Logf("-- %s nonce %s", p.desc, p.resp.Nonce)
	e.sig = append(e.sig, strings.SplitN(p.desc, " v", 2)[0])
	s.Push(p.resp)
	for i := range p.exp {
		if p.exp[i].version == "*" {
			p.exp[i].version = e.m.ver[p.exp[i].t]
		}
	}
	p.apply()
	e.c.R.Count("responses", 1)
	e.nresp++
	if next != nil {
		next()
		e.startSub = true
	}
	synctest.Wait()
	if !s.alive() {
		// the answer, or the next request, broke the stream
		if e.w.cp.NumStreams() != was {
			e.reconnected("start-up", mark)
		}
		e.startSub = false
		return
	}
	e.checkAcks(p.desc, mark, p.exp)
	if e.startSub {
		n := 0
		for _, ev := range sends(e.w.cp.Since(mark)) {
			if ev.T == L && ev.Nonce == "" {
				n++
			}
		}
		if n == 0 {
			e.c.Violate("C03", "startup-missing", "after %s: no request of %s", p.desc, tname[L])
		}
	}
	e.startSub = false
}

// quickEnd is the end of a history whose start took too long for anything else.
func (e *Engine) quickEnd() {
	e.probe(fmt.Sprintf("start after %v", e.elapsed()))
}
