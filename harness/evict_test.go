package harness

import (
	"context"
	"fmt"
	"strings"
	"sync"
	"testing/synctest"
	"time"

	discoveryv3 "github.com/envoyproxy/go-control-plane/envoy/service/discovery/v3"
	"google.golang.org/protobuf/proto"
)

// Sweeps in virtual time (C19, and the shrinking side of C03). The harness does not know the phase of the sweeps: a
// name looked up at most 30 s ago must be cached, one not looked up for 60 s must be gone and withdrawn on the wire.

const expiry = 30 * time.Second

type evKey struct {
	t RT
	n string
}

type evState struct {
	present bool
	stamp   string
	lb, ub  time.Duration // last successful lookup; last event that may count as an access
}

type evictor struct {
	c     *Case
	w     *World
	st    map[evKey]*evState
	cur   map[evKey]string // what the control plane currently has
	mu    sync.Mutex
	n     int
	delay time.Duration
	sig   []string
	evs   int
	auto  bool
	quiet bool
	// the acknowledgements: what was rejected (by nonce), the accepted versions, the events checked so far
	bad     map[string]bool
	acc     map[RT]string
	ackMark int
	verNo   int
}

func (v *evictor) now() time.Duration { return time.Since(v.w.cp.t0) }

// wire returns the names of the last request of the type on the live stream.
func (v *evictor) wire(t RT) (map[string]bool, bool) {
	s := v.w.cp.Live()
	if s == nil {
		return nil, false
	}
	var last *Ev
	evs := sends(v.w.cp.Since(0))
	for i := range evs {
		if evs[i].Stream == s.id && evs[i].T == t {
			last = &evs[i]
		}
	}
	if last == nil {
		return nil, false
	}
	return setOf(last.Names), true
}

func (v *evictor) stamp() string {
	v.n++
	return fmt.Sprintf("st-%d-", v.n)
}

func (v *evictor) version() string {
	v.mu.Lock()
	defer v.mu.Unlock()
	v.verNo++
	return fmt.Sprintf("va%d", v.verNo)
}

// push sends a response with the given names (and their current content).
func (v *evictor) push(t RT, names []string) {
	s := v.w.cp.Live()
	if s == nil {
		return
	}
	synctest.Wait()
	before, ok := v.wire(t)
	if !ok {
		return
	}
	var ms []proto.Message
	in := map[string]string{}
	for _, n := range names {
		st := v.cur[evKey{t, n}]
		if st == "" {
			continue
		}
		in[n] = st
		ms = append(ms, mk(t, n, st))
	}
	v.sig = append(v.sig, fmt.Sprintf("%ds push %s %v", int(v.now().Seconds()), tname[t], names))
	v.c.Logf("-- push %s %v", tname[t], in)
	v.w.Push(v.w.Resp(t, v.version(), ms...))
	now := v.now()
	v.mu.Lock()
	defer v.mu.Unlock()
	for k, e := range v.st {
		if k.t != t {
			continue
		}
		st, has := in[k.n]
		switch {
		case has && before[k.n]:
			if !e.present {
				e.ub = max(e.ub, now)
			}
			e.present, e.stamp = true, st
		case t == L || t == C:
			e.present = false
		}
	}
}

func (v *evictor) lookup(t RT, n string) {
	k := evKey{t, n}
	e := v.st[k]
	v.sig = append(v.sig, fmt.Sprintf("%ds lookup %s %s", int(v.now().Seconds()), tname[t], n))
	mark := v.w.cp.Mark()
	_, had := v.wireHas(t, n)
	wasPresent := e.present && v.now()-e.lb <= expiry
	l := v.w.Get(context.Background(), t, n)
	synctest.Wait()
	v.w.CheckDeadline(l)
	now := v.now()
	v.mu.Lock()
	e.ub = max(e.ub, l.Start, now)
	v.mu.Unlock()
	if l.Err == nil {
		if l.Stamp != e.stamp && l.Stamp != v.cur[k] {
			v.c.Violate("C19", "stale", "lookup of %s %q returned %s, the control plane has %s (last pushed %s)", tname[t], n, l.Stamp, v.cur[k], e.stamp)
		}
		e.present, e.stamp, e.lb = true, l.Stamp, now
		if l.Start == l.End {
			e.lb = l.Start
		}
		return
	}
	if wasPresent {
		v.c.Violate("C19", "evicted-early", "lookup of %s %q failed (%v), it was looked up %v ago", tname[t], n, l.Err, now-e.lb)
	}
	if v.auto && v.cur[k] != "" {
		v.c.Violate("C19", "not-refetched", "lookup of %s %q failed (%v) although the control plane answers requests with %s; subscribed before: %v; %s", tname[t], n, l.Err, v.cur[k], had, evStrings(sends(v.w.cp.Since(mark))))
	}
	e.present = false
}

// pushBad sends a response that must be rejected as a whole, whatever it carries besides.
func (v *evictor) pushBad(t RT) {
	s := v.w.cp.Live()
	if s == nil || !s.Asked(t) {
		return
	}
	var ms []proto.Message
	keys := []evKey{}
	for k := range v.st {
		keys = append(keys, k)
	}
	sortKeys(keys)
	for _, k := range keys {
		if k.t == t && chance(v.c.Rng, 60) {
			ms = append(ms, mk(t, k.n, "st-bad-"))
		}
	}
	resp := v.w.Resp(t, fmt.Sprintf("bad%d", v.n), ms...)
	resp.Resources = append(resp.Resources, badAny(v.c.Rng, t))
	v.mu.Lock()
	v.bad[resp.Nonce] = true
	v.mu.Unlock()
	v.sig = append(v.sig, fmt.Sprintf("%ds bad %s", int(v.now().Seconds()), tname[t]))
	v.w.Push(resp)
}

// checkAcked: every response received on the live stream since the last check was answered there, also those of a type
// of which everything has been withdrawn.
func (v *evictor) checkAcked(op string) {
	s := v.w.cp.Live()
	evs := v.w.cp.Since(v.ackMark)
	v.ackMark += len(evs)
	for i, ev := range evs {
		if ev.Kind != "recv" || ev.T == 0 {
			continue
		}
		bad := v.bad[ev.Nonce]
		if !bad {
			v.acc[ev.T] = ev.Version
		}
		if s == nil || ev.Stream != s.id {
			continue
		}
		ok := false
		for _, x := range evs[i+1:] {
			if x.Kind != "send" || x.T != ev.T || x.Nonce != ev.Nonce {
				continue
			}
			ok = true
			if x.HasErr != bad || x.Version != v.acc[ev.T] {
				v.c.Violate("C02", "sweep-ack", "%s at %v: the %s response %q (version %q, rejected: %v) was answered with version %q, error detail %v", op, v.now(), tname[ev.T], ev.Nonce, ev.Version, bad, x.Version, x.HasErr)
			}
			break
		}
		v.c.R.Count("acks_checked", 1)
		if !ok {
			v.c.Violate("C02", "sweep-ack", "%s at %v: the %s response %q was not answered", op, v.now(), tname[ev.T], ev.Nonce)
		}
	}
}

func evStrings(evs []Ev) string {
	var o []string
	for _, e := range evs {
		o = append(o, e.String())
	}
	return strings.Join(o, "\n")
}

func (v *evictor) wireHas(t RT, n string) (bool, bool) {
	m, ok := v.wire(t)
	return ok, m[n]
}

// check compares the cache and the wire with what must be there.
func (v *evictor) check(op string) {
	synctest.Wait()
	snap, ok := v.w.DumpNames()
	if !ok || v.w.cp.Live() == nil {
		return
	}
	v.checkAcked(op)
	now := v.now()
	c := v.c
	var wires [16]map[string]bool
	var woks [16]bool
	for _, t := range []RT{L, R, C, E} {
		wires[t], woks[t] = v.wire(t)
	}
	v.mu.Lock()
	defer v.mu.Unlock()
	for k, e := range v.st {
		j, in := snap[k.t][k.n]
		wire, wok := wires[k.t], woks[k.t]
		reserved := k.t == L && k.n == inbound
		if in && !e.present {
			c.Violate("C19", "resurrected", "%s at %v: %s %q is cached although it was evicted or withdrawn", op, now, tname[k.t], k.n)
			continue
		}
		if !e.present {
			if in == false && e.ub != 0 && now-e.ub > 2*expiry && wok && wire[k.n] && reserved == false && e.stamp != "" && e.lb != 0 {
				// withdrawn by the control plane: may stay subscribed
				c.R.Count("withdrawn_still_subscribed", 1)
			}
			continue
		}
		if in && !strings.Contains(j, e.stamp) {
			c.Violate("C19", "content", "%s at %v: %s %q in the cache is not %s", op, now, tname[k.t], k.n, e.stamp)
		}
		c.R.Count("presence_checks", 1)
		switch {
		case reserved && !in:
			c.Violate("C19", "reserved", "%s at %v: the reserved inbound listener was evicted", op, now)
		case reserved:
			if wok && !wire[k.n] {
				c.Violate("C19", "reserved-unsubscribed", "%s at %v: the reserved inbound listener was withdrawn from the requests: %v", op, now, sortedKeys(wire))
			}
		case !in && e.lb > 0 && now-e.lb <= expiry:
			c.Violate("C19", "evicted-early", "%s at %v: %s %q was evicted, it was looked up at %v (%v ago)", op, now, tname[k.t], k.n, e.lb, now-e.lb)
		case in && now-e.ub > 2*expiry:
			c.Violate("C19", "not-evicted", "%s at %v: %s %q is still cached, it was last looked up or stored at %v (%v ago)", op, now, tname[k.t], k.n, e.ub, now-e.ub)
		}
		if !in && wok && wire[k.n] {
			for _, p := range []string{"C19", "C03"} {
				c.Violate(p, "not-withdrawn", "%s at %v: %s %q was evicted but the last request still lists it: %v", op, now, tname[k.t], k.n, sortedKeys(wire))
			}
		}
		if in && wok && !wire[k.n] {
			for _, p := range []string{"C19", "C03"} {
				c.Violate(p, "withdrawn-cached", "%s at %v: %s %q is cached but the last request does not list it: %v", op, now, tname[k.t], k.n, sortedKeys(wire))
			}
		}
		if !in && !reserved {
			e.present = false
			v.evs++
			c.R.Count("evictions", 1)
		}
	}
	for _, t := range []RT{L, R, C, E} {
		for n := range snap[t] {
			if v.st[evKey{t, n}] == nil {
				c.Violate("C01", "never-asked", "%s: %s %q is cached but was never asked for", op, tname[t], n)
			}
		}
	}
}

func newEvictor(c *Case, timeout time.Duration, auto bool) *evictor {
	v := &evictor{c: c, st: map[evKey]*evState{}, cur: map[evKey]string{}, auto: auto, quiet: chance(c.Rng, 50), bad: map[string]bool{}, acc: map[RT]string{}}
	hasInbound := chance(c.Rng, 80)
	cfg := WCfg{NDS: false, LDS: hasInbound, Timeout: timeout}
	if hasInbound {
		v.st[evKey{L, inbound}] = &evState{present: true, stamp: "st-in-"}
		v.cur[evKey{L, inbound}] = "st-in-"
		cfg.Inbound = mkListener(inbound, "st-in-")
	}
	for _, t := range []RT{L, R, C, E} {
		names := []string{"a", "b", "c"}[:1+c.Rng.Intn(3)]
		if t != L && chance(c.Rng, 40) {
			names = append(names, inbound) // reserved for listeners only
		}
		if chance(c.Rng, 25) {
			names = append(names, pick(c.Rng, []string{inbound + "-2", inbound + "_80", "my" + inbound, inbound[:len(inbound)-1], strings.ToLower(inbound)}))
		}
		if chance(c.Rng, 4) {
			for j, n := 0, 10+c.Rng.Intn(50); j < n; j++ {
				names = append(names, fmt.Sprintf("n%d", j))
			}
		}
		for _, n := range names {
			v.st[evKey{t, n}] = &evState{}
			v.cur[evKey{t, n}] = v.stamp()
		}
	}
	last := map[string]string{}
	if auto {
		cfg.Pre = func(cp *CP) {
			cp.OnReq = func(s *Stream, req *discoveryv3.DiscoveryRequest) {
				t := typeOf[req.TypeUrl]
				key := fmt.Sprintf("%d/%d", s.id, t)
				if v.quiet {
					// versions are compared: a resubscription to what the client already has is not answered
					key = fmt.Sprint(t)
				}
				names := setOf(req.ResourceNames)
				sig := strings.Join(sortedKeys(names), ",")
				v.mu.Lock()
				prev, ok := last[key]
				last[key] = sig
				added := !ok
				pm := setOf(strings.Split(prev, ","))
				for n := range names {
					if !pm[n] {
						added = true
					}
				}
				var ms []proto.Message
				for n := range names {
					if st := v.cur[evKey{t, n}]; st != "" {
						ms = append(ms, mk(t, n, st))
						if e := v.st[evKey{t, n}]; e != nil && added {
							if !e.present {
								e.ub = max(e.ub, time.Since(cp.t0))
							}
							e.present, e.stamp = true, st
						}
					}
				}
				if added && (t == L || t == C) {
					for k, e := range v.st {
						if k.t == t && !names[k.n] {
							e.present = false
						}
					}
				}
				v.mu.Unlock()
				if added && len(ms) > 0 {
					s.Push(cp.w.Resp(t, v.version(), ms...))
				}
			}
		}
	}
	v.w = NewWorld(c, cfg)
	if v.w.err != nil {
		c.Violate("C19", "init", "initialisation failed: %v", v.w.err)
		return nil
	}
	v.w.cfg = cfg
	v.w.cp.expNode = v.w.cp.node
	return v
}

func evictCases(r *Run, n int) {
	for i := 0; i < n; i++ {
		r.Case("sweeps", i, func(c *Case) {
			c.Bubble(func() {
				v := newEvictor(c, 0, true)
				if v == nil {
					return
				}
				keys := []evKey{}
				for k := range v.st {
					keys = append(keys, k)
				}
				sortKeys(keys)
				// names used regularly, at random, or once
				period := map[evKey]time.Duration{}
				for _, k := range keys {
					switch c.Rng.Intn(4) {
					case 0:
						period[k] = []time.Duration{30 * time.Second, 29 * time.Second, 10 * time.Second, 15 * time.Second, 30*time.Second - time.Millisecond}[c.Rng.Intn(5)]
					case 1:
						period[k] = []time.Duration{31 * time.Second, 45 * time.Second, 60 * time.Second, 30*time.Second + time.Millisecond}[c.Rng.Intn(4)]
					case 2:
						period[k] = time.Duration(1+c.Rng.Intn(120)) * time.Second
					}
				}
				next := map[evKey]time.Duration{}
				for _, k := range keys {
					next[k] = time.Duration(c.Rng.Intn(40)) * time.Second
					if chance(c.Rng, 50) {
						next[k] += time.Duration(c.Rng.Intn(1000)) * time.Millisecond
					}
				}
				horizon := time.Duration(3+c.Rng.Intn(6)) * time.Minute
				steps := 0
				for v.now() < horizon && c.nviol == 0 && steps < 400 {
					steps++
					// earliest lookup due, or another event
					at := v.now() + time.Duration(1+c.Rng.Intn(25))*time.Second
					if chance(c.Rng, 30) {
						at = (v.now()/expiry + 1) * expiry // on the edge
					}
					var due *evKey
					for i := range keys {
						k := keys[i]
						if nx, ok := next[k]; ok && nx <= at {
							at, due = max(nx, v.now()), &keys[i]
						}
					}
					time.Sleep(at - v.now())
					synctest.Wait()
					if due != nil {
						p, again := period[*due]
						if again {
							next[*due] = v.now() + p
						} else {
							delete(next, *due)
							if chance(c.Rng, 50) {
								next[*due] = v.now() + time.Duration(60+c.Rng.Intn(120))*time.Second
							}
						}
						if due.t == L && due.n == inbound && chance(c.Rng, 80) {
							continue // the reserved listener is hardly ever looked up
						}
						v.lookup(due.t, due.n)
						if chance(c.Rng, 50) {
							v.check("lookup")
						}
						continue
					}
					switch c.Rng.Intn(11) {
					case 10:
						v.pushBad(pick(c.Rng, []RT{L, R, C, E}))
					case 0, 1, 2:
						// the control plane updates or withdraws resources
						t := pick(c.Rng, []RT{L, R, C, E})
						if v.now()%expiry == 0 {
							break
						}
						var names []string
						for _, k := range keys {
							if k.t != t {
								continue
							}
							keep := chance(c.Rng, 85) || (k.t == L && k.n == inbound)
							v.mu.Lock()
							if chance(c.Rng, 50) || v.cur[k] == "" {
								v.cur[k] = v.stamp()
							}
							if !keep && (t == L || t == C) {
								v.cur[k] = "" // withdrawn
							}
							v.mu.Unlock()
							if keep {
								names = append(names, k.n)
							}
						}
						v.push(t, names)
					case 3:
						if s := v.w.cp.Live(); s != nil && chance(c.Rng, 70) {
							v.sig = append(v.sig, "fail")
							s.Fail(failErr(c.Rng))
							for j := 0; j < 50 && v.w.cp.Live() == nil; j++ {
								time.Sleep(200 * time.Millisecond)
							}
						}
					case 4:
						// lookups racing with a sweep
						time.Sleep((v.now()/expiry+1)*expiry - v.now() - time.Millisecond)
						synctest.Wait()
						var wg sync.WaitGroup
						for _, k := range keys {
							if !chance(c.Rng, 50) {
								continue
							}
							wg.Add(1)
							go func() {
								defer wg.Done()
								time.Sleep(time.Millisecond)
								l := v.w.Get(context.Background(), k.t, k.n)
								v.mu.Lock()
								e := v.st[k]
								e.ub = max(e.ub, v.now())
								if l.Err == nil {
									if !e.present && e.stamp == "" {
										e.stamp = l.Stamp
									}
									e.present, e.lb = true, l.Start
								} else if v.cur[k] != "" {
									c.Violate("C19", "not-refetched", "lookup of %s %q during a sweep failed (%v) although the control plane answers requests", tname[k.t], k.n, l.Err)
								}
								v.mu.Unlock()
							}()
						}
						v.sig = append(v.sig, fmt.Sprintf("%ds race", int(v.now().Seconds())))
						wg.Wait()
						synctest.Wait()
						c.R.Count("sweep_races", 1)
					}
					v.check("step")
				}
				// long idleness: everything but the reserved listener goes
				if c.nviol == 0 {
					time.Sleep(91 * time.Second)
					v.check("idle")
					time.Sleep(20 * time.Minute)
					v.check("idle")
					// everything is withdrawn, late responses are still answered and change nothing
					for _, t := range []RT{L, R, C, E} {
						if chance(c.Rng, 30) {
							v.pushBad(t)
						}
						if s := v.w.cp.Live(); s != nil && s.Asked(t) && t != L && chance(c.Rng, 60) {
							var ms []proto.Message
							for _, k := range keys {
								// (a name withdrawn by the control plane may still be subscribed)
								if _, sub := v.wireHas(t, k.n); k.t == t && !sub && chance(c.Rng, 70) {
									ms = append(ms, mk(t, k.n, "st-late-"))
								}
							}
							v.w.Push(v.w.Resp(t, "late", ms...))
						}
					}
					v.check("late responses")
				}
				if v.evs > 0 {
					c.R.Distinct("nontrivial", strings.Join(v.sig, ";"))
				}
				c.R.Sample("case %s: %s", c.ID, strings.Join(v.sig, "; "))
				v.w.Close()
			})
		})
	}
}

func sortKeys(ks []evKey) {
	for i := range ks {
		for j := i; j > 0 && (ks[j].t < ks[j-1].t || ks[j].t == ks[j-1].t && ks[j].n < ks[j-1].n); j-- {
			ks[j], ks[j-1] = ks[j-1], ks[j]
		}
	}
}

// sweepWaitCases: lookups that wait across sweeps for a name that was cached before.
func sweepWaitCases(r *Run, n int) {
	for i := 0; i < n; i++ {
		r.Case("sweepwait", i, func(c *Case) {
			c.Bubble(func() {
				t := []RT{C, L, R, E}[i%4]
				v := newEvictor(c, 100*time.Second, false)
				if v == nil {
					return
				}
				defer v.w.Close()
				w := v.w
				known := chance(c.Rng, 75)
				w.Peek(t, "n")
				w.Peek(t, "m")
				synctest.Wait()
				if known {
					w.Push(w.Resp(t, "v1", mk(t, "n", "st-1-"), mk(t, "m", "st-1m-")))
				}
				drop := (t == C || t == L) && known
				time.Sleep(time.Duration(c.Rng.Intn(29)) * time.Second)
				if drop {
					w.Push(w.Resp(t, "v2", mk(t, "m", "st-2m-")))
				} else if known {
					// evicted by time
					time.Sleep(65 * time.Second)
					synctest.Wait()
				}
				time.Sleep(time.Duration(c.Rng.Intn(40)) * time.Second)
				start := v.now()
				k := 1 + c.Rng.Intn(3)
				ls := make([]*Lookup, k)
				var wg sync.WaitGroup
				for j := range ls {
					wg.Add(1)
					go func() {
						defer wg.Done()
						ls[j] = w.Get(context.Background(), t, "n")
						w.CheckDeadline(ls[j])
					}()
				}
				d := time.Duration(c.Rng.Intn(99)) * time.Second
				if chance(c.Rng, 30) {
					d = (v.now()/expiry+1)*expiry - v.now() + time.Duration(c.Rng.Intn(2))*time.Millisecond
				}
				time.Sleep(d)
				synctest.Wait()
				if m, ok := v.wire(t); ok && !m["n"] && d > 0 {
					c.Violate("C19", "waiting-unsubscribed", "%s %q was withdrawn from the requests while a lookup waits for it: %v", tname[t], "n", sortedKeys(m))
					c.Violate("C03", "waiting-unsubscribed", "%s %q was withdrawn from the requests while a lookup waits for it: %v", tname[t], "n", sortedKeys(m))
				}
				at := v.now()
				w.Push(w.Resp(t, "v3", mk(t, "n", "st-3-"), mk(t, "m", "st-3m-")))
				wg.Wait()
				for _, l := range ls {
					if l.Err != nil || l.Stamp != "st-3-" {
						c.Violate("C19", "lost", "lookup of %s %q started at %v returned %s err=%v at %v, the control plane supplied it at %v", tname[t], "n", start, l.Stamp, l.Err, l.End, at)
						c.Violate("C06", "lost", "lookup of %s %q started at %v returned %s err=%v at %v, the control plane supplied it at %v", tname[t], "n", start, l.Stamp, l.Err, l.End, at)
					}
				}
				// and it stays for the period
				time.Sleep(at + expiry - v.now())
				synctest.Wait()
				if s, ok := w.DumpNames(); ok {
					if _, in := s[t]["n"]; !in {
						c.Violate("C19", "evicted-early", "%s %q was evicted within %v of the lookup that obtained it", tname[t], "n", expiry)
					}
				}
				c.R.Count("waits_across_sweeps", 1)
				c.R.Distinct("nontrivial", fmt.Sprintf("wait %s known %v drop %v start %v at %v", tname[t], known, drop, start, at))
			})
		})
	}
}

// pushAtSweep sends what the control plane has, once more, at the very moment of the next sweep. Whatever comes first,
// what the sweep removes stays removed: the names are withdrawn.
func (v *evictor) pushAtSweep(t RT) {
	time.Sleep((v.now()/expiry+1)*expiry - v.now() - time.Millisecond)
	synctest.Wait()
	wire, ok := v.wire(t)
	if !ok {
		time.Sleep(time.Second)
		return
	}
	var ms []proto.Message
	v.mu.Lock()
	for k, e := range v.st {
		// only what is there: the response changes nothing
		if k.t == t && e.present && wire[k.n] && v.cur[k] == e.stamp {
			ms = append(ms, mk(t, k.n, e.stamp))
		} else if k.t == t && e.present && (t == L || t == C) {
			v.mu.Unlock()
			time.Sleep(time.Second)
			return
		}
	}
	v.mu.Unlock()
	v.sig = append(v.sig, fmt.Sprintf("%ds push %d %s at the sweep", int(v.now().Seconds()), len(ms), tname[t]))
	n := 1 + v.c.Rng.Intn(3)
	time.Sleep(time.Millisecond)
	for s := v.w.cp.Live(); n > 0 && s != nil; n-- {
		s.Push(v.w.Resp(t, v.version(), ms...))
	}
	v.c.R.Count("pushes_during_sweeps", 1)
	time.Sleep(time.Millisecond)
}

// massIdleCases: hundreds of names looked up once and left idle together, next to a few that stay in use.
func massIdleCases(r *Run, n int) {
	for i := 0; i < n; i++ {
		r.Case("massidle", i, func(c *Case) {
			c.Bubble(func() {
				v := newEvictor(c, 0, true)
				if v == nil {
					return
				}
				defer v.w.Close()
				var idle, hot []evKey
				v.mu.Lock()
				for _, t := range []RT{L, R, C, E} {
					k := 0
					if chance(c.Rng, 70) {
						k = 1 + c.Rng.Intn(250)
					}
					for j := 0; j < k; j++ {
						key := evKey{t, fmt.Sprintf("n%d", j)}
						v.st[key] = &evState{}
						v.cur[key] = v.stamp()
						if chance(c.Rng, 3) {
							hot = append(hot, key)
						} else {
							idle = append(idle, key)
						}
					}
				}
				v.mu.Unlock()
				get := func(k evKey) {
					l := v.w.Get(context.Background(), k.t, k.n)
					v.mu.Lock()
					defer v.mu.Unlock()
					e := v.st[k]
					e.ub = max(e.ub, v.now())
					if l.Err != nil {
						c.Violate("C19", "not-refetched", "lookup of %s %q failed (%v) although the control plane answers requests", tname[k.t], k.n, l.Err)
						return
					}
					e.present, e.lb = true, l.Start
				}
				rounds := 1 + c.Rng.Intn(2)
				for j := 0; j < rounds && c.nviol == 0; j++ {
					time.Sleep(time.Duration(c.Rng.Intn(30_000)) * time.Millisecond)
					var wg sync.WaitGroup
					for _, k := range append(append([]evKey{}, idle...), hot...) {
						wg.Add(1)
						go func() {
							defer wg.Done()
							get(k)
						}()
					}
					wg.Wait()
					v.check("mass lookup")
					for end := v.now() + 62*time.Second; v.now() < end && c.nviol == 0; {
						if chance(c.Rng, 60) {
							v.pushAtSweep(pick(c.Rng, []RT{L, R, C, E}))
						} else {
							time.Sleep(time.Duration(5+c.Rng.Intn(24)) * time.Second)
						}
						synctest.Wait()
						for _, k := range hot {
							get(k)
						}
						v.check("idle crowd")
					}
				}
				c.R.Count("mass_idle_names", len(idle))
				c.R.Distinct("nontrivial", fmt.Sprintf("mass idle %d hot %d rounds %d", len(idle), len(hot), rounds))
			})
		})
	}
}

func init() {
	register("C19", func(r *Run) {
		massIdleCases(r, r.N(60, 2000))
		evictCases(r, r.N(1500, 40000))
		sweepWaitCases(r, r.N(600, 12000))
	})
}
