package harness

import (
	"context"
	"fmt"
	"math/rand"
	"strings"
	"sync"
	"testing/synctest"
	"time"

	v3listener "github.com/envoyproxy/go-control-plane/envoy/config/listener/v3"
	"google.golang.org/protobuf/proto"
)

// bindWorld binds service addresses to listeners through name tables (C14).
type bindWorld struct {
	*policyWorld
	m      *Model
	names  []string
	stamps int
	// what a name may give during the current step
	window map[string]map[string]bool
}

var bindNS = []string{"ns1", "default", "svc", "kube-system", "n"}
var bindDom = []string{"", "cluster.local", "local", "my.corp.example.com", "Cluster.Local"}

func randCase(r *rand.Rand, s string) string {
	switch r.Intn(5) {
	case 0, 1:
		return s
	case 2:
		return strings.ToUpper(s)
	case 3:
		return strings.ToLower(s)
	}
	b := []byte(s)
	for i := range b {
		if chance(r, 50) {
			b[i] = strings.ToUpper(string(b[i]))[0]
		}
	}
	return string(b)
}

func newBindWorld(c *Case) *bindWorld {
	r := c.Rng
	env := defaultEnv()
	ns, dom := pick(r, bindNS), pick(r, bindDom)
	env["POD_NAMESPACE"] = ns
	if dom != "" {
		env["KITEX_XDS_DOMAIN"] = dom
	} else {
		dom = "cluster.local"
	}
	switch r.Intn(5) {
	case 0:
		n := pick(r, bindNS)
		env["KITEX_XDS_METAS"] = fmt.Sprintf(`{"NAMESPACE":%q,"k":"v"}`, n)
		ns = n
	case 1:
		env["KITEX_XDS_METAS"] = `{"NAMESPACE":""}`
	case 2:
		env["KITEX_XDS_METAS"] = `{"ISTIO_VERSION":"1"}`
	}
	cfg := WCfg{NDS: true, LDS: chance(r, 40), Timeout: 400 * time.Millisecond, Env: env}
	p := &bindWorld{policyWorld: newPolicyWorld(c, cfg), m: newModel(cfg)}
	p.m.ns, p.m.dom = ns, dom
	p.m.table = map[string][]string{}
	if cfg.LDS {
		p.m.sub(L, inbound)
	}
	c.Logf("namespace %s domain %s", ns, dom)
	return p
}

// host makes a host of 1..5 labels, often related to the other ones.
func (p *bindWorld) host() string {
	r := p.c.Rng
	ls := []string{pick(r, []string{"a", "b", "svc-a", "echo", "svc"})}
	switch r.Intn(10) {
	case 0, 1:
	case 2, 3:
		ls = append(ls, pick(r, []string{p.m.ns, "other", "svc"}))
	case 4:
		ls = append(ls, pick(r, []string{p.m.ns, "other"}), "svc")
	case 5, 6:
		return ls[0] + "." + pick(r, []string{p.m.ns, "other"}) + ".svc." + pick(r, []string{p.m.dom, p.m.dom, "cluster.local", "elsewhere"})
	case 7:
		return pick(r, []string{"www.example.com", "example.com", "www.example.co.uk", "org.cloudwego.kitex.samples.api", "www.svc.com", "a.b.xsvc.com", "a.b.svcx"})
	default:
		for i, n := 0, 1+r.Intn(4); i < n; i++ {
			ls = append(ls, pick(r, []string{"a", "b", "svc", p.m.ns, "com"}))
		}
	}
	return strings.Join(ls, ".")
}

func (p *bindWorld) name() string {
	h := randCase(p.c.Rng, p.host())
	switch p.c.Rng.Intn(6) {
	case 0, 1:
		return h
	case 2:
		return h + ":80"
	case 3:
		return h + ":8080"
	case 4:
		return h + ":443"
	}
	return h + ":65535"
}

func hostOf(name string) string {
	if i := strings.IndexByte(name, ':'); i >= 0 {
		return name[:i]
	}
	return name
}

// relatives are the hosts a wrong expansion of h could hit.
func (p *bindWorld) relatives(h string) []string {
	m := p.m
	rs := []string{
		h, refExpand(h, m.ns, m.dom), h + "." + m.ns, h + ".svc", h + "." + m.ns + ".svc", h + ".svc." + m.dom, h + "." + m.dom,
		h + "." + m.ns + ".svc." + m.dom, h + ".other.svc." + m.dom, h + "." + m.ns + ".svc.elsewhere", h + "." + m.ns + ".svc.cluster.local",
		h + ".default.svc." + m.dom,
	}
	if i := strings.IndexByte(h, '.'); i > 0 {
		rs = append(rs, h[:i], h[:i]+"."+m.ns+".svc."+m.dom, h[i+1:])
	}
	return rs
}

func (p *bindWorld) table() map[string][]string {
	r := p.c.Rng
	t := map[string][]string{}
	used := map[string]bool{}
	ip := 0
	add := func(h string) {
		if used[strings.ToLower(h)] || h == "" {
			return
		}
		used[strings.ToLower(h)] = true
		ips := []string{}
		for i, n := 0, pick(r, []int{0, 1, 1, 1, 2, 3}); i < n; i++ {
			ip++
			a := fmt.Sprintf("10.%d.%d.%d", r.Intn(2), ip/250, ip%250)
			if chance(r, 10) {
				a = fmt.Sprintf("fd00::%x", ip)
			}
			ips = append(ips, a)
		}
		if chance(r, 5) && ip > 0 {
			ips = append(ips, "10.0.0.1")
		}
		t[randCase(r, h)] = ips
	}
	for _, n := range p.names {
		h := hostOf(n)
		if chance(r, 60) {
			add(refExpand(strings.ToLower(h), p.m.ns, p.m.dom))
		}
		if chance(r, 40) {
			add(h)
		}
		for _, x := range p.relatives(h) {
			if chance(r, 20) {
				add(x)
			}
		}
	}
	if chance(r, 35) {
		thin(r, t, r.Intn(4))
	}
	return t
}

// listeners: what the table designates, mostly, and many others.
func (p *bindWorld) listeners() (ms []proto.Message, ref map[string]string) {
	r := p.c.Rng
	ref = map[string]string{}
	p.stamps++
	add := func(n string) {
		if _, dup := ref[n]; dup {
			return
		}
		ref[n] = fmt.Sprintf("s%d-%d", p.stamps, len(ref))
		ms = append(ms, mkListener(n, ref[n]))
	}
	if chance(r, 70) {
		add(inbound)
	}
	missing := pick(r, []int{0, 10, 60})
	for _, h := range sortedKeys(p.m.table) {
		for _, ip := range p.m.table[h] {
			for _, port := range []string{"80", "8080", "443", "65535"} {
				if !chance(r, missing) {
					add(ip + "_" + port)
				}
			}
			if chance(r, 20) {
				add(ip)
			}
		}
	}
	for _, n := range p.names {
		h := hostOf(n)
		for _, d := range []string{n, h, h + "_80", h + ":80", "_80", "_8080", refExpand(h, p.m.ns, p.m.dom) + "_80", ""} {
			if chance(r, 25) {
				add(d)
			}
		}
	}
	r.Shuffle(len(ms), func(i, j int) { ms[i], ms[j] = ms[j], ms[i] })
	if chance(r, 25) && len(ms) > 0 {
		ms = ms[:r.Intn(min(len(ms), 4))]
		kept := map[string]string{}
		for _, m := range ms {
			n := m.(*v3listener.Listener).Name
			kept[n] = ref[n]
		}
		ref = kept
	}
	return
}

// thin leaves n entries.
func thin(r *rand.Rand, t map[string][]string, n int) {
	ks := sortedKeys(t)
	r.Shuffle(len(ks), func(i, j int) { ks[i], ks[j] = ks[j], ks[i] })
	for i := n; i < len(ks); i++ {
		delete(t, ks[i])
	}
}

func (p *bindWorld) lookup(n string) {
	p.w.Peek(L, n)
	p.subs[L][n] = true
	p.m.sub(L, n)
}

func (p *bindWorld) note() {
	for n, s := range p.window {
		s[p.m.cache[L][n]] = true
		if l := p.m.bind(n); l != "" && p.m.lds[l] != "" {
			s[p.m.lds[l]] = true
		}
	}
}

func (p *bindWorld) check(op string) {
	c := p.c
	for _, n := range p.names {
		if !p.subs[L][n] {
			continue
		}
		l := p.w.Peek(L, n)
		want, has := p.m.cache[L][n]
		ln := p.m.bind(n)
		c.R.Count("bindings_compared", 1)
		switch {
		case has && l.Err != nil:
			c.Violate("C14", "unbound", "after %s: lookup of %q fails (%v), the table designates listener %q (stamp %s)", op, n, l.Err, ln, want)
		case has && l.Stamp != want:
			c.Violate("C14", "wrong", "after %s: lookup of %q gives stamp %q, the table designates listener %q (stamp %s)", op, n, l.Stamp, ln, want)
		case !has && l.Err == nil && ln == "":
			c.Violate("C14", "unresolved-bound", "after %s: lookup of %q gives stamp %q although the table does not resolve the host", op, n, l.Stamp)
		case !has && l.Err == nil && p.m.lds[ln] != l.Stamp:
			c.Violate("C14", "wrong", "after %s: lookup of %q gives stamp %q, the table designates listener %q, which the control plane did not send", op, n, l.Stamp, ln)
		}
		if has {
			c.R.Count("bindings_bound", 1)
		} else if ln == "" {
			c.R.Count("bindings_unresolved", 1)
		}
	}
}

func bindCases(r *Run, n int) {
	for i := 0; i < n; i++ {
		r.Case("bind", i, func(c *Case) {
			c.Bubble(func() {
				p := newBindWorld(c)
				defer p.w.Close()
				for i, n := 0, 2+c.Rng.Intn(8); i < n; i++ {
					p.names = append(p.names, p.name())
				}
				p.names = append(p.names, inbound)
				if chance(c.Rng, 30) {
					p.names = append(p.names, "a:80:80", "::1", ":80")
				}
				for _, n := range p.names {
					if chance(c.Rng, 70) {
						p.lookup(n)
					}
				}
				synctest.Wait()
				bound := 0
				for step := 0; step < 12; step++ {
					// lookups that wait while the step happens
					p.window = map[string]map[string]bool{}
					var wg sync.WaitGroup
					results := map[string]*Lookup{}
					if chance(c.Rng, 30) {
						for _, n := range p.names {
							if !chance(c.Rng, 40) || p.window[n] != nil {
								continue
							}
							p.subs[L][n] = true
							p.m.sub(L, n)
							p.window[n] = map[string]bool{}
						}
						p.note()
						for _, n := range sortedKeys(p.window) {
							wg.Add(1)
							x := &Lookup{}
							results[n] = x
							go func() {
								defer wg.Done()
								*x = *p.w.Get(context.Background(), L, n)
							}()
						}
						synctest.Wait()
					}
					switch x := c.Rng.Intn(16); {
					case x < 4:
						t := p.table()
						if p.push(N, mkTable(t)) {
							p.m.acceptTable("", t)
							p.op("table of %d hosts", len(t))
						}
					case x < 9:
						ms, ref := p.listeners()
						if p.push(L, ms...) {
							p.m.accept(L, "", ref)
							p.op("%d listeners", len(ref))
						}
					case x == 9:
						// both without a pause
						t := p.table()
						if p.push(N, mkTable(t)) {
							p.m.acceptTable("", t)
							p.note()
							ms, ref := p.listeners()
							if p.push(L, ms...) {
								p.m.accept(L, "", ref)
							}
							p.op("table of %d hosts and listeners", len(t))
						}
					case x == 10:
						if p.pushBad(N, mkTable(p.table())) {
							p.op("rejected table")
						}
					case x == 11:
						ms, _ := p.listeners()
						if p.pushBad(L, ms...) {
							p.op("rejected listeners")
						}
					case x == 12:
						p.op("reconnect")
						p.reconnect()
					case x == 13:
						n := pick(c.Rng, p.names)
						p.lookup(n)
						p.op("lookup of %s", n)
					case x == 14:
						// a table split over several resources
						t := p.table()
						a, b := map[string][]string{}, map[string][]string{}
						for _, h := range sortedKeys(t) {
							if chance(c.Rng, 50) {
								a[h] = t[h]
							} else {
								b[h] = t[h]
							}
						}
						if p.push(N, mkTable(a), mkTable(b)) {
							p.m.acceptTable("", t)
							p.op("two tables of %d hosts", len(t))
						}
					case x == 15:
						if p.push(N, mkTable(nil)) {
							p.m.acceptTable("", map[string][]string{})
							p.op("empty table")
						}
					}
					p.note()
					synctest.Wait()
					wg.Wait()
					for _, n := range sortedKeys(results) {
						if l := results[n]; l.Err == nil && !p.window[n][l.Stamp] {
							c.Violate("C14", "wrong-wait", "a lookup of %q waiting during an update gives stamp %q, acceptable are %q", n, l.Stamp, sortedKeys(p.window[n]))
						}
						c.R.Count("waiting_lookups", 1)
					}
					if len(p.ops) > 0 {
						p.check(p.ops[len(p.ops)-1])
					}
					bound += len(p.m.cache[L])
				}
				if bound > 0 {
					r.Distinct("nontrivial", fmt.Sprint(p.names, p.ops))
					r.Sample("%q in %s/%s: %s", p.names, p.m.ns, p.m.dom, strings.Join(p.ops, "; "))
				}
			})
		})
	}
}

// spellingCases enumerate all the hosts of up to five labels over a small alphabet under every configuration.
func spellingCases(r *Run) {
	alpha := []string{"a", "svc", "ns1"}
	depth := 4
	if r.Thorough() {
		depth = 5
	}
	var hosts []string
	for level, all := 0, []string{""}; level < depth; level++ {
		var next []string
		for _, h := range all {
			for _, l := range alpha {
				if h == "" {
					next = append(next, l)
				} else {
					next = append(next, h+"."+l)
				}
			}
		}
		hosts = append(hosts, next...)
		all = next
	}
	for i := 0; i < r.N(24, 400); i++ {
		r.Case("spelling", i, func(c *Case) {
			c.Bubble(func() {
				p := newBindWorld(c)
				defer p.w.Close()
				for _, h := range hosts {
					e := refExpand(h, p.m.ns, p.m.dom)
					p.names = append(p.names, h)
					if chance(c.Rng, 30) {
						p.names = append(p.names, randCase(c.Rng, e)+":80") // already expanded
					}
					if chance(c.Rng, 10) {
						p.names = append(p.names, strings.ToUpper(h)+":8080")
					}
				}
				for _, n := range p.names {
					p.lookup(n)
				}
				synctest.Wait()
				// unique addresses for a random subset of the expansions and of the literal hosts
				t := map[string][]string{}
				i := 0
				for _, n := range p.names {
					h := strings.ToLower(hostOf(n))
					for _, x := range []string{strings.ToLower(refExpand(h, p.m.ns, p.m.dom)), h, h + "." + p.m.ns + ".svc." + p.m.dom, h + ".svc." + p.m.dom, h + "." + p.m.dom} {
						x = strings.ToLower(x)
						if _, dup := t[x]; !dup && chance(c.Rng, 45) {
							i++
							t[x] = []string{fmt.Sprintf("10.7.%d.%d", i/250, i%250)}
						}
					}
				}
				if !p.push(N, mkTable(t)) {
					c.R.harnessError("the name table cannot be pushed")
					return
				}
				p.m.acceptTable("", t)
				ref := map[string]string{}
				var ms []proto.Message
				for _, ips := range t {
					for _, port := range []string{"80", "8080"} {
						n := ips[0] + "_" + port
						ref[n] = "st-" + n
						ms = append(ms, mkListener(n, ref[n]))
					}
				}
				synctest.Wait()
				p.push(L, ms...)
				p.m.accept(L, "", ref)
				synctest.Wait()
				p.check("the listeners")
				r.Count("spellings_enumerated", len(p.names))
				r.Distinct("nontrivial", fmt.Sprint(p.m.ns, p.m.dom, t))
			})
		})
	}
}

func init() {
	register("C14", func(r *Run) {
		bindCases(r, r.N(4800, 100000))
		spellingCases(r)
	})
}
