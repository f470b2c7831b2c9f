package harness

import (
	"strings"
)

// Model is the reference: a fold over the accepted responses, and the interest set.
type Model struct {
	nds      bool
	ns, dom  string
	interest map[RT]map[string]bool
	lds      map[string]string // listener name -> stamp, of the last accepted LDS response
	ldsSeen  bool
	table    map[string][]string
	cache    map[RT]map[string]string
	ver      map[RT]string
	nonce    map[RT]string // last response on the current stream
}

func newModel(cfg WCfg) *Model {
	m := &Model{
		nds: cfg.NDS, ns: "ns1", dom: "cluster.local",
		interest: map[RT]map[string]bool{}, cache: map[RT]map[string]string{}, ver: map[RT]string{}, nonce: map[RT]string{},
	}
	for _, t := range []RT{L, R, C, E} {
		m.cache[t] = map[string]string{}
	}
	return m
}

func (m *Model) sub(t RT, name string) bool {
	if m.interest[t] == nil {
		m.interest[t] = map[string]bool{}
	}
	if m.interest[t][name] {
		return false
	}
	m.interest[t][name] = true
	return true
}

// refExpand is the reference of the expansion of a host name.
func refExpand(host, ns, dom string) string {
	if strings.Contains(host, ".svc.") {
		return host
	}
	p := strings.Split(host, ".")
	switch {
	case len(p) == 1:
		return host + "." + ns + ".svc." + dom
	case len(p) == 2:
		return host + ".svc." + dom
	case len(p) == 3 && p[2] == "svc":
		return host + "." + dom
	case len(p) == 3:
		return host
	}
	return host + "." + ns + ".svc." + dom
}

// refResolve gives the address the name table designates for the host, "" when it has none.
func refResolve(host, ns, dom string, table map[string][]string) string {
	low := map[string][]string{}
	for k, v := range table {
		low[strings.ToLower(k)] = v
	}
	h := strings.ToLower(host)
	for _, k := range []string{strings.ToLower(refExpand(h, ns, dom)), h} {
		if ips := low[k]; len(ips) > 0 {
			return ips[0]
		}
	}
	return ""
}

// refListener gives the name of the listener designated for host[:port], "" when there is none.
func refListener(name, ns, dom string, table map[string][]string) string {
	host, port := name, "80"
	if i := strings.IndexByte(name, ':'); i >= 0 {
		host, port = name[:i], name[i+1:]
		if strings.Contains(port, ":") {
			return ""
		}
	}
	ip := refResolve(host, ns, dom, table)
	if ip == "" {
		return ""
	}
	return ip + "_" + port
}

func (m *Model) bind(name string) string {
	if !m.nds || name == inbound {
		return name
	}
	return refListener(name, m.ns, m.dom, m.table)
}

func (m *Model) rebind() {
	c := map[string]string{}
	for n := range m.interest[L] {
		if ln := m.bind(n); ln != "" {
			if st, ok := m.lds[ln]; ok {
				c[n] = st
			}
		}
	}
	m.cache[L] = c
}

// accept folds one accepted response (name -> stamp).
func (m *Model) accept(t RT, version string, res map[string]string) {
	m.ver[t] = version
	switch t {
	case L:
		m.lds, m.ldsSeen = res, true
		m.rebind()
	case C:
		c := map[string]string{}
		for n, st := range res {
			if m.interest[C][n] {
				c[n] = st
			}
		}
		m.cache[C] = c
	default:
		for n, st := range res {
			if m.interest[t][n] {
				m.cache[t][n] = st
			}
		}
	}
}

func (m *Model) acceptTable(version string, table map[string][]string) {
	m.ver[N] = version
	m.table = table
	if m.ldsSeen {
		m.rebind()
	}
}
