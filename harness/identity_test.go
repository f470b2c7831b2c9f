package harness

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"reflect"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	"github.com/cloudwego/kitex/client/callopt"
	"github.com/cloudwego/kitex/pkg/klog"
	v3cluster "github.com/envoyproxy/go-control-plane/envoy/config/cluster/v3"
	v3core "github.com/envoyproxy/go-control-plane/envoy/config/core/v3"
	v3endpoint "github.com/envoyproxy/go-control-plane/envoy/config/endpoint/v3"
	discoveryv3 "github.com/envoyproxy/go-control-plane/envoy/service/discovery/v3"
	"google.golang.org/protobuf/proto"

	xds "github.com/kitex-contrib/xds"
	ads "github.com/kitex-contrib/xds/core/api/kitex_gen/envoy/service/discovery/v3/aggregateddiscoveryservice"
	"github.com/kitex-contrib/xds/core/manager"
	"github.com/kitex-contrib/xds/core/xdsresource"
	"github.com/kitex-contrib/xds/xdssuite"
)

// ---------------------------------------------------------------- C20: node identity

// nodeSpec is what a bootstrap environment demands of the node.
type nodeSpec struct {
	missing string // the required variable that is missing
	id      string
	ip      string
	version string                 // ISTIO_VERSION of the environment
	meta    map[string]interface{} // the metadata of the user, nil when none was given or it is not valid
	ns, dom string                 // for the expansion of names
}

func specOf(env map[string]string, meta map[string]interface{}) nodeSpec {
	s := nodeSpec{meta: meta, version: env["ISTIO_VERSION"], ip: env["INSTANCE_IP"], ns: env["POD_NAMESPACE"], dom: env["KITEX_XDS_DOMAIN"]}
	for _, k := range []string{"POD_NAMESPACE", "POD_NAME", "INSTANCE_IP"} {
		if env[k] == "" {
			s.missing = k
		}
	}
	if s.dom == "" {
		s.dom = "cluster.local"
	}
	s.id = "sidecar~" + s.ip + "~" + env["POD_NAME"] + "." + s.ns + "~" + s.ns + ".svc." + s.dom
	if v, ok := meta["NAMESPACE"].(string); ok && v != "" {
		s.ns = v
	}
	return s
}

func splitIPs(s string) (out []string) {
	for _, x := range strings.Split(s, ",") {
		if x = strings.TrimSpace(x); x != "" {
			out = append(out, x)
		}
	}
	return
}

func has(xs []string, x string) bool {
	for _, y := range xs {
		if x == y {
			return true
		}
	}
	return false
}

// wrong tells what is wrong about a node, "" when nothing is.
func (s nodeSpec) wrong(n *v3core.Node) (key, msg string) {
	if n == nil {
		return "no-node", "the request carries no node"
	}
	if n.Id != s.id {
		return "node-id", fmt.Sprintf("node id %q, expected %q", n.Id, s.id)
	}
	got := map[string]interface{}{}
	if n.Metadata != nil {
		got = n.Metadata.AsMap()
	}
	if s.meta == nil {
		v, ok := got["ISTIO_VERSION"]
		if sv, isS := v.(string); !ok || !isS || sv != s.version {
			return "istio-version", fmt.Sprintf("no metadata is given, ISTIO_VERSION is %v (present: %v), expected %q", v, ok, s.version)
		}
		return "", ""
	}
	for _, k := range sortedKeys(s.meta) {
		want := s.meta[k]
		v, ok := got[k]
		if !ok {
			return "metadata", fmt.Sprintf("the metadata entry %q is missing", k)
		}
		if k != "INSTANCE_IPS" {
			if !reflect.DeepEqual(v, want) {
				return "metadata", fmt.Sprintf("the metadata entry %q is %v, expected %v", k, v, want)
			}
			continue
		}
		var ips []string
		switch x := v.(type) {
		case string:
			ips = splitIPs(x)
		case []interface{}:
			for _, e := range x {
				if es, ok := e.(string); ok {
					ips = append(ips, es)
				}
			}
		}
		if !has(ips, s.ip) {
			return "instance-ips", fmt.Sprintf("INSTANCE_IPS is %v (supplied %v), the pod IP %q is no element of it", v, want, s.ip)
		}
		if ws, ok := want.(string); ok {
			for _, ip := range splitIPs(ws) {
				if !has(ips, ip) {
					return "instance-ips", fmt.Sprintf("INSTANCE_IPS is %v, the supplied address %q is lost", v, ip)
				}
			}
		}
	}
	for _, k := range sortedKeys(got) {
		if _, ok := s.meta[k]; !ok && k != "ISTIO_VERSION" {
			return "metadata", fmt.Sprintf("the metadata entry %q was not supplied", k)
		}
	}
	return "", ""
}

var (
	idIPs  = []string{"10.0.0.1", "10.0.0.12", "10.0.0.11", "1.10.0.0.1", "0.0.0.1", "10.0.0.1%eth0", "fd00::1", "fd00::12", "::1", "127.0.0.1", "localhost"}
	idPods = []string{"pod-1", "web.ns1", "web.default", "ns1", "sidecar~1.1.1.1~p.ns1", "echo-7d9f-x2x", "p%d%s", "pod~x", "a.b", "名", "p"}
	idNS   = []string{"ns1", "default", "kube-system", "n", "svc", "n%s"}
	idDom  = []string{"cluster.local", "local", "my.corp.example.com", "%!s", "cluster.local."}
)

func idIPList(r *rand.Rand, pod string) string {
	var xs []string
	for i, n := 0, r.Intn(5); i < n; i++ {
		x := pick(r, idIPs)
		switch r.Intn(6) {
		case 0:
			x = pod
		case 1:
			x = pod + "2" // the pod IP is a prefix
		case 2:
			x = "1" + pod // ... a suffix
		case 3:
			if len(pod) > 1 {
				x = pod[:len(pod)-1] // a prefix of the pod IP
			}
		}
		xs = append(xs, x)
	}
	return strings.Join(xs, pick(r, []string{",", ",", ", ", " ,"}))
}

func idValue(r *rand.Rand, depth int) interface{} {
	switch x := r.Intn(8); {
	case x < 3:
		return pick(r, []string{"", "v", "a,b", "true", "日本", "\"quoted\"\n", "%s", "null"})
	case x == 3:
		return pick(r, []float64{0, 1, -1, 1.5, 1e10, 8080})
	case x == 4:
		return chance(r, 50)
	case x == 5:
		return nil
	case x == 6 && depth > 0:
		m := map[string]interface{}{}
		for i, n := 0, r.Intn(4); i < n; i++ {
			m[fmt.Sprint("k", i)] = idValue(r, depth-1)
		}
		return m
	case x == 7 && depth > 0:
		l := []interface{}{}
		for i, n := 0, r.Intn(4); i < n; i++ {
			l = append(l, idValue(r, depth-1))
		}
		return l
	}
	return "w"
}

// idMetas makes the value of KITEX_XDS_METAS, and the metadata it means (nil when it is not valid).
func idMetas(r *rand.Rand, pod string) (string, map[string]interface{}) {
	m := map[string]interface{}{}
	for i, n := 0, r.Intn(5); i < n; i++ {
		m[pick(r, []string{"CLUSTER_ID", "LABELS", "GENERATOR", "", "k", "instance_ips", "namespace", "INSTANCE_IP", "POD_NAMESPACE", "fields", "日"})] = idValue(r, 2)
	}
	if chance(r, 60) {
		switch r.Intn(8) {
		case 0:
			m["INSTANCE_IPS"] = idValue(r, 1)
		case 1:
			m["INSTANCE_IPS"] = ""
		default:
			m["INSTANCE_IPS"] = idIPList(r, pod)
		}
	}
	if chance(r, 50) {
		m["NAMESPACE"] = pick(r, []interface{}{"ns1", "other", "default", "kube-system", "", nil, 7.0, true, []interface{}{"other"}, map[string]interface{}{"other": "other"}})
	}
	if chance(r, 40) {
		m["ISTIO_VERSION"] = pick(r, []interface{}{"1.13.5", "", "1.99", nil, 1.5})
	}
	b, err := json.Marshal(m)
	if err != nil {
		panic(err)
	}
	if chance(r, 30) {
		var o bytes.Buffer
		json.Indent(&o, b, "\n ", "\t")
		b = o.Bytes()
	}
	if chance(r, 75) {
		return string(b), m
	}
	s := string(b)
	switch r.Intn(9) {
	case 0:
		s = s[:len(s)-1]
	case 1:
		s = s[:r.Intn(len(s)-1)+1]
	case 2:
		s += "}"
	case 3:
		s = "[" + s + "]"
	case 4:
		s = `"str"`
	case 5:
		s = "not json"
	case 6:
		s = "{a:1}"
	case 7:
		s = "1"
	case 8:
		s = "{'NAMESPACE':'other'}"
	}
	if json.Valid([]byte(s)) && strings.HasPrefix(strings.TrimSpace(s), "{") {
		return string(b), m // the cut hit only blanks
	}
	return s, nil
}

func idEnv(r *rand.Rand, missing int) (map[string]string, map[string]interface{}) {
	e := map[string]string{}
	opt := func(k, v string, pct int) {
		switch {
		case chance(r, pct):
			e[k] = v
		case chance(r, 50):
			e[k] = ""
		}
	}
	opt("POD_NAMESPACE", pick(r, idNS), 100-missing)
	opt("POD_NAME", pick(r, idPods), 100-missing)
	opt("INSTANCE_IP", pick(r, idIPs), 100-missing)
	opt("KITEX_XDS_DOMAIN", pick(r, idDom), 60)
	opt("ISTIO_VERSION", pick(r, []string{"1.13.5", "1.20.0-alpha", "%v"}), 60)
	var meta map[string]interface{}
	if chance(r, 75) {
		e["KITEX_XDS_METAS"], meta = idMetas(r, e["INSTANCE_IP"])
	} else if chance(r, 50) {
		e["KITEX_XDS_METAS"] = ""
	}
	return e, meta
}

// failedInit checks an initialisation with a required variable missing.
func (c *Case) failedInit(env map[string]string, missing string, cfg WCfg) {
	cfg.Env = env
	w := NewWorld(c, cfg)
	c.R.Count("failed_initialisations", 1)
	if w.err == nil {
		c.Violate("C20", "no-error", "%s is missing or empty, the initialisation gives no error", missing)
		w.Close()
		return
	}
	if w.m != nil {
		c.Violate("C20", "half-configured", "%s is missing or empty, the initialisation fails and gives a manager", missing)
	}
	time.Sleep(time.Minute)
	synctest.Wait()
	if w.cp.opens != 0 {
		c.Violate("C20", "half-configured", "%s is missing or empty, the initialisation fails, and a client opened %d streams", missing, w.cp.opens)
	}
	w.cp.shutdown()
	time.Sleep(time.Minute)
	synctest.Wait()
	w.finish()
}

func identityCases(r *Run, n int) {
	for i := 0; i < n; i++ {
		r.Case("identity", i, func(c *Case) {
			rng := c.Rng
			env, meta := idEnv(rng, 4)
			spec := specOf(env, meta)
			c.Logf("environment %q", env)
			cfg := WCfg{NDS: true, LDS: chance(rng, 60), Timeout: 300 * time.Millisecond, Env: env, Table: map[string][]string{}}
			if spec.missing != "" {
				c.Bubble(func() { c.failedInit(env, spec.missing, cfg) })
				r.Count("evaluations", 1)
				return
			}
			// hosts that a name of one label can be expanded to
			stamps := map[string]string{}
			for k, ns := range append([]string{"other", ""}, idNS...) {
				for j, dom := range append([]string{""}, idDom...) {
					h := "echo." + ns + ".svc." + dom
					ip := fmt.Sprintf("10.%d.%d.1", k, j)
					if _, dup := cfg.Table[h]; !dup {
						cfg.Table[h] = []string{ip}
						stamps[ip] = "in-" + ns + "/" + dom
					}
				}
			}
			cfg.Table["echo"] = []string{"10.99.0.1"}
			stamps["10.99.0.1"] = "bare"
			c.Bubble(func() {
				fails := 0
				types := map[string]bool{}
				var mu sync.Mutex
				cfg.Pre = func(cp *CP) {
					cp.OpenErr = func(n int) error {
						if fails > 0 {
							fails--
							return failErrN(n)
						}
						return nil
					}
					cp.SendHook = func(s *Stream, req *discoveryv3.DiscoveryRequest) {
						kind := tname[typeOf[req.TypeUrl]]
						switch {
						case req.ErrorDetail != nil:
							kind += " nack"
						case req.ResponseNonce != "":
							kind += " nonce"
						case s.id > 1:
							kind += " again"
						}
						mu.Lock()
						types[kind] = true
						mu.Unlock()
						r.Count("requests_checked", 1)
						if key, msg := spec.wrong(req.Node); key != "" {
							c.Violate("C20", key, "request of %s on stream %d: %s; environment %q", kind, s.id, msg, env)
						}
					}
				}
				p := newPolicyWorld(c, cfg)
				defer p.w.Close()
				if p.w.err != nil {
					c.Violate("C20", "init", "the initialisation fails (%v) although nothing is missing: %q", p.w.err, env)
					return
				}
				var ls []proto.Message
				for _, ip := range sortedKeys(stamps) {
					ls = append(ls, mkListener(ip+"_80", stamps[ip]))
				}
				expand := func() {
					p.sub(L, "echo:80")
					if !p.push(L, ls...) {
						return
					}
					synctest.Wait()
					l := p.w.Peek(L, "echo:80")
					want := "in-" + spec.ns + "/" + spec.dom
					r.Count("expansions_checked", 1)
					if l.Err != nil || l.Stamp != want {
						c.Violate("C20", "expansion", "echo:80 is bound to %q (%v), expected the host of namespace %q (%q); environment %q", l.Stamp, l.Err, spec.ns, want, env)
					}
				}
				expand()
				for step, n := 0, 6+rng.Intn(14); step < n; step++ {
					t := pick(rng, []RT{L, R, C, E})
					name := fmt.Sprintf("x%d", rng.Intn(4))
					switch rng.Intn(7) {
					case 0, 1:
						p.sub(t, name)
					case 2:
						p.push(t, mk(t, name, "st-1-"))
					case 3:
						p.pushBad(t, mk(t, name, "st-1-"))
					case 4:
						fails = rng.Intn(3)
						p.reconnect()
					case 5:
						time.Sleep(time.Duration(1+rng.Intn(3)) * 30 * time.Second)
					case 6:
						p.pushBad(N, mkTable(cfg.Table))
					}
					synctest.Wait()
				}
				p.reconnect()
				expand()
				r.Count("evaluations", 1)
				if len(types) > 0 {
					r.Distinct("nontrivial", fmt.Sprintf("%q %v", env, sortedKeys(types)))
					r.Sample("%q: %v", env, sortedKeys(types))
				}
				for _, k := range sortedKeys(types) {
					r.Count("cases with requests of "+k, 1)
				}
			})
		})
	}
}

// presenceCases enumerate the ways in which the required variables may be missing.
func presenceCases(r *Run) {
	vals := map[string]string{"POD_NAMESPACE": "ns1", "POD_NAME": "p", "INSTANCE_IP": "10.0.0.1"}
	keys := []string{"POD_NAMESPACE", "POD_NAME", "INSTANCE_IP"}
	for i := 0; i < 4*4; i++ {
		r.Case("presence", i, func(c *Case) {
			for x := 0; x < 27; x++ {
				env := map[string]string{}
				y := x
				for _, k := range keys {
					switch y % 3 {
					case 1:
						env[k] = ""
					case 2:
						env[k] = vals[k]
					}
					y /= 3
				}
				var meta map[string]interface{}
				switch i % 4 {
				case 1:
					env["KITEX_XDS_METAS"] = ""
				case 2:
					env["KITEX_XDS_METAS"] = `{"NAMESPACE":"other","INSTANCE_IPS":"10.0.0.11,1.1.1.1","POD_NAME":"q","INSTANCE_IP":"10.0.0.2"}`
					meta = map[string]interface{}{"NAMESPACE": "other", "INSTANCE_IPS": "10.0.0.11,1.1.1.1", "POD_NAME": "q", "INSTANCE_IP": "10.0.0.2"}
				case 3:
					env["KITEX_XDS_METAS"] = `{"NAMESPACE":`
				}
				cfg := WCfg{NDS: i/4%2 == 0, LDS: i/8 == 0, Env: env}
				spec := specOf(env, meta)
				c.Bubble(func() {
					if spec.missing != "" {
						c.failedInit(env, spec.missing, cfg)
						return
					}
					w := NewWorld(c, cfg)
					if w.err != nil {
						c.Violate("C20", "init", "the initialisation fails (%v) although nothing is missing: %q", w.err, env)
						return
					}
					defer w.Close()
					w.Peek(C, "c")
					synctest.Wait()
					key, msg := spec.wrong(w.cp.node)
					if key != "" {
						c.Violate("C20", key, "%s; environment %q", msg, env)
					}
				})
				r.Count("evaluations", 1)
				r.Distinct("nontrivial", fmt.Sprint(env, cfg.NDS, cfg.LDS))
			}
		})
	}
}

// ---------------------------------------------------------------- C20: the first manager stays

// The global manager can be set once in a process, so each history runs in a process of its own.

type initStep struct {
	Op  string            `json:"op"` // init, set, race
	Env map[string]string `json:"env,omitempty"`
	ID  string            `json:"id,omitempty"`
	N   int               `json:"n,omitempty"`
}

type initObs struct {
	Errs   []string `json:"errs"`
	Inited bool     `json:"inited"`
	IDs    []string `json:"ids"` // the managers that answered after the step, through different entry points
	During []string `json:"during"`
}

type initReport struct {
	Steps []initObs           `json:"steps"`
	Nodes map[string][]string `json:"nodes"` // node ids seen by the control plane of each manager
}

type miniCP struct {
	id    string
	mu    sync.Mutex
	nodes map[string]bool
}

type miniStream struct {
	Stream
	cp   *miniCP
	q    chan *discoveryv3.DiscoveryResponse
	sent map[string]int
	no   int
}

func (m *miniCP) StreamAggregatedResources(ctx context.Context, _ ...callopt.Option) (ads.AggregatedDiscoveryService_StreamAggregatedResourcesClient, error) {
	return &miniStream{cp: m, q: make(chan *discoveryv3.DiscoveryResponse, 1000), sent: map[string]int{}}, nil
}

func (m *miniCP) DeltaAggregatedResources(ctx context.Context, _ ...callopt.Option) (ads.AggregatedDiscoveryService_DeltaAggregatedResourcesClient, error) {
	return nil, errors.New("delta is not supported")
}

func (s *miniStream) Send(req *discoveryv3.DiscoveryRequest) error {
	s.cp.mu.Lock()
	s.cp.nodes[req.Node.GetId()] = true
	s.cp.mu.Unlock()
	if n, ok := s.sent[req.TypeUrl]; ok && n == len(req.ResourceNames) {
		return nil
	}
	s.sent[req.TypeUrl] = len(req.ResourceNames)
	s.no++
	resp := &discoveryv3.DiscoveryResponse{TypeUrl: req.TypeUrl, VersionInfo: "v", Nonce: fmt.Sprint("n", s.no)}
	switch typeOf[req.TypeUrl] {
	case N:
		resp.Resources = append(resp.Resources, mustAny(mkTable(nil)))
	case C:
		for _, n := range req.ResourceNames {
			resp.Resources = append(resp.Resources, mustAny(&v3cluster.Cluster{
				Name:                 n,
				ClusterDiscoveryType: &v3cluster.Cluster_Type{Type: v3cluster.Cluster_STATIC},
				LoadAssignment: &v3endpoint.ClusterLoadAssignment{ClusterName: n, Endpoints: []*v3endpoint.LocalityLbEndpoints{
					{LbEndpoints: []*v3endpoint.LbEndpoint{mkEndpoint(s.cp.id, 1, 1)}},
				}},
			}))
		}
	}
	s.q <- resp
	return nil
}

func (s *miniStream) Recv() (*discoveryv3.DiscoveryResponse, error) { return <-s.q, nil }

func (s *miniStream) Close() error { return nil }

// tagManager answers every lookup with its name.
type tagManager struct{ id string }

func (t *tagManager) Get(ctx context.Context, rt RT, n string) (interface{}, error) {
	return nil, errors.New("answered by " + t.id)
}

func (t *tagManager) RegisterXDSUpdateHandler(RT, xdsresource.XDSUpdateHandler) {}

var probeNo atomic.Int64

// whoAnswers tells which manager answers a lookup.
func whoAnswers() string {
	if !xdssuite.XDSInited() {
		return ""
	}
	res, err := xdssuite.NewXDSResolver().Resolve(context.Background(), fmt.Sprint("probe-", probeNo.Add(1)))
	if err != nil {
		if i := strings.Index(err.Error(), "answered by "); i >= 0 {
			return err.Error()[i+len("answered by "):]
		}
		return "error: " + err.Error()
	}
	a := res.Instances[0].Address().String()
	return a[:strings.LastIndexByte(a, ':')]
}

func initChild(script string) {
	klog.SetLevel(klog.LevelFatal)
	var steps []initStep
	if err := json.Unmarshal([]byte(script), &steps); err != nil {
		panic(err)
	}
	var mu sync.Mutex
	var hold func()
	cps := map[string]*miniCP{}
	ads.VerifNewClient = func(string) ads.Client {
		if hold != nil {
			hold()
		}
		mu.Lock()
		defer mu.Unlock()
		cp := &miniCP{id: fmt.Sprint("m", len(cps)+1), nodes: map[string]bool{}}
		cps[cp.id] = cp
		return cp
	}
	var rep initReport
	for _, st := range steps {
		var o initObs
		setEnv(st.Env)
		opt := xds.WithXDSServerConfig(&manager.XDSServerConfig{SvrName: "fake", SvrAddr: "127.0.0.1:1", FetchXDSTimeout: 10 * time.Second})
		addErr := func(err error) {
			if err != nil {
				o.Errs = append(o.Errs, err.Error())
			} else {
				o.Errs = append(o.Errs, "")
			}
		}
		switch st.Op {
		case "init":
			addErr(xds.Init(opt))
		case "set":
			addErr(xdssuite.SetXDSResourceManager(&tagManager{st.ID}))
		case "race", "sets":
			var wg sync.WaitGroup
			start := make(chan struct{})
			stop := make(chan struct{})
			var ready, built atomic.Int32
			// the setters leave a barrier together, the initialisations when all of them have built a client
			spin := func(a *atomic.Int32, n int) {
				a.Add(1)
				for t := time.Now(); int(a.Load()) < n && time.Since(t) < 50*time.Millisecond; {
				}
			}
			inits := 0
			for i := 0; i < st.N; i++ {
				if st.Op == "race" && i%3 != 2 {
					inits++
				}
			}
			hold = func() { spin(&built, inits) }
			seen := make([]string, st.N)
			var omu sync.Mutex
			errs := make([]error, st.N)
			for i := 0; i < st.N; i++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					<-start
					if st.Op == "sets" || i%3 == 2 {
						if st.Op == "sets" {
							spin(&ready, st.N)
						}
						errs[i] = xdssuite.SetXDSResourceManager(&tagManager{fmt.Sprint(st.ID, i)})
					} else {
						o2 := xds.WithXDSServerConfig(&manager.XDSServerConfig{SvrName: "fake", SvrAddr: "127.0.0.1:1", FetchXDSTimeout: 10 * time.Second})
						errs[i] = xds.Init(o2)
					}
					seen[i] = whoAnswers()
				}()
			}
			var rg sync.WaitGroup
			rg.Add(1)
			go func() {
				defer rg.Done()
				if st.Op == "sets" {
					return
				}
				<-start
				for {
					if id := whoAnswers(); id != "" {
						omu.Lock()
						if len(o.During) < 100 {
							o.During = append(o.During, id)
						}
						omu.Unlock()
					}
					select {
					case <-stop:
						return
					default:
					}
				}
			}()
			close(start)
			wg.Wait()
			close(stop)
			rg.Wait()
			for _, e := range errs {
				addErr(e)
			}
			hold = nil
			o.During = append(o.During, seen...)
		}
		o.Inited = xdssuite.XDSInited()
		for i := 0; i < 3; i++ {
			o.IDs = append(o.IDs, whoAnswers())
		}
		rep.Steps = append(rep.Steps, o)
	}
	rep.Nodes = map[string][]string{}
	mu.Lock()
	for id, cp := range cps {
		cp.mu.Lock()
		rep.Nodes[id] = sortedKeys(cp.nodes)
		cp.mu.Unlock()
	}
	mu.Unlock()
	b, _ := json.Marshal(rep)
	fmt.Printf("\nREPORT %s\n", b)
}

func initCases(r *Run, n int) {
	for i := 0; i < n; i++ {
		r.Case("init", i, func(c *Case) {
			rng := c.Rng
			var steps []initStep
			mk := func(op string) initStep {
				st := initStep{Op: op, N: 2 + rng.Intn(5), ID: fmt.Sprint("f", len(steps), "-")}
				st.Env, _ = idEnv(rng, 0)
				delete(st.Env, "KITEX_XDS_METAS")
				st.Env["POD_NAME"] = fmt.Sprint("pod", len(steps))
				if op == "sets" {
					st.N = 3 + rng.Intn(8)
				}
				return st
			}
			if x := rng.Intn(10); x < 4 {
				steps = append(steps, mk("sets"))
			} else if x < 7 {
				steps = append(steps, mk("race"))
			}
			for k, n := len(steps), 2+rng.Intn(4); k < n; k++ {
				var st initStep
				switch x := rng.Intn(10); {
				case x < 5:
					st = mk("init")
				case x < 7:
					st = mk("init")
					delete(st.Env, pick(rng, []string{"POD_NAMESPACE", "POD_NAME", "INSTANCE_IP"}))
				case x < 8:
					st = mk("set")
				default:
					st = mk("race")
				}
				steps = append(steps, st)
			}
			steps = append(steps, mk("init"), mk("set"), mk("init"))
			script, _ := json.Marshal(steps)
			c.Logf("steps %s", script)
			ctx, cancel := context.WithTimeout(context.Background(), 50*time.Second)
			defer cancel()
			cmd := exec.CommandContext(ctx, os.Args[0], "-test.run", "^$")
			cmd.Env = append(os.Environ(), "VERIF_INIT_SCRIPT="+string(script))
			out, err := cmd.CombinedOutput()
			c.Logf("%s", out)
			at := bytes.Index(out, []byte("\nREPORT "))
			if at < 0 {
				if ctx.Err() != nil {
					c.Violate("C20", "hang", "the initialisations did not end within 50 s: %s", script)
				} else if panicInRepo(string(out)) {
					c.Violate("C20", "panic", "the process crashed: %s", trimStack(string(out)))
				} else {
					r.harnessError(fmt.Sprintf("the process of the case %s failed: %v\n%s", c.ID, err, trimStack(string(out))))
				}
				return
			}
			var rep initReport
			if err := json.Unmarshal(bytes.SplitN(out[at+8:], []byte("\n"), 2)[0], &rep); err != nil {
				panic(err)
			}
			cur := ""
			var kinds []string
			for k, st := range steps {
				o := rep.Steps[k]
				spec := specOf(st.Env, nil)
				before := cur
				kind := st.Op
				first := o.IDs[0]
				switch {
				case cur != "":
				case st.Op == "init" && spec.missing != "":
					kind += "(missing)"
					if o.Errs[0] == "" {
						c.Violate("C20", "no-error", "step %d: Init without %s gives no error", k, spec.missing)
					}
					if o.Inited {
						c.Violate("C20", "half-configured", "step %d: Init without %s sets the manager", k, spec.missing)
					}
				case st.Op == "init":
					if o.Errs[0] != "" {
						c.Violate("C20", "init", "step %d: Init fails: %s", k, o.Errs[0])
						break
					}
					if ns := rep.Nodes[first]; len(ns) != 1 || ns[0] != spec.id {
						c.Violate("C20", "node-id", "step %d: the manager of the environment %q (%s) identifies itself as %q, expected %q", k, st.Env, first, ns, spec.id)
					}
					cur = first
				case st.Op == "set":
					if first != st.ID {
						c.Violate("C20", "set", "step %d: the manager set is %q, %q answers", k, st.ID, first)
					}
					cur = first
				case st.Op == "race" || st.Op == "sets":
					cur = first
					if len(o.During) > 0 {
						cur = o.During[0]
					}
					if cur == "" {
						c.Violate("C20", "init", "step %d: no manager after %d concurrent initialisations, errors %q", k, st.N, o.Errs)
					}
				}
				for _, id := range append(append([]string(nil), o.During...), o.IDs...) {
					if cur != "" && id != cur {
						c.Violate("C20", "replaced", "step %d (%s): the first manager is %q, a lookup is answered by %q", k, kind, cur, id)
						break
					}
				}
				if before != "" && !o.Inited {
					c.Violate("C20", "replaced", "step %d: the manager is gone", k)
				}
				kinds = append(kinds, kind)
				if c.nviol > 0 {
					return
				}
			}
			for id, ns := range rep.Nodes {
				if len(ns) > 1 {
					c.Violate("C20", "node-id", "the manager %s identifies itself as %q", id, ns)
				}
			}
			r.Count("evaluations", 1)
			r.Count("initialisation_histories", 1)
			r.Distinct("nontrivial", "init "+strings.Join(kinds, ","))
			r.Distinct("init_histories", strings.Join(kinds, ","))
			r.Sample("initialisations %v: %s stays", kinds, cur)
		})
	}
}

func TestMain(m *testing.M) {
	if s := os.Getenv("VERIF_INIT_SCRIPT"); s != "" {
		initChild(s)
		os.Exit(0)
	}
	os.Exit(m.Run())
}

func init() {
	register("C20", func(r *Run) {
		presenceCases(r)
		identityCases(r, r.N(10000, 60000))
		initCases(r, r.N(480, 3000))
	})
}
