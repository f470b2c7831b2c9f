package harness

import (
	"encoding/binary"
	"fmt"
	"math"
	"math/rand"
	"runtime/debug"
	"strings"
	"testing/synctest"
	"time"

	udpatypev1 "github.com/cncf/xds/go/udpa/type/v1"
	v3cluster "github.com/envoyproxy/go-control-plane/envoy/config/cluster/v3"
	v3endpoint "github.com/envoyproxy/go-control-plane/envoy/config/endpoint/v3"
	v3listener "github.com/envoyproxy/go-control-plane/envoy/config/listener/v3"
	v3route "github.com/envoyproxy/go-control-plane/envoy/config/route/v3"
	v3ratelimit "github.com/envoyproxy/go-control-plane/envoy/extensions/filters/http/local_ratelimit/v3"
	v3hcm "github.com/envoyproxy/go-control-plane/envoy/extensions/filters/network/http_connection_manager/v3"
	v3thrift "github.com/envoyproxy/go-control-plane/envoy/extensions/filters/network/thrift_proxy/v3"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/anypb"
	"google.golang.org/protobuf/types/known/structpb"

	dnsProto "github.com/kitex-contrib/xds/core/api/kitex_gen/istio.io/istio/pkg/dns/proto/istio_networking_nds_v1"
)

// ---------------------------------------------------------------- the harness's own reading of a response

type verdict int

const (
	vOK   verdict = iota // well-formed: must be accepted
	vGray                // neither is demanded
	vBad                 // must be reported as an error
)

func (v verdict) String() string { return [...]string{"ok", "gray", "bad"}[v] }

type reading struct {
	v   verdict
	why string
}

func (x *reading) set(v verdict, why string) {
	if v > x.v {
		x.v, x.why = v, why
	}
}

// readResponse classifies the resources of a response of type t.
func readResponse(t RT, as []*anypb.Any) (x reading) {
	if t == N && len(as) == 0 {
		x.set(vBad, "no name table")
	}
	for _, a := range as {
		x.resource(t, a)
	}
	return
}

func (x *reading) resource(t RT, a *anypb.Any) {
	if a.GetTypeUrl() != urlOf[t] {
		x.set(vBad, "wrong type URL")
		return
	}
	var m proto.Message
	switch t {
	case L:
		m = &v3listener.Listener{}
	case R:
		m = &v3route.RouteConfiguration{}
	case C:
		m = &v3cluster.Cluster{}
	case E:
		m = &v3endpoint.ClusterLoadAssignment{}
	case N:
		m = &dnsProto.NameTable{}
	}
	if proto.Unmarshal(a.GetValue(), m) != nil {
		x.set(vBad, "undecodable "+tname[t])
		return
	}
	switch m := m.(type) {
	case *v3listener.Listener:
		if m.ApiListener != nil {
			x.set(vGray, "API listener")
		}
		for _, fc := range append(append([]*v3listener.FilterChain(nil), m.FilterChains...), m.DefaultFilterChain) {
			for _, f := range fc.GetFilters() {
				x.filter(f)
			}
		}
	case *v3route.RouteConfiguration:
		x.table(m)
	}
}

func (x *reading) table(m *v3route.RouteConfiguration) {
	for _, vh := range m.GetVirtualHosts() {
		for _, rt := range vh.GetRoutes() {
			if rt.GetMatch() == nil {
				x.set(vBad, "route without match")
			}
			if rt.GetAction() == nil {
				x.set(vBad, "route without action")
			}
		}
	}
}

func (x *reading) filter(f *v3listener.Filter) {
	a := f.GetTypedConfig()
	switch a.GetTypeUrl() {
	case "type.googleapis.com/envoy.extensions.filters.network.thrift_proxy.v3.ThriftProxy":
		m := &v3thrift.ThriftProxy{}
		if proto.Unmarshal(a.GetValue(), m) != nil {
			x.set(vBad, "undecodable Thrift proxy")
			return
		}
		for _, rt := range m.GetRouteConfig().GetRoutes() {
			if rt.GetMatch() == nil {
				x.set(vBad, "Thrift route without match")
			}
			if rt.GetRoute() == nil {
				x.set(vBad, "Thrift route without action")
			}
		}
	case "type.googleapis.com/envoy.extensions.filters.network.http_connection_manager.v3.HttpConnectionManager":
		m := &v3hcm.HttpConnectionManager{}
		if proto.Unmarshal(a.GetValue(), m) != nil {
			x.set(vBad, "undecodable HTTP connection manager")
			return
		}
		// nobody says whether the filters behind a bucket, or those of a manager without routes, have to be read
		found := false
		for _, hf := range m.GetHttpFilters() {
			b, bad := readBucket(hf.GetTypedConfig())
			switch {
			case bad && found:
				x.set(vGray, "undecodable rate limit behind a bucket")
			case bad:
				x.set(vBad, "undecodable rate limit")
			}
			found = found || b
		}
		switch s := m.RouteSpecifier.(type) {
		case *v3hcm.HttpConnectionManager_RouteConfig:
			x.table(s.RouteConfig)
		case *v3hcm.HttpConnectionManager_Rds:
			if s.Rds.GetRouteConfigName() == "" {
				x.set(vGray, "no route table name")
			}
		}
	}
}

func readBucket(a *anypb.Any) (bucket, bad bool) {
	switch a.GetTypeUrl() {
	case "type.googleapis.com/envoy.extensions.filters.http.local_ratelimit.v3.LocalRateLimit":
		m := &v3ratelimit.LocalRateLimit{}
		if proto.Unmarshal(a.GetValue(), m) != nil {
			return false, true
		}
		return m.TokenBucket != nil, false
	case "type.googleapis.com/udpa.type.v1.TypedStruct":
		m := &udpatypev1.TypedStruct{}
		if proto.Unmarshal(a.GetValue(), m) != nil {
			return false, true
		}
		return m.GetValue().GetFields()["token_bucket"] != nil, false
	}
	return false, false
}

// ---------------------------------------------------------------- hostile payloads

// wire makes bytes that look like the wire format.
func wire(r *rand.Rand, depth int) []byte {
	var b []byte
	for i, n := 0, r.Intn(5); i < n; i++ {
		num := uint64(1 + r.Intn(20))
		switch r.Intn(20) {
		case 0:
			num = 0
		case 1:
			num = uint64(r.Intn(1 << 29))
		case 2:
			num = 1 << 30
		}
		typ := uint64(pick(r, []int{0, 1, 2, 2, 2, 2, 2, 3, 4, 5, 6, 7}))
		b = binary.AppendUvarint(b, num<<3|typ)
		switch typ {
		case 0:
			b = binary.AppendUvarint(b, pick(r, []uint64{0, 1, 80, math.MaxUint32, math.MaxUint64, r.Uint64()}))
		case 1:
			b = append(b, make([]byte, 8)...)
		case 5:
			b = append(b, make([]byte, 4)...)
		case 2:
			var in []byte
			switch {
			case depth > 0 && chance(r, 70):
				in = wire(r, depth-1)
			case chance(r, 60):
				in = []byte(pick(r, hostileStrings))
			default:
				in = make([]byte, r.Intn(6))
				r.Read(in)
			}
			l := uint64(len(in))
			switch r.Intn(25) {
			case 0:
				l++
			case 1:
				l = math.MaxUint64
			case 2:
				l = 1 << 31
			}
			b = binary.AppendUvarint(b, l)
			b = append(b, in...)
		}
	}
	return b
}

// nested wraps the field num n times around itself.
func nested(num, n int) []byte {
	// built from the inside: sizes first
	var tail [][]byte
	size := 0
	for i := 0; i < n; i++ {
		h := binary.AppendUvarint(binary.AppendUvarint(nil, uint64(num)<<3|2), uint64(size))
		tail = append(tail, h)
		size += len(h)
	}
	b := make([]byte, 0, size)
	for i := n - 1; i >= 0; i-- {
		b = append(b, tail[i]...)
	}
	return b
}

// seedMsg is a well-formed resource.
func (g *gen) seedMsg(t RT) proto.Message {
	r := g.r
	switch t {
	case L:
		if chance(r, 50) {
			return g.listenerOf(pick(r, []string{"l1", "virtualInbound", "10.0.0.1_80", ""}), g.filters(r.Intn(5)))
		}
		return g.scene(pick(r, []string{"l1", "10.0.0.1_80"})).l
	case R:
		return g.table(pick(r, []string{"t1", "80", ""}))
	case C:
		if chance(r, 50) {
			return g.resCluster(pick(r, []string{"c1", "c2"}), []string{"e1", "e2"})
		}
		return g.cluster(pick(r, []string{"c1", "c2", ""}))
	case E:
		return g.cla(pick(r, []string{"e1", "c1", ""}), 0)
	}
	nts, _ := g.nameTables()
	nt := nts[0]
	if chance(r, 50) {
		nt.Table[pick(r, []string{"svca", "svcA", "svca.ns1.svc.cluster.local", ""})] = pick(r, []*dnsProto.NameTable_NameInfo{{}, {Ips: []string{""}}, {Ips: []string{"10.0.0.1"}}, {Ips: []string{"10.0.0.1", "10.0.0.2"}}})
	}
	return nt
}

var allTypes = []RT{L, R, C, E, N}

// spoil is an aimed mutation that makes a well-formed message unacceptable, nil when there is no place for it.
func (g *gen) spoil(t RT) *anypb.Any {
	r := g.r
	badRouteAt := func(rc *v3route.RouteConfiguration) {
		if len(rc.VirtualHosts) == 0 || chance(r, 30) {
			rc.VirtualHosts = append(rc.VirtualHosts, &v3route.VirtualHost{Name: "x"})
		}
		vh := pick(r, rc.VirtualHosts)
		rt := g.httpRoute()
		switch r.Intn(4) {
		case 0:
			rt.Match = nil
		case 1:
			rt.Match, rt.Action = nil, nil
		default:
			rt.Action = nil
		}
		i := r.Intn(len(vh.Routes) + 1)
		vh.Routes = append(vh.Routes[:i:i], append([]*v3route.Route{rt}, vh.Routes[i:]...)...)
	}
	badBytes := func() []byte {
		return pick(r, [][]byte{{0x0a, 0xff, 0x01}, {0xff}, {0x08}, {0x0a, 0x01, 0xff}, {0x07}, {0x0c}, {0x00, 0x00}})
	}
	switch t {
	case R:
		m := g.table("t1")
		badRouteAt(m)
		return mustAny(m)
	case L:
		fs := g.filters(r.Intn(4))
		var f *v3listener.Filter
		switch r.Intn(5) {
		case 0:
			m := g.table("inline")
			badRouteAt(m)
			f = typedFilter("hcm", mustAny(g.hcm(m, "", 1)))
		case 1:
			rts := []*v3thrift.Route{}
			for i, n := 0, r.Intn(3); i < n; i++ {
				rts = append(rts, g.thriftRoute(true))
			}
			rt := g.thriftRoute(true)
			switch r.Intn(3) {
			case 0:
				rt.Match = nil
			case 1:
				rt.Route = nil
			case 2:
				rt = &v3thrift.Route{}
			}
			i := r.Intn(len(rts) + 1)
			rts = append(rts[:i:i], append([]*v3thrift.Route{rt}, rts[i:]...)...)
			f = typedFilter("thrift", mustAny(&v3thrift.ThriftProxy{RouteConfig: &v3thrift.RouteConfiguration{Routes: rts}}))
		case 2:
			a := mustAny(g.hcm(nil, "t1", 1))
			a.Value = badBytes()
			f = typedFilter("hcm", a)
		case 3:
			a := g.thriftFilter(true).GetTypedConfig()
			a.Value = badBytes()
			f = typedFilter("thrift", a)
		case 4:
			m := g.hcm(nil, "t1", 0)
			if chance(r, 40) {
				m = g.hcm(g.table("inline"), "", 0)
			}
			a := bucketFilter(1, 1, chance(r, 50)).GetTypedConfig()
			a.Value = badBytes()
			i := r.Intn(len(m.HttpFilters) + 1)
			m.HttpFilters = append(m.HttpFilters[:i:i], append([]*v3hcm.HttpFilter{typedHTTPFilter("rl", a)}, m.HttpFilters[i:]...)...)
			f = typedFilter("hcm", mustAny(m))
		}
		i := r.Intn(len(fs) + 1)
		return mustAny(g.listenerOf("l1", append(fs[:i:i], append([]*v3listener.Filter{f}, fs[i:]...)...)))
	}
	a := mustAny(g.seedMsg(t))
	a.Value = badBytes()
	return a
}

// hostileAny makes one resource of a response of type t.
func (g *gen) hostileAny(t RT) (*anypb.Any, string) {
	r := g.r
	switch x := r.Intn(100); {
	case x < 22:
		return mustAny(g.seedMsg(t)), "valid"
	case x < 45:
		m := g.seedMsg(t)
		mutate(r, m, 1+r.Intn(6))
		return mustAny(m), "mutated message"
	case x < 60:
		a := mustAny(g.seedMsg(t))
		a.Value = mutateBytes(r, a.Value)
		return a, "mutated bytes"
	case x < 68:
		if a := g.spoil(t); a != nil {
			return a, "spoiled"
		}
	case x < 73:
		a := mustAny(g.seedMsg(t))
		u := a.TypeUrl
		a.TypeUrl = pick(r, []string{"", strings.TrimPrefix(u, "type.googleapis.com/"), u + " ", strings.ToUpper(u), strings.Replace(u, "v3", "v2", 1), urlOf[pick(r, allTypes)], "type.googleapis.com/google.protobuf.Any"})
		return a, "type URL"
	case x < 77:
		return &anypb.Any{TypeUrl: urlOf[t], Value: mustAny(g.seedMsg(pick(r, allTypes))).Value}, "other message"
	case x < 83:
		return &anypb.Any{TypeUrl: urlOf[t], Value: wire(r, 5)}, "wire"
	case x < 86:
		b := make([]byte, r.Intn(60))
		r.Read(b)
		return &anypb.Any{TypeUrl: urlOf[t], Value: b}, "random"
	case x < 90:
		// two messages one behind the other are merged
		a := mustAny(g.seedMsg(t))
		a.Value = append(a.Value, mustAny(g.seedMsg(t)).Value...)
		return a, "merged"
	case x < 93:
		// unknown fields
		a := mustAny(g.seedMsg(t))
		a.Value = append(a.Value, binary.AppendUvarint(binary.AppendUvarint(nil, 15001<<3), r.Uint64())...)
		return a, "unknown fields"
	case x < 95:
		return &anypb.Any{TypeUrl: urlOf[t], Value: nested(1+r.Intn(8), pick(r, []int{1, 2, 3, 10, 100, 9999, 10001, 20000}))}, "nested"
	case x < 97 && t == L:
		// a deep struct instead of a bucket
		v := structpb.NewNumberValue(1)
		for i, n := 0, pick(r, []int{1, 10, 200}); i < n; i++ {
			v = structpb.NewStructValue(&structpb.Struct{Fields: map[string]*structpb.Value{pick(r, []string{"token_bucket", "max_tokens", "tokens_per_fill", "value"}): v}})
		}
		s := v.GetStructValue()
		m := g.hcm(nil, "t1", 0)
		m.HttpFilters = append(m.HttpFilters, typedHTTPFilter("s", mustAny(&udpatypev1.TypedStruct{Value: s})))
		return mustAny(g.listenerOf("l1", []*v3listener.Filter{typedFilter("h", mustAny(m))})), "struct"
	case x < 98:
		return &anypb.Any{TypeUrl: urlOf[t]}, "empty"
	}
	a := mustAny(g.seedMsg(t))
	if len(a.Value) > 0 {
		a.Value = a.Value[:r.Intn(len(a.Value))]
	}
	return a, "truncated"
}

func (g *gen) hostileResponse(t RT) (as []*anypb.Any, kinds string) {
	r := g.r
	n := pick(r, []int{0, 1, 1, 1, 1, 2, 3, 5})
	calm := chance(r, 30) // one hostile resource among good ones
	at := r.Intn(n + 1)
	if chance(r, 50) {
		as = []*anypb.Any{}
	}
	for i := 0; i < n; i++ {
		a, k := mustAny(g.seedMsg(t)), "valid"
		if !calm || i == at {
			a, k = g.hostileAny(t)
		}
		as = append(as, a)
		kinds += k + ","
	}
	return
}

// totalDecode decodes and reports a panic.
func (c *Case) totalDecode(t RT, as []*anypb.Any) (ok bool, err error) {
	defer func() {
		if p := recover(); p != nil {
			st := string(debug.Stack())
			c.Logf("%s", st)
			c.Violate("C13", "panic", "the decoder of %s panicked: %v\n%s", tname[t], p, trimStack(st))
		}
	}()
	_, err = decodeAny(t, as)
	return true, err
}

func dumpAnys(as []*anypb.Any) string {
	var sb strings.Builder
	for _, a := range as {
		v := a.Value
		if len(v) > 2000 {
			v = v[:2000]
		}
		fmt.Fprintf(&sb, "%s %x\n", a.TypeUrl, v)
	}
	return sb.String()
}

func hostileDecodeCases(r *Run, n int) {
	for i := 0; i < n; i++ {
		r.Case("decode", i, func(c *Case) {
			g := &gen{r: c.Rng, unsupported: chance(c.Rng, 50)}
			for j := 0; j < 8; j++ {
				t := pick(c.Rng, allTypes)
				as, kinds := g.hostileResponse(t)
				x := readResponse(t, as)
				ok, err := c.totalDecode(t, as)
				if !ok {
					c.Logf("%s", dumpAnys(as))
					continue
				}
				r.Count(fmt.Sprintf("decode.%s.%s", tname[t], x.v), 1)
				for _, k := range strings.Split(strings.TrimSuffix(kinds, ","), ",") {
					r.Count("resource."+k, 1)
				}
				switch {
				case x.v == vBad && err == nil:
					c.Logf("%s", dumpAnys(as))
					c.Violate("C13", "accepted", "a response of %s (%s) with a fault (%s) is decoded without error", tname[t], kinds, x.why)
				case x.v == vOK && err != nil:
					c.Logf("%s", dumpAnys(as))
					c.Violate("C13", "rejected", "a well-formed response of %s (%s) is reported as an error: %v", tname[t], kinds, err)
				}
				if x.v == vBad {
					r.Count("fault."+x.why, 1)
				}
				if len(as) > 0 {
					r.Distinct("nontrivial", dumpAnys(as))
				}
				r.Sample("%s %s -> %s %s", tname[t], kinds, x.v, x.why)
			}
		})
	}
}

// hostileStreamCases sends hostile responses through the real client and looks whether it is still alive.
func hostileStreamCases(r *Run, n int) {
	for i := 0; i < n; i++ {
		r.Case("stream", i, func(c *Case) {
			c.Bubble(func() {
				g := &gen{r: c.Rng, unsupported: chance(c.Rng, 50)}
				nds := chance(c.Rng, 70)
				w := NewWorld(c, WCfg{NDS: nds, LDS: chance(c.Rng, 50), Timeout: 300 * time.Millisecond, Table: map[string][]string{"svca": {"10.0.0.1"}}})
				defer w.Close()
				for t, ns := range map[RT][]string{L: {"svcA:80", "l1", "", "a:b", "a:b:c", ":", "[::1]:80"}, R: {"t1", "80", ""}, C: {"c1", "c2", ""}, E: {"e1", "c1"}} {
					for _, n := range ns {
						if t != L || chance(c.Rng, 50) {
							w.Peek(t, n)
						}
					}
				}
				w.Peek(L, "good")
				synctest.Wait()
				ts := allTypes
				if !nds {
					ts = allTypes[:4]
				}
				var desc []string
				for j, k := 0, 4+c.Rng.Intn(10); j < k; j++ {
					t := pick(c.Rng, ts)
					as, kinds := g.hostileResponse(t)
					x := readResponse(t, as)
					resp := w.Resp(t, fmt.Sprint("v", j))
					resp.Resources = as
					mark := w.cp.Mark()
					if !w.Push(resp) {
						break
					}
					desc = append(desc, fmt.Sprint(tname[t], kinds, x.v))
					r.Count("stream."+x.v.String(), 1)
					acks := filterEv(sends(w.cp.Since(mark)), func(e Ev) bool { return e.T == t && e.Nonce == resp.Nonce })
					if len(acks) == 0 {
						c.Logf("%s", dumpAnys(as))
						c.Violate("C13", "silent", "a response of %s (%s, %s %s) is neither acknowledged nor rejected", tname[t], kinds, x.v, x.why)
						return
					}
					switch {
					case x.v == vBad && !acks[0].HasErr:
						c.Logf("%s", dumpAnys(as))
						c.Violate("C13", "acked", "a response of %s (%s) with a fault (%s) is acknowledged", tname[t], kinds, x.why)
					case x.v == vOK && acks[0].HasErr:
						c.Logf("%s", dumpAnys(as))
						c.Violate("C13", "nacked", "a well-formed response of %s (%s) is rejected: %s", tname[t], kinds, acks[0].Err)
					}
				}
				// still alive, of every type
				good := map[RT]string{R: "t1", C: "c1", E: "e1", L: "svcA:80"}
				if !nds {
					good[L] = "good"
				} else {
					w.Push(w.Resp(N, "vt", mkTable(map[string][]string{"svca.ns1.svc.cluster.local": {"10.9.9.9"}, "svca": {"10.9.9.9"}})))
				}
				for _, t := range allTypes[:4] {
					n := good[t]
					w.Peek(t, n)
					synctest.Wait()
					wn := n
					if t == L && nds {
						wn = "10.9.9.9_80"
					}
					st := fmt.Sprintf("final%d", t)
					w.Push(w.Resp(t, "vf", mk(t, wn, st)))
					if l := w.Peek(t, n); l.Err != nil || l.Stamp != st {
						c.Violate("C13", "frozen", "after hostile responses %v a good response of %s is not applied: lookup of %q gives stamp %q, error %v", desc, tname[t], n, l.Stamp, l.Err)
					}
				}
				r.Count("streams_alive_after_hostile_responses", 1)
				r.Distinct("nontrivial", strings.Join(desc, ";"))
			})
		})
	}
}

func init() {
	register("C13", func(r *Run) {
		hostileDecodeCases(r, r.N(80000, 2000000))
		hostileStreamCases(r, r.N(3000, 60000))
	})
}
