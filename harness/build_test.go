package harness

import (
	"fmt"

	v3cluster "github.com/envoyproxy/go-control-plane/envoy/config/cluster/v3"
	v3core "github.com/envoyproxy/go-control-plane/envoy/config/core/v3"
	v3endpoint "github.com/envoyproxy/go-control-plane/envoy/config/endpoint/v3"
	v3listener "github.com/envoyproxy/go-control-plane/envoy/config/listener/v3"
	v3route "github.com/envoyproxy/go-control-plane/envoy/config/route/v3"
	v3hcm "github.com/envoyproxy/go-control-plane/envoy/extensions/filters/network/http_connection_manager/v3"
	"google.golang.org/protobuf/proto"

	dnsProto "github.com/kitex-contrib/xds/core/api/kitex_gen/istio.io/istio/pkg/dns/proto/istio_networking_nds_v1"
	"github.com/kitex-contrib/xds/core/xdsresource"
)

// Stamped resources: the content of each carries a unique string, so a value read identifies the response that
// supplied it.

func mkListener(name, stamp string) proto.Message {
	return &v3listener.Listener{
		Name: name,
		FilterChains: []*v3listener.FilterChain{{
			Filters: []*v3listener.Filter{{
				Name: "hcm",
				ConfigType: &v3listener.Filter_TypedConfig{TypedConfig: mustAny(&v3hcm.HttpConnectionManager{
					RouteSpecifier: &v3hcm.HttpConnectionManager_Rds{Rds: &v3hcm.Rds{RouteConfigName: stamp}},
				})},
			}},
		}},
	}
}

func mkRoute(name, stamp string) proto.Message {
	return &v3route.RouteConfiguration{
		Name: name,
		VirtualHosts: []*v3route.VirtualHost{{
			Name: "vh",
			Routes: []*v3route.Route{{
				Match: &v3route.RouteMatch{PathSpecifier: &v3route.RouteMatch_Prefix{Prefix: "/"}},
				Action: &v3route.Route_Route{Route: &v3route.RouteAction{
					ClusterSpecifier: &v3route.RouteAction_Cluster{Cluster: stamp},
				}},
			}},
		}},
	}
}

func mkCluster(name, stamp string) proto.Message {
	return &v3cluster.Cluster{
		Name:                 name,
		ClusterDiscoveryType: &v3cluster.Cluster_Type{Type: v3cluster.Cluster_EDS},
		EdsClusterConfig:     &v3cluster.Cluster_EdsClusterConfig{ServiceName: stamp},
	}
}

func mkEndpoint(addr string, port, weight uint32) *v3endpoint.LbEndpoint {
	ep := &v3endpoint.LbEndpoint{
		HostIdentifier: &v3endpoint.LbEndpoint_Endpoint{Endpoint: &v3endpoint.Endpoint{
			Address: &v3core.Address{Address: &v3core.Address_SocketAddress{SocketAddress: &v3core.SocketAddress{
				Address: addr, PortSpecifier: &v3core.SocketAddress_PortValue{PortValue: port},
			}}},
		}},
	}
	if weight > 0 {
		ep.LoadBalancingWeight = u32(weight)
	}
	return ep
}

func mkEndpoints(name, stamp string) proto.Message {
	return &v3endpoint.ClusterLoadAssignment{
		ClusterName: name,
		Endpoints:   []*v3endpoint.LocalityLbEndpoints{{LbEndpoints: []*v3endpoint.LbEndpoint{mkEndpoint(stamp, 1, 1)}}},
	}
}

func mkTable(t map[string][]string) proto.Message {
	nt := &dnsProto.NameTable{Table: map[string]*dnsProto.NameTable_NameInfo{}}
	for h, ips := range t {
		nt.Table[h] = &dnsProto.NameTable_NameInfo{Ips: append([]string(nil), ips...), Registry: "Kubernetes"}
	}
	return nt
}

func mk(t RT, name, stamp string) proto.Message {
	switch t {
	case L:
		return mkListener(name, stamp)
	case R:
		return mkRoute(name, stamp)
	case C:
		return mkCluster(name, stamp)
	case E:
		return mkEndpoints(name, stamp)
	}
	panic(fmt.Sprint("mk: type ", t))
}

// stampOf extracts the stamp of a decoded resource.
func stampOf(v interface{}) string {
	switch r := v.(type) {
	case *xdsresource.ListenerResource:
		if r != nil && len(r.NetworkFilters) > 0 && r.NetworkFilters[0] != nil {
			return r.NetworkFilters[0].RouteConfigName
		}
	case *xdsresource.RouteConfigResource:
		if r != nil && r.HTTPRouteConfig != nil && len(r.HTTPRouteConfig.VirtualHosts) > 0 {
			if vh := r.HTTPRouteConfig.VirtualHosts[0]; len(vh.Routes) > 0 && len(vh.Routes[0].WeightedClusters) > 0 {
				return vh.Routes[0].WeightedClusters[0].Name
			}
		}
	case *xdsresource.ClusterResource:
		if r != nil {
			return r.EndpointName
		}
	case *xdsresource.EndpointsResource:
		if r != nil && len(r.Localities) > 0 && len(r.Localities[0].Endpoints) > 0 {
			a := r.Localities[0].Endpoints[0].Addr().String()
			for i := len(a) - 1; i >= 0; i-- {
				if a[i] == ':' {
					return a[:i]
				}
			}
		}
	}
	return "?"
}
