package harness

import (
	v3route "github.com/envoyproxy/go-control-plane/envoy/config/route/v3"
	"google.golang.org/protobuf/proto"
)

// badRoute is a route configuration with a route without match, or without action.
func badRoute(r intner, name string) proto.Message {
	rt := &v3route.Route{Name: "bad"}
	if chance(r, 50) {
		rt.Match = &v3route.RouteMatch{PathSpecifier: &v3route.RouteMatch_Prefix{Prefix: "/"}}
	} else {
		rt.Action = &v3route.Route_Route{Route: &v3route.RouteAction{ClusterSpecifier: &v3route.RouteAction_Cluster{Cluster: "x"}}}
	}
	return &v3route.RouteConfiguration{Name: name, VirtualHosts: []*v3route.VirtualHost{{Name: "vh", Routes: []*v3route.Route{rt}}}}
}
