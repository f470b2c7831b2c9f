package harness

import (
	"context"

	"github.com/cloudwego/kitex/client"
	"github.com/cloudwego/kitex/pkg/circuitbreak"
	"github.com/cloudwego/kitex/pkg/discovery"
	"github.com/cloudwego/kitex/pkg/endpoint"
	"github.com/cloudwego/kitex/pkg/limit"
	"github.com/cloudwego/kitex/pkg/retry"
	"github.com/cloudwego/kitex/pkg/utils"
	"github.com/cloudwego/kitex/server"

	"github.com/kitex-contrib/xds/xdssuite"
)

// suiteClient is what a Kitex client takes out of the suite.
type suiteClient struct {
	mw   endpoint.Middleware
	rs   discovery.Resolver
	cb   *circuitbreak.CBSuite // only with a service circuit breaker
	imws []endpoint.Middleware
	rc   *retry.Container
}

func newClient(opts ...xdssuite.Option) *suiteClient {
	o := &client.Options{}
	for _, opt := range xdssuite.NewClientSuite(opts...).Options() {
		opt.F(o, &utils.Slice{})
	}
	s := &suiteClient{mw: o.XDSRouterMiddleware, rs: o.Resolver, cb: o.CBSuite, rc: o.RetryContainer}
	for _, b := range o.IMWBs {
		s.imws = append(s.imws, b(context.Background()))
	}
	return s
}

func (s *suiteClient) Close() {
	if s.rc != nil {
		s.rc.Close()
	}
	if s.cb != nil {
		s.cb.Close()
	}
}

// serverLimit is what a Kitex server takes out of the suite.
func serverLimit(opts ...xdssuite.Option) *limit.Option {
	o := &server.Options{}
	for _, opt := range xdssuite.NewServerSuite(opts...).Options() {
		opt.F(o, &utils.Slice{})
	}
	if l := o.Limit.Limits; l != nil && l.UpdateControl == nil {
		l.UpdateControl = func(limit.Updater) {} // nobody will be told
	}
	return o.Limit.Limits
}
