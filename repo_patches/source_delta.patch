From 1c65cb9d0e442903030a0a4be4ca2a685f38930f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:08 +0000
Subject: [PATCH 01/27] fix: pick weighted clusters proportionally and without
 overflow

The cumulative scan compared with >=, so a leading zero-weight cluster received
traffic and every share was off by one; summing in uint32 and drawing from
int32 overflowed (and panicked) for large weights.
---
 xdssuite/router.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/xdssuite/router.go b/xdssuite/router.go
index e6ccd8f..78f7994 100644
--- a/xdssuite/router.go
+++ b/xdssuite/router.go
@@ -218,16 +218,19 @@ func pickCluster(route *xdsresource.Route) (string, error) {
 	if len(wcs) == 1 {
 		return wcs[0].Name, nil
 	}
-	currWeight := uint32(0)
-	totalWeight := calTotalWeight(wcs)
+	var currWeight, totalWeight uint64
+	for _, wc := range wcs {
+		totalWeight += uint64(wc.Weight)
+	}
 	if totalWeight <= 0 {
 		js, _ := route.MarshalJSON()
 		return "", fmt.Errorf("total weight of route is invalid (<= 0), route: %s", js)
 	}
-	targetWeight := uint32(fastrand.Int31n(int32(totalWeight)))
+	// targetWeight is uniform in [0, totalWeight), so cluster i owns exactly weight_i of the values.
+	targetWeight := uint64(fastrand.Int63n(int64(totalWeight)))
 	for _, wc := range wcs {
-		currWeight += wc.Weight
-		if currWeight >= targetWeight {
+		currWeight += uint64(wc.Weight)
+		if currWeight > targetWeight {
 			return wc.Name, nil
 		}
 	}
-- 
2.43.0


From 181f346694854464832067372859590a49f42030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:09 +0000
Subject: [PATCH 02/27] fix: decode the base interval of a retry back-off from
 base_interval

---
 core/xdsresource/rds.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/xdsresource/rds.go b/core/xdsresource/rds.go
index dd7f71a..0e6c852 100644
--- a/core/xdsresource/rds.go
+++ b/core/xdsresource/rds.go
@@ -214,7 +214,7 @@ func unmarshalRoutes(rs []*v3routepb.Route) ([]*Route, error) {
 				}
 				if backoff := retryPolicy.GetRetryBackOff(); backoff != nil {
 					route.RetryPolicy.RetryBackOff = &RetryBackOff{
-						BaseInterval: backoff.GetMaxInterval().AsDuration(),
+						BaseInterval: backoff.GetBaseInterval().AsDuration(),
 						MaxInterval:  backoff.GetMaxInterval().AsDuration(),
 					}
 				}
-- 
2.43.0


From e697fa8634ebf2d848be08f4a2e530bd2ccb7d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:10 +0000
Subject: [PATCH 03/27] fix: find the local rate-limit filter at any position
 of the HTTP filter chain

---
 core/xdsresource/lds.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/core/xdsresource/lds.go b/core/xdsresource/lds.go
index 0959008..f9b2581 100644
--- a/core/xdsresource/lds.go
+++ b/core/xdsresource/lds.go
@@ -281,7 +281,6 @@ func getLocalRateLimitFromHttpConnectionManager(hcm *v3httppb.HttpConnectionMana
 				return uint32(maxTokens.GetNumberValue()), uint32(tokensPerfill.GetNumberValue()), nil
 			}
 		}
-		return 0, 0, nil
 	}
 	return 0, 0, nil
 }
-- 
2.43.0


From 85d455d21bd93c75c62f5c259945a4b74872b50e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:11 +0000
Subject: [PATCH 04/27] fix: keep every condition set on the same header

Conditions were stored in a map keyed by the header name, so a later condition
on a header replaced the earlier ones and a route matched calls it should not.
---
 core/xdsresource/matcher.go | 34 +++++++++++++++++++++++++++++-----
 1 file changed, 29 insertions(+), 5 deletions(-)

diff --git a/core/xdsresource/matcher.go b/core/xdsresource/matcher.go
index cbd56ef..247a125 100644
--- a/core/xdsresource/matcher.go
+++ b/core/xdsresource/matcher.go
@@ -49,8 +49,32 @@ type Matcher interface {
 	Match(string) bool
 }
 
+// allMatcher requires every matcher to match, used when several conditions are set on the same header.
+type allMatcher []Matcher
+
+func (am allMatcher) Match(other string) bool {
+	for _, m := range am {
+		if !m.Match(other) {
+			return false
+		}
+	}
+	return true
+}
+
 type Matchers map[string]Matcher
 
+// add adds one more condition on the header name.
+func (ms Matchers) add(name string, m Matcher) {
+	switch exist := ms[name].(type) {
+	case nil:
+		ms[name] = m
+	case allMatcher:
+		ms[name] = append(exist, m)
+	default:
+		ms[name] = allMatcher{exist, m}
+	}
+}
+
 func (ms Matchers) Match(other map[string]string) bool {
 	for key, m := range ms {
 		if val, ok := other[key]; !ok || !m.Match(val) {
@@ -62,18 +86,18 @@ func (ms Matchers) Match(other map[string]string) bool {
 
 // BuildMatchers build matcher set from headers
 func BuildMatchers(headers []*v3.HeaderMatcher) Matchers {
-	ms := map[string]Matcher{}
+	ms := Matchers{}
 	for _, header := range headers {
 		switch hm := header.GetHeaderMatchSpecifier().(type) {
 		case *v3.HeaderMatcher_StringMatch:
 			switch p := hm.StringMatch.GetMatchPattern().(type) {
 			case *v3matcher.StringMatcher_Exact:
 				if p.Exact != "" {
-					ms[header.Name] = ExactMatcher(p.Exact)
+					ms.add(header.Name, ExactMatcher(p.Exact))
 				}
 			case *v3matcher.StringMatcher_Prefix:
 				if p.Prefix != "" {
-					ms[header.Name] = PrefixMatcher(p.Prefix)
+					ms.add(header.Name, PrefixMatcher(p.Prefix))
 				}
 			case *v3matcher.StringMatcher_SafeRegex:
 				// only support google re2
@@ -83,9 +107,9 @@ func BuildMatchers(headers []*v3.HeaderMatcher) Matchers {
 						klog.Warnf("KITEX: [XDS] compile regexp %s failed when BuildMatchers,  err:", p.SafeRegex.Regex, err)
 						continue
 					}
-					ms[header.Name] = &RegexMatcher{
+					ms.add(header.Name, &RegexMatcher{
 						re: re2,
-					}
+					})
 				}
 			}
 		}
-- 
2.43.0


From ee71414b4f8e8201ce9a83ed9ffbba88c7a1b853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:12 +0000
Subject: [PATCH 05/27] fix: keep header conditions whose pattern is empty

Such a condition (e.g. exact: "") was dropped, so the route also matched calls
without the header or with another value.
---
 core/xdsresource/matcher.go | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/core/xdsresource/matcher.go b/core/xdsresource/matcher.go
index 247a125..621e032 100644
--- a/core/xdsresource/matcher.go
+++ b/core/xdsresource/matcher.go
@@ -92,16 +92,12 @@ func BuildMatchers(headers []*v3.HeaderMatcher) Matchers {
 		case *v3.HeaderMatcher_StringMatch:
 			switch p := hm.StringMatch.GetMatchPattern().(type) {
 			case *v3matcher.StringMatcher_Exact:
-				if p.Exact != "" {
-					ms.add(header.Name, ExactMatcher(p.Exact))
-				}
+				ms.add(header.Name, ExactMatcher(p.Exact))
 			case *v3matcher.StringMatcher_Prefix:
-				if p.Prefix != "" {
-					ms.add(header.Name, PrefixMatcher(p.Prefix))
-				}
+				ms.add(header.Name, PrefixMatcher(p.Prefix))
 			case *v3matcher.StringMatcher_SafeRegex:
 				// only support google re2
-				if p.SafeRegex != nil && p.SafeRegex.Regex != "" {
+				if p.SafeRegex != nil {
 					re2, err := regexp.Compile(p.SafeRegex.Regex)
 					if err != nil {
 						klog.Warnf("KITEX: [XDS] compile regexp %s failed when BuildMatchers,  err:", p.SafeRegex.Regex, err)
-- 
2.43.0


From 6988e4e82067d52f80f11a4685fe7f6e103f2eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:13 +0000
Subject: [PATCH 06/27] fix: keep the destination port of Thrift filter chains

---
 core/xdsresource/lds.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/xdsresource/lds.go b/core/xdsresource/lds.go
index f9b2581..70175cf 100644
--- a/core/xdsresource/lds.go
+++ b/core/xdsresource/lds.go
@@ -130,6 +130,7 @@ func unmarshalFilterChain(fc *v3listenerpb.FilterChain) ([]*NetworkFilter, error
 				}
 				filters = append(filters, &NetworkFilter{
 					FilterType:        NetworkFilterTypeThrift,
+					RoutePort:         matchPort,
 					InlineRouteConfig: r,
 				})
 			}
-- 
2.43.0


From 3e3419e16b432f6a70bbdbef896a0f59467958b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:14 +0000
Subject: [PATCH 07/27] fix: a Thrift filter must not reset the rate limit of
 its port

---
 xdssuite/limiter.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/xdssuite/limiter.go b/xdssuite/limiter.go
index c0ec63e..463c203 100644
--- a/xdssuite/limiter.go
+++ b/xdssuite/limiter.go
@@ -54,9 +54,14 @@ func getLimiterPolicy(up map[string]xdsresource.Resource) map[uint32]uint32 {
 	}
 	tpfs := make(map[uint32]uint32)
 	for _, lis := range lds.NetworkFilters {
-		if lis.InlineRouteConfig != nil {
-			tpfs[lis.RoutePort] = lis.InlineRouteConfig.TokensPerFill
+		if lis.InlineRouteConfig == nil {
+			continue
 		}
+		// a thrift filter has no token bucket, it must not hide the bucket of the http filter with the same port.
+		if _, ok := tpfs[lis.RoutePort]; ok && lis.FilterType == xdsresource.NetworkFilterTypeThrift {
+			continue
+		}
+		tpfs[lis.RoutePort] = lis.InlineRouteConfig.TokensPerFill
 	}
 	return tpfs
 }
-- 
2.43.0


From 0c2dcb2560431987a94f706bd5f922249dbe8ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:14 +0000
Subject: [PATCH 08/27] fix: an empty load assignment is an empty resource, not
 a nil pointer

---
 core/xdsresource/eds.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/xdsresource/eds.go b/core/xdsresource/eds.go
index 019f5bd..60f7ec4 100644
--- a/core/xdsresource/eds.go
+++ b/core/xdsresource/eds.go
@@ -122,6 +122,10 @@ func UnmarshalEDS(rawResources []*anypb.Any) (map[string]Resource, error) {
 			errMap[cla.ClusterName] = err
 			continue
 		}
+		if endpoints == nil {
+			// no endpoints: keep the resource, a nil pointer is not a value for the lookups.
+			endpoints = &EndpointsResource{}
+		}
 		ret[cla.ClusterName] = endpoints
 	}
 	if len(errMap) == 0 && len(errSlice) == 0 {
-- 
2.43.0


From d6cdfbfa2bd908f43c5b271b1493d12625fdba4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:15 +0000
Subject: [PATCH 09/27] fix: resolving a cluster whose localities are all empty
 is an error

---
 xdssuite/resolver.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/xdssuite/resolver.go b/xdssuite/resolver.go
index 0d73e8f..5e49abc 100644
--- a/xdssuite/resolver.go
+++ b/xdssuite/resolver.go
@@ -96,6 +96,9 @@ func (r *XDSResolver) getEndpoints(ctx context.Context, desc string) ([]*xdsreso
 	for _, locality := range endpoints.Localities {
 		eps = append(eps, locality.Endpoints...)
 	}
+	if len(eps) == 0 {
+		return nil, fmt.Errorf("no endpoints for cluster: %s", desc)
+	}
 	return eps, nil
 }
 
-- 
2.43.0


From e4ff094fbf24af5038e15815e14a3450ee2e9645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:16 +0000
Subject: [PATCH 10/27] fix: decode every resource of a name table response

Only the first one was looked at: the hosts of the others were lost and invalid
ones were acknowledged.
---
 core/xdsresource/nds.go | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/core/xdsresource/nds.go b/core/xdsresource/nds.go
index 008591f..1d2407b 100644
--- a/core/xdsresource/nds.go
+++ b/core/xdsresource/nds.go
@@ -33,17 +33,18 @@ func UnmarshalNDS(rawResources []*anypb.Any) (*NDSResource, error) {
 	if len(rawResources) < 1 {
 		return nil, fmt.Errorf("no NDS resource found in the response")
 	}
-	r := rawResources[0]
-	if r.GetTypeUrl() != NameTableTypeURL {
-		return nil, fmt.Errorf("invalid nameTable resource type: %s", r.GetTypeUrl())
-	}
-	nt := &dnsProto.NameTable{}
-	if err := proto.Unmarshal(r.GetValue(), nt); err != nil {
-		return nil, fmt.Errorf("unmarshal NameTable failed: %s", err)
-	}
 	res := make(map[string][]string)
-	for k, v := range nt.Table {
-		res[k] = v.Ips
+	for _, r := range rawResources {
+		if r.GetTypeUrl() != NameTableTypeURL {
+			return nil, fmt.Errorf("invalid nameTable resource type: %s", r.GetTypeUrl())
+		}
+		nt := &dnsProto.NameTable{}
+		if err := proto.Unmarshal(r.GetValue(), nt); err != nil {
+			return nil, fmt.Errorf("unmarshal NameTable failed: %s", err)
+		}
+		for k, v := range nt.Table {
+			res[k] = v.Ips
+		}
 	}
 
 	return &NDSResource{
-- 
2.43.0


From 28d4d457d0a6630f1d83c299d939fd84bf8d1dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:17 +0000
Subject: [PATCH 11/27] fix: check the destination before reading its tag in
 the router middleware

---
 xdssuite/router.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/xdssuite/router.go b/xdssuite/router.go
index 78f7994..d782dc6 100644
--- a/xdssuite/router.go
+++ b/xdssuite/router.go
@@ -44,15 +44,15 @@ func NewXDSRouterMiddleware(opts ...Option) endpoint.Middleware {
 	return func(next endpoint.Endpoint) endpoint.Endpoint {
 		return func(ctx context.Context, request, response interface{}) error {
 			ri := rpcinfo.GetRPCInfo(ctx)
-			_, exist := ri.To().Tag(RouterClusterKey)
-			if exist {
-				return next(ctx, request, response)
-			}
-
 			dest := ri.To()
 			if dest == nil {
 				return kerrors.ErrNoDestService
 			}
+			_, exist := dest.Tag(RouterClusterKey)
+			if exist {
+				return next(ctx, request, response)
+			}
+
 			res, err := router.Route(ctx, ri)
 			if err != nil {
 				return kerrors.ErrRoute.WithCause(err)
-- 
2.43.0


From c3060398f91515bc73bf3f6fd87d2599395b10a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:18 +0000
Subject: [PATCH 12/27] fix: compare whole addresses when adding the pod IP to
 INSTANCE_IPS

"10.0.0.12" does not contain the pod IP "10.0.0.1".
---
 core/manager/bootstrap.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/core/manager/bootstrap.go b/core/manager/bootstrap.go
index e96fd75..30946e8 100644
--- a/core/manager/bootstrap.go
+++ b/core/manager/bootstrap.go
@@ -117,7 +117,7 @@ func parseMetaEnvs(envs, istioVersion, podIP string) *structpb.Struct {
 		existips := ips.GetStringValue()
 		if existips == "" {
 			existips = podIP
-		} else if !strings.Contains(existips, podIP) {
+		} else if !containsIP(existips, podIP) {
 			existips = existips + "," + podIP
 		}
 		pbmeta.Fields[IstioMetaInstanceIPs] = &structpb.Value{
@@ -127,6 +127,16 @@ func parseMetaEnvs(envs, istioVersion, podIP string) *structpb.Struct {
 	return pbmeta
 }
 
+// containsIP returns if ip is one of the comma separated ips.
+func containsIP(ips, ip string) bool {
+	for _, s := range strings.Split(ips, ",") {
+		if strings.TrimSpace(s) == ip {
+			return true
+		}
+	}
+	return false
+}
+
 func nodeId(podIP, podName, namespace, nodeDomain string) string {
 	//"sidecar~" + podIP + "~" + podName + "." + namespace + "~" + namespace + ".svc." + domain,
 	return fmt.Sprintf("sidecar~%s~%s.%s~%s.svc.%s", podIP, podName, namespace, namespace, nodeDomain)
-- 
2.43.0


From eb09758d39f57086f5db8c68337c4d1913d415d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:19 +0000
Subject: [PATCH 13/27] fix: do not cache a nil listener for a name missing in
 the response

A typed nil was stored for the reserved listener (and for every listener when
NDS is not required), so a lookup succeeded with a placeholder and the router
panicked on it.
---
 core/manager/client.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/core/manager/client.go b/core/manager/client.go
index c338e34..b35746d 100644
--- a/core/manager/client.go
+++ b/core/manager/client.go
@@ -483,7 +483,9 @@ func (c *xdsClient) handleLDS(resp *discoveryv3.DiscoveryResponse) error {
 				filteredRes[n] = lis
 			}
 		} else {
-			filteredRes[n] = res[n]
+			if lis, ok := res[n]; ok {
+				filteredRes[n] = lis
+			}
 		}
 	}
 	c.mu.RUnlock()
-- 
2.43.0


From ab755db01d9570e57ee39d1f2ff598da0b5dec9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:20 +0000
Subject: [PATCH 14/27] fix: ignore the case of the name table hosts and of the
 expansion suffix

Only the looked up host was lower-cased, so a name table entry or a namespace or
domain with upper-case letters could never be found.
---
 core/manager/client.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/core/manager/client.go b/core/manager/client.go
index b35746d..49d7d1d 100644
--- a/core/manager/client.go
+++ b/core/manager/client.go
@@ -88,14 +88,19 @@ func (r *ndsResolver) lookupHost(host string) ([]string, bool) {
 }
 
 // updateResource updates the lookup table based on the NDS response.
+// Hosts are compared in a case-insensitive manner.
 func (r *ndsResolver) updateLookupTable(up map[string][]string) {
+	table := make(map[string][]string, len(up))
+	for host, ips := range up {
+		table[strings.ToLower(host)] = ips
+	}
 	r.mu.Lock()
 	defer r.mu.Unlock()
 	if !r.closed {
 		close(r.initRequestCh)
 		r.closed = true
 	}
-	r.lookupTable = up
+	r.lookupTable = table
 }
 
 // xdsClient communicates with the control plane to perform xds resource discovery.
@@ -420,7 +425,7 @@ func (c *xdsClient) resolveAddr(host string) string {
 	// 4. service with more than 4 parts, such as dubbo interface org.cloudwego.kitex.samples.api.greetprovider, invoke twice always.
 	// FIXME: format as <serviceName>.<namespace> is not supported.
 	// TODO: if it leads to performance issue, use cache to improve it.
-	fqdn := c.config.tryExpandFQDN(host)
+	fqdn := strings.ToLower(c.config.tryExpandFQDN(host))
 	cip, ok := c.cipResolver.lookupHost(fqdn)
 	if ok && len(cip) > 0 {
 		return cip[0]
-- 
2.43.0


From 0470867dbadb86977ac607a8bcc75370a11292c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:31 +0000
Subject: [PATCH 15/27] fix: do not lose a rate limit update racing with the
 installation of the updater

An update between UpdateLimit and the store of the updater was never pushed to
the running server, and opt was read and written without synchronisation.
---
 xdssuite/limiter.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/xdssuite/limiter.go b/xdssuite/limiter.go
index 463c203..86c5db5 100644
--- a/xdssuite/limiter.go
+++ b/xdssuite/limiter.go
@@ -18,6 +18,7 @@ package xdssuite
 
 import (
 	"math"
+	"sync"
 	"sync/atomic"
 
 	"github.com/cloudwego/kitex/pkg/klog"
@@ -67,6 +68,7 @@ func getLimiterPolicy(up map[string]xdsresource.Resource) map[uint32]uint32 {
 }
 
 type limiter struct {
+	mu      sync.Mutex // guards opt and the installation of the updater
 	updater atomic.Value
 	opt     *limit.Option
 	port    uint32
@@ -76,6 +78,8 @@ func (l *limiter) updateHandler(changed *limit.Option) {
 	if changed == nil {
 		return
 	}
+	l.mu.Lock()
+	defer l.mu.Unlock()
 	l.opt.MaxConnections = changed.MaxConnections
 	l.opt.MaxQPS = changed.MaxQPS
 	u := l.updater.Load()
@@ -121,6 +125,8 @@ func NewLimiter(opts ...Option) server.Option {
 	}
 
 	l.opt.UpdateControl = func(u limit.Updater) {
+		l.mu.Lock()
+		defer l.mu.Unlock()
 		u.UpdateLimit(l.opt)
 		l.updater.Store(u)
 	}
-- 
2.43.0


From 05e88869cf6a4e283601f7c5d86c8385338cb4f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:32 +0000
Subject: [PATCH 16/27] fix: pass all the resources in force to the update
 handlers

RDS and EDS responses may only include part of the resources: the retry policies
of the omitted route tables were deleted although these are still cached.
---
 core/manager/manager.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/core/manager/manager.go b/core/manager/manager.go
index 5581bba..0590763 100644
--- a/core/manager/manager.go
+++ b/core/manager/manager.go
@@ -278,8 +278,19 @@ func (m *xdsResourceManager) UpdateResource(rt xdsresource.ResourceType, up map[
 	// should update xds updater first, as it may affect the traffic when the
 	// policy is updated at the first time.
 	if handlers, ok := m.xdsHandlers[rt]; ok {
+		current := up
+		if !rt.RequireFullADSResponse() {
+			// the update may only include part of the resources, the omitted ones are still in force.
+			current = make(map[string]xdsresource.Resource, len(m.cache[rt])+len(up))
+			for name, res := range m.cache[rt] {
+				current[name] = res
+			}
+			for name, res := range up {
+				current[name] = res
+			}
+		}
 		for _, handler := range handlers {
-			handler(up)
+			handler(current)
 		}
 	}
 
-- 
2.43.0


From 8f93dcc352d7d4faf204e1bd0f5a9ac447d22931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:33 +0000
Subject: [PATCH 17/27] fix: expire cached resources that are never looked up

Their access time was unset and the cleaner skipped them for ever.
---
 core/manager/manager.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/core/manager/manager.go b/core/manager/manager.go
index 0590763..d74b26d 100644
--- a/core/manager/manager.go
+++ b/core/manager/manager.go
@@ -259,11 +259,14 @@ func (m *xdsResourceManager) updateMeta(rType xdsresource.ResourceType, version
 			mt.Version = version
 			mt.UpdateTime = updateTime
 		} else {
-			m.meta[rType][name] = &xdsresource.ResourceMeta{
+			mt := &xdsresource.ResourceMeta{
 				Version:        version,
 				UpdateTime:     updateTime,
 				LastAccessTime: atomic.Value{},
 			}
+			// the resource expires even if it is never looked up.
+			mt.LastAccessTime.Store(updateTime)
+			m.meta[rType][name] = mt
 		}
 	}
 }
-- 
2.43.0


From 1f06586baa967979eccdd9008d3bfcbcaab187fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:35 +0000
Subject: [PATCH 18/27] fix: do not lose the wake-up of a lookup nor return an
 empty success

- an update landing between the cache miss and the registration of the notifier
  was never notified: look at the cache again under the lock
- a lookup that timed out removed the notifier the other lookups of the same
  name were still waiting on: remove it with the last waiter only
- a lookup woken up after its deadline fired too could report a timeout
- a resource removed again before the woken lookup read the cache yielded
  (nil, nil): return the delivered resource
---
 core/manager/manager.go | 54 ++++++++++++++++++++++++++++++-----------
 1 file changed, 40 insertions(+), 14 deletions(-)

diff --git a/core/manager/manager.go b/core/manager/manager.go
index d74b26d..4810b97 100644
--- a/core/manager/manager.go
+++ b/core/manager/manager.go
@@ -55,8 +55,10 @@ type xdsResourceManager struct {
 
 // notifier is used to notify the resource update along with error
 type notifier struct {
-	ch  chan struct{}
-	err error
+	ch      chan struct{}
+	err     error
+	res     xdsresource.Resource // the resource delivered, set before ch is closed
+	waiters int                  // the number of lookups waiting, guarded by the lock of the manager
 }
 
 func (n *notifier) notify(err error) {
@@ -109,6 +111,11 @@ func initXDSClient(bootstrapConfig *BootstrapConfig, m *xdsResourceManager) (*xd
 func (m *xdsResourceManager) getFromCache(rType xdsresource.ResourceType, rName string) (interface{}, bool) {
 	m.mu.RLock()
 	defer m.mu.RUnlock()
+	return m.getFromCacheLocked(rType, rName)
+}
+
+// getFromCacheLocked is getFromCache for the callers that already hold the lock.
+func (m *xdsResourceManager) getFromCacheLocked(rType xdsresource.ResourceType, rName string) (interface{}, bool) {
 	if ms, ok1 := m.meta[rType]; ok1 {
 		if mt, ok2 := ms[rName]; ok2 {
 			mt.LastAccessTime.Store(time.Now())
@@ -151,6 +158,11 @@ func (m *xdsResourceManager) Get(ctx context.Context, rType xdsresource.Resource
 
 	// Fetch resource via client and wait for the update
 	m.mu.Lock()
+	// the resource may have been delivered since the cache miss, its notification would never come.
+	if res, ok = m.getFromCacheLocked(rType, rName); ok {
+		m.mu.Unlock()
+		return res, nil
+	}
 	// Setup channel for this resource
 	if _, ok := m.notifierMap[rType]; !ok {
 		m.notifierMap[rType] = make(map[string]*notifier)
@@ -162,6 +174,7 @@ func (m *xdsResourceManager) Get(ctx context.Context, rType xdsresource.Resource
 		// only send one request for this resource
 		m.client.Watch(rType, rName, false)
 	}
+	nf.waiters++
 	m.mu.Unlock()
 	// Set fetch timeout
 	ctx, cancel := context.WithTimeout(ctx, m.opts.XDSSvrConfig.GetFetchXDSTimeout())
@@ -169,21 +182,33 @@ func (m *xdsResourceManager) Get(ctx context.Context, rType xdsresource.Resource
 
 	select {
 	case <-nf.ch:
-		// error in the notifier
-		if nf.err != nil {
-			return nil, fmt.Errorf("[XDS] manager, fetch %s resource[%s] failed, error=%s",
-				xdsresource.ResourceTypeToName[rType], rName, nf.err.Error())
-		}
-		res, _ = m.getFromCache(rType, rName)
-		return res, nil
 	case <-ctx.Done():
-		// remove the notifier if timeout.
 		m.mu.Lock()
-		delete(m.notifierMap[rType], rName)
-		m.mu.Unlock()
-		return nil, fmt.Errorf("[XDS] manager, fetch %s resource[%s] timeout",
-			xdsresource.ResourceTypeToName[rType], rName)
+		select {
+		case <-nf.ch:
+			// delivered before the timeout was handled.
+			m.mu.Unlock()
+		default:
+			// remove the notifier when nobody waits on it any more, the other lookups still need it.
+			nf.waiters--
+			if nf.waiters == 0 {
+				delete(m.notifierMap[rType], rName)
+			}
+			m.mu.Unlock()
+			return nil, fmt.Errorf("[XDS] manager, fetch %s resource[%s] timeout",
+				xdsresource.ResourceTypeToName[rType], rName)
+		}
+	}
+	// error in the notifier
+	if nf.err != nil {
+		return nil, fmt.Errorf("[XDS] manager, fetch %s resource[%s] failed, error=%s",
+			xdsresource.ResourceTypeToName[rType], rName, nf.err.Error())
+	}
+	if res, ok = m.getFromCache(rType, rName); !ok {
+		// already removed again, return what was delivered.
+		res = nf.res
 	}
+	return res, nil
 }
 
 // cleaner cleans the expired cache periodically
@@ -306,6 +331,7 @@ func (m *xdsResourceManager) UpdateResource(rt xdsresource.ResourceType, up map[
 			continue
 		}
 		if nf, exist := m.notifierMap[rt][name]; exist {
+			nf.res = res
 			nf.notify(nil)
 			delete(m.notifierMap[rt], name)
 		}
-- 
2.43.0


From 9ef517acc756bcf918c0e45c57dd97eb09f56a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:36 +0000
Subject: [PATCH 19/27] fix: do not unsubscribe a name a lookup is waiting for

With a fetch timeout longer than the expiry period the cleaner withdrew a name
that had been dropped by the control plane while a lookup waited for its return.
---
 core/manager/manager.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/manager/manager.go b/core/manager/manager.go
index 4810b97..105bf98 100644
--- a/core/manager/manager.go
+++ b/core/manager/manager.go
@@ -227,6 +227,10 @@ func (m *xdsResourceManager) cleaner() {
 					if !ok {
 						continue
 					}
+					// a lookup is waiting for it
+					if _, waiting := m.notifierMap[rt][rName]; waiting {
+						continue
+					}
 					// should not delete the reserved resource
 					if !isReservedResource(rt, rName) && time.Since(t) > defaultCacheExpireTime {
 						delete(m.meta[rt], rName)
-- 
2.43.0


From 834497237937fccc1ea4f6b9d3ce051b52b034ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:29 +0000
Subject: [PATCH 20/27] fix: never block on the request queue, never send stale
 requests on a new stream

- with the queue full (sender stuck in Send, or gone after an authentication
  rejection, Close or a failed initial connection) a lookup blocked for ever
  while holding the locks of the client and the manager, and so did every other
  lookup, the receiver and the cleaner
- the resubscription after a reconnect was sent with the lock held
- requests queued between the reset of the nonces and the switch of the sender
  were sent after the resubscription although they list fewer names
---
 core/manager/client.go | 68 ++++++++++++++++++++++++++++++++++++------
 1 file changed, 59 insertions(+), 9 deletions(-)

diff --git a/core/manager/client.go b/core/manager/client.go
index 49d7d1d..bdfa756 100644
--- a/core/manager/client.go
+++ b/core/manager/client.go
@@ -18,6 +18,7 @@ package manager
 
 import (
 	"context"
+	"errors"
 	"fmt"
 	"runtime/debug"
 	"strings"
@@ -125,9 +126,11 @@ type xdsClient struct {
 	nonceMap map[xdsresource.ResourceType]string
 
 	// adsClient is a kitex client using grpc protocol that can communicate with xds server.
-	adsClient      ADSClient
-	streamCh       chan ADSStream
-	reqCh          chan *discoveryv3.DiscoveryRequest
+	adsClient ADSClient
+	streamCh  chan ADSStream
+	reqCh     chan *discoveryv3.DiscoveryRequest
+	// pendingReqs queues the requests that do not fit in reqCh, guarded by mu.
+	pendingReqs    []*discoveryv3.DiscoveryRequest
 	connectBackoff backoff.BackOff
 
 	// resourceUpdater is used to update the resource update to the cache.
@@ -239,6 +242,7 @@ func (c *xdsClient) sender(as ADSStream) {
 				continue
 			}
 		case req := <-c.reqCh:
+			c.refillRequestCh()
 			if currStream != nil {
 				err := currStream.Send(req)
 				if err != nil {
@@ -335,6 +339,8 @@ func (c *xdsClient) run() {
 	as, err := c.connect()
 	if err != nil {
 		klog.Errorf("[XDS] client, failed to connect the xDS Server, error=%s", err.Error())
+		// no sender and receiver
+		c.close()
 		return
 	}
 
@@ -384,11 +390,15 @@ func (c *xdsClient) reconnect() (ADSStream, error) {
 	// reset nonce map and request
 	c.mu.Lock()
 	c.nonceMap = make(map[xdsresource.ResourceType]string)
-	clearRequestCh(c.reqCh, len(c.reqCh))
+	c.clearRequests()
 	c.mu.Unlock()
 
 	// notify others to use the new stream
-	c.streamCh <- as
+	select {
+	case c.streamCh <- as:
+	case <-c.closeCh:
+		return nil, errors.New("the client is closed")
+	}
 	return as, nil
 }
 
@@ -396,9 +406,15 @@ func (c *xdsClient) reconnect() (ADSStream, error) {
 func (c *xdsClient) reqWhenReconnect(as ADSStream) error {
 	// send new requests for all watched resources when reqWhenReconnect
 	c.mu.Lock()
-	defer c.mu.Unlock()
+	// the requests queued before are all covered by the following ones.
+	c.clearRequests()
+	reqs := make([]*discoveryv3.DiscoveryRequest, 0, len(c.watchedResource))
 	for rType, res := range c.watchedResource {
-		req := c.prepareRequest(rType, c.versionMap[rType], c.nonceMap[rType], res)
+		reqs = append(reqs, c.prepareRequest(rType, c.versionMap[rType], c.nonceMap[rType], res))
+	}
+	c.mu.Unlock()
+	// do not hold the lock when sending, it may block.
+	for _, req := range reqs {
 		if err := as.Send(req); err != nil {
 			// return err if send failed
 			return err
@@ -407,9 +423,43 @@ func (c *xdsClient) reqWhenReconnect(as ADSStream) error {
 	return nil
 }
 
+// sendRequest queues the req for the sender. It is invoked with mu (and often the lock of the manager) held,
+// so it must not block when the sender is slow or gone.
 func (c *xdsClient) sendRequest(req *discoveryv3.DiscoveryRequest) {
-	// put the req to the channel
-	c.reqCh <- req
+	select {
+	case <-c.closeCh:
+		// the sender is stopped
+		return
+	default:
+	}
+	if len(c.pendingReqs) == 0 {
+		select {
+		case c.reqCh <- req:
+			return
+		default:
+		}
+	}
+	c.pendingReqs = append(c.pendingReqs, req)
+}
+
+// refillRequestCh moves the pending requests to the channel as long as there is room.
+func (c *xdsClient) refillRequestCh() {
+	c.mu.Lock()
+	defer c.mu.Unlock()
+	for len(c.pendingReqs) > 0 {
+		select {
+		case c.reqCh <- c.pendingReqs[0]:
+			c.pendingReqs = c.pendingReqs[1:]
+		default:
+			return
+		}
+	}
+}
+
+// clearRequests drops all the queued requests, mu must be held.
+func (c *xdsClient) clearRequests() {
+	clearRequestCh(c.reqCh, len(c.reqCh))
+	c.pendingReqs = nil
 }
 
 func (c *xdsClient) resolveAddr(host string) string {
-- 
2.43.0


From 7ec236fef011f0e4aaf96e9559a4c3e7eb345c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:29 +0000
Subject: [PATCH 21/27] fix: do not hang in the warm-up when the client is
 stopped

An authentication rejection during the start-up blocked the initialization for ever.
---
 core/manager/client.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/core/manager/client.go b/core/manager/client.go
index bdfa756..17e799c 100644
--- a/core/manager/client.go
+++ b/core/manager/client.go
@@ -310,14 +310,22 @@ func (c *xdsClient) ldsRequired() bool {
 func (c *xdsClient) ndsWarmup() {
 	// watch the NameTable when init the xds client
 	c.Watch(xdsresource.NameTableType, "", false)
-	<-c.cipResolver.initRequestCh
+	select {
+	case <-c.cipResolver.initRequestCh:
+	case <-c.closeCh:
+		return
+	}
 	klog.Infof("KITEX: [XDS] nds, warmup done")
 }
 
 func (c *xdsClient) listenerWarmup() {
 	// watch the Listener when init the xds client, it is used for inbound side.
 	c.Watch(xdsresource.ListenerType, xdsresource.ReservedLdsResourceName, false)
-	<-c.inboundInitRequestCh
+	select {
+	case <-c.inboundInitRequestCh:
+	case <-c.closeCh:
+		return
+	}
 	klog.Infof("KITEX: [XDS] lds, warmup done")
 }
 
-- 
2.43.0


From d3dfe116f76f081641e60179e3370df29505980d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:30 +0000
Subject: [PATCH 22/27] fix: an authentication rejection of a new stream stops
 the client too

---
 core/manager/client.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/core/manager/client.go b/core/manager/client.go
index 17e799c..747154b 100644
--- a/core/manager/client.go
+++ b/core/manager/client.go
@@ -283,8 +283,12 @@ func (c *xdsClient) receiver(as ADSStream) {
 					c.close()
 					return
 				}
-				if s, e := c.reconnect(); e == nil {
+				s, e := c.reconnect()
+				if e == nil {
 					currStream = s
+				} else if auth.IsAuthError(e) {
+					c.close()
+					return
 				}
 				continue
 			}
@@ -373,6 +377,9 @@ func (c *xdsClient) connect() (as ADSStream, err error) {
 	err = backoff.Retry(func() error {
 		stream, retryErr := c.adsClient.StreamAggregatedResources(context.Background())
 		if retryErr != nil {
+			if auth.IsAuthError(retryErr) {
+				return backoff.Permanent(retryErr)
+			}
 			return retryErr
 		}
 		as = stream
-- 
2.43.0


From c385eb435d95c34f72a48f892f9c831dbd1bc77a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:31 +0000
Subject: [PATCH 23/27] fix: close the client only once

Close racing with an authentication rejection could close the channel twice and panic.
---
 core/manager/client.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/core/manager/client.go b/core/manager/client.go
index 747154b..42f69e7 100644
--- a/core/manager/client.go
+++ b/core/manager/client.go
@@ -137,7 +137,8 @@ type xdsClient struct {
 	resourceUpdater *xdsResourceManager
 
 	// channel for stop
-	closeCh chan struct{}
+	closeCh   chan struct{}
+	closeOnce sync.Once
 	// indicates ready for listener
 	inboundInitRequestCh chan struct{}
 	closedInboundInitCh  atomic.Bool
@@ -364,11 +365,9 @@ func (c *xdsClient) run() {
 
 // close the xdsClient
 func (c *xdsClient) close() {
-	select {
-	case <-c.closeCh:
-	default:
+	c.closeOnce.Do(func() {
 		close(c.closeCh)
-	}
+	})
 }
 
 // connect construct a new stream that connects to the xds server
-- 
2.43.0


From 37ca86e55797fd3b4b0f6d851552f16850fb8220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:32 +0000
Subject: [PATCH 24/27] fix: filter a response and update the cache in one step

A resource evicted between the two was cached again without being subscribed:
it was never updated any more, and served stale for as long as it was used.
---
 core/manager/client.go  | 75 ++++++++++++++++++++---------------------
 core/manager/manager.go | 11 ++++++
 2 files changed, 48 insertions(+), 38 deletions(-)

diff --git a/core/manager/client.go b/core/manager/client.go
index 42f69e7..615d7e6 100644
--- a/core/manager/client.go
+++ b/core/manager/client.go
@@ -539,7 +539,21 @@ func (c *xdsClient) handleLDS(resp *discoveryv3.DiscoveryResponse) error {
 	// returned listener name is in the format of ${clusterIP}_${port}
 	// which should be converted into to the listener name, in the form of ${fqdn}_${port}, watched by the xds client.
 	// we need to filter the response.
+	c.resourceUpdater.updateSubscribed(xdsresource.ListenerType, func() map[string]xdsresource.Resource {
+		return c.filterListeners(res)
+	}, resp.GetVersionInfo())
+
+	if c.closedInboundInitCh.CompareAndSwap(false, true) {
+		klog.Info("KITEX: [xds] receive inbound init request")
+		close(c.inboundInitRequestCh)
+	}
+	return nil
+}
+
+// filterListeners returns the listeners in res bound to the subscribed names.
+func (c *xdsClient) filterListeners(res map[string]*xdsresource.ListenerResource) map[string]xdsresource.Resource {
 	c.mu.RLock()
+	defer c.mu.RUnlock()
 	filteredRes := make(map[string]xdsresource.Resource)
 	for n := range c.watchedResource[xdsresource.ListenerType] {
 		if c.ndsRequired() && n != xdsresource.ReservedLdsResourceName {
@@ -557,15 +571,19 @@ func (c *xdsClient) handleLDS(resp *discoveryv3.DiscoveryResponse) error {
 			}
 		}
 	}
-	c.mu.RUnlock()
-	// update to cache
-	c.resourceUpdater.UpdateResource(xdsresource.ListenerType, filteredRes, resp.GetVersionInfo())
+	return filteredRes
+}
 
-	if c.closedInboundInitCh.CompareAndSwap(false, true) {
-		klog.Info("KITEX: [xds] receive inbound init request")
-		close(c.inboundInitRequestCh)
+// filterSubscribed removes the resources that are not in the watched list.
+func (c *xdsClient) filterSubscribed(rType xdsresource.ResourceType, res map[string]xdsresource.Resource) map[string]xdsresource.Resource {
+	c.mu.RLock()
+	defer c.mu.RUnlock()
+	for name := range res {
+		if _, ok := c.watchedResource[rType][name]; !ok {
+			delete(res, name)
+		}
 	}
-	return nil
+	return res
 }
 
 // handleRDS handles the rds response
@@ -576,17 +594,10 @@ func (c *xdsClient) handleRDS(resp *discoveryv3.DiscoveryResponse) error {
 		return err
 	}
 
-	// filter the resources that are not in the watched list
-	c.mu.RLock()
-	for name := range res {
-		// only accept the routeConfig that is subscribed
-		if _, ok := c.watchedResource[xdsresource.RouteConfigType][name]; !ok {
-			delete(res, name)
-		}
-	}
-	c.mu.RUnlock()
-	// update to cache
-	c.resourceUpdater.UpdateResource(xdsresource.RouteConfigType, res, resp.GetVersionInfo())
+	// filter the resources that are not in the watched list and update to cache
+	c.resourceUpdater.updateSubscribed(xdsresource.RouteConfigType, func() map[string]xdsresource.Resource {
+		return c.filterSubscribed(xdsresource.RouteConfigType, res)
+	}, resp.GetVersionInfo())
 	return nil
 }
 
@@ -598,16 +609,10 @@ func (c *xdsClient) handleCDS(resp *discoveryv3.DiscoveryResponse) error {
 		return fmt.Errorf("handle cluster failed: %s", err)
 	}
 
-	// filter the resources that are not in the watched list
-	c.mu.RLock()
-	for name := range res {
-		if _, ok := c.watchedResource[xdsresource.ClusterType][name]; !ok {
-			delete(res, name)
-		}
-	}
-	c.mu.RUnlock()
-	// update to cache
-	c.resourceUpdater.UpdateResource(xdsresource.ClusterType, res, resp.GetVersionInfo())
+	// filter the resources that are not in the watched list and update to cache
+	c.resourceUpdater.updateSubscribed(xdsresource.ClusterType, func() map[string]xdsresource.Resource {
+		return c.filterSubscribed(xdsresource.ClusterType, res)
+	}, resp.GetVersionInfo())
 	return nil
 }
 
@@ -619,16 +624,10 @@ func (c *xdsClient) handleEDS(resp *discoveryv3.DiscoveryResponse) error {
 		return fmt.Errorf("handle endpoint failed: %s", err)
 	}
 
-	// filter the resources that are not in the watched list
-	c.mu.RLock()
-	for name := range res {
-		if _, ok := c.watchedResource[xdsresource.EndpointsType][name]; !ok {
-			delete(res, name)
-		}
-	}
-	c.mu.RUnlock()
-	// update to cache
-	c.resourceUpdater.UpdateResource(xdsresource.EndpointsType, res, resp.GetVersionInfo())
+	// filter the resources that are not in the watched list and update to cache
+	c.resourceUpdater.updateSubscribed(xdsresource.EndpointsType, func() map[string]xdsresource.Resource {
+		return c.filterSubscribed(xdsresource.EndpointsType, res)
+	}, resp.GetVersionInfo())
 	return nil
 }
 
diff --git a/core/manager/manager.go b/core/manager/manager.go
index 105bf98..eb6286b 100644
--- a/core/manager/manager.go
+++ b/core/manager/manager.go
@@ -306,7 +306,18 @@ func (m *xdsResourceManager) updateMeta(rType xdsresource.ResourceType, version
 func (m *xdsResourceManager) UpdateResource(rt xdsresource.ResourceType, up map[string]xdsresource.Resource, version string) {
 	m.mu.Lock()
 	defer m.mu.Unlock()
+	m.updateResourceLocked(rt, up, version)
+}
+
+// updateSubscribed updates the cache with the resources returned by subscribed. It is invoked with the lock held, so
+// no resource can be evicted and unsubscribed between the filtering of the response and the update of the cache.
+func (m *xdsResourceManager) updateSubscribed(rt xdsresource.ResourceType, subscribed func() map[string]xdsresource.Resource, version string) {
+	m.mu.Lock()
+	defer m.mu.Unlock()
+	m.updateResourceLocked(rt, subscribed(), version)
+}
 
+func (m *xdsResourceManager) updateResourceLocked(rt xdsresource.ResourceType, up map[string]xdsresource.Resource, version string) {
 	// should update xds updater first, as it may affect the traffic when the
 	// policy is updated at the first time.
 	if handlers, ok := m.xdsHandlers[rt]; ok {
-- 
2.43.0


From 811df7a70ce1fa886a8c02f2617d7b947e7b6597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:33 +0000
Subject: [PATCH 25/27] fix: bind the listeners again when the name table
 changes

A lookup of host[:port] was served by the listener of the address the host had
when the last LDS response arrived: hosts that moved kept the listener of their
old address, removed hosts stayed bound and added ones were not until the next
LDS response (Istiod pushes LDS before NDS).
---
 core/manager/client.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/core/manager/client.go b/core/manager/client.go
index 615d7e6..6a15e73 100644
--- a/core/manager/client.go
+++ b/core/manager/client.go
@@ -120,6 +120,11 @@ type xdsClient struct {
 	// "kitex-server.default.svc.cluster.local" -> "10.0.0.1"
 	cipResolver *ndsResolver
 
+	// listeners are the listeners of the last accepted response (only used by the receiver),
+	// they are bound to the subscribed names through the name table.
+	listeners        map[string]*xdsresource.ListenerResource
+	listenersVersion string
+
 	// versionMap stores the versions of different resource type.
 	versionMap map[xdsresource.ResourceType]string
 	// nonceMap stores the nonce of the recent response.
@@ -539,6 +544,7 @@ func (c *xdsClient) handleLDS(resp *discoveryv3.DiscoveryResponse) error {
 	// returned listener name is in the format of ${clusterIP}_${port}
 	// which should be converted into to the listener name, in the form of ${fqdn}_${port}, watched by the xds client.
 	// we need to filter the response.
+	c.listeners, c.listenersVersion = res, resp.GetVersionInfo()
 	c.resourceUpdater.updateSubscribed(xdsresource.ListenerType, func() map[string]xdsresource.Resource {
 		return c.filterListeners(res)
 	}, resp.GetVersionInfo())
@@ -638,6 +644,12 @@ func (c *xdsClient) handleNDS(resp *discoveryv3.DiscoveryResponse) error {
 		return err
 	}
 	c.cipResolver.updateLookupTable(nt.NameTable)
+	if c.listeners != nil {
+		// bind the subscribed names to the listeners again with the new table.
+		c.resourceUpdater.updateSubscribed(xdsresource.ListenerType, func() map[string]xdsresource.Resource {
+			return c.filterListeners(c.listeners)
+		}, c.listenersVersion)
+	}
 	return err
 }
 
-- 
2.43.0


From 2d7043c31a15d86a6861713ede25b56e20855144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:46 +0000
Subject: [PATCH 26/27] verif: hooks to inject an in-memory ADS client and to
 control the steps of a lookup

Guarded by the build tag "verif"; no-ops without it.
---
 .../v3/aggregateddiscoveryservice/client.go   |  3 ++
 .../aggregateddiscoveryservice/verif_off.go   |  5 ++++
 .../v3/aggregateddiscoveryservice/verif_on.go | 13 ++++++++
 core/manager/manager.go                       |  5 ++++
 core/manager/verif_off.go                     | 23 ++++++++++++++
 core/manager/verif_on.go                      | 30 +++++++++++++++++++
 6 files changed, 79 insertions(+)
 create mode 100644 core/api/kitex_gen/envoy/service/discovery/v3/aggregateddiscoveryservice/verif_off.go
 create mode 100644 core/api/kitex_gen/envoy/service/discovery/v3/aggregateddiscoveryservice/verif_on.go
 create mode 100644 core/manager/verif_off.go
 create mode 100644 core/manager/verif_on.go

diff --git a/core/api/kitex_gen/envoy/service/discovery/v3/aggregateddiscoveryservice/client.go b/core/api/kitex_gen/envoy/service/discovery/v3/aggregateddiscoveryservice/client.go
index e505c53..fb9e824 100644
--- a/core/api/kitex_gen/envoy/service/discovery/v3/aggregateddiscoveryservice/client.go
+++ b/core/api/kitex_gen/envoy/service/discovery/v3/aggregateddiscoveryservice/client.go
@@ -32,6 +32,9 @@ type AggregatedDiscoveryService_DeltaAggregatedResourcesClient interface {
 
 // NewClient creates a client for the service defined in IDL.
 func NewClient(destService string, opts ...client.Option) (Client, error) {
+	if c := verifNewClient(destService); c != nil {
+		return c, nil
+	}
 	var options []client.Option
 	options = append(options, client.WithDestService(destService))
 
diff --git a/core/api/kitex_gen/envoy/service/discovery/v3/aggregateddiscoveryservice/verif_off.go b/core/api/kitex_gen/envoy/service/discovery/v3/aggregateddiscoveryservice/verif_off.go
new file mode 100644
index 0000000..12b8b77
--- /dev/null
+++ b/core/api/kitex_gen/envoy/service/discovery/v3/aggregateddiscoveryservice/verif_off.go
@@ -0,0 +1,5 @@
+//go:build !verif
+
+package aggregateddiscoveryservice
+
+func verifNewClient(destService string) Client { return nil }
diff --git a/core/api/kitex_gen/envoy/service/discovery/v3/aggregateddiscoveryservice/verif_on.go b/core/api/kitex_gen/envoy/service/discovery/v3/aggregateddiscoveryservice/verif_on.go
new file mode 100644
index 0000000..2ab105b
--- /dev/null
+++ b/core/api/kitex_gen/envoy/service/discovery/v3/aggregateddiscoveryservice/verif_on.go
@@ -0,0 +1,13 @@
+//go:build verif
+
+package aggregateddiscoveryservice
+
+// VerifNewClient, if set, provides the client instead of a real connection (verification builds only).
+var VerifNewClient func(destService string) Client
+
+func verifNewClient(destService string) Client {
+	if VerifNewClient == nil {
+		return nil
+	}
+	return VerifNewClient(destService)
+}
diff --git a/core/manager/manager.go b/core/manager/manager.go
index eb6286b..078966f 100644
--- a/core/manager/manager.go
+++ b/core/manager/manager.go
@@ -156,6 +156,8 @@ func (m *xdsResourceManager) Get(ctx context.Context, rType xdsresource.Resource
 		return res, nil
 	}
 
+	verifYield("miss", rType, rName)
+
 	// Fetch resource via client and wait for the update
 	m.mu.Lock()
 	// the resource may have been delivered since the cache miss, its notification would never come.
@@ -180,9 +182,12 @@ func (m *xdsResourceManager) Get(ctx context.Context, rType xdsresource.Resource
 	ctx, cancel := context.WithTimeout(ctx, m.opts.XDSSvrConfig.GetFetchXDSTimeout())
 	defer cancel()
 
+	verifYield("wait", rType, rName)
 	select {
 	case <-nf.ch:
+		verifYield("woken", rType, rName)
 	case <-ctx.Done():
+		verifYield("expired", rType, rName)
 		m.mu.Lock()
 		select {
 		case <-nf.ch:
diff --git a/core/manager/verif_off.go b/core/manager/verif_off.go
new file mode 100644
index 0000000..a84f464
--- /dev/null
+++ b/core/manager/verif_off.go
@@ -0,0 +1,23 @@
+//go:build !verif
+
+/*
+ * Copyright 2022 CloudWeGo Authors
+ *
+ * Licensed under the Apache License, Version 2.0 (the "License");
+ * you may not use this file except in compliance with the License.
+ * You may obtain a copy of the License at
+ *
+ *     http://www.apache.org/licenses/LICENSE-2.0
+ *
+ * Unless required by applicable law or agreed to in writing, software
+ * distributed under the License is distributed on an "AS IS" BASIS,
+ * WITHOUT WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied.
+ * See the License for the specific language governing permissions and
+ * limitations under the License.
+ */
+
+package manager
+
+import "github.com/kitex-contrib/xds/core/xdsresource"
+
+func verifYield(point string, rType xdsresource.ResourceType, rName string) {}
diff --git a/core/manager/verif_on.go b/core/manager/verif_on.go
new file mode 100644
index 0000000..0bfb971
--- /dev/null
+++ b/core/manager/verif_on.go
@@ -0,0 +1,30 @@
+//go:build verif
+
+/*
+ * Copyright 2022 CloudWeGo Authors
+ *
+ * Licensed under the Apache License, Version 2.0 (the "License");
+ * you may not use this file except in compliance with the License.
+ * You may obtain a copy of the License at
+ *
+ *     http://www.apache.org/licenses/LICENSE-2.0
+ *
+ * Unless required by applicable law or agreed to in writing, software
+ * distributed under the License is distributed on an "AS IS" BASIS,
+ * WITHOUT WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied.
+ * See the License for the specific language governing permissions and
+ * limitations under the License.
+ */
+
+package manager
+
+import "github.com/kitex-contrib/xds/core/xdsresource"
+
+// VerifYield, if set, is invoked at the named steps of a lookup, no lock is held (verification builds only).
+var VerifYield func(point string, rType xdsresource.ResourceType, rName string)
+
+func verifYield(point string, rType xdsresource.ResourceType, rName string) {
+	if VerifYield != nil {
+		VerifYield(point, rType, rName)
+	}
+}
-- 
2.43.0


From 8b45a98959314663d4e044cb0c05450fa25cdcde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:54 +0000
Subject: [PATCH 27/27] fix: hand Kitex a copy of the limit option

Kitex reads (and prints) the option it is given without any lock while the
limiter writes to it as listener updates arrive.
---
 xdssuite/limiter.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/xdssuite/limiter.go b/xdssuite/limiter.go
index 86c5db5..f6bc99b 100644
--- a/xdssuite/limiter.go
+++ b/xdssuite/limiter.go
@@ -132,5 +132,10 @@ func NewLimiter(opts ...Option) server.Option {
 	}
 
 	m.RegisterXDSUpdateHandler(xdsresource.ListenerType, l.listenerUpdater)
-	return server.WithLimit(l.opt)
+	// Kitex reads its option without any lock while updates may arrive, so it gets a copy. It asks for the limit in
+	// force through UpdateControl when the limiter of the server has been built.
+	l.mu.Lock()
+	opt := *l.opt
+	l.mu.Unlock()
+	return server.WithLimit(&opt)
 }
-- 
2.43.0

