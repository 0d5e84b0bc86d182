From 7b3a02a5438696996c04eabad4027c5498400e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:02 +0000
Subject: [PATCH 01/22] verif: injected ADS client and scheduling points behind
 the verif build tag

---
 core/manager/client.go    |  8 +++++++
 core/manager/manager.go   |  4 ++++
 core/manager/verif_off.go | 27 +++++++++++++++++++++
 core/manager/verif_on.go  | 49 +++++++++++++++++++++++++++++++++++++++
 4 files changed, 88 insertions(+)
 create mode 100644 core/manager/verif_off.go
 create mode 100644 core/manager/verif_on.go

diff --git a/core/manager/client.go b/core/manager/client.go
index c338e34..e5cd1ec 100644
--- a/core/manager/client.go
+++ b/core/manager/client.go
@@ -44,6 +44,9 @@ type (
 
 // newADSClient constructs a new stream client that communicates with the xds server
 func newADSClient(xdsSvrCfg *XDSServerConfig) (ADSClient, error) {
+	if ac, ok := verifADSClient(xdsSvrCfg); ok {
+		return ac, nil
+	}
 	var opts []client.Option
 	opts = append(opts, client.WithHostPorts(xdsSvrCfg.SvrAddr))
 
@@ -382,6 +385,7 @@ func (c *xdsClient) reconnect() (ADSStream, error) {
 	clearRequestCh(c.reqCh, len(c.reqCh))
 	c.mu.Unlock()
 
+	verifYield(context.Background(), "client.newstream")
 	// notify others to use the new stream
 	c.streamCh <- as
 	return as, nil
@@ -487,6 +491,7 @@ func (c *xdsClient) handleLDS(resp *discoveryv3.DiscoveryResponse) error {
 		}
 	}
 	c.mu.RUnlock()
+	verifYield(context.Background(), "client.apply")
 	// update to cache
 	c.resourceUpdater.UpdateResource(xdsresource.ListenerType, filteredRes, resp.GetVersionInfo())
 
@@ -514,6 +519,7 @@ func (c *xdsClient) handleRDS(resp *discoveryv3.DiscoveryResponse) error {
 		}
 	}
 	c.mu.RUnlock()
+	verifYield(context.Background(), "client.apply")
 	// update to cache
 	c.resourceUpdater.UpdateResource(xdsresource.RouteConfigType, res, resp.GetVersionInfo())
 	return nil
@@ -535,6 +541,7 @@ func (c *xdsClient) handleCDS(resp *discoveryv3.DiscoveryResponse) error {
 		}
 	}
 	c.mu.RUnlock()
+	verifYield(context.Background(), "client.apply")
 	// update to cache
 	c.resourceUpdater.UpdateResource(xdsresource.ClusterType, res, resp.GetVersionInfo())
 	return nil
@@ -556,6 +563,7 @@ func (c *xdsClient) handleEDS(resp *discoveryv3.DiscoveryResponse) error {
 		}
 	}
 	c.mu.RUnlock()
+	verifYield(context.Background(), "client.apply")
 	// update to cache
 	c.resourceUpdater.UpdateResource(xdsresource.EndpointsType, res, resp.GetVersionInfo())
 	return nil
diff --git a/core/manager/manager.go b/core/manager/manager.go
index 5581bba..fc53d92 100644
--- a/core/manager/manager.go
+++ b/core/manager/manager.go
@@ -149,6 +149,7 @@ func (m *xdsResourceManager) Get(ctx context.Context, rType xdsresource.Resource
 		return res, nil
 	}
 
+	verifYield(ctx, "get.miss")
 	// Fetch resource via client and wait for the update
 	m.mu.Lock()
 	// Setup channel for this resource
@@ -163,12 +164,14 @@ func (m *xdsResourceManager) Get(ctx context.Context, rType xdsresource.Resource
 		m.client.Watch(rType, rName, false)
 	}
 	m.mu.Unlock()
+	verifYield(ctx, "get.wait")
 	// Set fetch timeout
 	ctx, cancel := context.WithTimeout(ctx, m.opts.XDSSvrConfig.GetFetchXDSTimeout())
 	defer cancel()
 
 	select {
 	case <-nf.ch:
+		verifYield(ctx, "get.woken")
 		// error in the notifier
 		if nf.err != nil {
 			return nil, fmt.Errorf("[XDS] manager, fetch %s resource[%s] failed, error=%s",
@@ -177,6 +180,7 @@ func (m *xdsResourceManager) Get(ctx context.Context, rType xdsresource.Resource
 		res, _ = m.getFromCache(rType, rName)
 		return res, nil
 	case <-ctx.Done():
+		verifYield(ctx, "get.expired")
 		// remove the notifier if timeout.
 		m.mu.Lock()
 		delete(m.notifierMap[rType], rName)
diff --git a/core/manager/verif_off.go b/core/manager/verif_off.go
new file mode 100644
index 0000000..91a9364
--- /dev/null
+++ b/core/manager/verif_off.go
@@ -0,0 +1,27 @@
+//go:build !verif
+// +build !verif
+
+/*
+ * Copyright 2022 CloudWeGo Authors
+ *
+ * Licensed under the Apache License, Version 2.0 (the "License");
+ * you may not use this file except in compliance with the License.
+ * You may obtain a copy of the License at
+ *
+ *     http://www.apache.org/licenses/LICENSE-2.0
+ *
+ * Unless required by applicable law or agreed to in writing, software
+ * distributed under the License is distributed on an "AS IS" BASIS,
+ * WITHOUT WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied.
+ * See the License for the specific language governing permissions and
+ * limitations under the License.
+ */
+
+package manager
+
+import "context"
+
+// verifADSClient and verifYield are no-ops unless the package is built with the verif tag.
+func verifADSClient(*XDSServerConfig) (ADSClient, bool) { return nil, false }
+
+func verifYield(context.Context, string) {}
diff --git a/core/manager/verif_on.go b/core/manager/verif_on.go
new file mode 100644
index 0000000..0faa68a
--- /dev/null
+++ b/core/manager/verif_on.go
@@ -0,0 +1,49 @@
+//go:build verif
+// +build verif
+
+/*
+ * Copyright 2022 CloudWeGo Authors
+ *
+ * Licensed under the Apache License, Version 2.0 (the "License");
+ * you may not use this file except in compliance with the License.
+ * You may obtain a copy of the License at
+ *
+ *     http://www.apache.org/licenses/LICENSE-2.0
+ *
+ * Unless required by applicable law or agreed to in writing, software
+ * distributed under the License is distributed on an "AS IS" BASIS,
+ * WITHOUT WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied.
+ * See the License for the specific language governing permissions and
+ * limitations under the License.
+ */
+
+package manager
+
+import (
+	"context"
+	"sync/atomic"
+)
+
+var (
+	verifClientHook atomic.Value // func(*XDSServerConfig) (ADSClient, bool)
+	verifYieldHook  atomic.Value // func(context.Context, string)
+)
+
+// SetVerifADSClient installs a provider of injected ADS clients, consulted instead of dialing.
+func SetVerifADSClient(f func(*XDSServerConfig) (ADSClient, bool)) { verifClientHook.Store(f) }
+
+// SetVerifYield installs a function called at the scheduling points of the manager and the client.
+func SetVerifYield(f func(ctx context.Context, point string)) { verifYieldHook.Store(f) }
+
+func verifADSClient(cfg *XDSServerConfig) (ADSClient, bool) {
+	if f, ok := verifClientHook.Load().(func(*XDSServerConfig) (ADSClient, bool)); ok && f != nil {
+		return f(cfg)
+	}
+	return nil, false
+}
+
+func verifYield(ctx context.Context, point string) {
+	if f, ok := verifYieldHook.Load().(func(context.Context, string)); ok && f != nil {
+		f(ctx, point)
+	}
+}
-- 
2.43.0


From adc14b41cae73d955c0cf52e07117ab71b69259e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:53 +0000
Subject: [PATCH 02/22] fix: do not cache a placeholder for listeners absent
 from the response

---
 core/manager/client.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/manager/client.go b/core/manager/client.go
index e5cd1ec..9af4a9c 100644
--- a/core/manager/client.go
+++ b/core/manager/client.go
@@ -486,8 +486,8 @@ func (c *xdsClient) handleLDS(resp *discoveryv3.DiscoveryResponse) error {
 			if lis, ok := res[ln]; ok {
 				filteredRes[n] = lis
 			}
-		} else {
-			filteredRes[n] = res[n]
+		} else if lis, ok := res[n]; ok {
+			filteredRes[n] = lis
 		}
 	}
 	c.mu.RUnlock()
-- 
2.43.0


From 76a84b2c4cd3e6bd4c6d3d5b60e31f8be65617e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:10 +0000
Subject: [PATCH 03/22] fix: pick weighted clusters in proportion, never one of
 zero weight

---
 xdssuite/router.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/xdssuite/router.go b/xdssuite/router.go
index e6ccd8f..da08e13 100644
--- a/xdssuite/router.go
+++ b/xdssuite/router.go
@@ -224,10 +224,11 @@ func pickCluster(route *xdsresource.Route) (string, error) {
 		js, _ := route.MarshalJSON()
 		return "", fmt.Errorf("total weight of route is invalid (<= 0), route: %s", js)
 	}
-	targetWeight := uint32(fastrand.Int31n(int32(totalWeight)))
+	// targetWeight is in [0, totalWeight): cluster i owns weight_i of these values
+	targetWeight := fastrand.Uint32n(totalWeight)
 	for _, wc := range wcs {
 		currWeight += wc.Weight
-		if currWeight >= targetWeight {
+		if currWeight > targetWeight {
 			return wc.Name, nil
 		}
 	}
-- 
2.43.0


From 53ebd02306b7dab8e86cc9c0c7782ef9ca25b92a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:10 +0000
Subject: [PATCH 04/22] fix: decode the base interval of the retry back-off

---
 core/xdsresource/rds.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/xdsresource/rds.go b/core/xdsresource/rds.go
index dd7f71a..0e6c852 100644
--- a/core/xdsresource/rds.go
+++ b/core/xdsresource/rds.go
@@ -214,7 +214,7 @@ func unmarshalRoutes(rs []*v3routepb.Route) ([]*Route, error) {
 				}
 				if backoff := retryPolicy.GetRetryBackOff(); backoff != nil {
 					route.RetryPolicy.RetryBackOff = &RetryBackOff{
-						BaseInterval: backoff.GetMaxInterval().AsDuration(),
+						BaseInterval: backoff.GetBaseInterval().AsDuration(),
 						MaxInterval:  backoff.GetMaxInterval().AsDuration(),
 					}
 				}
-- 
2.43.0


From 5a738547d3ab12154485fd314481da8da87efdc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:10 +0000
Subject: [PATCH 05/22] fix: find the local rate limit wherever it is in the
 HTTP filter chain

---
 core/xdsresource/lds.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/core/xdsresource/lds.go b/core/xdsresource/lds.go
index 0959008..f9b2581 100644
--- a/core/xdsresource/lds.go
+++ b/core/xdsresource/lds.go
@@ -281,7 +281,6 @@ func getLocalRateLimitFromHttpConnectionManager(hcm *v3httppb.HttpConnectionMana
 				return uint32(maxTokens.GetNumberValue()), uint32(tokensPerfill.GetNumberValue()), nil
 			}
 		}
-		return 0, 0, nil
 	}
 	return 0, 0, nil
 }
-- 
2.43.0


From 5e5fc0b716da27b43a2bc7e8ec23463ef5e0527c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:10 +0000
Subject: [PATCH 06/22] fix: report an error when every locality of a cluster
 is empty

---
 xdssuite/resolver.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/xdssuite/resolver.go b/xdssuite/resolver.go
index 0d73e8f..5e49abc 100644
--- a/xdssuite/resolver.go
+++ b/xdssuite/resolver.go
@@ -96,6 +96,9 @@ func (r *XDSResolver) getEndpoints(ctx context.Context, desc string) ([]*xdsreso
 	for _, locality := range endpoints.Localities {
 		eps = append(eps, locality.Endpoints...)
 	}
+	if len(eps) == 0 {
+		return nil, fmt.Errorf("no endpoints for cluster: %s", desc)
+	}
 	return eps, nil
 }
 
-- 
2.43.0


From 5155a12e2aa77d26bef034a57062d80a0a1c6cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:10 +0000
Subject: [PATCH 07/22] fix: keep every header condition of a route

---
 core/xdsresource/matcher.go | 59 +++++++++++++++++++++++++++----------
 1 file changed, 43 insertions(+), 16 deletions(-)

diff --git a/core/xdsresource/matcher.go b/core/xdsresource/matcher.go
index cbd56ef..d9c5fc6 100644
--- a/core/xdsresource/matcher.go
+++ b/core/xdsresource/matcher.go
@@ -49,8 +49,39 @@ type Matcher interface {
 	Match(string) bool
 }
 
+// allMatcher holds when each of its matchers does
+type allMatcher []Matcher
+
+func (am allMatcher) Match(other string) bool {
+	for _, m := range am {
+		if !m.Match(other) {
+			return false
+		}
+	}
+	return true
+}
+
+// neverMatcher stands for a condition that cannot be evaluated
+type neverMatcher struct{}
+
+func (neverMatcher) Match(string) bool {
+	return false
+}
+
 type Matchers map[string]Matcher
 
+// add adds a condition for the key, besides those already there
+func (ms Matchers) add(key string, m Matcher) {
+	switch old := ms[key].(type) {
+	case nil:
+		ms[key] = m
+	case allMatcher:
+		ms[key] = append(old, m)
+	default:
+		ms[key] = allMatcher{old, m}
+	}
+}
+
 func (ms Matchers) Match(other map[string]string) bool {
 	for key, m := range ms {
 		if val, ok := other[key]; !ok || !m.Match(val) {
@@ -62,31 +93,27 @@ func (ms Matchers) Match(other map[string]string) bool {
 
 // BuildMatchers build matcher set from headers
 func BuildMatchers(headers []*v3.HeaderMatcher) Matchers {
-	ms := map[string]Matcher{}
+	ms := Matchers{}
 	for _, header := range headers {
 		switch hm := header.GetHeaderMatchSpecifier().(type) {
 		case *v3.HeaderMatcher_StringMatch:
 			switch p := hm.StringMatch.GetMatchPattern().(type) {
 			case *v3matcher.StringMatcher_Exact:
-				if p.Exact != "" {
-					ms[header.Name] = ExactMatcher(p.Exact)
-				}
+				ms.add(header.Name, ExactMatcher(p.Exact))
 			case *v3matcher.StringMatcher_Prefix:
-				if p.Prefix != "" {
-					ms[header.Name] = PrefixMatcher(p.Prefix)
-				}
+				ms.add(header.Name, PrefixMatcher(p.Prefix))
 			case *v3matcher.StringMatcher_SafeRegex:
 				// only support google re2
-				if p.SafeRegex != nil && p.SafeRegex.Regex != "" {
-					re2, err := regexp.Compile(p.SafeRegex.Regex)
-					if err != nil {
-						klog.Warnf("KITEX: [XDS] compile regexp %s failed when BuildMatchers,  err:", p.SafeRegex.Regex, err)
-						continue
-					}
-					ms[header.Name] = &RegexMatcher{
-						re: re2,
-					}
+				re2, err := regexp.Compile(p.SafeRegex.GetRegex())
+				if err != nil {
+					klog.Warnf("KITEX: [XDS] compile regexp %s failed when BuildMatchers,  err: %s", p.SafeRegex.GetRegex(), err)
+					// the condition must not be dropped, or the route would match calls it excludes
+					ms.add(header.Name, neverMatcher{})
+					continue
 				}
+				ms.add(header.Name, &RegexMatcher{
+					re: re2,
+				})
 			}
 		}
 	}
-- 
2.43.0


From 382cca261a17a60ef3e5ea03dc52780a54103d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:10 +0000
Subject: [PATCH 08/22] fix: keep the destination port of thrift proxy filter
 chains

---
 core/xdsresource/lds.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/xdsresource/lds.go b/core/xdsresource/lds.go
index f9b2581..70175cf 100644
--- a/core/xdsresource/lds.go
+++ b/core/xdsresource/lds.go
@@ -130,6 +130,7 @@ func unmarshalFilterChain(fc *v3listenerpb.FilterChain) ([]*NetworkFilter, error
 				}
 				filters = append(filters, &NetworkFilter{
 					FilterType:        NetworkFilterTypeThrift,
+					RoutePort:         matchPort,
 					InlineRouteConfig: r,
 				})
 			}
-- 
2.43.0


From d40a1d5c264c97d6d358ce75181e83fb7fc11340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:10 +0000
Subject: [PATCH 09/22] fix: decode every name table of the response

---
 core/xdsresource/nds.go | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/core/xdsresource/nds.go b/core/xdsresource/nds.go
index 008591f..1d2407b 100644
--- a/core/xdsresource/nds.go
+++ b/core/xdsresource/nds.go
@@ -33,17 +33,18 @@ func UnmarshalNDS(rawResources []*anypb.Any) (*NDSResource, error) {
 	if len(rawResources) < 1 {
 		return nil, fmt.Errorf("no NDS resource found in the response")
 	}
-	r := rawResources[0]
-	if r.GetTypeUrl() != NameTableTypeURL {
-		return nil, fmt.Errorf("invalid nameTable resource type: %s", r.GetTypeUrl())
-	}
-	nt := &dnsProto.NameTable{}
-	if err := proto.Unmarshal(r.GetValue(), nt); err != nil {
-		return nil, fmt.Errorf("unmarshal NameTable failed: %s", err)
-	}
 	res := make(map[string][]string)
-	for k, v := range nt.Table {
-		res[k] = v.Ips
+	for _, r := range rawResources {
+		if r.GetTypeUrl() != NameTableTypeURL {
+			return nil, fmt.Errorf("invalid nameTable resource type: %s", r.GetTypeUrl())
+		}
+		nt := &dnsProto.NameTable{}
+		if err := proto.Unmarshal(r.GetValue(), nt); err != nil {
+			return nil, fmt.Errorf("unmarshal NameTable failed: %s", err)
+		}
+		for k, v := range nt.Table {
+			res[k] = v.Ips
+		}
 	}
 
 	return &NDSResource{
-- 
2.43.0


From 3daaefc2f08b3f6179af2ed9495629bda55e91d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:10 +0000
Subject: [PATCH 10/22] fix: do not cache a nil placeholder for a load
 assignment without localities

---
 core/xdsresource/eds.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/xdsresource/eds.go b/core/xdsresource/eds.go
index 019f5bd..5292fd2 100644
--- a/core/xdsresource/eds.go
+++ b/core/xdsresource/eds.go
@@ -122,6 +122,10 @@ func UnmarshalEDS(rawResources []*anypb.Any) (map[string]Resource, error) {
 			errMap[cla.ClusterName] = err
 			continue
 		}
+		if endpoints == nil {
+			// an assignment without localities is a resource too, not a nil one
+			endpoints = &EndpointsResource{}
+		}
 		ret[cla.ClusterName] = endpoints
 	}
 	if len(errMap) == 0 && len(errSlice) == 0 {
-- 
2.43.0


From 213ef8a56881bf456c445e88198b6f863614f7e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:31 +0000
Subject: [PATCH 11/22] fix: ignore the case of name table hosts, namespace and
 domain

---
 core/manager/client.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/core/manager/client.go b/core/manager/client.go
index 9af4a9c..90b8b1b 100644
--- a/core/manager/client.go
+++ b/core/manager/client.go
@@ -98,7 +98,15 @@ func (r *ndsResolver) updateLookupTable(up map[string][]string) {
 		close(r.initRequestCh)
 		r.closed = true
 	}
-	r.lookupTable = up
+	// hosts are looked up in lower case
+	r.lookupTable = make(map[string][]string, len(up))
+	for host, ips := range up {
+		lower := strings.ToLower(host)
+		if _, ok := up[lower]; ok && lower != host {
+			continue
+		}
+		r.lookupTable[lower] = ips
+	}
 }
 
 // xdsClient communicates with the control plane to perform xds resource discovery.
@@ -424,7 +432,7 @@ func (c *xdsClient) resolveAddr(host string) string {
 	// 4. service with more than 4 parts, such as dubbo interface org.cloudwego.kitex.samples.api.greetprovider, invoke twice always.
 	// FIXME: format as <serviceName>.<namespace> is not supported.
 	// TODO: if it leads to performance issue, use cache to improve it.
-	fqdn := c.config.tryExpandFQDN(host)
+	fqdn := strings.ToLower(c.config.tryExpandFQDN(host))
 	cip, ok := c.cipResolver.lookupHost(fqdn)
 	if ok && len(cip) > 0 {
 		return cip[0]
-- 
2.43.0


From 2f1c9c7dc12f0579525f91371192711df1e420a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:31 +0000
Subject: [PATCH 12/22] fix: add the pod IP to INSTANCE_IPS unless it is an
 element of it

---
 core/manager/bootstrap.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/core/manager/bootstrap.go b/core/manager/bootstrap.go
index e96fd75..a5e13f8 100644
--- a/core/manager/bootstrap.go
+++ b/core/manager/bootstrap.go
@@ -117,7 +117,7 @@ func parseMetaEnvs(envs, istioVersion, podIP string) *structpb.Struct {
 		existips := ips.GetStringValue()
 		if existips == "" {
 			existips = podIP
-		} else if !strings.Contains(existips, podIP) {
+		} else if !containsIP(existips, podIP) {
 			existips = existips + "," + podIP
 		}
 		pbmeta.Fields[IstioMetaInstanceIPs] = &structpb.Value{
@@ -127,6 +127,16 @@ func parseMetaEnvs(envs, istioVersion, podIP string) *structpb.Struct {
 	return pbmeta
 }
 
+// containsIP reports whether ip is an element of the comma separated list
+func containsIP(list, ip string) bool {
+	for _, e := range strings.Split(list, ",") {
+		if e == ip {
+			return true
+		}
+	}
+	return false
+}
+
 func nodeId(podIP, podName, namespace, nodeDomain string) string {
 	//"sidecar~" + podIP + "~" + podName + "." + namespace + "~" + namespace + ".svc." + domain,
 	return fmt.Sprintf("sidecar~%s~%s.%s~%s.svc.%s", podIP, podName, namespace, namespace, nodeDomain)
-- 
2.43.0


From f621a1f76fe0f0de7df1e82586335ee31386f3cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:12 +0000
Subject: [PATCH 13/22] fix: do not lose wake-ups of concurrent lookups

---
 core/manager/manager.go | 41 +++++++++++++++++++++++++++++++++++------
 1 file changed, 35 insertions(+), 6 deletions(-)

diff --git a/core/manager/manager.go b/core/manager/manager.go
index fc53d92..a6a6e4c 100644
--- a/core/manager/manager.go
+++ b/core/manager/manager.go
@@ -56,10 +56,14 @@ type xdsResourceManager struct {
 // notifier is used to notify the resource update along with error
 type notifier struct {
 	ch  chan struct{}
+	res xdsresource.Resource
 	err error
+	// waiters is the number of lookups waiting on ch, guarded by the lock of the manager
+	waiters int
 }
 
-func (n *notifier) notify(err error) {
+func (n *notifier) notify(res xdsresource.Resource, err error) {
+	n.res = res
 	n.err = err
 	close(n.ch)
 }
@@ -109,6 +113,11 @@ func initXDSClient(bootstrapConfig *BootstrapConfig, m *xdsResourceManager) (*xd
 func (m *xdsResourceManager) getFromCache(rType xdsresource.ResourceType, rName string) (interface{}, bool) {
 	m.mu.RLock()
 	defer m.mu.RUnlock()
+	return m.getFromCacheLocked(rType, rName)
+}
+
+// getFromCacheLocked is getFromCache for callers that hold the lock
+func (m *xdsResourceManager) getFromCacheLocked(rType xdsresource.ResourceType, rName string) (interface{}, bool) {
 	if ms, ok1 := m.meta[rType]; ok1 {
 		if mt, ok2 := ms[rName]; ok2 {
 			mt.LastAccessTime.Store(time.Now())
@@ -152,6 +161,11 @@ func (m *xdsResourceManager) Get(ctx context.Context, rType xdsresource.Resource
 	verifYield(ctx, "get.miss")
 	// Fetch resource via client and wait for the update
 	m.mu.Lock()
+	// the resource may have been delivered since the cache was read
+	if res, ok = m.getFromCacheLocked(rType, rName); ok {
+		m.mu.Unlock()
+		return res, nil
+	}
 	// Setup channel for this resource
 	if _, ok := m.notifierMap[rType]; !ok {
 		m.notifierMap[rType] = make(map[string]*notifier)
@@ -163,6 +177,7 @@ func (m *xdsResourceManager) Get(ctx context.Context, rType xdsresource.Resource
 		// only send one request for this resource
 		m.client.Watch(rType, rName, false)
 	}
+	nf.waiters++
 	m.mu.Unlock()
 	verifYield(ctx, "get.wait")
 	// Set fetch timeout
@@ -177,14 +192,28 @@ func (m *xdsResourceManager) Get(ctx context.Context, rType xdsresource.Resource
 			return nil, fmt.Errorf("[XDS] manager, fetch %s resource[%s] failed, error=%s",
 				xdsresource.ResourceTypeToName[rType], rName, nf.err.Error())
 		}
-		res, _ = m.getFromCache(rType, rName)
+		if res, ok = m.getFromCache(rType, rName); !ok {
+			// removed since it was delivered
+			res = nf.res
+		}
 		return res, nil
 	case <-ctx.Done():
 		verifYield(ctx, "get.expired")
-		// remove the notifier if timeout.
 		m.mu.Lock()
-		delete(m.notifierMap[rType], rName)
-		m.mu.Unlock()
+		defer m.mu.Unlock()
+		nf.waiters--
+		select {
+		case <-nf.ch:
+			// delivered at the same time
+			if nf.err == nil {
+				return nf.res, nil
+			}
+		default:
+			// remove the notifier if nobody waits for it any more.
+			if nf.waiters == 0 && m.notifierMap[rType][rName] == nf {
+				delete(m.notifierMap[rType], rName)
+			}
+		}
 		return nil, fmt.Errorf("[XDS] manager, fetch %s resource[%s] timeout",
 			xdsresource.ResourceTypeToName[rType], rName)
 	}
@@ -296,7 +325,7 @@ func (m *xdsResourceManager) UpdateResource(rt xdsresource.ResourceType, up map[
 			continue
 		}
 		if nf, exist := m.notifierMap[rt][name]; exist {
-			nf.notify(nil)
+			nf.notify(res, nil)
 			delete(m.notifierMap[rt], name)
 		}
 	}
-- 
2.43.0


From e4102cdeb33e4598eb84b59c39251eaa2eb9bf4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:12 +0000
Subject: [PATCH 14/22] fix: evict resources that were never looked up after
 their delivery

---
 core/manager/manager.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/core/manager/manager.go b/core/manager/manager.go
index a6a6e4c..a4f4606 100644
--- a/core/manager/manager.go
+++ b/core/manager/manager.go
@@ -292,11 +292,14 @@ func (m *xdsResourceManager) updateMeta(rType xdsresource.ResourceType, version
 			mt.Version = version
 			mt.UpdateTime = updateTime
 		} else {
-			m.meta[rType][name] = &xdsresource.ResourceMeta{
+			mt := &xdsresource.ResourceMeta{
 				Version:        version,
 				UpdateTime:     updateTime,
 				LastAccessTime: atomic.Value{},
 			}
+			// a resource that is never looked up expires too
+			mt.LastAccessTime.Store(updateTime)
+			m.meta[rType][name] = mt
 		}
 	}
 }
-- 
2.43.0


From ba3ccfe48aa587199b01ce80eba24aec351730e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:12 +0000
Subject: [PATCH 15/22] fix: do not store a resource evicted while its response
 was handled

---
 core/manager/client.go  | 83 ++++++++++++++++++++---------------------
 core/manager/manager.go | 11 ++++++
 2 files changed, 52 insertions(+), 42 deletions(-)

diff --git a/core/manager/client.go b/core/manager/client.go
index 90b8b1b..3fac9e3 100644
--- a/core/manager/client.go
+++ b/core/manager/client.go
@@ -479,10 +479,25 @@ func (c *xdsClient) handleLDS(resp *discoveryv3.DiscoveryResponse) error {
 		return err
 	}
 
-	// returned listener name is in the format of ${clusterIP}_${port}
-	// which should be converted into to the listener name, in the form of ${fqdn}_${port}, watched by the xds client.
-	// we need to filter the response.
+	verifYield(context.Background(), "client.apply")
+	// update to cache
+	c.resourceUpdater.updateFiltered(xdsresource.ListenerType, func() map[string]xdsresource.Resource {
+		return c.filterListeners(res)
+	}, resp.GetVersionInfo())
+
+	if c.closedInboundInitCh.CompareAndSwap(false, true) {
+		klog.Info("KITEX: [xds] receive inbound init request")
+		close(c.inboundInitRequestCh)
+	}
+	return nil
+}
+
+// filterListeners returns the watched listeners by the names they are watched by.
+// returned listener name is in the format of ${clusterIP}_${port}
+// which should be converted into to the listener name, in the form of ${fqdn}_${port}, watched by the xds client.
+func (c *xdsClient) filterListeners(res map[string]*xdsresource.ListenerResource) map[string]xdsresource.Resource {
 	c.mu.RLock()
+	defer c.mu.RUnlock()
 	filteredRes := make(map[string]xdsresource.Resource)
 	for n := range c.watchedResource[xdsresource.ListenerType] {
 		if c.ndsRequired() && n != xdsresource.ReservedLdsResourceName {
@@ -498,16 +513,19 @@ func (c *xdsClient) handleLDS(resp *discoveryv3.DiscoveryResponse) error {
 			filteredRes[n] = lis
 		}
 	}
-	c.mu.RUnlock()
-	verifYield(context.Background(), "client.apply")
-	// update to cache
-	c.resourceUpdater.UpdateResource(xdsresource.ListenerType, filteredRes, resp.GetVersionInfo())
+	return filteredRes
+}
 
-	if c.closedInboundInitCh.CompareAndSwap(false, true) {
-		klog.Info("KITEX: [xds] receive inbound init request")
-		close(c.inboundInitRequestCh)
+// filterWatched removes the resources that are not watched.
+func (c *xdsClient) filterWatched(rType xdsresource.ResourceType, res map[string]xdsresource.Resource) map[string]xdsresource.Resource {
+	c.mu.RLock()
+	defer c.mu.RUnlock()
+	for name := range res {
+		if _, ok := c.watchedResource[rType][name]; !ok {
+			delete(res, name)
+		}
 	}
-	return nil
+	return res
 }
 
 // handleRDS handles the rds response
@@ -518,18 +536,11 @@ func (c *xdsClient) handleRDS(resp *discoveryv3.DiscoveryResponse) error {
 		return err
 	}
 
-	// filter the resources that are not in the watched list
-	c.mu.RLock()
-	for name := range res {
-		// only accept the routeConfig that is subscribed
-		if _, ok := c.watchedResource[xdsresource.RouteConfigType][name]; !ok {
-			delete(res, name)
-		}
-	}
-	c.mu.RUnlock()
 	verifYield(context.Background(), "client.apply")
-	// update to cache
-	c.resourceUpdater.UpdateResource(xdsresource.RouteConfigType, res, resp.GetVersionInfo())
+	// update to cache, without the resources that are not in the watched list
+	c.resourceUpdater.updateFiltered(xdsresource.RouteConfigType, func() map[string]xdsresource.Resource {
+		return c.filterWatched(xdsresource.RouteConfigType, res)
+	}, resp.GetVersionInfo())
 	return nil
 }
 
@@ -541,17 +552,11 @@ func (c *xdsClient) handleCDS(resp *discoveryv3.DiscoveryResponse) error {
 		return fmt.Errorf("handle cluster failed: %s", err)
 	}
 
-	// filter the resources that are not in the watched list
-	c.mu.RLock()
-	for name := range res {
-		if _, ok := c.watchedResource[xdsresource.ClusterType][name]; !ok {
-			delete(res, name)
-		}
-	}
-	c.mu.RUnlock()
 	verifYield(context.Background(), "client.apply")
-	// update to cache
-	c.resourceUpdater.UpdateResource(xdsresource.ClusterType, res, resp.GetVersionInfo())
+	// update to cache, without the resources that are not in the watched list
+	c.resourceUpdater.updateFiltered(xdsresource.ClusterType, func() map[string]xdsresource.Resource {
+		return c.filterWatched(xdsresource.ClusterType, res)
+	}, resp.GetVersionInfo())
 	return nil
 }
 
@@ -563,17 +568,11 @@ func (c *xdsClient) handleEDS(resp *discoveryv3.DiscoveryResponse) error {
 		return fmt.Errorf("handle endpoint failed: %s", err)
 	}
 
-	// filter the resources that are not in the watched list
-	c.mu.RLock()
-	for name := range res {
-		if _, ok := c.watchedResource[xdsresource.EndpointsType][name]; !ok {
-			delete(res, name)
-		}
-	}
-	c.mu.RUnlock()
 	verifYield(context.Background(), "client.apply")
-	// update to cache
-	c.resourceUpdater.UpdateResource(xdsresource.EndpointsType, res, resp.GetVersionInfo())
+	// update to cache, without the resources that are not in the watched list
+	c.resourceUpdater.updateFiltered(xdsresource.EndpointsType, func() map[string]xdsresource.Resource {
+		return c.filterWatched(xdsresource.EndpointsType, res)
+	}, resp.GetVersionInfo())
 	return nil
 }
 
diff --git a/core/manager/manager.go b/core/manager/manager.go
index a4f4606..f012607 100644
--- a/core/manager/manager.go
+++ b/core/manager/manager.go
@@ -310,7 +310,18 @@ func (m *xdsResourceManager) updateMeta(rType xdsresource.ResourceType, version
 func (m *xdsResourceManager) UpdateResource(rt xdsresource.ResourceType, up map[string]xdsresource.Resource, version string) {
 	m.mu.Lock()
 	defer m.mu.Unlock()
+	m.updateResourceLocked(rt, up, version)
+}
+
+// updateFiltered updates the cache with the resources returned by filter, which is invoked under the lock of the
+// manager: names are subscribed and evicted under this lock, so a name evicted before the update is not stored again.
+func (m *xdsResourceManager) updateFiltered(rt xdsresource.ResourceType, filter func() map[string]xdsresource.Resource, version string) {
+	m.mu.Lock()
+	defer m.mu.Unlock()
+	m.updateResourceLocked(rt, filter(), version)
+}
 
+func (m *xdsResourceManager) updateResourceLocked(rt xdsresource.ResourceType, up map[string]xdsresource.Resource, version string) {
 	// should update xds updater first, as it may affect the traffic when the
 	// policy is updated at the first time.
 	if handlers, ok := m.xdsHandlers[rt]; ok {
-- 
2.43.0


From 16d8acaf4f6cab7c7bd7b69796c1c043483a2cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:12 +0000
Subject: [PATCH 16/22] fix: keep the policies of resources omitted from a
 partial update

---
 core/manager/manager.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/core/manager/manager.go b/core/manager/manager.go
index f012607..a65ba3d 100644
--- a/core/manager/manager.go
+++ b/core/manager/manager.go
@@ -325,8 +325,19 @@ func (m *xdsResourceManager) updateResourceLocked(rt xdsresource.ResourceType, u
 	// should update xds updater first, as it may affect the traffic when the
 	// policy is updated at the first time.
 	if handlers, ok := m.xdsHandlers[rt]; ok {
+		current := up
+		if !rt.RequireFullADSResponse() {
+			// the update may be partial: resources it omits stay in force
+			current = make(map[string]xdsresource.Resource, len(m.cache[rt])+len(up))
+			for name, res := range m.cache[rt] {
+				current[name] = res
+			}
+			for name, res := range up {
+				current[name] = res
+			}
+		}
 		for _, handler := range handlers {
-			handler(up)
+			handler(current)
 		}
 	}
 
-- 
2.43.0


From ea427a5a67f621a2521cfa8cec5945177bc11de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:12 +0000
Subject: [PATCH 17/22] fix: do not block lookups and start-up once the client
 is closed

---
 core/manager/client.go | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/core/manager/client.go b/core/manager/client.go
index 3fac9e3..8bb2b2d 100644
--- a/core/manager/client.go
+++ b/core/manager/client.go
@@ -312,14 +312,20 @@ func (c *xdsClient) ldsRequired() bool {
 func (c *xdsClient) ndsWarmup() {
 	// watch the NameTable when init the xds client
 	c.Watch(xdsresource.NameTableType, "", false)
-	<-c.cipResolver.initRequestCh
+	select {
+	case <-c.cipResolver.initRequestCh:
+	case <-c.closeCh:
+	}
 	klog.Infof("KITEX: [XDS] nds, warmup done")
 }
 
 func (c *xdsClient) listenerWarmup() {
 	// watch the Listener when init the xds client, it is used for inbound side.
 	c.Watch(xdsresource.ListenerType, xdsresource.ReservedLdsResourceName, false)
-	<-c.inboundInitRequestCh
+	select {
+	case <-c.inboundInitRequestCh:
+	case <-c.closeCh:
+	}
 	klog.Infof("KITEX: [XDS] lds, warmup done")
 }
 
@@ -341,6 +347,8 @@ func (c *xdsClient) run() {
 	as, err := c.connect()
 	if err != nil {
 		klog.Errorf("[XDS] client, failed to connect the xDS Server, error=%s", err.Error())
+		// neither sender nor receiver is started
+		c.close()
 		return
 	}
 
@@ -415,8 +423,11 @@ func (c *xdsClient) reqWhenReconnect(as ADSStream) error {
 }
 
 func (c *xdsClient) sendRequest(req *discoveryv3.DiscoveryRequest) {
-	// put the req to the channel
-	c.reqCh <- req
+	// put the req to the channel, there is no sender to take it once the client is closed
+	select {
+	case c.reqCh <- req:
+	case <-c.closeCh:
+	}
 }
 
 func (c *xdsClient) resolveAddr(host string) string {
-- 
2.43.0


From ea6ee001a6b2c29f298095baa85d825cde4d4173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:12 +0000
Subject: [PATCH 18/22] fix: do not hold the client lock while sending on a new
 stream

---
 core/manager/client.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/core/manager/client.go b/core/manager/client.go
index 8bb2b2d..c37f891 100644
--- a/core/manager/client.go
+++ b/core/manager/client.go
@@ -410,10 +410,14 @@ func (c *xdsClient) reconnect() (ADSStream, error) {
 // reqWhenReconnect construct a new stream and send all the watched resources
 func (c *xdsClient) reqWhenReconnect(as ADSStream) error {
 	// send new requests for all watched resources when reqWhenReconnect
+	// the lock must not be held while sending, which may block for long
 	c.mu.Lock()
-	defer c.mu.Unlock()
+	reqs := make([]*discoveryv3.DiscoveryRequest, 0, len(c.watchedResource))
 	for rType, res := range c.watchedResource {
-		req := c.prepareRequest(rType, c.versionMap[rType], c.nonceMap[rType], res)
+		reqs = append(reqs, c.prepareRequest(rType, c.versionMap[rType], c.nonceMap[rType], res))
+	}
+	c.mu.Unlock()
+	for _, req := range reqs {
 		if err := as.Send(req); err != nil {
 			// return err if send failed
 			return err
-- 
2.43.0


From 946ccb2999c6102db92e69924560cb2ae5e87d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:26 +0000
Subject: [PATCH 19/22] fix: do not lose a limit change while the server takes
 over the limiter

---
 xdssuite/limiter.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/xdssuite/limiter.go b/xdssuite/limiter.go
index c0ec63e..a6799f4 100644
--- a/xdssuite/limiter.go
+++ b/xdssuite/limiter.go
@@ -18,6 +18,7 @@ package xdssuite
 
 import (
 	"math"
+	"sync"
 	"sync/atomic"
 
 	"github.com/cloudwego/kitex/pkg/klog"
@@ -62,6 +63,8 @@ func getLimiterPolicy(up map[string]xdsresource.Resource) map[uint32]uint32 {
 }
 
 type limiter struct {
+	// mu guards opt, and orders its changes with the hand-over of the updater
+	mu      sync.Mutex
 	updater atomic.Value
 	opt     *limit.Option
 	port    uint32
@@ -71,6 +74,8 @@ func (l *limiter) updateHandler(changed *limit.Option) {
 	if changed == nil {
 		return
 	}
+	l.mu.Lock()
+	defer l.mu.Unlock()
 	l.opt.MaxConnections = changed.MaxConnections
 	l.opt.MaxQPS = changed.MaxQPS
 	u := l.updater.Load()
@@ -116,6 +121,8 @@ func NewLimiter(opts ...Option) server.Option {
 	}
 
 	l.opt.UpdateControl = func(u limit.Updater) {
+		l.mu.Lock()
+		defer l.mu.Unlock()
 		u.UpdateLimit(l.opt)
 		l.updater.Store(u)
 	}
-- 
2.43.0


From cb0b319e488f0e872815fcd46182bed0597db02a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:49 +0000
Subject: [PATCH 20/22] fix: queue discovery requests without blocking lookups
 when sending is stalled

---
 core/manager/client.go | 33 +++++++++++++++++++++++++++++++--
 1 file changed, 31 insertions(+), 2 deletions(-)

diff --git a/core/manager/client.go b/core/manager/client.go
index c37f891..2aecf16 100644
--- a/core/manager/client.go
+++ b/core/manager/client.go
@@ -135,6 +135,8 @@ type xdsClient struct {
 	streamCh       chan ADSStream
 	reqCh          chan *discoveryv3.DiscoveryRequest
 	connectBackoff backoff.BackOff
+	// overflow holds the requests that reqCh has no room for, guarded by mu.
+	overflow []*discoveryv3.DiscoveryRequest
 
 	// resourceUpdater is used to update the resource update to the cache.
 	resourceUpdater *xdsResourceManager
@@ -245,6 +247,7 @@ func (c *xdsClient) sender(as ADSStream) {
 				continue
 			}
 		case req := <-c.reqCh:
+			c.refillRequestCh()
 			if currStream != nil {
 				err := currStream.Send(req)
 				if err != nil {
@@ -399,6 +402,7 @@ func (c *xdsClient) reconnect() (ADSStream, error) {
 	c.mu.Lock()
 	c.nonceMap = make(map[xdsresource.ResourceType]string)
 	clearRequestCh(c.reqCh, len(c.reqCh))
+	c.overflow = nil
 	c.mu.Unlock()
 
 	verifYield(context.Background(), "client.newstream")
@@ -426,11 +430,36 @@ func (c *xdsClient) reqWhenReconnect(as ADSStream) error {
 	return nil
 }
 
+// sendRequest queues the request for the sender. It is called with the lock held and does not wait for the sender,
+// which may be blocked in sending for long.
 func (c *xdsClient) sendRequest(req *discoveryv3.DiscoveryRequest) {
-	// put the req to the channel, there is no sender to take it once the client is closed
 	select {
-	case c.reqCh <- req:
 	case <-c.closeCh:
+		// there is no sender to take it once the client is closed
+		return
+	default:
+	}
+	if len(c.overflow) == 0 {
+		select {
+		case c.reqCh <- req:
+			return
+		default:
+		}
+	}
+	c.overflow = append(c.overflow, req)
+}
+
+// refillRequestCh moves the requests that had no room in reqCh to it, in order.
+func (c *xdsClient) refillRequestCh() {
+	c.mu.Lock()
+	defer c.mu.Unlock()
+	for len(c.overflow) > 0 {
+		select {
+		case c.reqCh <- c.overflow[0]:
+			c.overflow = c.overflow[1:]
+		default:
+			return
+		}
 	}
 }
 
-- 
2.43.0


From f7ed3dacfafb9152c3999208d06d0b8b8f1d4883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:55 +0000
Subject: [PATCH 21/22] fix: do not withdraw a resource that lookups are
 waiting for

---
 core/manager/manager.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/manager/manager.go b/core/manager/manager.go
index a65ba3d..88230eb 100644
--- a/core/manager/manager.go
+++ b/core/manager/manager.go
@@ -235,6 +235,10 @@ func (m *xdsResourceManager) cleaner() {
 					if !ok {
 						continue
 					}
+					// lookups are waiting for the resource, which the control plane dropped earlier
+					if _, waiting := m.notifierMap[rt][rName]; waiting {
+						continue
+					}
 					// should not delete the reserved resource
 					if !isReservedResource(rt, rName) && time.Since(t) > defaultCacheExpireTime {
 						delete(m.meta[rt], rName)
-- 
2.43.0


From 12d1eec4262ed6288e8a6922e2107a720142d964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:46 +0000
Subject: [PATCH 22/22] fix: do not change the limit option the starting server
 reads

---
 xdssuite/limiter.go | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/xdssuite/limiter.go b/xdssuite/limiter.go
index a6799f4..2921ba1 100644
--- a/xdssuite/limiter.go
+++ b/xdssuite/limiter.go
@@ -120,13 +120,20 @@ func NewLimiter(opts ...Option) server.Option {
 		port: serverOpt.servicePort,
 	}
 
-	l.opt.UpdateControl = func(u limit.Updater) {
-		l.mu.Lock()
-		defer l.mu.Unlock()
-		u.UpdateLimit(l.opt)
-		l.updater.Store(u)
-	}
-
 	m.RegisterXDSUpdateHandler(xdsresource.ListenerType, l.listenerUpdater)
-	return server.WithLimit(l.opt)
+
+	// the server reads its option unsynchronized, so it gets a copy that never changes: the limit of the moment is
+	// pushed when the server hands over its updater
+	l.mu.Lock()
+	defer l.mu.Unlock()
+	return server.WithLimit(&limit.Option{
+		MaxConnections: l.opt.MaxConnections,
+		MaxQPS:         l.opt.MaxQPS,
+		UpdateControl: func(u limit.Updater) {
+			l.mu.Lock()
+			defer l.mu.Unlock()
+			u.UpdateLimit(l.opt)
+			l.updater.Store(u)
+		},
+	})
 }
-- 
2.43.0

