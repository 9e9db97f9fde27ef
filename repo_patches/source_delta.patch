From 9873a66292ce324a9744c931cc939db6af8be1cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:32 +0000
Subject: [PATCH 01/29] fix: give every virtual node beyond the 256th its own
 ring position

---
 internal/cluster/ring.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/internal/cluster/ring.go b/internal/cluster/ring.go
index 96b203b..9fa2d15 100644
--- a/internal/cluster/ring.go
+++ b/internal/cluster/ring.go
@@ -1,7 +1,9 @@
 package cluster
 
 import (
+	"encoding/binary"
 	"fmt"
+	"math"
 	"slices"
 	"sort"
 	"sync"
@@ -67,10 +69,13 @@ func (r *Ring) Build(nodes []*Node) {
 		base := []byte(node.ID)
 		for i := 0; i < r.vnPerNode; i++ { //nolint:intrange
 			// combine node id and vnode index (allocate new slice to avoid touching base backing array)
-			buf := make([]byte, len(base)+1)
+			buf := make([]byte, len(base)+1, len(base)+binary.MaxVarintLen64)
 			copy(buf, base)
 
 			buf[len(base)] = byte(i)
+			if i > math.MaxUint8 { // one byte only tells 256 indexes apart
+				buf = binary.AppendUvarint(buf, uint64(i))
+			}
 
 			hv := xxhash.Sum64(buf)
 
-- 
2.43.0


From cc971256ea78940274dafb0962d927d7eec7a50d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:32 +0000
Subject: [PATCH 02/29] fix: break ring hash ties by node id so peers agree on
 owners

---
 internal/cluster/ring.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/internal/cluster/ring.go b/internal/cluster/ring.go
index 9fa2d15..f2de388 100644
--- a/internal/cluster/ring.go
+++ b/internal/cluster/ring.go
@@ -6,6 +6,7 @@ import (
 	"math"
 	"slices"
 	"sort"
+	"strings"
 	"sync"
 
 	"github.com/cespare/xxhash/v2"
@@ -89,8 +90,8 @@ func (r *Ring) Build(nodes []*Node) {
 			return -1
 		case a.hash > b.hash:
 			return 1
-		default:
-			return 0
+		default: // equal hashes: order by node so every peer builds the same ring
+			return strings.Compare(string(a.nid), string(b.nid))
 		}
 	})
 
-- 
2.43.0


From d59a19cc464c3845e54ba0495740358784ef4489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:43 +0000
Subject: [PATCH 03/29] fix: rebuild the ring inside the membership critical
 section

---
 internal/cluster/membership.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/internal/cluster/membership.go b/internal/cluster/membership.go
index 65fcc1f..70b4378 100644
--- a/internal/cluster/membership.go
+++ b/internal/cluster/membership.go
@@ -73,9 +73,10 @@ func (m *Membership) Upsert(n *Node) {
 	observers := m.observers
 	id := n.ID
 	state := n.State
+	// build before unlocking: a later mutation must not be overwritten by this snapshot
+	m.ring.Build(nodes)
 	m.mu.Unlock()
 
-	m.ring.Build(nodes)
 	notify(observers, id, state, version)
 }
 
@@ -123,9 +124,10 @@ func (m *Membership) Remove(id NodeID) bool {
 
 	version := m.ver.Next()
 	observers := m.observers
+	// build before unlocking: a later mutation must not be overwritten by this snapshot
+	m.ring.Build(nodes)
 	m.mu.Unlock()
 
-	m.ring.Build(nodes)
 	// State NodeDead represents "removed from membership" for
 	// observer purposes; the node is gone from the map and will
 	// not appear in any subsequent List() call.
-- 
2.43.0


From 4ea174cba3fe4a766c84263b282870d90ce2cfb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:09 +0000
Subject: [PATCH 04/29] fix: rebuild the ring when Mark or Refute moves a node
 in or out of Dead

---
 internal/cluster/membership.go | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/internal/cluster/membership.go b/internal/cluster/membership.go
index 70b4378..f581675 100644
--- a/internal/cluster/membership.go
+++ b/internal/cluster/membership.go
@@ -187,12 +187,18 @@ func (m *Membership) Mark(id NodeID, state NodeState) bool {
 
 	n.Incarnation++
 
+	ownershipChanged := n.State == NodeDead || state == NodeDead
+
 	n.State = state
 	n.LastSeen = time.Now()
 
 	version := m.ver.Next()
 	observers := m.observers
 
+	if ownershipChanged {
+		m.rebuildRingLocked()
+	}
+
 	m.mu.Unlock()
 
 	notify(observers, id, state, version)
@@ -229,12 +235,18 @@ func (m *Membership) Refute(id NodeID) bool {
 
 	n.Incarnation++
 
+	ownershipChanged := n.State == NodeDead
+
 	n.State = NodeAlive
 	n.LastSeen = time.Now()
 
 	version := m.ver.Next()
 	observers := m.observers
 
+	if ownershipChanged {
+		m.rebuildRingLocked()
+	}
+
 	m.mu.Unlock()
 
 	notify(observers, id, NodeAlive, version)
@@ -242,6 +254,20 @@ func (m *Membership) Refute(id NodeID) bool {
 	return true
 }
 
+// rebuildRingLocked rebuilds the ring from the current non-dead members.
+// Mark and Refute call it when a node enters or leaves NodeDead, so a node
+// that comes back to life owns keys again. The caller holds m.mu.
+func (m *Membership) rebuildRingLocked() {
+	nodes := make([]*Node, 0, len(m.nodes))
+	for _, v := range m.nodes {
+		if v.State != NodeDead {
+			nodes = append(nodes, v)
+		}
+	}
+
+	m.ring.Build(nodes)
+}
+
 // notify invokes each observer in registration order with the
 // resolved state and version. Pulled out so the call sites read
 // "mutate, unlock, notify" uniformly without inline loops.
-- 
2.43.0


From 424e4f307785bb3a03b96472496549a6a554029a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:45 +0000
Subject: [PATCH 05/29] fix: deliver events to every subscriber in version
 order

---
 internal/eventbus/bus.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/internal/eventbus/bus.go b/internal/eventbus/bus.go
index 1f2429b..a1b6e36 100644
--- a/internal/eventbus/bus.go
+++ b/internal/eventbus/bus.go
@@ -127,11 +127,11 @@ func (b *Bus) Subscribe(ctx context.Context) (<-chan Event, func()) {
 // SWIM heartbeat goroutine drives publishes and must keep ticking
 // at its configured interval regardless of consumer health.
 func (b *Bus) Publish(evt Event) uint64 {
-	b.mu.RLock()
-	defer b.mu.RUnlock()
+	b.mu.Lock()
+	defer b.mu.Unlock()
 
-	// Stamp the event under the read lock so version is
-	// monotonic across concurrent publishers.
+	// Stamp and deliver under the exclusive lock: two publishers
+	// sharing the lock could enqueue a later version first.
 	version := b.version.Add(1)
 
 	evt.Version = version
-- 
2.43.0


From 4779d88e05bb403c94fee14fa38ac3109e5c560f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:37 +0000
Subject: [PATCH 06/29] fix: concurrent client Close calls no longer close the
 stop channel twice

---
 pkg/client/client.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/pkg/client/client.go b/pkg/client/client.go
index 0527ef7..362908d 100644
--- a/pkg/client/client.go
+++ b/pkg/client/client.go
@@ -58,6 +58,7 @@ type Client struct {
 	refreshInterval time.Duration
 	refreshStopCh   chan struct{}
 	refreshDoneCh   chan struct{}
+	refreshStopOnce sync.Once
 
 	logger *slog.Logger
 }
@@ -127,12 +128,7 @@ func (c *Client) Endpoints() []string {
 // should cancel via their request context if needed.
 func (c *Client) Close() error {
 	if c.refreshStopCh != nil {
-		select {
-		case <-c.refreshStopCh:
-			// already closed
-		default:
-			close(c.refreshStopCh)
-		}
+		c.refreshStopOnce.Do(func() { close(c.refreshStopCh) })
 
 		if c.refreshDoneCh != nil {
 			<-c.refreshDoneCh
-- 
2.43.0


From be3755e3de705e038733c498a51e82ce363c80f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:37 +0000
Subject: [PATCH 07/29] fix: BatchSet keeps a sub-millisecond TTL from becoming
 no expiry

---
 pkg/client/batch.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/client/batch.go b/pkg/client/batch.go
index 6608de2..b4c5273 100644
--- a/pkg/client/batch.go
+++ b/pkg/client/batch.go
@@ -147,7 +147,8 @@ func (c *Client) BatchSet(ctx context.Context, items []BatchSetItem) ([]BatchPut
 			ValueEncoding: "base64",
 		}
 		if it.TTL > 0 {
-			wire.TTLMs = it.TTL.Milliseconds()
+			// round up: the wire carries whole milliseconds and 0 means no expiry
+			wire.TTLMs = max(it.TTL.Milliseconds(), 1)
 		}
 
 		body.Items = append(body.Items, wire)
-- 
2.43.0


From 887176724ee3e6b9181e51352d18a65f1bf83e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:37 +0000
Subject: [PATCH 08/29] fix: a failed batch item always carries an error

---
 pkg/client/batch.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/pkg/client/batch.go b/pkg/client/batch.go
index b4c5273..5fd1be9 100644
--- a/pkg/client/batch.go
+++ b/pkg/client/batch.go
@@ -147,7 +147,7 @@ func (c *Client) BatchSet(ctx context.Context, items []BatchSetItem) ([]BatchPut
 			ValueEncoding: "base64",
 		}
 		if it.TTL > 0 {
-			// round up: the wire carries whole milliseconds and 0 means no expiry
+			// the wire carries whole milliseconds and 0 means no expiry
 			wire.TTLMs = max(it.TTL.Milliseconds(), 1)
 		}
 
@@ -313,10 +313,6 @@ func statusErrorFromBatch(success bool, code, message string) *StatusError {
 		return nil
 	}
 
-	if code == "" && message == "" {
-		return nil
-	}
-
 	// Map the canonical batch Code values back to HTTP status so the
 	// resulting *StatusError honors errors.Is the same way a top-
 	// level call's StatusError does. The batch wire only carries
-- 
2.43.0


From ee8c3a71a384e8499a7a329621aa86f349dcc3cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:40 +0000
Subject: [PATCH 09/29] fix: client auth options build on the configured HTTP
 client and replace each other

---
 pkg/client/client.go  | 82 +++++++++++++++++++++++++------------------
 pkg/client/options.go | 16 +++++----
 2 files changed, 56 insertions(+), 42 deletions(-)

diff --git a/pkg/client/client.go b/pkg/client/client.go
index 362908d..9f177f6 100644
--- a/pkg/client/client.go
+++ b/pkg/client/client.go
@@ -318,45 +318,65 @@ func (c *Client) Can(ctx context.Context, capability string) (bool, error) {
 
 // --- internal helpers used by options.go ---
 
-// bearerAuthTransport returns a RoundTripper that injects the
-// given bearer token on every request.
-func bearerAuthTransport(token string) http.RoundTripper {
-	return bearerLikeAuthTransport("Bearer " + token)
-}
-
-// bearerLikeAuthTransport returns a RoundTripper that injects the
-// given Authorization header value on every request. Used by both
+// headerAuthTransport is a RoundTripper that injects the given
+// Authorization header value on every request. Used by both
 // bearer and Basic auth — both share the "set one header on every
 // request" shape.
-func bearerLikeAuthTransport(headerValue string) http.RoundTripper {
-	return roundTripperFunc(func(req *http.Request) (*http.Response, error) {
-		// Clone before mutating so the caller's copy stays clean.
-		cloned := req.Clone(req.Context())
-		cloned.Header.Set("Authorization", headerValue)
+type headerAuthTransport struct {
+	base        http.RoundTripper
+	headerValue string
+}
 
-		base := http.DefaultTransport
+// RoundTrip implements http.RoundTripper.
+func (t *headerAuthTransport) RoundTrip(req *http.Request) (*http.Response, error) {
+	// Clone before mutating so the caller's copy stays clean.
+	cloned := req.Clone(req.Context())
+	cloned.Header.Set("Authorization", t.headerValue)
 
-		resp, err := base.RoundTrip(cloned)
-		if err != nil {
-			return nil, fmt.Errorf("client transport: %w", err)
-		}
+	base := t.base
+	if base == nil {
+		base = http.DefaultTransport
+	}
 
-		return resp, nil
-	})
+	resp, err := base.RoundTrip(cloned)
+	if err != nil {
+		return nil, fmt.Errorf("client transport: %w", err)
+	}
+
+	return resp, nil
 }
 
 // httpClientWithAuth wraps the existing http.Client with an
-// authentication transport. The original client's Timeout is
-// preserved.
-func httpClientWithAuth(base *http.Client, authTransport http.RoundTripper) *http.Client {
-	out := &http.Client{Transport: authTransport}
-	if base != nil {
-		out.Timeout = base.Timeout
-	}
+// authentication transport. The original client's Transport,
+// Timeout and other settings are preserved; an earlier auth
+// option's transport is replaced.
+func httpClientWithAuth(base *http.Client, headerValue string) *http.Client {
+	out := httpClientWithoutAuth(base)
+
+	out.Transport = &headerAuthTransport{base: out.Transport, headerValue: headerValue}
 
 	return out
 }
 
+// httpClientWithoutAuth returns a copy of base with any transport
+// installed by an earlier auth option removed.
+func httpClientWithoutAuth(base *http.Client) *http.Client {
+	if base == nil {
+		return &http.Client{}
+	}
+
+	out := *base
+
+	switch t := out.Transport.(type) {
+	case *headerAuthTransport:
+		out.Transport = t.base
+	case *oauth2.Transport:
+		out.Transport = t.Base
+	}
+
+	return &out
+}
+
 // contextWithBaseHTTP returns a context carrying base as the
 // oauth2.HTTPClient value. Used so oauth2.NewClient's TokenSource
 // uses our base transport (custom timeout, custom mTLS Transport)
@@ -369,14 +389,6 @@ func contextWithBaseHTTP(base *http.Client) context.Context {
 	return context.WithValue(context.Background(), oauth2.HTTPClient, base)
 }
 
-// roundTripperFunc is the function-as-RoundTripper adapter the
-// stdlib should ship but doesn't.
-type roundTripperFunc func(*http.Request) (*http.Response, error)
-
-func (f roundTripperFunc) RoundTrip(req *http.Request) (*http.Response, error) {
-	return f(req)
-}
-
 // decodeEnvelopeValue returns the raw bytes from an itemEnvelope.
 // The server always emits base64 in the envelope, but we tolerate
 // the (currently-unused) raw encoding for forward-compatibility.
diff --git a/pkg/client/options.go b/pkg/client/options.go
index 53a6d4f..1c9bf47 100644
--- a/pkg/client/options.go
+++ b/pkg/client/options.go
@@ -48,7 +48,7 @@ func WithBearerAuth(token string) Option {
 			return errBearerEmpty
 		}
 
-		c.http = httpClientWithAuth(c.http, bearerAuthTransport(token))
+		c.http = httpClientWithAuth(c.http, "Bearer "+token)
 
 		return nil
 	}
@@ -72,7 +72,7 @@ func WithBasicAuth(username, password string) Option {
 
 		encoded := base64.StdEncoding.EncodeToString([]byte(username + ":" + password))
 
-		c.http = httpClientWithAuth(c.http, bearerLikeAuthTransport("Basic "+encoded))
+		c.http = httpClientWithAuth(c.http, "Basic "+encoded)
 
 		return nil
 	}
@@ -102,10 +102,7 @@ func WithOIDCClientCredentials(cfg clientcredentials.Config) Option {
 		// refresh transparently. Pass the existing Transport as
 		// the base so any prior WithHTTPClient (e.g. mTLS) is
 		// preserved.
-		base := c.http
-		if base == nil {
-			base = http.DefaultClient
-		}
+		base := httpClientWithoutAuth(c.http)
 
 		baseCtx := contextWithBaseHTTP(base)
 
@@ -116,7 +113,12 @@ func WithOIDCClientCredentials(cfg clientcredentials.Config) Option {
 		// rotation time, not capture time.
 		source := newLoggingTokenSource(cfg.TokenSource(baseCtx), c)
 
-		c.http = oauth2.NewClient(baseCtx, source)
+		out := *base
+
+		// oauth2.NewClient builds on the Transport only.
+		out.Transport = oauth2.NewClient(baseCtx, source).Transport
+
+		c.http = &out
 
 		return nil
 	}
-- 
2.43.0


From 29b549669e8a3ffe7becf048a228b9b4a68b3980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:12 +0000
Subject: [PATCH 10/29] fix: stats readers never see a counted value without
 its min and max

---
 pkg/stats/histogramcollector.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pkg/stats/histogramcollector.go b/pkg/stats/histogramcollector.go
index ee5270e..5bfcfb6 100644
--- a/pkg/stats/histogramcollector.go
+++ b/pkg/stats/histogramcollector.go
@@ -240,9 +240,6 @@ const errCorruptStatsMap = "histogramcollector: stats map contains non-*statShar
 func (c *HistogramStatsCollector) record(key string, value int64) {
 	shard := c.shard(key)
 
-	shard.count.Add(1)
-	shard.sum.Add(value)
-
 	for {
 		cur := shard.minV.Load()
 		if value >= cur || shard.minV.CompareAndSwap(cur, value) {
@@ -257,6 +254,10 @@ func (c *HistogramStatsCollector) record(key string, value int64) {
 		}
 	}
 
+	shard.sum.Add(value)
+	// count last: a reader that sees it also sees this value's min and max
+	shard.count.Add(1)
+
 	if !shard.samplesMu.TryLock() {
 		return
 	}
-- 
2.43.0


From f3ef4e8f42a989e2a543aaac6fb9c87e30e0a534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:12 +0000
Subject: [PATCH 11/29] fix: median of large samples no longer overflows

---
 pkg/stats/histogramcollector.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/stats/histogramcollector.go b/pkg/stats/histogramcollector.go
index 5bfcfb6..8102c8e 100644
--- a/pkg/stats/histogramcollector.go
+++ b/pkg/stats/histogramcollector.go
@@ -283,7 +283,8 @@ func medianOf(sorted []int64) float64 {
 		return float64(sorted[n/2])
 	}
 
-	return float64(sorted[n/2-1]+sorted[n/2]) / 2
+	// halve before adding: the integer sum can overflow
+	return float64(sorted[n/2-1])/2 + float64(sorted[n/2])/2
 }
 
 // percentileOf returns the pth percentile of a sorted slice using
-- 
2.43.0


From a2a344bedfd3a6e83bf2c5bd1c1512cc36436a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:12 +0000
Subject: [PATCH 12/29] fix: a NaN percentile no longer indexes out of range

---
 pkg/stats/histogramcollector.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/stats/histogramcollector.go b/pkg/stats/histogramcollector.go
index 8102c8e..1650a74 100644
--- a/pkg/stats/histogramcollector.go
+++ b/pkg/stats/histogramcollector.go
@@ -296,7 +296,7 @@ func percentileOf(sorted []int64, percentile float64) float64 {
 	}
 
 	switch {
-	case percentile <= 0:
+	case percentile <= 0, math.IsNaN(percentile):
 		return float64(sorted[0])
 	case percentile >= 1:
 		return float64(sorted[n-1])
-- 
2.43.0


From 7a0382ecb757f7504c23138abd74d2b9b455661e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:23 +0000
Subject: [PATCH 13/29] fix: httpauth loader no longer echoes token text from
 YAML parse errors

---
 pkg/httpauth/loader.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/pkg/httpauth/loader.go b/pkg/httpauth/loader.go
index 11c6e16..5092f7e 100644
--- a/pkg/httpauth/loader.go
+++ b/pkg/httpauth/loader.go
@@ -1,8 +1,10 @@
 package httpauth
 
 import (
+	"errors"
 	"fmt"
 	"os"
+	"regexp"
 
 	"github.com/hyp3rd/ewrap"
 	"gopkg.in/yaml.v3"
@@ -163,7 +165,7 @@ func loadFromFile(path string) (Policy, error) {
 
 	err = dec.Decode(&schema)
 	if err != nil {
-		return Policy{}, fmt.Errorf("%w: parse %s: %w", ErrInvalidPolicy, path, err)
+		return Policy{}, fmt.Errorf("%w: parse %s: %w", ErrInvalidPolicy, path, redactParseError(err))
 	}
 
 	policy, err := schemaToPolicy(schema)
@@ -179,6 +181,18 @@ func loadFromFile(path string) (Policy, error) {
 	return policy, nil
 }
 
+// quotedScalar matches the document text yaml.v3 quotes in its error
+// messages: scalar values in backticks, anchor names in single quotes.
+var quotedScalar = regexp.MustCompile("(?s)[`'].*[`']")
+
+// redactParseError strips quoted document text from a YAML parse error.
+// yaml.v3 echoes the scalar it failed on, which for a mis-indented or
+// mis-quoted config is a token or a password hash; the line number, the
+// field name and the reason survive.
+func redactParseError(err error) error {
+	return errors.New(quotedScalar.ReplaceAllLiteralString(err.Error(), "(redacted)"))
+}
+
 // schemaToPolicy lifts the YAML wire shape into the public Policy
 // type. The two-step path (file → schema → Policy) keeps the YAML
 // parsing isolated from the runtime auth shape; users embedding
-- 
2.43.0


From ce9c92181b6897ef36f64a05f8428f42bc5a0e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:38 +0000
Subject: [PATCH 14/29] fix: honour WithTLSConfig and WithDialTimeout in the
 Redis stores

The stores installed their own Dialer, which go-redis prefers over
TLSConfig and DialTimeout: connections configured for TLS were opened in
plain text, credentials included.
---
 pkg/backend/redis/store.go        | 9 ---------
 pkg/backend/rediscluster/store.go | 8 +-------
 2 files changed, 1 insertion(+), 16 deletions(-)

diff --git a/pkg/backend/redis/store.go b/pkg/backend/redis/store.go
index 5a43ff9..54907f3 100644
--- a/pkg/backend/redis/store.go
+++ b/pkg/backend/redis/store.go
@@ -1,8 +1,6 @@
 package redis
 
 import (
-	"context"
-	"net"
 	"strings"
 
 	"github.com/hyp3rd/ewrap"
@@ -21,13 +19,6 @@ type Store struct {
 func New(opts ...Option) (*Store, error) {
 	// Setup redis client
 	opt := &redis.Options{
-		Dialer: func(ctx context.Context, network, addr string) (net.Conn, error) {
-			dialer := &net.Dialer{
-				Timeout: constants.RedisDialTimeout,
-			}
-
-			return dialer.DialContext(ctx, network, addr)
-		},
 		DB:           0,
 		MaxRetries:   constants.RedisClientMaxRetries,
 		DialTimeout:  constants.RedisDialTimeout,
diff --git a/pkg/backend/rediscluster/store.go b/pkg/backend/rediscluster/store.go
index be05d27..05d4c63 100644
--- a/pkg/backend/rediscluster/store.go
+++ b/pkg/backend/rediscluster/store.go
@@ -1,8 +1,6 @@
 package rediscluster
 
 import (
-	"context"
-	"net"
 	"strings"
 
 	"github.com/hyp3rd/ewrap"
@@ -19,11 +17,7 @@ type Store struct {
 // New creates a redis cluster store instance with given options.
 func New(opts ...Option) (*Store, error) {
 	opt := &redis.ClusterOptions{
-		Dialer: func(ctx context.Context, network, addr string) (net.Conn, error) {
-			dialer := &net.Dialer{Timeout: constants.RedisDialTimeout}
-
-			return dialer.DialContext(ctx, network, addr)
-		},
+		DialTimeout:  constants.RedisDialTimeout,
 		MaxRetries:   constants.RedisClientMaxRetries,
 		ReadTimeout:  constants.RedisClientReadTimeout,
 		WriteTimeout: constants.RedisClientWriteTimeout,
-- 
2.43.0


From f2c9d622ab4a11e4902b7e8694f9f492a2070c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:57:05 +0000
Subject: [PATCH 15/29] fix: resizing a shut-down worker pool no longer sends
 on a closed channel

---
 pool.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/pool.go b/pool.go
index 9b225f6..68f71d2 100644
--- a/pool.go
+++ b/pool.go
@@ -20,6 +20,9 @@ type WorkerPool struct {
 	shutdownMu sync.RWMutex
 	closed     bool
 
+	// resizeMu serializes Resize calls and protects workers.
+	resizeMu sync.Mutex
+
 	workers   int
 	jobs      chan JobFunc
 	wg        sync.WaitGroup
@@ -85,12 +88,23 @@ func (pool *WorkerPool) Errors() <-chan error {
 	return pool.errorChan
 }
 
-// Resize resizes the worker pool.
+// Resize resizes the worker pool. It is a no-op once the pool has been shut down.
 func (pool *WorkerPool) Resize(newSize int) {
 	if newSize < 0 {
 		return
 	}
 
+	pool.resizeMu.Lock()
+	defer pool.resizeMu.Unlock()
+
+	// Hold off Shutdown so it cannot close pool.quit between the check and the sends.
+	pool.shutdownMu.RLock()
+	defer pool.shutdownMu.RUnlock()
+
+	if pool.closed {
+		return
+	}
+
 	diff := newSize - pool.workers
 	if diff == 0 {
 		return
-- 
2.43.0


From 451d2fe4ac81b8ab28cd04dbf7a00aa084d184b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:57:59 +0000
Subject: [PATCH 16/29] fix: a worker never blocks on the error channel, so
 Shutdown cannot hang

---
 pool.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pool.go b/pool.go
index 68f71d2..4b6740a 100644
--- a/pool.go
+++ b/pool.go
@@ -84,6 +84,7 @@ func (pool *WorkerPool) Shutdown() {
 }
 
 // Errors returns a channel that can be used to receive errors from the worker pool.
+// The channel is buffered; errors that find it full are dropped.
 func (pool *WorkerPool) Errors() <-chan error {
 	return pool.errorChan
 }
@@ -145,7 +146,12 @@ func (pool *WorkerPool) worker() {
 
 			err := job()
 			if err != nil {
-				pool.errorChan <- err
+				// Never wait for a reader: a worker blocked here would stall
+				// the pool and make Shutdown hang.
+				select {
+				case pool.errorChan <- err:
+				default:
+				}
 			}
 
 			pool.wg.Done()
-- 
2.43.0


From 55b14ed488fec292942157f2a2ce234b0a65f6c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:58:37 +0000
Subject: [PATCH 17/29] fix: a refused item no longer leaks its size into the
 allocation counter

---
 hypercache_io.go | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/hypercache_io.go b/hypercache_io.go
index 320ec44..2bf63c1 100644
--- a/hypercache_io.go
+++ b/hypercache_io.go
@@ -31,11 +31,14 @@ func (hyperCache *HyperCache[T]) Set(ctx context.Context, key string, value any,
 		return err
 	}
 
+	// keep the size: a backend that refuses the item may reset it
+	size := item.Size
+
 	// check if adding this item will exceed the maxCacheSize
-	hyperCache.memoryAllocation.Add(item.Size)
+	hyperCache.memoryAllocation.Add(size)
 
 	if hyperCache.maxCacheSize > 0 && hyperCache.memoryAllocation.Load() > hyperCache.maxCacheSize {
-		hyperCache.memoryAllocation.Add(-item.Size)
+		hyperCache.memoryAllocation.Add(-size)
 
 		return sentinel.ErrCacheFull
 	}
@@ -43,7 +46,7 @@ func (hyperCache *HyperCache[T]) Set(ctx context.Context, key string, value any,
 	// Insert the item into the cache
 	err = hyperCache.backend.Set(ctx, item)
 	if err != nil {
-		hyperCache.memoryAllocation.Add(-item.Size)
+		hyperCache.memoryAllocation.Add(-size)
 		hyperCache.itemPoolManager.Put(item)
 
 		return err
@@ -142,11 +145,14 @@ func (hyperCache *HyperCache[T]) GetOrSet(ctx context.Context, key string, value
 		return nil, err
 	}
 
+	// keep the size: a backend that refuses the item may reset it
+	size := item.Size
+
 	// check if adding this item will exceed the maxCacheSize
-	hyperCache.memoryAllocation.Add(item.Size)
+	hyperCache.memoryAllocation.Add(size)
 
 	if hyperCache.maxCacheSize > 0 && hyperCache.memoryAllocation.Load() > hyperCache.maxCacheSize {
-		hyperCache.memoryAllocation.Add(-item.Size)
+		hyperCache.memoryAllocation.Add(-size)
 		hyperCache.itemPoolManager.Put(item)
 
 		return nil, sentinel.ErrCacheFull
@@ -155,7 +161,7 @@ func (hyperCache *HyperCache[T]) GetOrSet(ctx context.Context, key string, value
 	// Insert the item into the cache
 	err = hyperCache.backend.Set(ctx, item)
 	if err != nil {
-		hyperCache.memoryAllocation.Add(-item.Size)
+		hyperCache.memoryAllocation.Add(-size)
 		hyperCache.itemPoolManager.Put(item)
 
 		return nil, err
-- 
2.43.0


From 777e8a4341d60ea0c4c9d871d90df63181ad8dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:12:24 +0000
Subject: [PATCH 18/29] fix: an in-memory removal that reports cancellation no
 longer happens anyway

---
 pkg/backend/inmemory.go | 40 +++++++++++++---------------------------
 1 file changed, 13 insertions(+), 27 deletions(-)

diff --git a/pkg/backend/inmemory.go b/pkg/backend/inmemory.go
index ac448bf..5a88245 100644
--- a/pkg/backend/inmemory.go
+++ b/pkg/backend/inmemory.go
@@ -113,39 +113,25 @@ func (cacheBackend *InMemory) List(_ context.Context, filters ...IFilter) ([]*ca
 
 // Remove removes items with the given key from the cacheBackend. If an item is not found, it does nothing.
 func (cacheBackend *InMemory) Remove(ctx context.Context, keys ...string) error {
-	done := make(chan struct{})
-
-	go func() {
-		defer close(done)
-
-		for _, key := range keys {
-			cacheBackend.items.Remove(key)
-		}
-	}()
-
-	select {
-	case <-done:
-		return nil
-	case <-ctx.Done():
+	if ctx.Err() != nil {
 		return sentinel.ErrTimeoutOrCanceled
 	}
+
+	for _, key := range keys {
+		cacheBackend.items.Remove(key)
+	}
+
+	return nil
 }
 
 // Clear removes all items from the cacheBackend.
 func (cacheBackend *InMemory) Clear(ctx context.Context) error {
-	done := make(chan struct{})
-
-	go func() {
-		defer close(done)
-
-		// clear the cacheBackend
-		cacheBackend.items.Clear()
-	}()
-
-	select {
-	case <-done:
-		return nil
-	case <-ctx.Done():
+	if ctx.Err() != nil {
 		return sentinel.ErrTimeoutOrCanceled
 	}
+
+	// clear the cacheBackend
+	cacheBackend.items.Clear()
+
+	return nil
 }
-- 
2.43.0


From b57683bcca168b95702204bf1ce1a5b1d3a57c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:12:24 +0000
Subject: [PATCH 19/29] fix: removing a key twice, or in vain, no longer skews
 the allocation counter

---
 hypercache_io.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/hypercache_io.go b/hypercache_io.go
index 2bf63c1..5e8569c 100644
--- a/hypercache_io.go
+++ b/hypercache_io.go
@@ -270,13 +270,14 @@ func (hyperCache *HyperCache[T]) setItemSize(item *cache.Item) error {
 
 // Remove removes items with the given key from the cache. If an item is not found, it does nothing.
 func (hyperCache *HyperCache[T]) Remove(ctx context.Context, keys ...string) error {
-	// Remove the item from the eviction algorithm
-	// and update the memory allocation
+	// Remove the items from the eviction algorithm and note their sizes by key,
+	// so that a key given twice is accounted for once
+	sizes := make(map[string]int64, len(keys))
+
 	for _, key := range keys {
 		item, ok := hyperCache.backend.Get(ctx, key)
 		if ok {
-			// remove the item from the cacheBackend and update the memory allocation
-			hyperCache.memoryAllocation.Add(-item.Size)
+			sizes[key] = item.Size
 			hyperCache.evictionAlgorithm.Delete(key)
 		}
 	}
@@ -286,6 +287,11 @@ func (hyperCache *HyperCache[T]) Remove(ctx context.Context, keys ...string) err
 		return err
 	}
 
+	// the items are gone: update the memory allocation
+	for _, size := range sizes {
+		hyperCache.memoryAllocation.Add(-size)
+	}
+
 	return nil
 }
 
-- 
2.43.0


From 1b5252a579c7662ab156a7f0cccfa9bb14a1373f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:12:24 +0000
Subject: [PATCH 20/29] fix: an expiration trigger drained after its flag was
 cleared no longer blocks all later ones

---
 hypercache_expiration.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/hypercache_expiration.go b/hypercache_expiration.go
index bb2e342..a0c1e46 100644
--- a/hypercache_expiration.go
+++ b/hypercache_expiration.go
@@ -47,9 +47,6 @@ func (hyperCache *HyperCache[T]) handleExpirationSelect(ctx context.Context, tic
 		hyperCache.expirationLoop(ctx)
 	case <-hyperCache.expirationTriggerCh:
 		// manual/coalesced trigger
-		hyperCache.expirationLoop(ctx)
-		hyperCache.expirationSignalPending.Store(false)
-
 		// drain any queued triggers quickly
 		for draining := true; draining; {
 			select {
@@ -60,6 +57,13 @@ func (hyperCache *HyperCache[T]) handleExpirationSelect(ctx context.Context, tic
 			}
 		}
 
+		// Clear the flag only once the channel is drained: a trigger drained
+		// after it would leave the flag set with no signal queued, and every
+		// later trigger would be dropped. The pass starts after it, so that it
+		// covers every trigger coalesced so far.
+		hyperCache.expirationSignalPending.Store(false)
+		hyperCache.expirationLoop(ctx)
+
 	case <-hyperCache.evictCh:
 		// manual eviction trigger
 		hyperCache.evictionLoop(ctx)
-- 
2.43.0


From 755ccc55ed99bc2e39be1e7d4ec01726fb879650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:45:24 +0000
Subject: [PATCH 21/29] fix: keep the clock hand turning until an item can be
 evicted

Every inserted item starts with a second chance, and one revolution only
takes chances away: with all slots warm, Set dropped the new key without
tracking it and Evict reported that there was nothing to evict.
---
 pkg/eviction/clock.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pkg/eviction/clock.go b/pkg/eviction/clock.go
index f36a135..6360bce 100644
--- a/pkg/eviction/clock.go
+++ b/pkg/eviction/clock.go
@@ -41,7 +41,9 @@ func (c *ClockAlgorithm) Evict() (string, bool) {
 		return "", false
 	}
 
-	for range c.capacity {
+	// A revolution only ages the items it passes, so the hand goes around until
+	// one has run out of second chances.
+	for len(c.keys) > 0 {
 		item := c.items[c.hand]
 		if item == nil { // empty slot, advance
 			c.hand = (c.hand + 1) % c.capacity
@@ -164,7 +166,9 @@ func (c *ClockAlgorithm) tryInsertInFreeSlot(key string, value any) bool {
 }
 
 func (c *ClockAlgorithm) evictAndInsert(key string, value any) {
-	for range c.capacity {
+	// Every slot is taken: go around until one has run out of second chances,
+	// or the new key would be left untracked.
+	for len(c.keys) > 0 {
 		item := c.items[c.hand]
 		if item == nil { // skip empty
 			c.advanceHand()
-- 
2.43.0


From db5bba76235c3135e7938aed75bf6502f1af0a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:46:24 +0000
Subject: [PATCH 22/29] fix: guard a shard's tombstones with a lock

Remove, the tombstone sweeper and anti-entropy read and write the map from
their own goroutines: two concurrent deletes ended the process with
"concurrent map writes".
---
 pkg/backend/dist_memory.go | 51 +++++++++++++++++++++++++++++++++-----
 1 file changed, 45 insertions(+), 6 deletions(-)

diff --git a/pkg/backend/dist_memory.go b/pkg/backend/dist_memory.go
index 0030471..9728104 100644
--- a/pkg/backend/dist_memory.go
+++ b/pkg/backend/dist_memory.go
@@ -366,6 +366,7 @@ func (dm *DistMemory) LifecycleContext() context.Context { return dm.lifeCtx }
 type distShard struct {
 	items             cache.ConcurrentMap
 	tombs             map[string]tombstone        // per-key tombstones
+	tombsMu           sync.RWMutex                // guards tombs
 	originalPrimary   map[string]cluster.NodeID   // recorded primary owner at first insert
 	originalPrimaryMu sync.RWMutex                // guards originalPrimary
 	originalOwners    map[string][]cluster.NodeID // recorded full owner set at first insert (for replica diff)
@@ -374,6 +375,32 @@ type distShard struct {
 	removedAtMu       sync.Mutex                  // guards removedAt
 }
 
+// tombstoneOf returns the tombstone recorded for key, if any.
+func (sh *distShard) tombstoneOf(key string) (tombstone, bool) {
+	sh.tombsMu.RLock()
+	defer sh.tombsMu.RUnlock()
+
+	ts, ok := sh.tombs[key]
+
+	return ts, ok
+}
+
+// setTombstone records the tombstone of key.
+func (sh *distShard) setTombstone(key string, ts tombstone) {
+	sh.tombsMu.Lock()
+	defer sh.tombsMu.Unlock()
+
+	sh.tombs[key] = ts
+}
+
+// clearTombstone forgets the tombstone of key.
+func (sh *distShard) clearTombstone(key string) {
+	sh.tombsMu.Lock()
+	defer sh.tombsMu.Unlock()
+
+	delete(sh.tombs, key)
+}
+
 // DistMemoryOption configures DistMemory backend.
 type DistMemoryOption func(*DistMemory)
 
@@ -1194,7 +1221,7 @@ func (dm *DistMemory) DebugInject(it *cache.Item) {
 
 	sh := dm.shardFor(it.Key)
 	// test helper: injecting a concrete item implies intent to resurrect; clear any tombstone so normal version comparison applies
-	delete(sh.tombs, it.Key)
+	sh.clearTombstone(it.Key)
 	sh.items.Set(it.Key, it)
 }
 
@@ -1875,7 +1902,7 @@ func (dm *DistMemory) fetchAndAdopt(ctx context.Context, nodeID, key string) {
 	sh := dm.shardFor(key)
 
 	if !ok { // remote missing key (could be delete) -> adopt tombstone locally if we still have it
-		if _, hasTomb := sh.tombs[key]; hasTomb { // already have tombstone
+		if _, hasTomb := sh.tombstoneOf(key); hasTomb { // already have tombstone
 			return
 		}
 
@@ -1884,21 +1911,21 @@ func (dm *DistMemory) fetchAndAdopt(ctx context.Context, nodeID, key string) {
 
 			nextVer := cur.Version + 1
 
-			sh.tombs[key] = tombstone{version: nextVer, origin: string(dm.localNode.ID), at: time.Now()}
+			sh.setTombstone(key, tombstone{version: nextVer, origin: string(dm.localNode.ID), at: time.Now()})
 			dm.metrics.tombstonesActive.Store(dm.countTombstones())
 		}
 
 		return
 	}
 
-	if tomb, hasTomb := sh.tombs[key]; hasTomb {
+	if tomb, hasTomb := sh.tombstoneOf(key); hasTomb {
 		// If tombstone version newer or equal, do not resurrect
 		if tomb.version >= it.Version {
 			return
 		}
 
 		// remote has newer version; clear tombstone (key resurrected intentionally)
-		delete(sh.tombs, key)
+		sh.clearTombstone(key)
 		dm.metrics.tombstonesActive.Store(dm.countTombstones())
 	}
 
@@ -1921,9 +1948,13 @@ func (dm *DistMemory) merkleEntries() []merkleKV {
 			entries = append(entries, merkleKV{k: k, v: it.Version})
 		}
 
+		shard.tombsMu.RLock()
+
 		for k, ts := range shard.tombs { // include tombstones
 			entries = append(entries, merkleKV{k: k, v: ts.version})
 		}
+
+		shard.tombsMu.RUnlock()
 	}
 
 	return entries
@@ -1974,6 +2005,8 @@ func (dm *DistMemory) compactTombstones() int64 {
 			continue
 		}
 
+		sh.tombsMu.Lock()
+
 		for k, ts := range sh.tombs {
 			if now.Sub(ts.at) >= dm.tombstoneTTL {
 				delete(sh.tombs, k)
@@ -1981,6 +2014,8 @@ func (dm *DistMemory) compactTombstones() int64 {
 				purged++
 			}
 		}
+
+		sh.tombsMu.Unlock()
 	}
 
 	return purged
@@ -1995,7 +2030,11 @@ func (dm *DistMemory) countTombstones() int64 {
 			continue
 		}
 
+		sh.tombsMu.RLock()
+
 		total += int64(len(sh.tombs))
+
+		sh.tombsMu.RUnlock()
 	}
 
 	return total
@@ -4624,7 +4663,7 @@ func (dm *DistMemory) applyRemove(ctx context.Context, key string, replicate boo
 
 	sh.items.Remove(key)
 
-	sh.tombs[key] = tombstone{version: nextVer, origin: string(dm.localNode.ID), at: time.Now()}
+	sh.setTombstone(key, tombstone{version: nextVer, origin: string(dm.localNode.ID), at: time.Now()})
 	dm.metrics.tombstonesActive.Store(dm.countTombstones())
 
 	transport := dm.loadTransport()
-- 
2.43.0


From a8bb1308022d4a7ea22b38746bfc1254ab26541b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:46:43 +0000
Subject: [PATCH 23/29] fix: a hint dropped for a new one leaves the queue

queueHint took the oldest hint of a full queue off the totals and then, when
the new hint exceeded the byte limit, returned without storing the shortened
queue: the dropped hint stayed queued but unaccounted, so the totals fell
behind and the limits were exceeded.
---
 pkg/backend/dist_memory.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/backend/dist_memory.go b/pkg/backend/dist_memory.go
index 9728104..83d0154 100644
--- a/pkg/backend/dist_memory.go
+++ b/pkg/backend/dist_memory.go
@@ -3007,6 +3007,7 @@ func (dm *DistMemory) queueHint(nodeID string, item *cache.Item, source hintSour
 		dropped := queue[0]
 
 		queue = queue[1:]
+		dm.hints[nodeID] = queue // it is no longer accounted for, whatever becomes of the new hint
 
 		dm.adjustHintAccounting(-1, -dropped.size)
 	}
-- 
2.43.0


From 96747eb31dd5ca2e89f6d3a1f4f00bb7ffa03717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:48:02 +0000
Subject: [PATCH 24/29] fix: Stop leaves the read-repair queue in place

A read that repairs a replica checks the queue and then uses it; Stop set it
to nil in between without any synchronisation, which is a data race and can
end in a nil dereference. A stopped queue needs no unsetting: stop is
idempotent.
---
 pkg/backend/dist_memory.go | 2 --
 1 file changed, 2 deletions(-)

diff --git a/pkg/backend/dist_memory.go b/pkg/backend/dist_memory.go
index 83d0154..7f19909 100644
--- a/pkg/backend/dist_memory.go
+++ b/pkg/backend/dist_memory.go
@@ -1507,8 +1507,6 @@ func (dm *DistMemory) Stop(ctx context.Context) error {
 		// stop() blocks until the flusher goroutine emits its final
 		// flushAll and exits.
 		dm.repairQueue.stop()
-
-		dm.repairQueue = nil
 	}
 
 	// Unregister the OTel metric callback before tearing down the HTTP
-- 
2.43.0


From 6128e4c9c218ee12b172b90edc060c63bd6dcc01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:10:46 +0000
Subject: [PATCH 25/29] fix: a tombstone's version never goes down

---
 pkg/backend/dist_memory.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pkg/backend/dist_memory.go b/pkg/backend/dist_memory.go
index 7f19909..0e0809e 100644
--- a/pkg/backend/dist_memory.go
+++ b/pkg/backend/dist_memory.go
@@ -385,11 +385,16 @@ func (sh *distShard) tombstoneOf(key string) (tombstone, bool) {
 	return ts, ok
 }
 
-// setTombstone records the tombstone of key.
+// setTombstone records the tombstone of key. Its version never goes down:
+// a second removal must not let a copy the first one covers come back.
 func (sh *distShard) setTombstone(key string, ts tombstone) {
 	sh.tombsMu.Lock()
 	defer sh.tombsMu.Unlock()
 
+	if old, ok := sh.tombs[key]; ok && old.version > ts.version {
+		ts.version = old.version
+	}
+
 	sh.tombs[key] = ts
 }
 
-- 
2.43.0


From d2e80f285d1e016ebab7c84259a86179d711b1e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:36:08 +0000
Subject: [PATCH 26/29] fix: detach keys from fiber's request buffer before the
 cache keeps them

---
 cmd/hypercache-server/main.go   | 17 ++++++++++++-----
 pkg/backend/dist_http_server.go |  5 ++++-
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/cmd/hypercache-server/main.go b/cmd/hypercache-server/main.go
index 57a3d91..2d89241 100644
--- a/cmd/hypercache-server/main.go
+++ b/cmd/hypercache-server/main.go
@@ -622,6 +622,13 @@ func classifyAndRespond(c fiber.Ctx, err error) error {
 	}
 }
 
+// pathKey returns the request's :key path parameter, detached from
+// fiber's pooled request buffer: the cache keeps keys (eviction
+// bookkeeping, hints, tombstones) long after the handler returned.
+func pathKey(c fiber.Ctx) string {
+	return strings.Clone(c.Params("key"))
+}
+
 // putResponse documents the JSON shape returned on a successful PUT.
 // Owners + Node let the operator immediately see where the value
 // landed in the ring — invaluable when debugging cluster topology
@@ -687,7 +694,7 @@ const (
 // owners list is the operator's visibility into where the value
 // actually landed across the cluster.
 func handlePut(c fiber.Ctx, nodeCtx *nodeContext) error {
-	key := c.Params("key")
+	key := pathKey(c)
 	if key == "" {
 		return jsonErr(c, fiber.StatusBadRequest, codeBadRequest, "missing key in path")
 	}
@@ -875,7 +882,7 @@ func setItemHeaders(c fiber.Ctx, key string, it *cache.Item, nodeCtx *nodeContex
 // owners, etc. Lets API clients fetch metadata in one round-trip
 // instead of GET + HEAD.
 func handleGet(c fiber.Ctx, nodeCtx *nodeContext) error {
-	key := c.Params("key")
+	key := pathKey(c)
 	if key == "" {
 		return jsonErr(c, fiber.StatusBadRequest, codeBadRequest, "missing key in path")
 	}
@@ -1174,7 +1181,7 @@ func classifyErrCode(err error) string {
 // without paying the value-transfer cost. Useful for
 // cache-revalidation flows and conditional logic.
 func handleHead(c fiber.Ctx, nodeCtx *nodeContext) error {
-	key := c.Params("key")
+	key := pathKey(c)
 	if key == "" {
 		return c.SendStatus(fiber.StatusBadRequest)
 	}
@@ -1285,7 +1292,7 @@ func decodeBase64Bytes(s string) ([]byte, bool) {
 // supposed to live — useful for follow-up retries against a
 // peer.
 func handleDelete(c fiber.Ctx, nodeCtx *nodeContext) error {
-	key := c.Params("key")
+	key := pathKey(c)
 	if key == "" {
 		return jsonErr(c, fiber.StatusBadRequest, codeBadRequest, "missing key in path")
 	}
@@ -1310,7 +1317,7 @@ func handleDelete(c fiber.Ctx, nodeCtx *nodeContext) error {
 // the owners array even when the key has never been written, since
 // the ring is deterministic from the key + membership.
 func handleOwners(c fiber.Ctx, nodeCtx *nodeContext) error {
-	key := c.Params("key")
+	key := pathKey(c)
 	if key == "" {
 		return jsonErr(c, fiber.StatusBadRequest, codeBadRequest, "missing key in path")
 	}
diff --git a/pkg/backend/dist_http_server.go b/pkg/backend/dist_http_server.go
index 35005a9..7806481 100644
--- a/pkg/backend/dist_http_server.go
+++ b/pkg/backend/dist_http_server.go
@@ -9,6 +9,7 @@ import (
 	"net"
 	"net/http"
 	"strconv"
+	"strings"
 	"sync/atomic"
 	"time"
 
@@ -432,7 +433,9 @@ func (s *distHTTPServer) registerGet(dm *DistMemory) {
 // to replicas. Uses s.ctx for backend operations — see the comment on
 // distHTTPServer.ctx for why per-request fiber.Ctx is unsafe here.
 func (s *distHTTPServer) handleRemove(fctx fiber.Ctx, dm *DistMemory) error {
-	key := fctx.Query("key")
+	// Detached from fiber's pooled request buffer: the tombstone keeps
+	// the key after this handler returned.
+	key := strings.Clone(fctx.Query("key"))
 	if key == "" {
 		return fctx.Status(fiber.StatusBadRequest).JSON(fiber.Map{constants.ErrorLabel: constants.ErrMsgMissingCacheKey})
 	}
-- 
2.43.0


From 13be081950cc5c603b5ee8ab5796011c1577f6e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:36:34 +0000
Subject: [PATCH 27/29] fix: decode the key in the client API's path

---
 cmd/hypercache-server/main.go | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/cmd/hypercache-server/main.go b/cmd/hypercache-server/main.go
index 2d89241..54b2d1a 100644
--- a/cmd/hypercache-server/main.go
+++ b/cmd/hypercache-server/main.go
@@ -26,6 +26,7 @@ import (
 	"log/slog"
 	"net"
 	"net/http"
+	"net/url"
 	"os"
 	"os/signal"
 	"strconv"
@@ -622,11 +623,20 @@ func classifyAndRespond(c fiber.Ctx, err error) error {
 	}
 }
 
-// pathKey returns the request's :key path parameter, detached from
-// fiber's pooled request buffer: the cache keeps keys (eviction
-// bookkeeping, hints, tombstones) long after the handler returned.
+// pathKey returns the request's :key path parameter, percent-decoded
+// (so it names the same key the batch endpoints take from their JSON
+// body) and detached from fiber's pooled request buffer: the cache
+// keeps keys (eviction bookkeeping, hints, tombstones) long after the
+// handler returned. A malformed escape is taken literally.
 func pathKey(c fiber.Ctx) string {
-	return strings.Clone(c.Params("key"))
+	raw := c.Params("key")
+
+	key, err := url.PathUnescape(raw)
+	if err != nil {
+		key = raw
+	}
+
+	return strings.Clone(key)
 }
 
 // putResponse documents the JSON shape returned on a successful PUT.
-- 
2.43.0


From 5edbfc7b976f2ce72532011a4a8639beb4bf72be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:22:05 +0000
Subject: [PATCH 28/29] fix: a key listing over HTTP that cannot reach its last
 page is an error

---
 pkg/backend/dist_http_transport.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pkg/backend/dist_http_transport.go b/pkg/backend/dist_http_transport.go
index bc1c1e8..abdf961 100644
--- a/pkg/backend/dist_http_transport.go
+++ b/pkg/backend/dist_http_transport.go
@@ -479,7 +479,9 @@ func (t *DistHTTPTransport) ListKeys(ctx context.Context, nodeID, pattern string
 		cursor string
 	)
 
-	const safetyLimit = 1024 // upper bound to prevent infinite loop on a buggy server
+	// Upper bound to prevent an infinite loop on a buggy server. One page
+	// is one shard, so it has to stay above any realistic shard count.
+	const safetyLimit = 1 << 20
 
 	for range safetyLimit {
 		page, err := t.listKeysPage(ctx, nodeID, cursor, pattern)
@@ -497,7 +499,7 @@ func (t *DistHTTPTransport) ListKeys(ctx context.Context, nodeID, pattern string
 		// Without bumping limit, we'd loop forever — but ListKeys
 		// never sets a limit (it asks for the full shard each time),
 		// so server-side truncation cannot occur on this path.
-		// Defensive: break if cursor doesn't advance.
+		// Defensive: give up if cursor doesn't advance.
 		if page.NextCursor == cursor {
 			break
 		}
@@ -505,7 +507,9 @@ func (t *DistHTTPTransport) ListKeys(ctx context.Context, nodeID, pattern string
 		cursor = page.NextCursor
 	}
 
-	return all, nil
+	// The last page was never reached: the keys so far must not pass for
+	// the full set.
+	return nil, ewrap.New("list keys: pagination did not reach the last page")
 }
 
 // listKeysPage is the per-page fetch for ListKeys; broken out so the
-- 
2.43.0


From 6c9b977e727d51e797fecd5e0f9a165271ebdaa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:36:43 +0000
Subject: [PATCH 29/29] fix: an OIDC-only server is not open to anonymous
 requests

---
 cmd/hypercache-server/main.go | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/cmd/hypercache-server/main.go b/cmd/hypercache-server/main.go
index 54b2d1a..3c2f200 100644
--- a/cmd/hypercache-server/main.go
+++ b/cmd/hypercache-server/main.go
@@ -1596,12 +1596,20 @@ func run() int {
 
 	slog.SetDefault(logger)
 
+	ctx, cancel := context.WithCancel(context.Background())
+	defer cancel()
+
+	if !attachOIDCVerifier(ctx, &cfg, logger) {
+		return 1
+	}
+
 	// Preserve the pre-v2 zero-config dev posture: when neither
 	// HYPERCACHE_AUTH_CONFIG nor HYPERCACHE_AUTH_TOKEN is set, the
 	// loader returns the zero Policy, and we explicitly opt into
 	// AllowAnonymous mode here with a loud warning. Without this,
 	// every protected route would 401 — every existing
-	// `docker run hypercache` would break on upgrade.
+	// `docker run hypercache` would break on upgrade. Decided after the
+	// OIDC verifier is attached: an OIDC-only deployment has auth.
 	if !cfg.AuthPolicy.IsConfigured() {
 		logger.Warn(
 			"hypercache-server running with no client API auth configured; set " +
@@ -1611,13 +1619,6 @@ func run() int {
 		cfg.AuthPolicy.AllowAnonymous = true
 	}
 
-	ctx, cancel := context.WithCancel(context.Background())
-	defer cancel()
-
-	if !attachOIDCVerifier(ctx, &cfg, logger) {
-		return 1
-	}
-
 	logger.Info(
 		"hypercache-server starting",
 		slog.String("api_addr", cfg.APIAddr),
-- 
2.43.0

