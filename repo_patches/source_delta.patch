From 35179a1de340fa53a5c6f5314e5aa8e129e8700b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:05 +0000
Subject: [PATCH 01/21] fix: confstore Update persists accepted values, not
 rejected ones

---
 confstore/store.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/confstore/store.go b/confstore/store.go
index 0ae24ce..2b9dded 100644
--- a/confstore/store.go
+++ b/confstore/store.go
@@ -125,7 +125,7 @@ func (m *defaultImpl) BatchUpdate(kvStrs []*KVStr) []*KVError {
 
 func (m *defaultImpl) Update(key string, value string) *KVError {
 	err := m.UpdateNoPersist(key, value)
-	if err != nil {
+	if err == nil && key != "" {
 		err2 := m.persister.Save(key, value)
 		if err2 != nil {
 			simplelog.ErrLogger.Printf("error happened when persist key[%s] value[%s]\n", key, value)
-- 
2.43.0


From 253cff41e5ad3e8909c184798dc542797288aa52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:06 +0000
Subject: [PATCH 02/21] fix: confstore BatchUpdate persists exactly the
 accepted entries

---
 confstore/store.go | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/confstore/store.go b/confstore/store.go
index 2b9dded..37de67b 100644
--- a/confstore/store.go
+++ b/confstore/store.go
@@ -100,25 +100,21 @@ func (m *defaultImpl) BatchUpdate(kvStrs []*KVStr) []*KVError {
 		return nil
 	}
 
+	okKvStrs := make([]*KVStr, 0, len(kvStrs))
 	for _, kvStr := range kvStrs {
 		error := m.UpdateNoPersist(kvStr.Key, kvStr.Value)
 		if error != nil {
 			errors = append(errors, error)
+			continue
 		}
-	}
-
-	// batch persist kvStrs
-	errorKeys := make(map[string]bool)
-	for _, kvError := range errors {
-		errorKeys[kvError.Key] = true
-	}
-	okKvStrs := make([]*KVStr, 0, len(kvStrs))
-	for _, kvStr := range kvStrs {
-		if errorKeys[kvStr.Key] {
+		if kvStr.Key == "" {
+			// ignored, not updated
 			continue
 		}
 		okKvStrs = append(okKvStrs, kvStr)
 	}
+
+	// batch persist kvStrs
 	m.persister.BatchSave(okKvStrs)
 	return errors
 }
-- 
2.43.0


From efb121cb026f431929705e6b5a39156cf491ea9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:06 +0000
Subject: [PATCH 03/21] fix: confstore update must not store a value for a key
 deregistered meanwhile

---
 confstore/store.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/confstore/store.go b/confstore/store.go
index 37de67b..a9a1ffd 100644
--- a/confstore/store.go
+++ b/confstore/store.go
@@ -136,10 +136,11 @@ func (m *defaultImpl) UpdateNoPersist(key string, value string) *KVError {
 		return nil
 	}
 
+	// hold the lock until the value is updated, so that the key cannot be deregistered meanwhile
 	m.kvProcessorLock.RLock()
-	p, hit := m.kvProcessor[key]
-	m.kvProcessorLock.RUnlock()
+	defer m.kvProcessorLock.RUnlock()
 
+	p, hit := m.kvProcessor[key]
 	if !hit {
 		return &KVError{
 			Key:   key,
-- 
2.43.0


From 814571867206dfb64a40415b5a43a3786fcb7b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:07 +0000
Subject: [PATCH 04/21] fix: closing an unregistered event receiver must not
 panic or close another one

---
 event/bus.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/event/bus.go b/event/bus.go
index fe214a0..4d5885d 100644
--- a/event/bus.go
+++ b/event/bus.go
@@ -103,10 +103,13 @@ func (b *FanOutBus) doDispatch() {
 	}
 }
 
-func (b *FanOutBus) deregisterRecv(name string) {
+func (b *FanOutBus) deregisterRecv(recv *Receiver) {
 	b.recvMapLock.Lock()
-	close(b.recvMap[name].ch)
-	delete(b.recvMap, name)
+	// recv may have been closed already, or replaced by another Receiver of the same name
+	if b.recvMap[recv.name] == recv {
+		close(recv.ch)
+		delete(b.recvMap, recv.name)
+	}
 	b.recvMapLock.Unlock()
 }
 
@@ -131,7 +134,7 @@ type Receiver struct {
 
 // Close Receiver.C, deregistered itself from event bus
 func (r *Receiver) Close() {
-	r.bus.deregisterRecv(r.name)
+	r.bus.deregisterRecv(r)
 }
 
 // Drain drains Receiver.C until it's empty
-- 
2.43.0


From b0892eb9cce795d54c5835400db8f882dc58ba3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:07 +0000
Subject: [PATCH 05/21] fix: Receiver.CollectTimeout stops when the channel is
 closed

---
 event/bus.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/event/bus.go b/event/bus.go
index 4d5885d..6d7493f 100644
--- a/event/bus.go
+++ b/event/bus.go
@@ -162,7 +162,10 @@ func (r *Receiver) CollectTimeout(timeout time.Duration) (data []interface{}) {
 drained:
 	for {
 		select {
-		case d := <-r.C:
+		case d, ok := <-r.C:
+			if !ok {
+				break drained
+			}
 			data = append(data, d)
 		case <-timer.C:
 			break drained
-- 
2.43.0


From 6a66911e3d6264ec323b82c75a33376f39c1cd94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:07 +0000
Subject: [PATCH 06/21] fix: fixed window advance must be exact for nanosecond
 timestamps

---
 ratelimiter/fixedwindow.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ratelimiter/fixedwindow.go b/ratelimiter/fixedwindow.go
index c7abf31..7eb9fad 100644
--- a/ratelimiter/fixedwindow.go
+++ b/ratelimiter/fixedwindow.go
@@ -19,7 +19,6 @@ package ratelimiter
 
 import (
 	gtime "github.com/chanjarster/gears/util/time"
-	"math"
 	"sync"
 	"time"
 )
@@ -99,6 +98,9 @@ func (s *SyncFixedWindow) reset(ts int64) {
 	if s.contains(ts) {
 		return
 	}
-	s.until += int64(math.Ceil(float64(ts-s.until)/float64(s.windowSize))) * s.windowSize
+	if s.windowSize > 0 {
+		// round up in integers, float64 is not precise enough for nanosecond timestamps
+		s.until += ((ts-s.until-1)/s.windowSize + 1) * s.windowSize
+	}
 	s.count = 0
 }
-- 
2.43.0


From 71229cfade0a454c90be2298c67e2047f9790e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:08 +0000
Subject: [PATCH 07/21] fix: AtomicTokenBucket must not issue tokens twice for
 one interval

---
 ratelimiter/tokenbucket.go | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/ratelimiter/tokenbucket.go b/ratelimiter/tokenbucket.go
index 7ded46a..1e29cb3 100644
--- a/ratelimiter/tokenbucket.go
+++ b/ratelimiter/tokenbucket.go
@@ -154,24 +154,21 @@ func (t *AtomicTokenBucket) issueIfNecessary() {
 			return
 		}
 
-		if oldTokens+delta > int64(t.capacity) {
-			delta = int64(t.capacity) - oldTokens
-		}
-
-		s1 := atomic.CompareAndSwapInt64(&t.tokens, oldTokens, oldTokens+delta)
-		if !s1 {
+		// claim the elapsed interval first, so that no other goroutine can issue tokens for it
+		if !atomic.CompareAndSwapInt64(&t.lastIssueTimestamp, oldLit, nowNano) {
 			continue
 		}
 
-		s2 := atomic.CompareAndSwapInt64(&t.lastIssueTimestamp, oldLit, nowNano)
-		if !s2 {
-			if s1 {
-				atomic.AddInt64(&t.tokens, -delta)
+		for {
+			newTokens := oldTokens + delta
+			if newTokens > int64(t.capacity) {
+				newTokens = int64(t.capacity)
 			}
-			continue
+			if atomic.CompareAndSwapInt64(&t.tokens, oldTokens, newTokens) {
+				return
+			}
+			oldTokens = atomic.LoadInt64(&t.tokens)
 		}
-
-		break
 	}
 
 }
-- 
2.43.0


From 5945a100b80161171156b70d871133dd0a8a3168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:08 +0000
Subject: [PATCH 08/21] fix: IsBlocked must query the hash-tagged block key in
 cluster mode

---
 ratelimiter/ttl_ratelimiter_redis.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ratelimiter/ttl_ratelimiter_redis.go b/ratelimiter/ttl_ratelimiter_redis.go
index c0e5f6d..8601ef1 100644
--- a/ratelimiter/ttl_ratelimiter_redis.go
+++ b/ratelimiter/ttl_ratelimiter_redis.go
@@ -163,6 +163,10 @@ func (r *redisTtlRateLimiter) IsBlockedContext(ctx context.Context, blockKey str
 	result := &Result{}
 	blockKey = blockKey + suffix
 
+	if r.hashTag != "" {
+		blockKey = blockKey + r.hashTag
+	}
+
 	//local keyb = KEYS[1]
 	raw, err := r.redisClient.WithContext(ctx).EvalSha(
 		scriptSha2,
-- 
2.43.0


From 913609e2561f7a05d457934743a9e9903843c2be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:08 +0000
Subject: [PATCH 09/21] fix: request records must not expire before the window
 ends

---
 ratelimiter/ttl_ratelimiter_redis.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ratelimiter/ttl_ratelimiter_redis.go b/ratelimiter/ttl_ratelimiter_redis.go
index 8601ef1..7a8b44f 100644
--- a/ratelimiter/ttl_ratelimiter_redis.go
+++ b/ratelimiter/ttl_ratelimiter_redis.go
@@ -75,7 +75,7 @@ local size = redis.call('LLEN', key)
 if size < cap
 then
   redis.call('RPUSH', key, now)
-  redis.call('EXPIRE', key, exp * 2)
+  redis.call('EXPIRE', key, math.max(exp * 2, win + 1))
   return {0, 0, 0, ''}
 end
 
@@ -93,7 +93,7 @@ local list = redis.call('LRANGE', key, 0, 0)
 if table.getn(list) == 0
 then
   redis.call('RPUSH', key, now)
-  redis.call('EXPIRE', key, exp * 2)
+  redis.call('EXPIRE', key, math.max(exp * 2, win + 1))
   return {0, 0, 0, ''}
 end
 
@@ -102,7 +102,7 @@ if now - oldest > win
 then
   redis.call('RPUSH', key, now)
   redis.call('LPOP', key)
-  redis.call('EXPIRE', key, exp * 2)
+  redis.call('EXPIRE', key, math.max(exp * 2, win + 1))
   return {0, 0, 0, ''}
 end
 
-- 
2.43.0


From a3f303529e66a65b08ab181b7b4c17b74bb55b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:09 +0000
Subject: [PATCH 10/21] fix: css color must be exactly # and six hex digits

---
 confstore/procs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/confstore/procs.go b/confstore/procs.go
index e3effbe..3e44ad3 100644
--- a/confstore/procs.go
+++ b/confstore/procs.go
@@ -165,7 +165,7 @@ func (c *cssColorHex) Validate(value string) (ok bool, err string) {
 		return true, ""
 	}
 
-	match, error := regexp.MatchString("#[a-fA-F0-9]{6}", value)
+	match, error := regexp.MatchString("^#[a-fA-F0-9]{6}$", value)
 	if error != nil {
 		return false, error.Error()
 	}
-- 
2.43.0


From 88d9235cae75f9f0e9f17fa8daa1c186dea64844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:09 +0000
Subject: [PATCH 11/21] fix: ReadPublicKey returns an error for keys other than
 RSA instead of panicking

---
 util/rsa/util.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/util/rsa/util.go b/util/rsa/util.go
index df1c2e1..ac24f81 100644
--- a/util/rsa/util.go
+++ b/util/rsa/util.go
@@ -77,7 +77,11 @@ func ReadPublicKeyBytes(pemBytes []byte) (*rsa.PublicKey, error) {
 	if err != nil {
 		return nil, err
 	}
-	return pub.(*rsa.PublicKey), nil
+	rsaPub, ok := pub.(*rsa.PublicKey)
+	if !ok {
+		return nil, errors.New("not RSA PUBLIC KEY")
+	}
+	return rsaPub, nil
 }
 
 func ReadX509Certificate(pem string) (*x509.Certificate, error) {
-- 
2.43.0


From 6ea8dabae46e2a7ae4acd3052b9eec2dd397499b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:10 +0000
Subject: [PATCH 12/21] fix: print MaxOpenConns of database configurations

---
 confs/mysql.go      | 2 +-
 confs/oracle.go     | 2 +-
 confs/postgresql.go | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/confs/mysql.go b/confs/mysql.go
index d754b5d..7fc9902 100644
--- a/confs/mysql.go
+++ b/confs/mysql.go
@@ -85,7 +85,7 @@ type MysqlConf struct {
 
 func (m *MysqlConf) String() string {
 	return fmt.Sprintf("{Host: %s, Port: %d, Username: ***, Password: ***, Database: %s, MaxOpenConns: %v, MaxIdleConns: %v, ConnMaxLifetime: %v, ReadTimeout: %v, WriteTimeout: %v, Timeout: %v, Loc: %v, ParseTime: %v, Params: %v}",
-		m.Host, m.Port, m.Database, m.MaxIdleConns, m.MaxIdleConns, m.ConnMaxLifetime, m.ReadTimeout,
+		m.Host, m.Port, m.Database, m.MaxOpenConns, m.MaxIdleConns, m.ConnMaxLifetime, m.ReadTimeout,
 		m.WriteTimeout, m.Timeout, m.Loc, m.ParseTime, m.Params)
 }
 
diff --git a/confs/oracle.go b/confs/oracle.go
index a8e100e..cf00ca6 100644
--- a/confs/oracle.go
+++ b/confs/oracle.go
@@ -60,7 +60,7 @@ type OracleConf struct {
 
 func (c *OracleConf) String() string {
 	return fmt.Sprintf("{Host: %s, Port: %d, Username: ***, Password: ***, Service: %s, Sid: %s, Servers: %s, MaxOpenConns: %v, MaxIdleConns: %v, ConnMaxLifetime: %v, ConnectTimeout: %v, Params: %v}",
-		c.Host, c.Port, c.Service, c.Sid, c.Servers, c.MaxIdleConns, c.MaxIdleConns,
+		c.Host, c.Port, c.Service, c.Sid, c.Servers, c.MaxOpenConns, c.MaxIdleConns,
 		c.ConnMaxLifetime, c.ConnectTimeout, c.Params)
 }
 
diff --git a/confs/postgresql.go b/confs/postgresql.go
index b52cb87..9da0b78 100644
--- a/confs/postgresql.go
+++ b/confs/postgresql.go
@@ -58,7 +58,7 @@ type PostgresqlConf struct {
 
 func (c *PostgresqlConf) String() string {
 	return fmt.Sprintf("{Host: %s, Port: %d, Username: ***, Password: ***, Database: %s, MaxOpenConns: %v, MaxIdleConns: %v, ConnMaxLifetime: %v, ConnectTimeout: %v, Params: %v}",
-		c.Host, c.Port, c.Database, c.MaxIdleConns, c.MaxIdleConns,
+		c.Host, c.Port, c.Database, c.MaxOpenConns, c.MaxIdleConns,
 		c.ConnMaxLifetime, c.ConnectTimeout, c.Params)
 }
 
-- 
2.43.0


From c453b92432bf4fa671872fe59cc0e9a1707c9a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:11 +0000
Subject: [PATCH 13/21] fix: Elasticsearch connection limits must go to the
 matching transport options

---
 confs/es.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/confs/es.go b/confs/es.go
index bcc000d..47e948c 100644
--- a/confs/es.go
+++ b/confs/es.go
@@ -34,8 +34,8 @@ func NewEsClient(conf *EsConf, customizer EsConfigCustomizer) *elasticsearch.Cli
 	}
 
 	transport := http.DefaultTransport.(*http.Transport).Clone()
-	transport.MaxIdleConnsPerHost = conf.MaxConnsPerHost
-	transport.MaxIdleConns = conf.MaxIdleConnsPerHost
+	transport.MaxConnsPerHost = conf.MaxConnsPerHost
+	transport.MaxIdleConnsPerHost = conf.MaxIdleConnsPerHost
 	transport.ResponseHeaderTimeout = time.Second * 60
 
 	esConf.Transport = transport
-- 
2.43.0


From 9c3b6e2de25e008a25c906ce2024d12fbbfe927e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:12 +0000
Subject: [PATCH 14/21] fix: custom trust certs of fasthttp client must take
 effect without client certificate

---
 confs/fasthttpclient.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/confs/fasthttpclient.go b/confs/fasthttpclient.go
index d9ff944..beff76a 100644
--- a/confs/fasthttpclient.go
+++ b/confs/fasthttpclient.go
@@ -97,6 +97,7 @@ func NewFastHttpClient(hcConf *FastHttpClientConf, customizer FastHttpClientCust
 			appendCertPool(certPool, cert)
 		}
 		tlsConfig.RootCAs = certPool
+		tlsConfigured = true
 	} else if hcConf.SslTrustMode == "INSECURE" {
 		tlsConfig.InsecureSkipVerify = true
 		tlsConfigured = true
-- 
2.43.0


From 33bba5370cdbab5740f72078d10e403920071788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:12 +0000
Subject: [PATCH 15/21] fix: pprof handler accepts passwords containing a colon

---
 confs/pprof.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/confs/pprof.go b/confs/pprof.go
index 7d0cc68..5db715f 100644
--- a/confs/pprof.go
+++ b/confs/pprof.go
@@ -101,7 +101,7 @@ func NewFasthttpRoutingPprofHandler(conf *PprofConf) routing.Handler {
 			return nil
 		}
 
-		user_pass := strings.Split(string(b), ":")
+		user_pass := strings.SplitN(string(b), ":", 2)
 		if len(user_pass) != 2 {
 			refuse(ctx)
 			return nil
-- 
2.43.0


From 2d5a9ce804947d18900f93e93a3fc8b74deaccc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:13 +0000
Subject: [PATCH 16/21] fix: redis hook must not panic when no span can be
 created

---
 skywalking/redis/hook.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/skywalking/redis/hook.go b/skywalking/redis/hook.go
index d3367cf..4b8245f 100644
--- a/skywalking/redis/hook.go
+++ b/skywalking/redis/hook.go
@@ -70,6 +70,9 @@ func noopInjector(headerKey, headerValue string) error {
 
 func (h *tracerHook) BeforeProcess(ctx context.Context, cmd rv7.Cmder) (context.Context, error) {
 	span, nCtx, err := h.tracer.CreateExitSpanWithContext(ctx, cmd.Name(), h.opts.peer, noopInjector)
+	if err != nil {
+		return ctx, err
+	}
 
 	if h.opts.reportArgs {
 		span.Tag(go2sky.TagDBStatement, cmd.String())
@@ -109,6 +112,9 @@ func (h *tracerHook) BeforeProcessPipeline(ctx context.Context, cmds []rv7.Cmder
 	})
 
 	span, nCtx, err := h.tracer.CreateExitSpanWithContext(ctx, opName, h.opts.peer, noopInjector)
+	if err != nil {
+		return ctx, err
+	}
 
 	if h.opts.reportArgs {
 		stmt := quickJoin(cmds, "|", func(obj rv7.Cmder) string {
-- 
2.43.0


From e7b49803cc26c14f5155ee44082184ac148fec7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:13 +0000
Subject: [PATCH 17/21] fix: redis hook must report a failed pipeline command
 whose error text is empty

---
 skywalking/redis/hook.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/skywalking/redis/hook.go b/skywalking/redis/hook.go
index 4b8245f..0ff435a 100644
--- a/skywalking/redis/hook.go
+++ b/skywalking/redis/hook.go
@@ -151,8 +151,8 @@ func (h *tracerHook) AfterProcessPipeline(ctx context.Context, cmds []rv7.Cmder)
 		return nil
 	}
 
-	errs := quickJoinError(cmds, "|")
-	if errs != "" {
+	errs, failed := quickJoinError(cmds, "|")
+	if failed {
 		now := time.Now()
 		if h.opts.logError {
 			span.Error(now, errs)
@@ -165,16 +165,17 @@ func (h *tracerHook) AfterProcessPipeline(ctx context.Context, cmds []rv7.Cmder)
 	return nil
 }
 
-func quickJoinError(objs []rv7.Cmder, sep string) string {
+func quickJoinError(objs []rv7.Cmder, sep string) (errs string, failed bool) {
 	sb := &strings.Builder{}
 	for _, obj := range objs {
 		cmdErr := obj.Err()
 		if cmdErr != nil {
+			failed = true
 			if sb.Len() > 0 {
 				sb.WriteString(sep)
 			}
 			sb.WriteString(cmdErr.Error())
 		}
 	}
-	return sb.String()
+	return sb.String(), failed
 }
-- 
2.43.0


From 1ee2e0609e3e4499c2448080b616d3d640cbc37d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:14 +0000
Subject: [PATCH 18/21] fix: tracing middleware must return the error of the
 handler chain

---
 skywalking/fasthttp-routing/middleware.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/skywalking/fasthttp-routing/middleware.go b/skywalking/fasthttp-routing/middleware.go
index dbe5250..b768f21 100644
--- a/skywalking/fasthttp-routing/middleware.go
+++ b/skywalking/fasthttp-routing/middleware.go
@@ -79,8 +79,8 @@ func NewMiddleware(tracer *go2sky.Tracer, opts ...Option) routing.Handler {
 
 		SetSwContext(rCtx, spanCtx)
 
-		err = rCtx.Next()
-		if err != nil {
+		handlerErr := rCtx.Next()
+		if err = handlerErr; err != nil {
 			if options.logError {
 				span.Error(time.Now(), err.Error())
 			} else {
@@ -101,7 +101,7 @@ func NewMiddleware(tracer *go2sky.Tracer, opts ...Option) routing.Handler {
 		}
 		span.Tag(go2sky.TagStatusCode, strconv.Itoa(rCtx.Response.StatusCode()))
 		span.End()
-		return nil
+		return handlerErr
 	}
 
 }
-- 
2.43.0


From c7d5396b81b2028c6c094805a0778b509281b778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:51 +0000
Subject: [PATCH 19/21] fix: escape username, password and database in
 PostgreSQL DSN

---
 confs/postgresql.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/confs/postgresql.go b/confs/postgresql.go
index 9da0b78..b5d6a1e 100644
--- a/confs/postgresql.go
+++ b/confs/postgresql.go
@@ -88,7 +88,7 @@ func NewPostgresqlDb(conf *PostgresqlConf, customizer PostgresqlUrlOptionsCustom
 }
 
 func buildPgDsn(conf *PostgresqlConf, options map[string]string) string {
-	ret := fmt.Sprintf("postgres://%s:%s@%s:%d/%s?", conf.Username, conf.Password, conf.Host, conf.Port, conf.Database)
+	ret := fmt.Sprintf("postgres://%s@%s:%d/%s?", url.UserPassword(conf.Username, conf.Password), conf.Host, conf.Port, url.PathEscape(conf.Database))
 	for key, val := range options {
 		val = strings.TrimSpace(val)
 		for _, temp := range strings.Split(val, ",") {
-- 
2.43.0


From 4737b99c37a57c1cd350327d9b83e9829214217d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:52 +0000
Subject: [PATCH 20/21] fix: PostgreSQL connection parameters containing commas
 must reach the server whole

---
 confs/postgresql.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/confs/postgresql.go b/confs/postgresql.go
index b5d6a1e..09a4fde 100644
--- a/confs/postgresql.go
+++ b/confs/postgresql.go
@@ -91,10 +91,7 @@ func buildPgDsn(conf *PostgresqlConf, options map[string]string) string {
 	ret := fmt.Sprintf("postgres://%s@%s:%d/%s?", url.UserPassword(conf.Username, conf.Password), conf.Host, conf.Port, url.PathEscape(conf.Database))
 	for key, val := range options {
 		val = strings.TrimSpace(val)
-		for _, temp := range strings.Split(val, ",") {
-			temp = strings.TrimSpace(temp)
-			ret += fmt.Sprintf("%s=%s&", key, url.QueryEscape(temp))
-		}
+		ret += fmt.Sprintf("%s=%s&", key, url.QueryEscape(val))
 	}
 	ret = strings.TrimRight(ret, "&")
 	return ret
-- 
2.43.0


From 04206d3f8d42441ade3cdd737ecb5b299b9d82b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:53 +0000
Subject: [PATCH 21/21] fix: env and flag binding must not panic on fields of
 defined basic types

---
 conf/env.go     |  2 +-
 conf/flag.go    |  2 +-
 conf/reflect.go | 24 ++++++++++++++++++++++++
 3 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/conf/env.go b/conf/env.go
index 491235b..ef820f7 100644
--- a/conf/env.go
+++ b/conf/env.go
@@ -45,7 +45,7 @@ func (r *envResolver) init(p interface{}) {
 		envName := envStyle(path)
 		r.environ = append(r.environ, envName)
 
-		vi := v.Addr().Interface()
+		vi := basicPtr(v)
 		vt := v.Type()
 		switch vt {
 		case reflect.TypeOf(time.Nanosecond):
diff --git a/conf/flag.go b/conf/flag.go
index c8738ea..f04b568 100644
--- a/conf/flag.go
+++ b/conf/flag.go
@@ -45,7 +45,7 @@ func (r *flagResolver) init(p interface{}) {
 
 		flagName := flagStyle(path)
 
-		vi := v.Addr().Interface()
+		vi := basicPtr(v)
 
 		vt := v.Type()
 		switch vt {
diff --git a/conf/reflect.go b/conf/reflect.go
index 1272de6..551e9a3 100644
--- a/conf/reflect.go
+++ b/conf/reflect.go
@@ -19,6 +19,7 @@ package conf
 
 import (
 	"reflect"
+	"time"
 )
 
 // Initialize p's field. If field is exported and is a pointer,
@@ -149,3 +150,26 @@ func visitExportedFieldsPath(f reflect.StructField, v reflect.Value, path string
 	}
 
 }
+
+var (
+	durationType = reflect.TypeOf(time.Duration(0))
+	basicTypes   = map[reflect.Kind]reflect.Type{
+		reflect.Bool:    reflect.TypeOf(false),
+		reflect.Float64: reflect.TypeOf(float64(0)),
+		reflect.Int:     reflect.TypeOf(int(0)),
+		reflect.Int64:   reflect.TypeOf(int64(0)),
+		reflect.String:  reflect.TypeOf(""),
+		reflect.Uint:    reflect.TypeOf(uint(0)),
+		reflect.Uint64:  reflect.TypeOf(uint64(0)),
+	}
+)
+
+// Return the pointer to v. If the type of v is a defined one (eg, type Mode string),
+// it is the pointer to the basic type of the same kind.
+func basicPtr(v reflect.Value) interface{} {
+	p := v.Addr()
+	if t, ok := basicTypes[v.Kind()]; ok && v.Type() != durationType {
+		p = p.Convert(reflect.PtrTo(t))
+	}
+	return p.Interface()
+}
-- 
2.43.0

