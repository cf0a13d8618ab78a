From 97dd14297b850fea67971b5c690bda0e7ffbd282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:17 +0000
Subject: [PATCH 01/80] fix: do not run disabled stages

---
 compute/server.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/compute/server.go b/compute/server.go
index 8a253d5..7e03eee 100644
--- a/compute/server.go
+++ b/compute/server.go
@@ -49,6 +49,11 @@ func NewServer(name, addr string, test bool) *Server {
 
 func (s *Server) Run(ctxFinch context.Context, stages []config.Stage) error {
 	for _, cfg := range stages {
+		if cfg.Disable {
+			log.Printf("Stage %s is disabled, not running it", cfg.File)
+			continue
+		}
+
 		// cd dir of config file so relative file paths in config work
 		if err := os.Chdir(filepath.Dir(cfg.File)); err != nil {
 			return err
-- 
2.43.0


From 731d78a9268e95c8397d25e77e1a614e7325d68f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:59 +0000
Subject: [PATCH 02/80] fix: end the MySQL session when a client closes its
 connection

---
 dbconn/factory.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/dbconn/factory.go b/dbconn/factory.go
index 67591f9..2dcd6b0 100644
--- a/dbconn/factory.go
+++ b/dbconn/factory.go
@@ -57,6 +57,13 @@ func Make() (*sql.DB, string, error) {
 	if err != nil {
 		return nil, "", err
 	}
+
+	// Don't keep idle connections: when a client closes its connection, the MySQL
+	// session must end. Else, a client that reconnects on error gets its old session
+	// back (with its open trx, locks, and user vars), or it inherits the session
+	// from another client.
+	db.SetMaxIdleConns(-1)
+
 	return db, RedactedDSN(f.dsn), nil
 }
 
-- 
2.43.0


From cdcf620c516ee6fc90138465aff74813e40a66e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:19 +0000
Subject: [PATCH 03/80] fix: mark trx boundary when first or last statement is
 idle time

---
 client/client.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/client/client.go b/client/client.go
index 5cfe61e..34f46e2 100644
--- a/client/client.go
+++ b/client/client.go
@@ -238,12 +238,6 @@ ITER:
 		trxActive = false
 
 		for i := range c.Statements {
-			// Idle time
-			if c.Statements[i].Idle != 0 {
-				time.Sleep(c.Statements[i].Idle)
-				continue
-			}
-
 			// Is this query the start of a new (finch) trx file? This is not
 			// a MySQL trx (either BEGIN or implicit). It marks finch trx scope
 			// "trx" is a trx file in the config assigned to this client.
@@ -255,6 +249,13 @@ ITER:
 				trxActive = false
 			}
 
+			// Idle time, after marking trx boundary because the idle time can be
+			// the first or last statement in a trx
+			if c.Statements[i].Idle != 0 {
+				time.Sleep(c.Statements[i].Idle)
+				continue
+			}
+
 			// If BEGIN, check TPS rate limiter
 			if c.TPS != nil && c.Statements[i].Begin {
 				<-c.TPS
-- 
2.43.0


From 0ac623306f9476cc9028596bcb571a1e3c7c4604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:20 +0000
Subject: [PATCH 04/80] fix: execute ROLLBACK when last statement in trx
 returns an error

---
 client/client.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/client/client.go b/client/client.go
index 34f46e2..94e869e 100644
--- a/client/client.go
+++ b/client/client.go
@@ -245,8 +245,6 @@ ITER:
 				rc[data.TRX] += 1
 				trxNo += 1
 				trxActive = true
-			} else if c.Data[i].TrxBoundary&trx.END != 0 {
-				trxActive = false
 			}
 
 			// Idle time, after marking trx boundary because the idle time can be
@@ -343,6 +341,9 @@ ITER:
 					c.Data[i].InsertId.Scan(id)
 				}
 			} // execute
+			if c.Data[i].TrxBoundary&trx.END != 0 {
+				trxActive = false
+			}
 			continue // next query
 
 		ERROR:
-- 
2.43.0


From 1cc4ec0255df14b5b80f71d7f0a1d1c095bdf3be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:21 +0000
Subject: [PATCH 05/80] fix: prepare statements again after reconnect

---
 client/client.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/client/client.go b/client/client.go
index 94e869e..0ece74b 100644
--- a/client/client.go
+++ b/client/client.go
@@ -115,6 +115,13 @@ func (c *Client) Connect(ctx context.Context, cerr error, stmtNo int, trxActive
 	}
 
 	if c.conn != nil {
+		// Prepared statements are bound to the connection, so prepare again on new conn
+		for i := range c.ps {
+			if c.ps[i] != nil {
+				c.ps[i].Close()
+				c.ps[i] = nil
+			}
+		}
 		c.conn.Close()
 		c.conn = nil
 		time.Sleep(ConnectRetryWait)
-- 
2.43.0


From 58afe05d2f51766e738cec794cf280d2daed9c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:22 +0000
Subject: [PATCH 06/80] fix: handle errors that occur while reading rows

---
 client/client.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/client/client.go b/client/client.go
index 0ece74b..2a25f2f 100644
--- a/client/client.go
+++ b/client/client.go
@@ -307,8 +307,14 @@ ITER:
 							goto ERROR
 						}
 					}
+					err = rows.Err()
+				}
+				if closeErr := rows.Close(); err == nil {
+					err = closeErr
+				}
+				if err != nil { // query failed while reading rows
+					goto ERROR
 				}
-				rows.Close()
 			} else {
 				//
 				// Write or query without result set (e.g. BEGIN, SET, etc.)
-- 
2.43.0


From 6b0f24d0b4738213a47b672df103461c207c1d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:48 +0000
Subject: [PATCH 07/80] fix: copy global scope data generators

---
 data/scope.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/data/scope.go b/data/scope.go
index 4969e47..aacf5e0 100644
--- a/data/scope.go
+++ b/data/scope.go
@@ -107,7 +107,7 @@ func (s *Scope) Copy(keyName string, rl finch.RunLevel) *ScopedGenerator {
 	}
 
 	prev := s.CopiedAt[keyName] // last time we saw this @d
-	if rl.GreaterThan(prev, k.Scope) {
+	if s.CopyOf[keyName] == nil || rl.GreaterThan(prev, k.Scope) {
 		s.CopyCount[keyName] += 1
 		id := Id{
 			RunLevel: rl,
-- 
2.43.0


From f4a752e869738418a6bd3ee133d0a709a01db726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:49 +0000
Subject: [PATCH 08/80] fix: call stage and global scope data generators once,
 not every time but the first

---
 data/scope.go | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/data/scope.go b/data/scope.go
index aacf5e0..d1c3986 100644
--- a/data/scope.go
+++ b/data/scope.go
@@ -151,7 +151,7 @@ type ScopedGenerator struct {
 	last         RunCount               //   last time value was generated
 	vals         []interface{}          //   last value
 	singleClient bool                   // Single client scopes (typical): STATEMENT, TRX, ITER, CILENT
-	oneTime      bool                   // One time scopes: STAGE and GLOBAL
+	oneTime      *sync.Mutex            // One time scopes: STAGE and GLOBAL (shared by all clients)
 	cgMux        *sync.RWMutex          // Multi client: client-group, exec-group, workload
 	cgIter       map[uint]uint          //   last client iter
 	cgVals       map[uint][]interface{} //   last client value
@@ -179,7 +179,7 @@ func NewScopedGenerator(id Id, g Generator) *ScopedGenerator {
 		s.cgVals = map[uint][]interface{}{}
 	} else if n <= finch.RunLevelNumber(finch.SCOPE_GLOBAL) {
 		// One time scopes
-		s.oneTime = true
+		s.oneTime = &sync.Mutex{}
 	} else {
 		panic("invalid scope: " + id.Scope)
 	}
@@ -210,6 +210,12 @@ func (s *ScopedGenerator) Call(cnt RunCount) []interface{} {
 		s.cgMux.Unlock()
 		return v
 	}
+	if s.oneTime != nil { // one time
+		s.oneTime.Lock()
+		defer s.oneTime.Unlock()
+		s.vals = s.g.Values(cnt)
+		return s.vals
+	}
 	s.last[s.sno] = cnt[s.sno] // save last run counter value
 	s.vals = s.g.Values(cnt)   // generate new data value
 	return s.vals
@@ -246,10 +252,11 @@ func (s *ScopedGenerator) Values(cnt RunCount) []interface{} {
 	}
 
 	// One time scopes: STAGE and GLOBAL
-	if s.oneTime {
-		// @todo guard with mux
-		if s.vals != nil {
-			return s.Call(cnt)
+	if s.oneTime != nil {
+		s.oneTime.Lock()
+		defer s.oneTime.Unlock()
+		if s.vals == nil {
+			s.vals = s.g.Values(cnt) // first and only implicit call
 		}
 		return s.vals
 	}
-- 
2.43.0


From ec0bcc95ccf3af91ad76739ebcc0dd55b1546350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:50 +0000
Subject: [PATCH 09/80] fix: identify clients across groups in exec-group and
 workload scope

---
 data/scope.go | 38 ++++++++++++++++++++++++--------------
 1 file changed, 24 insertions(+), 14 deletions(-)

diff --git a/data/scope.go b/data/scope.go
index d1c3986..e8c5f15 100644
--- a/data/scope.go
+++ b/data/scope.go
@@ -145,16 +145,26 @@ func (s *Scope) Reset() {
 // care which--to handle either scoped value generator or explicit calls like
 // @d().
 type ScopedGenerator struct {
-	id           Id                     // identify this copy of the real Generator for debugging
-	g            Generator              // real Generator:
-	sno          byte                   //   scope number in RunCount (if singleClient == true)
-	last         RunCount               //   last time value was generated
-	vals         []interface{}          //   last value
-	singleClient bool                   // Single client scopes (typical): STATEMENT, TRX, ITER, CILENT
-	oneTime      *sync.Mutex            // One time scopes: STAGE and GLOBAL (shared by all clients)
-	cgMux        *sync.RWMutex          // Multi client: client-group, exec-group, workload
-	cgIter       map[uint]uint          //   last client iter
-	cgVals       map[uint][]interface{} //   last client value
+	id           Id                         // identify this copy of the real Generator for debugging
+	g            Generator                  // real Generator:
+	sno          byte                       //   scope number in RunCount (if singleClient == true)
+	last         RunCount                   //   last time value was generated
+	vals         []interface{}              //   last value
+	singleClient bool                       // Single client scopes (typical): STATEMENT, TRX, ITER, CILENT
+	oneTime      *sync.Mutex                // One time scopes: STAGE and GLOBAL (shared by all clients)
+	cgMux        *sync.RWMutex              // Multi client: client-group, exec-group, workload
+	cgIter       map[clientId]uint          //   last client iter
+	cgVals       map[clientId][]interface{} //   last client value
+}
+
+// clientId identifies a client in a stage. The client number is not enough
+// because it's relative to the client group, which is relative to the exec group.
+type clientId struct {
+	execGroup, clientGroup, client uint
+}
+
+func clientFrom(cnt RunCount) clientId {
+	return clientId{cnt[EXEC_GROUP], cnt[CLIENT_GROUP], cnt[CLIENT]}
 }
 
 var _ Generator = &ScopedGenerator{}
@@ -175,8 +185,8 @@ func NewScopedGenerator(id Id, g Generator) *ScopedGenerator {
 	} else if n <= finch.RunLevelNumber(finch.SCOPE_WORKLOAD) {
 		// Multi client scopes: iter = each <client, iter>
 		s.cgMux = &sync.RWMutex{}
-		s.cgIter = map[uint]uint{}
-		s.cgVals = map[uint][]interface{}{}
+		s.cgIter = map[clientId]uint{}
+		s.cgVals = map[clientId][]interface{}{}
 	} else if n <= finch.RunLevelNumber(finch.SCOPE_GLOBAL) {
 		// One time scopes
 		s.oneTime = &sync.Mutex{}
@@ -202,7 +212,7 @@ func (s *ScopedGenerator) Call(cnt RunCount) []interface{} {
 		Don't debug or call anything slow/superfluous.
 	*/
 	if s.cgMux != nil { // multi client
-		clientNo := cnt[CLIENT]
+		clientNo := clientFrom(cnt)
 		v := s.g.Values(cnt)
 		s.cgMux.Lock()
 		s.cgIter[clientNo] = cnt[ITER]
@@ -239,7 +249,7 @@ func (s *ScopedGenerator) Values(cnt RunCount) []interface{} {
 
 	// Multi client scopes: CLIENT_GROUP, EXEC_GROUP, WORKLOAD
 	if s.cgMux != nil {
-		clientNo := cnt[CLIENT]
+		clientNo := clientFrom(cnt)
 		s.cgMux.RLock()
 		prevIter, ok := s.cgIter[clientNo]
 		if !ok || cnt[ITER] > prevIter {
-- 
2.43.0


From b588c8591efedeab7a0907a7c778594105283fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:51 +0000
Subject: [PATCH 10/80] fix: do not call data generator shared by clients
 concurrently

---
 data/scope.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/data/scope.go b/data/scope.go
index e8c5f15..a5d4957 100644
--- a/data/scope.go
+++ b/data/scope.go
@@ -213,8 +213,8 @@ func (s *ScopedGenerator) Call(cnt RunCount) []interface{} {
 	*/
 	if s.cgMux != nil { // multi client
 		clientNo := clientFrom(cnt)
-		v := s.g.Values(cnt)
 		s.cgMux.Lock()
+		v := s.g.Values(cnt) // guarded because clients share the real Generator
 		s.cgIter[clientNo] = cnt[ITER]
 		s.cgVals[clientNo] = v
 		s.cgMux.Unlock()
-- 
2.43.0


From 9e8809aaabdf8cd70a1860648614c42c5ea195d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:25 +0000
Subject: [PATCH 11/80] fix: do not use the previous stage's generators for
 stage scope data keys

---
 compute/server.go | 2 +-
 data/scope.go     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/compute/server.go b/compute/server.go
index 7e03eee..523c8b2 100644
--- a/compute/server.go
+++ b/compute/server.go
@@ -105,7 +105,7 @@ func (s *Server) run(ctxFinch context.Context, cfg config.Stage) error {
 		}
 	}
 
-	s.gds.Reset() // keep data global and stage data, delete the rest
+	s.gds.Reset() // keep global data, delete the rest
 
 	// Create and boot local instance first because if this doesn't work,
 	// then remotes shouldn't work either because they all boot with the
diff --git a/data/scope.go b/data/scope.go
index a5d4957..66012a7 100644
--- a/data/scope.go
+++ b/data/scope.go
@@ -124,7 +124,7 @@ func (s *Scope) Copy(keyName string, rl finch.RunLevel) *ScopedGenerator {
 
 func (s *Scope) Reset() {
 	for keyName, k := range s.Keys {
-		if k.Scope == finch.SCOPE_STAGE || k.Scope == finch.SCOPE_GLOBAL {
+		if k.Scope == finch.SCOPE_GLOBAL {
 			continue
 		}
 		finch.Debug("delete %s (scope: %s)", keyName, k.Scope)
-- 
2.43.0


From 210f4067ad5a01fa338122cc7392c4dc51fb4826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:50 +0000
Subject: [PATCH 12/80] fix: do not mix up data keys when one name is a prefix
 of another

---
 trx/trx.go | 19 +++++--------------
 1 file changed, 5 insertions(+), 14 deletions(-)

diff --git a/trx/trx.go b/trx/trx.go
index 8a67e6f..833545b 100644
--- a/trx/trx.go
+++ b/trx/trx.go
@@ -29,7 +29,6 @@ const (
 const EXPLICIT_CALL_SUFFIX = "()"
 
 var DataKeyPattern = regexp.MustCompile(`@[\w_-]+(?:\(\))?`)
-var ExplicitCallPattern = regexp.MustCompile(`@[\w_-]+\(\)`)
 
 // Set is the complete set of transactions (and statements) for a stage.
 type Set struct {
@@ -430,9 +429,6 @@ func (f *File) statements() ([]*Statement, error) {
 	s.Inputs = dataKeys
 
 	s.Calls = Calls(s.Inputs)
-	query = ExplicitCallPattern.ReplaceAllStringFunc(query, func(s string) string {
-		return strings.TrimSuffix(s, EXPLICIT_CALL_SUFFIX)
-	})
 
 	dataFormats := map[string]string{} // keyed on data name
 	for i, name := range s.Inputs {
@@ -501,16 +497,11 @@ func (f *File) statements() ([]*Statement, error) {
 		}
 	}
 
-	replacements := make([]string, len(dataFormats)*2) // *2 because key + value
-	i := 0
-	for k, v := range dataFormats {
-		replacements[i] = k
-		replacements[i+1] = v
-		i += 2
-	}
-	finch.Debug("replacements: %v", replacements)
-	r := strings.NewReplacer(replacements...)
-	s.Query = r.Replace(query)
+	// Replace whole data keys because one can be a prefix of another: @d and @d2
+	finch.Debug("replacements: %v", dataFormats)
+	s.Query = DataKeyPattern.ReplaceAllStringFunc(query, func(name string) string {
+		return dataFormats[strings.TrimSuffix(name, EXPLICIT_CALL_SUFFIX)]
+	})
 
 	// Caller debug prints full Statement
 	return []*Statement{s}, nil
-- 
2.43.0


From e92ec2244bf70ca99d742a2cfbfb680674f70f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:52 +0000
Subject: [PATCH 13/80] fix: match whole data keys when making CSV data keys
 row scoped

---
 trx/trx.go | 23 ++++++++---------------
 1 file changed, 8 insertions(+), 15 deletions(-)

diff --git a/trx/trx.go b/trx/trx.go
index 833545b..2bd4ba1 100644
--- a/trx/trx.go
+++ b/trx/trx.go
@@ -577,22 +577,15 @@ func Calls(dataKeys []string) []byte {
 // makes @d row scoped because each row will call @d again. This is called
 // when the /*!csv N template */ is being processed (see reCSV).
 func RowScope(keys map[string]bool, csvTemplate string) string {
-	csvDataKeys := DataKeyPattern.FindAllString(csvTemplate, -1)
-KEY:
-	for dataKey := range keys { // row scoped keys
-		for _, k := range csvDataKeys { // all keys in csvTemplate
-			if !strings.HasPrefix(k, dataKey) {
-				continue // not the row scoped key we're looking for
-			}
-			// This is first occurrence of row scoped key in csvTemplate.
-			// Add () suffix if not already set.
-			if !strings.HasSuffix(k, EXPLICIT_CALL_SUFFIX) {
-				csvTemplate = strings.Replace(csvTemplate, k, k+EXPLICIT_CALL_SUFFIX, 1) // 1=only first occurrence
-			}
-			continue KEY // only check/change first occurrence, so this row scoped key is done
+	seen := map[string]bool{}
+	return DataKeyPattern.ReplaceAllStringFunc(csvTemplate, func(k string) string {
+		dataKey := strings.TrimSuffix(k, EXPLICIT_CALL_SUFFIX)
+		if !keys[dataKey] || seen[dataKey] {
+			return k // not row scoped, or not first occurrence
 		}
-	}
-	return csvTemplate
+		seen[dataKey] = true
+		return dataKey + EXPLICIT_CALL_SUFFIX
+	})
 }
 
 func cfgKey(s string) string {
-- 
2.43.0


From e2fb5d5e190fd0605cdcea4c513ce53725c2b97b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:54 +0000
Subject: [PATCH 14/80] fix: do not interpret % in SQL statements as a format
 verb

---
 trx/trx.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/trx/trx.go b/trx/trx.go
index 2bd4ba1..8e4aeda 100644
--- a/trx/trx.go
+++ b/trx/trx.go
@@ -57,6 +57,17 @@ type Statement struct {
 	Calls        []byte
 }
 
+var rePercent = regexp.MustCompile(`%%?`)
+
+// literal escapes % (if not already %%) in SQL text because Query is a format
+// string, except when it's a prepared statement.
+func (s *Statement) literal(query string) string {
+	if s.Prepare {
+		return query
+	}
+	return rePercent.ReplaceAllLiteralString(query, "%%")
+}
+
 type Meta struct {
 	DDL bool
 }
@@ -423,7 +434,7 @@ func (f *File) statements() ([]*Statement, error) {
 	dataKeys := DataKeyPattern.FindAllString(query, -1)
 	finch.Debug("data keys: %v", dataKeys)
 	if len(dataKeys) == 0 {
-		s.Query = query
+		s.Query = s.literal(query)
 		return []*Statement{s}, nil // no data key, return early
 	}
 	s.Inputs = dataKeys
@@ -499,7 +510,7 @@ func (f *File) statements() ([]*Statement, error) {
 
 	// Replace whole data keys because one can be a prefix of another: @d and @d2
 	finch.Debug("replacements: %v", dataFormats)
-	s.Query = DataKeyPattern.ReplaceAllStringFunc(query, func(name string) string {
+	s.Query = DataKeyPattern.ReplaceAllStringFunc(s.literal(query), func(name string) string {
 		return dataFormats[strings.TrimSuffix(name, EXPLICIT_CALL_SUFFIX)]
 	})
 
-- 
2.43.0


From 07c336b510aa07612bbd17c433041d5b6393b5c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:56 +0000
Subject: [PATCH 15/80] fix: do not panic on rows modifier with zero (no limit)

---
 trx/trx.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/trx/trx.go b/trx/trx.go
index 8e4aeda..5566d47 100644
--- a/trx/trx.go
+++ b/trx/trx.go
@@ -291,7 +291,9 @@ func (f *File) statements() ([]*Statement, error) {
 				}
 			}
 			finch.Debug("write limit: %d rows (offset %d)", max, offset)
-			s.Limit = limit.Or(s.Limit, limit.NewRows(int64(max), int64(offset)))
+			if max > 0 { // 0 = no limit
+				s.Limit = limit.Or(s.Limit, limit.NewRows(int64(max), int64(offset)))
+			}
 		case "table-size", "database-size":
 			if len(m) != 3 {
 				return nil, fmt.Errorf("invalid %s modifier: split %d fields, expected 3: %s", m[0], len(m), mod)
-- 
2.43.0


From 0da72d7bd8b443a2402e7699d3e20aa0b91844a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:32 +0000
Subject: [PATCH 16/80] fix: do not change idle time duration to a number

---
 trx/trx.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/trx/trx.go b/trx/trx.go
index 5566d47..a904f26 100644
--- a/trx/trx.go
+++ b/trx/trx.go
@@ -190,7 +190,9 @@ func (f *File) line(line string) error {
 			if line == "-- EOF" {
 				return ErrEOF
 			}
-			mod, err := config.Vars(strings.TrimSpace(strings.TrimPrefix(line, "--")), f.params, true)
+			mod := strings.TrimSpace(strings.TrimPrefix(line, "--"))
+			numbers := !strings.HasPrefix(mod, "idle") // 5m is a time duration, not 5000000
+			mod, err := config.Vars(mod, f.params, numbers)
 			if err != nil {
 				return fmt.Errorf("parsing modifier '%s' on line %d: %s", line, f.lb.n, err)
 			}
-- 
2.43.0


From 4b532950daa1abfd9f3fb43eb26dc3a8bcd79ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:20 +0000
Subject: [PATCH 17/80] fix: interpolate whole param names, not prefixes of
 longer names

---
 config/config.go | 49 +++++++++++++++++++++---------------------------
 1 file changed, 21 insertions(+), 28 deletions(-)

diff --git a/config/config.go b/config/config.go
index d29dd95..2d9364e 100644
--- a/config/config.go
+++ b/config/config.go
@@ -205,43 +205,36 @@ var reAllDigits = regexp.MustCompile(`^\d+$`)
 // "${var}" is also valid but YAML requires string quotes around {}.
 func Vars(s string, params map[string]string, numbers bool) (string, error) {
 	for _, r := range varRE {
-		m := r.FindAllStringSubmatch(s, -1)
-		if len(m) == 0 {
-			continue
-		}
-		rep := make([]string, 0, len(m)*2)
-		for i := range m {
-			v := m[i]
-			//p := strings.Trim(v[1], "{}")
-			p := v[1]
+		var err error
+		s = r.ReplaceAllStringFunc(s, func(v string) string { // v is ${p} or $p
+			p := r.FindStringSubmatch(v)[1]
+			var val string
+			var ok bool
 			switch {
 			case strings.HasPrefix(p, "params."):
-				k := strings.TrimPrefix(p, "params.")
-				val, ok := params[k]
-				if !ok {
-					return "", fmt.Errorf("%s not defined (is it spelled correctly?)", p)
+				val, ok = params[strings.TrimPrefix(p, "params.")]
+				if !ok && err == nil {
+					err = fmt.Errorf("%s not defined (is it spelled correctly?)", p)
 				}
-				rep = append(rep, v[0], val)
-				finch.Debug("param: %s -> %v (user-defined)", s, rep)
+				finch.Debug("param: %s -> %v (user-defined)", v, val)
 			case strings.HasPrefix(p, "sys."):
-				k := strings.TrimPrefix(p, "sys.")
-				val, ok := finch.SystemParams[k]
-				if !ok {
-					return "", fmt.Errorf("%s not defined (is it spelled correctly?)", p)
+				val, ok = finch.SystemParams[strings.TrimPrefix(p, "sys.")]
+				if !ok && err == nil {
+					err = fmt.Errorf("%s not defined (is it spelled correctly?)", p)
 				}
-				rep = append(rep, v[0], val)
-				finch.Debug("param: %s -> %v (built-in)", s, rep)
+				finch.Debug("param: %s -> %v (built-in)", v, val)
 			default:
-				val, ok := os.LookupEnv(p)
-				if !ok {
-					return "", fmt.Errorf("environment variable %s not set (is it spelled correctly?)", p)
+				val, ok = os.LookupEnv(p)
+				if !ok && err == nil {
+					err = fmt.Errorf("environment variable %s not set (is it spelled correctly?)", p)
 				}
-				rep = append(rep, v[0], val)
-				finch.Debug("param: %s -> %v (env var)", s, rep)
+				finch.Debug("param: %s -> %v (env var)", v, val)
 			}
+			return val
+		})
+		if err != nil {
+			return "", err
 		}
-		r := strings.NewReplacer(rep...)
-		s = r.Replace(s)
 	}
 
 	if !numbers {
-- 
2.43.0


From cecad3ade6a32bd949485c173b2d597e573935d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:23 +0000
Subject: [PATCH 18/80] fix: convert only whole human-readable numbers,
 including decimal ones

---
 config/config.go | 33 ++++++++++++++-------------------
 1 file changed, 14 insertions(+), 19 deletions(-)

diff --git a/config/config.go b/config/config.go
index 2d9364e..c7ec88b 100644
--- a/config/config.go
+++ b/config/config.go
@@ -197,7 +197,7 @@ var varRE = []*regexp.Regexp{
 	regexp.MustCompile(`\${([^}]+)}`),  // ${param.foo} for "hello${param.foo}bar"
 	regexp.MustCompile(`\$([^\s"']+)`), // $param.foo for standalone value
 }
-var reHumanNumber = regexp.MustCompile(`([\d,]*\d+(?i:[MKGBI]*))`) // 1M or 1,000,000 -> 1000000
+var reHumanNumber = regexp.MustCompile(`(?i)\b\d(?:[\d,]*\d)?(?:(?:\.\d+)?(?:[KMGT]I?B?|B))?\b`) // 1M or 1,000,000 -> 1000000
 var reAllDigits = regexp.MustCompile(`^\d+$`)
 
 // Vars changes $params.foo and $FOO to param values and environment variable
@@ -242,29 +242,24 @@ func Vars(s string, params map[string]string, numbers bool) (string, error) {
 	}
 
 	// Look for human numbers like 1k and 1,000
-	m := reHumanNumber.FindAllStringSubmatch(s, -1)
-	if len(m) == 0 {
-		return s, nil // no human numbers
-	}
-	rep := []string{}
-	for i := range m {
+	var err error
+	n := reHumanNumber.ReplaceAllStringFunc(s, func(v string) string {
 		// To keep the regex simple, reHumanNumber also matches ints like 1000,
 		// but don't waste time parsing something that's already machine number.
-		if reAllDigits.MatchString(m[i][0]) {
-			continue
+		if reAllDigits.MatchString(v) {
+			return v
 		}
-		d, err := human.ParseBytes(m[i][1])
-		if err != nil {
-			return "", fmt.Errorf("invalid human-readable number: %s: %s", m[i][1], err)
+		d, perr := human.ParseBytes(v)
+		if perr != nil && err == nil {
+			err = fmt.Errorf("invalid human-readable number: %s: %s", v, perr)
 		}
-		rep = append(rep, m[i][0], strconv.FormatUint(d, 10))
-	}
-	if len(rep) == 0 { // all machine numbers (see comment above)
-		return s, nil
+		return strconv.FormatUint(d, 10)
+	})
+	if err != nil {
+		return "", err
 	}
-	finch.Debug("var: %s -> %v", s, rep)
-	r := strings.NewReplacer(rep...)
-	return r.Replace(s), nil
+	finch.Debug("var: %s -> %v", s, n)
+	return n, nil
 }
 
 // setBool sets c to the value of b if c is nil (not set). Pointers are required
-- 
2.43.0


From b8507d52041d077d6c6596138d1a57a40063c5a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:01 +0000
Subject: [PATCH 19/80] fix: make uniform int distribution include max and not
 favor min

---
 data/integer.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/data/integer.go b/data/integer.go
index 66f9b6f..66db7dc 100644
--- a/data/integer.go
+++ b/data/integer.go
@@ -44,6 +44,10 @@ func NewInt(params map[string]string) (*Int, error) {
 		return nil, err
 	}
 
+	if g.min > g.max {
+		return nil, fmt.Errorf("invalid int: min %d > max %d", g.min, g.max)
+	}
+
 	switch strings.ToLower(params["dist"]) {
 	case "normal":
 		g.dist = dist_normal
@@ -96,11 +100,15 @@ func (g *Int) Values(_ RunCount) []interface{} {
 		}
 		return []interface{}{v}
 	default: // uniform
-		v := rand.Int63n(g.max)
-		if v < g.min {
-			v = g.min
+		n := g.max - g.min + 1 // [min, max]
+		if n > 0 {
+			return []interface{}{g.min + rand.Int63n(n)}
+		}
+		for { // n overflowed: [min, max] is more than half of all int64
+			if v := int64(rand.Uint64()); v >= g.min && v <= g.max {
+				return []interface{}{v}
+			}
 		}
-		return []interface{}{v}
 	}
 }
 
-- 
2.43.0


From 8fc6ae73748da62f38dc0cfc6e3d6b3c9f3cc5d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:03 +0000
Subject: [PATCH 20/80] fix: keep normal int distribution between min and max

---
 data/integer.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/data/integer.go b/data/integer.go
index 66db7dc..e2a543c 100644
--- a/data/integer.go
+++ b/data/integer.go
@@ -95,7 +95,12 @@ func (g *Int) Values(_ RunCount) []interface{} {
 		if v < g.min || v > g.max {
 			v = int64(math.Floor(rand.NormFloat64()*g.stddev + g.mean))
 			if v < g.min || v > g.max {
-				return []interface{}{int64(g.mean)}
+				v = int64(g.mean)
+				if v < g.min {
+					v = g.min
+				} else if v > g.max {
+					v = g.max
+				}
 			}
 		}
 		return []interface{}{v}
-- 
2.43.0


From bff84b4c6309dbd37462eb9924c919a6048fbe38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:05 +0000
Subject: [PATCH 21/80] fix: do not panic or return NaN from int-gaps with
 fewer than 2 values

---
 data/integer.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/data/integer.go b/data/integer.go
index e2a543c..ac41599 100644
--- a/data/integer.go
+++ b/data/integer.go
@@ -152,12 +152,19 @@ func NewIntGaps(params map[string]string) (*IntGaps, error) {
 		return nil, fmt.Errorf("invalid int-gaps p: %d, must be between 1 to 100 (inclusive)", p)
 	}
 	input_max := int64(float64(size) * (float64(p) / 100.0))
+	if input_max < 1 {
+		input_max = 1
+	}
+	slope := 0.0 // only 1 value: min
+	if input_max > 1 {
+		slope = float64(max-min) / float64(input_max-1)
+	}
 
 	g := &IntGaps{
 		params:       params,
 		input_max:    input_max,
 		output_start: float64(min),
-		slope:        float64(max-min) / float64(input_max-1),
+		slope:        slope,
 	}
 	finch.Debug("1..%d -> %d..%d (%d%% of %d) gap: %d records", input_max, min, max, p, size, int(g.slope))
 	return g, nil
-- 
2.43.0


From 23dea451cf7ced712db2dd8cc97128cd8ad54398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:07 +0000
Subject: [PATCH 22/80] fix: reject size and step less than 1 in integer
 generators

---
 data/integer.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/data/integer.go b/data/integer.go
index ac41599..c913778 100644
--- a/data/integer.go
+++ b/data/integer.go
@@ -213,6 +213,9 @@ func NewIntRange(params map[string]string) (*IntRange, error) {
 	if err := int64From(params, "max", &g.max, false); err != nil {
 		return nil, err
 	}
+	if g.size < 1 {
+		return nil, fmt.Errorf("invalid int range: size %d < 1", g.size)
+	}
 	if g.min >= g.max {
 		return nil, fmt.Errorf("invalid int range: min %d >= max %d", g.min, g.max)
 	}
@@ -276,6 +279,9 @@ func NewIntRangeSeq(params map[string]string) (*IntRangeSeq, error) {
 	if err := int64From(params, "end", &g.end, false); err != nil {
 		return nil, err
 	}
+	if g.size < 1 {
+		return nil, fmt.Errorf("invalid int-range-seq: size %d < 1", g.size)
+	}
 	if g.begin > g.end {
 		return nil, fmt.Errorf("invalid int-range-seq: begin (%d) > end (%d)", g.begin, g.end)
 	}
@@ -337,6 +343,9 @@ func NewAutoInc(params map[string]string) (*AutoInc, error) {
 		if err != nil {
 			return nil, fmt.Errorf("invalid step=%s: %s", s, err)
 		}
+		if i == 0 {
+			return nil, fmt.Errorf("invalid step=%s: must be >= 1", s)
+		}
 		g.step = i
 	}
 	return g, nil
-- 
2.43.0


From 4c2ce6846af0d842b48a3c50478b5490f5d582a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:45 +0000
Subject: [PATCH 23/80] fix: end CSV substitution at the first end of comment

---
 trx/trx.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trx/trx.go b/trx/trx.go
index a904f26..b7674ee 100644
--- a/trx/trx.go
+++ b/trx/trx.go
@@ -227,7 +227,7 @@ func (f *File) line(line string) error {
 }
 
 var reKeyVal = regexp.MustCompile(`([\w_-]+)(?:\:\s*(\w+))?`)
-var reCSV = regexp.MustCompile(`\/\*\!csv\s+(\d+)\s+(.+)\*\/`)
+var reCSV = regexp.MustCompile(`\/\*\!csv\s+(\d+)\s+(.+?)\*\/`)
 var reFirstWord = regexp.MustCompile(`^(\w+)`)
 
 func (f *File) statements() ([]*Statement, error) {
-- 
2.43.0


From 382e2208b61ea6935f69dcb91b7679dab4908573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:05 +0000
Subject: [PATCH 24/80] fix: do not reconnect on duplicate key error

Documented as handled without reconnecting (benchmark/error-handling.md),
but Eabort is zero so it was handled like an unknown error: reconnect.
---
 finch.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/finch.go b/finch.go
index 9148000..1f0fa34 100644
--- a/finch.go
+++ b/finch.go
@@ -194,7 +194,7 @@ const (
 
 var MySQLErrorHandling = map[uint16]byte{
 	1046: Eabort,                // no database selected
-	1062: Eabort,                // duplicate key
+	1062: Econtinue,             // duplicate key
 	1064: Eabort,                // You have an error in your SQL syntax
 	1146: Eabort,                // table doesn't exist
 	1205: Erollback | Econtinue, // lock wait timeout; no automatic rollback (innodb_rollback_on_timeout=OFF by default)
-- 
2.43.0


From b34c28e554b9baec1daefb87ddd8324e90edd937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:12 +0000
Subject: [PATCH 25/80] fix: do not keep old error counts when copying stats

---
 stats/stats.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/stats/stats.go b/stats/stats.go
index 3e8ea3f..0ac5271 100644
--- a/stats/stats.go
+++ b/stats/stats.go
@@ -112,6 +112,11 @@ func (s *Stats) Copy(c *Stats) {
 		s.Max[i] = c.Max[i]
 		s.N[i] = c.N[i]
 	}
+	for k := range s.Errors {
+		if _, ok := c.Errors[k]; !ok {
+			delete(s.Errors, k)
+		}
+	}
 	for k, v := range c.Errors {
 		s.Errors[k] = v
 	}
-- 
2.43.0


From 682fcd743e36ea078921a8c1a1b22f316ad218ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:14 +0000
Subject: [PATCH 26/80] fix: do not report min 0 when combined stats have no
 events

---
 stats/stats.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/stats/stats.go b/stats/stats.go
index 0ac5271..cf7e150 100644
--- a/stats/stats.go
+++ b/stats/stats.go
@@ -130,6 +130,9 @@ func (s *Stats) Combine(c *Stats) {
 		for j := range s.Buckets[i] {
 			s.Buckets[i][j] += c.Buckets[i][j]
 		}
+		if c.N[i] == 0 {
+			continue // no events, so c.Min is zero but not a value
+		}
 		if c.Min[i] < s.Min[i] || s.N[i] == 0 {
 			s.Min[i] = c.Min[i]
 		}
-- 
2.43.0


From 323a4752c6cd07d1055b23e504de1b7d7928a726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:16 +0000
Subject: [PATCH 27/80] fix: report right percentiles when several are in the
 same bucket or not sorted

---
 stats/stats.go | 33 ++++++++++++++++++---------------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/stats/stats.go b/stats/stats.go
index cf7e150..0c2317e 100644
--- a/stats/stats.go
+++ b/stats/stats.go
@@ -151,36 +151,39 @@ func (s Stats) Percentiles(eventType byte, p []float64) (q []uint64) {
 		return []uint64{}
 	}
 	q = make([]uint64, len(p)) // returned ^ approximate percentiles
-	n := uint64(0)             // running total event count
-	f := 0.0                   // running total frequency (percentile per bucket)
-	j := 0                     // index in p[] and q[]
+	for j := range p {         // p is not necessarily sorted, and can have several in one bucket
+		q[j] = s.percentile(eventType, p[j])
+	}
+	return // q
+}
+
+func (s Stats) percentile(eventType byte, p float64) (q uint64) {
+	n := uint64(0) // running total event count
+	f := 0.0       // running total frequency (percentile per bucket)
 	for i := range s.Buckets[eventType] {
 		n += s.Buckets[eventType][i]
 		f = float64(n) / float64(s.N[eventType]) * 100
-		// i    f     p[j]   Bucket[i]
+		// i    f     p      Bucket[i]
 		// ---  ----  -----  -----------------
 		// 100  94.1         500100 (500.1 ms)
 		// 101  95.7         502300 (502.3 ms)
 		// 102  96.0  95.0
-		//fmt.Printf("at %d n = %d, f = %f, p = %f ap = %f\n", i, n, f, p[j], base*math.Pow(factor, float64(i)))
-		if f >= p[j] {
-			q[j] = uint64(base * math.Pow(factor, float64(i))) // high value
+		//fmt.Printf("at %d n = %d, f = %f, p = %f ap = %f\n", i, n, f, p, base*math.Pow(factor, float64(i)))
+		if f >= p {
+			q = uint64(base * math.Pow(factor, float64(i))) // high value
 
-			intP, _ := math.Modf(p[j])
+			intP, _ := math.Modf(p)
 			intF, _ := math.Modf(f)
 			if intP != intF && i > 0 {
 				// Take midpoint value between two whole percentiles like P45<->P60
 				// to obtain a more accurate P between them, like P50 in this example.
-				// q[j] is already high value, so get low value to calc midpoint.
+				// q is already high value, so get low value to calc midpoint.
 				lowValue := uint64(base * math.Pow(factor, float64(i-1)))
-				q[j] = (q[j] + lowValue) / 2 // midpoint
+				q = (q + lowValue) / 2 // midpoint
 			} else if i == 0 {
-				q[j] = uint64(base * math.Pow(factor, 0.0)) // first, lowest bucket
-			}
-			if j == len(q)-1 { // stop early once all p[] found
-				break
+				q = uint64(base * math.Pow(factor, 0.0)) // first, lowest bucket
 			}
-			j++ // find next p[]
+			break
 		}
 	}
 	return // q
-- 
2.43.0


From d1a8c119a7a27021776805595fff5334b19bc3f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:14 +0000
Subject: [PATCH 28/80] fix: do not lose stats or race with clients when
 collecting stats

---
 stats/stats.go | 34 ++++++++++++++++++++++------------
 1 file changed, 22 insertions(+), 12 deletions(-)

diff --git a/stats/stats.go b/stats/stats.go
index 0c2317e..e7068ef 100644
--- a/stats/stats.go
+++ b/stats/stats.go
@@ -4,7 +4,7 @@ package stats
 
 import (
 	"math"
-	"sync/atomic"
+	"sync"
 )
 
 var nEventTypes = 4 // number of event types:
@@ -191,52 +191,62 @@ func (s Stats) percentile(eventType byte, p float64) (q uint64) {
 
 // --------------------------------------------------------------------------
 
-// Trx is lock-free stats for one trx file by one client. It contains 2 pre-allocated
+// Trx is stats for one trx file by one client. It contains 2 pre-allocated
 // Stats struct called "a" and "b": one active, one reporting. A Client records
 // to the active stats. When the Collector is ready to collect stats, it calls
-// Swap, and Trx atomically swaps "a" and "b". If, for example, "a" was active,
+// Swap, and Trx swaps "a" and "b". If, for example, "a" was active,
 // then it's returned to the Collector for reporting, and "b" is made active for
-// on-going stats recording by the Client. This is the other half of the lock-free
-// Stats design.
+// on-going stats recording by the Client.
+//
+// A mutex guards the swap: without it, a Client that has loaded the pointer can
+// still be recording to Stats that the Collector has swapped out and is reading.
+// It's not contended because only one Client records, and the Collector holds it
+// only to swap.
 type Trx struct {
 	Name string
 	a    *Stats
 	b    *Stats
-	sp   atomic.Pointer[Stats]
+	mu   sync.Mutex
+	sp   *Stats
 	onA  bool
 }
 
 func NewTrx(name string) *Trx {
 	t := &Trx{
 		Name: name,
-		sp:   atomic.Pointer[Stats]{},
 		a:    NewStats(),
 		b:    NewStats(),
 		onA:  true,
 	}
-	t.sp.Store(t.a)
+	t.sp = t.a
 	return t
 }
 
 func (t *Trx) Record(eventType byte, d int64) {
-	t.sp.Load().Record(eventType, d)
+	t.mu.Lock()
+	t.sp.Record(eventType, d)
+	t.mu.Unlock()
 }
 
 func (t *Trx) Error(n uint16) {
-	t.sp.Load().Errors[n] += 1
+	t.mu.Lock()
+	t.sp.Errors[n] += 1
+	t.mu.Unlock()
 }
 
 func (t *Trx) Swap() *Stats {
+	t.mu.Lock()
+	defer t.mu.Unlock()
 	// on A; switch to B
 	if t.onA {
 		t.b.Reset()
-		t.sp.Store(t.b)
+		t.sp = t.b
 		t.onA = false
 		return t.a
 	}
 	// on B; switch to A
 	t.a.Reset()
-	t.sp.Store(t.a)
+	t.sp = t.a
 	t.onA = true
 	return t.b
 }
-- 
2.43.0


From 3e4780d6ad3452bb0fe2ad256e5295f81b886132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:16 +0000
Subject: [PATCH 29/80] fix: parse percentiles like P999 as documented

---
 stats/reporter.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/stats/reporter.go b/stats/reporter.go
index 273204c..1e5e9a5 100644
--- a/stats/reporter.go
+++ b/stats/reporter.go
@@ -110,6 +110,11 @@ func ParsePercentiles(pCSV string) ([]string, []float64, error) {
 		if err != nil {
 			return nil, nil, fmt.Errorf("invalid percentile: %s: %s", pStr, err)
 		}
+		if f > 100.0 && !strings.Contains(pStr, ".") && len(pStr) > 2 { // P999 -> 99.9
+			if f, err = strconv.ParseFloat(pStr[0:2]+"."+pStr[2:], 64); err != nil {
+				return nil, nil, fmt.Errorf("invalid percentile: %s: %s", pStr, err)
+			}
+		}
 		if f < 0.0 || f > 100.0 {
 			return nil, nil, fmt.Errorf("percentile out of range: %s (%f): must be bretween 0 and 100", pStr, f)
 		}
-- 
2.43.0


From 3aa5f81677f0ce7e1109607574d11e9e728e391c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:56 +0000
Subject: [PATCH 30/80] fix: do not wait for or report final stats that are
 already reported

---
 stats/collector.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/stats/collector.go b/stats/collector.go
index 53a473a..a3aa0ca 100644
--- a/stats/collector.go
+++ b/stats/collector.go
@@ -264,14 +264,14 @@ func (c *Collector) Stop(timeout time.Duration, terminated bool) bool {
 			select {
 			case <-timeoutC:
 				c.Lock()
-				reported = c.Report(true) // true=force
+				c.Report(true) // true=force
 				c.Unlock()
 				break WAIT
 			default:
 				time.Sleep(100 * time.Millisecond)
 			}
 			c.Lock()
-			reported = c.Report(false)
+			reported = c.n == 0 // Recv reported it
 			c.Unlock()
 		}
 	}
@@ -377,7 +377,9 @@ func (c *Collector) Recv(in Instance) {
 // Report does nothing and returns false, unless force is true to force reporting
 // an incomplete interval, which happens when Stop(timeout) times out.
 func (c *Collector) Report(force bool) bool {
-	if force {
+	if force && c.n == 0 {
+		return false // nothing to report
+	} else if force {
 		finch.Debug("interval %d: forcing with %d of %d instances", c.intervalNo, c.n, c.nInstances)
 	} else if c.n < c.nInstances {
 		finch.Debug("interval %d: not complete: have %d of %d", c.intervalNo, c.n, c.nInstances)
-- 
2.43.0


From 1c24596cfbed0694f4ec1a244b7304db977ef810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:58 +0000
Subject: [PATCH 31/80] fix: do not mix stats of different intervals when
 remote stats are late

---
 stats/collector.go | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/stats/collector.go b/stats/collector.go
index a3aa0ca..1a7f569 100644
--- a/stats/collector.go
+++ b/stats/collector.go
@@ -331,11 +331,19 @@ func (c *Collector) Collect() bool {
 		}
 	}
 
+	// Copy because the interval might not be reported before the next Collect
+	local := c.local
+	local.Total = NewStats()
+	local.Total.Copy(c.local.Total)
+	local.Trx = map[string]*Stats{}
+	for trxName, s := range c.local.Trx {
+		local.Trx[trxName] = NewStats()
+		local.Trx[trxName].Copy(s)
+	}
+
 	c.Lock()
 	defer c.Unlock()
-	c.interval[c.n] = c.local
-	c.n++
-	return c.Report(false)
+	return c.recv(local)
 }
 
 // Recv receives stats from remote compute instances. It's called by
@@ -344,14 +352,19 @@ func (c *Collector) Recv(in Instance) {
 	finch.Debug("recv %+v", in)
 	c.Lock()
 	defer c.Unlock()
+	c.recv(in)
+}
 
+// recv adds local or remote stats to the current interval. It returns true if
+// that completes the interval, which is reported. The caller must lock c.
+func (c *Collector) recv(in Instance) bool {
 	// Is the received interval in the past? This can happen for stats from remote
 	// instances if, for example, there's a really bad network delay. Since the old
 	// interval has already been reported, and we don't buffer or report intervals
 	// out of order, we just have to drop the old/delayed interval.
 	if in.Interval < c.intervalNo {
 		log.Printf("Discarding past stats: %+v", in)
-		return
+		return false
 	}
 
 	// Reverse of above: is received interval in the future? If yes, then report
@@ -361,15 +374,13 @@ func (c *Collector) Recv(in Instance) {
 	if in.Interval > c.intervalNo {
 		log.Printf("Received next stats interval (%d) before current interval (%d) complete; reporting incomplete current interval; next stats: %+v", in.Interval, c.intervalNo, in)
 		c.Report(true) // true=force
-		c.interval[0] = in
-		c.n = 1
-		return
+		c.intervalNo = in.Interval
 	}
 
 	// Stats in current interval; buffer until we've received all stats
 	c.interval[c.n] = in
 	c.n += 1
-	c.Report(false)
+	return c.Report(false)
 }
 
 // Report reports stats when then current interval is completed: when there are
-- 
2.43.0


From 659a883a4b8903d61b1ae0ae44ccd710f79b7f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:00 +0000
Subject: [PATCH 32/80] fix: do not collect another interval while the last is
 waiting for remote stats

---
 stats/collector.go | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/stats/collector.go b/stats/collector.go
index 1a7f569..082f01b 100644
--- a/stats/collector.go
+++ b/stats/collector.go
@@ -62,6 +62,7 @@ type Collector struct {
 	doneChan   chan struct{}
 	start      time.Time // when Start was called, calculates Runtime
 	last       time.Time // when Collect was last called
+	collected  time.Time // same, but always real time
 	reporters  []Reporter
 	finalChan  chan struct{}
 
@@ -69,7 +70,6 @@ type Collector struct {
 	intervalNo uint       // current interval being filled
 	interval   []Instance // all Instance stats
 	n          uint       // index in interval
-	reported   time.Time  // when Report was last called
 }
 
 func NewCollector(cfg config.Stats, hostname string, nInstances uint) (*Collector, error) {
@@ -227,7 +227,7 @@ func (c *Collector) Stop(timeout time.Duration, terminated bool) bool {
 	*/
 
 	reported := false
-	var lastReported time.Duration
+	var lastCollected time.Duration
 	if c.Freq == 0 {
 		reported = c.Collect() // first/last/only collection
 	} else {
@@ -240,16 +240,20 @@ func (c *Collector) Stop(timeout time.Duration, terminated bool) bool {
 		}
 	}
 
-	c.Lock()
-	lastReported = time.Now().Sub(c.reported)
-	c.Unlock()
-	finch.Debug("last report: %s ago", lastReported)
+	// If the last tick was received, then this is the final interval, which might
+	// be waiting for stats from remote instances
+	lastCollected = time.Now().Sub(c.collected) // huge if never collected
+	finch.Debug("last collect: %s ago", lastCollected)
+	if lastCollected < c.Freq/2 {
+		c.Lock()
+		reported = c.n == 0
+		c.Unlock()
+	}
 
-	if reported || lastReported < (c.Freq/2) {
+	if reported {
 		finch.Debug("final report done")
-		reported = true
 	} else {
-		if c.Freq > 0 {
+		if c.Freq > 0 && lastCollected >= c.Freq/2 {
 			finch.Debug("last periodic collect")
 			reported = c.Collect()
 			if reported {
@@ -295,6 +299,7 @@ func (c *Collector) Collect() bool {
 	c.local.Interval += 1
 	c.local.Seconds = now.Sub(c.last).Seconds()
 	c.last = now
+	c.collected = time.Now()
 
 	// Update total runtime: calculated from c.start, not c.last
 	c.local.Runtime = now.Sub(c.start).Seconds()
@@ -401,7 +406,6 @@ func (c *Collector) Report(force bool) bool {
 	for _, r := range c.reporters {
 		r.Report(c.interval[0:c.n])
 	}
-	c.reported = time.Now()
 	c.intervalNo += 1
 	c.n = 0
 	return true // interval complete and reported
-- 
2.43.0


From 5b99f576f4866257e8f81bfe3c321b26817ad3fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:14 +0000
Subject: [PATCH 33/80] fix: do not count stats twice when a remote instance
 sends them again

---
 stats/collector.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/stats/collector.go b/stats/collector.go
index 082f01b..9756ecf 100644
--- a/stats/collector.go
+++ b/stats/collector.go
@@ -382,6 +382,15 @@ func (c *Collector) recv(in Instance) bool {
 		c.intervalNo = in.Interval
 	}
 
+	// Have stats from this instance already? This can happen because remote
+	// instances retry sending stats if there's no response in time.
+	for i := range c.interval[0:c.n] {
+		if c.interval[i].Hostname == in.Hostname {
+			log.Printf("Discarding duplicate stats: %+v", in)
+			return false
+		}
+	}
+
 	// Stats in current interval; buffer until we've received all stats
 	c.interval[c.n] = in
 	c.n += 1
-- 
2.43.0


From 690252a9c072d9b9bf88401a8ca3a4a61bafee49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:51 +0000
Subject: [PATCH 34/80] fix: do not save date and time columns in Go format

---
 data/column.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/data/column.go b/data/column.go
index bebb3ae..f6c7911 100644
--- a/data/column.go
+++ b/data/column.go
@@ -5,6 +5,7 @@ package data
 import (
 	"bytes"
 	"database/sql"
+	"time"
 
 	"github.com/square/finch"
 )
@@ -53,6 +54,9 @@ func (g *Column) Scan(any interface{}) error {
 		}
 		g.bytes.Reset()
 		g.bytes.Write(any.([]byte))
+	case time.Time:
+		g.useBytes = false
+		g.val = mysqlTime(any.(time.Time)) // Go format is not valid in MySQL
 	default:
 		g.useBytes = false // not reference; copy value
 		g.val = any
@@ -60,6 +64,15 @@ func (g *Column) Scan(any interface{}) error {
 	return nil
 }
 
+// mysqlTime formats a DATE, DATETIME, or TIMESTAMP parsed by the MySQL driver
+// (parseTime=true in DSN) like MySQL does.
+func mysqlTime(t time.Time) string {
+	if t.IsZero() {
+		return "0000-00-00 00:00:00"
+	}
+	return t.Format("2006-01-02 15:04:05.999999")
+}
+
 func (g *Column) Values(_ RunCount) []interface{} {
 	if g.useBytes {
 		return []interface{}{g.bytes.String()}
-- 
2.43.0


From e578a25279dab2a3e97b8f95fbfe7328ee5cc863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:36 +0000
Subject: [PATCH 35/80] fix: use NULL, not <nil>, when saved column is NULL

---
 data/column.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/data/column.go b/data/column.go
index f6c7911..00a83f8 100644
--- a/data/column.go
+++ b/data/column.go
@@ -5,6 +5,7 @@ package data
 import (
 	"bytes"
 	"database/sql"
+	"database/sql/driver"
 	"time"
 
 	"github.com/square/finch"
@@ -77,9 +78,20 @@ func (g *Column) Values(_ RunCount) []interface{} {
 	if g.useBytes {
 		return []interface{}{g.bytes.String()}
 	}
+	if g.val == nil {
+		return []interface{}{null{}}
+	}
 	return []interface{}{g.val}
 }
 
+// null is a saved NULL (or no value): NULL in SQL text and as SQL parameter.
+type null struct{}
+
+var _ driver.Valuer = null{}
+
+func (null) String() string               { return "NULL" }
+func (null) Value() (driver.Value, error) { return nil, nil }
+
 // --------------------------------------------------------------------------
 
 var Noop = noop{}
-- 
2.43.0


From c2c3c7835cbff84fc60dc47d8d626498dea96fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:38 +0000
Subject: [PATCH 36/80] fix: do not race when clients save columns in a shared
 data key

---
 data/scope.go | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/data/scope.go b/data/scope.go
index 66012a7..de3c232 100644
--- a/data/scope.go
+++ b/data/scope.go
@@ -197,10 +197,21 @@ func NewScopedGenerator(id Id, g Generator) *ScopedGenerator {
 	return s
 }
 
-func (s *ScopedGenerator) Name() string               { return s.g.Name() }
-func (s *ScopedGenerator) Id() Id                     { return s.id }
-func (s *ScopedGenerator) Format() (uint, string)     { return s.g.Format() }
-func (s *ScopedGenerator) Scan(any interface{}) error { return s.g.Scan(any) }
+func (s *ScopedGenerator) Name() string           { return s.g.Name() }
+func (s *ScopedGenerator) Id() Id                 { return s.id }
+func (s *ScopedGenerator) Format() (uint, string) { return s.g.Format() }
+
+func (s *ScopedGenerator) Scan(any interface{}) error {
+	if s.cgMux != nil { // guarded because clients share the real Generator
+		s.cgMux.Lock()
+		defer s.cgMux.Unlock()
+	}
+	if s.oneTime != nil {
+		s.oneTime.Lock()
+		defer s.oneTime.Unlock()
+	}
+	return s.g.Scan(any)
+}
 
 func (s *ScopedGenerator) Copy() Generator {
 	panic("cannot copy ScopedGenerator") // only real Generator is copied
-- 
2.43.0


From 4e32ceabd2543e5c2e3c31be21814fea926707a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:15 +0000
Subject: [PATCH 37/80] fix: allow @PREV in CSV substitution

---
 trx/trx.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/trx/trx.go b/trx/trx.go
index b7674ee..6afd4de 100644
--- a/trx/trx.go
+++ b/trx/trx.go
@@ -400,6 +400,10 @@ func (f *File) statements() ([]*Statement, error) {
 
 		keys := map[string]bool{}
 		for _, name := range DataKeyPattern.FindAllString(csvTemplate, -1) {
+			if name == "@PREV" {
+				continue // meta data key, not configured in stage file
+			}
+
 			// Trim to look up data key in config because @ is not valid YAML.
 			// The @ will be put back later because all other code expects it.
 			name = cfgKey(name)
-- 
2.43.0


From 4bf57f89428bbb094f6464a17d671abf69ff093c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:22 +0000
Subject: [PATCH 38/80] fix: expand each CSV substitution in a statement, not
 all like the first

---
 trx/trx.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/trx/trx.go b/trx/trx.go
index 6afd4de..36a3d23 100644
--- a/trx/trx.go
+++ b/trx/trx.go
@@ -390,7 +390,7 @@ func (f *File) statements() ([]*Statement, error) {
 	// ----------------------------------------------------------------------
 	csvTemplate := ""
 	m := reCSV.FindStringSubmatch(query)
-	if len(m) > 0 {
+	for len(m) > 0 {
 		n, err := strconv.ParseInt(m[1], 10, 32)
 		if err != nil {
 			return nil, fmt.Errorf("invalid number of CSV values in %s: %s", m[0], err)
@@ -433,7 +433,8 @@ func (f *File) statements() ([]*Statement, error) {
 			vals[i] = csvTemplateScoped
 		}
 		csv := strings.Join(vals, ", ")
-		query = reCSV.ReplaceAllLiteralString(query, csv)
+		query = strings.Replace(query, m[0], csv, 1)
+		m = reCSV.FindStringSubmatch(query) // next CSV, if any
 	}
 
 	// ----------------------------------------------------------------------
-- 
2.43.0


From 957966ee4b01131f8ab49a9a630fcf641b2ba2ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:40 +0000
Subject: [PATCH 39/80] fix: analyze tables of the database in database-size
 limit

---
 limit/data.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/limit/data.go b/limit/data.go
index 0d7d800..c119512 100644
--- a/limit/data.go
+++ b/limit/data.go
@@ -187,12 +187,11 @@ func (lm *Size) More(conn *sql.Conn) bool {
 			lm.query += "table_schema='" + lm.db + "'"
 
 			var tbls []string
-			rows, err := conn.QueryContext(ctx, "SHOW FULL TABLES")
+			rows, err := conn.QueryContext(ctx, "SHOW FULL TABLES FROM `"+lm.db+"`")
 			if err != nil {
 				log.Printf("Error running SHOW FULL TABLES: %s", err)
 				return false
 			}
-			rows.Close()
 			for rows.Next() {
 				var name, base string
 				err = rows.Scan(&name, &base)
@@ -202,9 +201,12 @@ func (lm *Size) More(conn *sql.Conn) bool {
 				if base != "BASE TABLE" {
 					continue
 				}
-				tbls = append(tbls, name)
+				tbls = append(tbls, "`"+lm.db+"`.`"+name+"`")
+			}
+			rows.Close()
+			if len(tbls) > 0 {
+				lm.analyze = "ANALYZE TABLE " + strings.Join(tbls, ", ")
 			}
-			lm.analyze = "ANALYZE TABLE " + strings.Join(tbls, ", ")
 		} else {
 			log.Printf("Table size limit: %s %s (progress report every %d%%)", lm.tbl, lm.maxStr, lm.r)
 			err := conn.QueryRowContext(ctx, "SELECT DATABASE()").Scan(&lm.db)
@@ -227,7 +229,9 @@ func (lm *Size) More(conn *sql.Conn) bool {
 		return true // not time to check; presume there's more to load
 	}
 
-	if _, err := conn.ExecContext(ctx, lm.analyze); err != nil {
+	if lm.analyze == "" {
+		// No tables in database yet
+	} else if _, err := conn.ExecContext(ctx, lm.analyze); err != nil {
 		log.Printf("Error running ANALYZE TABLE: %s", err)
 		return false
 	}
-- 
2.43.0


From a477cfca26affc7a4e76d5374244c032528cfa03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:42 +0000
Subject: [PATCH 40/80] fix: sum size of all tables in database-size limit

---
 limit/data.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/limit/data.go b/limit/data.go
index c119512..2e23a32 100644
--- a/limit/data.go
+++ b/limit/data.go
@@ -184,7 +184,7 @@ func (lm *Size) More(conn *sql.Conn) bool {
 		lm.query = "SELECT COALESCE(data_length + index_length, 0) AS bytes FROM information_schema.TABLES WHERE "
 		if lm.db != "" {
 			log.Printf("Database size limit: %s %s (progress report every %d%%)", lm.db, lm.maxStr, lm.r)
-			lm.query += "table_schema='" + lm.db + "'"
+			lm.query = "SELECT COALESCE(SUM(data_length + index_length), 0) AS bytes FROM information_schema.TABLES WHERE table_schema='" + lm.db + "'"
 
 			var tbls []string
 			rows, err := conn.QueryContext(ctx, "SHOW FULL TABLES FROM `"+lm.db+"`")
-- 
2.43.0


From 212b81581a43076f9e36866ba5e13610c79ef94d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:05 +0000
Subject: [PATCH 41/80] fix: accept database-qualified table name in table-size
 limit

---
 limit/data.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/limit/data.go b/limit/data.go
index 2e23a32..a9454e3 100644
--- a/limit/data.go
+++ b/limit/data.go
@@ -209,12 +209,16 @@ func (lm *Size) More(conn *sql.Conn) bool {
 			}
 		} else {
 			log.Printf("Table size limit: %s %s (progress report every %d%%)", lm.tbl, lm.maxStr, lm.r)
-			err := conn.QueryRowContext(ctx, "SELECT DATABASE()").Scan(&lm.db)
-			if err != nil {
-				log.Printf("Error getting current database: %s", err)
-				return false
+			db, tbl, qualified := strings.Cut(lm.tbl, ".")
+			if !qualified {
+				tbl = lm.tbl
+				err := conn.QueryRowContext(ctx, "SELECT DATABASE()").Scan(&db)
+				if err != nil {
+					log.Printf("Error getting current database: %s", err)
+					return false
+				}
 			}
-			lm.query += "table_schema='" + lm.db + "' AND table_name='" + lm.tbl + "'"
+			lm.query += "table_schema='" + db + "' AND table_name='" + tbl + "'"
 			lm.analyze = "ANALYZE TABLE " + lm.tbl
 		}
 		finch.Debug(lm.query)
-- 
2.43.0


From 3ec7c1d73533548b311ede627102233c83baafb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:50 +0000
Subject: [PATCH 42/80] fix: stop clients waiting for rate limit or idle time
 when runtime elapses

---
 client/client.go | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/client/client.go b/client/client.go
index 2a25f2f..1354354 100644
--- a/client/client.go
+++ b/client/client.go
@@ -257,18 +257,30 @@ ITER:
 			// Idle time, after marking trx boundary because the idle time can be
 			// the first or last statement in a trx
 			if c.Statements[i].Idle != 0 {
-				time.Sleep(c.Statements[i].Idle)
+				select {
+				case <-time.After(c.Statements[i].Idle):
+				case <-ctxExec.Done():
+					return // runtime elapsed or CTRL-C
+				}
 				continue
 			}
 
 			// If BEGIN, check TPS rate limiter
 			if c.TPS != nil && c.Statements[i].Begin {
-				<-c.TPS
+				select {
+				case <-c.TPS:
+				case <-ctxExec.Done():
+					return // runtime elapsed or CTRL-C
+				}
 			}
 
 			// If query, check QPS
 			if c.QPS != nil {
-				<-c.QPS
+				select {
+				case <-c.QPS:
+				case <-ctxExec.Done():
+					return // runtime elapsed or CTRL-C
+				}
 			}
 
 			// Generate new data values for this query. A single data generator
-- 
2.43.0


From 231cf8df06b50422320fff187c5027843258c245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:53 +0000
Subject: [PATCH 43/80] fix: limit rate of exec group when set in any of its
 client groups

---
 workload/workload.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/workload/workload.go b/workload/workload.go
index 2c1012f..dbe722f 100644
--- a/workload/workload.go
+++ b/workload/workload.go
@@ -136,8 +136,18 @@ func (a *Allocator) Clients(groups [][]int, withStats bool) ([][]ClientGroup, er
 
 		// Wherever you see finch.Uint, the string value (e.g. "100") has already been
 		// validated, so this func is just a shortcut to return uint rather than uint, erroor.
-		execGroupQPS := limit.And(a.StageQPS, limit.NewRate(finch.Uint(cgFirst.QPSExecGroup)))
-		execGroupTPS := limit.And(a.StageTPS, limit.NewRate(finch.Uint(cgFirst.TPSExecGroup)))
+		// Exec group limits can be set in any client group; the first is used.
+		var qpsExecGroup, tpsExecGroup uint
+		for _, egRefNo := range groups[egNo] {
+			if qpsExecGroup == 0 {
+				qpsExecGroup = finch.Uint(a.Workload[egRefNo].QPSExecGroup)
+			}
+			if tpsExecGroup == 0 {
+				tpsExecGroup = finch.Uint(a.Workload[egRefNo].TPSExecGroup)
+			}
+		}
+		execGroupQPS := limit.And(a.StageQPS, limit.NewRate(qpsExecGroup))
+		execGroupTPS := limit.And(a.StageTPS, limit.NewRate(tpsExecGroup))
 
 		clients[egNo] = make([]ClientGroup, len(groups[egNo]))
 
-- 
2.43.0


From 38a60efb9583cc70d05958168a8ea06433e954c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:24 +0000
Subject: [PATCH 44/80] fix: do not override stats of stage with stats of base
 config

---
 config/file.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/config/file.go b/config/file.go
index 60bd355..c20cdf6 100644
--- a/config/file.go
+++ b/config/file.go
@@ -68,8 +68,10 @@ func (c *Stage) With(b Base) {
 
 	// Stats has a map, so copy in all fields manually
 	c.Stats.Disable = setBool(c.Stats.Disable, b.Stats.Disable)
-	c.Stats.Freq = b.Stats.Freq
-	if len(b.Stats.Report) > 0 {
+	if c.Stats.Freq == "" {
+		c.Stats.Freq = b.Stats.Freq
+	}
+	if len(c.Stats.Report) == 0 && len(b.Stats.Report) > 0 {
 		c.Stats.Report = map[string]map[string]string{}
 		for r := range b.Stats.Report {
 			c.Stats.Report[r] = map[string]string{}
-- 
2.43.0


From 1dc4990ef1c95636b88fe5954ff6c2db65963bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:25 +0000
Subject: [PATCH 45/80] fix: override all params with --param

---
 config/config.go | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/config/config.go b/config/config.go
index c7ec88b..3467855 100644
--- a/config/config.go
+++ b/config/config.go
@@ -82,16 +82,6 @@ func Load(stageFiles []string, kvparams []string, dsn, db string) ([]Stage, erro
 				finch.Debug("base: none in %s", dir)
 			}
 
-			// --param foo=bar on command line overrides .params in stage files
-			if len(b.Params) > 0 {
-				if b.Params == nil {
-					b.Params = map[string]string{}
-				}
-				for k, v := range params {
-					b.Params[k] = v
-				}
-			}
-
 			base[dir] = b
 		}
 
@@ -115,6 +105,14 @@ func Load(stageFiles []string, kvparams []string, dsn, db string) ([]Stage, erro
 		// Set stage with defaults (base)
 		f.Stage.With(b)
 
+		// --param foo=bar on command line overrides .params in base and stage files
+		if len(params) > 0 && f.Stage.Params == nil {
+			f.Stage.Params = map[string]string{}
+		}
+		for k, v := range params {
+			f.Stage.Params[k] = v
+		}
+
 		// --dsn and --database on command line override config files
 		f.Stage.CommandLine(dsn, db)
 
-- 
2.43.0


From 07327be09f1a377cae24a3372ec8dde2c425432b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:27 +0000
Subject: [PATCH 46/80] fix: do not interpolate values of variables again

---
 config/config.go | 69 +++++++++++++++++++++++++-----------------------
 1 file changed, 36 insertions(+), 33 deletions(-)

diff --git a/config/config.go b/config/config.go
index 3467855..e158f54 100644
--- a/config/config.go
+++ b/config/config.go
@@ -191,10 +191,16 @@ func FileExists(filePath string) bool {
 	return err == nil
 }
 
-var varRE = []*regexp.Regexp{
-	regexp.MustCompile(`\${([^}]+)}`),  // ${param.foo} for "hello${param.foo}bar"
-	regexp.MustCompile(`\$([^\s"']+)`), // $param.foo for standalone value
+// varRE matches ${param.foo} for "hello${param.foo}bar" or $param.foo for standalone
+// value. It's one regex because values that were interpolated must not be again.
+var varRE = regexp.MustCompile(`\${([^}]+)}|\$([^\s"']+)`)
+
+// varName returns p for v = ${p} or $p.
+func varName(v string) string {
+	m := varRE.FindStringSubmatch(v)
+	return m[1] + m[2] // only one matches
 }
+
 var reHumanNumber = regexp.MustCompile(`(?i)\b\d(?:[\d,]*\d)?(?:(?:\.\d+)?(?:[KMGT]I?B?|B))?\b`) // 1M or 1,000,000 -> 1000000
 var reAllDigits = regexp.MustCompile(`^\d+$`)
 
@@ -202,37 +208,35 @@ var reAllDigits = regexp.MustCompile(`^\d+$`)
 // values, respectively, and human numbers to integers (1k -> 1000).
 // "${var}" is also valid but YAML requires string quotes around {}.
 func Vars(s string, params map[string]string, numbers bool) (string, error) {
-	for _, r := range varRE {
-		var err error
-		s = r.ReplaceAllStringFunc(s, func(v string) string { // v is ${p} or $p
-			p := r.FindStringSubmatch(v)[1]
-			var val string
-			var ok bool
-			switch {
-			case strings.HasPrefix(p, "params."):
-				val, ok = params[strings.TrimPrefix(p, "params.")]
-				if !ok && err == nil {
-					err = fmt.Errorf("%s not defined (is it spelled correctly?)", p)
-				}
-				finch.Debug("param: %s -> %v (user-defined)", v, val)
-			case strings.HasPrefix(p, "sys."):
-				val, ok = finch.SystemParams[strings.TrimPrefix(p, "sys.")]
-				if !ok && err == nil {
-					err = fmt.Errorf("%s not defined (is it spelled correctly?)", p)
-				}
-				finch.Debug("param: %s -> %v (built-in)", v, val)
-			default:
-				val, ok = os.LookupEnv(p)
-				if !ok && err == nil {
-					err = fmt.Errorf("environment variable %s not set (is it spelled correctly?)", p)
-				}
-				finch.Debug("param: %s -> %v (env var)", v, val)
+	var err error
+	s = varRE.ReplaceAllStringFunc(s, func(v string) string { // v is ${p} or $p
+		p := varName(v)
+		var val string
+		var ok bool
+		switch {
+		case strings.HasPrefix(p, "params."):
+			val, ok = params[strings.TrimPrefix(p, "params.")]
+			if !ok && err == nil {
+				err = fmt.Errorf("%s not defined (is it spelled correctly?)", p)
 			}
-			return val
-		})
-		if err != nil {
-			return "", err
+			finch.Debug("param: %s -> %v (user-defined)", v, val)
+		case strings.HasPrefix(p, "sys."):
+			val, ok = finch.SystemParams[strings.TrimPrefix(p, "sys.")]
+			if !ok && err == nil {
+				err = fmt.Errorf("%s not defined (is it spelled correctly?)", p)
+			}
+			finch.Debug("param: %s -> %v (built-in)", v, val)
+		default:
+			val, ok = os.LookupEnv(p)
+			if !ok && err == nil {
+				err = fmt.Errorf("environment variable %s not set (is it spelled correctly?)", p)
+			}
+			finch.Debug("param: %s -> %v (env var)", v, val)
 		}
+		return val
+	})
+	if err != nil {
+		return "", err
 	}
 
 	if !numbers {
@@ -240,7 +244,6 @@ func Vars(s string, params map[string]string, numbers bool) (string, error) {
 	}
 
 	// Look for human numbers like 1k and 1,000
-	var err error
 	n := reHumanNumber.ReplaceAllStringFunc(s, func(v string) string {
 		// To keep the regex simple, reHumanNumber also matches ints like 1000,
 		// but don't waste time parsing something that's already machine number.
-- 
2.43.0


From cfaab3c2554c543ae858be34402121268676cbcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:29 +0000
Subject: [PATCH 47/80] fix: interpolate params used by other params first

---
 config/file.go | 43 ++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 38 insertions(+), 5 deletions(-)

diff --git a/config/file.go b/config/file.go
index c20cdf6..f642d77 100644
--- a/config/file.go
+++ b/config/file.go
@@ -8,6 +8,7 @@ import (
 	"fmt"
 	"io/ioutil"
 	"path/filepath"
+	"strings"
 
 	"github.com/square/finch"
 )
@@ -110,11 +111,8 @@ func (c *Stage) Vars() error {
 	var err error
 
 	// First interpolate the params before they're used in other config vars
-	for k, v := range c.Params {
-		c.Params[k], err = Vars(v, c.Params, true)
-		if err != nil {
-			return fmt.Errorf("in params: %s", err)
-		}
+	if err := c.paramVars(); err != nil {
+		return fmt.Errorf("in params: %s", err)
 	}
 
 	// Interpolate $params.var in other config vars
@@ -156,6 +154,41 @@ func (c *Stage) Vars() error {
 	return nil
 }
 
+// paramVars interpolates the params. A param can use other params, so those are
+// interpolated first.
+func (c *Stage) paramVars() error {
+	done := map[string]bool{} // false while interpolating
+	var interpolate func(string) error
+	interpolate = func(k string) error {
+		if ok, seen := done[k]; ok {
+			return nil
+		} else if seen {
+			return fmt.Errorf("circular reference to params.%s", k)
+		}
+		done[k] = false
+		for _, v := range varRE.FindAllString(c.Params[k], -1) {
+			p := strings.TrimPrefix(varName(v), "params.")
+			if _, ok := c.Params[p]; ok && p != varName(v) {
+				if err := interpolate(p); err != nil {
+					return err
+				}
+			}
+		}
+		var err error
+		if c.Params[k], err = Vars(c.Params[k], c.Params, true); err != nil {
+			return err
+		}
+		done[k] = true
+		return nil
+	}
+	for k := range c.Params {
+		if err := interpolate(k); err != nil {
+			return err
+		}
+	}
+	return nil
+}
+
 func (c *Stage) Validate() error {
 	if c.Disable {
 		return nil
-- 
2.43.0


From 9f0df2dbdb475616dfa36df5bf8025eb3a8f13c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:31 +0000
Subject: [PATCH 48/80] fix: interpolate params and human-readable numbers in
 iter limits

---
 config/file.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/config/file.go b/config/file.go
index f642d77..9632976 100644
--- a/config/file.go
+++ b/config/file.go
@@ -472,6 +472,18 @@ func (c *ClientGroup) Vars(params map[string]string) error {
 	if err != nil {
 		return err
 	}
+	c.Iter, err = Vars(c.Iter, params, true)
+	if err != nil {
+		return err
+	}
+	c.IterClients, err = Vars(c.IterClients, params, true)
+	if err != nil {
+		return err
+	}
+	c.IterExecGroup, err = Vars(c.IterExecGroup, params, true)
+	if err != nil {
+		return err
+	}
 	c.QPS, err = Vars(c.QPS, params, true)
 	if err != nil {
 		return err
-- 
2.43.0


From 13ba3d4806b7c28577ca0df2ccc97ec0f51b4651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:33 +0000
Subject: [PATCH 49/80] fix: interpolate params in mysql hostname and socket

---
 config/file.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/config/file.go b/config/file.go
index 9632976..8d3882f 100644
--- a/config/file.go
+++ b/config/file.go
@@ -587,6 +587,14 @@ func (c *MySQL) Vars(params map[string]string) error {
 	if err != nil {
 		return err
 	}
+	c.Hostname, err = Vars(c.Hostname, params, false)
+	if err != nil {
+		return err
+	}
+	c.Socket, err = Vars(c.Socket, params, false)
+	if err != nil {
+		return err
+	}
 	c.MyCnf, err = Vars(c.MyCnf, params, false)
 	if err != nil {
 		return err
-- 
2.43.0


From 01c1703e7fa0673f8ba944fc1b5a590504f12f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:35 +0000
Subject: [PATCH 50/80] fix: do not wait forever when compute instances is zero

---
 config/file.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/config/file.go b/config/file.go
index 8d3882f..6b9ca26 100644
--- a/config/file.go
+++ b/config/file.go
@@ -334,8 +334,8 @@ func (c *Compute) Validate() error {
 	if err := parseInt(c.Instances); err != nil {
 		return fmt.Errorf("instances: '%s' is not an integer: %s", c.Instances, err)
 	}
-	if c.Instances == "" {
-		c.Instances = "1"
+	if finch.Uint(c.Instances) == 0 {
+		c.Instances = "1" // default
 	}
 	return nil
 }
-- 
2.43.0


From c04dc08f4623edb69ef385d36ae390689bd64b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:36 +0000
Subject: [PATCH 51/80] fix: do not use newline at end of password file as part
 of password

---
 dbconn/factory.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dbconn/factory.go b/dbconn/factory.go
index 2dcd6b0..30dcf0a 100644
--- a/dbconn/factory.go
+++ b/dbconn/factory.go
@@ -148,7 +148,7 @@ func (f *factory) setDSN() error {
 		if err != nil {
 			return err
 		}
-		password = string(bytes)
+		password = strings.TrimRight(string(bytes), "\r\n")
 	}
 
 	if f.cfg.Username == "" {
-- 
2.43.0


From d5a4d688df09414376ff124413b79fe444c5ffcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:38 +0000
Subject: [PATCH 52/80] fix: use TLS config from my.cnf

---
 dbconn/mycnf.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dbconn/mycnf.go b/dbconn/mycnf.go
index 99d56de..be5ec78 100644
--- a/dbconn/mycnf.go
+++ b/dbconn/mycnf.go
@@ -37,7 +37,7 @@ func ParseMyCnf(file string) (config.MySQL, error) {
 	//   https://dev.mysql.com/doc/refman/8.0/en/connection-options.html#option_general_ssl-mode
 	// But Go tls.Config (which is derived from config.TLS) has only two
 	// options: specify tls.Confg.ServerName _or_ .InsecureSkipVerify=true.
-	mysqlTLS(file, mycnf, &cfg)
+	cfg.TLS = mysqlTLS(file, mycnf, &cfg)
 
 	finch.Debug("mycnf %s: %s %+v", file, cfg.Redacted())
 	return cfg, nil
-- 
2.43.0


From 8cb3b0e261bffe1d8eee3c32366038289b60ff9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:40 +0000
Subject: [PATCH 53/80] fix: do not panic on invalid DSN

---
 dbconn/factory.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/dbconn/factory.go b/dbconn/factory.go
index 30dcf0a..00b723a 100644
--- a/dbconn/factory.go
+++ b/dbconn/factory.go
@@ -49,14 +49,13 @@ func Make() (*sql.DB, string, error) {
 			return nil, "", err
 		}
 	}
-	finch.Debug("dsn: %s", RedactedDSN(f.dsn))
-
 	// Make new sql.DB (conn pool) for each client group; see the call to
 	// this func in workload/workload.go.
 	db, err := sql.Open("mysql", f.dsn)
 	if err != nil {
 		return nil, "", err
 	}
+	finch.Debug("dsn: %s", RedactedDSN(f.dsn))
 
 	// Don't keep idle connections: when a client closes its connection, the MySQL
 	// session must end. Else, a client that reconnects on error gets its old session
-- 
2.43.0


From 99e081374da59c4cf09b331691e01ae84bd4c8db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:14 +0000
Subject: [PATCH 54/80] fix: do not send empty body when retrying a request

---
 proto/proto.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/proto/proto.go b/proto/proto.go
index 45cace3..0cbe537 100644
--- a/proto/proto.go
+++ b/proto/proto.go
@@ -56,9 +56,11 @@ func (c *Client) request(ctx context.Context, method string, endpoint string, pa
 	url := c.URL(endpoint, params)
 	finch.Debug("%s %s", method, url)
 
-	buf := new(bytes.Buffer)
+	var reqBody []byte
 	if data != nil {
+		buf := new(bytes.Buffer)
 		json.NewEncoder(buf).Encode(data)
+		reqBody = buf.Bytes()
 	}
 
 	var err error
@@ -69,7 +71,7 @@ func (c *Client) request(ctx context.Context, method string, endpoint string, pa
 	for r.Tries == -1 || try < r.Tries {
 		try += 1
 		ctxReq, cancelReq := context.WithTimeout(ctx, r.Timeout)
-		req, _ = http.NewRequestWithContext(ctxReq, method, url, buf)
+		req, _ = http.NewRequestWithContext(ctxReq, method, url, bytes.NewReader(reqBody))
 		resp, err = c.client.Do(req)
 		cancelReq()
 		if err != nil {
-- 
2.43.0


From 94b49f1c0c5f760dc17652ead360da010908085c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:16 +0000
Subject: [PATCH 55/80] fix: do not cancel request before reading response

---
 proto/proto.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/proto/proto.go b/proto/proto.go
index 0cbe537..a9ec3bd 100644
--- a/proto/proto.go
+++ b/proto/proto.go
@@ -73,15 +73,16 @@ func (c *Client) request(ctx context.Context, method string, endpoint string, pa
 		ctxReq, cancelReq := context.WithTimeout(ctx, r.Timeout)
 		req, _ = http.NewRequestWithContext(ctxReq, method, url, bytes.NewReader(reqBody))
 		resp, err = c.client.Do(req)
-		cancelReq()
 		if err != nil {
+			cancelReq()
 			goto RETRY
 		}
 
-		body, err = io.ReadAll(resp.Body)
+		body, err = io.ReadAll(resp.Body) // before cancelReq
 		resp.Body.Close()
+		cancelReq()
 		if err != nil {
-			return nil, nil, err
+			goto RETRY
 		}
 
 		switch resp.StatusCode {
-- 
2.43.0


From 3e786ba7a19002f07268a397b833930986317a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:17 +0000
Subject: [PATCH 56/80] fix: do not wait forever for lost clients when stopping
 a stage

---
 compute/api.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/compute/api.go b/compute/api.go
index a45ea26..7982f7e 100644
--- a/compute/api.go
+++ b/compute/api.go
@@ -121,12 +121,13 @@ func (a *API) Stage(newStage *stageMeta) error {
 	// Wait for clients to check in (GET /run), be signaled that stage.done=true,
 	// send final stats, then call POST /run to terminate
 	timeout := time.After(3 * time.Second)
+WAIT:
 	for {
 		time.Sleep(100 * time.Millisecond)
 		select {
 		case <-timeout:
 			finch.Debug("timeout waiting for clients to reset")
-			break
+			break WAIT
 		default:
 		}
 		oldStage.Lock()
-- 
2.43.0


From 740ba75ce0458acf887f2fbcfc17d4d7b3846282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:19 +0000
Subject: [PATCH 57/80] fix: do not wait forever for lost clients when
 terminated

---
 compute/server.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/compute/server.go b/compute/server.go
index 523c8b2..e31824e 100644
--- a/compute/server.go
+++ b/compute/server.go
@@ -165,9 +165,11 @@ func (s *Server) run(ctxFinch context.Context, cfg config.Stage) error {
 	finch.Debug("run %s", stageName)
 	close(m.runChan) // signal remotes to run
 
+	localDone := make(chan struct{})
 	if local != nil { // start local instance
 		go func() {
 			local.Run(ctxFinch)
+			close(localDone)
 			m.doneChan <- ack{name: s.name}
 		}()
 	}
@@ -192,6 +194,12 @@ func (s *Server) run(ctxFinch context.Context, cfg config.Stage) error {
 			if s.api != nil {
 				s.api.Stage(nil)
 			}
+
+			// Local is stopping, too; wait for it but not for lost remotes
+			if local != nil {
+				<-localDone
+			}
+			return nil
 		}
 	}
 
-- 
2.43.0


From 2983144450793987289625453e89171cdf8e92ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:20 +0000
Subject: [PATCH 58/80] fix: end test of remote instances with --test

---
 compute/server.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/compute/server.go b/compute/server.go
index e31824e..44f4ed5 100644
--- a/compute/server.go
+++ b/compute/server.go
@@ -88,6 +88,8 @@ func (s *Server) run(ctxFinch context.Context, cfg config.Stage) error {
 		fmt.Printf("#\n# %s (%s)\n#\n", stageName, cfg.Id)
 	}
 
+	cfg.Test = s.test
+
 	m := &stageMeta{
 		Mutex:    &sync.Mutex{},
 		cfg:      cfg,
@@ -155,6 +157,9 @@ func (s *Server) run(ctxFinch context.Context, cfg config.Stage) error {
 	m.Unlock()
 
 	if s.test {
+		if s.api != nil && nRemotes > 0 {
+			return s.api.Stage(nil) // stop remotes, which are waiting to run
+		}
 		return nil
 	}
 
-- 
2.43.0


From e1f0302ba38efe4044a6f5a275cc9827eba09d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:22 +0000
Subject: [PATCH 59/80] fix: do not assign client that gave up waiting to a
 stage

---
 compute/api.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/compute/api.go b/compute/api.go
index 7982f7e..3584a36 100644
--- a/compute/api.go
+++ b/compute/api.go
@@ -199,7 +199,11 @@ func (a *API) boot(w http.ResponseWriter, r *http.Request) {
 			return
 
 		RETRY:
-			time.Sleep(200 * time.Millisecond)
+			select {
+			case <-time.After(200 * time.Millisecond):
+			case <-r.Context().Done():
+				return // client gave up and will call GET /boot again
+			}
 		}
 	} else {
 		// POST /boot: client is ack'ing previous GET /boot; body is error message, if any
-- 
2.43.0


From 26672e8b6c4ea24a1e4a2c8d31670ad192363653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:23 +0000
Subject: [PATCH 60/80] fix: let client join stage after a client failed to
 boot

---
 compute/api.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/compute/api.go b/compute/api.go
index 3584a36..f3b1582 100644
--- a/compute/api.go
+++ b/compute/api.go
@@ -224,8 +224,12 @@ func (a *API) boot(w http.ResponseWriter, r *http.Request) {
 		// it should call GET /boot again to reset itself and try again.
 		var clientErr error
 		if string(body) != "" {
-			// Don't advance state: client failed to boot, so it's not ready to run
+			// Don't advance state: client failed to boot, so it's not ready to run.
+			// Let it, or another client, join the stage.
 			clientErr = fmt.Errorf("%s", string(body))
+			rc.stage.Lock()
+			delete(rc.stage.clients, rc.name)
+			rc.stage.Unlock()
 		} else {
 			rc.state = runnable // advance client state (successful boot)
 		}
-- 
2.43.0


From b25297e35784d9ffb781e30ba13a22ca1ddebc53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:25 +0000
Subject: [PATCH 61/80] fix: let client boot again when it did not receive the
 stage

---
 compute/api.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/compute/api.go b/compute/api.go
index f3b1582..95b39b9 100644
--- a/compute/api.go
+++ b/compute/api.go
@@ -471,6 +471,12 @@ func (a *API) client(w http.ResponseWriter, r *http.Request, boot bool) (*client
 
 	// Is instance assigned to the current stage?
 	rc, ok := a.stage.clients[name]
+	if ok && get && boot && rc.state == booting {
+		// Client didn't receive the stage, or it restarted while booting, so
+		// let it join the stage again
+		delete(a.stage.clients, name)
+		ok = false
+	}
 	if !ok {
 
 		// Instance not assigned to the stage, but that's ok if it's trying
-- 
2.43.0


From 50b6d782c4db74536b14c210dc27bb6f8652193c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:26 +0000
Subject: [PATCH 62/80] fix: do not mix up trx files with the same base name on
 clients

---
 compute/client.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compute/client.go b/compute/client.go
index d7b0542..cdd9770 100644
--- a/compute/client.go
+++ b/compute/client.go
@@ -202,7 +202,7 @@ func (c *Client) getTrxFiles(ctxFinch context.Context, cfg config.Stage, tmpdir
 		}
 		finch.Debug("%+v", resp)
 
-		filename := filepath.Join(tmpdir, filepath.Base(trx[i].File))
+		filename := filepath.Join(tmpdir, fmt.Sprintf("%d-%s", i, filepath.Base(trx[i].File)))
 		f, err := os.OpenFile(filename, os.O_RDWR|os.O_CREATE, 0440)
 		if err != nil {
 			return err
-- 
2.43.0


From adea775b041c4a6a52c16c9f55f36baf06698dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:28 +0000
Subject: [PATCH 63/80] fix: do not collect stats on clients when disabled

---
 compute/client.go | 31 +++++++++++++++++--------------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/compute/client.go b/compute/client.go
index cdd9770..be6f3a8 100644
--- a/compute/client.go
+++ b/compute/client.go
@@ -95,24 +95,27 @@ func (c *Client) run(ctxFinch context.Context) error {
 
 	// ------------------------------------------------------------------
 	// Local boot and ack
-	for k := range cfg.Stats.Report {
-		if k == "stdout" {
-			continue
+	var collector *stats.Collector // nil if stats disabled
+	if !config.True(cfg.Stats.Disable) {
+		for k := range cfg.Stats.Report {
+			if k == "stdout" {
+				continue
+			}
+			delete(cfg.Stats.Report, k)
+		}
+		cfg.Stats.Report["server"] = map[string]string{
+			"server":   c.addr,
+			"client":   c.name,
+			"stage-id": c.client.StageId,
+		}
+		collector, err = stats.NewCollector(cfg.Stats, c.name, 1)
+		if err != nil {
+			return err
 		}
-		delete(cfg.Stats.Report, k)
-	}
-	cfg.Stats.Report["server"] = map[string]string{
-		"server":   c.addr,
-		"client":   c.name,
-		"stage-id": c.client.StageId,
-	}
-	stats, err := stats.NewCollector(cfg.Stats, c.name, 1)
-	if err != nil {
-		return err
 	}
 
 	log.Printf("[%s] Booting", stageName)
-	local := stage.New(cfg, c.gds, stats)
+	local := stage.New(cfg, c.gds, collector)
 	if err := local.Prepare(ctxFinch); err != nil {
 		log.Printf("[%s] Boot error, notifying server: %s", stageName, err)
 		c.client.Send(ctxFinch, "/boot", err.Error(), proto.R{500 * time.Millisecond, 100 * time.Millisecond, 3}) // don't care if this fails
-- 
2.43.0


From eeacae204dd350edb5ff65e1371d4e0506a1be55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:29 +0000
Subject: [PATCH 64/80] fix: do not wait forever for remote instances when not
 a server

---
 compute/server.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/compute/server.go b/compute/server.go
index 44f4ed5..6edf903 100644
--- a/compute/server.go
+++ b/compute/server.go
@@ -81,6 +81,9 @@ func (s *Server) run(ctxFinch context.Context, cfg config.Stage) error {
 	if cfg.Compute.DisableLocal {
 		nRemotes += 1 // no local, so all instances are remote
 	}
+	if nRemotes > 0 && s.api == nil {
+		return fmt.Errorf("stage %s requires %d remote compute instances; run finch with --server", stageName, nRemotes)
+	}
 	if nRemotes == 0 {
 		fmt.Printf("#\n# %s\n#\n", stageName)
 	} else {
-- 
2.43.0


From 3e50089b1e8e19fa81d113b26df8ddc258b3ef41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:11 +0000
Subject: [PATCH 65/80] fix: do not panic on modifier without value

---
 trx/trx.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/trx/trx.go b/trx/trx.go
index 36a3d23..ae0988f 100644
--- a/trx/trx.go
+++ b/trx/trx.go
@@ -272,6 +272,12 @@ func (f *File) statements() ([]*Statement, error) {
 		}
 		m[0] = strings.Trim(m[0], ":")
 		switch m[0] {
+		case "idle", "rows", "save-insert-id", "copies":
+			if len(m) < 2 {
+				return nil, fmt.Errorf("invalid %s modifier: '%s': no value", m[0], mod)
+			}
+		}
+		switch m[0] {
 		case "prepare", "prepared":
 			s.Prepare = true
 		case "idle":
-- 
2.43.0


From 70a65d4459d4b60f6d03115232bdae283c802ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:22 +0000
Subject: [PATCH 66/80] fix: let client retry boot ack when it did not receive
 the response

---
 compute/api.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/compute/api.go b/compute/api.go
index 95b39b9..6946969 100644
--- a/compute/api.go
+++ b/compute/api.go
@@ -207,6 +207,10 @@ func (a *API) boot(w http.ResponseWriter, r *http.Request) {
 		}
 	} else {
 		// POST /boot: client is ack'ing previous GET /boot; body is error message, if any
+		if rc.state == runnable {
+			w.WriteHeader(http.StatusOK) // client didn't receive response to its ack, so it's retrying
+			return
+		}
 		if rc.state != booting {
 			w.WriteHeader(http.StatusPreconditionFailed)
 			return
-- 
2.43.0


From 1021df28c5c97bdddaea9284c14fad510f37ae44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:25 +0000
Subject: [PATCH 67/80] fix: let client retry run when it did not receive the
 signal

---
 compute/api.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/compute/api.go b/compute/api.go
index 6946969..8aad479 100644
--- a/compute/api.go
+++ b/compute/api.go
@@ -310,8 +310,9 @@ func (a *API) run(w http.ResponseWriter, r *http.Request) {
 	}
 
 	if get {
-		// GET /run: client is waiting for signal to run previously booted stage
-		if rc.state != runnable {
+		// GET /run: client is waiting for signal to run previously booted stage,
+		// or it's retrying because it didn't receive the signal (state = running)
+		if rc.state != runnable && rc.state != running {
 			w.WriteHeader(http.StatusPreconditionFailed)
 			return
 		}
-- 
2.43.0


From f6afe2df3771cef5239379e44bb20186f724bac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:24 +0000
Subject: [PATCH 68/80] fix: execute statement with idle modifier after idle
 time

---
 client/client.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/client/client.go b/client/client.go
index 1354354..135b87d 100644
--- a/client/client.go
+++ b/client/client.go
@@ -262,7 +262,6 @@ ITER:
 				case <-ctxExec.Done():
 					return // runtime elapsed or CTRL-C
 				}
-				continue
 			}
 
 			// If BEGIN, check TPS rate limiter
-- 
2.43.0


From 75830b6b477519ea0039b84764fcbbf3bb901418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:27 +0000
Subject: [PATCH 69/80] fix: data race on stage done when remote instances boot

---
 compute/api.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/compute/api.go b/compute/api.go
index 8aad479..78bc9a6 100644
--- a/compute/api.go
+++ b/compute/api.go
@@ -171,17 +171,17 @@ func (a *API) boot(w http.ResponseWriter, r *http.Request) {
 			// Has server set a stage?
 			a.Lock()
 			stage := a.stage // copy ptr
-			if stage == nil || stage.done {
+			if stage == nil {
 				a.Unlock()
 				goto RETRY // no stage
 			}
 
 			// Is the stage still booting (waiting for instances)?
 			stage.Lock()
-			if stage.booted || len(stage.clients) == int(stage.nRemotes) {
+			if stage.done || stage.booted || len(stage.clients) == int(stage.nRemotes) {
 				stage.Unlock()
 				a.Unlock()
-				goto RETRY // stage is full
+				goto RETRY // stage is done or full
 			}
 
 			// Stage is ready and there's a space for this client
-- 
2.43.0


From b918c42520563df79a419b8a7bc94909e47d7162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:38 +0000
Subject: [PATCH 70/80] fix: data race on clients of stage when remote
 instances boot

---
 compute/api.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/compute/api.go b/compute/api.go
index 78bc9a6..e6ac223 100644
--- a/compute/api.go
+++ b/compute/api.go
@@ -188,13 +188,13 @@ func (a *API) boot(w http.ResponseWriter, r *http.Request) {
 			stage.clients[rc.name] = rc
 			rc.stage = stage
 			rc.state = booting // advance client state
+			finch.Debug("assigned %s to stage %s (%s): %d of %d clients", rc.name, stage.cfg.Name, stage.cfg.Id,
+				len(stage.clients), stage.nRemotes)
 
 			// Unwind locks before sending stage config via HTTP in case net is slow
 			stage.Unlock()
 			a.Unlock()
 
-			finch.Debug("assigned %s to stage %s (%s): %d of %d clients", rc.name, stage.cfg.Name, stage.cfg.Id,
-				len(stage.clients), stage.nRemotes)
 			json.NewEncoder(w).Encode(stage.cfg) // send stage config
 			return
 
-- 
2.43.0


From e8f1ff2f9809d250e0d73e80160bfb30908edbcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:22 +0000
Subject: [PATCH 71/80] fix: report last stats of remote instances when there
 is no local instance

---
 compute/server.go  |  3 +++
 stats/collector.go | 11 +++++++++++
 2 files changed, 14 insertions(+)

diff --git a/compute/server.go b/compute/server.go
index 6edf903..d222544 100644
--- a/compute/server.go
+++ b/compute/server.go
@@ -173,6 +173,9 @@ func (s *Server) run(ctxFinch context.Context, cfg config.Stage) error {
 	finch.Debug("run %s", stageName)
 	close(m.runChan) // signal remotes to run
 
+	if local == nil && m.stats != nil {
+		defer m.stats.Final() // no local instance to stop stats
+	}
 	localDone := make(chan struct{})
 	if local != nil { // start local instance
 		go func() {
diff --git a/stats/collector.go b/stats/collector.go
index 9756ecf..14db201 100644
--- a/stats/collector.go
+++ b/stats/collector.go
@@ -291,6 +291,17 @@ STOP:
 	return reported
 }
 
+// Final reports the last interval if it's incomplete and stops the reporters.
+// It's called instead of Stop when there is no local instance.
+func (c *Collector) Final() {
+	c.Lock()
+	defer c.Unlock()
+	c.Report(true) // true=force
+	for _, r := range c.reporters {
+		r.Stop()
+	}
+}
+
 // Collect collects stats from all local clients. It's called periodically by
 // the goroutine in Start, or once by Stop if periodic stats aren't enabled.
 func (c *Collector) Collect() bool {
-- 
2.43.0


From 69e34ba65b517442aef0e5892e8e61a7da149bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:45 +0000
Subject: [PATCH 72/80] fix: do not count a remote instance twice when it
 retries concurrently

---
 compute/api.go | 57 ++++++++++++++++++++++++++++++--------------------
 1 file changed, 34 insertions(+), 23 deletions(-)

diff --git a/compute/api.go b/compute/api.go
index e6ac223..9937607 100644
--- a/compute/api.go
+++ b/compute/api.go
@@ -48,7 +48,13 @@ type stageMeta struct {
 type client struct {
 	name  string
 	stage *stageMeta
-	state byte
+	state byte // guarded by stage
+}
+
+func (rc *client) currentState() byte {
+	rc.stage.Lock()
+	defer rc.stage.Unlock()
+	return rc.state
 }
 
 func NewAPI(addr string) *API {
@@ -160,7 +166,7 @@ func (a *API) boot(w http.ResponseWriter, r *http.Request) {
 
 	if get {
 		// GET /boot: client is booting, waiting to receive config.File
-		if rc.state != ready {
+		if rc.stage != nil { // not ready, already assigned to a stage
 			w.WriteHeader(http.StatusPreconditionFailed)
 			return
 		}
@@ -207,23 +213,25 @@ func (a *API) boot(w http.ResponseWriter, r *http.Request) {
 		}
 	} else {
 		// POST /boot: client is ack'ing previous GET /boot; body is error message, if any
+		body, err := io.ReadAll(r.Body)
+		if err != nil {
+			log.Printf("error reading error from client: %s", err)
+			return
+		}
+		r.Body.Close()
+
+		rc.stage.Lock()
 		if rc.state == runnable {
+			rc.stage.Unlock()
 			w.WriteHeader(http.StatusOK) // client didn't receive response to its ack, so it's retrying
 			return
 		}
 		if rc.state != booting {
+			rc.stage.Unlock()
 			w.WriteHeader(http.StatusPreconditionFailed)
 			return
 		}
 
-		body, err := io.ReadAll(r.Body)
-		if err != nil {
-			log.Printf("error reading error from client: %s", err)
-			return
-		}
-		r.Body.Close()
-		w.WriteHeader(http.StatusOK)
-
 		// Remote might fail to boot. If that's the case, do not advance its state;
 		// it should call GET /boot again to reset itself and try again.
 		var clientErr error
@@ -231,12 +239,13 @@ func (a *API) boot(w http.ResponseWriter, r *http.Request) {
 			// Don't advance state: client failed to boot, so it's not ready to run.
 			// Let it, or another client, join the stage.
 			clientErr = fmt.Errorf("%s", string(body))
-			rc.stage.Lock()
 			delete(rc.stage.clients, rc.name)
-			rc.stage.Unlock()
+			rc.state = ready
 		} else {
 			rc.state = runnable // advance client state (successful boot)
 		}
+		rc.stage.Unlock()
+		w.WriteHeader(http.StatusOK)
 		rc.stage.bootChan <- ack{name: rc.name, err: clientErr}
 
 	}
@@ -248,7 +257,7 @@ func (a *API) file(w http.ResponseWriter, r *http.Request) {
 		return // client() wrote error response
 	}
 
-	if rc.state != booting {
+	if rc.currentState() != booting {
 		w.WriteHeader(http.StatusPreconditionFailed)
 		return
 	}
@@ -312,7 +321,7 @@ func (a *API) run(w http.ResponseWriter, r *http.Request) {
 	if get {
 		// GET /run: client is waiting for signal to run previously booted stage,
 		// or it's retrying because it didn't receive the signal (state = running)
-		if rc.state != runnable && rc.state != running {
+		if state := rc.currentState(); state != runnable && state != running {
 			w.WriteHeader(http.StatusPreconditionFailed)
 			return
 		}
@@ -330,6 +339,9 @@ func (a *API) run(w http.ResponseWriter, r *http.Request) {
 			w.WriteHeader(http.StatusResetContent) // reset
 			return
 		}
+		if rc.state == runnable {
+			rc.state = running // advance client state
+		}
 		rc.stage.Unlock()
 
 		w.WriteHeader(http.StatusOK)
@@ -339,25 +351,25 @@ func (a *API) run(w http.ResponseWriter, r *http.Request) {
 		}
 
 		log.Printf("Started client %s on stage %s\n", rc.name, rc.stage.cfg.Name)
-		rc.state = running // advance client state
 	} else {
 		// POST /run: client is done running stage
-		if rc.state != running {
-			w.WriteHeader(http.StatusPreconditionFailed)
-			return
-		}
-
 		body, err := io.ReadAll(r.Body)
 		if err != nil {
 			// Ignore error; it doesn't change fact that client is done
 			log.Printf("Error reading error from client on POST /run, ignoring: %s", err)
 		}
 		r.Body.Close()
-		w.WriteHeader(http.StatusOK)
 
 		rc.stage.Lock()
+		if rc.state != running {
+			rc.stage.Unlock()
+			w.WriteHeader(http.StatusPreconditionFailed)
+			return
+		}
 		delete(rc.stage.clients, rc.name)
+		rc.state = ready // advance client state (ready to run another stage)
 		rc.stage.Unlock()
+		w.WriteHeader(http.StatusOK)
 
 		// Tell server client completed stage
 		var clientErr error
@@ -365,7 +377,6 @@ func (a *API) run(w http.ResponseWriter, r *http.Request) {
 			clientErr = fmt.Errorf("%s", string(body))
 		}
 		rc.stage.doneChan <- ack{name: rc.name, err: clientErr}
-		rc.state = ready // advance client state (ready to run another stage)
 	}
 }
 
@@ -378,7 +389,7 @@ func (a *API) stats(w http.ResponseWriter, r *http.Request) {
 	// Stats are sent only while running. If this error occurs, it might just be
 	// a network issue that delayed stats sent earlier (before client stopped running).
 	// If it happens frequently, then it's probably a bug in Finch.
-	if rc.state != running {
+	if rc.currentState() != running {
 		w.WriteHeader(http.StatusPreconditionFailed)
 		return
 	}
-- 
2.43.0


From e731c904cd4a59a8c028fd371a05aee7cc081c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:35 +0000
Subject: [PATCH 73/80] fix: give @PREV the format of its previous key

---
 trx/trx.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/trx/trx.go b/trx/trx.go
index ae0988f..51f281c 100644
--- a/trx/trx.go
+++ b/trx/trx.go
@@ -456,7 +456,7 @@ func (f *File) statements() ([]*Statement, error) {
 
 	s.Calls = Calls(s.Inputs)
 
-	dataFormats := map[string]string{} // keyed on data name
+	dataFormats := make([]string, len(s.Inputs)) // same order as data keys in query
 	for i, name := range s.Inputs {
 		// Remove () from @d()
 		name = strings.TrimSuffix(name, EXPLICIT_CALL_SUFFIX)
@@ -517,16 +517,19 @@ func (f *File) statements() ([]*Statement, error) {
 		}
 
 		if s.Prepare {
-			dataFormats[name] = "?"
+			dataFormats[i] = "?"
 		} else {
-			_, dataFormats[name] = g.Format()
+			_, dataFormats[i] = g.Format()
 		}
 	}
 
-	// Replace whole data keys because one can be a prefix of another: @d and @d2
+	// Replace whole data keys because one can be a prefix of another: @d and @d2.
+	// Replace by position because each @PREV has the format of its previous key.
 	finch.Debug("replacements: %v", dataFormats)
-	s.Query = DataKeyPattern.ReplaceAllStringFunc(s.literal(query), func(name string) string {
-		return dataFormats[strings.TrimSuffix(name, EXPLICIT_CALL_SUFFIX)]
+	keyNo := -1
+	s.Query = DataKeyPattern.ReplaceAllStringFunc(s.literal(query), func(string) string {
+		keyNo++
+		return dataFormats[keyNo]
 	})
 
 	// Caller debug prints full Statement
-- 
2.43.0


From 07ccc21be0b6b5e772f0fd3e1ea1e1194d2ea9e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:37 +0000
Subject: [PATCH 74/80] fix: bind all interfaces with --server 0

---
 compute/server.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/compute/server.go b/compute/server.go
index d222544..86ea844 100644
--- a/compute/server.go
+++ b/compute/server.go
@@ -42,6 +42,9 @@ func NewServer(name, addr string, test bool) *Server {
 		gds:  data.NewScope(), // global data
 	}
 	if addr != "" {
+		if addr == "0" {
+			addr = "0.0.0.0" // all interfaces
+		}
 		s.api = NewAPI(finch.WithPort(addr, finch.DEFAULT_SERVER_PORT))
 	}
 	return s
-- 
2.43.0


From 7c4fd9d6ab812b9576dd4dc0c93774f47f19ac48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:43 +0000
Subject: [PATCH 75/80] fix: reconnect when connection is lost while setting it
 up

---
 client/client.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/client/client.go b/client/client.go
index 135b87d..5ddfd3c 100644
--- a/client/client.go
+++ b/client/client.go
@@ -114,6 +114,7 @@ func (c *Client) Connect(ctx context.Context, cerr error, stmtNo int, trxActive
 		}
 	}
 
+RECONNECT:
 	if c.conn != nil {
 		// Prepared statements are bound to the connection, so prepare again on new conn
 		for i := range c.ps {
@@ -149,6 +150,9 @@ func (c *Client) Connect(ctx context.Context, cerr error, stmtNo int, trxActive
 	if c.DefaultDb != "" {
 		_, err := c.conn.ExecContext(ctx, "USE `"+c.DefaultDb+"`")
 		if err != nil {
+			if myerr.Lost(err) && ctx.Err() == nil {
+				goto RECONNECT
+			}
 			return err
 		}
 	}
@@ -163,6 +167,9 @@ func (c *Client) Connect(ctx context.Context, cerr error, stmtNo int, trxActive
 		}
 		c.ps[i], err = c.conn.PrepareContext(ctx, s.Query)
 		if err != nil {
+			if myerr.Lost(err) && ctx.Err() == nil {
+				goto RECONNECT
+			}
 			c.Error.StatementNo = i
 			return fmt.Errorf("prepare: %s", err)
 		}
-- 
2.43.0


From 0dca65ca1e7954b1e06b0946fb1bdcc2f87c0e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:08:38 +0000
Subject: [PATCH 76/80] fix: do not use connection that timed out while
 connecting

---
 client/client.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/client/client.go b/client/client.go
index 5ddfd3c..84888b6 100644
--- a/client/client.go
+++ b/client/client.go
@@ -132,10 +132,15 @@ RECONNECT:
 	for ctx.Err() == nil {
 		ctxConn, cancel := context.WithTimeout(ctx, ConnectTimeout)
 		c.conn, _ = c.DB.Conn(ctxConn)
+		timeout := ctxConn.Err() != nil
 		cancel()
-		if c.conn != nil {
+		if c.conn != nil && !timeout {
 			break // success
 		}
+		if c.conn != nil { // timed out just when connected, so conn might be closed
+			c.conn.Close()
+			c.conn = nil
+		}
 		time.Sleep(ConnectRetryWait)
 	}
 
-- 
2.43.0


From 737a2ad85c89993df3bc49fd5a956fe87799fc60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:45:53 +0000
Subject: [PATCH 77/80] fix: do not take iterations from other clients when
 client stops

---
 client/client.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/client/client.go b/client/client.go
index 84888b6..580684a 100644
--- a/client/client.go
+++ b/client/client.go
@@ -243,13 +243,15 @@ func (c *Client) Run(ctxExec context.Context) {
 	//
 ITER:
 	for {
-		if c.IterExecGroup > 0 && atomic.AddUint32(c.IterExecGroupPtr, 1) > c.IterExecGroup {
+		// Check the shared limits last, the widest one at the very end, so a client
+		// that stops does not take an iteration from other clients
+		if c.Iter > 0 && rc[data.ITER] == c.Iter {
 			return
 		}
 		if c.IterClients > 0 && atomic.AddUint32(c.IterClientsPtr, 1) > c.IterClients {
 			return
 		}
-		if c.Iter > 0 && rc[data.ITER] == c.Iter {
+		if c.IterExecGroup > 0 && atomic.AddUint32(c.IterExecGroupPtr, 1) > c.IterExecGroup {
 			return
 		}
 		rc[data.ITER] += 1
-- 
2.43.0


From b4317cb476cd3a455a5194fd67e10e9c793beb3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:04 +0000
Subject: [PATCH 78/80] fix: apply iter-exec-group to all client groups in
 execution group

---
 workload/workload.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/workload/workload.go b/workload/workload.go
index dbe722f..8290664 100644
--- a/workload/workload.go
+++ b/workload/workload.go
@@ -137,7 +137,7 @@ func (a *Allocator) Clients(groups [][]int, withStats bool) ([][]ClientGroup, er
 		// Wherever you see finch.Uint, the string value (e.g. "100") has already been
 		// validated, so this func is just a shortcut to return uint rather than uint, erroor.
 		// Exec group limits can be set in any client group; the first is used.
-		var qpsExecGroup, tpsExecGroup uint
+		var qpsExecGroup, tpsExecGroup, iterExecGroup uint
 		for _, egRefNo := range groups[egNo] {
 			if qpsExecGroup == 0 {
 				qpsExecGroup = finch.Uint(a.Workload[egRefNo].QPSExecGroup)
@@ -145,6 +145,9 @@ func (a *Allocator) Clients(groups [][]int, withStats bool) ([][]ClientGroup, er
 			if tpsExecGroup == 0 {
 				tpsExecGroup = finch.Uint(a.Workload[egRefNo].TPSExecGroup)
 			}
+			if iterExecGroup == 0 {
+				iterExecGroup = finch.Uint(a.Workload[egRefNo].IterExecGroup)
+			}
 		}
 		execGroupQPS := limit.And(a.StageQPS, limit.NewRate(qpsExecGroup))
 		execGroupTPS := limit.And(a.StageTPS, limit.NewRate(tpsExecGroup))
@@ -191,8 +194,12 @@ func (a *Allocator) Clients(groups [][]int, withStats bool) ([][]ClientGroup, er
 					c.IterClients = uint32(n)
 					c.IterClientsPtr = &clientsIterPtr
 				}
-				if n := finch.Uint(cg.IterExecGroup); n > 0 {
-					c.IterExecGroup = uint32(n)
+				iterLimit := finch.Uint(cg.IterExecGroup)
+				if iterLimit == 0 {
+					iterLimit = iterExecGroup
+				}
+				if iterLimit > 0 {
+					c.IterExecGroup = uint32(iterLimit)
 					c.IterExecGroupPtr = &execGroupIterPtr
 				}
 				if qps := limit.And(clientsQPS, limit.NewRate(finch.Uint(cg.QPS))); qps != nil {
-- 
2.43.0


From 22bfa979656eac3bbf57f17ec996494d91a38967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:16:46 +0000
Subject: [PATCH 79/80] fix: accept IPv6 host without brackets and port in
 my.cnf

---
 dbconn/mycnf.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dbconn/mycnf.go b/dbconn/mycnf.go
index be5ec78..b27f9fd 100644
--- a/dbconn/mycnf.go
+++ b/dbconn/mycnf.go
@@ -29,6 +29,9 @@ func ParseMyCnf(file string) (config.MySQL, error) {
 
 	port := mycnf.Section("client").Key("port").String()
 	if port != "" {
+		if strings.Contains(cfg.Hostname, ":") && !strings.HasPrefix(cfg.Hostname, "[") {
+			cfg.Hostname = "[" + cfg.Hostname + "]" // IPv6
+		}
 		cfg.Hostname += ":" + port
 	}
 
-- 
2.43.0


From 5a709368ecf47629a99ed3c912c640209075ead6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:16:50 +0000
Subject: [PATCH 80/80] fix: connect with TLS to a socket when my.cnf has a
 port

---
 dbconn/factory.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dbconn/factory.go b/dbconn/factory.go
index 00b723a..27d50b9 100644
--- a/dbconn/factory.go
+++ b/dbconn/factory.go
@@ -114,14 +114,15 @@ func (f *factory) setDSN() error {
 	// This is a pathological case: socket and TLS but no hostname to verify
 	// and user didn't explicitly set skip-verify=true. So we set this latter
 	// automatically because Go will certainly error if we don't.
-	if net == "unix" && f.cfg.TLS.Set() && f.cfg.Hostname == "" && !config.True(f.cfg.TLS.SkipVerify) {
+	serverName := portSuffix.ReplaceAllString(f.cfg.Hostname, "") // might be only a port from my.cnf
+	if net == "unix" && f.cfg.TLS.Set() && serverName == "" && !config.True(f.cfg.TLS.SkipVerify) {
 		b := true
 		f.cfg.TLS.SkipVerify = &b
 		finch.Debug("auto-enabled skip-verify on socket with TLS but no hostname")
 	}
 
 	// Load and register TLS, if any
-	tlsConfig, err := f.cfg.TLS.LoadTLS(portSuffix.ReplaceAllString(f.cfg.Hostname, ""))
+	tlsConfig, err := f.cfg.TLS.LoadTLS(serverName)
 	if err != nil {
 		return err
 	}
-- 
2.43.0

