From f14e35b344ce72be9fddc28065c7fe2af374b079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:52 +0000
Subject: [PATCH 01/56] fix: ring buffer push refused records while not full
 when its write index copy was stale

---
 libstuff/SRingBuffer.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/libstuff/SRingBuffer.h b/libstuff/SRingBuffer.h
index 5f9adfa..53f6c12 100644
--- a/libstuff/SRingBuffer.h
+++ b/libstuff/SRingBuffer.h
@@ -36,7 +36,13 @@ public:
 
         while (true) {
             if (currentWriteIndex - readIndex.load(memory_order_acquire) >= C) {
-                return false;
+                // Our copy of writeIndex may be stale (even behind readIndex). Only the current one tells if we're full.
+                size_t latestWriteIndex = writeIndex.load(memory_order_acquire);
+                if (latestWriteIndex == currentWriteIndex) {
+                    return false;
+                }
+                currentWriteIndex = latestWriteIndex;
+                continue;
             }
             if (writeIndex.compare_exchange_weak(currentWriteIndex, currentWriteIndex + 1, memory_order_acq_rel, memory_order_relaxed)) {
                 break;
-- 
2.43.0


From 3a90fa624d24e2353eee55e41801ff01069cf2a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:40 +0000
Subject: [PATCH 02/56] fix: abandoning future commands left their timeouts
 behind, hiding the timeout of a remaining command

---
 BedrockCommandQueue.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/BedrockCommandQueue.cpp b/BedrockCommandQueue.cpp
index a64016b..d80e3f1 100644
--- a/BedrockCommandQueue.cpp
+++ b/BedrockCommandQueue.cpp
@@ -143,6 +143,16 @@ void BedrockCommandQueue::abandonFutureCommands(int msInFuture)
     auto it = _queue.lower_bound(timeLimit);
     size_t numberToErase = distance(it, _queue.end());
     if (numberToErase) {
+        // Remove the matching entries from the timeout map, so that they don't hide the timeouts of the remaining items.
+        for (auto eraseIt = it; eraseIt != _queue.end(); eraseIt++) {
+            auto matchingTimeoutIterators = _lookupByTimeout.equal_range(eraseIt->second.timeout);
+            for (auto timeoutIt = matchingTimeoutIterators.first; timeoutIt != matchingTimeoutIterators.second; timeoutIt++) {
+                if (timeoutIt->second == eraseIt->first) {
+                    _lookupByTimeout.erase(timeoutIt);
+                    break;
+                }
+            }
+        }
         _queue.erase(it, _queue.end());
         SINFO("Erased " << numberToErase << " commands scheduled more than " << msInFuture << "ms in the future.");
     }
-- 
2.43.0


From f3cbd0754935511dca6ef50c6713866d14a0631a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:20 +0000
Subject: [PATCH 03/56] fix: an interrupted write left the handle refusing
 random() in reads

---
 sqlitecluster/SQLite.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sqlitecluster/SQLite.cpp b/sqlitecluster/SQLite.cpp
index 4b4585b..5aee283 100644
--- a/sqlitecluster/SQLite.cpp
+++ b/sqlitecluster/SQLite.cpp
@@ -898,16 +898,17 @@ bool SQLite::_writeIdempotent(const string& query, const map<string, Parameter>&
         }
     }
 
+    // The query has finished, however it went. Everything below can throw or return.
+    _currentlyWriting = false;
+
     // If we got a constraints error, throw that.
     if (resultCode == SQLITE_CONSTRAINT) {
-        _currentlyWriting = false;
         throw constraint_error();
     }
 
     _writeElapsed += STimeNow() - before;
     _checkInterruptErrors("SQLite::write"s);
     if (resultCode) {
-        _currentlyWriting = false;
         return false;
     }
 
@@ -922,7 +923,6 @@ bool SQLite::_writeIdempotent(const string& query, const map<string, Parameter>&
         _uncommittedQuery += expandedSql;
     }
 
-    _currentlyWriting = false;
     return true;
 }
 
-- 
2.43.0


From 99766028d65c42d417a88892e28e478bbeab2e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:50 +0000
Subject: [PATCH 04/56] fix: beginning an exclusive transaction inside another
 one left the commit lock held forever

---
 sqlitecluster/SQLite.cpp | 29 +++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/sqlitecluster/SQLite.cpp b/sqlitecluster/SQLite.cpp
index 5aee283..2695e2a 100644
--- a/sqlitecluster/SQLite.cpp
+++ b/sqlitecluster/SQLite.cpp
@@ -518,25 +518,12 @@ bool SQLite::beginTransaction(SQLite::TRANSACTION_TYPE type, bool beginOnly)
 {
     _lastTransactionType = type;
     _transactionTimer.start("BEGIN_TRANSACTION");
-    if (type == TRANSACTION_TYPE::EXCLUSIVE) {
-        if (isSyncThread) {
-            // Blocking the sync thread has catastrophic results (forking) and so we either get this quickly, or we fail the transaction.
-            if (!_sharedData.commitLock.try_lock_for(5s)) {
-                SWARN("Failed to acquire commit lock in sync thread exclusive transaction!");
-                STHROW("512 Internal Lock Timeout");
-            }
-        } else {
-            _sharedData.commitLock.lock();
-        }
-        _sharedData._commitLockTimer.start("EXCLUSIVE");
-        _mutexLocked = true;
-    }
 
     // The most likely case for hitting this is that we forgot to roll back a transaction when we were finished with it
     // during the last use of this DB handle. In that case, `_insideTransaction` is likely true, and possibly
     // _uncommittedHash or _uncommittedQuery is set. Rollback should put this DB handle back into a usable state,
     // but it breaks the current transaction on this handle. We throw and fail the one transaction and hopefully have
-    // fixed the handle for the next use
+    // fixed the handle for the next use. This comes before taking the commit lock, as `rollback` can only release it once.
     if (_insideTransaction) {
         rollback();
         STHROW("Attempted to begin transaction while in invalid state: already inside transaction");
@@ -550,6 +537,20 @@ bool SQLite::beginTransaction(SQLite::TRANSACTION_TYPE type, bool beginOnly)
         STHROW("Attempted to begin transaction while in invalid state: _uncommittedQuery not empty");
     }
 
+    if (type == TRANSACTION_TYPE::EXCLUSIVE) {
+        if (isSyncThread) {
+            // Blocking the sync thread has catastrophic results (forking) and so we either get this quickly, or we fail the transaction.
+            if (!_sharedData.commitLock.try_lock_for(5s)) {
+                SWARN("Failed to acquire commit lock in sync thread exclusive transaction!");
+                STHROW("512 Internal Lock Timeout");
+            }
+        } else {
+            _sharedData.commitLock.lock();
+        }
+        _sharedData._commitLockTimer.start("EXCLUSIVE");
+        _mutexLocked = true;
+    }
+
     // We actively track transaction counts incrementing and decrementing to log the number of active open transactions at any given moment.
     _sharedData.openTransactionCount++;
 
-- 
2.43.0


From 33f07cac3cfb8c8b2ba2a0e63296f40a0e1fdd61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:44 +0000
Subject: [PATCH 05/56] fix: failing to begin an exclusive transaction left the
 commit lock held

---
 sqlitecluster/SQLite.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/sqlitecluster/SQLite.cpp b/sqlitecluster/SQLite.cpp
index 2695e2a..2a6de91 100644
--- a/sqlitecluster/SQLite.cpp
+++ b/sqlitecluster/SQLite.cpp
@@ -561,6 +561,15 @@ bool SQLite::beginTransaction(SQLite::TRANSACTION_TYPE type, bool beginOnly)
 
     string beginQuery = (beginOnly && _hctree) ? "BEGIN" : "BEGIN CONCURRENT";
     _insideTransaction = !SQuery(_db, beginQuery);
+    if (!_insideTransaction) {
+        // `rollback` does nothing outside of a transaction, so undo what we've done so far here.
+        _sharedData.openTransactionCount--;
+        if (_mutexLocked) {
+            _mutexLocked = false;
+            _sharedData._commitLockTimer.stop();
+            _sharedData.commitLock.unlock();
+        }
+    }
 
     _queryCache.clear();
     _tablesUsed.clear();
-- 
2.43.0


From c4e79036ced825809710ac7e79c46c2ccf66e62e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:30 +0000
Subject: [PATCH 06/56] fix: writes after an automatic rollback were committed
 one by one without being journaled

---
 sqlitecluster/SQLite.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/sqlitecluster/SQLite.cpp b/sqlitecluster/SQLite.cpp
index 2a6de91..a10f75d 100644
--- a/sqlitecluster/SQLite.cpp
+++ b/sqlitecluster/SQLite.cpp
@@ -866,6 +866,12 @@ bool SQLite::_writeIdempotent(const string& query, const map<string, Parameter>&
         STHROW("500 Attempted to write outside of transaction");
     }
 
+    // SQLite itself rolls back the transaction on some errors. A caller that ignored such an error must not go on writing:
+    // each query would be committed right away, without being recorded in the journal.
+    if (sqlite3_get_autocommit(_db)) {
+        STHROW("500 Attempted to write in automatically rolled back transaction");
+    }
+
     _queryCache.clear();
     _writeQueryCount++;
 
@@ -940,6 +946,13 @@ bool SQLite::prepare(uint64_t* transactionID, string* transactionhash, chrono::m
 {
     SASSERT(_insideTransaction);
 
+    // If SQLite has already rolled this transaction back because of an error, there's nothing left of it to commit.
+    if (sqlite3_get_autocommit(_db)) {
+        SWARN("Transaction was automatically rolled back, can't prepare it.");
+        rollback();
+        return false;
+    }
+
     // Pick a journal for this transaction.
     const int64_t journalID = _sharedData.nextJournalCount++;
     _journalName = _journalNames[journalID % _journalNames.size()];
-- 
2.43.0


From 235d5ef4a8ab510bd3c5382258b99c9572d33bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:12 +0000
Subject: [PATCH 07/56] fix: reads of randomblob, unixepoch, current_timestamp
 and similar were answered from the query cache

---
 sqlitecluster/SQLite.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/sqlitecluster/SQLite.cpp b/sqlitecluster/SQLite.cpp
index a10f75d..afaaf1b 100644
--- a/sqlitecluster/SQLite.cpp
+++ b/sqlitecluster/SQLite.cpp
@@ -1470,12 +1470,19 @@ int SQLite::_authorize(int actionCode, const char* detail1, const char* detail2,
     // Here's where we can check for non-deterministic functions for the cache.
     if (actionCode == SQLITE_FUNCTION && detail2) {
         if (!strcmp(detail2, "random") ||
+            !strcmp(detail2, "randomblob") ||
             !strcmp(detail2, "date") ||
             !strcmp(detail2, "time") ||
             !strcmp(detail2, "datetime") ||
             !strcmp(detail2, "julianday") ||
+            !strcmp(detail2, "unixepoch") ||
             !strcmp(detail2, "strftime") ||
+            !strcmp(detail2, "timediff") ||
+            !strcmp(detail2, "current_date") ||
+            !strcmp(detail2, "current_time") ||
+            !strcmp(detail2, "current_timestamp") ||
             !strcmp(detail2, "changes") ||
+            !strcmp(detail2, "total_changes") ||
             !strcmp(detail2, "last_insert_rowid") ||
             !strcmp(detail2, "sqlite_version")
         ) {
-- 
2.43.0


From 9cd3488d939e511a8a36c356f9a9a6491dcb0076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:34 +0000
Subject: [PATCH 08/56] fix: a read under a column whitelist could be answered
 from the cache of one without it

---
 sqlitecluster/SQLite.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/sqlitecluster/SQLite.cpp b/sqlitecluster/SQLite.cpp
index afaaf1b..657d38f 100644
--- a/sqlitecluster/SQLite.cpp
+++ b/sqlitecluster/SQLite.cpp
@@ -705,8 +705,10 @@ bool SQLite::read(const string& query, const map<string, Parameter>& params, SQR
     _readQueryCount++;
 
     // The query cache is keyed on SQL text only — different bound-parameter values for the same SQL would
-    // share a cache entry. Skip the cache entirely when params are present.
-    auto foundQuery = params.empty() ? _queryCache.find(query) : _queryCache.end();
+    // share a cache entry. Skip the cache entirely when params are present, and also when a whitelist is set, as that
+    // changes the result and can be set and unset at any time.
+    const bool useCache = params.empty() && !whitelist;
+    auto foundQuery = useCache ? _queryCache.find(query) : _queryCache.end();
     if (foundQuery != _queryCache.end()) {
         result = foundQuery->second;
         _cacheHits++;
@@ -714,7 +716,7 @@ bool SQLite::read(const string& query, const map<string, Parameter>& params, SQR
     } else {
         _isDeterministicQuery = true;
         queryResult = !SQuery(_db, query, result, 2000 * STIME_US_PER_MS, skipInfoWarn, nullptr, params);
-        if (params.empty() && _isDeterministicQuery && queryResult && insideTransaction()) {
+        if (useCache && _isDeterministicQuery && queryResult && insideTransaction()) {
             _queryCache.emplace(make_pair(query, result));
         }
     }
-- 
2.43.0


From 6aaf37ec294a70175302d23bdc9afccaefe6933e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:54 +0000
Subject: [PATCH 09/56] fix: writes using randomblob, total_changes,
 current_date or current_time were recorded as is

Another node executing the recorded query stored other values. These are as non-deterministic as random, changes
and current_timestamp, which are refused in writes.
---
 sqlitecluster/SQLite.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sqlitecluster/SQLite.cpp b/sqlitecluster/SQLite.cpp
index 657d38f..e9d19d0 100644
--- a/sqlitecluster/SQLite.cpp
+++ b/sqlitecluster/SQLite.cpp
@@ -1496,9 +1496,13 @@ int SQLite::_authorize(int actionCode, const char* detail1, const char* detail2,
         // i.e. you can do UPDATE x = DATE('2024-01-01') and its deterministic whereas UPDATE x = DATE('now') is not. It's up to
         // callers to prevent using these functions inappropriately.
         if (!strcmp(detail2, "current_timestamp") ||
+            !strcmp(detail2, "current_date") ||
+            !strcmp(detail2, "current_time") ||
             !strcmp(detail2, "random") ||
+            !strcmp(detail2, "randomblob") ||
             !strcmp(detail2, "last_insert_rowid") ||
             !strcmp(detail2, "changes") ||
+            !strcmp(detail2, "total_changes") ||
             !strcmp(detail2, "sqlite_version")) {
             if (_currentlyWriting) {
                 return SQLITE_DENY;
-- 
2.43.0


From 17de6c6c04eba8fa0cb90e420ea18af157163915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:54 +0000
Subject: [PATCH 10/56] fix: a query containing BEGIN, COMMIT, ROLLBACK or
 SAVEPOINT broke up the transaction it ran in

"COMMIT;" in a query committed what had been written so far without a journal entry, "BEGIN;" outside of a transaction made
every later transaction on the handle fail, and "ROLLBACK TO" undid queries that stayed in the journal.
---
 sqlitecluster/SQLite.cpp | 13 +++++++++++++
 sqlitecluster/SQLite.h   |  3 +++
 2 files changed, 16 insertions(+)

diff --git a/sqlitecluster/SQLite.cpp b/sqlitecluster/SQLite.cpp
index e9d19d0..07f6b2a 100644
--- a/sqlitecluster/SQLite.cpp
+++ b/sqlitecluster/SQLite.cpp
@@ -687,7 +687,9 @@ int SQLite::read(const string& query, const map<string, Parameter>& params, sqli
     // Execute the read-only query. Skips caching.
     uint64_t before = STimeNow();
     SQResult ignore;
+    _runningCallerQuery = true;
     int queryResult = SQuery(_db, query, ignore, 0, true, spec, params);
+    _runningCallerQuery = false;
     _readElapsed += STimeNow() - before;
     _checkInterruptErrors("SQLite::read"s);
     return queryResult;
@@ -715,7 +717,9 @@ bool SQLite::read(const string& query, const map<string, Parameter>& params, SQR
         queryResult = true;
     } else {
         _isDeterministicQuery = true;
+        _runningCallerQuery = true;
         queryResult = !SQuery(_db, query, result, 2000 * STIME_US_PER_MS, skipInfoWarn, nullptr, params);
+        _runningCallerQuery = false;
         if (useCache && _isDeterministicQuery && queryResult && insideTransaction()) {
             _queryCache.emplace(make_pair(query, result));
         }
@@ -888,6 +892,7 @@ bool SQLite::_writeIdempotent(const string& query, const map<string, Parameter>&
     uint64_t changesBefore = sqlite3_total_changes(_db);
 
     _currentlyWriting = true;
+    _runningCallerQuery = true;
     // Try to execute the query
     uint64_t before = STimeNow();
     int resultCode = 0;
@@ -918,6 +923,7 @@ bool SQLite::_writeIdempotent(const string& query, const map<string, Parameter>&
 
     // The query has finished, however it went. Everything below can throw or return.
     _currentlyWriting = false;
+    _runningCallerQuery = false;
 
     // If we got a constraints error, throw that.
     if (resultCode == SQLITE_CONSTRAINT) {
@@ -1464,6 +1470,13 @@ int SQLite::_authorize(int actionCode, const char* detail1, const char* detail2,
         return SQLITE_DENY;
     }
 
+    // Transactions are started and ended only by our own functions. A query that does so itself would leave this handle in
+    // an inconsistent state, and its changes, or those of the rest of the transaction, missing from the journal.
+    if (_runningCallerQuery && (actionCode == SQLITE_TRANSACTION || actionCode == SQLITE_SAVEPOINT)) {
+        SWARN("Denying transaction control in a query.");
+        return SQLITE_DENY;
+    }
+
     // Record all tables touched.
     if (set<int>{SQLITE_INSERT, SQLITE_DELETE, SQLITE_READ, SQLITE_UPDATE}.count(actionCode)) {
         _tablesUsed.insert(detail1);
diff --git a/sqlitecluster/SQLite.h b/sqlitecluster/SQLite.h
index 2b12027..083989c 100644
--- a/sqlitecluster/SQLite.h
+++ b/sqlitecluster/SQLite.h
@@ -629,6 +629,9 @@ private:
     // Set to true inside of a write query.
     bool _currentlyWriting{false};
 
+    // Set to true while running a query passed to `read` or `write`, as opposed to one of our own.
+    mutable bool _runningCallerQuery{false};
+
     // One of 0|1|2|3 (a.k.a. PASSIVE|FULL|RESTART|TRUNCATE), which is the value to be passed to sqlite3_wal_checkpoint_v2.
     int _checkpointMode;
 
-- 
2.43.0


From a6fcc1c6772249472ace2baf837731339d3a3223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:54 +0000
Subject: [PATCH 11/56] fix: a write ending in a comment or NUL changed how the
 following write was recorded

The queries of a transaction are concatenated in the journal. After "UPDATE ... -- ;" the next query was part of the
comment for every other node, and after "UPDATE ...\\0;" the journal had a syntax error.
---
 sqlitecluster/SQLite.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sqlitecluster/SQLite.cpp b/sqlitecluster/SQLite.cpp
index 07f6b2a..1c86c46 100644
--- a/sqlitecluster/SQLite.cpp
+++ b/sqlitecluster/SQLite.cpp
@@ -884,6 +884,12 @@ bool SQLite::_writeIdempotent(const string& query, const map<string, Parameter>&
     // Must finish everything with semicolon.
     SASSERT(query.empty() || SEndsWith(query, ";"));
 
+    // And this semicolon needs to be one, and not part of a comment or after a NUL, as the next query is appended to this one
+    // in the journal.
+    if (!query.empty() && !sqlite3_complete(query.c_str())) {
+        STHROW("500 Attempted to write incomplete query");
+    }
+
     // First, check our current state
     SQResult results;
     SASSERT(!SQuery(_db, "PRAGMA schema_version;", results));
-- 
2.43.0


From ba3852b6c41befd3c95677e60b6570fdf867fdd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:58 +0000
Subject: [PATCH 12/56] fix: statements executed before a failing one in the
 same query were missing from the journal

If the caller went on with the transaction, for instance after catching constraint_error, their changes were committed
but not recorded, and not replicated.
---
 sqlitecluster/SQLite.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sqlitecluster/SQLite.cpp b/sqlitecluster/SQLite.cpp
index 1c86c46..cd913c1 100644
--- a/sqlitecluster/SQLite.cpp
+++ b/sqlitecluster/SQLite.cpp
@@ -931,6 +931,11 @@ bool SQLite::_writeIdempotent(const string& query, const map<string, Parameter>&
     _currentlyWriting = false;
     _runningCallerQuery = false;
 
+    // If the query failed after executing some of its statements, they remain in effect unless the caller rolls back.
+    if (resultCode) {
+        _uncommittedQuery += expandedSql;
+    }
+
     // If we got a constraints error, throw that.
     if (resultCode == SQLITE_CONSTRAINT) {
         throw constraint_error();
-- 
2.43.0


From 0838a673d5d2404f9960da50fc567adea7f85c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:50 +0000
Subject: [PATCH 13/56] fix: the HTTP parser read before and after its input on
 blank lines and lines without a colon

---
 libstuff/libstuff.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/libstuff/libstuff.cpp b/libstuff/libstuff.cpp
index f7dcca7..fadaffa 100644
--- a/libstuff/libstuff.cpp
+++ b/libstuff/libstuff.cpp
@@ -895,7 +895,7 @@ STable SParseCommandLine(int argc, char* argv[])
 const char* _SParseHTTP_GetUpToNext(const char* start, const char* lineEnd, char separator, string& out)
 {
     // Trim leading whitespace
-    while (*start == ' ') {
+    while (start < lineEnd && *start == ' ') {
         ++start;
     }
 
@@ -907,7 +907,7 @@ const char* _SParseHTTP_GetUpToNext(const char* start, const char* lineEnd, char
     const char* separatorPos = end;
 
     // Found the separator, trim off any trailing whitespace
-    while (*(end - 1) == ' ') {
+    while (end > start && *(end - 1) == ' ') {
         --end;
     }
 
@@ -927,10 +927,10 @@ const char* _SParseHTTP_GetUpToNext(const char* start, const char* lineEnd, char
 void _SParseHTTP_GetUpToEnd(const char* start, const char* end, string& out)
 {
     // Get everything up to the end of the line, triming leading and trailing whitespace
-    while (*start == ' ') {
+    while (start < end && *start == ' ') {
         ++start;
     }
-    while (*(end - 1) == ' ') {
+    while (end > start && *(end - 1) == ' ') {
         --end;
     }
     int length = (int) (end - start);
@@ -1102,10 +1102,10 @@ int SParseHTTP(const char* buffer, size_t length, string& methodLine, STable& na
                         // triming leading and trailing whitespace.
                         const char* valueStart = nameEnd + 1;
                         const char* valueEnd = lineEnd;
-                        while (*valueStart == ' ') {
+                        while (valueStart < valueEnd && *valueStart == ' ') {
                             ++valueStart;
                         }
-                        while (*(valueEnd - 1) == ' ') {
+                        while (valueEnd > valueStart && *(valueEnd - 1) == ' ') {
                             --valueEnd;
                         }
                         int valueLength = (int) (valueEnd - valueStart);
-- 
2.43.0


From 60ca088ad0027feb9fb8b9335e9dfd90863430a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:24 +0000
Subject: [PATCH 14/56] fix: a large chunk size or an invalid Content-Length
 crashed the HTTP parser

---
 libstuff/libstuff.cpp | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/libstuff/libstuff.cpp b/libstuff/libstuff.cpp
index fadaffa..62d4ead 100644
--- a/libstuff/libstuff.cpp
+++ b/libstuff/libstuff.cpp
@@ -1005,20 +1005,23 @@ int SParseHTTP(const char* buffer, size_t length, string& methodLine, STable& na
                     while (parseEnd < inputEnd && (*parseEnd == '\r' || *parseEnd == '\n') && numEOLs--) {
                         ++parseEnd;
                     }
-                    int headerLength = (int) (parseEnd - buffer);
+                    size_t headerLength = parseEnd - buffer;
 
                     // If there's a Content-Length (including a Content-Length of 0), we will parse that much data.
                     // Otherwise, we just parse everything that's left, as we have no other reasonable options.
                     bool hasContentLength = nameValueMap.contains("Content-Length");
-                    int contentLength = hasContentLength ? stoll(nameValueMap["Content-Length"]) : 0;
                     if (!hasContentLength) {
                         // Since we don't know, just return everything we have.
                         content = string(parseEnd, buffer + length);
                         return length;
                     }
 
-                    // There is a content length -- if we don't have enough, then cancel the parse.
-                    if ((int) (length - headerLength) < contentLength) {
+                    // There is a content length -- if we don't have enough, then cancel the parse. A value that isn't a length (not
+                    // a number, negative, or too large) can never be satisfied.
+                    const string& contentLengthValue = nameValueMap["Content-Length"];
+                    char* contentLengthEnd = nullptr;
+                    uint64_t contentLength = strtoull(contentLengthValue.c_str(), &contentLengthEnd, 10);
+                    if (contentLengthEnd == contentLengthValue.c_str() || length - headerLength < contentLength) {
                         // Insufficient content
                         methodLine.clear();
                         nameValueMap.clear();
@@ -1029,7 +1032,7 @@ int SParseHTTP(const char* buffer, size_t length, string& methodLine, STable& na
                     // We have enough data -- copy it and return the full length
                     content.resize(contentLength);
                     memcpy(&content[0], parseEnd, contentLength);
-                    return headerLength + contentLength;
+                    return (int) (headerLength + contentLength);
                 }
                 // Otherwise, we start on a chunked body.
                 else {
@@ -1055,12 +1058,11 @@ int SParseHTTP(const char* buffer, size_t length, string& methodLine, STable& na
                 if (SREMatch("^[a-fA-F0-9]{1,8}$", hexChunkLength)) {
                     // Get the chunk length.
                     isHeaderOrFooter = false;
-                    int chunkLength = (int) SFromHex(hexChunkLength);
+                    size_t chunkLength = SFromHex(hexChunkLength);
                     if (chunkLength) {
                         // Verify that we can get the entire chunk.
                         const char* chunkStart = lineEnd + 2; // skipping the \r\n.
-                        const char* chunkEnd = chunkStart + chunkLength;
-                        if (chunkEnd >= inputEnd) {
+                        if ((size_t) (inputEnd - lineEnd) <= chunkLength + 2) {
                             // Insufficient content
                             methodLine.clear();
                             nameValueMap.clear();
@@ -1072,7 +1074,7 @@ int SParseHTTP(const char* buffer, size_t length, string& methodLine, STable& na
                         size_t contentLength = content.length();
                         content.resize(contentLength + chunkLength);
                         memcpy(&content[contentLength], chunkStart, chunkLength);
-                        lineEnd = chunkEnd;
+                        lineEnd = chunkStart + chunkLength;
                     } else {
                         lastChunkFound = true;
                     }
-- 
2.43.0


From 8031ff639a9dd0b9e5b22edd8e948d2acf2ab829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:24 +0000
Subject: [PATCH 15/56] fix: cookie values were not escaped like other header
 values, so they could add headers

---
 libstuff/libstuff.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libstuff/libstuff.cpp b/libstuff/libstuff.cpp
index 62d4ead..239899a 100644
--- a/libstuff/libstuff.cpp
+++ b/libstuff/libstuff.cpp
@@ -1126,7 +1126,7 @@ int SParseHTTP(const char* buffer, size_t length, string& methodLine, STable& na
                         if (it == nameValueMap.end() || !SIEquals(name, "Set-Cookie")) {
                             nameValueMap[name] = SUnescape(value); // strip any slash-escaping
                         } else {
-                            nameValueMap[name] = it->second + S_COOKIE_SEPARATOR + value;
+                            nameValueMap[name] = it->second + S_COOKIE_SEPARATOR + SUnescape(value);
                         }
                     }
                 }
@@ -1360,7 +1360,7 @@ void SComposeHTTP(string& buffer, const string& methodLine, const STable& nameVa
             list<string> cookieList;
             SParseList(item.second, cookieList, S_COOKIE_SEPARATOR); // A bit of a hack, yuck
             for (string& cookie : cookieList) {
-                buffer += "Set-Cookie: " + cookie + "\r\n";
+                buffer += "Set-Cookie: " + SEscape(cookie, "\r\n\t") + "\r\n";
             }
         } else if (SIEquals("Content-Length", item.first)) {
             // Ignore Content-Length; will be generated fresh later
-- 
2.43.0


From ca4239685ddd6c9705dfb16ee6f18566c01419ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:24 +0000
Subject: [PATCH 16/56] fix: names were not escaped when composing JSON objects

---
 libstuff/libstuff.cpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/libstuff/libstuff.cpp b/libstuff/libstuff.cpp
index 239899a..bdd3588 100644
--- a/libstuff/libstuff.cpp
+++ b/libstuff/libstuff.cpp
@@ -1494,6 +1494,15 @@ string SDecodeURIComponent(const char* buffer, int length)
 // --------------------------------------------------------------------------
 const char* _SParseJSONValue(const char* ptr, const char* end, string& value, bool populateValue, const string& nullValue);
 
+static string _SComposeJSONString(const string& value)
+{
+    // We need to escape all control characters in the string, not just the white-space control characters.
+    return "\"" + SEscape(value, "\x01\x02\x03\x04\x05\x06\x07\x08\x09\x0a\x0b\x0c\x0d\x0e\x0f"
+                                 "\x10\x11\x12\x13\x14\x15\x16\x17\x18\x19\x1a\x1b\x1c\x1d\x1e\x1f\x7f\"\\/",
+                          '\\') +
+           "\"";
+}
+
 string SToJSON(const int64_t value, const bool forceString)
 {
     return SToJSON(to_string(value), forceString);
@@ -1538,11 +1547,7 @@ string SToJSON(const string& value, const bool forceString)
     }
 
     // Otherwise, it's a string -- escape and return
-    // We need to escape all control characters in the string, not just the white-space control characters.
-    return "\"" + SEscape(value, "\x01\x02\x03\x04\x05\x06\x07\x08\x09\x0a\x0b\x0c\x0d\x0e\x0f"
-                                 "\x10\x11\x12\x13\x14\x15\x16\x17\x18\x19\x1a\x1b\x1c\x1d\x1e\x1f\x7f\"\\/",
-                          '\\') +
-           "\"";
+    return _SComposeJSONString(value);
 }
 
 // --------------------------------------------------------------------------
@@ -1553,7 +1558,7 @@ string SComposeJSONObject(const STable& nameValueMap, const bool forceString)
     }
     string working = "{";
     for (pair<string, string> item : nameValueMap) {
-        working += "\"" + item.first + "\":" + SToJSON(item.second, forceString) + ",";
+        working += _SComposeJSONString(item.first) + ":" + SToJSON(item.second, forceString) + ",";
     }
     working.resize(working.size() - 1);
     working += "}";
-- 
2.43.0


From 5fda485fef83b8309b1c8686e20413ce3069a2e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:24 +0000
Subject: [PATCH 17/56] fix: JSON text with a NUL character in it aborted the
 process

---
 libstuff/libstuff.cpp | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/libstuff/libstuff.cpp b/libstuff/libstuff.cpp
index bdd3588..64d1c43 100644
--- a/libstuff/libstuff.cpp
+++ b/libstuff/libstuff.cpp
@@ -1596,7 +1596,6 @@ string SComposeJSONObject(const STable& nameValueMap, const bool forceString)
 const char* _SParseJSONString(const char* ptr, const char* end, string& out, bool populateOut)
 {
     SASSERT(ptr && end);
-    SASSERT(*ptr);
     _JSONLOG();
     // Walk across and find the end quote
     _JSONWS();
@@ -1626,7 +1625,6 @@ const char* _SParseJSONString(const char* ptr, const char* end, string& out, boo
 const char* _SParseJSONArray(const char* ptr, const char* end, list<string>& out, bool populateOut, const string& nullValue)
 {
     SASSERT(ptr && end);
-    SASSERT(*ptr);
     _JSONLOG();
     // Walk across the array
     _JSONWS();
@@ -1659,7 +1657,6 @@ const char* _SParseJSONArray(const char* ptr, const char* end, list<string>& out
 const char* _SParseJSONObject(const char* ptr, const char* end, STable& out, bool populateOut, const string& nullValue, const function<void(const string&, const string&)>& callback = [] (const string&, const string&){})
 {
     SASSERT(ptr && end);
-    SASSERT(*ptr);
     _JSONLOG();
     // Walk across the name value table
     _JSONWS();
-- 
2.43.0


From 914f41ab08d5310a03098f734254dd5feb6cac24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:24 +0000
Subject: [PATCH 18/56] fix: JSON texts cut off inside an array or object were
 accepted as complete

---
 libstuff/libstuff.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libstuff/libstuff.cpp b/libstuff/libstuff.cpp
index 64d1c43..a187722 100644
--- a/libstuff/libstuff.cpp
+++ b/libstuff/libstuff.cpp
@@ -1571,7 +1571,7 @@ string SComposeJSONObject(const STable& nameValueMap, const bool forceString)
             while (ptr < end && isspace(*ptr))                                                                             \
             ++ptr;                                                                                                     \
             if (ptr >= end)                                                                                                \
-            return ptr;                                                                                                \
+            return NULL;                                                                                               \
         } while (0)
 #define _JSONTEST(_CH_)                                                                                                \
         do {                                                                                                               \
-- 
2.43.0


From afb5983961e9a6deb8b2cc47e3192cce10e3a89f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:24 +0000
Subject: [PATCH 19/56] fix: characters escaped as a surrogate pair were
 decoded to two invalid characters

---
 libstuff/libstuff.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/libstuff/libstuff.cpp b/libstuff/libstuff.cpp
index a187722..57b1433 100644
--- a/libstuff/libstuff.cpp
+++ b/libstuff/libstuff.cpp
@@ -603,6 +603,14 @@ string SUnescape(const char* lhs, char escaper)
                 sscanf(utfCode, "%04x", &utfValue);
                 lhs += 4;
 
+                // Characters beyond the first 16 bits are written as two escapes, a pair of surrogates.
+                unsigned int lowSurrogate = 0;
+                if (utfValue >= 0xd800 && utfValue <= 0xdbff && *(lhs + 1) == escaper &&
+                    sscanf(lhs + 2, "u%04x", &lowSurrogate) == 1 && lowSurrogate >= 0xdc00 && lowSurrogate <= 0xdfff) {
+                    utfValue = 0x10000 + ((utfValue & 0x3ff) << 10) + (lowSurrogate & 0x3ff);
+                    lhs += 6;
+                }
+
                 // 7 or fewer bits goes straight through
                 if (utfValue <= 0x007f) {
                     working += (char) utfValue;
@@ -633,6 +641,14 @@ string SUnescape(const char* lhs, char escaper)
                     utfValue &= ~(byte << 12);
                     additionalBytes = 2;
                 }
+                // 17 to 21 bits turns into 4 Byte sequence:
+                // 1111.0xxx 10xx.xxxx 10xx.xxxx 10xx.xxxx
+                else {
+                    // UTF-8 4 byte header is 11110.
+                    // 1111.0000 | Top 3 bits of utfValue.
+                    working += (char) (0xf0 | (utfValue >> 18));
+                    additionalBytes = 3;
+                }
 
                 // Loop through the remaining bytes expanding with UTF-8 header
                 string utfChar = "";
-- 
2.43.0


From 5699ad5f1e202cb16b31a21fa962d08d9aa5f0bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:44 +0000
Subject: [PATCH 20/56] fix: parsing deeply nested JSON overflowed the stack

---
 libstuff/libstuff.cpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/libstuff/libstuff.cpp b/libstuff/libstuff.cpp
index 57b1433..be1aec4 100644
--- a/libstuff/libstuff.cpp
+++ b/libstuff/libstuff.cpp
@@ -1715,6 +1715,24 @@ const char* _SParseJSONObject(const char* ptr, const char* end, STable& out, boo
 const char* _SParseJSONValue(const char* ptr, const char* end, string& value, bool populateValue, const string& nullValue)
 {
     _JSONLOG();
+    // Nested values are parsed recursively. Give up rather than overflow the stack on values nested too deeply.
+    static thread_local int depth = 0;
+    struct DepthCounter
+    {
+        DepthCounter()
+        {
+            depth++;
+        }
+
+        ~DepthCounter()
+        {
+            depth--;
+        }
+    } depthCounter;
+    if (depth > 256) {
+        return NULL;
+    }
+
     // Classify based on the first character
     _JSONWS();
     switch (*ptr) {
-- 
2.43.0


From e78917c2688482bf93e0422d01f2b4652559e986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:09 +0000
Subject: [PATCH 21/56] fix: encoding an empty string in base64 threw
 length_error

---
 libstuff/libstuff.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libstuff/libstuff.cpp b/libstuff/libstuff.cpp
index be1aec4..ac0d720 100644
--- a/libstuff/libstuff.cpp
+++ b/libstuff/libstuff.cpp
@@ -2717,6 +2717,9 @@ string SEncodeBase64(const unsigned char* buffer, size_t size)
     // First, get the required buffer size
     size_t olen = 0;
     mbedtls_base64_encode(0, 0, &olen, buffer, size);
+    if (!olen) {
+        return "";
+    }
 
     // Next, do the encode
     string out;
-- 
2.43.0


From f77229a01af16eaf41e7b380c287fa1f351bff45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:09 +0000
Subject: [PATCH 22/56] fix: compressing short content that doesn't get smaller
 failed

---
 libstuff/libstuff.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/libstuff/libstuff.cpp b/libstuff/libstuff.cpp
index ac0d720..9392ab1 100644
--- a/libstuff/libstuff.cpp
+++ b/libstuff/libstuff.cpp
@@ -1900,12 +1900,6 @@ string SGZip(const string& content)
 
     int GZIP_ENCODING = 16;
 
-    unsigned int bufferSize = stream.avail_in + (stream.avail_in / 1000) + 20;
-    unsigned char* outBuffer = new unsigned char[bufferSize];
-
-    stream.avail_out = bufferSize;
-    stream.next_out = outBuffer;
-
     int status = deflateInit2(&stream, Z_BEST_COMPRESSION, Z_DEFLATED, MAX_WBITS | GZIP_ENCODING, MAX_MEM_LEVEL,
                               Z_DEFAULT_STRATEGY);
 
@@ -1914,6 +1908,12 @@ string SGZip(const string& content)
         return "";
     }
 
+    unsigned int bufferSize = deflateBound(&stream, stream.avail_in);
+    unsigned char* outBuffer = new unsigned char[bufferSize];
+
+    stream.avail_out = bufferSize;
+    stream.next_out = outBuffer;
+
     status = deflate(&stream, Z_FINISH);
     if (status != Z_STREAM_END && status != Z_OK) {
         SHMMM("We deflated but we didn't get Z_STREAM_END or Z_OK, we got " << status);
-- 
2.43.0


From da987e45fa987913fd8917d256ad1eee22633ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:09 +0000
Subject: [PATCH 23/56] fix: HMAC keys longer than 64 bytes were written
 outside the pads

---
 libstuff/libstuff.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/libstuff/libstuff.cpp b/libstuff/libstuff.cpp
index 9392ab1..6af9c98 100644
--- a/libstuff/libstuff.cpp
+++ b/libstuff/libstuff.cpp
@@ -2757,8 +2757,13 @@ string SHMACSHA1(const string& key, const string& buffer)
 {
     // See: http://en.wikipedia.org/wiki/HMAC
 
-    // First, build the secret pads
+    // Keys longer than a block are hashed first.
     int BLOCK_SIZE = 64;
+    if ((int) key.size() > BLOCK_SIZE) {
+        return SHMACSHA1(SHashSHA1(key), buffer);
+    }
+
+    // First, build the secret pads
     string ipadSecret(BLOCK_SIZE, 0x36), opadSecret(BLOCK_SIZE, 0x5c);
     for (int c = 0; c < (int) key.size(); ++c) {
         // XOR front of opadSecret/ipadSecret with secret access key
@@ -2777,8 +2782,13 @@ string SHMACSHA256(const string& key, const string& buffer)
 {
     // See: http://en.wikipedia.org/wiki/HMAC
 
-    // First, build the secret pads
+    // Keys longer than a block are hashed first.
     int BLOCK_SIZE = 64;
+    if ((int) key.size() > BLOCK_SIZE) {
+        return SHMACSHA256(SHashSHA256(key), buffer);
+    }
+
+    // First, build the secret pads
     string ipadSecret(BLOCK_SIZE, 0x36), opadSecret(BLOCK_SIZE, 0x5c);
     for (int c = 0; c < (int) key.size(); ++c) {
         // XOR front of opadSecret/ipadSecret with secret access key
-- 
2.43.0


From 78398b88894f56634e7277e274de4e99673eed09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:39 +0000
Subject: [PATCH 24/56] fix: composing a POST body without parameters threw an
 exception

---
 libstuff/libstuff.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libstuff/libstuff.cpp b/libstuff/libstuff.cpp
index 6af9c98..c76bf58 100644
--- a/libstuff/libstuff.cpp
+++ b/libstuff/libstuff.cpp
@@ -1424,7 +1424,9 @@ string SComposePOST(const STable& nameValueMap)
         }
     }
     string outStr = out.str();
-    outStr.resize(outStr.size() - 1); // Trim off trailing '&'
+    if (!outStr.empty()) {
+        outStr.resize(outStr.size() - 1); // Trim off trailing '&'
+    }
     return outStr;
 }
 
-- 
2.43.0


From 43da1e7023fbde258dd32ba3f4b35e2ffffaf317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:39 +0000
Subject: [PATCH 25/56] fix: base 32 decoding read outside its table for
 characters that are not in the alphabet

---
 libstuff/libstuff.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libstuff/libstuff.cpp b/libstuff/libstuff.cpp
index c76bf58..c3e17fe 100644
--- a/libstuff/libstuff.cpp
+++ b/libstuff/libstuff.cpp
@@ -405,7 +405,7 @@ string SBase32HexStringFromBase32(const string& buffer)
     int shiftedIndex;
     for (size_t i = 0; i < out.size(); i++) {
         shiftedIndex = out[i] - 50;
-        if (mapLength < shiftedIndex || map[shiftedIndex] == 0) {
+        if (shiftedIndex < 0 || shiftedIndex >= mapLength || map[shiftedIndex] == 0) {
             STHROW("Character not found in base32 alphabet.");
         }
         out[i] = map[shiftedIndex];
-- 
2.43.0


From 70c376b02b5526157825aa719d25e92424fb4332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:29 +0000
Subject: [PATCH 26/56] fix: cancelling a child again requeued a parent that
 was already running

---
 plugins/Jobs.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/plugins/Jobs.cpp b/plugins/Jobs.cpp
index 5fdd67a..e5439fa 100644
--- a/plugins/Jobs.cpp
+++ b/plugins/Jobs.cpp
@@ -1359,7 +1359,8 @@ void BedrockJobsCommand::process(SQLite& db)
         }
         if (SToInt64(result[0][0]) == 0) {
             SINFO("Cancelled last QUEUED child, resuming the parent: " << safeParentJobID);
-            if (!db.writeIdempotent("UPDATE jobs SET state='QUEUED' WHERE jobID=" + safeParentJobID + ";")) {
+            // A parent that is not waiting for its children (eg, it was already resumed and is running) stays as it is.
+            if (!db.writeIdempotent("UPDATE jobs SET state='QUEUED' WHERE jobID=" + safeParentJobID + " AND state='PAUSED';")) {
                 STHROW("502 Failed to update job data");
             }
         }
-- 
2.43.0


From bee9d576304206cd799fe683d8fc1973bdbf4241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:29 +0000
Subject: [PATCH 27/56] fix: a retriable job repeating by its scheduled time
 could not be finished without originalNextRun

---
 plugins/Jobs.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/plugins/Jobs.cpp b/plugins/Jobs.cpp
index e5439fa..0f2f55b 100644
--- a/plugins/Jobs.cpp
+++ b/plugins/Jobs.cpp
@@ -1258,7 +1258,8 @@ void BedrockJobsCommand::process(SQLite& db)
             // to a failure check interval, eg 5 minutes. To account for this here when finishing the job, we use
             // 'originalNextRun' from the 'data' to get back the originally scheduled time which was 'nextRun' when the job ran.
             if (!retryAfter.empty() && SToUpper(repeat).find("SCHEDULED") != string::npos) {
-                lastScheduled = originalDataNextRun;
+                // It is missing if the data was replaced while the job was running, or for 'manual' jobs.
+                lastScheduled = originalDataNextRun.empty() ? nextRun : originalDataNextRun;
             }
             safeNewNextRun = _constructNextRunDATETIME(db, lastScheduled, lastRun, repeat);
         } else if (SIEquals(requestVerb, "RetryJob")) {
-- 
2.43.0


From 9c87eafa6beb8d661d870e8bedc65533463b7205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:29 +0000
Subject: [PATCH 28/56] fix: a retriable job whose next repeat was already due
 was handed out again at once

---
 plugins/Jobs.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/plugins/Jobs.cpp b/plugins/Jobs.cpp
index 0f2f55b..2fda9b5 100644
--- a/plugins/Jobs.cpp
+++ b/plugins/Jobs.cpp
@@ -971,7 +971,8 @@ void BedrockJobsCommand::process(SQLite& db)
                 string currentTime = SUNQUOTED_CURRENT_TIMESTAMP();
                 string retryAfterDateTime = "DATETIME(" + SQ(currentTime) + ", " + SQ(job["retryAfter"]) + ")";
                 string repeatDateTime = _constructNextRunDATETIME(db, job["nextRun"], currentTime, job["repeat"]);
-                string nextRunDateTime = repeatDateTime != "" ? "MIN(" + retryAfterDateTime + ", " + repeatDateTime + ")" : retryAfterDateTime;
+                // A repeat that is already due (a missed window) must not make the job runnable again right away.
+                string nextRunDateTime = repeatDateTime != "" ? "IIF(" + repeatDateTime + " <= " + SQ(currentTime) + ", " + retryAfterDateTime + ", MIN(" + retryAfterDateTime + ", " + repeatDateTime + "))" : retryAfterDateTime;
                 bool isRepeatBasedOnScheduledTime = SToUpper(job["repeat"]).find("SCHEDULED") != string::npos;
                 string dataUpdateQuery = " ";
                 if (!SStartsWith(job["name"], "manual")) {
-- 
2.43.0


From 117bf264e22879156a7aeda11a01db254eabf2f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:34 +0000
Subject: [PATCH 29/56] fix: deleting the last child of a paused job left the
 parent paused forever

---
 plugins/Jobs.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/plugins/Jobs.cpp b/plugins/Jobs.cpp
index 2fda9b5..ae6914f 100644
--- a/plugins/Jobs.cpp
+++ b/plugins/Jobs.cpp
@@ -1432,7 +1432,7 @@ void BedrockJobsCommand::process(SQLite& db)
 
         // Verify there is a job like this and it's not running
         SQResult result;
-        if (!db.read("SELECT state "
+        if (!db.read("SELECT state, parentJobID "
                      "FROM jobs "
                      "WHERE jobID=" + SQ(request.calc64("jobID")) + ";",
                      result)) {
@@ -1455,6 +1455,14 @@ void BedrockJobsCommand::process(SQLite& db)
             STHROW("502 Delete failed");
         }
 
+        // If this was the last child its parent was waiting for, resume the parent.
+        const int64_t parentJobID = SToInt64(result[0][1]);
+        if (parentJobID && !_hasPendingChildJobs(db, parentJobID)) {
+            if (!db.writeIdempotent("UPDATE jobs SET state='QUEUED' WHERE jobID=" + SQ(parentJobID) + " AND state='PAUSED';")) {
+                STHROW("502 Update failed");
+            }
+        }
+
         // Successfully processed
         return;
     }
-- 
2.43.0


From fa7e6b79f6084b34ec97ba46345debb2407bb749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:18 +0000
Subject: [PATCH 30/56] fix: overwriting a cache entry only kept the cache size
 right on the handle that upgraded the database

---
 plugins/Cache.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/plugins/Cache.cpp b/plugins/Cache.cpp
index 1247660..454c5b2 100644
--- a/plugins/Cache.cpp
+++ b/plugins/Cache.cpp
@@ -288,9 +288,12 @@ void BedrockCacheCommand::process(SQLite& db)
 
         // Insert the new entry
         const string& safeValue = SQ(valueHeader.empty() ? request.content : valueHeader);
-        if (!db.write("INSERT OR REPLACE INTO cache ( name, value ) "
+        // (An upsert rather than a replace: replacing only fires the delete trigger that keeps the size right on
+        // database handles with recursive triggers enabled, which is not all of them.)
+        if (!db.write("INSERT INTO cache ( name, value ) "
                       "VALUES( " +
-                      SQ(name) + ", " + safeValue + " );")) {
+                      SQ(name) + ", " + safeValue + " ) "
+                      "ON CONFLICT ( name ) DO UPDATE SET value = excluded.value;")) {
             STHROW("502 Query failed (inserting)");
         }
 
-- 
2.43.0


From bb73b323158d99ee1bffc01bd4e2860075b4599f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:01 +0000
Subject: [PATCH 31/56] fix: an UPDATE or DELETE was not refused when its only
 WHERE was in a literal, comment, subquery or other statement

The check that stops a Query command from changing whole tables looked for the text ' WHERE ' anywhere in the query, and
only if the query started with UPDATE or DELETE. Look instead at the words of each statement.
---
 plugins/DB.cpp | 64 ++++++++++++++++++++++++++++++++++++++++++++++----
 plugins/DB.h   |  3 +++
 2 files changed, 62 insertions(+), 5 deletions(-)

diff --git a/plugins/DB.cpp b/plugins/DB.cpp
index 7f04b08..4b97552 100644
--- a/plugins/DB.cpp
+++ b/plugins/DB.cpp
@@ -180,11 +180,18 @@ void BedrockDBCommand::process(SQLite& db)
     BedrockPlugin::verifyAttributeBool(request, "nowhere", false);
 
     const string upperQuery = SToUpper(query);
-    if (!request.test("nowhere") &&
-        (SStartsWith(upperQuery, "UPDATE") || SStartsWith(upperQuery, "DELETE")) &&
-        !SContains(upperQuery, " WHERE ")) {
-        SALERT("Query aborted, it has no 'where' clause: '" << query << "'");
-        STHROW("502 Query aborted");
+    if (!request.test("nowhere")) {
+        bool missingWhere = false;
+        list<sqlite3_stmt*> statements;
+        db.getPreparedStatements(query, statements);
+        for (sqlite3_stmt* statement : statements) {
+            missingWhere |= BedrockPlugin_DB::isMissingWhere(sqlite3_sql(statement));
+            sqlite3_finalize(statement);
+        }
+        if (missingWhere) {
+            SALERT("Query aborted, it has no 'where' clause: '" << query << "'");
+            STHROW("502 Query aborted");
+        }
     }
 
     // Attempt the query
@@ -204,6 +211,53 @@ void BedrockDBCommand::process(SQLite& db)
     return;
 }
 
+bool BedrockPlugin_DB::isMissingWhere(const string& statement)
+{
+    // Look only at the words of the statement itself: the text of literals, quoted names and comments doesn't count, and
+    // a WHERE inside parentheses belongs to a subquery.
+    string verb;
+    bool isWith = false;
+    int depth = 0;
+    for (size_t i = 0; i < statement.size();) {
+        const char c = statement[i];
+        if (c == '\'' || c == '"' || c == '`' || c == '[') {
+            // A doubled quote is an escaped one, but skipping it as two adjacent quoted strings gives the same result.
+            const size_t close = statement.find(c == '[' ? ']' : c, i + 1);
+            i = close == string::npos ? statement.size() : close + 1;
+        } else if (statement.compare(i, 2, "--") == 0) {
+            const size_t close = statement.find('\n', i);
+            i = close == string::npos ? statement.size() : close + 1;
+        } else if (statement.compare(i, 2, "/*") == 0) {
+            const size_t close = statement.find("*/", i + 2);
+            i = close == string::npos ? statement.size() : close + 2;
+        } else if (isalnum((unsigned char) c) || c == '_' || (c & 0x80)) {
+            const size_t start = i;
+            while (i < statement.size() && (isalnum((unsigned char) statement[i]) || statement[i] == '_' || statement[i] == '$' || (statement[i] & 0x80))) {
+                i++;
+            }
+            if (!depth) {
+                const string word = SToUpper(statement.substr(start, i - start));
+                if (word == "WHERE") {
+                    return false;
+                }
+                // The verb is the first word, except that common table expressions can come before it.
+                if (verb.empty() && SContains(set<string>{"SELECT", "VALUES", "INSERT", "REPLACE", "UPDATE", "DELETE"}, word)) {
+                    verb = word;
+                } else if (verb.empty() && !isWith) {
+                    isWith = word == "WITH";
+                    if (!isWith) {
+                        return false;
+                    }
+                }
+            }
+        } else {
+            depth += (c == '(') - (c == ')');
+            i++;
+        }
+    }
+    return verb == "UPDATE" || verb == "DELETE";
+}
+
 BedrockPlugin_DB::Sqlite3QRFSpecWrapper BedrockPlugin_DB::parseSQLite3Args(const string& argsToParse)
 {
     // Parse this into a map corresponding to the allowed options specified here:
diff --git a/plugins/DB.h b/plugins/DB.h
index a859fdd..e7d4c21 100644
--- a/plugins/DB.h
+++ b/plugins/DB.h
@@ -27,6 +27,9 @@ public:
         Sqlite3QRFSpecWrapper& operator=(Sqlite3QRFSpecWrapper&& other) noexcept;
     };
 
+    // Returns true if `statement` (a single SQL statement) is an UPDATE or DELETE that has no WHERE clause of its own.
+    static bool isMissingWhere(const string& statement);
+
     static Sqlite3QRFSpecWrapper parseSQLite3Args(const string& argsToParse);
 
     // This was implemented based on the sqlite3 cli code found here:
-- 
2.43.0


From b4b471451b0bf3c621500331d030f2b9ad576cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:52 +0000
Subject: [PATCH 32/56] fix: a leader that lost a peer left it out of the
 cluster size, and kept leading without a majority

---
 sqlitecluster/SQLiteNode.cpp | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/sqlitecluster/SQLiteNode.cpp b/sqlitecluster/SQLiteNode.cpp
index 94f674c..b809a46 100644
--- a/sqlitecluster/SQLiteNode.cpp
+++ b/sqlitecluster/SQLiteNode.cpp
@@ -1467,15 +1467,11 @@ void SQLiteNode::_onDisconnect(SQLitePeer* peer)
         int numFullPeers = 0;
         int numLoggedInFullPeers = 0;
         for (auto otherPeer : _peerList) {
-            // Skip the current peer, it no longer counts.
-            if (otherPeer == peer) {
-                continue;
-            }
             // Make sure we're a full peer
             if (!otherPeer->permaFollower) {
-                // Verify we're logged in
+                // Verify we're logged in. The current peer is still part of the cluster, but no longer logged in.
                 ++numFullPeers;
-                if (otherPeer->loggedIn) {
+                if (otherPeer != peer && otherPeer->loggedIn) {
                     // Verify we're still fresh
                     ++numLoggedInFullPeers;
                 }
-- 
2.43.0


From 869f9be77e64bf495df19e22afb0f3b5d77c8226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:52 +0000
Subject: [PATCH 33/56] fix: a permafollower that was starting up or shutting
 down counted as a voting node

---
 sqlitecluster/SQLiteNode.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/sqlitecluster/SQLiteNode.cpp b/sqlitecluster/SQLiteNode.cpp
index b809a46..fbabc29 100644
--- a/sqlitecluster/SQLiteNode.cpp
+++ b/sqlitecluster/SQLiteNode.cpp
@@ -1038,7 +1038,9 @@ void SQLiteNode::_onMESSAGE(SQLitePeer* peer, const SData& message)
             peer->priority = message.calc("Priority");
             peer->version = message["Version"];
             peer->state = stateFromName(message["State"]);
-            peer->permaFollower = peer->priority == 0;
+
+            // The priority doesn't tell a permafollower while it's starting up (-1) or shutting down (1).
+            peer->permaFollower = message.isSet("Permafollower") ? SIEquals(message["Permafollower"], "true") : peer->priority == 0;
 
             // Is it on the same version as us?
             if (!_haveSeenPeerOnSameVersion && peer->version.load() == _version) {
@@ -1095,7 +1097,9 @@ void SQLiteNode::_onMESSAGE(SQLitePeer* peer, const SData& message)
             }
             const SQLiteNodeState from = peer->state;
             peer->priority = message.calc("Priority");
-            peer->permaFollower = peer->priority == 0;
+            if (peer->priority != -1 && peer->priority != 1) {
+                peer->permaFollower = peer->priority == 0;
+            }
             peer->state = stateFromName(message["State"]);
             const SQLiteNodeState to = peer->state;
             if (from == to) {
-- 
2.43.0


From 5038b04c72bd8cfeb381af013f1b8c428030f179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:24 +0000
Subject: [PATCH 34/56] fix: setPriority overlooked a follower that was still
 subscribing

---
 sqlitecluster/SQLiteNode.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sqlitecluster/SQLiteNode.cpp b/sqlitecluster/SQLiteNode.cpp
index fbabc29..baa582d 100644
--- a/sqlitecluster/SQLiteNode.cpp
+++ b/sqlitecluster/SQLiteNode.cpp
@@ -2516,7 +2516,7 @@ int SQLiteNode::setPriority(int newPriority)
         if (newPriority > 0 && peer->priority == newPriority) {
             STHROW("409 Priority " + to_string(newPriority) + " already in use by " + peer->name);
         }
-        if (peer->priority > newPriority && peer->state == SQLiteNodeState::FOLLOWING) {
+        if (peer->priority > newPriority && (peer->state == SQLiteNodeState::FOLLOWING || peer->state == SQLiteNodeState::SUBSCRIBING)) {
             higherPriorityFollowingPeer = peer;
         }
     }
@@ -2568,7 +2568,7 @@ int SQLiteNode::setPriority(int newPriority)
         SINFO("Forcing state transition to STANDINGDOWN because peer '" << higherPriorityFollowingPeer->name
               << "' has higher priority (" << higherPriorityFollowingPeer->priority << " > " << newPriority << ").");
         _changeState(SQLiteNodeState::STANDINGDOWN);
-    } else if (_state == SQLiteNodeState::FOLLOWING && _leadPeer) {
+    } else if ((_state == SQLiteNodeState::FOLLOWING || _state == SQLiteNodeState::SUBSCRIBING) && _leadPeer) {
         auto leadPeer = _leadPeer.load();
         if (leadPeer->loggedIn &&
             leadPeer->state == SQLiteNodeState::LEADING &&
-- 
2.43.0


From 8203a2cbf099002dcafe7c55e99508c804edf261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:16 +0000
Subject: [PATCH 35/56] fix: a leader that stops disconnected its followers
 before sending them its last transactions

---
 sqlitecluster/SQLiteNode.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sqlitecluster/SQLiteNode.cpp b/sqlitecluster/SQLiteNode.cpp
index baa582d..0d91b2e 100644
--- a/sqlitecluster/SQLiteNode.cpp
+++ b/sqlitecluster/SQLiteNode.cpp
@@ -869,12 +869,15 @@ bool SQLiteNode::update()
             if (_state == SQLiteNodeState::STANDINGDOWN) {
                 // Standdown complete
                 SINFO("STANDDOWN complete, SEARCHING");
+                _changeState(SQLiteNodeState::SEARCHING);
+
+                // Changing state sends whatever has been committed since we last sent the outstanding transactions, so
+                // we can only disconnect after that.
                 if (_isShuttingDown) {
                     for (const auto& peer : _peerList) {
                         peer->shutdownSocket();
                     }
                 }
-                _changeState(SQLiteNodeState::SEARCHING);
 
                 // We're no longer waiting on responses from peers, we can re-update immediately and start becoming a
                 // follower node instead.
-- 
2.43.0


From a9ccb5d50a32721cc1cb1ff20d5fff8203dd6c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:42 +0000
Subject: [PATCH 36/56] fix: a node could send the hash of a later commit than
 its commit count, and be considered forked

---
 sqlitecluster/SQLite.cpp     | 11 +++++++++++
 sqlitecluster/SQLite.h       |  8 ++++++++
 sqlitecluster/SQLiteNode.cpp | 10 ++++++----
 3 files changed, 25 insertions(+), 4 deletions(-)

diff --git a/sqlitecluster/SQLite.cpp b/sqlitecluster/SQLite.cpp
index cd913c1..ca50c53 100644
--- a/sqlitecluster/SQLite.cpp
+++ b/sqlitecluster/SQLite.cpp
@@ -1423,6 +1423,11 @@ uint64_t SQLite::getCommitCount() const
     return _sharedData.commitCount;
 }
 
+pair<uint64_t, string> SQLite::getLastCommit() const
+{
+    return _sharedData.getLastCommit();
+}
+
 uint64_t SQLite::getOutstandingFramesToCheckpoint() const
 {
     return _sharedData.knownOutstandingFramesToCheckpoint;
@@ -1749,6 +1754,12 @@ void SQLite::SharedData::incrementCommit(const string& commitHash)
     lastCommittedHash.store(commitHash);
 }
 
+pair<uint64_t, string> SQLite::SharedData::getLastCommit()
+{
+    lock_guard<decltype(_internalStateMutex)> lock(_internalStateMutex);
+    return {commitCount.load(), lastCommittedHash.load()};
+}
+
 void SQLite::SharedData::prepareTransactionInfo(uint64_t commitID, const string& query, const string& hash)
 {
     lock_guard<decltype(_internalStateMutex)> lock(_internalStateMutex);
diff --git a/sqlitecluster/SQLite.h b/sqlitecluster/SQLite.h
index 083989c..485e410 100644
--- a/sqlitecluster/SQLite.h
+++ b/sqlitecluster/SQLite.h
@@ -246,6 +246,11 @@ public:
     // database.
     uint64_t getCommitCount() const;
 
+    // Returns the current commitCount along with the hash of that commit. Calling `getCommitCount` and
+    // `getCommittedHash` one after the other can return the hash of a later commit than the count is for, if another
+    // thread commits in between.
+    pair<uint64_t, string> getLastCommit() const;
+
     // Returns the number of WAL frames that are currently waiting to be checkpointed.
     uint64_t getOutstandingFramesToCheckpoint() const;
 
@@ -372,6 +377,9 @@ public:
         // after completing a commit and before releasing the commit lock.
         void incrementCommit(const string& commitHash);
 
+        // Returns the commit count and the hash that belongs to it.
+        pair<uint64_t, string> getLastCommit();
+
         // This removes and returns all committed transactions.
         map<uint64_t, pair<string, string>> popCommittedTransactions();
 
diff --git a/sqlitecluster/SQLiteNode.cpp b/sqlitecluster/SQLiteNode.cpp
index 0d91b2e..9e183c6 100644
--- a/sqlitecluster/SQLiteNode.cpp
+++ b/sqlitecluster/SQLiteNode.cpp
@@ -1218,8 +1218,9 @@ void SQLiteNode::_onMESSAGE(SQLitePeer* peer, const SData& message)
                         _queueSynchronize(this, peer, db, response, false);
 
                         // The following two lines are copied from `_sendToPeer`.
-                        response["CommitCount"] = to_string(db.getCommitCount());
-                        response["Hash"] = db.getCommittedHash();
+                        const auto [commitCount, commitHash] = db.getLastCommit();
+                        response["CommitCount"] = to_string(commitCount);
+                        response["Hash"] = commitHash;
                         _sendToPeer(peer, response);
                     } catch (const SException& e) {
                         // This is the same handling as at the bottom of _onMESSAGE.
@@ -1507,11 +1508,12 @@ void SQLiteNode::_onDisconnect(SQLitePeer* peer)
 
 SData SQLiteNode::_addPeerHeaders(SData message)
 {
+    const auto [commitCount, commitHash] = _db.getLastCommit();
     if (!message.isSet("CommitCount")) {
-        message["CommitCount"] = SToStr(_db.getCommitCount());
+        message["CommitCount"] = SToStr(commitCount);
     }
     if (!message.isSet("Hash")) {
-        message["Hash"] = _db.getCommittedHash();
+        message["Hash"] = commitHash;
     }
     message["commandAddress"] = _commandAddress;
     return message;
-- 
2.43.0


From 3d5672ffe1879d7ecab1d53ceba3e92c713f123b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:37 +0000
Subject: [PATCH 37/56] fix: a command whose commit succeeded just before the
 node stopped leading was run again

---
 BedrockServer.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/BedrockServer.cpp b/BedrockServer.cpp
index 26d9ed1..cc04bec 100644
--- a/BedrockServer.cpp
+++ b/BedrockServer.cpp
@@ -778,7 +778,9 @@ void BedrockServer::runCommand(unique_ptr<BedrockCommand>&& _command, bool isBlo
                             }
                             commitSuccess = core.commit(*_syncNode, transactionID, transactionHash, command->getMethodName(), enableOnPrepareNotifications, onPrepareHandler, timeToCommit, &command->shouldAbort);
 
-                            if (getState() != SQLiteNodeState::LEADING) {
+                            // If the commit succeeded, it doesn't matter that we stopped leading right after it: running the command again
+                            // would write everything twice.
+                            if (!commitSuccess && getState() != SQLiteNodeState::LEADING) {
                                 SINFO("Stopped leading while trying to commit, will retry.");
 
                                 // Jump back to the top of the main loop but skip the check that would push this to the blocking commit queue.
-- 
2.43.0


From 28049fefcafb493a6087ecd44166631cde65663d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:20 +0000
Subject: [PATCH 38/56] fix: the response of a command with prePeek kept what
 an abandoned attempt had set

---
 BedrockCommand.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/BedrockCommand.cpp b/BedrockCommand.cpp
index 09f42b7..aa5e4e5 100644
--- a/BedrockCommand.cpp
+++ b/BedrockCommand.cpp
@@ -227,7 +227,9 @@ void BedrockCommand::waitForHTTPSRequests(SQLite& db)
 
 void BedrockCommand::reset(BedrockCommand::STAGE stage)
 {
-    if (stage == STAGE::PEEK && !shouldPrePeek()) {
+    // The first stage of each attempt starts afresh, so that nothing of an attempt that was abandoned (because it
+    // conflicted, for instance) is left in the response.
+    if (stage == STAGE::PREPEEK || (stage == STAGE::PEEK && !shouldPrePeek())) {
         jsonContent.clear();
         response.clear();
     }
-- 
2.43.0


From c30f7c63bf74cfc29e3d46d0b098f320530d3347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:44 +0000
Subject: [PATCH 39/56] fix: a command that had been escalated was forwarded
 again when the node was synchronizing

---
 BedrockServer.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/BedrockServer.cpp b/BedrockServer.cpp
index cc04bec..b8875bc 100644
--- a/BedrockServer.cpp
+++ b/BedrockServer.cpp
@@ -574,7 +574,8 @@ void BedrockServer::runCommand(unique_ptr<BedrockCommand>&& _command, bool isBlo
 
     // If we happen to be synchronizing but the command port is open, which is an uncommon but possible scenario (i.e., we were momentarily disconnected from leader and need to catch back
     // up), we will forward commands to any other follower similar to if we were running as a different version from leader.
-    if (getState() == SQLiteNodeState::SYNCHRONIZING) {
+    // Except if it's already complete, which means that it was escalated before (even if we didn't get its response), and forwarding it could run it again.
+    if (!command->complete && getState() == SQLiteNodeState::SYNCHRONIZING) {
         auto _clusterMessengerCopy = _clusterMessenger;
         bool result = _clusterMessengerCopy->runOnPeer(*command, false);
         if (result) {
-- 
2.43.0


From 70bfbcbaf91c24f3b6f04577a64c80ffce0a7a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:24 +0000
Subject: [PATCH 40/56] fix: a command that timed out before it was escalated
 was sent with a huge timeout

---
 sqlitecluster/SQLiteClusterMessenger.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sqlitecluster/SQLiteClusterMessenger.cpp b/sqlitecluster/SQLiteClusterMessenger.cpp
index b20cdf2..b3c492a 100644
--- a/sqlitecluster/SQLiteClusterMessenger.cpp
+++ b/sqlitecluster/SQLiteClusterMessenger.cpp
@@ -142,7 +142,12 @@ bool SQLiteClusterMessenger::_sendCommandOnSocket(SHTTPSManager::Socket& socket,
 
     // Compute the remaining time left before timeout, and set the timeout for the escalated command to match.
     // Note that internally this is stored in microseconds, but over the wire is sent in milliseconds.
-    request["timeout"] = to_string((command.timeout() - STimeNow()) / 1000);
+    const uint64_t now = STimeNow();
+    if (command.timeout() <= now) {
+        SINFO("[HTTPESC] Command timed out before it could be sent.");
+        return false;
+    }
+    request["timeout"] = to_string((command.timeout() - now) / 1000);
 
     // If the command has https requests, we serialize them to escalate. In this case we also check if the command has data
     // that needs serialization, and if so, we serialize that as well.
-- 
2.43.0


From 2ba74add411bc74a1d5c45235abed2103ec252a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:48 +0000
Subject: [PATCH 41/56] fix: a request that followed another one in the same
 packet was not looked at before more data arrived

---
 BedrockServer.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/BedrockServer.cpp b/BedrockServer.cpp
index b8875bc..ea35483 100644
--- a/BedrockServer.cpp
+++ b/BedrockServer.cpp
@@ -2278,7 +2278,13 @@ void BedrockServer::handleSocket(Socket&& socket, bool fromControlPort, bool fro
         // This outer loop just runs until the entire socket life cycle is done, meaning it deserializes a command,
         // waits for it to get processed, deserializes another, etc, until the socket gets closed.
         // This whole block is largely duplicated from `postPoll` and modified to work on a single non-blocking socket.
+        bool moreBuffered = false;
         while (socket.state != STCPManager::Socket::CLOSED) {
+            // If the client sent more than the request we just handled, we look at that before waiting for more data. It
+            // can be a complete request, and the client may not send anything else until that has been answered.
+            const bool skipPoll = moreBuffered;
+            moreBuffered = false;
+
             // We are going to call `poll` in a loop with only this one socket as a file descriptor.
             // The reason for this is because it's possible that a client is connected to us, and not sending us any data.
             // It may be waiting for it's own data before it can send us a request, or it may have just forgotten to
@@ -2292,7 +2298,7 @@ void BedrockServer::handleSocket(Socket&& socket, bool fromControlPort, bool fro
 
             // As long as `poll` returns 0 we've timed out, indicating that we're still waiting for something to happen. In
             // that case, we'll loop again *unless* we're shutting down.
-            while (!(pollResult = poll(&pollStruct, 1, 1'000))) {
+            while (!skipPoll && !(pollResult = poll(&pollStruct, 1, 1'000))) {
                 if (_shutdownState != RUNNING) {
                     SINFO("Socket thread exiting because no data and shutting down.");
                     socket.shutdown(Socket::CLOSED);
@@ -2301,7 +2307,7 @@ void BedrockServer::handleSocket(Socket&& socket, bool fromControlPort, bool fro
             }
 
             // If the above loop didn't close the socket due to inactivity at shutdown, let's handle the activity.
-            if (socket.state != STCPManager::Socket::CLOSED) {
+            if (!skipPoll && socket.state != STCPManager::Socket::CLOSED) {
                 if (pollResult < 0) {
                     // This is an exceptional case, we'll just kill the socket if this happens and let the client reconnect.
                     SINFO("Poll failed: " << strerror(errno));
@@ -2422,6 +2428,7 @@ void BedrockServer::handleSocket(Socket&& socket, bool fromControlPort, bool fro
                             commandThread.join();
                         }
                     }
+                    moreBuffered = socket.state == STCPManager::Socket::CONNECTED && !socket.recvBuffer.empty();
                 }
             } else if (socket.state == STCPManager::Socket::SHUTTINGDOWN || socket.state == STCPManager::Socket::CLOSED) {
                 // Do nothing here except prevent the warning below from firing. This loop should exit on the next
-- 
2.43.0


From 6d2a60ca9df78a5a132d481ce1d5c4408d96f3e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:48 +0000
Subject: [PATCH 42/56] fix: a request with a plugin header was answered in the
 protocol of that plugin, or aborted the server

---
 BedrockServer.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/BedrockServer.cpp b/BedrockServer.cpp
index ea35483..ed41b08 100644
--- a/BedrockServer.cpp
+++ b/BedrockServer.cpp
@@ -2341,6 +2341,10 @@ void BedrockServer::handleSocket(Socket&& socket, bool fromControlPort, bool fro
                     if (socket.recvBuffer.startsWithHTTPRequest()) {
                         requestSize = request.deserialize(socket.recvBuffer);
                         socket.recvBuffer.consumeFront(requestSize);
+
+                        // Only requests from a plugin's own port are answered by that plugin. A command that another node
+                        // escalated to us can carry the name of the plugin that will answer it there.
+                        request.erase("plugin");
                     }
 
                     // If this socket was accepted from the public command port, and that's supposed to be closed now, set
-- 
2.43.0


From 1a65c03ec8dbd0cdacdc62c4bcf5bbcd56f56327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:58 +0000
Subject: [PATCH 43/56] fix: a MySQL client was sent a result table without
 columns, which is no valid reply

---
 plugins/MySQL.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/plugins/MySQL.cpp b/plugins/MySQL.cpp
index 3615f3c..7a39bd5 100644
--- a/plugins/MySQL.cpp
+++ b/plugins/MySQL.cpp
@@ -247,6 +247,11 @@ string MySQLPacket::serializeHandshake()
 
 string MySQLPacket::serializeQueryResponse(int sequenceID, const SQResult& result)
 {
+    // A result without columns cannot be sent as a table, the protocol has only OK for that.
+    if (result.headers.empty()) {
+        return serializeOK(sequenceID);
+    }
+
     // Add the response
     string sendBuffer;
 
-- 
2.43.0


From ee30471897cc27b6fd3beaf37f6215fb13f14bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:58 +0000
Subject: [PATCH 44/56] fix: a MySQL client asking for a variable never got its
 value

---
 plugins/MySQL.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/plugins/MySQL.cpp b/plugins/MySQL.cpp
index 7a39bd5..b2ebc2a 100644
--- a/plugins/MySQL.cpp
+++ b/plugins/MySQL.cpp
@@ -408,7 +408,8 @@ void BedrockPlugin_MySQL::onPortRecv(STCPManager::Socket* s, SData& request)
                 string regExp = "^(?:(?:SELECT\\s+)?@@(?:\\w+\\.)?|SHOW VARIABLES LIKE ')(\\w+).*$";
                 vector<string> matches;
                 if (SREMatch(regExp, query, false, false, &matches)) {
-                    string varName = matches[0];
+                    // matches[0] is the whole query, matches[1] the name.
+                    string varName = matches[1];
                     // Loop across and look for it
                     vector<SQResultRow> rows;
                     for (int c = 0; c < MYSQL_NUM_VARIABLES; ++c) {
-- 
2.43.0


From 4932f6a8fba58dffa2c14e6de284421c73267dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:58 +0000
Subject: [PATCH 45/56] fix: of two queries a MySQL client sent together, only
 the last was answered

---
 plugins/MySQL.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/plugins/MySQL.cpp b/plugins/MySQL.cpp
index b2ebc2a..1329bb0 100644
--- a/plugins/MySQL.cpp
+++ b/plugins/MySQL.cpp
@@ -382,7 +382,8 @@ void BedrockPlugin_MySQL::onPortRecv(STCPManager::Socket* s, SData& request)
     // Get any new MySQL requests
     int packetSize = 0;
     MySQLPacket packet;
-    while ((packetSize = packet.deserialize(s->recvBuffer.c_str(), s->recvBuffer.size()))) {
+    // Stop when there is a request, anything behind it is read when the request has been answered.
+    while (request.empty() && (packetSize = packet.deserialize(s->recvBuffer.c_str(), s->recvBuffer.size()))) {
         // Got a packet, process it
         SDEBUG("Received command #" << packet.payload[0] << ", sequenceID #" << (int) packet.sequenceID << " : '" << SToHex(packet.serialize()) << "'");
         s->recvBuffer.consumeFront(packetSize);
-- 
2.43.0


From 621866a394b274ccf6fd565db189b7045f588bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:36 +0000
Subject: [PATCH 46/56] fix: the number of a MySQL packet was lost while its
 query ran, unless it was 0

---
 plugins/MySQL.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/plugins/MySQL.cpp b/plugins/MySQL.cpp
index 1329bb0..53aff48 100644
--- a/plugins/MySQL.cpp
+++ b/plugins/MySQL.cpp
@@ -460,7 +460,7 @@ void BedrockPlugin_MySQL::onPortRecv(STCPManager::Socket* s, SData& request)
                     // Transform this into an internal request
                     request.methodLine = "Query";
                     request["ReadDBFlags"] = "-json";
-                    request["sequenceID"] = SToStr(packet.sequenceID);
+                    request["sequenceID"] = to_string(packet.sequenceID);
                     request["query"] =
                         "SELECT "
                         "name as Tables_in_main, "
@@ -483,7 +483,7 @@ void BedrockPlugin_MySQL::onPortRecv(STCPManager::Socket* s, SData& request)
                     // Transform this into an internal request
                     request.methodLine = "Query";
                     request["ReadDBFlags"] = "-json";
-                    request["sequenceID"] = SToStr(packet.sequenceID);
+                    request["sequenceID"] = to_string(packet.sequenceID);
                     request["query"] =
                         "SELECT "
                         "name as TABLE_NAME, "
@@ -500,7 +500,7 @@ void BedrockPlugin_MySQL::onPortRecv(STCPManager::Socket* s, SData& request)
                     // Transform this into an internal request to get table names from sqlite_master
                     request.methodLine = "Query";
                     request["ReadDBFlags"] = "-json";
-                    request["sequenceID"] = SToStr(packet.sequenceID);
+                    request["sequenceID"] = to_string(packet.sequenceID);
                     request["query"] =
                         "SELECT name as name "
                         "FROM sqlite_master "
@@ -513,7 +513,7 @@ void BedrockPlugin_MySQL::onPortRecv(STCPManager::Socket* s, SData& request)
                     // Transform this into an internal request to get view names from sqlite_master
                     request.methodLine = "Query";
                     request["ReadDBFlags"] = "-json";
-                    request["sequenceID"] = SToStr(packet.sequenceID);
+                    request["sequenceID"] = to_string(packet.sequenceID);
                     request["query"] =
                         "SELECT name as name "
                         "FROM sqlite_master "
@@ -532,7 +532,7 @@ void BedrockPlugin_MySQL::onPortRecv(STCPManager::Socket* s, SData& request)
                         // Transform this into an internal request to get column info using PRAGMA table_info
                         request.methodLine = "Query";
                         request["ReadDBFlags"] = "-json";
-                        request["sequenceID"] = SToStr(packet.sequenceID);
+                        request["sequenceID"] = to_string(packet.sequenceID);
                         request["query"] =
                             "SELECT "
                             + SQ(tableName) + " as table_name, "
@@ -612,7 +612,7 @@ void BedrockPlugin_MySQL::onPortRecv(STCPManager::Socket* s, SData& request)
                         // Transform this into an internal request to get primary key info
                         request.methodLine = "Query";
                         request["ReadDBFlags"] = "-json";
-                        request["sequenceID"] = SToStr(packet.sequenceID);
+                        request["sequenceID"] = to_string(packet.sequenceID);
                         request["query"] =
                             "SELECT "
                             + SQ(tableName) + " as Table_name, "
@@ -650,7 +650,7 @@ void BedrockPlugin_MySQL::onPortRecv(STCPManager::Socket* s, SData& request)
                         // Transform this into an internal request to get foreign key info using PRAGMA foreign_key_list
                         request.methodLine = "Query";
                         request["ReadDBFlags"] = "-json";
-                        request["sequenceID"] = SToStr(packet.sequenceID);
+                        request["sequenceID"] = to_string(packet.sequenceID);
                         request["query"] =
                             "SELECT "
                             "'fk_' || \"table\" || '_' || \"from\" as constraint_name, "
@@ -675,7 +675,7 @@ void BedrockPlugin_MySQL::onPortRecv(STCPManager::Socket* s, SData& request)
                     // Transform this into an internal request
                     request.methodLine = "Query";
                     request["ReadDBFlags"] = "-json";
-                    request["sequenceID"] = SToStr(packet.sequenceID);
+                    request["sequenceID"] = to_string(packet.sequenceID);
                     request["query"] = query;
                 }
                 break;
-- 
2.43.0


From c2758e855deb6738b7926bb4d0dd3af4fddbd844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:45 +0000
Subject: [PATCH 47/56] fix: a row of 16 MB or more was sent to a MySQL client
 as something unreadable

---
 plugins/MySQL.cpp | 26 +++++++++++++++++++-------
 plugins/MySQL.h   |  3 +++
 2 files changed, 22 insertions(+), 7 deletions(-)

diff --git a/plugins/MySQL.cpp b/plugins/MySQL.cpp
index 53aff48..c2e4544 100644
--- a/plugins/MySQL.cpp
+++ b/plugins/MySQL.cpp
@@ -133,13 +133,22 @@ MySQLPacket::MySQLPacket()
 
 string MySQLPacket::serialize()
 {
-    // Wrap in a 3-byte header
-    uint32_t payloadLength = payload.size();
-    string header;
-    header.resize(4);
-    memcpy(&header[0], &payloadLength, 3);
-    header[3] = sequenceID;
-    return header + payload;
+    // Wrap in a 3-byte length and a 1-byte sequence number. What doesn't fit in a packet is continued in the next one,
+    // and a packet that's full is always followed by another one, even if that's empty.
+    string out;
+    size_t offset = 0;
+    uint32_t payloadLength = 0;
+    do {
+        payloadLength = min(payload.size() - offset, MAX_PAYLOAD);
+        string header;
+        header.resize(4);
+        memcpy(&header[0], &payloadLength, 3);
+        header[3] = sequenceID + offset / MAX_PAYLOAD;
+        out += header;
+        out.append(payload, offset, payloadLength);
+        offset += payloadLength;
+    } while (payloadLength == MAX_PAYLOAD);
+    return out;
 }
 
 int MySQLPacket::deserialize(const char* packet, const size_t size)
@@ -316,6 +325,9 @@ string MySQLPacket::serializeQueryResponse(int sequenceID, const SQResult& resul
         }
         SAppend(rowPacket.payload, "\xFE", 1); // EOF
         sendBuffer += rowPacket.serialize();
+
+        // A row that takes several packets takes several sequence numbers as well.
+        sequenceID += rowPacket.payload.size() / MySQLPacket::MAX_PAYLOAD;
     }
 
     // Finish with another EOF packet
diff --git a/plugins/MySQL.h b/plugins/MySQL.h
index dac29fb..277c678 100644
--- a/plugins/MySQL.h
+++ b/plugins/MySQL.h
@@ -95,6 +95,9 @@ class MySQLPacket {
 public:
     MySQLPacket();
 
+    // The length of the longest payload of a single packet.
+    static constexpr size_t MAX_PAYLOAD = 0xFFFFFF;
+
     // Attributes
     uint8_t sequenceID;
     string payload;
-- 
2.43.0


From 225cba189f1c34778ecdffcf43c5ac3969e8d680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:45 +0000
Subject: [PATCH 48/56] fix: a write that finished too late was not recorded in
 the journal if the caller committed anyway

---
 sqlitecluster/SQLite.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/sqlitecluster/SQLite.cpp b/sqlitecluster/SQLite.cpp
index ca50c53..db1b10e 100644
--- a/sqlitecluster/SQLite.cpp
+++ b/sqlitecluster/SQLite.cpp
@@ -942,7 +942,15 @@ bool SQLite::_writeIdempotent(const string& query, const map<string, Parameter>&
     }
 
     _writeElapsed += STimeNow() - before;
-    _checkInterruptErrors("SQLite::write"s);
+    try {
+        _checkInterruptErrors("SQLite::write"s);
+    } catch (...) {
+        // A query that succeeded, but too late, remains in effect as well.
+        if (!resultCode) {
+            _uncommittedQuery += expandedSql;
+        }
+        throw;
+    }
     if (resultCode) {
         return false;
     }
-- 
2.43.0


From 04ab4770cef1e248f8d6c468cc6d13a669024a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:38 +0000
Subject: [PATCH 49/56] fix: statements executed before a rewritten one in the
 same query were missing from the journal

---
 sqlitecluster/SQLite.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/sqlitecluster/SQLite.cpp b/sqlitecluster/SQLite.cpp
index db1b10e..91915bd 100644
--- a/sqlitecluster/SQLite.cpp
+++ b/sqlitecluster/SQLite.cpp
@@ -913,13 +913,14 @@ bool SQLite::_writeIdempotent(const string& query, const map<string, Parameter>&
             resultCode = SQuery(_db, query, result, 2'000'000, true, nullptr, params, &expandedSql);
             if (resultCode == SQLITE_AUTH) {
                 // Run re-written query. The rewrite is expected to preserve placeholder names so the
-                // same bound params bind to it as well. Discard the failed original's partial expansion
-                // and capture the rewritten form instead.
+                // same bound params bind to it as well. Any statements of the original that ran before
+                // the denied one remain in effect, so they stay in front of the rewritten form.
                 _currentlyRunningRewritten = true;
                 SASSERT(SEndsWith(_rewrittenQuery, ";"));
-                expandedSql.clear();
+                string rewrittenExpandedSql;
                 SQResult rewrittenResult;
-                resultCode = SQuery(_db, _rewrittenQuery, rewrittenResult, 2'000'000, true, nullptr, params, &expandedSql);
+                resultCode = SQuery(_db, _rewrittenQuery, rewrittenResult, 2'000'000, true, nullptr, params, &rewrittenExpandedSql);
+                expandedSql += rewrittenExpandedSql;
                 _currentlyRunningRewritten = false;
             }
         } else {
-- 
2.43.0


From 4aa3c81f1b070d5f278917c62e163815d5470a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:28 +0000
Subject: [PATCH 50/56] fix: a write interrupted just as it had finished
 remained in the transaction without being recorded

---
 sqlitecluster/SQLite.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sqlitecluster/SQLite.cpp b/sqlitecluster/SQLite.cpp
index 91915bd..582b040 100644
--- a/sqlitecluster/SQLite.cpp
+++ b/sqlitecluster/SQLite.cpp
@@ -937,6 +937,12 @@ bool SQLite::_writeIdempotent(const string& query, const map<string, Parameter>&
         _uncommittedQuery += expandedSql;
     }
 
+    // An interrupted write rolls the whole transaction back, except when the interruption comes just as the statement has
+    // finished. Then it remains in effect, although it's reported as interrupted. Treat both cases the same.
+    if (resultCode == SQLITE_INTERRUPT && !sqlite3_get_autocommit(_db)) {
+        SASSERT(!SQuery(_db, "ROLLBACK"));
+    }
+
     // If we got a constraints error, throw that.
     if (resultCode == SQLITE_CONSTRAINT) {
         throw constraint_error();
-- 
2.43.0


From 4f83e2e9226b502b2e15fac6842cc9a4fed6eb13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:57:15 +0000
Subject: [PATCH 51/56] fix: answer the foreign key query of MySQL clients
 however they spell information_schema

---
 plugins/MySQL.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plugins/MySQL.cpp b/plugins/MySQL.cpp
index c2e4544..6c5c3a1 100644
--- a/plugins/MySQL.cpp
+++ b/plugins/MySQL.cpp
@@ -564,7 +564,7 @@ void BedrockPlugin_MySQL::onPortRecv(STCPManager::Socket* s, SData& request)
                         SQResult result;
                         s->send(MySQLPacket::serializeERR(packet.sequenceID, 1046, "Could not extract table name from columns query"));
                     }
-                } else if (SContains(query, "information_schema")) {
+                } else if (SContains(query, "information_schema") && !MySQLUtils::isForeignKeyConstraintQuery(query)) {
                     // Return an empty set for other information_schema queries
                     SINFO("Responding with empty result for information_schema query");
                     SQResult result;
-- 
2.43.0


From 73e46e584aafee316521fe3672b34f92d36ce074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:18:52 +0000
Subject: [PATCH 52/56] fix: answer BlockWrites when no database is open
 instead of waiting forever

---
 BedrockServer.cpp | 36 ++++++++++++++++++------------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/BedrockServer.cpp b/BedrockServer.cpp
index ed41b08..8541dfd 100644
--- a/BedrockServer.cpp
+++ b/BedrockServer.cpp
@@ -1812,28 +1812,28 @@ void BedrockServer::_control(unique_ptr<BedrockCommand>& command)
     } else if (SIEquals(command->request.methodLine, "BlockWrites")) {
         atomic<bool> locked(false);
         lock_guard lock(__quiesceLock);
+        shared_ptr<SQLitePool> dbPoolCopy = _dbPool;
         if (__quiesceThread) {
             response.methodLine = "400 Already Blocked";
+        } else if (!dbPoolCopy) {
+            response.methodLine = "500 No Database";
         } else {
-            __quiesceThread = new thread([&]() {
-                shared_ptr<SQLitePool> dbPoolCopy = _dbPool;
-                if (dbPoolCopy) {
-                    SQLiteScopedHandle dbScope(*_dbPool, _dbPool->getIndex());
-                    SQLite& db = dbScope.db();
-                    SINFO("[quiesce] Exclusive locking DB");
-                    db.exclusiveLockDB();
-                    SINFO("[quiesce] Exclusive locked DB");
-                    locked = true;
-                    while (true) {
-                        if (__quiesceShouldUnlock) {
-                            db.exclusiveUnlockDB();
-                            __quiesceShouldUnlock = false;
-                            return;
-                        }
-
-                        // Wait 10ms for the next check.
-                        usleep(10'000);
+            __quiesceThread = new thread([&, dbPoolCopy]() {
+                SQLiteScopedHandle dbScope(*dbPoolCopy, dbPoolCopy->getIndex());
+                SQLite& db = dbScope.db();
+                SINFO("[quiesce] Exclusive locking DB");
+                db.exclusiveLockDB();
+                SINFO("[quiesce] Exclusive locked DB");
+                locked = true;
+                while (true) {
+                    if (__quiesceShouldUnlock) {
+                        db.exclusiveUnlockDB();
+                        __quiesceShouldUnlock = false;
+                        return;
                     }
+
+                    // Wait 10ms for the next check.
+                    usleep(10'000);
                 }
             });
 
-- 
2.43.0


From fec2fe44e740b7a1c6a07b7a3d3d83aacb84cf7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:53:41 +0000
Subject: [PATCH 53/56] fix: answer .schema without a column title, as the
 sqlite3 tool does

---
 plugins/DB.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/plugins/DB.cpp b/plugins/DB.cpp
index 4b97552..6de91c9 100644
--- a/plugins/DB.cpp
+++ b/plugins/DB.cpp
@@ -103,12 +103,12 @@ bool BedrockDBCommand::peek(SQLite& db)
     if (isSchemaTable) {
         SINFO("Re-writing schema query for " + matches[1]);
         query = "SELECT sql FROM sqlite_schema WHERE tbl_name LIKE " + SQ(matches[1]) + ";";
-        wrapper.spec.bTitles = 0;
+        wrapper.spec.bTitles = QRF_SW_Off;
         wrapper.spec.eStyle = QRF_STYLE_Column;
     } else if (isSchemaAll) {
         SINFO("Re-writing schema query for all tables");
         query = "SELECT sql FROM sqlite_schema WHERE sql IS NOT NULL ORDER BY rowid;";
-        wrapper.spec.bTitles = 0;
+        wrapper.spec.bTitles = QRF_SW_Off;
         wrapper.spec.eStyle = QRF_STYLE_Column;
     }
 
-- 
2.43.0


From 51663c8c06dfd81d0bb9500cbd0705ec08cafda7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:31:47 +0000
Subject: [PATCH 54/56] fix: answer a command which can't be serialized for
 another node with an error instead of terminating

---
 sqlitecluster/SQLiteClusterMessenger.cpp | 30 +++++++++++++++---------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/sqlitecluster/SQLiteClusterMessenger.cpp b/sqlitecluster/SQLiteClusterMessenger.cpp
index b3c492a..801a58b 100644
--- a/sqlitecluster/SQLiteClusterMessenger.cpp
+++ b/sqlitecluster/SQLiteClusterMessenger.cpp
@@ -149,18 +149,26 @@ bool SQLiteClusterMessenger::_sendCommandOnSocket(SHTTPSManager::Socket& socket,
     }
     request["timeout"] = to_string((command.timeout() - now) / 1000);
 
-    // If the command has https requests, we serialize them to escalate. In this case we also check if the command has data
-    // that needs serialization, and if so, we serialize that as well.
-    if (command.httpsRequests.size()) {
-        request["httpsRequests"] = command.serializeHTTPSRequests();
-    }
-    string serializedData = command.serializeData();
-    if (serializedData.size()) {
-        request["serializedData"] = move(serializedData);
-    }
+    SFastBuffer buf;
+    try {
+        // If the command has https requests, we serialize them to escalate. In this case we also check if the command has data
+        // that needs serialization, and if so, we serialize that as well.
+        if (command.httpsRequests.size()) {
+            request["httpsRequests"] = command.serializeHTTPSRequests();
+        }
+        string serializedData = command.serializeData();
+        if (serializedData.size()) {
+            request["serializedData"] = move(serializedData);
+        }
 
-    request.nameValueMap["ID"] = command.id;
-    SFastBuffer buf(request.serialize());
+        request.nameValueMap["ID"] = command.id;
+        buf = request.serialize();
+    } catch (const SException& e) {
+        // There is no way to send this (i.e., there are control characters in its methodLine), so trying again won't help.
+        SWARN("[HTTPESC] Command can't be serialized: " << e.what());
+        setErrorResponse(command);
+        return false;
+    }
 
     // We only have one FD to poll.
     pollfd fdspec = {socket.s, POLLOUT, 0};
-- 
2.43.0


From 6f4980b9e86b83c320190aa099f36707f2495fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:31:47 +0000
Subject: [PATCH 55/56] fix: don't make up a response for an HTTPS request
 without one when escalating it

---
 BedrockCommand.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/BedrockCommand.cpp b/BedrockCommand.cpp
index aa5e4e5..1edad14 100644
--- a/BedrockCommand.cpp
+++ b/BedrockCommand.cpp
@@ -468,8 +468,10 @@ string BedrockCommand::serializeHTTPSRequests()
         data["finished"] = to_string(httpsRequest->finished);
         data["timeoutAt"] = to_string(httpsRequest->timeoutAt);
         data["response"] = to_string(httpsRequest->response);
-        data["fullRequest"] = SEncodeBase64(httpsRequest->fullRequest.serialize());
-        data["fullResponse"] = SEncodeBase64(httpsRequest->fullResponse.serialize());
+
+        // A request that failed might have no response, in that case there's nothing to encode.
+        data["fullRequest"] = httpsRequest->fullRequest.empty() ? "" : SEncodeBase64(httpsRequest->fullRequest.serialize());
+        data["fullResponse"] = httpsRequest->fullResponse.empty() ? "" : SEncodeBase64(httpsRequest->fullResponse.serialize());
         requests.push_back(SComposeJSONObject(data));
     }
 
-- 
2.43.0


From 8ee486708ff645be323e010688fe041141b8578e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:32:46 +0000
Subject: [PATCH 56/56] fix: ignore a CRASH_COMMAND naming a command which
 can't be serialized instead of terminating

---
 BedrockServer.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/BedrockServer.cpp b/BedrockServer.cpp
index 8541dfd..cfe9edf 100644
--- a/BedrockServer.cpp
+++ b/BedrockServer.cpp
@@ -1739,6 +1739,15 @@ void BedrockServer::_control(unique_ptr<BedrockCommand>& command)
             return;
         }
 
+        // A node that joins later is sent this command as well, so only take commands we're able to send.
+        string serializedRequest;
+        try {
+            serializedRequest = request.serialize();
+        } catch (const SException& e) {
+            SWARN("Got CRASH_COMMAND that can't be serialized: " << e.what() << ". Nothing to blacklist.");
+            return;
+        }
+
         // Take a unique lock so nobody else can read from this table while we update it.
         unique_lock<decltype(_crashCommandMutex)> lock(_crashCommandMutex);
 
@@ -1748,7 +1757,7 @@ void BedrockServer::_control(unique_ptr<BedrockCommand>& command)
         for (const auto& s : _crashCommands) {
             totalCount += s.second.size();
         }
-        SALERT("Blacklisting command (now have " << totalCount << " blacklisted commands): " << request.serialize());
+        SALERT("Blacklisting command (now have " << totalCount << " blacklisted commands): " << serializedRequest);
     } else if (SIEquals(command->request.methodLine, "ClearBlockingQueue")) {
         auto commands = _blockingCommandQueue.getAll();
         list<string> methodLines;
-- 
2.43.0

