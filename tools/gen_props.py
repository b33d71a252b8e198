#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (kept as code so that entries stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "state": [{"name": n, "meaning": m, "where": w} for n, m, w in (state or [])], "observe_at": observe or [], "hook_needed": None}})

# ---------------------------------------------------------------- concurrency structures
prop("C01", "Log buffer delivers every accepted record exactly once and in order",
     "Every record a producer is told was accepted by the lock-free log buffer is delivered to the consumer exactly once, undamaged and in the producer's order, and before the shutdown marker when it was accepted before shutdown. A record is refused only if the buffer was full at some moment of the call, and a refused record is never delivered. A waiting consumer always wakes up for a record or for shutdown. The log sender passes every accepted record on exactly once, over its connection or, when that cannot be done, to the system log, whatever its connection does and whenever it is shut down.",
     ["schedules"], "every interleaving of several producers, one consumer and shutdown on small capacities, including index wrap-around",
     "SRingBufferTest runs free threads once; it cannot hold a producer between reserving a slot and publishing it while the buffer wraps.",
     ["libstuff/SRingBuffer.h", "libstuff/SFluentdLogger.cpp"], [("slot reservation by compare-exchange, per-slot state published with release/acquire", "SRingBuffer::push/pop/wait/shutdown")])
prop("C02", "Thread-safe work queue loses nothing and never lets a poller sleep on work",
     "Items pushed from any threads on the poll-able queue are handed out exactly once and in push order per producer, and size/empty/front agree with some sequential order of the operations. A thread that polls the queue is always woken while an unconsumed push notification exists, and stops being woken once the notifications have been drained.",
     ["schedules"], "every interleaving of pushers, poppers and pollers up to the preemption bound",
     "No unit test drives this queue concurrently with poll.",
     ["libstuff/SSynchronizedQueue.h"], [("recursive mutex plus self-pipe", "SSynchronizedQueue::push/pop/postPoll")])
prop("C03", "Command queue hands out each command once, timed-out first, then by schedule",
     "Every command put in the command queue is returned to exactly one caller: an expired command first (the one that expired earliest), otherwise the due command with the earliest scheduled time, and never one whose scheduled time is in the future unless it has expired. A caller waiting for work is woken when due work is pushed and otherwise gets a timeout no earlier than it asked for. Abandoning far-future commands removes exactly those scheduled beyond the limit and leaves the queue consistent.",
     ["schedules", "inputs", "histories"], "every sequence of push/get/abandon/clear with small time and timeout domains, and every interleaving of concurrent pushers and getters",
     "The timing of expiry relative to scheduling and concurrent wake-ups are not exercised by the tests.",
     ["BedrockCommandQueue.cpp", "BedrockCommandQueue.h"], [("two ordered indexes kept in step under one mutex", "BedrockCommandQueue::_dequeue/push/abandonFutureCommands")])
prop("C04", "Blocking-queue rate limiter blocks exactly the offenders for the block time",
     "After each completed command the limiter blocks an identifier or command name for the configured duration exactly when its time inside the sliding window (with partial credit for commands reaching out of the window) exceeds its threshold; nothing else is ever blocked, a threshold of zero disables that dimension, and empty identifiers are never limited. While blocked, new commands of that identifier or name are refused and already queued ones are answered with the rate-limit error instead of being run; when the block ends or limits are cleared they run again. Every command accepted by the queue is still handed out exactly once.",
     ["histories", "inputs"], "every sequence of finish/push/get/clear/time-step/threshold operations up to a depth, for two identifiers and two command names",
     "Unit tests sample ten single-scenario histories; combinations of expiry, partial credit, both dimensions and clearing are not covered.",
     ["BedrockBlockingCommandQueue.cpp", "BedrockBlockingCommandQueue.h"], [("per-key sample window and block deadline", "BedrockBlockingCommandQueue::_recordAndCheck/_isBlocked/_dequeue")])
prop("C05", "Conflict locks are exclusive per page, independent across pages, always freed",
     "At most one thread at a time holds the conflict lock of a given page, different pages never wait for each other, and identifier zero never waits. Whatever the order of acquisitions, releases and pruning of old locks, no thread is left waiting for a lock nobody holds, and a lock in use is never destroyed.",
     ["schedules", "histories"], "every interleaving of two or three threads locking up to three pages with the lock table at and around its pruning limit",
     "Nothing in the unit tests touches these locks.",
     ["ConflictLockGuard.cpp"], [("reference-counted mutex table with LRU pruning", "ConflictLockGuard::ConflictLockGuard")])
prop("C06", "Database handles are never shared and never lost",
     "The database handle pool never gives the same handle to two holders at once, never has more handles than its limit allows, and a thread that waits for a handle gets one as soon as one is returned. Releasing a handle, explicitly or by scope exit or both, returns it exactly once.",
     ["schedules"], "every interleaving of two to four threads acquiring and releasing handles from pools of one to three handles",
     "No unit test uses the pool from several threads.",
     ["sqlitecluster/SQLitePool.cpp"], [("index sets under a mutex and a condition variable", "SQLitePool::getIndex/returnToPool")])
# ---------------------------------------------------------------- storage
prop("S01", "Committed history is a gapless hash chain that always matches the data",
     "At every instant visible to another connection or to recovery after a crash, the journal holds consecutive commit numbers with no gap or duplicate across all of its tables, each entry's hash is the SHA1 of the previous hash and its query, and executing the journaled queries in order on an empty database yields exactly the stored data. A commit that is reported successful is in the journal exactly once, and one that failed or was rolled back is not in it at all.",
     ["histories", "crash_points", "fault_sequences"], "every sequence of begin/write/prepare/commit/rollback operations over several handles up to a depth, with every durable commit treated as a crash point",
     "The unit tests that run offline never open a database; the journal is only looked at in passing by integration tests.",
     ["sqlitecluster/SQLite.cpp"], [("journal row written in the same SQLite transaction as the data, under the commit lock", "SQLite::prepare/commit/rollback")],
     [("commit count and last hash", "head of the chain shared by all handles", "SQLite::SharedData")])
prop("S02", "Concurrent transactions are serializable in journal order",
     "Whatever the interleaving of transactions on different handles, each committed transaction's reads and writes are those of a serial execution in commit-number order. A transaction that conflicts with one committed since it began is refused with a conflict result, leaves no trace, and can be retried on the same handle with success.",
     ["schedules", "histories"], "every interleaving of two or three shared/exclusive transactions with one or two statements each on colliding and non-colliding data",
     "A schedule of two half-finished transactions cannot be forced by the unit tests.",
     ["sqlitecluster/SQLite.cpp"], [("commit lock, snapshot conflict detection by SQLite, hash computed under the lock", "SQLite::prepare/commit")])
prop("S03", "A failed or abandoned transaction leaves no trace and a usable handle",
     "After any failed query, timeout, interruption, denied statement, exception, refused commit or rollback at any point of a transaction, the database content is what it was before the transaction, no lock stays held, and the same handle (and every other one) can immediately run another transaction to success. Commits refused because committing is disabled behave the same way, and disabling commits never lets one through afterwards.",
     ["fault_sequences", "histories"], "a fault injected at every step of every short transaction, followed by a full transaction on the same and on another handle",
     "Error paths inside a transaction need injected faults and timing.",
     ["sqlitecluster/SQLite.cpp"], [("rollback/unlock bookkeeping and interrupt checks", "SQLite::rollback/_writeIdempotent/commit/setCommitEnabled")])
prop("S04", "The query cache never changes an answer",
     "Within a transaction, a read returns exactly what the same query would return without result caching, whatever sequence of reads, writes and transaction boundaries preceded it and whatever other handles committed in between. Queries whose value may change without a write (time, randomness, change counters) are never answered from the cache.",
     ["histories", "inputs"], "every sequence of reads and writes up to a depth from a query alphabet containing volatile functions, bound parameters and look-alike queries, on two handles",
     "No unit test compares cached with uncached answers.",
     ["sqlitecluster/SQLite.cpp"], [("per-transaction result cache cleared on write/begin/end; authorizer marks volatile functions", "SQLite::read/_authorize")])
prop("S05", "Committed transactions are handed to replication once, in commit order",
     "Every committed transaction that is to be replicated is handed over exactly once with its commit number, query and hash intact, in increasing commit number without gaps, even when several handles commit concurrently with the sender collecting. Nothing that was rolled back or refused is ever handed over.",
     ["schedules", "histories"], "every interleaving of committing threads and the collecting thread, and every sequence of commits and rollbacks up to a depth",
     "Needs a commit on one thread between two steps of the collector on another.",
     ["sqlitecluster/SQLite.cpp"], [("shared committed-transaction map", "SQLite::popCommittedTransactions, SharedData::commitTransactionInfo")])
prop("S06", "Any range of history is fetched complete, in order; trimming keeps the tail",
     "Asking for the commits between two numbers returns every retained commit of that range exactly once in order with its original query and hash, regardless of how many journal tables the commits are spread over. Trimming old history only ever removes the oldest entries, never below the configured amount, never an entry within the retained window, and reopening the database finds the same head commit number and hash.",
     ["histories", "inputs", "configurations"], "every history up to a depth over one to three journal tables, every range, and every reopen point",
     "The journal is spread over tables by thread timing; tests use whatever spread occurs.",
     ["sqlitecluster/SQLite.cpp"], [("UNION over the journal tables, per-handle journal assignment and trimming", "SQLite::getCommits/getCommit/commit")])
prop("S07", "Read-only and restricted contexts cannot write, whatever the SQL",
     "In the read-only phases of a command no query text, and outside of a transaction no write, changes the database or the state of the handle. Inside of a transaction no query text can commit or roll back a part of it. What a committed transaction recorded in the journal (with bound parameters filled in) gives the same data when another node executes it, whatever that node's clock, random numbers and session counters: a write using random numbers, session counters, the version or the current time by keyword is refused wherever the value occurs (expressions, subqueries, views, triggers, several statements), while deterministic writes, including date functions of constants, are accepted. When a column whitelist is set, nothing is written and no value of a non-whitelisted column can be observed through any query form. (Arguments like 'now' of date functions, and temporary objects, are the caller's responsibility.)",
     ["inputs", "histories"], "every statement built from a grammar of statement kinds, functions and positions up to a size, in read, write and whitelisted contexts",
     "Tests try a few queries; the guarantee is over query text.",
     ["sqlitecluster/SQLite.cpp", "libstuff/libstuff.cpp"], [("SQLite authorizer callback, query_only, journaled expanded SQL", "SQLite::_authorize/read/_writeIdempotent, SQuery")])
# ---------------------------------------------------------------- replication
prop("R01", "Never two leaders at once in a cluster",
     "In a cluster whose nodes have distinct priorities, a node starts leading only after a strict majority of the configured voting nodes (nodes of priority zero never count, not even while they start or stop, and never stand up or lead), itself included, approved this very attempt over connections that are still open. A leader that has lost its connections to a majority of the voting nodes stops leading, and only a leader commits. As long as no connection breaks and no node crashes or stalls, no two nodes ever lead at the same time; after such faults two nodes that are connected to each other never go on leading once the messages on their way have arrived.",
     ["schedules", "fault_sequences", "configurations"], "every message-delivery order, disconnection, crash and restart up to a deviation bound for clusters of two to four nodes",
     "Needs specific message orders between nodes; the tests run whole processes with natural timing and are not run offline.",
     ["sqlitecluster/SQLiteNode.cpp", "sqlitecluster/SQLitePeer.cpp"], [("standup approval votes and quorum counting", "SQLiteNode::update/_onMESSAGE")])
prop("R02", "Every node's history is a prefix of its leader's; forks are excluded",
     "Committed history is append-only, every entry's hash continues the chain before it, and the data is exactly what its entries produce. Every new entry was first committed by a node that was leading, and a follower's history is at every moment the beginning of its leader's, under any message timing, reconnection, leader change or concurrent commits of worker threads. A node considers another forked only if their histories really differ, and ends itself only when really forked from at least half of the voting nodes, and then does so once it is connected to that many whose histories are no longer than its own; so forked nodes in the minority never stop the others. Without broken connections and crashes no commit is ever lost, also when leaders stop or are replaced, and a leader's idea of whether a majority follows it is right once nothing is on its way.",
     ["schedules", "fault_sequences", "histories"], "every message order, disconnection, crash and restart up to a deviation bound, from equal, behind, ahead and forked starting histories",
     "Forks and partial transfers need crafted starting states and precise timing.",
     ["sqlitecluster/SQLiteNode.cpp"], [("hash check on login, synchronization and replication; ordered commit hand-over between replication threads", "SQLiteNode::_replicate/_recvSynchronize/_onMESSAGE")])
prop("R03", "A cluster with a majority always settles on the best leader and catches up",
     "If from some moment on no faults happen, and a majority of voting nodes with compatible histories are up, then from any reachable state (after any crashes, stalls, broken or delayed connections, stops, restarts and changes of priority) the cluster settles, within bounded time, on the running node with the highest priority as leader; it stays so; every other running node with a compatible history follows it and ends up with exactly the same history, and a new commit at the leader reaches all of them at once. A node that was told to stop does end.",
     ["schedules", "fault_sequences", "configurations"], "for every explored execution, faults stop and the cluster must settle; over starting histories, priorities, permafollowers and crash/restart of each node",
     "Liveness after arbitrary interleavings is out of reach of fixed-timing tests.",
     ["sqlitecluster/SQLiteNode.cpp"], [("node state machine, synchronization and stand-down", "SQLiteNode::update/_updateSyncPeer/beginShutdown")])
# ---------------------------------------------------------------- plugins and server
prop("J01", "A job is given to at most one worker at a time",
     "A job handed out by a get-job request is not handed out again until it has been finished, failed, retried, cancelled, deleted or its parent/child relations legitimately requeue it; with a retry interval, not before that interval has passed or its next repeat is due, whichever is first. Jobs are handed out only when due, matching the requested name or pattern, by priority and then by due time, requests that are not mocked never see mocked jobs, and a job handed out ten times without having been finished is failed instead.",
     ["histories", "inputs"], "every sequence of job commands up to a depth over a small set of jobs, with time steps, compared with a reference model after every command",
     "Job tests need a running server and sample single histories.",
     ["plugins/Jobs.cpp"], [("state transitions in one SQL transaction", "BedrockJobsCommand::process")])
prop("J02", "Job life cycle: states change only by legal transitions and nothing is lost",
     "Each job command moves jobs only along the documented state machine (queued, running, run-queued, paused, finished, failed, cancelled) and refuses anything else without side effects; a one-shot finished job disappears, a repeating job is rescheduled according to its base (scheduled, started or finished time) and modifiers, and the retry counter, data and priority reported by a query are those last written. Creating a unique job never creates a second one of the same name, and updates its data instead.",
     ["histories", "inputs"], "every sequence of job commands up to a depth over a small set of jobs, with time steps, compared with a reference model after every command",
     "As J01; the order of commands across parents, children, repeat and retry is what matters.",
     ["plugins/Jobs.cpp", "docs/jobs.md"], [("per-command validation and SQL updates", "BedrockJobsCommand::peek/process, _constructNextRunDATETIME")])
prop("J03", "Parent and child jobs wait for each other correctly",
     "While a parent job has unfinished children it stays paused, its children run only after it has been finished or paused by its worker, and it becomes runnable exactly when the last child has finished or been cancelled, at which point it is given the results of its finished and cancelled children. Children can be created only by a running or paused parent; cancelling or deleting never leaves a paused parent waiting for nothing or requeues a parent that is running (a failed child does not resume its parent until it is cancelled, deleted or requeued and finished).",
     ["histories"], "every sequence of job commands up to a depth on a family of one parent and two children",
     "As J01.",
     ["plugins/Jobs.cpp"], [("child/parent updates on finish, cancel, delete", "BedrockJobsCommand::process")])
prop("D01", "The cache returns the newest value and respects its size on every node",
     "A cache read returns the most recently written live value of a name matching the pattern, and never a value that was overwritten or invalidated; a write that does not fit is refused, and after every write the recorded size equals the total of the live entries and stays within the configured maximum by evicting no more than needed, least recently used entries first (use since the node started and in completed commands; names not used since are evicted last, in any order). The effect of a cache command on the database is the same whichever database handle or node executes it.",
     ["histories", "configurations"], "every sequence of cache commands up to a depth over a few names, sizes and two handles, plus replay of the journal on a fresh handle",
     "Needs command histories across handles; no unit test touches it offline.",
     ["plugins/Cache.cpp"], [("triggers keep the size, LRU map evicts", "BedrockCacheCommand::process, BedrockPlugin_Cache::upgradeDatabase, LRUMap")])
prop("D02", "The SQL command runs what was asked, safely, or nothing",
     "A query command that only reads changes nothing, and returns the rows SQLite gives for it (of a single statement) in the requested format with values intact; one that writes is executed in one transaction whose effect is that of its SQL. A query in which any statement is an UPDATE or DELETE without a WHERE clause of its own is refused unless explicitly overridden, a query that does not end in a semicolon or has a statement that cannot be prepared is refused, any error leaves the database unchanged and reports an error, a mocked query changes no data, `.schema` answers with the SQL of the schema's objects and nothing else, and the handle serves the next query normally.",
     ["inputs", "histories"], "every query from a small grammar in every output format, mode and header combination",
     "The query command is only tested by integration tests with a few statements.",
     ["plugins/DB.cpp", "libstuff/SQResultFormatter.cpp"], [("read/write detection by preparing, write guard, formatter", "BedrockDBCommand::peek/process")])
prop("B01", "A command runs to completion once: one answer, at most one commit",
     "Whatever mix of conflicts, retries, exceptions, failed writes, departing clients, timeouts, changes of the node's role and failing connections to the leader occurs, a request is answered exactly once and its writes are applied at most once in the cluster. A success answer means that they are committed, in one commit here or at the leader, and is the answer of the attempt that was committed, with nothing of an abandoned attempt in it; an error answer means that nothing was applied, unless it was given after the commit (by postProcess) or the connection to the leader broke after the command had been sent. A command whose time is up is answered with a timeout error in time, is not started any more, and never reaches the leader with more time than it has left. Nothing stays behind: no open transaction, lock, or database handle in use, and the next command runs normally.",
     ["schedules", "histories", "fault_sequences"], "every behaviour of the phases of a command with conflicts and retries, every interleaving with role changes up to a preemption bound, every placement of connection faults, client departures and timeouts up to a bound",
     "Needs injected faults between phases and role changes inside of a commit; the tests run commands one at a time without them.",
     ["BedrockServer.cpp", "BedrockCore.cpp", "BedrockCommand.cpp", "sqlitecluster/SQLiteCore.cpp", "sqlitecluster/SQLiteClusterMessenger.cpp"], [("peek/process/commit phases with rollback on every error path", "BedrockCore::peekCommand/processCommand, SQLiteCore::commit"), ("retries, escalation, queues", "BedrockServer::runCommand, SQLiteClusterMessenger::runOnPeer")])
prop("B02", "Commands that look like a known crasher are refused, others never",
     "After a crash report for a command, every later command with the same request line (case-sensitive) whose reported identifying fields all have the reported values is refused before it runs, on every node that received the report, including nodes that log in to the sender later, until the reports are cleared; a message that is no such report, or a report of a command that cannot be written as a message, is ignored. While all reports for a request line carry the same identifying values, a command that differs from them in at least one, or in its request line, is not refused; once reports with different values exist for a request line, every command with that line is refused.",
     ["inputs", "histories"], "every set of up to three crash reports and every probing command over small name/field/value domains",
     "Matching is over all field combinations.",
     ["BedrockServer.cpp"], [("crash command table", "BedrockServer::_wouldCrash")])
prop("B03", "Every request on a client connection gets its one answer, in order",
     "However a client's bytes are cut or coalesced, and whether or not it waits for answers, every complete request on its connection is answered exactly once, in order and without waiting for further bytes, with the answer of that request; nothing else is sent. After a request that ends the connection (Connection: close or forget, or to be executed in the future) nothing more is taken from it. Status requests are answered, commands that change the server's settings are taken only from this host or through a private port, and no header of a request (plugin, _source, httpsRequests, serializedData) changes that, the form of the answer, or lets the server fail. When the client leaves, the connection breaks or the server shuts down, the connection ends within seconds, requests that are running are finished, and a successful answer is sent only for what was executed.",
     ["inputs", "schedules", "histories"], "every sequence of up to three requests of 15 kinds with all cuts around their parts; every moment of a client leaving, a broken connection or a shutdown",
     "Tests send one request at a time over a healthy connection and wait for the answer.",
     ["BedrockServer.cpp", "libstuff/STCPManager.cpp", "libstuff/SData.cpp"], [("the loop of a client's connection, and what it makes of a request", "BedrockServer::handleSocket, buildCommandFromRequest, _handleIfStatusOrControlCommand, _reply")])
prop("B04", "Blocking writes really stops them, and only them",
     "Between the answers to BlockWrites and UnblockWrites nothing is committed to the node's database, while commands that only read are answered. Both commands always get their answer: in any order, repeated, from several administrators, while commands are running, and with or without an open database. Commands that tried to write meanwhile are executed afterwards or answered with an error, each once, and nothing stays locked.",
     ["histories", "schedules"], "every sequence of up to five operations of administrators and clients; every interleaving of commands and administrators up to the preemption bound",
     "No test blocks writes while commands run; the order in which two locks are taken decides whether it ever ends.",
     ["BedrockServer.cpp", "sqlitecluster/SQLite.cpp"], [("a thread that holds the commit and the write lock until told otherwise", "BedrockServer::_control, SQLite::exclusiveLockDB")])
prop("B05", "The running server starts, waits for commits, and stops cleanly",
     "A server that starts serves commands only when its database has been upgraded: the upgrade is done while it leads, again after it failed, and exactly once successfully. A request that names a commit count runs only when this commit is in the database it sees; if the commit comes in time the request is answered soon after it, otherwise with a timeout, when its time is up. When the server is told to shut down or to detach, every request it has accepted gets its one answer and what was queued for later is finished or given up, it ends within seconds after the last of them, and nothing stays behind: no command, connection, open database or lock. After a detach it is attached again by request, with a new upgrade, and serves as before.",
     ["schedules", "histories"], "every choice of up to two requests, commits, failing upgrades and moments of shutdown or detach, with every interleaving of the server's threads up to the preemption bound",
     "Starting, detaching and stopping race with the workers, the connections and the sync thread; the tests stop a server once, when it is idle.",
     ["BedrockServer.cpp", "BedrockCommandQueue.cpp", "sqlitecluster/SQLiteNode.cpp"], [("the sync thread and the upgrade", "BedrockServer::syncWrapper, sync"), ("commands that wait for a commit", "BedrockServer::runCommand, checkFutureCommitCommands"), ("shutting down, detaching and attaching", "BedrockServer::_beginShutdown, postPoll, _control, shutdownComplete")])
prop("B06", "A command gets the answers of the servers it asks, and holds nothing while it waits",
     "Each request that a command makes to another server (while peeking or before) is sent once and in full, at the time it is scheduled for, and never on the thread of the blocking queue. The command goes on only when each of its requests is over: with its own server's answer (status and content, however the bytes are split, chunked, followed by others, or ended by the connection), with an error code if the connection failed or nothing came, or given up since the command's time is up, its client has left or the server shuts down. It goes on soon after the last of them, also when the server shuts down or the node stops leading meanwhile. While it waits it keeps no database handle and no transaction (unless it asked to wait inside of one). The results stay the same through conflicts and retries, without sending anything again, and arrive unchanged when the command is passed on to the leader. The command gets one answer, its connections to the servers are closed, and nothing else stays behind.",
     ["inputs", "schedules", "histories", "fault_sequences"], "every choice of one or two (of some: three) requests to servers of 15 kinds, begun in five ways, with conflicts; every moment of the client leaving, a shutdown or a change of roles; every placement of connection faults up to a bound",
     "Tests ask one server that answers at once; no test has a command disturbed while it waits or a conflict after the answer.",
     ["BedrockCommand.cpp", "libstuff/SHTTPSManager.cpp", "libstuff/STCPManager.cpp", "BedrockCore.cpp", "BedrockServer.cpp"], [("waiting, giving up, keeping and passing on results", "BedrockCommand::waitForHTTPSRequests, serializeHTTPSRequests"), ("one request and its answer", "SHTTPSManager::_httpsSend, postPoll"), ("when a command is executed again", "BedrockServer::runCommand, BedrockCore::peekCommand")])
# ---------------------------------------------------------------- codecs
prop("K01", "Messages survive the wire however it fragments",
     "Any request or response composed by the library and sent over a stream is parsed back to the same method line, headers (including values with line breaks, tabs, colons, backslashes and inner blanks; blanks at the ends of a value are trimmed) and body, however the bytes are split, coalesced or followed by the next message. No header value can add a header or end the message. A parse never reports success on an incomplete message, consumes exactly one message, and never reads outside the given bytes, fails to end or crashes on arbitrary input.",
     ["inputs"], "every message from a grammar and every fragmentation of it up to a size; every byte string over a hostile alphabet up to a length",
     "The unit tests try a handful of messages and split points.",
     ["libstuff/libstuff.cpp", "libstuff/SData.cpp", "libstuff/SFastBuffer.cpp", "libstuff/STCPManager.cpp"], [("incremental HTTP-like parser and front-consuming buffer", "SParseHTTP, SComposeHTTP, SData::deserialize, SFastBuffer")])
prop("K02", "JSON composed from data parses back to the same data",
     "Any table or list of strings (any bytes but NUL, including quotes, backslashes, control characters and non-ASCII), numbers, nested objects and arrays that the library composes as JSON parses back to equal data, names included (names differing only in case are one name), and is itself valid JSON (a string that is itself a bracketed document is embedded as a document). Parsing arbitrary text never reads outside it, crashes or loops, and yields the correct value if it is valid JSON, nothing if it is cut off or not an object or array; nesting of at least 100 levels is read and deeper nesting is either read correctly or refused.",
     ["inputs"], "every string over a hostile alphabet up to a length, in every position of small objects and arrays; every byte string over the JSON alphabet up to a length against an independent parser",
     "Tests compare a few dozen documents.",
     ["libstuff/libstuff.cpp"], [("composer with escaping, recursive-descent parser", "SToJSON, SComposeJSONObject, SParseJSONObject, SParseJSONArray")])
prop("K03", "Quoting and encoding functions are exact inverses and injection-safe",
     "For every byte string, quoting it for SQL yields one SQL literal whose value is that string (up to an embedded NUL), encoding it as base64, hex, gzip, URI component, URI parameters, bound parameter or with AES (padded with NULs) decodes back to it, and composing a list (of nonempty items without the separator or leading blanks) or comma-separated integer list parses back to the same items. No content of a value can end the literal or add an SQL token, and integer-list quoting admits only integers. Hashes and message authentication codes are the standard ones for all lengths of message and key. Decoding arbitrary text never reads outside it or crashes.",
     ["inputs"], "every byte string over a hostile alphabet up to a length, plus every byte value, against independent reference codecs and SQLite itself",
     "Tests use sample strings.",
     ["libstuff/libstuff.cpp"], [("quoting and codec helpers", "SQ, SQList, SEncodeURIComponent, SComposePOST, SEncodeBase64, SGZip, SToHex, SParseList, SAESEncrypt, SHMACSHA1, SQliteParameter")])
prop("K04", "The MySQL port speaks the protocol and gives SQLite's results",
     "Every reply the MySQL-compatible port produces for any query result is a correctly framed and numbered packet sequence from which an independent client decoder recovers exactly the columns and rows (any bytes and lengths; NULL is sent as an empty text), and every request packet split or coalesced at any point is decoded to the same query. Every query of a session, sent one by one or together, gets exactly one reply, in order: the table that SQLite gives for the query, OK for one without rows, the documented table for the questions a MySQL client asks about the server, or an error. No query or packet crashes the server or desynchronizes the stream.",
     ["inputs", "histories"], "every result table over a value alphabet straddling the length-encoding boundaries, every fragmentation of small packets, pairs of queries of all kinds in every fragmentation",
     "The MySQL unit tests look at query pattern detection, not at packets or replies.",
     ["plugins/MySQL.cpp", "plugins/DB.cpp", "BedrockServer.cpp"], [("packet composer and parser, translation of queries and results", "MySQLPacket, BedrockPlugin_MySQL")])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
