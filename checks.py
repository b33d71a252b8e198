# Property -> how its check is built and run.
GROUPS = {
    "libstuff": ["libstuff/*.cpp", "libstuff/qrf.c"],
    "sqlitecluster": ["sqlitecluster/*.cpp"],
    "root": ["Bedrock*.cpp", "ConflictLockGuard.cpp"],
    "plugins": ["plugins/*.cpp"],
}
NOT_APPLICABLE = {}
ALL = ["@libstuff", "@sqlitecluster", "@root", "@plugins", "-libstuff/SSignal.cpp", "-libstuff/sqlite3.c"]
LS = ["@libstuff", "-libstuff/SSignal.cpp", "-libstuff/sqlite3.c"]
SCHED = "stateless model checking of the real code under a controlled scheduler (all interleavings up to a preemption bound)"
SQL = dict(lib=["rt.cpp", "stubs.cpp", "shim.cpp"], repo=ALL, defs=["-DHAVE_SHIM"])
PRIV = dict(SQL, defs=["-DHAVE_SHIM", "-fno-access-control"])
LINK = ["-lsqlite3", "-lpcre2-8", "-lmbedtls", "-lmbedx509", "-lmbedcrypto", "-lz", "-lzstd"]
JLINK = LINK + ["-Wl,--wrap=_ZN7SRandom6rand64Ev"]
WRAPS = ["_Z8S_socketRKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEEbbb", "_Z8S_acceptiR11sockaddr_inb", "_Z12S_recvappendiR11SFastBuffer", "_Z13S_sendconsumeiR11SFastBuffer", "_Z7S_closePi", "shutdown", "close", "getsockopt", "ioctl", "abort"]
CLINK = JLINK + ["-Wl,--wrap=" + w for w in WRAPS]
CLUSTER = dict(PRIV, defs=PRIV["defs"] + ["-DRT_MAXF=96"])
NODES = "model checking of clusters of the real SQLiteNode on a virtual network and clock: all histories of faults and operations up to the stated depth, with state caching"
CHECKS = {
    "C01": dict(harness=["ring.cpp"], lib=["rt.cpp", "stubs.cpp"], repo=LS, mode="race", link=LINK, budget=dict(quick=100, thorough=800), technique=SCHED,
                note="all interleavings of 2-3 producers and a consumer at capacities 1-3 up to the stated preemption bounds, with data-race detection; the log sender with a connection that fails, sends a part or breaks at every point, shut down at every point; sequentially consistent executions only"),
    "C02": dict(harness=["syncq.cpp"], lib=["rt.cpp", "stubs.cpp"], repo=LS, mode="race", link=LINK, budget=dict(quick=100, thorough=800), technique=SCHED,
                note="all operation sequences to depth 7/8, and all interleavings of 2-4 threads up to the stated preemption bounds; linearizability oracle"),
    "C03": dict(harness=["cmdq.cpp"], lib=["rt.cpp", "stubs.cpp"], repo=ALL, mode="race", link=LINK, budget=dict(quick=100, thorough=800), technique=SCHED,
                note="all operation sequences to depth 5/6 against a reference queue under a virtual clock, and all interleavings of 2-6 threads up to the stated preemption bounds"),
    "C04": dict(harness=["blockq.cpp"], lib=["rt.cpp", "stubs.cpp"], repo=ALL, mode="race", link=LINK, budget=dict(quick=100, thorough=800), technique=SCHED,
                note="all operation sequences to depth 5/6 against a reference limiter under a virtual clock, and all interleavings of 2-3 threads up to the stated preemption bounds"),
    "C05": dict(harness=["conflict.cpp"], lib=["rt.cpp", "stubs.cpp"], repo=ALL, mode="race", link=LINK, budget=dict(quick=100, thorough=800), technique=SCHED,
                note="all interleavings of 3 threads up to the stated preemption bounds, with empty and with full lock tables (pruning)"),
    "C06": dict(harness=["pool.cpp"], mode="race", hmode="plain", race_files=["SQLitePool.cpp"], link=LINK, budget=dict(quick=100, thorough=800), technique=SCHED, **SQL,
                note="all interleavings of 2-4 threads taking and returning handles (mutex, condition and database scheduling points) up to the stated preemption bounds"),
    "S02": dict(harness=["s02.cpp"], mode="atomic", hmode="plain", link=LINK, budget=dict(quick=100, thorough=800), technique=SCHED, **SQL,
                note="all interleavings of 2-3 threads running read-modify-write transactions on their own handles, up to the stated preemption bounds; serial re-execution in commit order as oracle; page-level conflict detection of SQLite's BEGIN CONCURRENT is provided by the checks' file system"),
    "S01": dict(harness=["s01.cpp"], mode="atomic", hmode="plain", link=LINK, budget=dict(quick=100, thorough=800), technique=SCHED, **SQL,
                note="all sequences of 15 operations on two handles to depth 5/6, all interleavings of 2-4 threads up to the stated preemption bounds; every committed image of the database file is checked (each is a crash point: SQLite commits are atomic)"),
    "S03": dict(harness=["s03.cpp"], mode="atomic", hmode="plain", link=LINK, budget=dict(quick=100, thorough=800), technique=SCHED, **SQL,
                note="26 kinds of failure (errors, denials, exceptions, timeouts and aborts at every moment of a statement, busy commit lock, conflicts, disabled commits) x transaction type x earlier write x recovery, one or two in a row, then transactions on the same and other handles must succeed"),
    "S04": dict(harness=["s04.cpp"], mode="atomic", hmode="plain", link=LINK, budget=dict(quick=100, thorough=800), technique=SCHED, **SQL,
                note="all sequences of 16 operations (reads, writes, transaction boundaries, commits by another handle, whitelist and authorizer changes) to depth 5/6, each read compared with the uncached read; 22 changing expressions in 8 query forms"),
    "S05": dict(harness=["s05.cpp"], mode="atomic", hmode="plain", link=LINK, budget=dict(quick=100, thorough=800), technique=SCHED, **SQL,
                note="all sequences of 11 operations on two handles with collections in between to depth 6/7, all interleavings of 1-3 committing threads and the collector up to the stated preemption bounds, with and without journal compression"),
    "S06": dict(harness=["s06.cpp"], mode="atomic", hmode="plain", link=LINK, budget=dict(quick=100, thorough=800), technique=SCHED, **SQL,
                note="all histories of 7/11 commits over 1-3 journal tables with 1-3 or unlimited retained entries, with rollbacks, reopening and switched compression in shorter ones; every range and every single commit fetched and compared; fetches interleaved with committing threads up to the stated preemption bounds"),
    "S07": dict(harness=["s07.cpp"], mode="atomic", hmode="plain", link=LINK, budget=dict(quick=100, thorough=800), technique=SCHED, **SQL,
                note="all query texts of grammars: 44 statements x 11 wrappings x 4 contexts in read-only phases; transaction control; 14 changing and 18 fixed values x 16 expressions x 20 statements replayed on a second node; 24 parameter values; 32 expressions x 14 forms under a column whitelist on two databases differing in hidden columns"),
    "K01": dict(harness=["k01.cpp"], lib=["rt.cpp", "stubs.cpp"], repo=LS, mode="atomic", hmode="plain", link=LINK, budget=dict(quick=100, thorough=800), technique="exhaustive exploration of the real parser and buffers over all bounded messages, prefixes, fragmentations, partial socket operations and interleavings",
                note="all header values of 3/4 bytes of a 16-byte alphabet, all prefixes of messages from a grammar, all streams of 1-3 messages in up to 4 pieces, all strings of 5/6 bytes of a 7-byte alphabet in 7 contexts with inaccessible memory on either side"),
    "K02": dict(harness=["k02.cpp"], lib=["stubs.cpp"], repo=LS, mode="plain", hmode="plain", link=LINK, level="exploration", budget=dict(quick=100, thorough=800), technique="exhaustive exploration of the real composer and parser over all bounded strings, documents and texts against an independent reader",
                note="all strings of 3/4 units of a 27-unit alphabet as values and of 2/3 as names, all pairs of bytes, documents of a grammar with all of their prefixes, all \\u escapes, all texts of 5/6 bytes of a 14-byte alphabet in 3 contexts with inaccessible memory behind them, nesting up to 300,000"),
    "K03": dict(harness=["k03.cpp"], lib=["stubs.cpp"], repo=LS, mode="plain", hmode="plain", link=LINK, level="exploration", budget=dict(quick=100, thorough=800), technique="exhaustive exploration of the real encoders and decoders over all bounded inputs against independent encoders and SQLite's own evaluation",
                note="literals, lists, base64, hex, URI components, bound parameters, gzip, AES, HMAC and hashes, base 32; all bounded strings and all lengths"),
    "J01": dict(harness=["j01.cpp"], mode="atomic", hmode="plain", link=JLINK, budget=dict(quick=100, thorough=800), technique="explicit-state exploration of the real job commands, compared with a reference model after every command", **SQL,
                note="all sequences of job commands and time steps to depth 3/4 on 66 populations of two jobs, to depth 2/4 on 286 of three, and around the tenth retry; repeated states are expanded once"),
    "J02": dict(harness=["j02.cpp"], mode="atomic", hmode="plain", link=JLINK, budget=dict(quick=100, thorough=800), technique="explicit-state exploration of the real job commands, compared with a reference model after every command", **SQL,
                note="all sequences of job commands and time steps to depth 2/4 (29 commands) and 5/7 (8 commands) on 100 kinds of job, creations to depth 3/5; repeated states are expanded once"),
    "J03": dict(harness=["j03.cpp"], mode="atomic", hmode="plain", link=JLINK, budget=dict(quick=100, thorough=800), technique="explicit-state exploration of the real job commands, compared with a reference model after every command", **SQL,
                note="all sequences of job commands and time steps to depth 10/14 on a parent with two children, 8/12 with three, 5/7 on kinds of parent; repeated states are expanded once"),
    "D01": dict(harness=["d01.cpp"], mode="race", race_files=["Cache.cpp"], hmode="plain", link=JLINK, budget=dict(quick=100, thorough=800), technique="explicit-state exploration of the real cache commands, compared with a reference model after every command", **SQL,
                note="all sequences of 24 cache commands, restarts and abandoned writes to depth 5/7 (repeated states are expanded once) with a maximum of 12 bytes, each commit also executed as another node would; all interleavings of two threads on the list of recently used names up to the stated preemption bounds"),
    "B02": dict(harness=["b02.cpp"], mode="race", race_files=["BedrockServer.cpp"], hmode="plain", link=JLINK + ["-Wl,--wrap=_ZN22SQLiteClusterMessenger9runOnPeerER14BedrockCommandRKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE"], budget=dict(quick=100, thorough=800), technique="exhaustive exploration of the real crash-report handling over all bounded sequences of reports against a reference model, and all interleavings up to a preemption bound", **PRIV,
                note="all sequences of 3/4 of 24 reports or clearings, each followed by 90 probing commands; all sets of 2/3 reports sent to a node that logs in; reports, clearing and commands in two threads up to the stated preemption bounds"),
    "D02": dict(harness=["d02.cpp"], mode="atomic", hmode="plain", link=JLINK, budget=dict(quick=100, thorough=800), technique="exhaustive exploration of the real query command over all queries of a grammar in every form, format and mode, against SQLite itself", **SQL,
                note="34 expressions alone and in pairs over three row sets in 17 formats; 110 queries (reads, writes, unrestricted updates, errors, transaction control) in all forms, modes and parameters, each followed by two queries on the same handle"),
    "B01": dict(harness=["b01.cpp"], mode="atomic", hmode="plain", link=JLINK + ["-Wl,--wrap=_ZN22SQLiteClusterMessenger9runOnPeerER14BedrockCommandb", "-Wl,--wrap=_Z8S_socketRKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEEbbb"], budget=dict(quick=100, thorough=800), technique="exhaustive exploration of the real command execution with scripted commands, and of its interleavings with other commands and changes of leadership up to a preemption bound", **PRIV,
                note="commands with all combinations of 9 behaviours of process, 6 of peek, 4 of prePeek and postProcess, conflicts and retries; 2-3 conflicting commands, with and without page locks; 1-2 commands while the node goes through 8 sequences of states, with failing escalations, up to the stated preemption bounds; clients leaving or timeouts at 8 points; 1-2 commands escalated over connections with up to 2/3 faults"),
    "B05": dict(harness=["b05.cpp"], mode="atomic", hmode="plain", link=JLINK + ["-Wl,--wrap=_Z8S_socketRKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEEbbb", "-Wl,--wrap=_ZN22SQLiteClusterMessenger9runOnPeerER14BedrockCommandb", "-ldl"], budget=dict(quick=60, thorough=800), technique="exhaustive exploration of the whole real server (sync thread, worker threads, connections, main loop) over all bounded choices of requests and events, and its interleavings up to a preemption bound", **PRIV,
                note="one server alone with two worker threads: 1-2 clients at the start with 0-2 failing upgrades; 1-2 requests that depend on 0-3 commits of which 0-2 come, with short and long timeouts; shutdown and detaching (and attaching) at 4 moments with 6 kinds of command; up to the stated preemption bounds"),
    "B06": dict(harness=["b06.cpp"], mode="atomic", hmode="plain", link=JLINK + ["-Wl,--wrap=_Z8S_socketRKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEEbbb", "-Wl,--wrap=_ZN22SQLiteClusterMessenger9runOnPeerER14BedrockCommandb"], budget=dict(quick=60, thorough=800), technique="exhaustive exploration of the real command execution and network code over all bounded choices of requests, answers and events, faults at every socket operation, and interleavings up to a preemption bound", **PRIV, note="commands with one to three requests to servers of 15 kinds, begun in five ways, with conflicts; up to 2/3 faults at every socket operation; the client leaving, a shutdown or a change of the node's state at 5 moments of the wait, with up to 1/2 preemptions"),
    "B03": dict(harness=["b03.cpp"], mode="atomic", hmode="plain", link=JLINK + ["-Wl,--wrap=_Z8S_socketRKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEEbbb", "-Wl,--wrap=_ZN22SQLiteClusterMessenger9runOnPeerER14BedrockCommandb"], budget=dict(quick=100, thorough=800), technique="exhaustive exploration of the real connection handling over all bounded sequences, cuts and events of a connection, and its interleavings up to a preemption bound", **PRIV, note="one to three requests of 15 kinds cut at up to 2/3 places around their ends and headers, from three ports and two kinds of address; leaving, broken connections and shutdowns at every point, up to the stated preemption bounds"),
    "B04": dict(harness=["b04.cpp"], mode="atomic", hmode="plain", link=JLINK + ["-Wl,--wrap=_Z8S_socketRKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEEbbb", "-Wl,--wrap=_ZN22SQLiteClusterMessenger9runOnPeerER14BedrockCommandb"], budget=dict(quick=100, thorough=800), technique="exhaustive exploration of the real command execution and administration over all bounded sequences, and of their interleavings up to a preemption bound", **PRIV, note="all sequences of up to 5/6 of: BlockWrites, UnblockWrites, commands that write (also in the blocking queue) or read, time passing, closing the database; 1-2 commands and 1-2 administrators at the same time up to the stated preemption bounds"),
    "K04": dict(harness=["k04.cpp"], mode="atomic", hmode="plain", link=JLINK + ["-Wl,--wrap=_Z8S_socketRKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEEbbb", "-Wl,--wrap=_ZN22SQLiteClusterMessenger9runOnPeerER14BedrockCommandb"], budget=dict(quick=100, thorough=800), technique="exhaustive exploration of the real protocol code over all bounded results, packets and query sequences, against an independent client", **PRIV, note="result tables with all pairs of 16 lengths, all bytes, up to 1000 columns or rows and values around 16 MB; two packets cut at every place; about 125 queries alone, cut in pieces and in pairs on a connection of the real server, compared with SQLite"),
    "R01": dict(harness=["r01.cpp"], mode="atomic", hmode="plain", link=CLINK, budget=dict(quick=100, thorough=800), technique=NODES, **CLUSTER,
                note="two to five real nodes on a simulated network and clock; starts with every single fault (pairs in thorough) at every event, every sequence of 2/3 operations of 11 kinds with 4/5 ways of waiting in between, and pairs of operations at every one of 30 events or at every entered state; repeated global states are expanded once"),
    "R02": dict(harness=["r02.cpp"], mode="atomic", hmode="plain", link=CLINK, budget=dict(quick=100, thorough=800), technique=NODES, **CLUSTER,
                note="as R01, with every journal compared after every step, and two threads committing at the leader interleaved at every lock and atomic operation with 6 kinds of events, with up to 1 (thorough: 2) preemptions"),
    "R03": dict(harness=["r03.cpp"], mode="atomic", hmode="plain", link=CLINK, budget=dict(quick=100, thorough=800), technique=NODES, **CLUSTER,
                note="as R01; each explored history is continued without faults until the cluster has settled (at most 400 simulated seconds) and stayed so for 40"),
}
