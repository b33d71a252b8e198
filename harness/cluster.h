// A cluster of real SQLiteNode objects on a virtual network under a virtual clock. The driver decides which network event
// happens next, and at every event may inject a fault (a deviation): a held link, a reset connection, a crash, a pause.
#pragma once
#define OWN_RANDOM
#include "core.h"
#include <sqlitecluster/SQLiteNode.h>
#include <sqlitecluster/SQLitePeer.h>
#include <sqlitecluster/SQLiteServer.h>
#include <sqlitecluster/SQLiteCore.h>
#include <deque>
#include <setjmp.h>
#include <stdarg.h>
#include <sys/ioctl.h>
#include <sys/socket.h>
namespace cl {
const uint64_t SEC = 1000000, QUIET = UINT64_MAX - 1, EVER = UINT64_MAX - 2;
typedef SQLiteNodeState St;
struct Item { uint64_t seq; char kind; SData msg; uint64_t hash = 0; int count = -1; bool answer = false; };                 // S connection request, M message, E end of stream
struct Dir { deque<Item> wire; string rx; bool eof = false; uint64_t hold = 0; };
struct Conn { int id; int node[2]; bool open[2] = {true, true}; bool shut[2] = {false, false}; bool up = false, refused = false; Dir d[2]; };   // d[s]: what side s sent
struct Server : SQLiteServer {
    int me; function<void(int, St)> onState; function<void(int, SQLitePeer*)> onLogin;
    void onNodeLogin(SQLitePeer* p) override { if (onLogin) onLogin(me, p); }
    void notifyStateChangeToPlugins(SQLite&, SQLiteNodeState s) override { if (onState) onState(me, s); }
    void blockCommandPort(const string&) override {} void unblockCommandPort(const string&) override {}
};
struct Spec { string name; int priority; bool perma = false; string version = "v1"; bool puppet = false, away = false; };
struct Node { Spec spec; Server server; atomic<int> configured{0}; string file; shared_ptr<SQLitePool> pool; SQLiteNode* node = nullptr; deque<int> acceptQ; uint64_t next = 0, paused = 0; bool stopping = false, announced = false, dead = false; int boots = 0; vector<SData> inbox; uint64_t seen = 0; vector<pair<string, string>> known; bool checkedFull = false; };
struct Cluster;
static Cluster* gCluster = nullptr; static int gStep = -1; static sigjmp_buf* gAbort = nullptr; static bool gInStep = false;
static const int FD0 = 100000, PORT0 = 900000;
enum Fault { HOLDQ = 1, HOLD3 = 2, HOLD40 = 4, RESET = 8, CRASH = 16, PAUSE40 = 32, IDLECRASH = 64, IDLEPAUSE = 128, ALLFAULTS = 255 };
struct Ended {};                                                     // this path is explored elsewhere
struct Origin { uint64_t id; string hash, query; int node; bool acked; };
struct Cluster {
    vector<unique_ptr<Node>> nodes; map<int, Conn> conns; int nextConn = 0; uint64_t seq = 0; int faults = 0; int phase = 0; uint64_t phaseStart = 0; int commits = 0; bool faulted = false, cutOrCrash = false, forkedAny = false;
    map<string, Origin> origins;                                     // by hash: every commit made at a leader
    function<void(int)> afterStep; function<void(int, const string&)> onDeath; vector<pair<int, St>> changes; function<void(int, int, const SData&)> onDeliver; bool noMerge = false;
    // approvals, as seen on the wire: node -> its current standup count, and who approved it over a connection that is still up
    map<int, string> standupCount; map<int, map<int, int>> approvals;
    Cluster(vector<Spec> specs, const vector<int>& history = {}) {
        sqlSetup(); rt::setClockTick(0); rt::setAtomicPoints(false); gCluster = this; rt::nameFiber("driver");
        rt::onIdle = nullptr;
        for (size_t i = 0; i < specs.size(); i++) { nodes.emplace_back(new Node); auto& n = *nodes[i]; n.spec = specs[i]; n.configured = n.spec.priority; n.server.me = i; n.server.onState = [this](int me, St s) { stateChange(me, s); }; if (!n.spec.puppet) n.file = fileWith(history.size() > i ? history[i] : 0); }
    }
    ~Cluster() { for (size_t i = 0; i < nodes.size(); i++) if (nodes[i]->node) dispose(i); nodes.clear(); gCluster = nullptr; rt::onIdle = nullptr; }
    static const char* schema() { return "CREATE TABLE t(k INTEGER PRIMARY KEY, v TEXT);"; }
    // A database file with n commits of history; histories with a letter differ from that commit on (100*fork+n).
    static string fileWith(int n) {
        static map<int, shim::ImagePtr> memo; auto& im = memo[n];
        if (!im) { string f = seededFile(0, schema()); { SQLite db(f, 0, 1000000, 0); int fork = n / 100, k = n % 100; for (int i = 1; i <= k; i++) { if (!db.beginTransaction() || !db.write("INSERT INTO t VALUES(" + to_string(i) + ", 'h" + (fork && i > 1 ? to_string(fork) : "") + "');")) mc::internalError("history"); string h; uint64_t id; if (!db.prepare(&id, &h) || db.commit("seed")) mc::internalError("history commit"); } } im = shim::image(f); }
        string f = shim::freshName("node"); shim::seed(f, im); return f;
    }
    string peerList(int me) { string o; for (size_t i = 0; i < nodes.size(); i++) if ((int) i != me) { if (!o.empty()) o += ","; o += "localhost:" + to_string(1000 + i) + "?nodeName=" + nodes[i]->spec.name + (nodes[i]->spec.perma ? "&Permafollower=true" : ""); } return o; }
    void boot(int i) {
        Node& n = *nodes[i]; if (n.spec.puppet) { n.boots++; return; }
        MC_CHECK(!n.node, "boot of a running node"); gStep = i;
        if (n.boots++) { string f = shim::freshName("node"); shim::seed(f, shim::image(n.file)); n.file = f; }
        n.pool.reset(new SQLitePool(8, n.file, 0, 1000000, 0)); n.stopping = n.announced = false; n.dead = false; n.acceptQ.clear(); n.next = 0; n.paused = 0;
        n.node = new SQLiteNode(n.server, n.pool, n.spec.name, "localhost:" + to_string(1000 + i), peerList(i), n.configured, SEC * 5 + i * 1000, n.spec.version, "cmd" + to_string(i));
        n.seen = n.node->_db.getCommitCount(); mc::note("%s starts with %lu commits", n.spec.name.c_str(), n.seen); checkJournal(i);
    }
    void bootAll() { for (size_t i = 0; i < nodes.size(); i++) if (!nodes[i]->spec.away) boot(i); for (size_t i = 0; i < nodes.size(); i++) if (!nodes[i]->spec.away) step(i); }
    // The process ends: threads stop where they are, connections close, the object goes away.
    void dispose(int i) {
        Node& n = *nodes[i]; SQLiteNode* x = n.node; gStep = i;
        if (x->_replicateThread) { { lock_guard<mutex> l(x->_replicateMutex); x->_replicateThreadShouldExitTime = 1; x->_replicateQueue = {}; } x->_replicateCV.notify_all(); x->_replicateThread->join(); delete x->_replicateThread; x->_replicateThread = nullptr; }
        settle(); n.node = nullptr; delete x; n.pool.reset(); n.acceptQ.clear();
        for (auto& [id, c] : conns) for (int s = 0; s < 2; s++) if (c.node[s] == i && c.open[s] && (c.up || s == 0)) closeEnd(c, s);
        for (auto it = conns.begin(); it != conns.end();) { auto& c = it->second; if (!c.up && c.node[1] == i) { c.refused = true; c.open[1] = false; c.d[0].wire.clear(); } if (!c.open[0] && !c.open[1]) it = conns.erase(it); else ++it; }
        standupCount.erase(i); approvals.erase(i); for (auto& [k, m] : approvals) m.erase(i);
    }
    void crash(int i) { mc::note("%s crashes", nodes[i]->spec.name.c_str()); cutOrCrash = faulted = true; dispose(i); nodes[i]->dead = true; }
    // --- network ---
    Conn* of(int fd, int& side) { if (fd < FD0 || fd >= PORT0) return nullptr; side = (fd - FD0) & 1; auto it = conns.find((fd - FD0) / 2); return it == conns.end() ? nullptr : &it->second; }
    int fdOf(const Conn& c, int side) { return FD0 + c.id * 2 + side; }
    void endStream(Conn& c, int s) { if (!c.shut[s]) { c.shut[s] = true; if (c.up || s == 0) c.d[s].wire.push_back({++seq, 'E', SData()}); } }
    void closeEnd(Conn& c, int s) { if (!c.open[s]) return; endStream(c, s); c.open[s] = false; if (!c.up && s == 0) c.open[1] = false; }
    int connectTo(int from, const string& host) {
        int to = atoi(host.c_str() + host.find(':') + 1) - 1000; Conn c; c.id = nextConn++; c.node[0] = from; c.node[1] = to; bool alive = nodes[to]->spec.puppet ? nodes[to]->boots > 0 : nodes[to]->node != nullptr;
        for (auto& [id, o] : conns) for (int s = 0; s < 2; s++) if (o.node[s] == from && o.node[1 - s] == to && o.d[s].hold > rt::nowUs() && o.d[s].hold != QUIET) c.d[0].hold = max(c.d[0].hold, o.d[s].hold);
        auto pit = parts.find({from, to}); if (pit != parts.end()) c.d[0].hold = c.d[1].hold = pit->second;
        if (!alive && !c.d[0].hold) c.refused = true; else c.d[0].wire.push_back({++seq, 'S', SData()});
        conns[c.id] = c; return fdOf(c, 0);
    }
    map<pair<int, int>, uint64_t> parts;                             // partitioned pairs, until when
    void partition(int a, int b, uint64_t until) { faulted = true; if (until >= EVER || until > rt::nowUs() + 3 * SEC) cutOrCrash = true; parts[{a, b}] = parts[{b, a}] = until; for (auto& [id, c] : conns) if ((c.node[0] == a && c.node[1] == b) || (c.node[0] == b && c.node[1] == a)) c.d[0].hold = c.d[1].hold = until; }
    void heal() { parts.clear(); for (auto& [id, c] : conns) c.d[0].hold = c.d[1].hold = 0; }
    void reset(Conn& c) { mc::note("connection %s-%s is reset", nodes[c.node[0]]->spec.name.c_str(), nodes[c.node[1]]->spec.name.c_str()); cutOrCrash = faulted = true; for (int s = 0; s < 2; s++) { c.d[s].wire.clear(); c.d[s].eof = true; } if (!c.up) c.refused = true; }
    short events(int i, int fd, short asked) {
        if (fd == PORT0 + i) return nodes[i]->acceptQ.empty() ? 0 : POLLIN;
        int s; Conn* c = of(fd, s); if (!c) { return nodes[i]->node->_commitsToSend.empty() ? 0 : POLLIN; }
        if (c->refused) return POLLOUT | POLLERR | POLLHUP; if (!c->up) return 0;
        short r = asked & POLLOUT; if (!c->d[1 - s].rx.empty() || c->d[1 - s].eof || c->shut[s]) r |= POLLIN; if (c->shut[s] && c->d[1 - s].eof) r |= POLLHUP; return r;
    }
    // --- stepping ---
    static void settle() { bool idle = false; rt::onIdle = [] { if (gIdle) *gIdle = true; }; gIdle = &idle; rt::waitUntil("settle", [&idle] { return idle; }); gIdle = nullptr; rt::onIdle = nullptr; }
    static bool* gIdle;
    void step(int i, bool again = false) {
        Node& n = *nodes[i]; if (!n.node || n.paused > rt::nowUs()) return; gStep = i;
        sigjmp_buf buf; if (sigsetjmp(buf, 0)) { gAbort = nullptr; gInStep = false; rt::forgetLocks(n.node, n.node + 1); died(i); return; }
        gAbort = &buf; if (race) rt::setPointsEnabled(true);
        uint64_t next = rt::nowUs() + SEC; fd_map fdm; n.node->prePoll(fdm); for (auto& [fd, p] : fdm) p.revents = events(i, fd, p.events);
        n.node->postPoll(fdm, next); int k = 0; while (n.node->update()) { if (++k > 50) mc::fail("%s keeps changing state without anything happening", n.spec.name.c_str()); }
        gAbort = nullptr; if (race) rt::setPointsEnabled(false); else settle(); n.next = next; mc::transition();
        if (race) return;
        if (n.stopping && n.node->shutdownComplete()) { mc::note("%s has shut down", n.spec.name.c_str()); dispose(i); n.dead = true; }
        checkJournal(i);
        // a socket it shut down itself can be read at once, and gives end of file
        if (n.node && !again) for (int k = 0; k < 5 && n.node && ownShutdown(i); k++) { step(i, true); if (!n.node) return; }
        if (afterStep && !again) afterStep(i);
    }
    // While a race is on, threads run alongside the steps of the nodes, interleaved in every way.
    bool race = false; vector<thread*> workers;
    void startRace(bool atomics) { race = true; rt::setAtomicPoints(atomics); shim::pointsEnabled = false; }
    void endRace() { for (auto t : workers) { t->join(); delete t; } workers.clear(); race = false; rt::setAtomicPoints(false); shim::pointsEnabled = true; settle(); for (size_t i = 0; i < nodes.size(); i++) step(i); }
    void worker(int i, int count) { workers.push_back(new thread([this, i, count] { rt::nameFiber("worker"); for (int k = 0; k < count; k++) { Node& n = *nodes[i]; if (!n.node || n.node->getState() != St::LEADING) return; commitAt(i); } })); }
    bool ownShutdown(int i) { for (auto& [id, c] : conns) for (int s = 0; s < 2; s++) if (c.node[s] == i && c.open[s] && c.shut[s]) return true; return false; }
    void died(int i) { Node& n = *nodes[i]; mc::note("%s ends itself", n.spec.name.c_str()); for (auto p : n.node->_peerList) n.node->_unauthenticatedIncomingSockets.erase(p->socket); string why; size_t full = 0, forked = 0; for (auto p : n.node->_peerList) { bool perma = false; for (auto& o : nodes) if (o->spec.name == p->name) perma = o->spec.perma; if (!perma) { full++; if (p->forked) forked++; } } if (!n.spec.perma) full++; why = to_string(forked) + "/" + to_string(full); dispose(i); n.dead = true; if (onDeath) onDeath(i, why); else mc::fail("%s ends itself (forked from %s)", n.spec.name.c_str(), why.c_str()); }
    void stateChange(int i, St s) { mc::note("%s: %s -> %s (%lu commits)", nodes[i]->spec.name.c_str(), SQLiteNode::stateName(nodes[i]->node ? nodes[i]->node->_state.load() : St::UNKNOWN).c_str(), SQLiteNode::stateName(s).c_str(), nodes[i]->node ? nodes[i]->node->_db.getCommitCount() : 0); changes.emplace_back(i, s); if (onChange) onChange(i, s); if (s != St::STANDINGUP && s != St::LEADING) { standupCount.erase(i); approvals.erase(i); } }
    function<void(int, St)> onChange;
    // --- choosing the next event ---
    struct Next { Conn* c = nullptr; int s = 0; };
    Next oldest() { Next r; uint64_t best = UINT64_MAX, now = rt::nowUs(); for (auto& [id, c] : conns) for (int s = 0; s < 2; s++) { auto& d = c.d[s]; if (d.wire.empty() || d.hold > now || nodes[c.node[1 - s]]->paused > now || nodes[c.node[s]]->paused > now && false) continue; if (d.wire[0].seq < best) { best = d.wire[0].seq; r = {&c, s}; } } return r; }
    void deliver(Next x) {
        Conn& c = *x.c; int s = x.s, to = c.node[1 - s]; Item it = c.d[s].wire.front(); c.d[s].wire.pop_front();
        if (it.kind == 'S') { bool alive = nodes[to]->spec.puppet || nodes[to]->node; if (!alive || c.refused || !c.open[0]) { c.refused = true; c.open[1] = false; step(c.node[0]); return; } c.up = true; if (!nodes[to]->spec.puppet) { nodes[to]->acceptQ.push_back(fdOf(c, 1)); } int from = c.node[0]; step(to); step(from); return; }
        if (it.kind == 'E') { mc::note("end of stream %s -> %s", nodes[c.node[s]]->spec.name.c_str(), nodes[to]->spec.name.c_str()); c.d[s].eof = true; }
        else if (c.open[1 - s]) {
            mc::note("%s -> %s %s %s%s commits=%s", nodes[c.node[s]]->spec.name.c_str(), nodes[to]->spec.name.c_str(), it.msg.methodLine.c_str(), it.msg["State"].c_str(), it.msg["Response"].c_str(), it.msg["CommitCount"].c_str());
            c.d[s].rx += it.msg.serialize(); watch(c.node[s], to, c.id, it.msg); if (onDeliver) onDeliver(c.node[s], to, it.msg); if (nodes[to]->spec.puppet) { nodes[to]->inbox.push_back(it.msg); c.d[s].rx.clear(); }
        }
        if (!c.open[0] && !c.open[1]) conns.erase(c.id);
        if (nodes[to]->node) { step(to); while (nodes[to]->node && nodes[to]->next <= rt::nowUs() && nodes[to]->node->_state != St::UNKNOWN && hasInput(to)) step(to); }
    }
    bool hasInput(int i) { for (auto p : nodes[i]->node->_peerList) if (p->socket && p->socket->recvBuffer.size()) return true; return false; }
    void watch(int from, int to, int conn, const SData& m) {
        if (SIEquals(m.methodLine, "STANDUP_RESPONSE") && SIEquals(m["Response"], "approve") && standupCount.count(to) && m["StateChangeCount"] == standupCount[to]) approvals[to][from] = conn;
    }
    void sent(int from, const SData& m) { if (SIEquals(m.methodLine, "STATE") && m["State"] == "STANDINGUP" && standupCount[from] != m["StateChangeCount"]) { standupCount[from] = m["StateChangeCount"]; approvals[from].clear(); } }
    // One event. False: nothing can happen any more (never, with running nodes).
    bool event() {
        for (;;) {
            if (!mc::noting() && !noMerge && !race && mc::visited(hash(), mc::deviationsLeft())) throw Ended();
            uint64_t now = rt::nowUs(); Next x = oldest();
            if (!x.c) { jumps = 0;
                bool any = false; for (auto& [id, c] : conns) for (auto& d : c.d) if (d.hold == QUIET) { d.hold = 0; any = true; } for (auto& n : nodes) if (n->paused == QUIET) { n->paused = 0; any = true; }
                if (any) continue;
                if (faults & (IDLECRASH | IDLEPAUSE)) {
                    vector<pair<int, int>> alt; for (size_t i = 0; i < nodes.size(); i++) if (nodes[i]->node && nodes[i]->paused <= now) { if (faults & IDLECRASH) alt.push_back({i, 0}); if (faults & IDLEPAUSE) alt.push_back({i, 1}); }
                    int d = mc::deviationsLeft() > 0 && interesting() ? mc::chooseDev(alt.size() + 1, "idle") : 0;
                    if (d) { auto [i, k] = alt[d - 1]; if (k) pause(i, now + 40 * SEC); else crash(i); continue; }
                }
                uint64_t t = now + SEC; for (auto& n : nodes) if (n->node) { if (n->paused > now) t = min(t, n->paused); else if (n->next > now) t = min(t, n->next); } for (auto& [id, c] : conns) for (auto& d : c.d) if (d.hold > now) t = min(t, d.hold);
                if (t <= now) t = now + 1; rt::advanceUs(t - now); for (auto it = parts.begin(); it != parts.end();) if (it->second <= t) it = parts.erase(it); else ++it;
                for (size_t i = 0; i < nodes.size(); i++) step(i);
                return true;
            }
            // messages take time: nodes that answer each other without end are slowed down
            if (now != busySince) { busySince = now; busy = 0; busyLimit = 60 + 30 * nodes.size(); for (auto& [id, c] : conns) for (int s = 0; s < 2; s++) if (c.d[s].hold <= now && nodes[c.node[1 - s]]->paused <= now) busyLimit += 4 * c.d[s].wire.size(); }
            if (busyLimit > 20000) mc::fail("the nodes of a cluster answer each other without end: more than 5000 messages on their way");
            if (++busy > busyLimit) { uint64_t t = now + 2 * SEC; if (++jumps % 16 < 5) for (auto& n : nodes) if (n->node && n->paused <= now && n->next > now) t = min(t, max(n->next, now + SEC / 20)); mc::note("%lu ms pass", (t - now) / 1000); rt::advanceUs(t - now); for (size_t i = 0; i < nodes.size(); i++) step(i); return true; }
            int to = x.c->node[1 - x.s]; vector<int> alt;
            if (faults && mc::deviationsLeft() > 0) { for (int f : {HOLDQ, HOLD3, HOLD40, RESET, CRASH, PAUSE40}) if (faults & f) { if ((f == CRASH || f == PAUSE40) && !nodes[to]->node) continue; alt.push_back(f); } }
            int d = alt.empty() ? 0 : mc::chooseDev(alt.size() + 1, "event");
            if (!d) { deliver(x); return true; }
            auto& link = x.c->d[x.s];
            switch (alt[d - 1]) {
                case HOLDQ: link.hold = QUIET; faulted = true; mc::note("link %s -> %s slow", nodes[x.c->node[x.s]]->spec.name.c_str(), nodes[to]->spec.name.c_str()); break;
                case HOLD3: link.hold = now + 3 * SEC; faulted = true; mc::note("link %s -> %s 3 s late", nodes[x.c->node[x.s]]->spec.name.c_str(), nodes[to]->spec.name.c_str()); break;
                case HOLD40: link.hold = now + 40 * SEC; faulted = cutOrCrash = true; mc::note("link %s -> %s 40 s late", nodes[x.c->node[x.s]]->spec.name.c_str(), nodes[to]->spec.name.c_str()); break;
                case RESET: { int a = x.c->node[0], b = x.c->node[1]; reset(*x.c); step(a); step(b); break; }
                case CRASH: crash(to); break;
                case PAUSE40: pause(to, now + 40 * SEC); break;
            }
            return true;
        }
    }
    function<bool()> interesting = [] { return true; };
    void pause(int i, uint64_t until) { mc::note("%s stalls", nodes[i]->spec.name.c_str()); faulted = cutOrCrash = true; nodes[i]->paused = until; }
    bool run(const function<bool()>& done, uint64_t seconds) { uint64_t end = rt::nowUs() + seconds * SEC; while (!done()) { if (rt::nowUs() >= end) return false; event(); } return true; }
    void enter(int p) { phase = p; phaseStart = rt::nowUs(); }
    // --- operations ---
    St state(int i) { return nodes[i]->node ? nodes[i]->node->_state.load() : St::UNKNOWN; }
    bool up(int i) { return nodes[i]->node; }
    vector<int> leaders() { vector<int> o; for (size_t i = 0; i < nodes.size(); i++) if (state(i) == St::LEADING) o.push_back(i); return o; }
    // A worker thread's commit at node i, as BedrockServer does it.
    bool commitAt(int i) {
        Node& n = *nodes[i]; bool ok = false; uint64_t id = 0; string hash, q; int k = ++commits;
        SQLiteScopedHandle h(*n.pool, n.pool->getIndex()); SQLite& db = h.db();
        if (!db.beginTransaction()) return false; if (!db.write("INSERT INTO t VALUES(" + to_string(1000 + k) + ", '" + n.spec.name + "');")) { db.rollback(); return false; }
        q = db.getUncommittedQuery(); SQLiteCore core(db); ok = core.commit(*n.node, id, hash, "check", false, nullptr);
        if (ok) { origins[hash] = {id, hash, q, i, true}; n.node->notifyCommit(); mc::note("%s commits %lu", n.spec.name.c_str(), id); }
        return ok;
    }
    bool commit(int i) {
        Node& n = *nodes[i]; if (!n.node || n.node->getState() != St::LEADING) return false;
        gStep = i; bool ok = commitAt(i);
        if (ok) { MC_CHECK(n.node->getState() == St::LEADING, "%s committed while %s", n.spec.name.c_str(), SQLiteNode::stateName(n.node->getState()).c_str()); checkJournal(i); step(i); }
        return ok;
    }
    // --- journals ---
    vector<shim::JournalEntry> journal(int i) { shim::Db d(nodes[i]->file); auto j = journalOf(d); return j; }
    void checkJournal(int i) {
        Node& n = *nodes[i]; if (!n.node) return; uint64_t c = n.node->_db.getCommitCount(); if (c == n.known.size() && n.checkedFull && c == n.seen) return;
        n.seen = c; n.checkedFull = true; bool p = shim::pointsEnabled; shim::pointsEnabled = false; auto im = shim::image(n.file); static map<uint64_t, vector<pair<string, string>>> memo; uint64_t h = shim::hashImage(im); auto it = memo.find(h);
        if (it == memo.end()) { checkImage(im, true, schema()); shim::Db d(im); vector<pair<string, string>> v; for (auto& e : journalOf(d)) v.emplace_back(e.hash, e.query); it = memo.emplace(h, v).first; }
        shim::pointsEnabled = p; auto& j = it->second;
        MC_CHECK(j.size() == c, "%s counts %lu commits, its journal has %zu", n.spec.name.c_str(), c, j.size());
        MC_CHECK(j.size() >= n.known.size(), "%s lost commits: %zu, then %zu", n.spec.name.c_str(), n.known.size(), j.size());
        for (size_t k = 0; k < n.known.size(); k++) MC_CHECK(j[k] == n.known[k], "commit %zu of %s changed", k + 1, n.spec.name.c_str());
        n.known = j; mc::compared();
    }
    bool prefix(int a, int b) { auto& x = nodes[a]->known; auto& y = nodes[b]->known; return x.size() <= y.size() && equal(x.begin(), x.end(), y.begin()); }
    bool compatible(int a, int b) { return prefix(a, b) || prefix(b, a); }
    // --- state hash: everything that determines what can happen from here ---
    uint64_t hash() {
        uint64_t now = rt::nowUs(), h = 77; auto add = [&](uint64_t v) { h = (h ^ v) * 0x9E3779B97F4A7C15ull; h ^= h >> 29; }; auto str = [&](const string& s) { h = mc::hashStr(s, h); }; auto rel = [&](uint64_t t) { add(t > now ? t > now + 3600 * SEC ? 1 : t - now + 1000 : t ? now - t > 100 * SEC ? 2 : (1ull << 40) + now - t : 0); };
        add(phase); add(busy > 100 && busySince == now ? busyLimit - busy : 0); add(jumps % 16); add(phaseStart ? now - phaseStart : 0); add(faulted); add(cutOrCrash); add(commits); add(userHash ? userHash() : 0); add(faults); for (auto& [k, v] : parts) { add(k.first * 10 + k.second); rel(v); }
        for (size_t i = 0; i < nodes.size(); i++) {
            Node& n = *nodes[i]; add(n.dead); add(n.stopping * 2 + n.announced); add(n.configured); rel(n.paused); rel(n.next); str(n.known.empty() ? "" : n.known.back().first); for (int fd : n.acceptQ) add(ordinal(fd)); if (!n.node) continue; SQLiteNode& x = *n.node;
            add((int) x._state.load()); add(x._priority); rel(x._stateTimeout); add(x._haveBeenWAITING * 2 + x._haveSeenPeerOnSameVersion); add(x._isShuttingDown); add(x._lastSentTransactionID); add(x._leadPeer.load() ? x._leadPeer.load()->id : 0); add(x._syncPeer ? x._syncPeer->id : 0); add(x._replicateThread != nullptr); add(x._replicateThreadShouldExitTime != 0); add(x._replicateQueue.size()); add(x._commitsToSend.size()); add(x._blockedCommandPortForBeingBehind); add(x._db._sharedData._commitEnabled); add(x._db._sharedData._committedTransactions.size()); add(x._lastLostQuorum != 0); add(x._pendingSynchronizeResponses);
            for (auto s : x._unauthenticatedIncomingSockets) { add(ordinal(s->s)); add(s->state.load()); rel(s->lastRecvTime); str(string(s->recvBuffer.c_str(), s->recvBuffer.size())); }
            for (auto p : x._peerList) { add(p->permaFollower * 2 + p->loggedIn); add(p->forked * 2 + p->subscribed); add(p->priority); add((int) p->state.load()); add((int) p->standupResponse.load()); str(p->version.load()); add(p->latency); rel(p->lastPingTime); str(p->commandAddress.load()); add(p->commitCount); str(p->hash.load()); if (!p->socket) { rel(p->nextReconnect); continue; } add(ordinal(p->socket->s)); add(p->socket->state.load()); rel(p->socket->lastRecvTime); str(string(p->socket->recvBuffer.c_str(), p->socket->recvBuffer.size())); str(string(p->socket->sendBuffer.c_str(), p->socket->sendBuffer.size())); }
        }
        // connections and what is on the wires, in the order in which it will be delivered
        vector<pair<uint64_t, uint64_t>> order;
        for (auto& [id, c] : conns) { add(ordinal(fdOf(c, 0))); add(c.node[0] * 16 + c.node[1]); add(c.open[0] + c.open[1] * 2 + c.shut[0] * 4 + c.shut[1] * 8 + c.up * 16 + c.refused * 32); for (int s = 0; s < 2; s++) { auto& d = c.d[s]; add(d.eof); rel(d.hold == QUIET ? now + 7200 * SEC : d.hold); add(d.hold == QUIET); str(d.rx); for (auto& it : d.wire) {
                if (!it.hash) { uint64_t g = h; h = it.kind; str(it.msg.methodLine); it.answer = SIEquals(it.msg.methodLine, "STANDUP_RESPONSE"); for (auto& [k, v] : it.msg.nameValueMap) { if (SIEquals(k, "Timestamp") || SIEquals(k, "leaderSendTime")) continue; str(k); if (SIEquals(k, "StateChangeCount")) it.count = atoi(v.c_str()); else str(v); } str(it.msg.content); it.hash = h | 1; h = g; }
                int own = it.answer ? c.node[1 - s] : c.node[s]; uint64_t m = it.hash * 31 + (it.count >= 0 && nodes[own]->node ? it.count - nodes[own]->node->_stateChangeCount + 1000 : 0);
                order.push_back({it.seq, m + ordinal(fdOf(c, s))}); } } }
        sort(order.begin(), order.end()); for (auto& o : order) add(o.second);
        for (auto& [k, m] : approvals) { add(k); for (auto& [j, c] : m) { add(j * 100 + ordinal(FD0 + c * 2)); } }
        return h;
    }
    uint64_t busySince = 0; int busy = 0, busyLimit = 0, jumps = 0;
    function<uint64_t()> userHash;
    int ordinal(int fd) { int k = 0; for (auto& [id, c] : conns) { if (id == (fd - FD0) / 2) return k * 2 + (fd & 1); k++; } return 999; }
};
bool* Cluster::gIdle = nullptr;
}
// --- the process boundary of the nodes ---
using cl::gCluster;
extern "C" {
uint64_t __wrap__ZN7SRandom6rand64Ev() { return 50000 + 137000 * (cl::gStep + 1); }
int __wrap__Z8S_socketRKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEEbbb(const string& host, bool, bool port, bool) { if (port) return cl::PORT0 + cl::gStep; return gCluster->connectTo(cl::gStep, host); }
int __wrap__Z8S_acceptiR11sockaddr_inb(int port, sockaddr_in& from, bool) { memset(&from, 0, sizeof from); auto& q = gCluster->nodes[port - cl::PORT0]->acceptQ; if (q.empty()) return -1; int fd = q.front(); q.pop_front(); return fd; }
bool __wrap__Z12S_recvappendiR11SFastBuffer(int fd, SFastBuffer& b) { int s; auto c = gCluster->of(fd, s); if (!c) return false; if (!c->up && !c->refused) return !c->shut[s]; auto& in = c->d[1 - s]; if (!in.rx.empty()) { b += in.rx; in.rx.clear(); } return !(in.eof || c->shut[s] || c->refused); }
bool __wrap__Z13S_sendconsumeiR11SFastBuffer(int fd, SFastBuffer& b) {
    int s; auto c = gCluster->of(fd, s); if (b.empty()) return true; if (!c || c->shut[s] || c->refused || (c->d[1 - s].eof && !c->open[1 - s])) return false; if (!c->up) return true;
    string data(b.c_str(), b.size()); b.consumeFront(b.size()); if (!c->open[1 - s]) return true;
    while (!data.empty()) { SData m; int n = m.deserialize(data); if (!n) mc::internalError("part of a message is sent"); data.erase(0, n); c->d[s].wire.push_back({++gCluster->seq, 'M', m}); gCluster->sent(c->node[s], m); }
    return true;
}
int __wrap__Z7S_closePi(int* fd) { int s; if (gCluster) { auto c = gCluster->of(*fd, s); if (c) { bool both; gCluster->closeEnd(*c, s); both = !c->open[0] && !c->open[1]; if (both) gCluster->conns.erase(c->id); } } *fd = -1; return 0; }
int __real_shutdown(int, int); int __real_close(int); int __real_getsockopt(int, int, int, void*, socklen_t*); int __real_ioctl(int, unsigned long, ...); void __real_abort();
int __wrap_shutdown(int fd, int how) { if (fd < cl::FD0) return __real_shutdown(fd, how); int s; if (gCluster) { auto c = gCluster->of(fd, s); if (c) gCluster->endStream(*c, s); } return 0; }
int __wrap_close(int fd) { if (fd < cl::FD0) return __real_close(fd); return 0; }
int __wrap_getsockopt(int fd, int l, int o, void* v, socklen_t* n) { if (fd < cl::FD0) return __real_getsockopt(fd, l, o, v, n); int s; auto c = gCluster->of(fd, s); *(int*) v = c && !c->refused ? 0 : ECONNREFUSED; return 0; }
int __wrap_ioctl(int fd, unsigned long r, ...) { va_list a; va_start(a, r); void* p = va_arg(a, void*); va_end(a); if (fd < cl::FD0) return __real_ioctl(fd, r, p); int s; auto c = gCluster->of(fd, s); int n = 0; if (c && c->open[1 - s]) for (auto& i : c->d[s].wire) if (i.kind == 'M') n += 100; *(int*) p = n; return 0; }
void __wrap_abort() { if (cl::gAbort) siglongjmp(*cl::gAbort, 1); __real_abort(); }
}
