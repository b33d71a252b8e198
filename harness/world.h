// A leading server with scripted commands, simulated connections, and what must hold for every answered command.
#pragma once
#include "core.h"
#include <sqlitecluster/SQLiteNode.h>
#include <sqlitecluster/SQLitePeer.h>
typedef SQLiteNodeState St;
struct Script {
    enum { NONE, OK, FAIL, OTHER };                                                  // prePeek and postProcess
    enum { GO_ON, DONE, DONE_201, PEEK_401, PEEK_OTHER, PEEK_TIMEOUT };              // peek
    enum { WRITE, NOTHING, W_402, W_CONSTRAINT, W_OTHER, W_203, W_TIMEOUT, EMPTY_COMMIT, W_STALE };   // process
    int pre = NONE, peek = GO_ON, process = WRITE, post = NONE, conflicts = 0; bool mock = false;
    string show() const { static const char* a[] = {"no", "good", "failing", "throwing"}; static const char* b[] = {"not enough", "enough", "answering 201", "failing with 401", "throwing", "timing out"}; static const char* c[] = {"writing", "doing nothing", "writing and failing with 402", "violating a constraint", "writing and throwing", "writing and answering 203", "writing and timing out", "committing nothing", "answering differently when it conflicts"}; return a[pre] + " prePeek, peek "s + b[peek] + ", process " + c[process] + ", " + a[post] + " postProcess, " + to_string(conflicts) + " conflicts" + (mock ? ", mocked" : ""); }
};
struct Fate { int replies = 0, peeks = 0, processes = 0, prePeeks = 0, posts = 0, remote = 0; SData reply; uint64_t repliedAt = 0; function<void(int phase)> hook; function<bool(SQLite&)> conflict; bool destroyed = false, unsure = false, conflicted = false; };
struct Command : BedrockCommand {
    Script s; Fate* f; string name;
    Command(SData&& r, const Script& s_, Fate* f_, BedrockPlugin* p = nullptr) : BedrockCommand(SQLiteCommand(move(r)), p), s(s_), f(f_) { name = request["name"]; _commitEmptyTransactions = s.process == Script::EMPTY_COMMIT; }
    ~Command() { f->destroyed = true; }
    void handleFailedReply() override { f->replies++; f->reply = response; f->repliedAt = rt::nowUs(); mc::note("%s is answered \"%s\"", name.c_str(), response.methodLine.c_str()); }
    bool shouldPrePeek() override { return s.pre; }
    bool shouldPostProcess() override { return s.post; }
    void at(int phase) { if (f->hook) f->hook(phase); }
    void prePeek(SQLite& db) override { f->prePeeks++; at(0); SQResult r; db.read("SELECT n FROM s;", r); if (s.pre == Script::FAIL) STHROW("402 Pre"); if (s.pre == Script::OTHER) throw runtime_error("pre"); response["fromPrePeek"] = "1"; }
    bool peek(SQLite& db) override {
        f->peeks++; at(1); MC_CHECK(db.insideTransaction(), "peek outside of a transaction"); SQResult r; db.read("SELECT n FROM s;", r); jsonContent["old"] = r[0][0]; at(6);
        switch (s.peek) { case Script::DONE: return true; case Script::DONE_201: response.methodLine = "201 Peeked"; return true; case Script::PEEK_401: STHROW("401 Peek"); case Script::PEEK_OTHER: throw runtime_error("peek"); case Script::PEEK_TIMEOUT: throw SQLite::timeout_error("peek", 1); }
        return false;
    }
    void process(SQLite& db) override {
        f->processes++; at(2); MC_CHECK(db.insideTransaction(), "process outside of a transaction"); SQResult r; db.read("SELECT n FROM s;", r); jsonContent["old"] = r[0][0];
        auto write = [&] { if (!db.write("UPDATE s SET n=n+1 WHERE id=1;") || !db.write("INSERT INTO t(cmd, seen) SELECT " + SQ(name) + ", n FROM s;")) STHROW("502 Failed to write"); };
        bool again = f->conflict && f->processes <= s.conflicts;
        switch (s.process) {
            case Script::WRITE: write(); break; case Script::NOTHING: case Script::EMPTY_COMMIT: break;
            case Script::W_402: write(); STHROW("402 Process"); case Script::W_CONSTRAINT: write(); db.write("INSERT INTO u VALUES(1);"); break; case Script::W_OTHER: write(); throw runtime_error("process");
            case Script::W_203: write(); response.methodLine = "203 Written"; jsonContent["x"] = "1"; response["h"] = "1"; break; case Script::W_TIMEOUT: write(); throw SQLite::timeout_error("process", 1);
            case Script::W_STALE: write(); if (again && (again = f->conflict(db))) { f->conflicted = true; response.methodLine = "299 Abandoned"; response["stale"] = "1"; jsonContent["stale"] = "1"; } break;
        }
        if (again && !f->conflicted) f->conflict(db);
        f->conflicted = false;
        at(3);
    }
    void postProcess(SQLite& db) override { f->posts++; at(4); MC_CHECK(!db.insideTransaction(), "postProcess inside of the transaction"); if (s.post == Script::FAIL) STHROW("405 Post"); if (s.post == Script::OTHER) throw runtime_error("post"); response["fromPostProcess"] = "1"; }
    bool writes() const { return s.process == Script::WRITE || s.process == Script::W_203 || s.process == Script::W_STALE; }
};
#ifndef WORLD_MORE
#define WORLD_MORE ""
#endif
static const char* SCHEMA = WORLD_MORE "CREATE TABLE t(cmd TEXT, seen INTEGER);CREATE TABLE s(id INTEGER PRIMARY KEY, n INTEGER);INSERT INTO s VALUES(1,0);CREATE TABLE u(k INTEGER PRIMARY KEY);INSERT INTO u VALUES(1);";
// A leading server with everything a worker thread uses.
struct World {
    BedrockServer s; string file; shared_ptr<SQLitePool> pool; shared_ptr<SQLiteNode> node; unique_ptr<SQLite> other; map<string, unique_ptr<Fate>> fates; map<string, Script> scripts;
    static SData args() { SData a; a["-nodeName"] = "n1"; return a; }
    World(int retries = 3, const char* peers = "") : s(St::LEADING, args()) {
        sqlSetup(); rt::NoPoints np; rt::setClockTick(0); file = seededFile(2, SCHEMA); pool = make_shared<SQLitePool>(8, file, 0, 1000000, 2); s._dbPool = pool; other.reset(new SQLite(pool->getBase()));
        s._configuredPriority = 100; node = make_shared<SQLiteNode>(s, pool, "n1", "", peers, s._configuredPriority, 1000000, "v1", "localhost:1"); s._syncNode = node; s._upgradeCompleted = true; s._maxConflictRetries = retries; s._shutdownState = BedrockServer::RUNNING; s._version = "v1"; s._leaderVersion = "v1"; s._requestCount = 0; s._shouldBackup = false; s._pluginsDetached = false; s._shouldBlockNewSocketThreads = false; s._isCommandPortLikelyBlocked = false;
        go(St::WAITING); go(St::STANDINGUP); go(St::LEADING);
    }
    ~World() { rt::NoPoints np; s._commandQueue.clear(); s._blockingCommandQueue.clear(); s._futureCommitCommands.clear(); s._clusterMessenger = nullptr; s._syncNode = nullptr; node = nullptr; other.reset(); s._dbPool = nullptr; pool = nullptr; }
    void go(St st) { unique_lock<decltype(node->_stateMutex)> l(node->_stateMutex); node->_changeState(st); mc::note("n1 is %s", SQLiteNode::stateName(st).c_str()); }
    Fate& fate(const string& n) { auto& f = fates[n]; if (!f) f.reset(new Fate); return *f; }
    unique_ptr<BedrockCommand> make(const string& name, const Script& sc, const map<string, string>& headers = {}, const string& line = "Do") { SData r(line); r["name"] = name; for (auto& [k, v] : headers) r[k] = v; if (sc.mock) r["mockRequest"] = "true"; scripts[name] = sc; auto c = make_unique<Command>(move(r), sc, &fate(name)); c->initiatingClientID = 1; return c; }
    // Until it has been answered: what the worker threads do with what is in the queues.
    void run(unique_ptr<BedrockCommand> c, const string& name, bool blocking = false, bool dedicated = true, int limit = 60) {
        s.runCommand(move(c), blocking, dedicated); Fate& f = fate(name);
        for (int i = 0; !f.replies; i++) {
            MC_CHECK(i < limit, "%s is moved between queues without end", name.c_str());
            size_t q = s._commandQueue.size(), b = s._blockingCommandQueue.size(), w = s._futureCommitCommands.size(); MC_CHECK(q + b + w >= 1 && !f.destroyed, "%s was neither answered nor queued", name.c_str());
            auto take = [&](BedrockCommandQueue& from, bool blk) { unique_ptr<BedrockCommand> x; try { x = from.get(100000); } catch (const BedrockCommandQueue::timeout_error&) { return; } mc::note("%s taken from the %s queue", x->request["name"].c_str(), blk ? "blocking" : "command"); s.runCommand(move(x), blk, false); };
            if (b) take(s._blockingCommandQueue, true); else if (q) take(s._commandQueue, false); else return;
        }
    }
    int count(const string& name) { rt::NoPoints np; shim::Db d(file); return atoi(d.query("SELECT COUNT(*) FROM t WHERE cmd='" + name + "'")[0][0].c_str()); }
    uint64_t journal() { rt::NoPoints np; shim::Db d(file); return journalOf(d).size(); }
    // Nothing of the command stays behind.
    void clean(const string& what) {
        rt::NoPoints np; MC_CHECK(pool->_inUseHandles.empty(), "%s keeps a database handle", what.c_str());
        for (auto* d : pool->_objects) if (d) { MC_CHECK(!d->insideTransaction() && d->getUncommittedQuery().empty(), "%s leaves a transaction open", what.c_str()); }
        for (auto* d : pool->_objects) if (d) { MC_CHECK(d->beginTransaction(SQLite::TRANSACTION_TYPE::EXCLUSIVE), "after %s no transaction can be begun", what.c_str()); bool ok = false; try { ok = d->write("UPDATE s SET n=n WHERE id=1;"); } catch (const exception& e) {} MC_CHECK(ok, "after %s its handle cannot be written with", what.c_str()); MC_CHECK(!d->getUncommittedQuery().empty() || true, "x"); d->rollback(); }
        bool free = pool->getBase()._sharedData.commitLock.try_lock(); MC_CHECK(free, "%s keeps the commit lock", what.c_str()); pool->getBase()._sharedData.commitLock.unlock();
        checkHistory(file, true, SCHEMA);
    }
    // What must hold for every answered command, whatever happened meanwhile.
    void answered(const string& name) {
        Fate& f = fate(name); int n = count(name), total = n + f.remote; string& line = f.reply.methodLine; const Script& sc = scripts[name]; Command* c = nullptr; (void) c;
        MC_CHECK(f.replies == 1, "%s was answered %d times", name.c_str(), f.replies); MC_CHECK(f.destroyed && !s._commandQueue.size() + 0 >= 0, "x");
        MC_CHECK(total <= 1, "%s was executed %d times (%d here, %d at another leader), and answered \"%s\"", name.c_str(), total, n, f.remote, line.c_str());
        bool success = SStartsWith(line, "2"), wr = sc.process == Script::WRITE || sc.process == Script::W_203 || sc.process == Script::W_STALE;
        if (success && wr && !sc.mock && sc.peek == Script::GO_ON) MC_CHECK(total == 1, "%s was answered \"%s\" but not executed", name.c_str(), line.c_str());
        if (!success && !f.unsure && !(f.posts && sc.post > Script::OK)) MC_CHECK(total == 0, "%s was executed but answered \"%s\"", name.c_str(), line.c_str());
        mc::compared();
    }
};
// --- the leader that commands are escalated to, when it is not simulated down to its connections ---
static World* gW = nullptr; static function<bool(BedrockCommand&, bool)> gRemote;
extern "C" bool __real__ZN22SQLiteClusterMessenger9runOnPeerER14BedrockCommandb(SQLiteClusterMessenger*, BedrockCommand&, bool);
extern "C" bool __wrap__ZN22SQLiteClusterMessenger9runOnPeerER14BedrockCommandb(SQLiteClusterMessenger* m, BedrockCommand& c, bool leader) { if (!gRemote) return __real__ZN22SQLiteClusterMessenger9runOnPeerER14BedrockCommandb(m, c, leader); return gRemote(c, leader); }
// --- connections: of a client, and to the leader ---
struct Conn { string tx, rx; bool eof = false, dead = false, client = false, closed = false; uint64_t lastTx = 0; };
static map<int, Conn> gConns; static int gNextFd = 30000; static bool gFaults = false, gClientFaults = false; static function<void(int fd, Conn&)> gLeader; static bool gBroken = false;
static Conn* conn(int fd) { auto it = gConns.find(fd); return it == gConns.end() ? nullptr : &it->second; }
extern "C" ssize_t send(int fd, const void* p, size_t n, int) {
    Conn* c = conn(fd); if (!c) { errno = EBADF; return -1; } if (c->dead || c->eof || c->closed) { errno = EPIPE; return -1; }
    int how = gFaults && !c->client ? mc::chooseDev(4, "send") : 0; if (how == 1 && n > 1) n = n / 2; if (how == 2) { errno = EAGAIN; return -1; } if (how == 3) { mc::note("sending fails"); c->dead = true; errno = ECONNRESET; return -1; }
    c->tx.append((const char*) p, n); c->lastTx = rt::nowUs(); if (!c->client && gLeader) gLeader(fd, *c); return n;
}
extern "C" ssize_t recv(int fd, void* p, size_t n, int) {
    Conn* c = conn(fd); if (!c) { errno = EBADF; return -1; } if (c->dead) { errno = ECONNRESET; return -1; } if (c->closed) return 0;
    if (c->rx.empty()) { if (c->eof) return 0; errno = EAGAIN; return -1; } n = min(n, c->rx.size()); int how = gFaults ? mc::chooseDev(4, "receive") : 0; if (how == 1 && n > 1) n = n / 2; if (how == 2) { errno = EINTR; return -1; } if (how == 3) { mc::note("receiving fails"); c->dead = gBroken = true; errno = ECONNRESET; return -1; }
    memcpy(p, c->rx.data(), n); c->rx.erase(0, n); return n;
}
extern "C" ssize_t recvfrom(int fd, void* p, size_t n, int f, sockaddr*, socklen_t*) { return recv(fd, p, n, f); }
static int pollConn(int fd, short events) { Conn* c = conn(fd); if (!c) return fd >= 30000 ? POLLNVAL : -1; if (c->dead) return POLLERR | POLLHUP; int r = events & POLLOUT; if ((c->rx.size() || c->eof || c->closed) && (events & POLLIN)) r |= POLLIN; if (c->eof && (events & POLLRDHUP)) r |= POLLRDHUP; if (c->closed) r |= POLLHUP; return r; }
int connectTo(const string&, bool, bool, bool) __asm__("__wrap__Z8S_socketRKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEEbbb");
static function<bool(const string&)> gRefuse;
int connectTo(const string& host, bool, bool port, bool) { if (port || (gRefuse && gRefuse(host))) return -1; if (gFaults && mc::chooseDev(2, "connect")) { mc::note("connecting fails"); return -1; } int fd = gNextFd++; gConns[fd]; return fd; }
static void netReset() { gConns.clear(); gNextFd = 30000; gFaults = gBroken = false; gLeader = nullptr; gRefuse = nullptr; rt::vpoll = pollConn; }
static void drain(World& w, const vector<string>& names) {
    rt::NoPoints np;
    for (int i = 0; i < 80; i++) {
        bool all = true; for (auto& n : names) all = all && w.fate(n).destroyed; if (all) return; MC_CHECK(i < 79, "commands are moved between queues without end");
        auto take = [&](BedrockCommandQueue& from, bool blk) { unique_ptr<BedrockCommand> x; try { x = from.get(100000); } catch (const BedrockCommandQueue::timeout_error&) { return; } w.s.runCommand(move(x), blk, false); };
        MC_CHECK(w.s._blockingCommandQueue.size() + w.s._commandQueue.size(), "a command was neither answered nor queued"); if (w.s._blockingCommandQueue.size()) take(w.s._blockingCommandQueue, true); else take(w.s._commandQueue, false);
    }
}
