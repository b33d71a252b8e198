// B05: the running server. Real code: BedrockServer::syncWrapper/sync/worker/postPoll/_beginShutdown/_resetServer/handleSocket/runCommand, the queues, SQLiteNode alone, SQLite.
#include "connection.h"
#include <dlfcn.h>
// The server notes its end in a file under /var/log: not here.
extern "C" FILE* fopen64(const char* p, const char* m) { static auto real = (FILE* (*)(const char*, const char*)) dlsym(RTLD_NEXT, "fopen64"); if (!strncmp(p, "/var/log/", 9)) return nullptr; return real(p, m); }
static const uint64_t S1 = 1000000;
struct Live;
struct Server : Scripts {
    Live& l; int upgrades = 0, failures = 0, detached = 0, stopped = 0; uint64_t slowUpgrade = 0;
    Server(World& w_, Live& l_) : Scripts(w_), l(l_) {}
    void upgradeDatabase(SQLite& db) override; void onDetach() override { detached++; } void serverStopping() override { stopped++; }
    struct Live_ : Answering { Server& p; Live_(SData&& r, const Script& s, Fate* f, Server& p_) : Answering(move(r), s, f), p(p_) {} bool peek(SQLite& db) override; };
    unique_ptr<BedrockCommand> getCommand(SQLiteCommand&& c) override { if (c.request.methodLine != "Do") return nullptr; string n = c.request["name"]; if (w.scripts.count(n)) mc::fail("%s is made twice", n.c_str()); Script s = script(c.request); w.scripts[n] = s; Fate& f = w.fate(n); if (hooks.count(n)) f.hook = hooks[n]; SData r = c.request; return make_unique<Live_>(move(r), s, &f, *this); }
};
struct Visit { SData request; Conn* c = nullptr; string name; uint64_t from = 0, connected = 0, answered = 0; bool done = false; uint64_t late = 0; int needs = 0; SData answer; };
struct Live {
    World w; Server plugin; thread sync, mainLoop; vector<thread> threads; vector<unique_ptr<Visit>> visits; atomic<bool> shutdown{false}; uint64_t shutdownAt = 0, syncEnd = 0, endAt = 0; vector<uint64_t> commits; int upgradedAt = 0; uint64_t base = 0; bool ready = false; uint64_t started = 0;
    Live() : w(3), plugin(w, *this) {
        netReset(); rt::NoPoints np; w.s._syncNode = nullptr; w.node = nullptr; w.s._dbPool = nullptr; w.pool = nullptr; auto& a = const_cast<SData&>(w.s.args); a["-db"] = w.file; a["-workerThreads"] = "2"; a["-journalTables"] = "2"; a["-maxJournalSize"] = "1000000"; a["-cacheSize"] = "0"; a["-nodeHost"] = "localhost:1"; a["-checkpointMode"] = "PASSIVE"; a["-peerList"] = ""; for (auto n : {"-serverHost", "-commandPortPrivate", "-controlPort"}) a[n] = "localhost:1";
        w.s._dbPoolSize = 8; w.s._upgradeCompleted = false; w.s._syncLoopShouldBeRunning = true; w.s._shutdownState = BedrockServer::RUNNING; w.s._detach = false; w.s._outstandingSocketThreads = 0; w.s._shutdownTime = chrono::time_point<chrono::steady_clock>{}; w.s._commandPortBlockReasons.clear(); w.s._maxSocketThreads = 100; w.s.plugins[plugin.getName()] = &plugin; plugin.script = [](const SData& r) { Script s; if (r.isSet("read")) s.peek = Script::DONE_201; return s; }; base = w.journal(); rt::setClockTick(1); started = rt::nowUs();
    }
    void start() {
        sync = thread([this] { rt::nameFiber("sync"); w.s.syncWrapper(); syncEnd = rt::nowUs(); mc::note("the sync thread ends"); });
        mainLoop = thread([this] { rt::nameFiber("main"); while (!w.s.shutdownComplete()) { fd_map fdm; w.s.prePoll(fdm); S_poll(fdm, S1); uint64_t next = 0; if (shutdown.exchange(false)) { mc::note("the server is told to shut down"); shutdownAt = rt::nowUs(); w.s._beginShutdown("signal"); } w.s.postPoll(fdm, next); } });
    }
    void stop() { shutdown = true; w.s._notifyDone.push(true); }
    bool open() { return w.s._shutdownState == BedrockServer::RUNNING && !w.s._detach && (w.s.getState() == St::LEADING || w.s.getState() == St::FOLLOWING); }
    // A client that connects (if and as soon as the port is open), sends one request, and waits for the end of the connection.
    Visit& visit(SData r, uint64_t after = 0, bool control = false, uint32_t address = 0x0A000001, uint64_t late = 0) {
        rt::NoPoints np; visits.emplace_back(new Visit); Visit* v = visits.back().get(); v->request = r; v->late = late; v->name = r["name"].empty() ? r.methodLine : r["name"]; v->needs = r.isSet("commitCount") ? (int) (r.calcU64("commitCount") - base) : 0; int fd = CLIENT + (int) visits.size();
        threads.emplace_back([this, v, after, fd, control, address] {
            rt::nameFiber(v->name); if (after) usleep(after); if (!control) { for (int i = 0; i < 100 && !open() && !over(); i++) usleep(50000); }
            { lock_guard<decltype(w.s._portMutex)> l(w.s._portMutex); if (!control && !open()) { mc::note("%s cannot connect", v->name.c_str()); return; } w.s._outstandingSocketThreads++; }
            Conn& c = gConns[fd]; c.client = true; v->c = &c; thread sender; auto send = [v] { Conn& c = *v->c; if (c.closed) return; c.rx = v->request.serialize(); v->connected = rt::nowUs(); mc::note("%s is sent", v->name.c_str()); }; if (v->late) sender = thread([v, send] { rt::nameFiber(v->name + "-sender"); usleep(v->late); send(); }); else send();
            STCPManager::Socket s(fd, STCPManager::Socket::CONNECTED, false); s.addr.sin_addr.s_addr = htonl(address); w.s.handleSocket(move(s), control, !control, false); v->done = true; if (sender.joinable()) sender.join(); v->answered = c.lastTx; SParseHTTP(c.tx, v->answer.methodLine, v->answer.nameValueMap, v->answer.content); mc::note("%s gets \"%s\" after %lu ms", v->name.c_str(), v->answer.methodLine.c_str(), (v->answered - v->connected) / 1000);
        });
        return *v;
    }
    bool over() { return syncEnd || w.s._shutdownState != BedrockServer::RUNNING; }
    void commit() { rt::NoPoints np; if (over()) { commits.push_back(UINT64_MAX); return; } string h; uint64_t id; MC_CHECK(w.other->beginTransaction(SQLite::TRANSACTION_TYPE::EXCLUSIVE) && w.other->write("UPDATE s SET n=n+100 WHERE id=1;") && w.other->prepare(&id, &h) && w.other->commit("x") == SQLITE_OK, "other commit"); commits.push_back(rt::nowUs()); mc::note("commit %lu is there", id); }
    void join() { for (auto& t : threads) t.join(); sync.join(); mainLoop.join(); }
    // What must hold when the server has ended.
    void ended() {
        rt::NoPoints np; string o; size_t queued = w.s._commandQueue.size() + w.s._blockingCommandQueue.size() + w.s._futureCommitCommands.size() + w.s._futureCommitCommandTimeouts.size(); MC_CHECK(!queued, "%zu commands are left in the queues", queued); MC_CHECK(!BedrockCommand::getCommandCount(), "%zu commands are left", (size_t) BedrockCommand::getCommandCount()); MC_CHECK(!w.s._outstandingSocketThreads, "%d connections are left", w.s._outstandingSocketThreads.load());
        MC_CHECK(!w.s._dbPool && !atomic_load(&w.s._syncNode), "the database is still open after the end"); MC_CHECK(plugin.stopped >= 1, "the plugins were not told");
        uint64_t last = shutdownAt; for (auto& v : visits) if (v->connected) {
            if (v->late && v->c->tx.empty() && !w.scripts.count(v->name)) { MC_CHECK(v->done && v->c->closed, "the connection of %s was not ended", v->name.c_str()); v->connected = 0; o += "- "; continue; }   // never read
            MC_CHECK(v->done && v->c->closed, "the connection of %s was not ended", v->name.c_str()); SData a; int n = SParseHTTP(v->c->tx, a.methodLine, a.nameValueMap, a.content); MC_CHECK(n > 0 && (size_t) n == v->c->tx.size(), "%s is not answered once: %s", v->name.c_str(), v->c->tx.c_str()); last = max(last, v->answered); o += a.methodLine + " ";
            if (v->request.methodLine != "Do") continue; bool reads = v->request.isSet("read"), ok = a.methodLine[0] == '2' && !SStartsWith(a.methodLine, "202"), later = SStartsWith(a.methodLine, "202"); int executed = w.count(v->name);
            MC_CHECK(executed <= 1, "%s was executed %d times", v->name.c_str(), executed); if (!reads && !later) MC_CHECK(executed == ok, "%s was executed %d times and answered \"%s\"", v->name.c_str(), executed, a.methodLine.c_str()); if (ok) MC_CHECK(a["for"] == v->name, "%s gets the answer to %s", v->name.c_str(), a["for"].c_str());
            if (ok && a.isSet("commitCount")) MC_CHECK(a.calcU64("commitCount") >= base + v->needs, "%s depends on commit %lu and is answered with commit %s", v->name.c_str(), base + v->needs, a["commitCount"].c_str());
        }
        bool free = w.other->_sharedData.commitLock.try_lock(); MC_CHECK(free, "the commit lock is still held"); w.other->_sharedData.commitLock.unlock(); MC_CHECK(w.other->beginTransaction(SQLite::TRANSACTION_TYPE::EXCLUSIVE), "no transaction can be begun"); w.other->rollback(); checkHistory(w.file, true, SCHEMA); mc::compared(visits.size()); mc::outcome(o + to_string(plugin.upgrades)); w.s.plugins.clear();
        MC_CHECK(syncEnd && syncEnd < last + 6 * S1, "the server needs %lu ms to end after its last answer", (syncEnd - last) / 1000); mc::state(o + to_string((syncEnd - started) / 10000));
    }
    void answeredAs(Visit& v, const string& line) { MC_CHECK(v.connected && SStartsWith(v.answer.methodLine, line), "%s is answered \"%s\" instead of \"%s\"", v.name.c_str(), v.answer.methodLine.c_str(), line.c_str()); }
};
void Server::upgradeDatabase(SQLite& db) {
    upgrades++; mc::note("the database is upgraded"); MC_CHECK(w.s.getState() == St::LEADING, "the database is upgraded while %s", SQLiteNode::stateName(w.s.getState()).c_str()); MC_CHECK(!l.ready, "the database is upgraded again while commands run"); if (slowUpgrade) usleep(slowUpgrade);
    if (!db.write("CREATE TABLE IF NOT EXISTS up(x);") || !db.write("INSERT INTO up VALUES(1);")) STHROW("502 Failed to write"); if (failures > 0) { failures--; STHROW("502 Failed to upgrade"); }
}
bool Server::Live_::peek(SQLite& db) {
    SQResult r; db.read("SELECT COUNT(*) FROM sqlite_master WHERE name='up';", r); MC_CHECK(r.size() == 1 && r[0][0] == "1", "%s runs before the database is upgraded", name.c_str()); p.l.ready = true;
    uint64_t need = request.calcU64("commitCount"); bool done = Answering::peek(db); if (need) { db.read("SELECT n/100 + (SELECT COUNT(*) FROM t) + (SELECT COUNT(*) FROM up) FROM s;", r); uint64_t seen = p.l.base + stoull(r[0][0]); MC_CHECK(db.getCommitCount() >= need && seen >= need, "%s depends on commit %lu, and runs at commit %lu with the data of commit %lu", name.c_str(), need, db.getCommitCount(), seen); }
    return done;
}
static SData request(const string& name, const map<string, string>& h = {}) { SData r("Do"); r["name"] = name; r["Connection"] = "close"; for (auto& [k, v] : h) r[k] = v; return r; }
static void waitReady(Live& l) { for (int i = 0; i < 200 && !l.w.s._upgradeCompleted; i++) usleep(50000); MC_CHECK(l.w.s._upgradeCompleted, "the server is not ready after 10 s"); }
// Requests that depend on commits that come, come too late, or never.
static void depending(int clients, bool stop) {
    rt::setEarlyTimers(false); rt::setAtomicPoints(false); Live l; static const vector<uint64_t> when = {300000, 1500000}; vector<Visit*> vs; int others = mc::choose(3, "commits"); static const vector<string> T = {"6000", "1200", "1000"}; vector<int> ts; 
    l.start(); waitReady(l); uint64_t t0 = rt::nowUs();
    // The upgrade is commit base+1.
    for (int i = 0; i < clients; i++) { int needs = mc::choose(4, "needs"); int t = stop ? 1 + mc::choose(2, "timeout") : mc::choose(i ? 2 : 2, "timeout"); ts.push_back(t); map<string, string> h = {{"timeout", T[t]}}; if (needs) h["commitCount"] = to_string(l.base + needs); if (i || mc::choose(2, "reads")) h["read"] = "1"; mc::note("c%d needs commit %d, timeout %s", i, needs, T[t].c_str()); Visit& v = l.visit(request("c" + to_string(i), h)); v.needs = needs; vs.push_back(&v); }
    uint64_t at = 0; static const vector<uint64_t> stops = {100000, 700000, 2000000}; uint64_t end = stop ? mc::pick(stops, "shutdown") : 0; bool told = false;
    for (int i = 0; i < others; i++) { if (stop && !told && end <= when[i]) { usleep(end - at); at = end; l.stop(); told = true; } usleep(when[i] - at); at = when[i]; l.commit(); }
    if (!told) { if (stop) usleep(end > at ? end - at : 0); else usleep((T[ts[0]] == T[0] || T[ts.back()] == T[0] ? 8500000 : 4200000) - at); l.stop(); }
    l.join(); l.ended();
    for (int i = 0; i < clients; i++) {
        Visit& v = *vs[i]; if (!v.connected) continue; uint64_t timeout = v.connected + stoull(T[ts[i]]) * 1000; bool ok = v.answer.methodLine[0] == '2';
        // The moment at which the commit was there: a writing command commits as well, so that only the latest is known.
        uint64_t there = v.needs <= 1 ? t0 : v.needs - 2 < others ? l.commits[v.needs - 2] : UINT64_MAX;
        if (there != UINT64_MAX && there + 2500000 < timeout) { MC_CHECK(ok, "%s is answered \"%s\" although commit %d was there in time", v.name.c_str(), v.answer.methodLine.c_str(), v.needs); MC_CHECK(v.answered < max(there, v.connected) + 2500000, "%s is answered %lu ms after the commit it depends on", v.name.c_str(), (v.answered - max(there, v.connected)) / 1000); }
        if (!ok) { MC_CHECK(SStartsWith(v.answer.methodLine, "555"), "%s is answered \"%s\"", v.name.c_str(), v.answer.methodLine.c_str()); MC_CHECK(v.answered >= timeout, "%s times out %lu ms early", v.name.c_str(), (timeout - v.answered) / 1000); }
        MC_CHECK(v.answered < timeout + 2500000, "%s is answered %lu ms after its time", v.name.c_str(), (v.answered - timeout) / 1000);
    }
}
// Clients come while the server starts; the upgrade may fail at first.
static void starting() {
    rt::setEarlyTimers(false); rt::setAtomicPoints(false); Live l; l.plugin.failures = mc::choose(3, "failing upgrades"); if (mc::choose(2, "slow upgrade")) l.plugin.slowUpgrade = 1500000; int fails = l.plugin.failures; static const vector<uint64_t> W = {0, 400000, 3000000}; uint64_t w0 = mc::pick(W, "first client");
    l.start(); Visit &a = l.visit(request("a"), w0), &b = l.visit(request("b", {{"read", "1"}}), mc::choose(2, "second client") ? 200000 : 0); usleep(12 * S1); l.stop(); l.join(); l.ended(); l.answeredAs(a, "200"); l.answeredAs(b, "201");
    MC_CHECK(l.plugin.upgrades == fails + 1, "the database was upgraded %d times, failing %d times", l.plugin.upgrades, fails); rt::NoPoints np; shim::Db d(l.w.file); MC_CHECK(d.query("SELECT COUNT(*) FROM up")[0][0] == "1", "the upgrade was committed %s times", d.query("SELECT COUNT(*) FROM up")[0][0].c_str());
}
// The server shuts down at some moment, with commands of every kind.
static void stopping(bool detach) {
    rt::setEarlyTimers(false); rt::setAtomicPoints(false); Live l; static const vector<uint64_t> at = {0, 100000, 800000, 2500000}; uint64_t when = mc::pick(at, "shutdown"); int kind = mc::choose(6, "command"); bool early = !detach && mc::choose(2, "while starting"); if (early) l.plugin.slowUpgrade = 600000;
    map<string, string> h; if (kind == 1) h["read"] = "1"; if (kind == 3) h["Connection"] = "forget"; if (kind == 4) h["commandExecuteTime"] = to_string(rt::nowUs() + 9 * S1); if (kind == 5) { h["commitCount"] = to_string(l.base + 7); h["timeout"] = "3000"; }
    if (kind <= 2) l.plugin.hooks["a"] = [kind](int phase) { if (phase == (kind == 2 ? 4 : 1)) usleep(1500000); }; if (kind == 2) l.plugin.script = [](const SData& r) { Script s; s.post = Script::OK; return s; };
    l.start(); if (!early) waitReady(l); SData r = request("a", h); Visit& a = l.visit(r); int second = mc::choose(4, "second"); static const vector<uint64_t> late = {0, 0, 900000, 1700000}; Visit& b = l.visit(request("b"), second == 1 ? 600000 : 50000, false, 0x0A000001, late[second]); if (when) usleep(when);
    if (!detach) { l.stop(); l.join(); l.ended(); MC_CHECK(!l.plugin.detached, "the plugins were detached"); }
    else {
        SData d("Detach"); d["Connection"] = "close"; Visit& x = l.visit(d, 0, true, 0x7F000001); l.shutdownAt = rt::nowUs(); for (int i = 0; i < 400 && !l.w.s.isDetached(); i++) usleep(50000); MC_CHECK(l.w.s.isDetached(), "the server is not detached after 20 s"); mc::note("detached"); MC_CHECK(l.plugin.detached == 1, "the plugins were detached %d times", l.plugin.detached);
        { rt::NoPoints np; MC_CHECK(!l.w.s._dbPool && !atomic_load(&l.w.s._syncNode), "the database is open while detached"); l.ready = false; } l.w.s._syncLoopShouldBeRunning = l.w.s._syncLoopShouldBeRunning.load();
        bool again = mc::choose(2, "attach"); Visit* c = nullptr; if (again) { SData t("Attach"); t["Connection"] = "close"; Visit& y = l.visit(t, 0, true, 0x7F000001); usleep(100000); waitReady(l); c = &l.visit(request("c")); usleep(4 * S1); l.stop(); l.join(); l.answeredAs(y, "204"); l.ended(); l.answeredAs(*c, "200"); MC_CHECK(l.plugin.upgrades == 2, "the database was upgraded %d times", l.plugin.upgrades); }
        else { l.shutdownAt = rt::nowUs(); l.w.s.shutdownWhileDetached = true; l.join(); l.ended(); }
        l.answeredAs(x, "203");
    }
    rt::NoPoints np; if (a.connected && kind <= 2) MC_CHECK(a.answer.methodLine[0] == '2', "a command is answered \"%s\" while shutting down", a.answer.methodLine.c_str()); if (b.connected) MC_CHECK(b.answer.methodLine[0] == '2', "a command is answered \"%s\" while shutting down", b.answer.methodLine.c_str());
    if (a.connected && kind == 3 && SStartsWith(a.answer.methodLine, "202")) MC_CHECK(l.w.count("a") == 1 || !l.w.scripts.count("a"), "a command that was queued was not executed");
}
void mc::registerScenarios() {
    bool T = thorough(); Options o; o.concurrent = true; o.maxSteps = 2000000; o.preemptFree = false; o.isolate = true; o.bounds = T ? vector<int>{0, 1, 2} : vector<int>{0, 1};
    add("starting", starting, o);
    add("one request that depends on a commit", [] { depending(1, false); }, o); add("two requests that depend on commits", [] { depending(2, false); }, o);
    add("a request that depends on a commit while shutting down", [] { depending(1, true); }, o);
    add("shutting down", [] { stopping(false); }, o); add("detaching", [] { stopping(true); }, o);
    setRuleText("a whole server that starts, serves and ends");
}
