// B06: requests of commands to other servers. Real code: BedrockCommand::waitForHTTPSRequests, SHTTPSManager, STCPManager, SData, BedrockServer::runCommand, BedrockCore, SQLite.
#include "connection.h"
#include <libstuff/SHTTPSManager.h>
typedef SHTTPSManager::Transaction Tx;
static const uint64_t MS = 1000;
// What another server does with a request: pieces of its answer after a delay, and then perhaps the end of the connection. `code` 0: none until something gives up.
struct Behaviour { const char* name; vector<pair<uint64_t, string>> pieces; bool close; vector<int> codes; string content; };
static const vector<Behaviour>& behaviours() {
    static const vector<Behaviour> b = {
        {"answers", {{0, "HTTP/1.1 200 OK\r\nContent-Length: 3\r\n\r\nabc"}}, false, {200}, "abc"},
        {"answers slowly in pieces", {{300 * MS, "HTTP/1.1 2"}, {300 * MS, "00 OK\r\nContent-Le"}, {400 * MS, "ngth: 3\r\n\r\na"}, {1200 * MS, "bc"}}, false, {200}, "abc"},
        {"ends its answer with the connection", {{100 * MS, "HTTP/1.1 200 OK\r\nX: y\r\n\r\nab"}, {700 * MS, "cd"}, {300 * MS, ""}}, true, {200}, "abcd"},
        {"answers without content", {{50 * MS, "HTTP/1.1 204 No Content\r\n\r\n"}}, false, {204}, ""},
        {"is busy", {{200 * MS, "HTTP/1.1 503 Busy\r\nContent-Length: 0\r\n\r\n"}}, false, {503}, ""},
        {"knows nothing", {{20 * MS, "HTTP/1.1 404 Not Found\r\nContent-Length: 2\r\n\r\nno"}}, false, {404}, "no"},
        {"answers and closes", {{0, "HTTP/1.1 202 Accepted\r\nContent-Length: 1\r\n\r\nx"}, {0, ""}}, true, {202}, "x"},
        {"closes without an answer", {{200 * MS, ""}}, true, {500, 501}, ""},
        {"closes in the middle", {{100 * MS, "HTTP/1.1 200 OK\r\nContent-Length: 9\r\n\r\nabc"}, {100 * MS, ""}}, true, {500, 501}, ""},
        {"closes in the headers", {{100 * MS, "HTTP/1.1 200 OK\r\nContent-Le"}, {0, ""}}, true, {500, 501}, ""},
        {"refuses the connection", {}, false, {503}, ""},
        {"never answers", {}, false, {}, ""},
        {"answers in chunks", {{100 * MS, "HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n3\r\nab"}, {200 * MS, "c\r\n2;x=y\r\nde"}, {200 * MS, "\r\n0\r\n"}, {100 * MS, "\r\n"}}, false, {200}, "abcde"},
        {"names its answer strangely", {{100 * MS, "HTTP/1.1 200 O\x01K\r\nX: y\\r\r\nContent-Length: 4\r\n\r\n\r\n\r\n"}}, false, {200}, "\r\n\r\n"},
        {"tells more than once", {{100 * MS, "HTTP/1.1 200 OK\r\nContent-Length: 2\r\n\r\nxyHTTP/1.1 500 No\r\nContent-Length: 0\r\n\r\n"}}, false, {200}, "xy"}};
    return b;
}
static const int REFUSES = 10, NEVER = 11;
struct Peer { int behaviour; string request; uint64_t sentAt = 0, doneAt = 0; int fd = -1, seen = 0; int later = 0; uint64_t startAt = 0; thread t; Conn* c = nullptr; };
struct Outside;
struct Manager : SHTTPSManager { using SHTTPSManager::SHTTPSManager; unique_ptr<Tx> go(const string& url, const SData& r) { return _httpsSend(url, r); } unique_ptr<Tx> later(const string& url, const SData& r, uint64_t at) { auto t = make_unique<Tx>(*this); t->scheduledStart = at; t->startFunc = [this, url, r](Tx& x) { auto y = _httpsSend(url, r); x.s = y->s; y->s = nullptr; x.fullRequest = y->fullRequest; x.response = y->response; }; return t; } };
enum Mode { IN_PEEK, IN_PREPEEK, TWICE, ANSWER_IN_PEEK, INSIDE };
struct Net : Command { Outside& o; Net(SData&& r, const Script& s, Fate* f, Outside& o_); void begin(int i, int later); void prePeek(SQLite& db) override; bool peek(SQLite& db) override; void process(SQLite& db) override; };
struct Outside {
    World w; Scripts plugin; Manager manager; vector<unique_ptr<Peer>> peers; int mode = IN_PEEK, wanted = 1; bool faults = false, waiting = false, over = false; uint64_t begun = 0, complete = 0; vector<tuple<int, string, string>> results; bool gaveUp = false; uint64_t endOfPatience = UINT64_MAX; int remote = 0;
    Outside(int retries = 3) : w(retries), plugin(w), manager(plugin) {
        netReset(); gW = &w; { rt::NoPoints np; w.s._clusterMessenger = make_shared<SQLiteClusterMessenger>(w.s._syncNode); } gRefuse = [this](const string& h) { int i = atoi(h.c_str() + 4) ; return (size_t) i < peers.size() && peers[i]->behaviour == REFUSES; };
        gLeader = [this](int fd, Conn& c) { for (auto& p : peers) if (p->fd == fd && !p->sentAt) { p->c = &c; SData r; if (r.deserialize(c.tx) && r.serialize() == p->request) { p->sentAt = rt::nowUs(); p->seen++; mc::note("the request reaches a server that %s", behaviours()[p->behaviour].name); Peer* q = p.get(); q->t = thread([this, q] { rt::nameFiber("peer"); serve(*q); }); } } };
    }
    ~Outside() { gLeader = nullptr; gRefuse = nullptr; gW = nullptr; gRemote = nullptr; }
    void serve(Peer& p) {
        auto& b = behaviours()[p.behaviour]; for (size_t i = 0; i < b.pieces.size(); i++) { if (b.pieces[i].first) usleep(b.pieces[i].first); if (over || p.c->closed) return; quiet(); p.c->rx += b.pieces[i].second; if (i + 1 == b.pieces.size()) { if (b.close) p.c->eof = true; p.doneAt = rt::nowUs(); } }
        if (b.pieces.size() && !p.doneAt) p.doneAt = rt::nowUs();
    }
    // While it waits a command keeps nothing that others need.
    void quiet() { if (!waiting || mode == INSIDE || faults || rt::nowUs() < begun + 10 * MS) return; rt::NoPoints np; MC_CHECK(w.pool->_inUseHandles.empty(), "a database handle is in use while a command waits for another server"); for (auto* d : w.pool->_objects) if (d) MC_CHECK(!d->insideTransaction(), "a transaction is open while a command waits for another server"); }
    void done() { over = true; for (auto& p : peers) if (p->t.joinable()) p->t.join(); }
    // All requests are over: each has its own server's answer.
    void check(Command& c) {
        rt::NoPoints np; complete = rt::nowUs(); waiting = false; int i = 0; uint64_t last = begun; MC_CHECK(c.httpsRequests.size() == peers.size(), "the command has %zu requests instead of %zu", c.httpsRequests.size(), peers.size()); results.clear();
        for (auto& t : c.httpsRequests) {
            Peer& p = *peers[i]; auto& b = behaviours()[p.behaviour]; bool broken = p.c && p.c->dead; MC_CHECK(t->response, "the command goes on although request %d is not over", i);
            bool early = !p.doneAt && p.behaviour != REFUSES; if (p.behaviour == REFUSES && p.later && rt::nowUs() < p.startAt) early = true;
            if (broken) MC_CHECK(t->response >= 500 || count(b.codes.begin(), b.codes.end(), t->response), "request %d gives %d", i, t->response);
            else if (early) { MC_CHECK(rt::nowUs() + 1 >= endOfPatience || gaveUp, "request %d was given up with %d although there was time", i, t->response); MC_CHECK(t->response >= 500, "request %d gives %d although its server has not answered", i, t->response); }
            else { bool late = p.doneAt + 1000 >= endOfPatience; MC_CHECK(count(b.codes.begin(), b.codes.end(), t->response) || (late && t->response >= 500), "request %d gives %d although its server %s", i, t->response, b.name); if (b.codes.size() == 1 && p.behaviour != REFUSES && t->response < 500) MC_CHECK(t->fullResponse.content == b.content, "request %d gets the content \"%s\"", i, t->fullResponse.content.c_str()); last = max(last, p.behaviour == REFUSES ? p.startAt : p.doneAt); }
            if (!early && !broken && p.behaviour != REFUSES) MC_CHECK(p.seen == 1 && p.c->tx == p.request, "the server received \"%s\"", p.c->tx.c_str());
            results.emplace_back(t->response, t->fullResponse.methodLine, t->fullResponse.content); i++; mc::compared();
        }
        bool allDone = true; for (auto& p : peers) allDone = allDone && (p->doneAt || p->behaviour == REFUSES) && !(p->c && p->c->dead); bool lateRefusal = false; for (auto& p : peers) lateRefusal = lateRefusal || (p->later && p->behaviour == REFUSES); if (allDone && !faults) MC_CHECK(complete <= last + (lateRefusal ? 1100 : 50) * MS, "the command waits %lu ms after the last answer", (complete - last) / 1000);
    }
};
Net::Net(SData&& r, const Script& s, Fate* f, Outside& o_) : Command(move(r), s, f, &o_.plugin), o(o_) {}
void Net::begin(int i, int later) {
    Peer& p = *o.peers[i]; SData r("POST /" + to_string(i) + " HTTP/1.1"); r["Host"] = "peer"; r["number"] = to_string(i); r.content = "request " + to_string(i); p.request = r.serialize(); p.later = later; if (!o.begun) o.begun = rt::nowUs(); p.startAt = rt::nowUs() + later * MS;
    p.fd = p.behaviour == REFUSES ? -99 : gNextFd; string url = "http://peer" + to_string(i) + ":80/x"; if (later) { p.fd = -2 - i; httpsRequests.push_back(o.manager.later(url, r, p.startAt)); auto start = httpsRequests.back()->startFunc; Peer* q = &p; httpsRequests.back()->startFunc = [start, q](Tx& t) { if (q->behaviour != REFUSES) q->fd = gNextFd; MC_CHECK(rt::nowUs() >= q->startAt && rt::nowUs() <= q->startAt + 50 * MS, "a scheduled request starts %ld ms late", ((long) rt::nowUs() - (long) q->startAt) / 1000); start(t); q->c = conn(q->fd); }; } else { httpsRequests.push_back(o.manager.go(url, r)); p.c = conn(p.fd); if (!p.c) { p.behaviour = REFUSES; p.fd = -99; } }
    MC_CHECK(p.startAt >= rt::nowUs() || !later, "x"); o.waiting = true; mc::note("request %d to a server that %s%s", i, behaviours()[p.behaviour].name, later ? (", " + to_string(later) + " ms later").c_str() : "");
}
void Net::prePeek(SQLite& db) { Command::prePeek(db); MC_CHECK(httpsRequests.empty(), "prePeek runs again with requests"); if (o.mode == IN_PREPEEK) for (size_t i = 0; i < o.peers.size(); i++) begin(i, o.peers[i]->later); }
bool Net::peek(SQLite& db) {
    bool r = Command::peek(db); int n = httpsRequests.size(), all = o.peers.size();
    switch (o.mode) {
        case IN_PEEK: case INSIDE: MC_CHECK(!n, "peek runs again with %d requests", n); for (int i = 0; i < all; i++) begin(i, o.peers[i]->later); if (o.mode == INSIDE) { waitForHTTPSRequests(db); MC_CHECK(db.insideTransaction(), "no transaction is open after waiting"); o.check(*this); SQResult q; db.read("SELECT n FROM s;", q); } break;
        case TWICE: if (!n) { begin(0, o.peers[0]->later); repeek = true; } else { for (auto& t : httpsRequests) MC_CHECK(t->response, "peek runs again before its request is over"); if (n < all) { begin(n, o.peers[n]->later); } repeek = (int) httpsRequests.size() < all; } break;
        case ANSWER_IN_PEEK: if (!n) { for (int i = 0; i < all; i++) begin(i, o.peers[i]->later); repeek = true; return false; } else { o.check(*this); repeek = false; return true; } break;
    }
    return r;
}
void Net::process(SQLite& db) { if (o.mode != INSIDE || f->processes == 0) { if (f->processes == 0) o.check(*this); else { rt::NoPoints np; int i = 0; for (auto& t : httpsRequests) { MC_CHECK(o.results[i] == make_tuple(t->response, t->fullResponse.methodLine, t->fullResponse.content), "the result of request %d changes", i); i++; } } } Command::process(db); }
static unique_ptr<BedrockCommand> make(Outside& o, const Script& sc, const map<string, string>& h = {}) { SData r("Do"); r["name"] = "c"; for (auto& [k, v] : h) r[k] = v; o.w.scripts["c"] = sc; auto c = make_unique<Net>(move(r), sc, &o.w.fate("c"), o); c->initiatingClientID = 1; return c; }
static void ended(Outside& o, const string& what) { o.done(); rt::NoPoints np; for (auto& p : o.peers) if (p->c) MC_CHECK(p->c->closed, "a connection to another server is left open after %s", what.c_str()); o.w.clean(what); string s; for (auto& [c, m, x] : o.results) s += to_string(c) + x + ","; mc::outcome(o.w.fate("c").reply.methodLine + " " + s); mc::state(s + to_string(rt::nowUs())); }
static void drive(Outside& o, unique_ptr<BedrockCommand> c) { Fate& f = o.w.fate("c"); o.w.s.runCommand(move(c), false, true); for (int i = 0; !f.replies; i++) { MC_CHECK(i < 1000, "the command is moved between queues without end"); if (o.w.s._commandQueue.size() + o.w.s._blockingCommandQueue.size() == 0) { MC_CHECK(!f.destroyed, "the command was not answered"); usleep(10 * MS); continue; } usleep(5 * MS); bool b = o.w.s._blockingCommandQueue.size(); unique_ptr<BedrockCommand> x = (b ? (BedrockCommandQueue&) o.w.s._blockingCommandQueue : o.w.s._commandQueue).get(100000); o.w.s.runCommand(move(x), b, false); } }
static void conflict(Outside& o, Fate& f) { f.conflict = [&](SQLite& db) { if (db._mutexLocked) return false; rt::NoPoints np; string h; uint64_t id; MC_CHECK(o.w.other->beginTransaction() && o.w.other->write("UPDATE s SET n=n+100 WHERE id=1;") && o.w.other->prepare(&id, &h) && o.w.other->commit("x") == SQLITE_OK, "the other commit"); return true; }; }
// Commands with one to three requests to servers of every kind.
static void alone(int n, bool faults) {
    rt::setEarlyTimers(false); rt::setAtomicPoints(false); Outside o(2); o.mode = mc::choose(5, "mode"); o.faults = faults; for (int i = 0; i < n; i++) { o.peers.emplace_back(new Peer); Peer& p = *o.peers.back(); static const vector<int> FEW = {0, 1, 2, 7, REFUSES}; p.behaviour = faults ? mc::choose(i ? 2 : 7, "server") : n < 3 ? mc::choose(behaviours().size(), "server") : mc::pick(FEW, "server"); p.later = !faults && n < 3 && i == n - 1 && mc::choose(2, "later") ? 700 : 0; }
    static const vector<vector<int>> TIMES = {{0, 0, 0}, {0, 0, 700}, {300, 950, 0}, {950, 300, 0}, {300, 0, 950}}; if (n == 3) { auto& t = mc::pick(TIMES, "scheduled"); for (int i = 0; i < 3; i++) o.peers[i]->later = t[i]; }
    bool never = false; for (auto& p : o.peers) never = never || p->behaviour == NEVER; Script sc; if (o.mode == IN_PREPEEK) sc.pre = Script::OK; if (o.mode == ANSWER_IN_PEEK) sc.peek = Script::DONE; map<string, string> h; uint64_t timeout = 110000; if (never) { timeout = 3000; h["timeout"] = "3000"; }
    if (n < 3 && !faults && o.mode != ANSWER_IN_PEEK && o.mode != INSIDE) sc.conflicts = mc::choose(n == 1 ? 4 : 2, "conflicts"); if (sc.conflicts) o.w.s._enableConflictPageLocks = mc::choose(2, "page locks"); auto c = make(o, sc, h); Fate& f = o.w.fate("c"); conflict(o, f); uint64_t start = rt::nowUs(); o.endOfPatience = start + timeout * MS;
    if (faults) gFaults = true; o.w.run(move(c), "c"); gFaults = false; o.w.answered("c");
    bool broken = false; for (auto& p : o.peers) broken = broken || (p->c && p->c->dead);
    if (never) { MC_CHECK(SStartsWith(f.reply.methodLine, "555"), "answered \"%s\" after its time", f.reply.methodLine.c_str()); MC_CHECK(f.repliedAt <= start + timeout * MS + 500 * MS && f.repliedAt + 1 >= start + timeout * MS, "answered after %lu ms", (f.repliedAt - start) / 1000); MC_CHECK(!f.processes, "executed after its time"); }
    else { MC_CHECK(f.reply.methodLine == "200 OK", "answered \"%s\"", f.reply.methodLine.c_str()); MC_CHECK(f.processes == (o.mode == ANSWER_IN_PEEK ? 0 : f.processes), "x"); for (auto& p : o.peers) MC_CHECK(p->behaviour == REFUSES || p->seen == 1 || broken || faults, "a server received the request %d times", p->seen); MC_CHECK(o.complete, "the command was answered without its requests"); }
    if (o.mode == IN_PEEK && !never) MC_CHECK(f.peeks == 1, "peek ran %d times", f.peeks); if (o.mode == IN_PREPEEK) MC_CHECK(f.prePeeks == 1, "prePeek ran %d times", f.prePeeks);
    ended(o, "requests to other servers");
}
// Something happens while the command waits: its client leaves, the server shuts down, or the node stops leading.
static void disturbed(bool preempted) {
    rt::setEarlyTimers(false); rt::setAtomicPoints(preempted); Outside o(2); static const vector<int> MODES = {IN_PEEK, TWICE, ANSWER_IN_PEEK, INSIDE}; o.mode = preempted ? IN_PEEK : mc::pick(MODES, "mode"); int n = 1 + mc::choose(2, "requests"); static const vector<int> WHO = {1, 2, NEVER}; for (int i = 0; i < n; i++) { o.peers.emplace_back(new Peer); o.peers.back()->behaviour = preempted ? 2 * mc::choose(2, "server") : mc::pick(WHO, "server"); }
    int event = mc::choose(3, "event"); static const vector<uint64_t> WHEN = {0, 250 * MS, 650 * MS, 1100 * MS, 2300 * MS}; uint64_t when = preempted ? 100 * MS * mc::choose(2, "when") : mc::pick(WHEN, "when"); Script sc; if (o.mode == ANSWER_IN_PEEK) sc.peek = Script::DONE; auto c = make(o, sc, {{"timeout", "20000"}}); Net* raw = static_cast<Net*>(c.get()); Fate& f = o.w.fate("c"); STCPManager::Socket client(29999, STCPManager::Socket::CONNECTED, false); raw->socket = event ? nullptr : &client; uint64_t start = rt::nowUs(), at = 0; o.endOfPatience = start + 20000 * MS; bool ends = false;
    gRemote = [&](BedrockCommand& x, bool leader) { o.remote++; f.remote++; MC_CHECK(leader, "x"); bool done = x.areHttpsRequestsComplete(); MC_CHECK(done, "the command is passed on before its requests are over"); if (o.results.empty() && x.httpsRequests.size()) o.check(*raw);
        BedrockCommand copy(SQLiteCommand(SData("Do")), nullptr); copy.deserializeHTTPSRequests(x.serializeHTTPSRequests()); auto i = copy.httpsRequests.begin(); MC_CHECK(copy.httpsRequests.size() == x.httpsRequests.size(), "%zu requests are passed on", copy.httpsRequests.size()); for (auto& t : x.httpsRequests) { MC_CHECK((*i)->response == t->response && (*i)->fullResponse.serialize() == t->fullResponse.serialize() && (*i)->fullRequest.serialize() == t->fullRequest.serialize() && (*i)->finished == t->finished && (*i)->created == t->created, "a request is passed on with other values"); ++i; } x.response.methodLine = "200 OK"; x.complete = true; return true; };
    thread t([&] { rt::nameFiber("event"); usleep(when); if (ends || f.destroyed) return; at = rt::nowUs(); o.gaveUp = event == 0; if (event == 0) { mc::note("the client leaves"); raw->shouldAbort = true; } else if (event == 1) { mc::note("the server shuts down"); o.w.s._shutdownState = BedrockServer::START_SHUTDOWN; o.endOfPatience = min(o.endOfPatience, 5000 * MS + (o.peers[0]->sentAt ? o.peers[0]->sentAt : at)); if (o.mode == TWICE && n == 2) o.gaveUp = true; } else { o.w.go(St::STANDINGDOWN); o.w.go(St::SEARCHING); o.w.go(St::WAITING); o.w.go(St::SUBSCRIBING); o.w.go(St::FOLLOWING); } });
    drive(o, move(c)); ends = true; bool happened = at; t.join(); happened = happened && at; o.w.answered("c"); o.w.s._shutdownState = BedrockServer::RUNNING;
    string& line = f.reply.methodLine; bool never = false; for (auto& p : o.peers) never = never || p->behaviour == NEVER;
    if (!happened || at >= f.repliedAt) {} else if (event == 0) { MC_CHECK(f.repliedAt <= at + 1100 * MS, "the command of a client that left goes on for %lu ms", (f.repliedAt - at) / 1000); }
    else if (event == 1) { MC_CHECK(f.repliedAt <= max(at, start) + (o.mode == TWICE ? 13000 : 6500) * MS, "while shutting down the command waits for %lu ms", (f.repliedAt - at) / 1000); MC_CHECK(line == "200 OK", "answered \"%s\" while shutting down", line.c_str()); }
    else { MC_CHECK(line == "200 OK" || (line == "500 Leader stopped leading") || (never && SStartsWith(line, "555")), "answered \"%s\" by a node that follows", line.c_str()); for (auto& p : o.peers) MC_CHECK(p->seen <= 1, "the request is sent %d times", p->seen); MC_CHECK(f.peeks <= (o.mode == IN_PEEK || o.mode == INSIDE ? 1 : n + 1), "peek runs %d times", f.peeks); }
    ended(o, "an event while waiting");
}
// A command in the blocking queue does not begin requests.
static void blocking() {
    Outside o(2); o.mode = mc::choose(2, "mode"); o.peers.emplace_back(new Peer); o.peers.back()->behaviour = 0; Script sc; if (o.mode == IN_PREPEEK) sc.pre = Script::OK; auto c = make(o, sc); thread t([&] { rt::nameFiber("blocking"); isBlockingCommitThread = true; o.w.run(move(c), "c", true); isBlockingCommitThread = false; }); t.join(); Fate& f = o.w.fate("c"); MC_CHECK(SStartsWith(f.reply.methodLine, "500"), "answered \"%s\"", f.reply.methodLine.c_str()); MC_CHECK(!f.processes && o.w.count("c") == 0, "executed"); o.w.answered("c"); ended(o, "a refused request");
}
void mc::registerScenarios() {
    bool T = thorough(); Options o; o.concurrent = true; o.maxSteps = 2000000; o.preemptFree = false; o.bounds = {0};
    add("one request", [] { alone(1, false); }, o); add("two requests", [] { alone(2, false); }, o); add("three requests", [] { alone(3, false); }, o); add("disturbed while waiting", [] { disturbed(false); }, o); add("in the blocking queue", blocking, o);
    o.bounds = T ? vector<int>{0, 1, 2, 3} : vector<int>{0, 1, 2}; add("one request, with faults", [] { alone(1, true); }, o); if (T) { o.bounds = {0, 1, 2}; } else o.bounds = {0, 1}; add("two requests, with faults", [] { alone(2, true); }, o); o.bounds = T ? vector<int>{0, 1, 2} : vector<int>{0, 1}; add("disturbed while waiting, preempted", [] { disturbed(true); }, o);
    setRuleText("commands that wait for answers of other servers");
}
