// B01: a command runs to completion once. Real code: BedrockServer::runCommand/_reply, BedrockCore, SQLiteCore, the queues, SQLite, SQLiteNode::_changeState, SQLiteClusterMessenger.
#include "world.h"
// One command of every kind, alone, with a number of conflicts.
static void single(const vector<int>& pres, const vector<int>& posts, const vector<int>& conflicts) {
    Script sc; sc.pre = mc::pick(pres, "prePeek"); sc.peek = sc.pre > Script::OK ? 0 : mc::choose(6, "peek"); sc.process = sc.peek || sc.pre > Script::OK ? 0 : mc::choose(9, "process"); sc.post = mc::pick(posts, "postProcess");
    bool commits = sc.pre <= Script::OK && !sc.peek && (sc.process == Script::WRITE || sc.process == Script::W_203 || sc.process == Script::EMPTY_COMMIT || sc.process == Script::W_STALE), wr = commits && sc.process != Script::EMPTY_COMMIT;
    if (wr) sc.conflicts = mc::pick(conflicts, "conflicts"); if (!sc.peek && sc.pre <= Script::OK) sc.mock = mc::choose(2, "mocked"); if (sc.mock) { sc.conflicts = 0; commits = commits || sc.process == Script::NOTHING; }   // a mocked command commits an entry with no writes
    int retries = sc.conflicts ? mc::choose(4, "retries") : 3; bool dedicated = mc::choose(2, "dedicated thread"), sync = commits && !sc.conflicts && mc::choose(2, "synchronous"), blocking = !sc.conflicts && !sync && mc::choose(2, "blocking");
    mc::note("%s, at most %d retries%s%s%s", sc.show().c_str(), retries, dedicated ? ", dedicated thread" : "", sync ? ", synchronous" : "", blocking ? ", in the blocking queue" : "");
    bool locks = sc.conflicts && sc.process == Script::WRITE && mc::choose(2, "page locks"); World w(retries); w.s._enableConflictPageLocks = locks; auto c = w.make("c", sc); c->isSynchronous = sync; Fate& f = w.fate("c"); int real = 0;
    f.conflict = [&](SQLite& db) { if (db._mutexLocked) return false; real++; rt::NoPoints np; string h; uint64_t id; MC_CHECK(w.other->beginTransaction() && w.other->write("UPDATE s SET n=n+100 WHERE id=1;") && w.other->prepare(&id, &h) && w.other->commit("x") == SQLITE_OK, "the other commit"); return true; };
    uint64_t before = rt::nowUs(); w.run(move(c), "c", blocking, dedicated); w.answered("c");
    // the expected answer
    string line = "200 OK"; bool post = false, out = false;
    if (sc.pre == Script::FAIL) line = "402 Pre"; else if (sc.pre == Script::OTHER) line = "500 Unhandled Exception"; else out = true;
    if (out) { static const char* p[] = {"", "200 OK", "201 Peeked", "401 Peek", "500 Unhandled Exception", "555 Timeout peeking command"}; if (sc.peek) line = p[sc.peek]; else { static const char* q[] = {"200 OK", "200 OK", "402 Process", "400 Unique Constraints Violation", "500 Unhandled Exception", "203 Written", "555 Timeout processing command", "200 OK", "200 OK"}; line = q[sc.process]; if (sc.mock && sc.process == Script::W_CONSTRAINT) line = ""; } }
    post = out && sc.post && line == "200 OK"; string content = f.reply.content; if (post && sc.post == Script::FAIL) line = "405 Post"; if (post && sc.post == Script::OTHER) line = "500 Unhandled Exception";
    if (!line.empty()) MC_CHECK(f.reply.methodLine == line, "answered \"%s\" instead of \"%s\"", f.reply.methodLine.c_str(), line.c_str());
    int attempts = real + 1; MC_CHECK(f.posts == post || line.empty(), "postProcess ran %d times", f.posts); MC_CHECK(f.prePeeks == (sc.pre ? attempts : 0), "prePeek ran %d times", f.prePeeks); MC_CHECK(f.peeks == (out ? attempts : 0), "peek ran %d times", f.peeks); MC_CHECK(f.processes == (out && !sc.peek ? attempts : 0), "process ran %d times", f.processes);
    if (!line.empty()) MC_CHECK(w.journal() == (uint64_t) real + commits, "%lu commits in the journal instead of %d", w.journal(), real + commits);
    MC_CHECK(w.count("c") == (wr && !sc.mock), "its write is there %d times", w.count("c"));
    MC_CHECK(f.reply["nodeName"] == "n1", "no node name"); if (commits || f.reply.isSet("commitCount")) MC_CHECK(f.reply["commitCount"] == to_string(w.journal()), "answered with commit count %s instead of %lu", f.reply["commitCount"].c_str(), w.journal());
    MC_CHECK(!f.reply.isSet("stale") && !SContains(f.reply.content, "stale"), "the answer contains parts of an attempt that was abandoned"); MC_CHECK(f.reply.isSet("fromPrePeek") == (sc.pre == Script::OK) || !SStartsWith(line, "2"), "what prePeek set is missing");
    if (SStartsWith(line, "2") && wr && !sc.mock) MC_CHECK(f.reply.content.find("\"old\":" + to_string(100 * real)) != string::npos, "the content %s is not that of the committed attempt", f.reply.content.c_str());
    MC_CHECK(f.repliedAt - before < 4000000, "answered after %lu ms", (f.repliedAt - before) / 1000);
    w.clean(sc.show());
    Script plain; w.run(w.make("probe", plain), "probe", false, true); w.answered("probe"); MC_CHECK(w.fate("probe").reply.methodLine == "200 OK", "the next command is answered \"%s\"", w.fate("probe").reply.methodLine.c_str());
    mc::outcome(f.reply.methodLine + " " + f.reply.content + to_string(w.journal()));
}
// Commands that write the same row at the same time, and conflict: with locks of pages or without.
static void rivals(int n) {
    int retries = 1 + mc::choose(2, "retries"); World w(retries); gW = &w; rt::setClockTick(1); w.s._enableConflictPageLocks = mc::choose(2, "page locks"); vector<string> names; vector<unique_ptr<BedrockCommand>> cs; { rt::NoPoints np; for (int i = 0; i < n; i++) { Script sc; sc.pre = !i ? Script::OK : Script::NONE; if (i == 2) sc.process = Script::W_402; names.push_back("c" + to_string(i)); cs.push_back(w.make(names[i], sc)); } }
    vector<thread> ts; for (int i = 0; i < n; i++) ts.emplace_back([&, i] { rt::nameFiber(names[i]); w.s.runCommand(move(cs[i]), false, false); });
    for (auto& t : ts) t.join();
    { isBlockingCommitThread = true; for (int k = 0; w.s._blockingCommandQueue.size(); k++) { MC_CHECK(k < 20, "a command is moved between queues without end"); unique_ptr<BedrockCommand> x = w.s._blockingCommandQueue.get(1000); w.s.runCommand(move(x), true, true); } isBlockingCommitThread = false; }
    drain(w, names); rt::NoPoints np; string o; set<string> olds; int wrote = 0; for (int i = 0; i < n; i++) { auto& x = names[i]; Fate& f = w.fate(x); w.answered(x); bool bad = i == 2; MC_CHECK(f.reply.methodLine == (bad ? "402 Process" : "200 OK"), "%s is answered \"%s\"", x.c_str(), f.reply.methodLine.c_str()); MC_CHECK(w.count(x) == !bad, "the write of %s is there %d times", x.c_str(), w.count(x)); if (!bad) { wrote++; MC_CHECK(olds.insert(f.reply.content).second, "%s gets the content of another command: %s", x.c_str(), f.reply.content.c_str()); MC_CHECK(f.reply["commitCount"] <= to_string(w.journal()), "commit count %s", f.reply["commitCount"].c_str()); } o += f.reply.content + to_string(f.processes); }
    MC_CHECK(w.journal() == (uint64_t) wrote, "%lu commits", w.journal()); w.clean("rivals"); mc::outcome(o); Script plain; w.run(w.make("probe", plain), "probe", false, true); w.answered("probe");
}
// Commands and changes of the node's state at the same time.
struct Path { const char* name; vector<St> before, during; };
static const vector<Path>& paths() {
    static const vector<Path> p = {
        {"the node stops leading", {}, {St::STANDINGDOWN, St::SEARCHING, St::WAITING, St::SUBSCRIBING, St::FOLLOWING}},
        {"the node stops leading and leads again", {}, {St::STANDINGDOWN, St::SEARCHING, St::WAITING, St::STANDINGUP, St::LEADING}},
        {"the node stops leading and synchronizes", {}, {St::STANDINGDOWN, St::SEARCHING, St::SYNCHRONIZING, St::WAITING, St::SUBSCRIBING, St::FOLLOWING}},
        {"the node starts to lead", {St::STANDINGDOWN, St::SEARCHING, St::WAITING, St::SUBSCRIBING, St::FOLLOWING}, {St::SEARCHING, St::WAITING, St::STANDINGUP, St::LEADING}},
        {"the node loses its leader and synchronizes", {St::STANDINGDOWN, St::SEARCHING, St::WAITING, St::SUBSCRIBING, St::FOLLOWING}, {St::SEARCHING, St::SYNCHRONIZING, St::WAITING, St::SUBSCRIBING, St::FOLLOWING}},
        {"the node follows", {St::STANDINGDOWN, St::SEARCHING, St::WAITING, St::SUBSCRIBING, St::FOLLOWING}, {}},
        {"the node loses its quorum", {}, {St::SEARCHING, St::WAITING, St::SUBSCRIBING, St::FOLLOWING}},
        {"the node loses its quorum and leads again", {}, {St::SEARCHING, St::WAITING, St::STANDINGUP, St::LEADING}},
    };
    return p;
}
static void leadership(int commands, const Path& path) {
    World w(mc::choose(2, "retries") ? 3 : 1); gW = &w; rt::setClockTick(1); int fails = 0; w.s._clusterMessenger = make_shared<SQLiteClusterMessenger>(w.node); bool less = commands > 1 && !mc::thorough(); bool immediate = !less && mc::choose(2, "escalated immediately"), sync = !less && !immediate && mc::choose(2, "synchronous"); size_t stay = !path.during.size() ? 0 : less ? 1 : mc::choose(path.during.size(), "the state it stays in for some time");
    gRemote = [&](BedrockCommand& c, bool leader) {
        rt::point("escalation"); if (leader && (w.node->getState() == St::LEADING || w.node->getState() == St::STANDINGUP)) return false;
        int how = fails < 2 ? mc::choose(3, "escalation") : 0; string n = c.request["name"]; Fate& f = w.fate(n); if (how) fails++;
        if (how == 1) { mc::note("%s cannot be escalated", n.c_str()); rt::advanceUs(100000); return false; }
        mc::note("%s is escalated%s", n.c_str(), how ? ", but the connection breaks" : ""); f.remote++; c.complete = true; if (how) { c.response.clear(); c.response.methodLine = "500 Internal Server Error"; f.unsure = true; return false; }
        c.response.clear(); c.response.methodLine = "200 OK"; c.escalated = true; return true;
    };
    vector<string> names; vector<unique_ptr<BedrockCommand>> cs; { rt::NoPoints np; for (St st : path.before) w.go(st); Script sc; for (int i = 0; i < commands; i++) { names.push_back("c" + to_string(i)); cs.push_back(w.make(names[i], sc)); if (!i) const_cast<bool&>(cs[i]->escalateImmediately) = immediate, cs[i]->isSynchronous = sync; } }
    vector<thread> ts; for (int i = 0; i < commands; i++) ts.emplace_back([&, i] { rt::nameFiber(names[i]); w.s.runCommand(move(cs[i]), false, i == 0); for (int k = 0; k < 2 && !w.fate(names[i]).destroyed; k++) { unique_ptr<BedrockCommand> x; try { x = w.s._commandQueue.get(1000); } catch (const BedrockCommandQueue::timeout_error&) {} if (x) w.s.runCommand(move(x), false, false); } });
    if (path.during.size()) ts.emplace_back([&] { rt::nameFiber("sync"); for (size_t i = 0; i < path.during.size(); i++) { w.go(path.during[i]); if (i == stay) usleep(20000); } });
    for (auto& t : ts) t.join();
    drain(w, names); rt::NoPoints np; string o; for (auto& n : names) { w.answered(n); o += w.fate(n).reply.methodLine + to_string(w.count(n)) + to_string(w.fate(n).remote) + " "; } w.clean("a command"); mc::outcome(o); gRemote = nullptr;
}
// One command whose client leaves, or whose time is up, at some point.
static void interrupted() {
    netReset(); static const char* when[] = {"before it runs", "in prePeek", "in peek", "at the start of process", "at the end of process", "in postProcess", "while it waits to commit", "at the end of peek"};
    Script sc; sc.pre = mc::choose(2, "prePeek"); sc.peek = mc::choose(2, "peek"); sc.post = mc::choose(2, "postProcess"); bool timeout = mc::choose(2, "what"); int at = mc::choose(8, "when"); bool dedicated = mc::choose(2, "dedicated"); bool client = !timeout || mc::choose(2, "client"); int held = at == 6 ? mc::pick(vector<int>{10, 1200}, "for how long") : 0;
    mc::note("%s, %s %s%s", sc.show().c_str(), timeout ? "its time is up" : "its client leaves", when[at], client ? "" : ", no client");
    World w; Fate& f = w.fate("c"); unique_ptr<STCPManager::Socket> sock; auto c = w.make("c", sc, {{"timeout", "1000"}}); auto* raw = c.get(); uint64_t start = rt::nowUs(); bool happened = false;
    if (client) { gConns[30000].client = true; gNextFd = 30001; sock.reset(new STCPManager::Socket(30000, STCPManager::Socket::CONNECTED, false)); raw->socket = sock.get(); }
    auto event = [&] { if (happened) return; happened = true; if (timeout) rt::advanceUs(1500000); else raw->shouldAbort = true; };
    f.hook = [&](int phase) { if (phase + 1 == at) event(); }; if (at == 0) event();
    if (at == 6) { rt::setEarlyTimers(false);
        MC_CHECK(w.other->beginTransaction(SQLite::TRANSACTION_TYPE::EXCLUSIVE), "locking"); w.other->rollback(); atomic<bool> locked{false};
        thread holder([&] { rt::nameFiber("holder"); { rt::NoPoints np; w.pool->getBase()._sharedData.commitLock.lock(); } locked = true; usleep(held * 1000); rt::NoPoints np; w.pool->getBase()._sharedData.commitLock.unlock(); });
        thread leaver([&] { rt::nameFiber("leaver"); while (!locked) usleep(100); if (!timeout) { usleep(5000); raw->shouldAbort = true; happened = true; } });
        thread runner([&] { rt::nameFiber("c"); while (!locked) usleep(100); w.s.runCommand(move(c), false, dedicated); }); holder.join(); runner.join(); leaver.join();
    } else w.s.runCommand(move(c), false, dedicated);
    drain(w, {"c"});
    if (client) { string& tx = gConns[30000].tx; SData r; int n = SParseHTTP(tx, r.methodLine, r.nameValueMap, r.content); if (tx.size()) { MC_CHECK(n == (int) tx.size(), "the client receives %s", tx.c_str()); f.reply = r; f.replies++; f.repliedAt = rt::nowUs(); } }
    if (happened && sc.post && f.processes && (at == 5 || timeout)) f.unsure = true;   // what it wrote is committed already
    w.answered("c"); string& line = f.reply.methodLine; MC_CHECK(f.reply["nodeName"] == "n1", "no node name"); bool early = happened && (at <= 4 || at == 7);
    if (early) { if (!timeout && !SStartsWith(line, "499") && !SStartsWith(line, "556")) MC_CHECK(!client, "its client left, but it is answered \"%s\"", line.c_str()); if (timeout && at <= 1) MC_CHECK(SStartsWith(line, "555"), "its time was up, but it is answered \"%s\"", line.c_str()); if (timeout && (at == 2 || at == 7) && !sc.peek) MC_CHECK(SStartsWith(line, "555"), "its time was up before it was processed, but it is answered \"%s\"", line.c_str()); }
    else if (!happened && !held) MC_CHECK(line == "200 OK", "it is answered \"%s\"", line.c_str());
    if (at == 6 && timeout && !sc.peek) { if (held < 1000) MC_CHECK(line == "200 OK", "it is answered \"%s\"", line.c_str()); else { MC_CHECK(SStartsWith(line, "555"), "it was answered \"%s\", but its time was up", line.c_str()); MC_CHECK(f.repliedAt - start < 1400000 || client, "it was answered after %lu ms", (f.repliedAt - start) / 1000); } }
    w.clean("a command"); Script plain; w.run(w.make("probe", plain), "probe", false, true); w.answered("probe"); MC_CHECK(w.fate("probe").reply.methodLine == "200 OK", "the next command is answered \"%s\"", w.fate("probe").reply.methodLine.c_str()); mc::outcome(line + to_string(w.count("c")));
}
// Commands that are escalated over connections which fail.
static void escalation(int commands) {
    netReset(); gRemote = nullptr; World w(3, "localhost:9?nodeName=n2"); gW = &w; rt::setClockTick(1); w.s._clusterMessenger = make_shared<SQLiteClusterMessenger>(w.node); for (St st : paths()[3].before) w.go(st);
    SQLitePeer* lead = w.node->_peerList[0]; lead->commandAddress = string("localhost:77"); lead->state = St::LEADING; w.node->_leadPeer = lead; map<string, uint64_t> due; map<string, string> expect, lines, odds; string trace;
    gLeader = [&](int fd, Conn& c) {
        SData r; int n = SParseHTTP(c.tx, r.methodLine, r.nameValueMap, r.content); if (!n) return; string name = r["name"]; MC_CHECK(due.count(name) && r.methodLine == lines[name] && r["odd"] == odds[name] && r.content == odds[name], "the leader receives %s", c.tx.c_str()); c.tx.erase(0, n); MC_CHECK(c.tx.empty(), "the leader receives more than the command: %s", c.tx.c_str());
        uint64_t now = rt::nowUs(), left = due[name] > now ? (due[name] - now) / 1000 : 0; MC_CHECK(r.calcU64("timeout") <= left + 1 && !r["timeout"].empty(), "the leader is given %s ms for a command that has %lu ms left", r["timeout"].c_str(), left);
        Fate& f = w.fate(name); int how = mc::chooseDev(7, "leader"); static const char* what[] = {"executes it", "executes it and answers 203", "refuses it", "executes it, but the connection is closed", "does not execute it, and the connection is closed", "executes it, and answers too late", "executes it, and the connection breaks in the middle of the answer"}; mc::note("the leader receives %s and %s", name.c_str(), what[how]);
        if (how != 2 && how != 4) f.remote++; if (how >= 3) f.unsure = true; SData a(how == 1 ? "203 Written" : how == 2 ? "402 No" : "200 OK"); a["from"] = "n2"; a["for"] = name; a.content = "content of " + name; expect[name] = a.methodLine; string wire = a.serialize();
        if (how == 3 || how == 4) { c.eof = true; return; } if (how == 5) return; if (how == 6) { c.rx += wire.substr(0, wire.size() - 3); c.eof = true; return; }
        c.rx += wire; if (mc::chooseDev(2, "closed afterwards")) c.eof = true;
    };
    rt::setEarlyTimers(false); gFaults = true; string o; int mode = mc::choose(2, "escalated immediately"), slow = mc::chooseDev(2, "slow peek");
    for (int i = 0; i < commands; i++) {
        string n = "c" + to_string(i); Script sc; int odd = i ? 0 : mc::choose(4, "bytes"); lines[n] = odd == 1 ? "Do a\x01thing\x1f" : odd == 2 ? "Do\ta \xc3\xa4\x7f" : "Do"; odds[n] = odd == 3 ? string("\x01\r\n\t\\ \x7f:\xff") : "x"; auto c = w.make(n, sc, {{"timeout", "2000"}, {"odd", odds[n]}}, lines[n]); const_cast<SData&>(c->request).content = odds[n]; const_cast<bool&>(c->escalateImmediately) = mode; due[n] = c->timeout(); Fate& f = w.fate(n); if (slow) f.hook = [&](int p) { if (p == 6) rt::advanceUs(2500000); };
        uint64_t start = rt::nowUs(); w.s.runCommand(move(c), false, true); drain(w, {n}); f.unsure = f.unsure || gBroken; gBroken = false; w.answered(n); MC_CHECK(f.replies == 1, "%s was answered %d times", n.c_str(), f.replies); SData& r = f.reply;
        if (SStartsWith(r.methodLine, "2") || SStartsWith(r.methodLine, "402")) { MC_CHECK(f.remote || r.methodLine == "402 No", "nobody executed it"); MC_CHECK(expect[n] == r.methodLine && r["for"] == n && r.content == "content of " + n, "%s is answered %s, which is not what the leader answered", n.c_str(), r.serialize().c_str()); }
        else MC_CHECK(SStartsWith(r.methodLine, "5"), "it is answered \"%s\"", r.methodLine.c_str());
        MC_CHECK(f.repliedAt - start < 4000000, "%s was answered after %lu ms", n.c_str(), (f.repliedAt - start) / 1000); if (!mc::deviationsLeft()) {} o += r.methodLine + to_string(f.remote) + " ";
    }
    gFaults = false; w.clean("a command"); mc::outcome(o); gLeader = nullptr; w.node->_leadPeer = nullptr;
}
void mc::registerScenarios() {
    bool T = thorough(); Options o; o.concurrent = true; o.maxSteps = 400000; o.bounds = {0};
    add("one command", [T] { vector<int> all{0, 1, 2, 3}; single(all, T ? all : vector<int>{0, 1, 2}, T ? vector<int>{0, 1, 2, 3, 4, 5, 6, 9} : vector<int>{0, 1, 3, 5}); }, o);
    Options p = o; p.preemptFree = false;
    for (int n : {1, 2}) for (auto& x : paths()) if (n == 1 || x.during.size()) { p.bounds = T ? (n == 1 ? vector<int>{0, 1, 2, 3} : vector<int>{0, 1, 2}) : n == 1 ? vector<int>{0, 1} : vector<int>{0, 1}; const Path* q = &x; add(to_string(n) + (n == 1 ? " command while " : " commands while ") + x.name, [n, q] { leadership(n, *q); }, p); }
    { Options r = p; r.bounds = T ? vector<int>{0, 1, 2} : vector<int>{0, 1}; for (int n : {2, 3}) add(to_string(n) + " commands that conflict", [n] { rivals(n); }, r); }
    Options e = o; e.bounds = T ? vector<int>{0, 1, 2, 3} : vector<int>{0, 1, 2}; add("a command that is escalated", [] { escalation(1); }, e); add("commands that are escalated one after the other", [] { escalation(2); }, e);
    Options x = o; x.bounds = T ? vector<int>{0, 1, 2} : vector<int>{0, 1}; x.preemptFree = false; add("a command that is interrupted", [] { interrupted(); }, x);
    setRuleText("commands of every kind, conflicts, changes of state and faults of escalation");
}
