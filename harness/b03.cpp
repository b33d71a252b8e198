// B03: one answer to every request on a connection, in order. Real code: BedrockServer::handleSocket/buildCommandFromRequest/_handleIfStatusOrControlCommand/_reply/runCommand, STCPManager::Socket, SData, SFastBuffer.
#include "connection.h"
// A request, the status line of its answer ("" = none), and whether the connection ends with it.
struct Req { const char* what; SData r; string line; bool closes = false, scripted = true, later = false; Script s; };
static Req request(int kind, const string& name) {
    Req q; q.r = SData("Do"); q.r["name"] = name; q.line = "200 OK";
    switch (kind) {
        case 0: q.what = "a command"; break;
        case 1: q.what = "a failing command with content"; q.s.process = Script::W_402; q.r.content = "Do\r\nname: inner\r\n\r\n"; q.line = "402 Process"; break;
        case 2: q.what = "a reading command"; q.s.peek = Script::DONE_201; q.r.content = string("\0\n\n\xff", 4); q.line = "201 Peeked"; break;
        case 3: q.what = "Ping"; q.r = SData("Ping"); q.scripted = false; break;
        case 4: q.what = "an unknown command"; q.r = SData("Nonsense"); q.line = "430 Unrecognized command"; q.scripted = false; break;
        case 5: q.what = "the last command"; q.r["Connection"] = "close"; q.closes = true; break;
        case 6: q.what = "a command to be forgotten"; q.r["Connection"] = "forget"; q.line = "202 Successfully queued"; q.closes = true; break;
        case 7: q.what = "a command for later"; q.r["commandExecuteTime"] = to_string(rt::nowUs() + 3600000000ull); q.line = "202 Successfully queued"; q.closes = true; q.later = true; break;
        case 8: q.what = "a control command"; q.r = SData("SetConflictPageLocks"); q.r["enable"] = "true"; q.line = "401 Unauthorized"; q.scripted = false; break;
        case 9: q.what = "a command with the name of a plugin"; q.r["plugin"] = Scripts::pluginName; break;
        case 10: q.what = "a command with the name of no plugin"; q.r["plugin"] = "none"; break;
        case 12: q.what = "a setting"; q.r = SData("SetConflictParams"); q.r["MaxConflictRetries"] = "77"; q.r["_source"] = ""; q.line = "401 Unauthorized"; q.scripted = false; break;
        case 13: q.what = "a command with results of HTTPS requests that cannot be read"; q.r["httpsRequests"] = "[1,{]"; break;
        case 14: q.what = "a command with no results of HTTPS requests"; q.r["httpsRequests"] = "garbage"; q.r["serializedData"] = "garbage"; break;
        case 11: q.what = "a command whose constructor fails"; q.r["fails"] = "1"; q.line = "403 Constructor"; break;
    }
    return q;
}
static const int KINDS = 15;
struct Failing : Scripts { using Scripts::Scripts; unique_ptr<BedrockCommand> getCommand(SQLiteCommand&& c) override { if (c.request.isSet("fails")) STHROW("403 Constructor"); return Scripts::getCommand(move(c)); } };
static void conversation(const vector<int>& kinds, int cuts, bool early, bool faults = false) {
    netReset(); rt::setEarlyTimers(false); World w(3); rt::setClockTick(1); w.s._shutdownState = BedrockServer::RUNNING; Failing plugin(w); w.s.plugins[plugin.getName()] = &plugin; map<string, Script> scripts; vector<Req> q; string stream; vector<size_t> ends;
    plugin.script = [&](const SData& r) { auto it = scripts.find(r["name"]); MC_CHECK(it != scripts.end(), "there is no such command as %s", r["name"].c_str()); return it->second; };
    for (size_t i = 0; i < kinds.size(); i++) { q.push_back(request(kinds[i], "c" + to_string(i))); if (q[i].scripted) scripts["c" + to_string(i)] = q[i].s; stream += q[i].r.serialize(); ends.push_back(stream.size()); mc::note("%s", q[i].what); }
    // where the client's bytes are cut: around the ends of the requests, after headers, in the middle
    set<size_t> places; for (size_t i = 0, b = 0; i < ends.size(); b = ends[i++]) { size_t body = ends[i] - q[i].r.content.size(); for (size_t p : {ends[i], ends[i] - 1, b + 1, body, body - 2, (b + body) / 2, body + 1}) if (p > 0 && p < stream.size()) places.insert(p); }
    vector<size_t> P(places.begin(), places.end()); Client k; size_t from = 0, first = 0;
    for (int i = 0; i < cuts; i++) { int a = mc::choose(P.size() - first + 1, "cut"); if (!a) break; size_t p = P[first + a - 1]; k.pieces.push_back(stream.substr(from, p - from)); from = p; first += a; if (first == P.size()) break; }
    k.pieces.push_back(stream.substr(from));
    if (early && scripts.count("c0")) plugin.hooks["c0"] = [&k](int phase) { if (phase == 1 || phase == 6) k.deliver(); };
    Port port = faults ? PUBLIC : (Port) mc::choose(kinds.size() == 1 ? 3 : 1, "port"); bool local = !faults && kinds.size() == 1 && mc::choose(2, "from this host"), trusted = local || port == PRIVATE; gFaults = gClientFaults = faults; gBroken = false; w.s._enableConflictPageLocks = false;
    serve(w, k, nullptr, port, local ? 0x7F000001 : 0x0A000001); drain(w, {}); string got = gConns[CLIENT].tx; size_t n = 0; string o; bool ended = false;
    for (size_t i = 0; i < q.size() && !ended; i++) {
        SData a; int size = SParseHTTP(got.substr(n), a.methodLine, a.nameValueMap, a.content); MC_CHECK(size > 0, "no answer to %s (request %zu of %zu)", q[i].what, i + 1, q.size()); n += size; o += a.methodLine + "|";
        if (kinds[i] == 12 || kinds[i] == 8) { if (trusted) q[i].line = "200 OK"; if (kinds[i] == 12) MC_CHECK((w.s._maxConflictRetries.load() == 77) == trusted, "a setting of %s is %s", trusted ? "this host" : "another host", trusted ? "ignored" : "taken"); else MC_CHECK(w.s._enableConflictPageLocks == trusted, "a control command of %s", trusted ? "this host is ignored" : "another host has an effect"); }
        MC_CHECK(a.methodLine == q[i].line, "%s (request %zu) is answered \"%s\"", q[i].what, i + 1, a.methodLine.c_str());
        if (q[i].scripted && kinds[i] != 11 && !SStartsWith(a.methodLine, "202")) { MC_CHECK(a["for"] == "c" + to_string(i), "request %zu gets the answer to \"%s\"", i + 1, a["for"].c_str()); }
        if (SStartsWith(a.methodLine, "201")) MC_CHECK(a.content == "{\"old\":0}" || SStartsWith(a.content, "{\"old\":"), "the answer's content is %s", a.content.c_str());
        ended = q[i].closes; MC_CHECK(!q[i].closes || SIEquals(a["Connection"], "close"), "the answer to %s does not say that the connection is closed", q[i].what);
    }
    MC_CHECK(gConns[CLIENT].lastTx <= k.lastAt + 500000, "the last answer took %lu ms", (gConns[CLIENT].lastTx - k.lastAt) / 1000);
    MC_CHECK(n == got.size(), "after the answers the client gets %s", got.substr(n).c_str()); MC_CHECK(gConns[CLIENT].closed, "the connection was not closed"); if (ended) MC_CHECK(!k.left, "the connection was not closed by the server");
    bool over = false; for (size_t i = 0; i < q.size(); i++) {
        string name = "c" + to_string(i); if (!q[i].scripted || kinds[i] == 11) { over = over || q[i].closes; continue; }
        bool run = !over && !q[i].later, writes = q[i].s.peek == Script::GO_ON && q[i].s.process == Script::WRITE; MC_CHECK(w.count(name) == (run && writes), "%s (request %zu) was executed %d times", q[i].what, i + 1, w.count(name)); if (over) MC_CHECK(!w.fates.count(name), "a request after the end of the connection was taken"); else if (!q[i].later) MC_CHECK(w.fate(name).destroyed, "%s is still there", q[i].what);
        over = over || q[i].closes;
    }
    MC_CHECK(w.s._commandQueue.size() + w.s._futureCommitCommands.size() <= 1 && w.s._commandQueue.size() == [&] { for (auto& x : q) { if (x.later) return 1u; if (x.closes) return 0u; } return 0u; }(), "%zu commands are queued", w.s._commandQueue.size());
    w.s._commandQueue.clear(); w.clean("a connection"); mc::compared(q.size()); mc::outcome(o);
}
// The client leaves, the connection breaks, or the server shuts down, at any moment.
static void disturbed(int requests, int event) {
    netReset(); rt::setEarlyTimers(false); static const char* what[] = {"the client leaves", "the connection breaks", "the server shuts down", "the server shuts down and does not wait any longer"};
    World w(3); rt::setClockTick(1); w.s._shutdownState = BedrockServer::RUNNING; w.s._shutdownTime = chrono::time_point<chrono::steady_clock>{}; Failing plugin(w); w.s.plugins[plugin.getName()] = &plugin; Client k; string stream; bool slow = mc::choose(2, "slow"), reads = mc::choose(2, "reading");
    plugin.script = [&](const SData& r) { Script s; if (reads && r["name"] == "c0") s.peek = Script::DONE_201; return s; };
    for (int i = 0; i < requests; i++) { SData r("Do"); r["name"] = "c" + to_string(i); stream += r.serialize(); } k.pieces = {stream}; mc::note("%s", what[event]);
    if (slow) plugin.hooks["c0"] = [](int phase) { if (phase == 1) usleep(1500000); };
    bool happened = false; uint64_t at = 0, end = 0;
    serve(w, k, nullptr, PUBLIC, 0x0A000001, [&] { Conn& c = gConns[CLIENT]; if (slow) usleep(700000); else rt::point("event"); happened = true; at = rt::nowUs(); mc::note("%s", what[event]); if (event == 0) k.leave(); else if (event == 1) { c.dead = true; k.left = true; } else { w.s._shutdownState = BedrockServer::START_SHUTDOWN; if (event == 3) w.s._shutdownTime = chrono::steady_clock::now(); } });
    end = rt::nowUs(); drain(w, {}); string got = gConns[CLIENT].tx, o; size_t n = 0; int answers = 0; bool closing = false;
    while (n < got.size()) { SData a; int size = SParseHTTP(got.substr(n), a.methodLine, a.nameValueMap, a.content); MC_CHECK(size > 0 && answers < requests, "the client gets %s", got.substr(n).c_str()); MC_CHECK(!closing, "an answer after the connection was to be closed"); n += size; string name = "c" + to_string(answers); if (a.methodLine[0] == '2') MC_CHECK(a["for"] == name, "the answer to %s instead of %s", a["for"].c_str(), name.c_str()); closing = SIEquals(a["Connection"], "close"); answers++; o += a.methodLine + "|";
        bool ok = SStartsWith(a.methodLine, "2"), wr = !(reads && name == "c0"); MC_CHECK(w.count(name) == (ok && wr) , "%s was executed %d times and answered \"%s\"", name.c_str(), w.count(name), a.methodLine.c_str()); if (event == 2) MC_CHECK(ok, "%s is answered \"%s\"", name.c_str(), a.methodLine.c_str()); }
    for (int i = answers; i < requests; i++) { int c = w.count("c" + to_string(i)); MC_CHECK(c <= (event < 2), "c%d was executed %d times but not answered", i, c); }
    if (event >= 2) { MC_CHECK(answers >= 1, "no answer while shutting down"); MC_CHECK(end - max(at, gConns[CLIENT].lastTx) < 2500000, "the connection was closed after %lu ms", (end - at) / 1000); if (event == 3 && slow) MC_CHECK(end - at < 2500000, "the connection was closed after %lu ms", (end - at) / 1000); }
    else MC_CHECK(end - at < 4000000, "after %s the connection was kept for %lu ms", what[event], (end - at) / 1000);
    w.s._shutdownState = BedrockServer::RUNNING; w.s._shutdownTime = chrono::time_point<chrono::steady_clock>{}; w.s._commandQueue.clear(); w.clean("a connection"); mc::compared(); mc::outcome(o + to_string(w.count("c0")) + to_string(w.count("c1")));
}
void mc::registerScenarios() {
    bool T = thorough(); Options o; o.concurrent = true; o.maxSteps = 400000; o.bounds = {0};
    add("one request", [T] { conversation({mc::choose(KINDS, "request")}, T ? 3 : 2, false); }, o);
    add("two requests", [T] { conversation({mc::choose(KINDS, "request"), mc::choose(KINDS, "request")}, T ? 2 : 1, mc::choose(2, "while the first runs")); }, o);
    if (T) add("three requests", [] { int a = mc::pick(vector<int>{0, 1, 2, 3, 4}, "request"), b = mc::pick(vector<int>{0, 1, 2, 3, 4}, "request"); conversation({a, b, mc::choose(KINDS, "request")}, 2, mc::choose(2, "while the first runs")); }, o);
    else add("three requests", [] { int a = mc::pick(vector<int>{0, 2, 3}, "request"), b = mc::pick(vector<int>{1, 3}, "request"); conversation({a, b, mc::pick(vector<int>{0, 1, 5, 6}, "request")}, 1, mc::choose(2, "while the first runs")); }, o);
    Options p = o; p.preemptFree = false; p.bounds = T ? vector<int>{0, 1, 2, 3} : vector<int>{0, 1, 2};
    for (int e = 0; e < 4; e++) { static const char* names[] = {"the client leaves", "the connection breaks", "the server shuts down", "the server shuts down at once"}; add(string("a request while ") + names[e], [e] { disturbed(1, e); }, p); add(string("two requests while ") + names[e], [e] { disturbed(2, e); }, p); }
    setRuleText("one to three requests on a connection");
}
