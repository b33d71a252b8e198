// B02: commands like one that is known to crash are refused, others never. Real code: BedrockServer::runCommand/_wouldCrash/_control/_generateCrashMessage/onNodeLogin.
#include "core.h"
#include <sqlitecluster/SQLitePeer.h>
typedef map<string, string> Fields;
struct Cmd { string method; Fields fields, also; vector<string> hold() const { vector<string> o; for (auto& [k, v] : fields) o.push_back(k); return o; } };   // identifying fields, and the rest of the request
static string show(const Cmd& c) { string o = c.method + "("; for (auto& [k, v] : c.fields) o += k + "=" + v + " "; o += "|"; for (auto& [k, v] : c.also) o += " " + k + "=" + v; return o + ")"; }
static vector<pair<string, SData>> gSent; static mutex* gSentLock = new mutex;
extern "C" bool __wrap__ZN22SQLiteClusterMessenger9runOnPeerER14BedrockCommandRKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE(SQLiteClusterMessenger*, BedrockCommand& c, const string& peer) { lock_guard<mutex> l(*gSentLock); SData copy; copy.deserialize(c.request.serialize()); gSent.emplace_back(peer, copy); return true; }
struct Probe : BedrockCommand { string* reply; Probe(SData&& r, string* o) : BedrockCommand(SQLiteCommand(move(r)), nullptr), reply(o) {} void handleFailedReply() override { *reply = response.methodLine; } };
static SData requestOf(const Cmd& c) { SData r(c.method); for (auto& [k, v] : c.fields) r[k] = v; for (auto& [k, v] : c.also) r[k] = v; return r; }
// The message a crashing node sends, as it arrives.
static SData report(const Cmd& c) { unique_ptr<BedrockCommand> victim = make_unique<BedrockCommand>(SQLiteCommand(requestOf(c)), nullptr); for (auto& k : c.hold()) victim->crashIdentifyingValues.insert(k); SData m; m.deserialize(BedrockServer::_generateCrashMessage(victim).serialize()); return m; }
static void deliver(BedrockServer& s, SData m, bool remote = true) { if (remote) m["_source"] = "10.0.0.2"; string reply; s.runCommand(make_unique<Probe>(move(m), &reply)); MC_CHECK(reply == "200 OK", "the report was answered with \"%s\"", reply.c_str()); }
static void clear(BedrockServer& s) { string reply; s.runCommand(make_unique<Probe>(SData("ClearCrashCommands"), &reply)); MC_CHECK(reply == "200 OK", "ClearCrashCommands was answered with \"%s\"", reply.c_str()); }
static bool refused(BedrockServer& s, const Cmd& c, bool wire = true) {
    string reply; SData r = requestOf(c); if (wire) { SData b; b.deserialize(r.serialize()); r = b; }
    s.runCommand(make_unique<Probe>(move(r), &reply));
    if (reply.empty()) { try { auto x = s._commandQueue.get(1); } catch (const BedrockCommandQueue::timeout_error&) { mc::fail("%s was neither answered nor queued", show(c).c_str()); } return false; }
    MC_CHECK(reply == "500 Refused", "%s was answered with \"%s\"", show(c).c_str(), reply.c_str()); return true;
}
struct Model { map<string, set<Fields>> known; bool refuses(const Cmd& c) const { auto it = known.find(c.method); if (it == known.end()) return false; if (it->second.size() > 1) return true; for (auto& [k, v] : *it->second.begin()) { auto f = c.fields.find(k); auto a = c.also.find(k); if (!(f != c.fields.end() ? f->second == v : a != c.also.end() && a->second == v)) return false; } return true; } };
static const vector<string>& values() { static vector<string> v = {"1", "2", "12", "a b", "x\ny", "", "\xc3\xa9:;"}; return v; }
static vector<Cmd> reports() {
    vector<Cmd> o; for (const char* m : {"DoIt", "DoItTwice"}) { o.push_back({m, {}, {{"userID", "1"}}}); for (auto& v : values()) if (m == "DoIt"s || v.size() < 2) o.push_back({m, {{"userID", v}}, {{"list", "2"}}}); o.push_back({m, {{"userID", "1"}, {"list", "2"}}, {}}); o.push_back({m, {{"list", "2"}}, {{"userID", "1"}, {"requestID", "9"}}}); }
    o.push_back({"Query: SELECT 1;", {}, {}}); o.push_back({"DoIt", {{"a", "1"}, {"list", "2"}, {"userID", "1"}, {"zz", "3"}}, {}}); return o;
}
static vector<Cmd> probes() {
    vector<Cmd> o; for (const char* m : {"DoIt", "DoItTwice", "DoI", "Other"}) {
        o.push_back({m, {}, {}}); for (auto& v : values()) { o.push_back({m, {{"userID", v}}, {}}); o.push_back({m, {{"userID", v}, {"list", "2"}}, {{"requestID", "9"}}}); }
        o.push_back({m, {{"list", "2"}}, {}}); o.push_back({m, {{"list", "1"}, {"userID", "2"}}, {}}); o.push_back({m, {{"list", "22"}, {"userID", "1"}}, {}}); o.push_back({m, {{"a", "1"}, {"list", "2"}, {"userID", "1"}, {"zz", "3"}}, {}}); o.push_back({m, {{"a", "1"}, {"list", "2"}, {"userID", "1"}, {"zz", "4"}}, {}}); o.push_back({m, {{"a", "2"}, {"list", "2"}, {"userID", "1"}, {"zz", "3"}}, {}}); o.push_back({m, {{"userI", "1"}, {"userIDs", "1"}}, {}});
    }
    o.push_back({"Query: SELECT 1;", {{"userID", "1"}}, {}}); o.push_back({"Query: SELECT 2;", {}, {}}); return o;
}
static void probeAll(BedrockServer& s, const Model& m, const string& trace) {
    static auto all = probes(); string seen; for (auto& c : all) { bool r = refused(s, c), want = m.refuses(c); MC_CHECK(r == want, "%s is %s after:%s", show(c).c_str(), r ? "refused" : "not refused", trace.c_str()); seen += r ? '1' : '0'; mc::compared(); mc::transition(); }
    mc::state(mc::hashStr(seen)); mc::outcome(seen);
}
static BedrockServer& server(int i) { return fakeServer({{"-nodeName", "n" + to_string(i)}}); }
static void apply(BedrockServer& s, Model& m, string& trace, int kinds) {
    static auto all = reports(); int k = mc::choose(kinds, "event");
    if (k == (int) all.size()) { clear(s); m.known.clear(); trace += "\n  reports cleared"; } else { auto& c = all[k]; deliver(s, report(c)); m.known[c.method].insert(c.fields); trace += "\n  report of " + show(c); }
    mc::note("%s", trace.substr(trace.rfind('\n') + 3).c_str());
}
static void tables(int depth) {
    rt::NoPoints np; rt::setClockTick(0); auto& s = server(1); clear(s); Model m; string trace; static int kinds = reports().size() + 1; probeAll(s, m, trace);
    for (int i = 0; i < depth; i++) { apply(s, m, trace, kinds); if (i + 1 == depth) probeAll(s, m, trace); }
}
// A node that logs in later gets every report.
static void login(int depth) {
    rt::setClockTick(0); rt::NoPoints np; auto &s = server(1), &t = server(2); clear(s); clear(t); Model m; string trace; static int kinds = reports().size(); gSent.clear();
    for (int i = 0; i < depth; i++) apply(s, m, trace, kinds);
    static auto* messenger = new SQLiteClusterMessenger(nullptr); s._clusterMessenger.reset(messenger, [](auto*) {});
    SQLitePeer peer("n2", "localhost:1", {}, 2); s.onNodeLogin(&peer); size_t want = 0; for (auto& [k, v] : m.known) want += v.size(); 
    rt::waitUntil("messages", [&] { return gSent.size() >= want; }, rt::nowUs() + 1000000); s._clusterMessenger = nullptr;
    MC_CHECK(gSent.size() == want, "%zu reports were sent instead of %zu:%s", gSent.size(), want, trace.c_str());
    auto sent = gSent; while (!sent.empty()) { int k = mc::choose((int) sent.size(), "delivered"); MC_CHECK(sent[k].first == "n2", "sent to %s", sent[k].first.c_str()); deliver(t, sent[k].second); sent.erase(sent.begin() + k); }
    probeAll(t, m, trace + "\n  (on the node that logged in afterwards)"); probeAll(s, m, trace);
}
// Messages that are not reports, or that name a command no node could be told about: answered, and nothing else is refused because of them.
static void odd() {
    rt::setClockTick(0); rt::NoPoints np; auto &s = server(1), &t = server(2); clear(s); clear(t); Model m; string trace; gSent.clear(); static const vector<string> TEXT = {"", "DoIt", "DoIt\r\n", "\r\n\r\n", "DoIt\r\nuserID: 1\r\nContent-Length: 5\r\n\r\nab", "Do\x01It\r\nuserID: 1\r\n\r\n", "Do\x7f\r\n\r\n", string("\0\r\n\r\n", 5), "\x1b\r\nContent-Length: 0\r\n\r\n", string("D\0oIt\r\n\r\n", 9)};
    for (int i = 0; i < 2; i++) { SData r("CRASH_COMMAND"); int k = mc::choose((int) TEXT.size(), "message"); r.content = TEXT[k]; mc::note("message %d", k); deliver(s, r, mc::choose(2, "from another host")); if (!i && mc::choose(2, "a report in between")) { Cmd a{"DoItTwice", {{"userID", "1"}}, {}}; deliver(s, report(a)); m.known["DoItTwice"].insert(a.fields); } }
    probeAll(s, m, " odd messages");
    static auto* messenger = new SQLiteClusterMessenger(nullptr); s._clusterMessenger.reset(messenger, [](auto*) {}); SQLitePeer peer("n2", "localhost:1", {}, 2); s.onNodeLogin(&peer); rt::waitUntil("messages", [&] { return gSent.size() >= m.known.size(); }, rt::nowUs() + 1000000); s._clusterMessenger = nullptr;
    for (auto& [to, x] : gSent) deliver(t, x); probeAll(t, m, " odd messages and a login");
}
// Reports, clearing and commands at the same time.
static void together() {
    rt::setClockTick(0); auto& s = server(1); Cmd a{"DoIt", {{"userID", "1"}}, {}}, b{"DoIt", {{"userID", "2"}}, {}}, c{"Else", {{"x", "1"}}, {}}; Model none, m; { rt::NoPoints np; clear(s); if (mc::choose(2, "known before")) { deliver(s, report(c)); none.known["Else"].insert(c.fields); } } m = none;
    int what = mc::choose(3, "second thread"); bool r1 = false, r2 = false;
    thread t1([&] { deliver(s, report(a)); r1 = refused(s, a); }), t2([&] { if (what == 0) deliver(s, report(b)); else if (what == 1) clear(s); r2 = refused(s, what == 2 ? c : b); });
    t1.join(); t2.join(); rt::NoPoints np; mc::outcome(to_string(what) + to_string(r1) + to_string(r2));
    if (what != 1) MC_CHECK(r1, "refused nothing right after the report"); if (what == 2) MC_CHECK(r2 == none.refuses(c), "another command is %s", r2 ? "refused" : "not refused"); if (what == 0) MC_CHECK(r2, "refused nothing right after the second report");
    if (what != 1) { m.known["DoIt"].insert(a.fields); if (!what) m.known["DoIt"].insert(b.fields); probeAll(s, m, ""); } else { Model one; one.known["DoIt"].insert(a.fields); MC_CHECK(refused(s, a) || !refused(s, b), "half a report"); MC_CHECK(!refused(s, c), "still refused after clearing"); }
}
void mc::registerScenarios() {
    bool T = thorough(); Options o; o.concurrent = true; o.maxSteps = 2000000; o.bounds = {0};
    add("every set of reports", [T] { tables(T ? 4 : 3); }, o); add("one report", [] { tables(1); }, o); add("two reports", [] { tables(2); }, o);
    add("odd messages", odd, o);
    add("a node logs in", [T] { login(T ? 3 : 2); }, o);
    Options p = o; p.bounds = T ? vector<int>{0, 1, 2} : vector<int>{0, 1}; p.isolate = false; add("at the same time", together, p);
    setRuleText("sequences of crash reports and clearings, followed by every probing command");
}
