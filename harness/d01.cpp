// D01: the cache gives the newest value and keeps its size, on every handle and node. Real code: plugins/Cache.cpp, BedrockCore.cpp.
#include "core.h"
#include <plugins/Cache.h>
static const int MAX = 12;
struct Node { shim::ImagePtr image; map<string, string> live; vector<string> lru, used; bool complete = true; vector<string> lost; int n = 0; string trace; };
static BedrockServer& server() { static BedrockServer& s = fakeServer({{"-cache.max", to_string(MAX)}}); return s; }
struct Op { int kind; string name, pattern; int size = 0, handle = 0; bool body = false; int both = 0; string value; string show() const { static const char* K[] = {"write", "read", "restart", "write abandoned", "write in transaction that conflicts"}; return string(K[kind]) + " " + name + (size ? " " + to_string(size) + " bytes" : "") + (pattern.empty() ? "" : " invalidating " + pattern) + " on handle " + to_string(handle) + (body ? " (body)" : "") + (both ? " and a body of " + to_string(both) : ""); } };
static size_t total(const map<string, string>& m) { size_t t = 0; for (auto& [k, v] : m) t += v.size(); return t; }
static bool glob(const string& pat, const string& s) { auto star = pat.find('*'); if (star == string::npos) return pat == s; return s.compare(0, star, pat, 0, star) == 0; }
static const vector<Op>& ops() {
    static vector<Op> o;
    if (o.empty()) {
        for (const char* n : {"a", "b", "ab"}) for (int size : {3, 6}) o.push_back({0, n, "", size, 1, size == 6});
        o.push_back({0, "a", "", 3, 0}); o.push_back({0, "b", "", 12, 1}); o.push_back({0, "c", "", 13, 1}); o.push_back({0, "b", "", 5, 0, true}); o.push_back({0, "b", "a*", 4, 1}); o.push_back({0, "a", "*", 2, 0}); o.push_back({0, "a", "a", 5, 1}); o.push_back({0, "q'); DROP TABLE cache; --", "zz", 1, 1});
        o.push_back({0, "b", "", 0, 1}); o.push_back({0, "", "", 3, 1});
        for (const char* p : {"a", "*", "a*", "b", "zz"}) o.push_back({1, p, "", 0, (int) strlen(p) % 2});
        o.push_back({0, "a", "", 4, 1, false, 9}); o.push_back({0, "b", "", 9, 0, false, 2}); o.push_back({0, "ab", "", 2, 1, false, 0, "ab"}); o.push_back({0, "a*", "", 4, 1});
        o.push_back({2, ""}); o.push_back({3, "a", "b", 4, 1}); o.push_back({4, "a", "", 7, 1});
    }
    return o;
}
static Node step(const Node& from, const Op& op) {
    Node n = from; n.trace += "\n  " + op.show(); mc::note("%s", op.show().c_str()); const char* T = n.trace.c_str();
    string value; for (int i = 0; i < op.size; i++) value += "abcdefghijklmnopqrstuvwxyz'\n\"%"[(n.n * 7 + i) % 30]; if (op.value.size()) value = op.value; string second(op.both, 'S'); n.n++;
    if (op.kind == 2) { for (auto& x : n.lru) if (n.live.count(x)) n.complete = false; if (n.lru.size() < n.live.size()) n.complete = false; n.lru.clear(); n.used.clear(); return n; }
    auto before = n.live;
    string f = "cachedb"; shim::seed(f, n.image); Ran ran; shim::ImagePtr after;
    {
        BedrockPlugin_Cache plugin(server()); for (auto& x : n.lru) plugin._lruMap.pushMRU(x);
        SQLite db(f, 0, 1000000, 0), other(db); SQLite& h = op.handle ? other : db;
        // the handle that upgrades the database on start; others do not run this
        if (!op.handle) { h.beginTransaction(); plugin.upgradeDatabase(h); h.rollback(); }
        auto make = [&] { SData req(op.kind == 1 ? "ReadCache" : "WriteCache"); if (!op.name.empty()) req["name"] = op.name; if (!op.pattern.empty()) req["invalidateName"] = op.pattern; if (op.kind != 1 && op.size) { if (op.body) req.content = value; else req["value"] = value; if (op.both) req.content = second; } auto c = plugin.getCommand(SQLiteCommand(move(req))); MC_CHECK(c != nullptr, "not a command of the plugin"); return c; };
        if (op.kind <= 1) ran = runCommand(h, server(), make());
        else { auto c = make(); BedrockCore core(h, server()); core.peekCommand(c, false); core.processCommand(c, false); if (op.kind == 4) { h.prepare(); } h.rollback(); }
        after = shim::image(f); n.lru.clear(); for (;;) { auto x = plugin._lruMap.popLRU(); if (!x.second) break; n.lru.push_back(x.first); }
    }
    if (op.kind > 2) for (auto& [k, v] : n.live) if (find(n.lru.begin(), n.lru.end(), k) == n.lru.end()) n.complete = false;   // names popped by abandoned writes stay popped
    if (op.kind > 2) n.used = n.lru;
    n.image = after; string got = ran.response.methodLine.substr(0, 3);
    map<string, string> now; string recorded; { shim::Db d(n.image); for (auto& r : d.query("SELECT name, value FROM cache;")) now[r[0]] = r[1]; recorded = d.query("SELECT size FROM cacheSize;").at(0).at(0); }
    auto text = [](const map<string, string>& m) { string o; for (auto& [k, v] : m) o += k + "=<" + v + "> "; return o; };
    if (op.kind == 1) {
        bool any = false; for (auto& [k, v] : n.live) any |= glob(op.name, k);
        MC_CHECK(got == (any ? "200" : "404"), "read of %s answers \"%s\", live values are %s:%s", op.name.c_str(), ran.response.methodLine.c_str(), text(n.live).c_str(), T);
        if (any) { string k = ran.response["name"]; MC_CHECK(glob(op.name, k) && n.live.count(k) && n.live[k] == ran.response.content, "read of %s gives %s=<%s>, live values are %s:%s", op.name.c_str(), k.c_str(), ran.response.content.c_str(), text(n.live).c_str(), T); }
        MC_CHECK(!ran.committed, "a read committed something:%s", T);
        if (any) { string k = ran.response["name"]; n.used.erase(remove(n.used.begin(), n.used.end(), k), n.used.end()); n.used.push_back(k); }
    } else if (op.kind == 0) {
        if (op.both && now.count(op.name) && now[op.name] == second) value = second;   // which of the two counts is up to the plugin
        string want = op.name.empty() || !op.size || op.size > MAX ? "402" : "200"; MC_CHECK(got == want, "write answers \"%s\":%s", ran.response.methodLine.c_str(), T);
        if (want == "200") {
            if (!op.pattern.empty()) for (auto it = n.live.begin(); it != n.live.end();) if (glob(op.pattern, it->first)) it = n.live.erase(it); else ++it;
            // least recently used first; names nobody used since the start only after those
            auto& lru = n.used; while (total(n.live) + value.size() > MAX && !lru.empty()) { n.live.erase(lru.front()); lru.erase(lru.begin()); }
            if (total(n.live) + value.size() > MAX) {
                MC_CHECK(!n.complete, "the least recently used names are not known although nothing was restarted:%s", T);
                // any order; the name being written may have been evicted too, or be replaced in place
                auto rest = n.live; for (auto it = rest.begin(); it != rest.end();) if (!now.count(it->first)) it = rest.erase(it); else ++it;
                auto fits = [&](const map<string, string>& r) { if (total(r) + value.size() > MAX) return false; for (auto& [k, v] : n.live) if (!r.count(k) && total(r) + v.size() + value.size() > MAX) return true; return false; };
                auto without = rest; without.erase(op.name); MC_CHECK(fits(rest) || fits(without), "more or less was evicted than needed:%s", T);
                n.live = rest;
            }
            n.live[op.name] = value; lru.erase(remove_if(lru.begin(), lru.end(), [&](const string& x) { return x == op.name || !n.live.count(x); }), lru.end()); lru.push_back(op.name);
        }
    }
    MC_CHECK(now == n.live, "the cache holds %s instead of %s:%s", text(now).c_str(), text(n.live).c_str(), T);
    MC_CHECK(recorded == to_string(total(now)), "recorded size is %s, the live values have %zu bytes:%s", recorded.c_str(), total(now), T);
    MC_CHECK(total(now) <= MAX, "the cache holds %zu bytes of at most %d:%s", total(now), MAX, T);
    if (ran.committed) {   // another node, whose handles did not run the upgrade
        shim::Db d(from.image); auto j = shim::journal(d); shim::Db e(n.image); auto k = journalOf(e); MC_CHECK(k.size() == j.size() + 1, "%zu commits:%s", k.size() - j.size(), T);
        for (int rec : {0, 1}) { d.exec("BEGIN;"); d.exec("PRAGMA recursive_triggers = " + to_string(rec) + ";"); MC_CHECK(d.exec(k.back().query), "another node cannot execute the commit: %s:%s", d.error.c_str(), T); string a = d.dump(), b = e.dump(); MC_CHECK(a == b, "another node executing the same commit has\n%sinstead of\n%s:%s", a.c_str(), b.c_str(), T); d.exec("ROLLBACK;"); }
        mc::compared(2);
    }
    mc::compared(3);
    return n;
}
static uint64_t hashNode(const Node& n) { string o; for (auto& [k, v] : n.live) o += k + to_string(v.size()) + "/"; for (auto& x : n.lru) if (n.live.count(x)) o += x + ">"; else o += ">"; o += "|"; for (auto& x : n.used) o += x + ">"; return mc::hashStr(o + (n.complete ? "" : "?")); }
static Node start() { static shim::ImagePtr im; if (!im) { rt::NoPoints np; string f = shim::freshName("seed"); { SQLite db(f, 0, 1000000, 0); BedrockPlugin_Cache p(server()); MC_CHECK(db.beginTransaction(), "begin"); p.upgradeDatabase(db); uint64_t id; string h; MC_CHECK(db.prepare(&id, &h) && db.commit("setup") == 0, "setup"); } im = shim::image(f); } Node n; n.image = im; return n; }
static void sequences(int depth) { static Explorer<Node> e; sqlSetup(); rt::setClockTick(0); rt::NoPoints np; e.run(1, 1, depth, [](int) { return start(); }, [](const Node&) { return (int) ops().size(); }, [](const Node& n, int i) { return step(n, ops()[i]); }, hashNode); }
// The list of recently used names is shared by all threads.
static void shared() {
    BedrockPlugin_Cache::LRUMap m; vector<vector<int>> prog = {{mc::choose(3, "op"), mc::choose(3, "op")}, {mc::choose(3, "op"), mc::choose(3, "op")}}; bool pre = mc::choose(2, "filled");
    multiset<string> in, out; if (pre) { m.pushMRU("x"); m.pushMRU("y"); in = {"x", "y"}; }
    vector<vector<string>> popped(2); vector<thread> ts;
    for (int t = 0; t < 2; t++) ts.emplace_back([&, t] { for (int o : prog[t]) { if (o == 0) m.pushMRU("x"); else if (o == 1) m.pushMRU("n" + to_string(t)); else { auto p = m.popLRU(); if (p.second) popped[t].push_back(p.first); } } });
    for (auto& t : ts) t.join();
    map<string, int> pushes, pops; if (pre) { pushes["x"]++; pushes["y"]++; } for (int t = 0; t < 2; t++) { for (int o : prog[t]) if (o < 2) pushes[o ? "n" + to_string(t) : "x"]++; for (auto& p : popped[t]) pops[p]++; }
    set<string> left; for (;;) { auto p = m.popLRU(); if (!p.second) break; MC_CHECK(left.insert(p.first).second, "%s is in the list twice", p.first.c_str()); }
    string o; for (auto& [k, n] : pushes) { MC_CHECK(pops[k] + left.count(k) <= (size_t) n, "%s came out more often than it was put in", k.c_str()); MC_CHECK(pops[k] + left.count(k) >= 1, "%s was lost", k.c_str()); o += k + to_string(pops[k]); } for (auto& [k, n] : pops) MC_CHECK(pushes.count(k), "%s came out of nowhere", k.c_str());
    MC_CHECK(m.empty(), "not empty"); mc::outcome(o); mc::compared(2);
}
// The maximum as an operator states it.
static void configuration() {
    int64_t n = mc::pick(vector<int64_t>{0, 1, 7, 16, 1000, 123456}, "number"); int u = mc::choose(10, "unit"); static const char* units[] = {"", "kb", "KB", "Kb", "mb", "MB", " MB", "gb", "GB", "gB"}; static const int64_t f[] = {1, 1024, 1024, 1024, 1 << 20, 1 << 20, 1 << 20, 1 << 30, 1 << 30, 1 << 30};
    string text = n ? to_string(n) + units[u] : mc::choose(2, "given") ? "0" : ""; rt::NoPoints np; BedrockPlugin_Cache plugin(fakeServer({{"-cache.max", text}})); int64_t want = n ? n * f[u] : 16ll << 30;
    MC_CHECK(plugin._maxCacheSize == want, "a maximum of \"%s\" is taken as %ld bytes", text.c_str(), (long) plugin._maxCacheSize); mc::compared(); mc::transition(); mc::state(text); mc::outcome(to_string(want));
}
void mc::registerScenarios() {
    bool T = thorough(); Options o; o.concurrent = true; o.maxSteps = 2000000; o.bounds = {0}; add("the configured maximum", configuration, o);
    add("command sequences", [T] { sequences(T ? 7 : 5); }, o);
    Options p = o; p.bounds = T ? vector<int>{0, 1, 2, 3} : vector<int>{0, 1, 2}; add("two threads using the list", shared, p);
    setRuleText("sequences of cache commands on two handles, restarts and abandoned writes");
}
