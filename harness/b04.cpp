// B04: BlockWrites and UnblockWrites. Real code: BedrockServer::_control, runCommand, BedrockCore, SQLite (the locks of a database).
#include "world.h"
static string control(World& w, const char* line, int limit = 5000) {
    SData r(line); string n = line; n += to_string(w.fates.size()); auto* f = &w.fate(n); w.scripts[n] = Script(); unique_ptr<BedrockCommand> c; { rt::NoPoints np; c = make_unique<Command>(move(r), Script(), f); c->initiatingClientID = 1; }
    bool handled = false; thread t([&] { rt::nameFiber(n); handled = w.s._handleIfStatusOrControlCommand(c); c = nullptr; });
    MC_CHECK(rt::waitUntil("answer", [f] { return f->replies > 0; }, rt::nowUs() + limit * 1000ull), "%s is not answered within %d s", line, limit / 1000); t.join();
    MC_CHECK(handled && f->replies == 1, "%s is answered %d times", line, f->replies); mc::note("%s is answered \"%s\"", line, f->reply.methodLine.c_str()); return f->reply.methodLine;
}
static uint64_t content(World& w) { rt::NoPoints np; return shim::hashImage(shim::image(w.file)); }
struct Running { string name; thread t; bool early; bool done = false; };
static unique_ptr<Running> start(World& w, const string& name, const Script& sc, bool early, bool blocking = false) {
    auto r = make_unique<Running>(); r->name = name; r->early = early; auto* c = w.make(name, sc, {{"timeout", "2000"}}).release();
    r->t = thread([&w, name, c, blocking] { rt::nameFiber(name); w.run(unique_ptr<BedrockCommand>(c), name, blocking, true); }); return r;
}
// Every sequence of what administrators and clients do, one after the other.
static void sequence(int depth) {
    World w; rt::setEarlyTimers(false); bool blocked = false, db = true; uint64_t seen = 0; vector<unique_ptr<Running>> rs; string o; int n = 0;
    auto settle = [&](uint64_t us) { usleep(us); };
    auto check = [&] {
        if (blocked) MC_CHECK(content(w) == seen, "the database changed while writes are blocked");
        for (auto& r : rs) { if (r->done) continue; Fate& f = w.fate(r->name); r->done = f.replies; if (!blocked || r->early) MC_CHECK(f.replies == 1, "%s is not answered although writes are not blocked", r->name.c_str()); else if (f.replies) MC_CHECK(!SStartsWith(f.reply.methodLine, "2"), "%s is answered \"%s\" while writes are blocked", r->name.c_str(), f.reply.methodLine.c_str()); }
    };
    for (int i = 0; i < depth; i++) {
        static const char* what[] = {"end", "BlockWrites", "UnblockWrites", "a writing command", "a reading command", "a writing command in the blocking queue", "the database is closed or opened", "3 s"}; int op = mc::choose(8, "operation"); mc::note("-- %s", what[op]); if (!op) break; o += to_string(op);
        if (op == 1) { string a = control(w, "BlockWrites"); if (!db) MC_CHECK(!SStartsWith(a, "2"), "BlockWrites is answered \"%s\" without a database", a.c_str()); else if (blocked) MC_CHECK(a == "400 Already Blocked", "BlockWrites while blocked is answered \"%s\"", a.c_str()); else { MC_CHECK(a == "200 Blocked", "BlockWrites is answered \"%s\"", a.c_str()); blocked = true; seen = content(w); } }
        else if (op == 2) { string a = control(w, "UnblockWrites"); MC_CHECK(a == (blocked ? "200 Unblocked" : "200 Not Blocked"), "UnblockWrites is answered \"%s\"", a.c_str()); blocked = false; settle(600000); }
        else if (op == 6) { if (blocked || rs.size()) { bool idle = !blocked; for (auto& r : rs) idle = idle && w.fate(r->name).destroyed; if (!idle) { mc::prune(); return; } } db = !db; w.s._dbPool = db ? w.pool : nullptr; }
        else if (op == 7) { if (!blocked) mc::prune(); settle(3000000); }
        else { if (!db) { mc::prune(); return; } string name = "c" + to_string(n++); Script sc; if (op == 4) sc.peek = Script::DONE; rs.push_back(start(w, name, sc, !blocked || op == 4, op == 5)); settle(100000); Fate& f = w.fate(name); if (op == 4) MC_CHECK(f.replies == 1 && f.reply.methodLine == "200 OK", "a reading command is %s%s%s", f.replies ? "answered " : "not answered", f.replies ? f.reply.methodLine.c_str() : "", blocked ? " while writes are blocked" : ""); }
        check();
    }
    if (blocked) { string a = control(w, "UnblockWrites"); MC_CHECK(a == "200 Unblocked", "UnblockWrites is answered \"%s\"", a.c_str()); blocked = false; }
    settle(600000); check(); for (auto& r : rs) { r->t.join(); w.answered(r->name); o += w.fate(r->name).reply.methodLine; if (r->early) MC_CHECK(w.fate(r->name).reply.methodLine == "200 OK", "%s is answered \"%s\"", r->name.c_str(), w.fate(r->name).reply.methodLine.c_str()); }
    w.s._dbPool = w.pool; w.clean("BlockWrites"); Script plain; w.run(w.make("probe", plain), "probe", false, true); w.answered("probe"); MC_CHECK(w.fate("probe").reply.methodLine == "200 OK", "the next command is answered \"%s\"", w.fate("probe").reply.methodLine.c_str()); mc::outcome(o);
}
// Commands that run while writes are blocked and unblocked.
static void concurrent(int commands, int admins, bool blocking) {
    World w(3); rt::setEarlyTimers(false); rt::setClockTick(1); vector<unique_ptr<Running>> rs; int on = 0, off = 0; string o;
    static const char* slow[] = {nullptr, "COMMIT", "INSERT INTO t"}; const char* sl = slow[mc::choose(3, "statements that take long")];   // time passes while the disk is slow
    shim::onStep = [sl](sqlite3*, const char* q) { if (sl && !strncmp(q, sl, strlen(sl))) usleep(25000); return 0; };
    vector<thread> as;
    auto beginAdmins = [&] { for (int a = 0; a < admins; a++) as.emplace_back([&, a] {
        rt::nameFiber("admin" + to_string(a)); string r = control(w, "BlockWrites"); if (r == "200 Blocked") on++;
        if (admins == 1) { MC_CHECK(r == "200 Blocked", "BlockWrites is answered \"%s\"", r.c_str()); uint64_t seen = content(w); for (int i = 0; i < 3; i++) { if (i) usleep(30000); MC_CHECK(content(w) == seen, "the database changed while writes are blocked"); } }
        r = control(w, "UnblockWrites"); if (r == "200 Unblocked") off++; }); };
    auto beginCommands = [&] {for (int i = 0; i < commands; i++) { Script sc; rs.push_back(start(w, "c" + to_string(i), sc, true, blocking && !i)); } };
    if (mc::choose(2, "who begins")) { beginCommands(); beginAdmins(); } else { beginAdmins(); beginCommands(); }
    for (auto& t : as) t.join(); if (on > off) { MC_CHECK(control(w, "UnblockWrites") == "200 Unblocked", "UnblockWrites"); off++; } MC_CHECK(on == off, "writes were blocked %d times and unblocked %d times", on, off);
    for (auto& r : rs) { r->t.join(); w.answered(r->name); MC_CHECK(w.fate(r->name).reply.methodLine == "200 OK", "%s is answered \"%s\"", r->name.c_str(), w.fate(r->name).reply.methodLine.c_str()); o += to_string(w.fate(r->name).processes); }
    shim::onStep = nullptr; w.clean("BlockWrites"); mc::outcome(o + " " + to_string(on));
}
void mc::registerScenarios() {
    bool T = thorough(); Options s; s.concurrent = true; s.maxSteps = 400000; s.preemptFree = false; s.isolate = true; s.bounds = {0}; add("sequences", [T] { sequence(T ? 6 : 5); }, s);
    Options o = s; o.preemptFree = false; o.bounds = T ? vector<int>{0, 1, 2} : vector<int>{0, 1};
    Options f = o; f.preemptFree = true; add("a command", [] { concurrent(1, 1, false); }, T ? f : o); add("two commands", [] { concurrent(2, 1, false); }, o); add("a command in the blocking queue and another", [] { concurrent(2, 1, true); }, o); add("two administrators and a command", [] { concurrent(1, 2, false); }, o);
    setRuleText("BlockWrites and UnblockWrites in every order with commands, and at the same time");
}
