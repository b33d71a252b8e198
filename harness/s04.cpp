// S04: the query cache never changes an answer. Real code: SQLite.cpp.
#include "txn.h"
static const string SCHEMA = "CREATE TABLE a(k INTEGER PRIMARY KEY, v TEXT UNIQUE); CREATE TABLE b(k INTEGER PRIMARY KEY, v TEXT); INSERT INTO a VALUES(1, 'x'), (2, 'z'); INSERT INTO b VALUES(1, 'y');"
    "CREATE VIEW va AS SELECT k, v FROM a; CREATE VIEW vnow AS SELECT datetime('now') AS t; CREATE VIEW vcur AS SELECT CURRENT_TIMESTAMP AS t; CREATE VIEW vrnd AS SELECT random() AS r;";
static const map<string, SQLite::Parameter> DUMMY = {{":unused", SQLite::Parameter::i(0)}};
// The same query without the cache: reads with bound parameters are never cached.
static pair<bool, string> plain(SQLite& db, const string& q) { SQResult r; bool ok = db.read(q, DUMMY, r); return {ok, rows(r)}; }
static pair<bool, string> cached(SQLite& db, const string& q) { SQResult r; bool ok = db.read(q, r); return {ok, rows(r)}; }
static void compare(SQLite& db, const string& q, const string& trace) {
    auto p = plain(db, q); auto c = cached(db, q);
    MC_CHECK(p.first == c.first && (!p.first || p.second == c.second), "\"%s\" reads <%s>%s, without the cache <%s>%s:%s", q.c_str(), c.second.c_str(), c.first ? "" : " (failed)", p.second.c_str(), p.first ? "" : " (failed)", trace.c_str());
    mc::compared();
}
static const vector<string> Q = {"SELECT v FROM a WHERE k=1;", "SELECT COUNT(*), MAX(v) FROM va;", "SELECT changes(), total_changes(), last_insert_rowid();", "SELECT a.v, b.v FROM a, b WHERE a.k = b.k;"};
static void sequence(int depth) {
    World w(2, 0, SCHEMA); SQLite& db = *w.handles[0]; SQLite& other = *w.handles[1]; rt::setClockTick(0);
    map<string, set<string>> white = {{"a", {"k"}}};
    bool in = false, excl = false, wl = false, auth = false; int n = 0; string trace;
    for (int i = 0; i < depth; i++) {
        vector<int> can;
        for (int q = 0; q < (int) Q.size(); q++) can.push_back(q);
        can.push_back(10);                                             // parameters of the same text
        if (!in) { if (!i) can = {}; if (!wl) { can.push_back(20); can.push_back(21); } }
        else for (int o : {22, 23, 24, 25, 26, 27}) if (!wl) can.push_back(o);
        if (!excl) can.push_back(30);
        if (in) { can.push_back(31); can.push_back(32); }
        int op = mc::pick(can, "operation"); string v = "v" + to_string(++n);
        switch (op) {
            case 0: case 1: case 2: case 3: trace += " read" + to_string(op); compare(db, Q[op], trace); break;
            case 10: { trace += " params"; for (int k = 1; k <= 2; k++) { SQResult r; string t = "SELECT v FROM a WHERE k=:k;"; bool ok = db.read(t, {{":k", SQLite::Parameter::i(k)}}, r); MC_CHECK(ok || auth, "read"); auto s = plain(db, "SELECT v FROM a WHERE k=" + to_string(k) + ";"); MC_CHECK(ok == s.first && (!ok || rows(r) == s.second), "parameter %d reads <%s> instead of <%s>:%s", k, rows(r).c_str(), s.second.c_str(), trace.c_str()); mc::compared(); }
                auto e = cached(db, "SELECT v FROM a WHERE k=:k;"); MC_CHECK(!e.first || e.second.empty(), "unbound parameter matched a row:%s", trace.c_str()); break; }
            case 20: case 21: trace += op == 21 ? " beginExclusive" : " begin"; excl = op == 21; MC_CHECK(db.beginTransaction(excl ? SQLite::TRANSACTION_TYPE::EXCLUSIVE : SQLite::TRANSACTION_TYPE::SHARED), "begin"); in = true; break;
            case 22: { trace += " commit"; uint64_t id; string h; MC_CHECK(db.prepare(&id, &h), "prepare"); int r = db.commit("check"); if (r) db.rollback(); in = excl = false; break; }
            case 23: trace += " rollback"; db.rollback(); in = excl = false; break;
            case 24: trace += " write"; MC_CHECK(db.write("UPDATE a SET v=" + SQ(v) + " WHERE k=1;") || auth, "write"); break;
            case 25: { trace += " insert"; SQResult r; MC_CHECK(db.write("INSERT INTO b VALUES((SELECT MAX(k) FROM b)+1, " + SQ(v) + ");", r), "write"); break; }
            case 26: { trace += " failing write"; bool t = false; try { db.write("UPDATE b SET v='half' WHERE k=1; INSERT INTO a VALUES(1, 'w');"); } catch (const SQLite::constraint_error&) { t = true; } MC_CHECK(t || auth, "constraint"); break; }
            case 27: trace += " unmodified"; MC_CHECK(db.writeUnmodified("UPDATE a SET v=" + SQ(v) + " WHERE k=2;") || auth, "write"); break;
            case 30: { trace += " other"; MC_CHECK(other.beginTransaction() && other.write("UPDATE a SET v=" + SQ(v + "o") + " WHERE k=1;"), "other"); uint64_t id; string h; MC_CHECK(other.prepare(&id, &h) && other.commit("check") == 0, "other commit"); break; }
            case 31: wl = !wl; trace += wl ? " whitelist" : " no whitelist"; db.whitelist = wl ? &white : nullptr; break;
            case 32: auth = !auth; trace += auth ? " authorizer" : " no authorizer"; if (auth) db.setAuthorizer([](int action, const char* t, const char* c, const char*, const char*) { return !(action == SQLITE_READ && t && c && string(t) == "a" && string(c) == "v"); }); else db.setAuthorizer(nullptr); break;
        }
        mc::note("%s", trace.c_str());
    }
    for (auto& q : Q) compare(db, q, trace + " end");
    db.whitelist = nullptr; db.setAuthorizer(nullptr); if (in) db.rollback();
    mc::outcome(trace.substr(0, 60)); mc::state(shim::hashImage(shim::image(w.file)) * 31 + mc::hashStr(trace.substr(trace.size() / 2))); mc::transition(depth);
}
// Values that change without a write: never from the cache, wherever they are in the query.
static void volatileValues() {
    World w(1, 0, SCHEMA); SQLite& db = *w.handles[0]; rt::setClockTick(0);
    static const vector<string> TIME = {"date('now')", "time('now')", "datetime('now')", "julianday('now')", "strftime('%s','now')", "unixepoch()", "unixepoch('now','subsec')", "CURRENT_TIMESTAMP", "CURRENT_DATE", "CURRENT_TIME", "timediff('now','2000-01-01')", "date()", "datetime(julianday('now'))", "(SELECT t FROM vnow)", "(SELECT t FROM vcur)", "strftime('%Y-%m-%d %H:%M:%f','now')"};
    static const vector<string> RND = {"random()", "randomblob(8)", "hex(randomblob(8))", "abs(random() / 2)", "(SELECT r FROM vrnd)", "(SELECT random())"};
    static const vector<string> FORM = {"SELECT @;", "select   @ ", "SELECT CASE WHEN k=1 THEN @ ELSE 0 END FROM a;", "WITH c AS (SELECT @ AS x) SELECT x FROM c;", "SELECT 1 AS y UNION ALL SELECT @;", "SELECT COUNT(*) FROM a WHERE @ IS NULL UNION ALL SELECT 'v' || @;", "SELECT 1; SELECT @;", "SELECT MAX(@) FROM a ORDER BY @;"};
    bool rnd = mc::choose(2, "kind"); string e = mc::pick(rnd ? RND : TIME, "expression"), f = mc::pick(FORM, "form"); bool excl = mc::choose(2, "exclusive"), wrote = mc::choose(2, "after a write"); int between = mc::choose(3, "between");
    string q; for (char c : f) { if (c == '@') q += e; else q += c; }
    mc::note("%s", q.c_str());
    MC_CHECK(db.beginTransaction(excl ? SQLite::TRANSACTION_TYPE::EXCLUSIVE : SQLite::TRANSACTION_TYPE::SHARED), "begin");
    if (wrote) MC_CHECK(db.write("UPDATE a SET v='w' WHERE k=1;"), "write");
    auto one = cached(db, q); MC_CHECK(one.first, "refused: %s", q.c_str());
    if (between == 1) MC_CHECK(cached(db, "SELECT COUNT(*) FROM a;").first, "read"); if (between == 2) MC_CHECK(plain(db, q).first, "read");
    rt::advanceUs(86400000000ull * 3 + 3723123000ull);
    auto two = cached(db, q); MC_CHECK(two.first, "refused");
    MC_CHECK(one.second != two.second, "\"%s\" gives <%s> again three days later: answered from the cache", q.c_str(), two.second.c_str());
    if (!rnd) { auto p = plain(db, q); MC_CHECK(p.second == two.second, "\"%s\" gives <%s>, without the cache <%s>", q.c_str(), two.second.c_str(), p.second.c_str()); }
    mc::compared(2); db.rollback(); mc::outcome(e); mc::state(q + to_string(excl) + to_string(wrote) + to_string(between));
}
void mc::registerScenarios() {
    Options o; o.concurrent = true; o.maxSteps = 60000; o.bounds = {0};
    add("values that change without a write", volatileValues, o);
    add("operation sequences", [] { sequence(mc::thorough() ? 6 : 5); }, o);
    setRuleText("operation sequences, and forms of queries with changing values");
}
