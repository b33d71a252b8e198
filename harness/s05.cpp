// S05: every committed transaction is handed to replication once, in order, as it is in the journal. Real code: SQLite.cpp.
#include "txn.h"
#include <plugins/Compression.h>
static const string SCHEMA = "CREATE TABLE a(k INTEGER PRIMARY KEY, v TEXT); CREATE TABLE b(k INTEGER PRIMARY KEY, v TEXT); INSERT INTO a VALUES(1, 'x'); INSERT INTO b VALUES(1, 'y');";
static const Txn A = {false, {{'w', "UPDATE a SET v = v || 'p' WHERE k=1;"}}};
static const Txn B = {false, {{'w', "UPDATE b SET v = v || 'q' WHERE k=1;"}, {'w', "INSERT INTO b VALUES((SELECT MAX(k) FROM b) + 1, 'multi');"}}};
static const Txn EMPTY = {false, {{'r', "SELECT 1;"}}};
static Txn excl(Txn t) { t.exclusive = true; return t; }
static Txn rb(Txn t) { t.rollback = true; return t; }
static Txn prb(Txn t) { t.prepareThenRollback = true; return t; }
struct Hand { uint64_t last = 0; vector<pair<uint64_t, pair<string, string>>> all; };
// One collection; must continue where the last one ended and cover all that was committed before it.
static void collect(World& w, Hand& h, shim::Db& look) {
    uint64_t before = w.base->getCommitCount();
    auto got = w.base->popCommittedTransactions();
    for (auto& g : got) { MC_CHECK(g.first == h.last + 1, "transaction %lu is handed over after %lu", g.first, h.last); h.last = g.first; h.all.push_back({g.first, g.second}); }
    MC_CHECK(h.last >= before, "commit %lu had been counted before the collection, which ends at %lu", before, h.last);
    if (!got.empty()) { rt::NoPoints np; auto j = shim::journal(look); MC_CHECK(j.size() >= h.last, "transaction %lu was handed over before another connection can see it", h.last); for (auto& g : got) MC_CHECK(j[g.first - 1].query == g.second.first && j[g.first - 1].hash == g.second.second, "transaction %lu is handed over as <%s> %s, the journal has <%s> %s", g.first, plainQuery(g.second.first).c_str(), g.second.second.c_str(), plainQuery(j[g.first - 1].query).c_str(), j[g.first - 1].hash.c_str()); mc::compared(got.size()); }
    mc::note("collected up to %lu", h.last);
}
static void finish(World& w, Hand& h) {
    shim::Db d(w.file); collect(w, h, d);
    MC_CHECK(h.last == w.base->getCommitCount(), "%lu transactions committed, %lu handed over", w.base->getCommitCount(), h.last);
    MC_CHECK(w.base->popCommittedTransactions().empty(), "handed over twice");
}
static void useDictionary(World& w, bool on) { rt::NoPoints np; static bool loaded = false; if (!loaded) { BedrockPlugin_Compression::loadDictionariesFromDB(*w.base); loaded = true; } SQLite::journalZstdDictionaryID = on ? 7 : 0; }
static void run(const vector<vector<Txn>>& progs, int journals, bool atomics, int pops, int compress = 0) {
    World w(progs.size(), journals, compress ? SCHEMA + dictSql() : SCHEMA); rt::setAtomicPoints(atomics); SQLite::journalZstdDictionaryID = 0;
    if (compress) useDictionary(w, true);
    Hand h; vector<thread> ts;
    for (size_t i = 0; i < progs.size(); i++) ts.emplace_back([&, i] { for (size_t k = 0; k < progs[i].size(); k++) { if (compress == 2 && k) SQLite::journalZstdDictionaryID = i ? 0 : 7; runTxn(w, i, k, *w.handles[i], progs[i][k]); } });
    ts.emplace_back([&] { shim::Db look(w.file); for (int i = 0; i < pops; i++) { rt::point("collect"); collect(w, h, look); } });
    for (auto& t : ts) t.join();
    string o = checkWorld(w, false); finish(w, h); SQLite::journalZstdDictionaryID = 0;
    for (auto& r : w.recs) if (r.committed) { auto& g = h.all[r.id - 1].second; MC_CHECK(plainQuery(g.first) == r.query && g.second == r.hash, "commit %lu was <%s> %s, handed over as <%s> %s", r.id, r.query.c_str(), r.hash.c_str(), plainQuery(g.first).c_str(), g.second.c_str()); }
    if (compress == 1) for (auto& g : h.all) MC_CHECK(compressedQuery(g.second.first), "not compressed");
    mc::outcome(o); mc::state(o);
}
// All sequences of operations of two handles, with collections in between.
static void sequence(int depth) {
    bool comp = mc::choose(2, "compress");
    World w(2, 1, comp ? SCHEMA + dictSql() : SCHEMA); if (comp) useDictionary(w, true); else SQLite::journalZstdDictionaryID = 0;
    Hand h; shim::Db look(w.file); bool enabled = true, touched = false; int n = 0;
    struct H { bool in = false, prepared = false, excl = false; string q; uint64_t id; string hash; } hs[2];
    static const char* ops[] = {"begin", "begin exclusive", "write", "prepare", "commit", "rollback", "collect", "commits off", "commits on", "failing prepare", "switch compression", "whole transaction", "whole transaction prepared and rolled back"};
    for (int i = 0; i < depth; i++) {
        vector<pair<int, int>> can;
        for (int k = 0; k < (touched ? 2 : 1); k++) {
            H& s = hs[k]; H& o = hs[1 - k]; bool otherLocked = o.prepared || o.excl;
            if (!s.in) { can.push_back({k, 0}); if (!otherLocked) { can.push_back({k, 1}); if (enabled) can.push_back({k, 11}); can.push_back({k, 12}); } }
            else if (!s.prepared) { if (s.q.size() < 60) can.push_back({k, 2}); if (!otherLocked) { can.push_back({k, 3}); if (!k) can.push_back({k, 9}); } can.push_back({k, 5}); }
            else { can.push_back({k, 4}); can.push_back({k, 5}); }
        }
        if (touched) { can.push_back({0, 6}); if (!hs[0].prepared && !hs[1].prepared && !hs[0].excl && !hs[1].excl) can.push_back({0, enabled ? 7 : 8}); if (comp) can.push_back({0, 10}); }
        auto [k, op] = mc::pick(can, "operation"); H& s = hs[k]; SQLite& db = *w.handles[k]; touched = true; mc::note("handle %d: %s", k, ops[op]);
        switch (op) {
            case 0: case 1: MC_CHECK(db.beginTransaction(op ? SQLite::TRANSACTION_TYPE::EXCLUSIVE : SQLite::TRANSACTION_TYPE::SHARED), "begin"); s = H(); s.in = true; s.excl = op; break;
            case 2: { string q = string("UPDATE ") + (k ? "a" : "b") + " SET v='" + to_string(++n) + "' WHERE k=1;"; MC_CHECK(db.write(q), "write"); s.q += q; break; }
            case 3: MC_CHECK(db.prepare(&s.id, &s.hash), "prepare"); s.prepared = true; break;
            case 4: { int r = db.commit("check"); MC_CHECK(enabled ? r == 0 || r == SQLITE_BUSY_SNAPSHOT : r == SQLite::COMMIT_DISABLED, "commit gives %d", r); if (r) db.rollback(); else { Rec x; x.thread = k; x.committed = true; x.id = s.id; x.hash = s.hash; x.query = s.q; w.recs.push_back(x); } s = H(); break; }
            case 5: db.rollback(); s = H(); break;
            case 6: collect(w, h, look); break;
            case 7: case 8: w.base->setCommitEnabled(enabled = op == 8); break;
            case 9: { shim::onStep = [](sqlite3*, const char* sql) { return strncmp(sql, "INSERT INTO journal", 19) == 0 ? SQLITE_FULL : 0; }; bool p = db.prepare(&s.id, &s.hash); shim::onStep = nullptr; MC_CHECK(!p, "prepare succeeded without journal entry"); db.rollback(); s = H(); break; }
            case 11: case 12: { string q = string("UPDATE ") + (k ? "a" : "b") + " SET v='" + to_string(++n) + "' WHERE k=1;"; MC_CHECK(db.beginTransaction() && db.write(q) && db.prepare(&s.id, &s.hash), "transaction"); if (op == 12) { db.rollback(); break; } MC_CHECK(db.commit("check") == 0, "commit"); Rec x; x.thread = k; x.committed = true; x.id = s.id; x.hash = s.hash; x.query = q; w.recs.push_back(x); break; }
            case 10: SQLite::journalZstdDictionaryID = SQLite::journalZstdDictionaryID ? 0 : 7; break;
        }
    }
    for (int k = 0; k < 2; k++) if (hs[k].in) w.handles[k]->rollback();
    w.base->setCommitEnabled(true); string o = checkWorld(w, false); finish(w, h); SQLite::journalZstdDictionaryID = 0;
    for (auto& r : w.recs) MC_CHECK(plainQuery(h.all[r.id - 1].second.first) == r.query && h.all[r.id - 1].second.second == r.hash, "commit %lu handed over changed", r.id);
    mc::outcome(o); mc::transition(depth); mc::state(o + to_string(n));
}
void mc::registerScenarios() {
    bool T = thorough();
    add("operation sequences", [] { sequence(mc::thorough() ? 7 : 5); });
    Options o; o.concurrent = true; o.maxSteps = 60000; o.bounds = T ? vector<int>{0, 1, 2} : vector<int>{0, 1};
    Options d = o; d.bounds = T ? vector<int>{0, 1, 2, 3} : vector<int>{0, 1, 2};
    add("one writer", [] { run({{A, prb(B), A}}, 0, false, 3); }, d);
    add("two writers", [] { run({{A}, {B}}, 0, false, 2); }, T ? d : o);
    add("two writers, one collection", [] { run({{A}, {B}}, 0, false, 1); }, T ? d : o);
    add("two writers, atomics", [] { run({{A}, {B}}, 1, true, 2); }, o);
    add("conflicts and rollbacks", [] { run({{A, rb(A)}, {prb(B), A}}, 0, false, 2); }, o);
    add("exclusive and empty", [] { run({{excl(A), EMPTY}, {B}}, 0, false, 2); }, o);
    add("three writers", [] { run({{A}, {B}, {EMPTY}}, 2, false, 2); }, o);
    add("compressed", [] { run({{A, B}, {B, A}}, 0, false, 2, 1); }, o);
    add("compression switched", [] { run({{A, A}, {B, B}}, 0, false, 1, 2); }, o);
    setRuleText("commit order and journal content under every operation sequence to the stated depth and every schedule within the bound");
}
