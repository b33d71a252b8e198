// S06: any range of the history is fetched complete and in order; trimming keeps the tail; reopening finds the head. Real code: SQLite.cpp.
#include "txn.h"
#include <plugins/Compression.h>
static const string SCHEMA = "CREATE TABLE a(k INTEGER PRIMARY KEY, v TEXT); CREATE TABLE b(k INTEGER PRIMARY KEY, v TEXT); INSERT INTO a VALUES(1, 'x'); INSERT INTO b VALUES(1, 'y');";
struct Entry { string query, hash; };
typedef map<uint64_t, Entry> Model;
// All ranges and single commits as one handle sees them, against what is known to be retained.
static void checkFetch(SQLite& db, const Model& all, const set<uint64_t>& kept, uint64_t slack = 2) {
    uint64_t n = all.size();
    for (uint64_t id = 0; id <= n + slack; id++) {
        for (int what = 0; what < 4; what++) {
            string q = "?", h = "?"; bool ok = db.getCommit(id, what & 1 ? &q : nullptr, what & 2 ? &h : nullptr);
            MC_CHECK(ok == (bool) kept.count(id), "commit %lu is %s", id, ok ? "found although it is not in the journal" : "not found");
            if (ok) { if (what & 1) MC_CHECK(q == all.at(id).query, "commit %lu has query <%s> instead of <%s>", id, q.c_str(), all.at(id).query.c_str()); if (what & 2) MC_CHECK(h == all.at(id).hash, "commit %lu has another hash", id); }
        }
        mc::compared(4);
    }
    for (uint64_t from = 1; from <= n + 1; from++) for (uint64_t to = from - 1; to <= n + 1; to++) {
        uint64_t t = to < from ? 0 : to;                                            // 0: to the end
        SQResult r; MC_CHECK(db.getCompressedCommits(from, t, r, to % 2 ? 1000000 : 0) == SQLITE_OK, "fetching %lu-%lu failed", from, t);
        vector<uint64_t> want; for (uint64_t id : kept) if (id >= from && (!t || id <= t)) want.push_back(id);
        MC_CHECK(r.size() == want.size(), "commits %lu-%lu: got %zu, there are %zu", from, t, r.size(), want.size());
        for (size_t i = 0; i < want.size(); i++) MC_CHECK(string(r[i][0]) == all.at(want[i]).hash && plainQuery(r[i][1]) == all.at(want[i]).query, "commits %lu-%lu: entry %zu is <%s> %s instead of commit %lu <%s>", from, t, i, plainQuery(r[i][1]).c_str(), string(r[i][0]).c_str(), want[i], all.at(want[i]).query.c_str());
        mc::compared();
    }
}
static set<uint64_t> keptIn(const string& file) { shim::Db d(file); set<uint64_t> s; for (auto& e : shim::journal(d)) s.insert(e.id); return s; }
static void useDictionary(SQLite& db) { static bool loaded = false; if (!loaded) { BedrockPlugin_Compression::loadDictionariesFromDB(db); loaded = true; } }
static void histories(int commits, bool rollbacks, bool reopens, bool compress) {
    int journals = mc::choose(3, "journals") - 1, max = 1 + mc::choose(compress ? 2 : 4, "retained"); bool twoHandles = (reopens && !mc::thorough()) || mc::choose(2, "handles");
    if (max == 4) max = 1000;
    sqlSetup(); string file = seededFile(journals, compress ? SCHEMA + dictSql() : SCHEMA); SQLite::journalZstdDictionaryID = 0;
    auto base = make_unique<SQLite>(file, 0, max, journals); auto other = make_unique<SQLite>(*base); int tables = journals + 2, shrunk = 0, grown = 0;
    if (compress) useDictionary(*base);
    Model all; set<uint64_t> kept; string head; bool plain = true;
    for (int i = 0; i < commits; i++) {
        int op = mc::choose(2 + (rollbacks ? 2 : 0) + (reopens ? 2 : 0), "commit"); if (!rollbacks && op > 1) op += 2;
        SQLite& db = twoHandles && i % 2 ? *other : *base;
        if (compress) SQLite::journalZstdDictionaryID = mc::choose(2, "compress") ? 7 : 0;
        auto before = kept; uint64_t n = all.size();
        if (op >= 4) {
            // closed and opened again, also with more journal tables than before
            int j = op == 4 ? journals : journals + 1; if (op == 5) { if (tables >= 5) continue; tables = std::max<int>(tables, j + 2); journals = j; }
            other.reset(); base.reset(); string f2 = shim::freshName(); shim::seed(f2, shim::image(file)); file = f2; mc::note("open again with journals %d", journals);
            base = make_unique<SQLite>(file, 0, max, journals); other = make_unique<SQLite>(*base);
            MC_CHECK(base->getCommitCount() == n && base->getCommittedHash() == head, "opened again, the head is commit %lu (%s) instead of %lu (%s)", base->getCommitCount(), base->getCommittedHash().c_str(), n, head.c_str());
            MC_CHECK(keptIn(file) == kept, "opening changed the journal"); continue;
        }
        string q = "UPDATE a SET v = 'it''s " + to_string(i) + "; -- ' WHERE k=1;";
        MC_CHECK(db.beginTransaction(), "begin"); if (op != 1) MC_CHECK(db.write(q), "write"); else q = "";
        uint64_t id; string hash; MC_CHECK(db.prepare(&id, &hash), "prepare");
        if (op >= 2) { if (op == 3) { base->setCommitEnabled(true); } db.rollback(); plain = false; mc::note("rollback"); MC_CHECK(keptIn(file) == kept, "a rolled back transaction trimmed the journal"); continue; }
        MC_CHECK(db.commit("check") == 0, "commit"); MC_CHECK(id == n + 1, "commit number %lu after %lu", id, n); all[id] = {q, hash}; head = hash;
        mc::note("commit %lu %s", id, q.c_str());
        kept = keptIn(file); before.insert(id);
        MC_CHECK(kept.count(id), "commit %lu is not in the journal", id);
        for (uint64_t k : kept) MC_CHECK(before.count(k), "commit %lu appeared", k);
        for (uint64_t k : before) if (!kept.count(k)) MC_CHECK(k + max < id, "commit %lu was removed at commit %lu although %d are retained", k, id, max);
        // entries out of the window disappear as their journal table is used again
        if (plain) for (uint64_t k : kept) MC_CHECK(k + max + tables + 1 >= id, "commit %lu is still there at commit %lu although only %d are retained", k, id, max);
    }
    checkFetch(*base, all, kept); if (twoHandles) checkFetch(*other, all, kept);
    MC_CHECK(base->getCommitCount() == all.size() && base->getCommittedHash() == head, "head");
    shim::Db d(file); auto j = journalOf(d); string prev; for (auto& e : j) { MC_CHECK(e.query == all.at(e.id).query && e.hash == all.at(e.id).hash, "commit %lu changed in the journal", e.id); if (all.count(e.id - 1) || e.id == 1) MC_CHECK(e.hash == SToHex(SHashSHA1((e.id == 1 ? "" : all[e.id - 1].hash) + e.query)), "hash of commit %lu", e.id); }
    SQLite::journalZstdDictionaryID = 0; (void) shrunk; (void) grown;
    mc::state(shim::hashImage(shim::image(file))); string o; for (auto k : kept) o += to_string(k) + " "; mc::outcome(o + "of " + to_string(all.size())); mc::transition(commits);
}
// A reader fetches while others commit: everything known to be committed and within the retained window is there.
static void concurrent(int writers, int each, int journals, int max, bool atomics) {
    World w(writers + 1, journals, SCHEMA, max); rt::setAtomicPoints(atomics); vector<thread> ts;
    for (int i = 0; i < writers; i++) ts.emplace_back([&, i] { for (int k = 0; k < each; k++) runTxn(w, i, k, *w.handles[i], {false, {{'w', string("UPDATE ") + (i ? "a" : "b") + " SET v = v || '" + to_string(k) + "' WHERE k=1;"}}}); });
    struct Seen { uint64_t from; vector<pair<string, string>> rows; uint64_t known, later; }; vector<Seen> seen;
    ts.emplace_back([&] { SQLite& db = *w.handles[writers];
        for (int i = 0; i < 2; i++) { uint64_t known = db.getCommitCount(); SQResult r; MC_CHECK(db.getCompressedCommits(1, 0, r) == SQLITE_OK, "fetch"); Seen s{1, {}, known, db.getCommitCount()}; for (size_t k = 0; k < r.size(); k++) s.rows.push_back({string(r[k][0]), string(r[k][1])}); seen.push_back(s);
            if (known) { string q, h; bool ok = db.getCommit(known, &q, &h); if (db.getCommitCount() < known + max) MC_CHECK(ok, "commit %lu, the last one at that moment, is not found", known); } } });
    for (auto& t : ts) t.join();
    map<uint64_t, Rec*> all; for (auto& r : w.recs) if (r.committed) all[r.id] = &r;
    map<string, uint64_t> byHash; for (auto& [id, r] : all) byHash[r->hash] = id;
    for (auto& s : seen) {
        uint64_t last = 0; set<uint64_t> ids; for (auto& [h, q] : s.rows) { MC_CHECK(byHash.count(h), "fetched a commit that does not exist"); uint64_t id = byHash[h]; MC_CHECK(id > last, "commit %lu is fetched after %lu", id, last); MC_CHECK(all[id]->query == q, "commit %lu is fetched with query <%s>", id, q.c_str()); last = id; ids.insert(id); }
        for (uint64_t id = 1; id <= s.known; id++) if (id + max > s.later + writers) MC_CHECK(ids.count(id), "commit %lu was known before the fetch, which does not have it (up to %lu)", id, last);
        for (uint64_t id = ids.empty() ? 1 : *ids.begin(); id <= last; id++) if (max > 100) MC_CHECK(ids.count(id), "fetch has %lu but not %lu", last, id);
        mc::compared();
    }
    // the final journal
    shim::Db d(w.file); auto j = shim::journal(d); set<uint64_t> kept; for (auto& e : j) { MC_CHECK(all.count(e.id) && all[e.id]->query == e.query && all[e.id]->hash == e.hash, "journal entry %lu", e.id); kept.insert(e.id); }
    for (uint64_t id = 1; id <= all.size(); id++) if (id + max >= all.size()) MC_CHECK(kept.count(id), "commit %lu of %zu is gone although %d are retained", id, all.size(), max);
    string o; for (auto k : kept) o += to_string(k) + " "; mc::outcome(o); mc::state(o + to_string(seen[0].rows.size()) + "/" + to_string(seen[1].rows.size()));
}
void mc::registerScenarios() {
    bool T = thorough();
    add("histories", [] { histories(mc::thorough() ? 11 : 7, false, false, false); });
    add("histories with rollbacks and reopening", [] { histories(mc::thorough() ? 6 : 4, true, true, false); });
    add("histories with compression", [] { histories(mc::thorough() ? 6 : 4, false, false, true); });
    add("long histories", [] { sqlSetup(); int n = mc::thorough() ? 10 + mc::choose(40, "length") : vector<int>{10, 11, 14, 23, 37}[mc::choose(5, "length")]; int max = 1 + mc::choose(8, "retained"), journals = mc::choose(4, "journals") - 1;
        string file = seededFile(journals, SCHEMA); SQLite db(file, 0, 1000, journals); Model all; string head;
        auto go = [&](SQLite& h, int count) { for (int i = 0; i < count; i++) { MC_CHECK(h.beginTransaction() && h.write("UPDATE a SET v='" + to_string(all.size()) + "' WHERE k=1;"), "write"); string q = h.getUncommittedQuery(), hash; uint64_t id; MC_CHECK(h.prepare(&id, &hash) && h.commit("check") == 0, "commit"); all[id] = {q, hash}; head = hash; } };
        go(db, n); string f2 = shim::freshName(); shim::seed(f2, shim::image(file)); SQLite again(f2, 0, max, journals);   // now with a much smaller limit: a backlog
        MC_CHECK(again.getCommitCount() == (uint64_t) n && again.getCommittedHash() == head, "head");
        for (int k = 0; k < 6; k++) { auto before = keptIn(f2); go(again, 1); auto kept = keptIn(f2); before.insert(all.size()); for (uint64_t id : before) if (!kept.count(id)) MC_CHECK(id + max < all.size(), "commit %lu removed at %zu although %d are retained", id, all.size(), max); for (uint64_t id : kept) MC_CHECK(before.count(id), "appeared"); if (k == 5 || k == 1) checkFetch(again, all, kept, 1); }
        mc::state(shim::hashImage(shim::image(f2))); mc::transition(n + 6); });
    Options o; o.concurrent = true; o.maxSteps = 60000; o.bounds = T ? vector<int>{0, 1, 2} : vector<int>{0, 1};
    Options d = o; d.bounds = T ? vector<int>{0, 1, 2, 3} : vector<int>{0, 1, 2};
    add("fetch while one commits", [] { concurrent(1, 3, 0, 1000, false); }, d);
    add("fetch while one commits and trims", [] { concurrent(1, 4, 0, 1, false); }, o);
    add("fetch while two commit", [] { concurrent(2, 2, 1, 1000, false); }, o);
    add("fetch while two commit and trim", [] { concurrent(2, 2, -1, 2, false); }, o);
    setRuleText("retained entries after every history to the stated depth, and every schedule of a fetch within the bound");
}
