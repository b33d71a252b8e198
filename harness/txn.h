// Transactions run by several threads on their own handles, with everything they observed recorded for the oracles.
#pragma once
#include "sqlcommon.h"
struct Step { char kind; string sql; };   // 'r' read, 'w' write, 'u' write kept even if it changes nothing; "$" in sql = last value read, "#" = last value read + 1
struct Txn { bool exclusive = false; vector<Step> steps; bool rollback = false; int attempts = 3; bool mustCommit = true; bool prepareThenRollback = false; };
struct Rec { int thread, txn; bool committed = false; uint64_t id = 0; string hash, query; vector<string> reads; int tries = 0; int result = -1; uint64_t countAtBegin = 0; size_t startStamp = 0, endStamp = 0; };
struct World {
    string file; unique_ptr<SQLite> base; vector<unique_ptr<SQLite>> handles; vector<Rec> recs; vector<uint64_t> failedIds; map<uint64_t, pair<string, string>> handed; vector<uint64_t> handedOrder;
    uint64_t stamp = 0; string schema;
    World(int n, int journals, const string& schema_, int maxJournal = 1000000) : schema(schema_) {
        sqlSetup(); rt::NoPoints np;
        file = seededFile(journals, schema);
        base.reset(new SQLite(file, 0, maxJournal, journals));
        for (int i = 0; i < n; i++) handles.emplace_back(new SQLite(*base));
    }
    ~World() { rt::NoPoints np; handles.clear(); base.reset(); }
};
static string subst(const string& s, const string& v) { string o; for (char c : s) { if (c == '$') o += v; else if (c == '#') o += to_string(SToInt64(v) + 1); else o += c; } return o; }
static string rows(const SQResult& r) { string o; for (size_t i = 0; i < r.size(); i++) { for (size_t c = 0; c < r[i].size(); c++) o += (c ? "," : "") + string(r[i][c]); o += ";"; } return o; }
// Runs one transaction to its end, retrying on conflict the way BedrockServer does (exclusive on the last attempt).
static void runTxn(World& w, int thread, int index, SQLite& db, const Txn& t) {
    Rec r; r.thread = thread; r.txn = index;
    for (int a = 0; a < t.attempts; a++) {
        r.reads.clear(); r.query.clear(); r.tries++;
        bool excl = t.exclusive || a == t.attempts - 1 && a > 0;
        r.countAtBegin = db.getCommitCount();
        MC_CHECK(db.beginTransaction(excl ? SQLite::TRANSACTION_TYPE::EXCLUSIVE : SQLite::TRANSACTION_TYPE::SHARED), "begin failed");
        string last;
        for (auto& s : t.steps) {
            string sql = subst(s.sql, last);
            if (s.kind == 'r') { SQResult q; MC_CHECK(db.read(sql, q), "read failed: %s", sql.c_str()); r.reads.push_back(rows(q)); if (!q.empty() && !q[0].empty()) last = q[0][0]; }
            else if (s.kind == 'u') { MC_CHECK(db.writeUnmodified(sql), "write failed: %s", sql.c_str()); }
            else MC_CHECK(db.write(sql), "write failed: %s", sql.c_str());
        }
        r.query = db.getUncommittedQuery();
        if (t.rollback) { db.rollback(); r.result = -2; break; }
        uint64_t id = 0; string hash;
        MC_CHECK(db.prepare(&id, &hash), "prepare failed without a reason");
        if (t.prepareThenRollback) { db.rollback(); r.result = -2; break; }
        r.result = db.commit("check");
        if (r.result == SQLITE_OK) { r.committed = true; r.id = id; r.hash = hash; break; }
        MC_CHECK(r.result == SQLITE_BUSY_SNAPSHOT || r.result == SQLite::COMMIT_DISABLED, "commit returned %d", r.result);
        if (r.result == SQLITE_BUSY_SNAPSHOT) MC_CHECK(!excl, "an exclusive transaction was refused as conflicting");
        db.rollback();
        if (r.result == SQLite::COMMIT_DISABLED) break;
    }
    MC_CHECK(!db.insideTransaction() && db.getUncommittedQuery().empty() && db.getUncommittedHash().empty(), "handle still carries a transaction after it ended");
    rt::NoPoints np; r.endStamp = ++w.stamp; w.recs.push_back(r);
    if (r.committed) mc::note("thread %d transaction %d committed as %lu", thread, index, r.id); else mc::note("thread %d transaction %d ended with %d", thread, index, r.result);
}
// Everything about the final journal and data, against what the threads were told. Returns an outcome string.
static string checkWorld(World& w, bool reads) {
    rt::NoPoints np;
    checkHistory(w.file, true, w.schema);
    auto im = shim::image(w.file); vector<shim::JournalEntry> j; { shim::Db d(im); j = journalOf(d); }
    map<uint64_t, Rec*> byId;
    for (auto& r : w.recs) {
        if (!r.committed) continue;
        MC_CHECK(!byId.count(r.id), "two transactions were both told they are commit %lu", r.id); byId[r.id] = &r;
        MC_CHECK(r.id >= 1 && r.id <= j.size(), "commit %lu was reported successful but is not in the journal (%zu entries)", r.id, j.size());
        MC_CHECK(j[r.id - 1].query == r.query && j[r.id - 1].hash == r.hash, "commit %lu was reported successful with query <%s> hash %s, journal has <%s> %s", r.id, r.query.c_str(), r.hash.c_str(), j[r.id - 1].query.c_str(), j[r.id - 1].hash.c_str());
        mc::compared();
    }
    MC_CHECK(byId.size() == j.size(), "journal has %zu commits, %zu transactions were told they committed", j.size(), byId.size());
    MC_CHECK(w.base->getCommitCount() == j.size(), "commit count is %lu, journal has %zu", w.base->getCommitCount(), j.size());
    MC_CHECK(w.base->getCommittedHash() == (j.empty() ? "" : j.back().hash), "committed hash is not the hash of the last commit");
    string o; for (auto& [id, r] : byId) { o += to_string(r->thread) + "." + to_string(r->txn) + "/" + to_string(r->tries) + " "; }
    return o;
}
// Re-executes the committed transactions one at a time in commit order on a fresh database: every read must give what it gave.
static void checkSerial(World& w, const vector<vector<Txn>>& progs) {
    rt::NoPoints np;
    map<uint64_t, Rec*> byId; for (auto& r : w.recs) if (r.committed) byId[r.id] = &r;
    bool points = shim::pointsEnabled; shim::pointsEnabled = false;
    { shim::Db d(shim::freshName("tmp")); if (!d.exec(w.schema)) mc::internalError("schema");
      for (auto& [id, r] : byId) {
        string last, q; size_t k = 0;
        for (auto& s : progs[r->thread][r->txn].steps) {
            string sql = subst(s.sql, last);
            if (s.kind == 'r') { auto res = d.query(sql); string got; for (auto& row : res) { for (size_t c = 0; c < row.size(); c++) got += (c ? "," : "") + (row[c] == "~" ? "" : row[c]); got += ";"; }
                MC_CHECK(got == r->reads[k], "commit %lu (thread %d) read <%s> from \"%s\"; executed serially in commit order it reads <%s>", id, r->thread, r->reads[k].c_str(), sql.c_str(), got.c_str()); mc::compared(); k++; if (!res.empty()) last = res[0][0] == "~" ? "" : res[0][0]; }
            else { int before = 0; if (!d.exec(sql)) mc::internalError("serial: %s: %s", sql.c_str(), d.error.c_str()); }
        }
      }
      string a = d.dump(); shim::Db now(shim::image(w.file)); string b = now.dump();
      MC_CHECK(a == b, "serial execution in commit order gives\n%s\nbut the database has\n%s", a.c_str(), b.c_str()); mc::compared(); }
    shim::pointsEnabled = points;
}
