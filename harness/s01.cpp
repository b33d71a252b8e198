// S01: the journal is a gapless hash chain that matches the data, at every committed state. Real code: SQLite.cpp.
#include "txn.h"
static const string SCHEMA = "CREATE TABLE a(k INTEGER PRIMARY KEY, v TEXT); CREATE TABLE b(k INTEGER PRIMARY KEY, v TEXT); INSERT INTO a VALUES(1, 'x'); INSERT INTO b VALUES(1, 'y');";
static const Txn W1 = {false, {{'w', "UPDATE a SET v = v || 'p' WHERE k=1;"}}};
static const Txn W2 = {false, {{'w', "UPDATE b SET v = v || 'q' WHERE k=1;"}, {'w', "UPDATE b SET v = 'none' WHERE k=99;"}}};
static const Txn W3 = {false, {{'w', "INSERT OR REPLACE INTO a VALUES(2, 'it''s; -- a \"value\"');"}, {'w', "DELETE FROM a WHERE k=2; INSERT INTO b VALUES((SELECT MAX(k) FROM b) + 1, 'multi');"}}};
static const Txn EMPTY = {false, {{'r', "SELECT 1;"}}};
static const Txn KEEP = {false, {{'u', "DELETE FROM a WHERE k=99;"}}};
static const Txn DDL = {false, {{'w', "CREATE TABLE IF NOT EXISTS c(x);"}, {'w', "INSERT INTO c VALUES(7);"}}};
static Txn excl(Txn t) { t.exclusive = true; return t; }
static Txn rb(Txn t) { t.rollback = true; return t; }
static Txn prb(Txn t) { t.prepareThenRollback = true; return t; }
static void run(const vector<vector<Txn>>& progs, int journals, bool atomics, int toggler = 0) {
    World w(progs.size(), journals, SCHEMA); rt::setAtomicPoints(atomics);
    vector<thread> ts; bool disabledSeen = false;
    for (size_t i = 0; i < progs.size(); i++) ts.emplace_back([&, i] { for (size_t k = 0; k < progs[i].size(); k++) runTxn(w, i, k, *w.handles[i], progs[i][k]); });
    if (toggler) ts.emplace_back([&] {
        w.base->setCommitEnabled(false);
        uint64_t n = w.base->getCommitCount(); auto im = shim::image(w.file);
        rt::point("commits disabled");
        MC_CHECK(shim::image(w.file) == im && w.base->getCommitCount() == n, "a commit went through after commits were disabled");
        if (toggler == 2) w.base->setCommitEnabled(true);
    });
    // another connection looks at the database while the others work
    ts.emplace_back([&] {
        shim::Db d(w.file);
        for (int i = 0; i < 2; i++) { rt::point("look"); { auto head = w.base->getLastCommit(); rt::NoPoints np; auto j = shim::journal(d); MC_CHECK(head.first <= j.size() && head.second == (head.first ? j[head.first - 1].hash : ""), "the last commit is given as %lu %s, which is not that commit's hash", head.first, head.second.c_str()); } uint64_t known = w.base->getCommitCount(); auto j = shim::journal(d); MC_CHECK(j.size() >= known, "commit count says %lu, another connection sees %zu journal entries", known, j.size()); mc::compared(); }
    });
    for (auto& t : ts) t.join();
    string o = checkWorld(w, false);
    for (auto& r : w.recs) { auto& t = progs[r.thread][r.txn]; if (!toggler && !t.rollback && !t.prepareThenRollback) MC_CHECK(r.committed, "a retried transaction never succeeded"); if (t.rollback || t.prepareThenRollback) MC_CHECK(!r.committed, "rolled back"); }
    mc::outcome(o); mc::state(o);
    // opened again from what is on disk, the head is the same
    rt::NoPoints np; string f2 = shim::freshName(); shim::seed(f2, shim::image(w.file)); SQLite again(f2, 0, 1000000, journals);
    MC_CHECK(again.getCommitCount() == w.base->getCommitCount() && again.getCommittedHash() == w.base->getCommittedHash(), "reopened database has another head");
}
// All operation sequences on two handles of one thread (the second is only used while the first holds no lock).
static void sequence(int depth) {
    World w(2, 1, SCHEMA); int len = 1 + mc::choose(depth, "length");
    struct H { bool in = false, prepared = false, excl = false, dead = false; string q; uint64_t id; string hash; } h[2];
    int vals = 0;
    static const vector<const char*> ops = {"begin", "beginExclusive", "write", "writeNoEffect", "writeUnmodified", "writeFails", "constraint", "prepare", "commit", "rollback", "disable", "enable", "ddl", "local", "automatic rollback"};
    bool enabled = true, touched = false;
    for (int i = 0; i < len; i++) {
        vector<pair<int, int>> can;
        for (int hi = 0; hi < 2; hi++) {
            H& s = h[hi]; H& o = h[1 - hi]; bool otherLocked = o.prepared || o.excl, free = !s.prepared && !s.excl && !otherLocked;
            if (hi == 1 && !touched) continue;   // the first handle used is handle 0 (they are symmetric)
            if (!s.in) { can.push_back({hi, 0}); if (!otherLocked) can.push_back({hi, 1}); if (!hi) can.push_back({hi, 13}); }
            else if (!s.prepared) { for (int op : {2, 3, 4, 5, 6, 12, 14}) if (op != 14 || !s.dead && !hi) can.push_back({hi, op}); if (!otherLocked) can.push_back({hi, 7}); can.push_back({hi, 9}); }
            else { can.push_back({hi, 8}); can.push_back({hi, 9}); }
            if (!hi && free && touched) can.push_back({hi, enabled ? 10 : 11});
        }
        auto [hi, op] = mc::pick(can, "operation"); SQLite& db = *w.handles[hi]; H& s = h[hi]; touched = true;
        string v = "v" + to_string(++vals);
        mc::note("handle %d: %s", hi, ops[op]);
        auto writeOk = [&](const string& sql, bool kept, bool unmod = false) {
            if (s.dead) { bool r = false; try { r = unmod ? db.writeUnmodified(sql) : db.write(sql); } catch (const SException&) {} (void) r; return; }    // whatever it says, it must not reach the database or the journal
            bool r = unmod ? db.writeUnmodified(sql) : db.write(sql); MC_CHECK(r, "write refused: %s", sql.c_str()); if (kept) s.q += sql; };
        switch (op) {
            case 0: case 1: MC_CHECK(db.beginTransaction(op ? SQLite::TRANSACTION_TYPE::EXCLUSIVE : SQLite::TRANSACTION_TYPE::SHARED), "begin"); s = H(); s.in = true; s.excl = op; break;
            case 2: writeOk("UPDATE " + string(hi ? "a" : "b") + " SET v = " + SQ(v) + " WHERE k=1;", true); break;
            case 3: writeOk("UPDATE a SET v = " + SQ(v) + " WHERE k=77;", false); break;
            case 4: writeOk("UPDATE a SET v = " + SQ(v) + " WHERE k=77;", true, true); break;
            case 5: if (s.dead) { writeOk("UPDATE nothere SET v = 1;", false); break; } MC_CHECK(!db.write("UPDATE nothere SET v = 1;"), "write to a missing table succeeded"); break;
            case 6: if (s.dead) { writeOk("INSERT INTO a VALUES(1, 'dup');", false); break; } { bool thrown = false; try { db.write("INSERT INTO a VALUES(1, 'dup');"); } catch (const SQLite::constraint_error&) { thrown = true; } MC_CHECK(thrown, "constraint violation not reported"); break; }
            case 7: if (s.dead) { MC_CHECK(!db.prepare(&s.id, &s.hash), "a transaction the database has already rolled back was prepared"); db.rollback(); s = H(); break; } MC_CHECK(db.prepare(&s.id, &s.hash), "prepare"); s.prepared = true; break;
            case 8: { int r = db.commit("check"); if (!enabled) { MC_CHECK(r == SQLite::COMMIT_DISABLED, "commit with commits disabled returned %d", r); db.rollback(); s = H(); break; }
                if (r == SQLITE_OK) { Rec x; x.thread = hi; x.txn = i; x.committed = true; x.id = s.id; x.hash = s.hash; x.query = s.q; w.recs.push_back(x); } else { MC_CHECK(r == SQLITE_BUSY_SNAPSHOT, "commit %d", r); db.rollback(); } s = H(); break; }
            case 9: db.rollback(); s = H(); break;
            case 10: w.base->setCommitEnabled(enabled = false); break;
            case 11: w.base->setCommitEnabled(enabled = true); break;
            case 12: writeOk("CREATE TABLE c" + to_string(vals) + "(x);", true); break;
            case 14: { bool thrown = false; try { db.write("INSERT OR ROLLBACK INTO a VALUES(1, 'dup');"); } catch (const SQLite::constraint_error&) { thrown = true; } MC_CHECK(thrown, "constraint violation not reported"); s.dead = true; break; }
            case 13: (void) db.writeLocalUnreplicated("DELETE FROM journal WHERE id < 0;"); break;
        }
    }
    for (int i = 0; i < 2; i++) if (h[i].in) { w.handles[i]->rollback(); h[i] = H(); }
    if (!enabled) w.base->setCommitEnabled(true);
    string o = checkWorld(w, false); mc::outcome(o); mc::transition(len);
}
// Failing writes which the caller ignores, and goes on.
static void ignoredFailures() {
    static const vector<string> Q = {"INSERT INTO a VALUES(9, 'n'), (1, 'dup');", "UPDATE a SET v='p' WHERE k=1; INSERT INTO a VALUES(1, 'dup');", "CREATE TABLE z(x); INSERT INTO z VALUES(1); INSERT INTO a VALUES(1, 'dup'); UPDATE a SET v='never';", "UPDATE a SET v='p' WHERE k=1; nonsense;", "UPDATE b SET v='p' WHERE k=1; UPDATE nowhere SET x=1;", "UPDATE b SET v='p' WHERE k=1; UPDATE b SET v=random();", "SELECT 1; INSERT INTO a VALUES(1, 'dup');", "CREATE TABLE z(x); CREATE TABLE z(x);", "INSERT OR FAIL INTO a VALUES(9, 'n'), (1, 'dup');", "INSERT OR FAIL INTO b VALUES(9, 'n'), (10, 'o'), (1, 'dup'); DELETE FROM a;", "INSERT OR ROLLBACK INTO a VALUES(1, 'dup');", "DELETE FROM a; INSERT OR ROLLBACK INTO b VALUES(1, 'dup');", "INSERT OR ABORT INTO a VALUES(9, 'n'), (1, 'dup');"};
    int n = mc::thorough() ? 3 : 2; World w(1, 0, SCHEMA); SQLite& db = *w.handles[0]; bool fp = false; string t;
    MC_CHECK(db.beginTransaction(mc::choose(2, "exclusive") ? SQLite::TRANSACTION_TYPE::EXCLUSIVE : SQLite::TRANSACTION_TYPE::SHARED), "begin");
    for (int i = 0; i < n; i++) {
        string q = mc::pick(Q, "query"); if (q.find("OR FAIL") != string::npos) { if (i) { db.rollback(); return; } fp = true; n = 1; } int how = fp ? 0 : mc::choose(4, "how"); t += q; mc::note("%s", q.c_str()); bool ok = false; SQResult r;
        try { ok = how == 0 ? db.write(q) : how == 1 ? db.write(q, r) : how == 2 ? db.writeIdempotent(q, {{":x", SQLite::Parameter::i(1)}}) : db.writeUnmodified(q); } catch (const SQLite::constraint_error&) {} catch (const SException&) {}
        MC_CHECK(!ok, "a failing query was reported successful: %s", q.c_str());
    }
    if (mc::choose(2, "write")) { try { db.write("INSERT INTO b VALUES((SELECT MAX(k) FROM b) + 1, 'last');"); } catch (const SException&) {} }
    uint64_t id; string h; bool committed = false; if (db.prepare(&id, &h)) { committed = db.commit("check") == 0; if (!committed) db.rollback(); } else if (db.insideTransaction()) db.rollback();
    shim::Db d(w.file); auto j = journalOf(d); string r = replayJournal(j, SCHEMA), now = d.dump();
    if (r != now) { string m = "after ignored failures of \"" + t + "\" the database has\n" + now + "\nbut executing the journal gives\n" + r; mc::failfp(fp ? "or-fail" : "ignored-failure", m); }
    MC_CHECK(j.size() == (committed ? 1 : 0), "%zu journal entries", j.size()); mc::compared(); mc::outcome(t.substr(0, 60) + (committed ? " committed" : "")); mc::state(t); mc::transition(n);
}
// Everything that a query changes, by whatever means, is in the journal.
static const string RICH = "CREATE TABLE p(id INTEGER PRIMARY KEY, n TEXT UNIQUE); CREATE TABLE c(id INTEGER PRIMARY KEY AUTOINCREMENT, pid INTEGER REFERENCES p(id) ON DELETE CASCADE ON UPDATE CASCADE, x); CREATE TABLE log(what TEXT, n); CREATE TABLE w(k TEXT PRIMARY KEY, v) WITHOUT ROWID; CREATE TABLE g(a INTEGER, b AS (a * 2), t TEXT DEFAULT 'd'); CREATE INDEX ci ON c(x); CREATE VIEW v AS SELECT id, n FROM p;"
    "CREATE TRIGGER t1 AFTER UPDATE ON p BEGIN INSERT INTO log VALUES('u', new.id); END; CREATE TRIGGER t2 INSTEAD OF INSERT ON v BEGIN INSERT INTO log VALUES('v', new.id); END; CREATE TRIGGER t3 BEFORE DELETE ON w BEGIN UPDATE g SET a = a + 1; SELECT RAISE(IGNORE); END;"
    "INSERT INTO p VALUES(1, 'a'), (2, 'b'); INSERT INTO c(pid, x) VALUES(1, 5), (2, 6); INSERT INTO w VALUES('k', 1); INSERT INTO g(a) VALUES(1);";
static bool rewriteInsertIntoC(int action, const char* table, string& query) { if (action != SQLITE_INSERT || string(table) != "c") return false; query = "UPDATE g SET t = :y;"; return true; }
static void effects() {
    static const vector<string> Q = {"UPDATE g SET a = 5; UPDATE g SET a = 6 WHERE 0;", "UPDATE g SET a = 6 WHERE 0; UPDATE g SET a = 5;", "UPDATE g SET a = 7; SELECT 1;", "SELECT 1; DELETE FROM g;", "DELETE FROM c; DELETE FROM c;", "DELETE FROM g;", "INSERT INTO v VALUES(9, 'x');", "DELETE FROM w;", "DELETE FROM w WHERE k='k';", "UPDATE p SET n = n || '!';", "UPDATE p SET n = n;", "DELETE FROM p WHERE id=1;", "REPLACE INTO p VALUES(1, 'b');", "INSERT OR IGNORE INTO p VALUES(1, 'z');", "INSERT OR IGNORE INTO p VALUES(1, 'z'), (3, 'z');", "INSERT INTO p VALUES(2, 'q') ON CONFLICT(id) DO UPDATE SET n = excluded.n;", "INSERT INTO p VALUES(2, 'q') ON CONFLICT DO NOTHING;", "INSERT INTO c(x) SELECT x + 1 FROM c;", "INSERT INTO g(a) VALUES(3) RETURNING b;", "UPDATE c SET x = 9 WHERE x < 6 RETURNING id;", "CREATE TABLE IF NOT EXISTS p(x);", "CREATE TABLE n AS SELECT * FROM p;", "CREATE TABLE n(x); DROP TABLE n;", "DROP TABLE IF EXISTS nothere;", "ALTER TABLE g ADD COLUMN y DEFAULT 4;", "ALTER TABLE g RENAME COLUMN t TO tt;", "CREATE INDEX gi ON g(a); REINDEX gi;", "DROP VIEW v;", "DROP TRIGGER t1; UPDATE p SET n = 'k' WHERE id = 1;", "CREATE TRIGGER t4 AFTER INSERT ON c BEGIN DELETE FROM g; END;", "INSERT INTO c(x) VALUES(1);", "WITH q(i) AS (SELECT 8) INSERT INTO g(a) SELECT i FROM q;", "UPDATE g SET a = c.x FROM c WHERE c.id = 1;", "DELETE FROM sqlite_sequence;", "UPDATE w SET k = 'l'; UPDATE w SET k = 'k';", "INSERT INTO p VALUES(:x, :y);", "UPDATE g SET t = :y WHERE a < :x; UPDATE g SET t = t WHERE 0;", "/* c */ UPDATE g SET a = 2; -- done\n;", "DELETE FROM log; INSERT INTO log VALUES('x', 1); DELETE FROM log;", "ANALYZE;", "UPDATE g SET a = 7; INSERT INTO c(x) VALUES(1);", "INSERT INTO c(x) VALUES(1); UPDATE g SET a = 7;"};
    World w(1, 0, RICH); SQLite& db = *w.handles[0]; int n = mc::thorough() ? 3 : 2; string t; MC_CHECK(db.beginTransaction(), "begin");
    for (int i = 0; i < n; i++) {
        const string& q = mc::pick(Q, "query"); int how = i ? 0 : mc::choose(5, "how"); SQResult r; map<string, SQLite::Parameter> p = {{":x", SQLite::Parameter::i(77)}, {":y", SQLite::Parameter::text("it's")}}; t += q; mc::note("%s", q.c_str());
        try { if (how == 0) db.write(q, p); else if (how == 1) db.write(q, p, r); else if (how == 2) db.writeIdempotent(q, p); else if (how == 3) db.writeUnmodified(q, p); else { db.setRewriteHandler(rewriteInsertIntoC); db.enableRewrite(true); db.write(q, p); db.enableRewrite(false); } } catch (const SQLite::constraint_error&) { db.rollback(); mc::outcome("constraint"); return; } catch (const SException&) { db.rollback(); mc::outcome("refused"); return; }
        if (i + 1 < n && mc::choose(2, "commit between")) { MC_CHECK(db.prepare() && db.commit("check") == 0 && db.beginTransaction(), "commit"); }
    }
    MC_CHECK(db.prepare() && db.commit("check") == 0, "commit"); shim::Db d(w.file); auto j = journalOf(d); string r = replayJournal(j, RICH), now = d.dump();
    MC_CHECK(r == now, "after \"%s\" the database has\n%s\nbut executing the journal gives\n%s", t.c_str(), now.c_str(), r.c_str()); mc::compared(); mc::outcome(to_string(j.size())); mc::state(t); mc::transition(n);
}
void mc::registerScenarios() {
    bool T = thorough(); add("effects of queries", effects);
    Options q; add("operation sequences", [] { sequence(mc::thorough() ? 6 : 5); }, q);
    Options g; g.concurrent = true; g.maxSteps = 60000; add("ignored failures", ignoredFailures, g);
    Options o; o.concurrent = true; o.maxSteps = 60000; o.bounds = T ? vector<int>{0, 1, 2} : vector<int>{0, 1};
    Options d = o; d.bounds = T ? vector<int>{0, 1, 2, 3} : vector<int>{0, 1, 2};
    add("two writers", [] { run({{W1}, {W2}}, 0, false); }, d);
    add("two writers, journal only", [] { run({{W1, KEEP}, {W2}}, -1, false); }, o);
    add("two writers, atomics", [] { run({{W1}, {W2}}, 1, true); }, o);
    add("three writers", [] { run({{W1}, {W2}, {W3}}, 2, false); }, o);
    add("empty and unmodified", [] { run({{EMPTY, KEEP}, {KEEP, W1}}, 1, false); }, o);
    if (T) add("rollbacks, deeper", [] { run({{rb(W1)}, {prb(W1), W1}}, 0, false); }, d);
    add("rollbacks", [] { run({{rb(W1), W2}, {prb(W1), W1}}, 0, false); }, o);
    add("exclusive", [] { run({{excl(W1), W2}, {prb(excl(W3)), W3}}, 1, false); }, o);
    add("schema changes", [] { run({{DDL}, {W1, DDL}}, 0, false); }, o);
    add("commits disabled", [] { run({{W1, W1}, {W2}}, 0, false, 1); }, o);
    add("commits disabled, atomics", [] { run({{W1}, {W2}}, 0, true, 1); }, o);
    add("commits disabled and enabled again", [] { run({{W1, W1}, {W2}}, 1, false, 2); }, o);
    setRuleText("committed database images and commit order, over all operation sequences to the stated depth and every schedule within the bound");
}
