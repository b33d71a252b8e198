// S07: read-only, whitelisted and replicated contexts refuse what they must, whatever the query text. Real code: SQLite.cpp, libstuff SQuery.
#include "txn.h"
#include <libstuff/libstuff.h>
static const string SCHEMA = "CREATE TABLE a(k INTEGER PRIMARY KEY, v TEXT UNIQUE, s TEXT); CREATE TABLE b(k INTEGER PRIMARY KEY, v TEXT); CREATE TABLE l(n INTEGER PRIMARY KEY AUTOINCREMENT, t); CREATE TABLE m(x);"
    "CREATE TRIGGER ta AFTER UPDATE OF s ON a BEGIN INSERT INTO l(t) VALUES(new.s); END;"
    "CREATE VIEW va AS SELECT k, v, s FROM a; INSERT INTO a VALUES(1, 'x', 's1'), (2, 'z', 's2'); INSERT INTO b VALUES(1, 'y'), (2, 'w'), (3, NULL);";
static string dumpOf(const string& file) { bool p = shim::pointsEnabled; shim::pointsEnabled = false; string s; { shim::Db d(file); s = d.dump(); } shim::pointsEnabled = p; return s; }
// The handle must still work: a transaction with a marker commits, changes just that, and is in the journal.
static void usable(SQLite& db, const string& file, const string& before, const string& what) {
    uint64_t n = db.getCommitCount();
    MC_CHECK(!db.insideTransaction() && db.beginTransaction(), "no transaction can be started any more after %s", what.c_str());
    MC_CHECK(db.write("INSERT INTO m VALUES('marker');"), "cannot write any more after %s", what.c_str());
    uint64_t id; string h; MC_CHECK(db.prepare(&id, &h) && db.commit("check") == 0, "cannot commit any more after %s", what.c_str());
    MC_CHECK(id == n + 1 && db.getCommitCount() == id, "commit is %lu after %lu", id, n);
    shim::Db d(file); auto j = shim::journal(d); MC_CHECK(j.size() == 1 && j.back().query == "INSERT INTO m VALUES('marker');", "after %s the journal has <%s>", what.c_str(), j.empty() ? "" : j.back().query.c_str());
    MC_CHECK(d.exec("DELETE FROM m;"), "%s", d.error.c_str()); string now = d.dump(); MC_CHECK(now == before, "\"%s\" changed the database:\n%s\nto\n%s", what.c_str(), before.c_str(), now.c_str()); mc::compared(2);
}
// --- the read-only phases of a command -----------------------------------------------------------
static const vector<string> WRITES = {"INSERT INTO a VALUES(9, 'n', 'n');", "UPDATE a SET s='n' WHERE k=1;", "DELETE FROM a WHERE k=1;", "DELETE FROM a;", "REPLACE INTO a VALUES(1, 'n', 'n');", "INSERT OR IGNORE INTO a VALUES(9, 'n', 'n');",
    "CREATE TABLE n(x);", "CREATE TABLE n AS SELECT * FROM a;", "CREATE INDEX i ON a(s);", "CREATE VIEW n AS SELECT 1;", "CREATE TRIGGER t AFTER INSERT ON b BEGIN DELETE FROM a; END;", "DROP TABLE a;", "DROP VIEW va;", "DROP TRIGGER ta;", "ALTER TABLE a ADD COLUMN n;", "ALTER TABLE a RENAME TO n;", "ALTER TABLE a RENAME COLUMN s TO n;", "ALTER TABLE b DROP COLUMN v;",
    "WITH c AS (SELECT 9 AS x) INSERT INTO b SELECT x, 'n' FROM c;", "WITH c AS (SELECT 1 AS x) UPDATE a SET s='n' WHERE k IN (SELECT x FROM c);", "WITH c AS (SELECT 1 AS x) DELETE FROM a WHERE k IN c;", "INSERT INTO a VALUES(1, 'q', 'n') ON CONFLICT(k) DO UPDATE SET s=excluded.s;", "INSERT INTO b VALUES(9, 'n') RETURNING k;", "DELETE FROM b RETURNING *;", "UPDATE a SET s='n' FROM b WHERE a.k=b.k;",
    "PRAGMA user_version=7;", "PRAGMA schema_version=99;", "PRAGMA application_id=3;", "PRAGMA writable_schema=ON; UPDATE sqlite_master SET sql='';", "ANALYZE;", "REINDEX;", "VACUUM;", "PRAGMA incremental_vacuum;", "PRAGMA optimize;", "PRAGMA auto_vacuum=1;",
    "BEGIN;", "BEGIN EXCLUSIVE;", "COMMIT;", "END;", "ROLLBACK;", "SAVEPOINT p;", "RELEASE p;", "ROLLBACK TO p;", "SAVEPOINT p; RELEASE p;"};
static const vector<string> WRAPS = {"@", "  \n-- comment\n/* SELECT */ @", "SELECT 1; @", "@ SELECT 1;", "; @", "SELECT v FROM a WHERE k=1; SELECT 2; @ SELECT 3;", "BEGIN; @", "@ COMMIT;", "ROLLBACK; @", "EXPLAIN @", "SELECT 'not terminated; @"};
static void readOnly() {
    string stmt = mc::pick(WRITES, "statement"), wrap = mc::pick(WRAPS, "around"), q; for (char c : wrap) { if (c == '@') q += stmt; else q += c; }
    int ctx = mc::choose(4, "context"), how = mc::choose(mc::thorough() ? 6 : 4, "how");   // context: no transaction, shared, exclusive, own transaction that has written
    World w(1, -1, SCHEMA); SQLite& db = *w.handles[0]; rt::setClockTick(0); string before = dumpOf(w.file); auto im = shim::hashImage(shim::image(w.file));
    if (ctx) MC_CHECK(db.beginTransaction(ctx == 2 ? SQLite::TRANSACTION_TYPE::EXCLUSIVE : SQLite::TRANSACTION_TYPE::SHARED), "begin");
    if (ctx == 3) MC_CHECK(db.write("UPDATE b SET v='half' WHERE k=1;"), "write");
    db.setQueryOnly(true);
    mc::note("%s", q.c_str());
    bool threw = false, ok = false;
    try {
        SQResult r;
        switch (how) {
            case 0: ok = db.read(q, r); break;
            case 1: { sqlite3_qrf_spec spec = {}; spec.iVersion = 1; char* out = nullptr; spec.eStyle = QRF_STYLE_Csv; spec.pzOutput = &out; ok = !db.read(q, &spec); sqlite3_free(out); break; }
            case 2: ok = db.read(q, {{":x", SQLite::Parameter::i(1)}}, r); break;
            case 3: ok = db.write(q); break;
            case 4: ok = db.writeIdempotent(q); break;
            case 5: ok = db.writeUnmodified(q); break;
        }
    } catch (const SException& e) { threw = true; } catch (const SQLite::constraint_error&) { threw = true; }
    MC_CHECK(shim::hashImage(shim::image(w.file)) == im, "\"%s\" changed the database file in a read-only phase", q.c_str());
    if (how >= 3 && !ctx) MC_CHECK(threw, "a write outside of a transaction was accepted");
    db.setQueryOnly(false);
    MC_CHECK(db.insideTransaction() == (ctx > 0), "\"%s\" changed the transaction state", q.c_str());
    db.rollback();
    MC_CHECK(shim::hashImage(shim::image(w.file)) == im, "\"%s\" changed the database file", q.c_str()); mc::compared();
    usable(db, w.file, before, q);
    mc::outcome(stmt + (threw ? " threw" : ok ? " ok" : " failed")); mc::state(q + to_string(ctx) + to_string(how)); mc::transition();
}
// The same in a writing phase: transaction control inside of the query text must not take part of a transaction out of the journal.
static void transactionControl() {
    static const vector<string> CTL = {"COMMIT;", "END TRANSACTION;", "ROLLBACK;", "BEGIN;", "BEGIN IMMEDIATE;", "SAVEPOINT p;", "RELEASE p;", "ROLLBACK TO p;", "ROLLBACK; BEGIN;", "COMMIT; BEGIN;", "SAVEPOINT p; UPDATE b SET v='sp' WHERE k=3; ROLLBACK TO p; RELEASE p;"};
    static const vector<string> FORM = {"@", "UPDATE b SET v='one' WHERE k=1; @", "@ UPDATE b SET v='one' WHERE k=1;", "UPDATE b SET v='one' WHERE k=1; @ UPDATE b SET v='two' WHERE k=2;", "SELECT 1; @", "/* c */ @ SELECT 1;"};
    string ctl = mc::pick(CTL, "control"), form = mc::pick(FORM, "form"), q; for (char c : form) { if (c == '@') q += ctl; else q += c; }
    int how = mc::choose(4, "how"); bool wrote = mc::choose(2, "after a write"), excl = mc::choose(2, "exclusive"), goOn = mc::choose(2, "go on");
    if (how == 0 && q.find("UPDATE") != string::npos) return;                                     // outside of the read-only phases, a read that writes is the caller's mistake
    World w(1, 0, SCHEMA); SQLite& db = *w.handles[0]; rt::setClockTick(0); string before = dumpOf(w.file);
    MC_CHECK(db.beginTransaction(excl ? SQLite::TRANSACTION_TYPE::EXCLUSIVE : SQLite::TRANSACTION_TYPE::SHARED), "begin");
    if (wrote) MC_CHECK(db.write("UPDATE b SET v='first' WHERE k=3;"), "write");
    mc::note("%s", q.c_str()); bool ok = false, committed = false;
    try { SQResult r; ok = how == 0 ? db.read(q, r) : how == 1 ? db.write(q) : how == 2 ? db.writeUnmodified(q) : db.writeIdempotent(q, {{":x", SQLite::Parameter::i(1)}}, r); } catch (const SException&) {} catch (const SQLite::constraint_error&) {}
    checkHistory(w.file, true, SCHEMA);
    if (goOn) {
        try { db.write("UPDATE b SET v='last' WHERE k=2;"); } catch (const SException&) {}
        checkHistory(w.file, true, SCHEMA);
        uint64_t id; string h; if (db.prepare(&id, &h)) { committed = db.commit("check") == 0; if (!committed) db.rollback(); } else if (db.insideTransaction()) db.rollback();
    } else db.rollback();
    checkHistory(w.file, true, SCHEMA);
    if (!committed) { MC_CHECK(dumpOf(w.file) == before, "\"%s\" in a rolled back transaction changed the database", q.c_str()); usable(db, w.file, before, q); }
    mc::outcome(ctl + (ok ? " ok" : " refused") + (committed ? " committed" : "")); mc::state(q + to_string(how) + to_string(wrote) + to_string(excl) + to_string(goOn)); mc::transition();
}
// --- recorded writes give the same data on another node ------------------------------------------
struct Node { string file; unique_ptr<SQLite> db; Node(int other) { file = seededFile(-1, SCHEMA, other ? "follower" : "leader"); db.reset(new SQLite(file, 0, 1000, -1));
    if (other) { MC_CHECK(db->beginTransaction() && db->write("INSERT INTO b VALUES(55, '1'), (56, '2'); DELETE FROM b WHERE k>50;"), "session"); db->rollback(); } } };
// Runs writes in one transaction on a leader; returns false if one was refused. If all were accepted, the journal is replayed on a follower with other counters, clock and random numbers.
static bool replicated(const vector<pair<string, map<string, SQLite::Parameter>>>& writes, const string& fp, int how = 0, const string& setup = "") {
    sqlSetup(); rt::NoPoints np; rt::setClockTick(0); Node l(0); Node f(1);
    if (!setup.empty()) for (Node* n : {&l, &f}) { shim::Db d(n->file); if (!d.exec(setup)) mc::internalError("%s: %s", setup.c_str(), d.error.c_str()); }
    string before = dumpOf(l.file);
    MC_CHECK(l.db->beginTransaction(), "begin"); bool ok = true; string text;
    for (auto& [q, p] : writes) { SQResult r; text += q; try { ok = how == 0 ? l.db->write(q, p) : how == 1 ? l.db->write(q, p, r) : how == 2 ? l.db->writeIdempotent(q, p, r) : l.db->writeUnmodified(q, p); } catch (const SQLite::constraint_error&) { ok = false; } catch (const SException&) { ok = false; } if (!ok) break; }
    if (!ok) { l.db->rollback(); MC_CHECK(dumpOf(l.file) == before, "a refused write changed the database: %s", text.c_str()); usable(*l.db, l.file, before, text); return false; }
    uint64_t id; string h; MC_CHECK(l.db->prepare(&id, &h) && l.db->commit("check") == 0, "commit");
    string q, qh; MC_CHECK(l.db->getCommit(id, &q, &qh), "commit is not in the journal");
    rt::advanceUs(400000000000ull + 7777777);
    bool played = false; string why; try { played = f.db->beginTransaction() && f.db->writeUnmodified(q); } catch (const SQLite::constraint_error&) { why = "constraint"; } catch (const SException& e) { why = e.what(); }
    string fh; uint64_t fid; bool committed = false;
    if (played) { committed = f.db->prepare(&fid, &fh) && f.db->commit("check") == 0; }
    if (!committed) { mc::failfp(fp, "the recorded query of \"" + text + "\" cannot be executed by another node: <" + q + "> " + why); }
    string a = dumpOf(l.file), b = dumpOf(f.file);
    if (a != b) mc::failfp(fp, "executing \"" + text + "\" gives\n" + a + "\nanother node executing the recorded <" + q + "> has\n" + b);
    MC_CHECK(fid == id && fh == h, "the other node's commit is %lu %s instead of %lu %s", fid, fh.c_str(), id, h.c_str());
    mc::compared(2); mc::state(mc::hashStr(a) ^ mc::hashStr(q)); mc::transition(); return true;
}
static const vector<string> CHANGING = {"random()", "RANDOM()", "\"random\"()", "randomblob(4)", "hex(randomblob(4))", "last_insert_rowid()", "changes()", "total_changes()", "sqlite_version()", "CURRENT_TIMESTAMP", "CURRENT_DATE", "CURRENT_TIME", "current_time", "current_timestamp"};
static const vector<string> FIXED = {"1", "'random()'", "abs(-3)", "date('2024-01-01')", "datetime('2024-01-01 10:00:00', '+1 day')", "strftime('%s', '2024-01-01')", "julianday(2460000.5)", "time('12:00')", "unixepoch('2024-02-03')", "hex('CURRENT_TIMESTAMP')", "length('changes()')", "\"v\"", "quote(x'00ff')", "upper('current_date')", "1.5 * 3", "'a;b--c'", "'it''s'", "x'00'"};
static const vector<string> EWRAP = {"@", "(@)", "coalesce(NULL, @)", "CASE WHEN 1 THEN @ END", "(SELECT @)", "abs(length(@))", "'p' || @", "(SELECT max(x) FROM (SELECT @ AS x UNION ALL SELECT 0))", "(WITH c AS (SELECT @ AS x) SELECT x FROM c)", "cast(@ AS TEXT)", "iif(k > 0, @, 0)", "(SELECT max(@) OVER () FROM b LIMIT 1)", "(SELECT v FROM b ORDER BY @ LIMIT 1)", "(@ IN (1, 2))", "(1 BETWEEN 0 AND @)", "(SELECT count(*) FROM b WHERE @ > 0)"};
static const vector<string> WFORM = {"UPDATE b SET v=@ WHERE k=1;", "INSERT INTO b SELECT 9, @ FROM b WHERE k=1;", "INSERT INTO b(k, v) SELECT k, @ FROM a WHERE k=1 ON CONFLICT(k) DO UPDATE SET v='c' || excluded.v;", "INSERT INTO b VALUES(1, 'o') ON CONFLICT(k) DO UPDATE SET v=@;", "DELETE FROM b WHERE v < @;", "UPDATE b SET v='m' WHERE v IS NOT @;", "REPLACE INTO b SELECT k, @ FROM b;", "WITH c AS (SELECT k, @ AS x FROM b) UPDATE b SET v=(SELECT x FROM c WHERE c.k=b.k);",
    "CREATE TABLE n AS SELECT k, @ AS x FROM b;", "CREATE VIEW n AS SELECT k + 100 AS k, @ AS v FROM b; INSERT INTO b SELECT k, v FROM n;", "CREATE TRIGGER tn AFTER INSERT ON a BEGIN UPDATE b SET v=@ WHERE k=1; END; INSERT INTO a VALUES(9, 'f', 'f');", "CREATE TRIGGER tn AFTER INSERT ON a WHEN (SELECT @ > 1 FROM b) BEGIN DELETE FROM b; END; INSERT INTO a VALUES(9, 'f', 'f');", "UPDATE b SET v='w' WHERE k=2; UPDATE b SET v=@ WHERE k=1;", "UPDATE b SET v=@ WHERE k=1; UPDATE b SET v='w' WHERE k=2;", "UPDATE b SET v=a.s FROM a WHERE a.k=b.k AND a.v < (SELECT @ FROM b);", "SELECT 1; UPDATE b SET v=@ WHERE k=3;", "INSERT INTO b SELECT k + 10, v FROM b ORDER BY @;", "UPDATE b SET (k, v)=(SELECT k, @) WHERE k=1;", "/* c */ UPDATE b SET v=@ WHERE k=1 -- c\n;", "INSERT INTO l(t) SELECT @ FROM b;"};
static string put(const string& form, const string& e) { string q; for (char c : form) { if (c == '@') q += e; else q += c; } return q; }
static void changingValues() {
    string e = mc::pick(CHANGING, "value"), wr = mc::pick(EWRAP, "in"), form = mc::pick(WFORM, "form"); if (mc::thorough()) wr = put(mc::pick(EWRAP, "in"), wr);
    string q = put(form, put(wr, e)); int how = mc::thorough() ? mc::choose(4, "how") : 0; mc::note("%s", q.c_str());
    bool ok = replicated({{q, {}}}, "changing:" + e + ":" + form, how);
    MC_CHECK(!ok, "a write with a value that other nodes compute differently was accepted: %s", q.c_str());
    mc::outcome("refused " + e); mc::state(q);
}
static void fixedValues() {
    string e = mc::pick(FIXED, "value"), wr = mc::pick(EWRAP, "in"), form = mc::pick(WFORM, "form"); int how = mc::choose(mc::thorough() ? 4 : 2, "how") * (mc::thorough() ? 1 : 3);
    string q = put(form, put(wr, e)); mc::note("%s", q.c_str());
    shim::Db probe(shim::freshName("probe")); if (!probe.exec(SCHEMA)) mc::internalError("probe"); bool valid = probe.exec(q);      // some combinations are not SQL
    bool ok = replicated({{q, {}}}, "fixed:" + q, how);
    MC_CHECK(ok == valid, "%s: %s", valid ? "a deterministic write was refused" : "an invalid write was accepted", q.c_str());
    mc::outcome(ok ? e : "invalid");
}
static void otherSources() {
    struct Src { const char* fp; const char* setup; const char* q; };
    static const vector<Src> S = {{"default:random", "CREATE TABLE d(k INTEGER PRIMARY KEY, v, r DEFAULT (random()));", "INSERT INTO d(v) VALUES(1);"}, {"default:current_timestamp", "CREATE TABLE d(k INTEGER PRIMARY KEY, v, r DEFAULT CURRENT_TIMESTAMP);", "INSERT INTO d(v) VALUES(1);"},
        {"default:randomblob", "CREATE TABLE d(k INTEGER PRIMARY KEY, v, r DEFAULT (hex(randomblob(4))));", "INSERT INTO d(v) VALUES(1);"}, {"max-rowid", "INSERT INTO b VALUES(9223372036854775807, 'm');", "INSERT INTO b(v) VALUES('n');"},
        {"autoincrement", "", "INSERT INTO l(t) VALUES(1), (2); DELETE FROM l WHERE t=2; INSERT INTO l(t) VALUES(3);"}, {"trigger:fixed", "CREATE TRIGGER tn AFTER INSERT ON b BEGIN INSERT INTO l(t) VALUES(date('2024-01-01')); END;", "INSERT INTO b VALUES(7, 'f'); UPDATE a SET s='t';"},
        {"trigger:random", "CREATE TRIGGER tn AFTER INSERT ON b BEGIN INSERT INTO l(t) VALUES(random()); END;", "INSERT INTO b VALUES(7, 'f');"}, {"trigger:total_changes", "CREATE TRIGGER tn AFTER INSERT ON b BEGIN INSERT INTO l(t) VALUES(total_changes()); END;", "INSERT INTO b VALUES(7, 'f');"}, {"view:random", "CREATE VIEW vr AS SELECT random() AS x;", "INSERT INTO l(t) SELECT x FROM vr;"}, {"view:current_time", "CREATE VIEW vr AS SELECT current_time AS x;", "INSERT INTO l(t) SELECT x FROM vr;"}, {"default:fixed", "CREATE TABLE d(k INTEGER PRIMARY KEY, v, r DEFAULT 'random()');", "INSERT INTO d(v) VALUES(1);"}};
    auto& s = S[mc::choose((int) S.size(), "source")]; int how = mc::choose(4, "how");
    bool ok = replicated({{"UPDATE b SET v='f' WHERE k=1;", {}}, {s.q, {}}}, s.fp, how, s.setup);
    bool det = string(s.fp) == "autoincrement" || SEndsWith(s.fp, ":fixed"); MC_CHECK(ok || !det, "a deterministic write was refused: %s", s.q);
    mc::outcome(string(s.fp) + (ok ? " recorded" : " refused"));
}
// Bound parameters: every value, in every place of the statement, is recorded as what was stored.
static void parameters() {
    static const string NUL1("a\0b", 3), BIN("\x00\xff\x27\x00", 4);
    static const vector<pair<string, SQLite::Parameter>> V = {{"null", SQLite::Parameter::null()}, {"0", SQLite::Parameter::i(0)}, {"min", SQLite::Parameter::i(INT64_MIN)}, {"max", SQLite::Parameter::i(INT64_MAX)}, {"-1", SQLite::Parameter::i(-1)}, {"0.5", SQLite::Parameter::d(0.5)}, {"1.0", SQLite::Parameter::d(1)}, {"-1e300", SQLite::Parameter::d(-1e300)}, {"1e-9", SQLite::Parameter::d(1e-9)}, {"real-precision", SQLite::Parameter::d(0.1 + 0.2)},
        {"empty", SQLite::Parameter::text("")}, {"quote", SQLite::Parameter::text("it's")}, {"quotes", SQLite::Parameter::text("''\"`")}, {"semi", SQLite::Parameter::text("'; DELETE FROM a; --")}, {"comment", SQLite::Parameter::text("/* x")}, {"name", SQLite::Parameter::text(":v :k @w $x ?1")}, {"newline", SQLite::Parameter::text("l1\nl2\r\t")}, {"utf8", SQLite::Parameter::text("\xc3\xa9\xe2\x82\xac\xf0\x9f\x98\x80")}, {"backslash", SQLite::Parameter::text("\\' \\n %s")}, {"number", SQLite::Parameter::text("007")}, {"text-nul", SQLite::Parameter::text(NUL1)},
        {"long", SQLite::Parameter::text(string(3000, '\''))}, {"blob", SQLite::Parameter::blob(BIN)}, {"emptyblob", SQLite::Parameter::blob("")}, {"blobtext", SQLite::Parameter::blob("abc")}};
    static const vector<string> F = {"UPDATE b SET v=:v WHERE k=1;", "INSERT INTO l(t) VALUES(:v);", "INSERT INTO l(t) VALUES(:v), (':v'), (@w), (:none), (:v);", "UPDATE b SET v=:v WHERE k=1; INSERT INTO l(t) VALUES(:v); INSERT INTO l(t) VALUES($x);", "INSERT INTO b SELECT k + 10, :v FROM b WHERE :v IS NOT @w;", "/* :v */ INSERT INTO l(t) /* ' */ VALUES(quote(:v)) -- :v\n;", "CREATE TABLE n AS SELECT :v AS x;", "INSERT INTO l(t) VALUES(:vv), (:v); DELETE FROM b WHERE v=:v;", "INSERT INTO b VALUES(1, :v) ON CONFLICT(k) DO UPDATE SET v=excluded.v || :v;"};
    int iv = mc::choose((int) V.size(), "value"), iw = mc::choose(mc::thorough() ? (int) V.size() : 3, "second"); string f = mc::pick(F, "form"); int how = mc::choose(mc::thorough() ? 4 : 2, "how");
    if (!mc::thorough()) iw = iw == 0 ? iv : iw == 1 ? 10 : 0;
    map<string, SQLite::Parameter> p = {{":v", V[iv].second}, {"@w", V[iw].second}, {"$x", SQLite::Parameter::i(42)}, {":vv", SQLite::Parameter::text("vv")}, {":unused", SQLite::Parameter::text("unused")}};
    auto is = [&](const char* n) { return V[iv].first == n || V[iw].first == n; }; mc::note("%s with %s, %s", f.c_str(), V[iv].first.c_str(), V[iw].first.c_str());
    bool ok = replicated({{"UPDATE b SET v='first' WHERE k=2;", {}}, {f, p}, {"UPDATE b SET v='last' WHERE k=3;", {}}}, is("text-nul") ? "param:text-nul" : is("real-precision") ? "param:real-precision" : "param:" + V[iv].first, how);
    MC_CHECK(ok, "a write with parameters was refused: %s", f.c_str());
    mc::outcome(f + V[iv].first);
}
// The recorded text of several writes executed one after the other is the same as the recorded text together.
static void endings() {
    static const vector<string> E = {"UPDATE b SET v='1' WHERE k=1;", "UPDATE b SET v='1' WHERE k=1; ;", "UPDATE b SET v='1' WHERE k=1;  ;", "UPDATE b SET v='1' WHERE k=1 -- ;", "UPDATE b SET v='1' WHERE k=1; -- ;", "UPDATE b SET v='1' WHERE k=1 /* ;", "UPDATE b SET v='1' WHERE k=1; /* ;", "UPDATE b SET v='1' WHERE k=1 /* */;", "UPDATE b SET v='1' WHERE k=1 -- x\n;", "UPDATE b SET v='1;' WHERE k=1;", "UPDATE b SET v='--' WHERE k=1;", "UPDATE b SET v='/*' WHERE k=1;", "UPDATE b SET v=\"--;\" WHERE k=1;", string("UPDATE b SET v='1' WHERE k=1\0;", 30), string("UPDATE b SET v='1' WHERE k=1;\0;", 31), "CREATE TRIGGER tn AFTER INSERT ON a BEGIN SELECT CASE WHEN 1 THEN 2 END; DELETE FROM l; END;", "CREATE TABLE [;](x);", "UPDATE b SET v='1' WHERE k=1;\n", ";", "-- ;", "SELECT 1;", "CREATE TRIGGER tn AFTER INSERT ON a BEGIN DELETE FROM l; END; UPDATE b SET v='2' WHERE k=2;", "EXPLAIN UPDATE b SET v='1' WHERE k=1;"};
    int n = mc::thorough() ? 3 : 2; vector<pair<string, map<string, SQLite::Parameter>>> w; string t;
    for (int i = 0; i < n; i++) { string q = mc::pick(E, "write"); if (!SEndsWith(q, ";")) q += ";"; w.push_back({q, {}}); t += q; } int how = mc::choose(2, "how") * 3;
    w.push_back({"INSERT INTO l(t) VALUES('end');", {}});
    bool ok = replicated(w, "ending:" + w[0].first, how); mc::outcome(ok ? "recorded" : "refused");
    mc::state(t);
}
// --- column whitelist ------------------------------------------------------------------------------
static const string SECRETS[2] = {"INSERT INTO t VALUES(1, 'o1', 'aa', 5), (2, 'o2', 'bb', 1), (3, 'o3', 'cc', 3); INSERT INTO u VALUES(1, 'p1'), (2, 'p2'); INSERT INTO y(rowid, o, s) VALUES(1, 'y1', 'a'), (2, 'y2', 'b'); INSERT INTO z VALUES(1);", "INSERT INTO t VALUES(1, 'o1', 'zz', 2), (2, 'o2', '', 9), (3, 'o3', NULL, -4); INSERT INTO u VALUES(1, NULL), (2, 'o1'); INSERT INTO y(rowid, o, s) VALUES(4, 'y1', 'c'), (7, 'y2', NULL); INSERT INTO z VALUES(2);"};
static const string WSCHEMA = "CREATE TABLE y(o TEXT, s TEXT); CREATE TABLE z(a); CREATE TABLE t(k INTEGER PRIMARY KEY, o TEXT, s TEXT, n INTEGER); CREATE TABLE u(k INTEGER PRIMARY KEY, p TEXT); CREATE VIEW vt AS SELECT k, o, s AS o2, n FROM t; CREATE VIEW vs AS SELECT k FROM t WHERE s > 'a';";
static multiset<string> rowSet(const SQResult& r) { multiset<string> m; for (size_t i = 0; i < r.size(); i++) { string o; for (size_t c = 0; c < r[i].size(); c++) o += string(r[i][c]) + "|"; m.insert(o); } return m; }
static void whitelist() {
    static const vector<string> X = {"s", "t.s", "\"s\"", "[S]", "T.\"s\"", "main.t.s", "n", "length(s)", "max(s, 'b')", "s || o", "CASE WHEN n > 2 THEN 1 ELSE 0 END", "(SELECT s)", "(SELECT max(s) FROM t)", "(SELECT p FROM u WHERE u.k=t.k)", "EXISTS(SELECT 1 FROM u WHERE p='p2' AND u.k=t.k)", "s IS NULL", "s IN ('aa', 'zz')", "'aa' IN (SELECT s FROM t)", "(SELECT o2 FROM vt WHERE vt.k=t.k)", "(SELECT count(*) FROM vs)", "(SELECT group_concat(n) FROM t)", "typeof(s)", "s LIKE 'a%'", "s = o", "(SELECT x FROM (SELECT s AS x FROM t LIMIT 1))", "first_value(s) OVER (ORDER BY k)", "row_number() OVER (ORDER BY n)", "(SELECT sum(n) FROM t)", "coalesce(s, o)", "n + 0", "k", "o"};
    static const vector<string> F = {"SELECT k, @ FROM t;", "SELECT k FROM t WHERE @;", "SELECT k FROM t ORDER BY @ LIMIT 1;", "SELECT count(*), @ FROM t GROUP BY @;", "SELECT k FROM t GROUP BY k HAVING @;", "SELECT t.k, u.k FROM t JOIN u ON @;", "WITH c AS (SELECT k, @ AS x FROM t) SELECT * FROM c;", "SELECT * FROM (SELECT k, @ AS x FROM t);", "SELECT k FROM t UNION SELECT @ FROM t;", "SELECT DISTINCT @ FROM t;", "SELECT t.k FROM t WHERE k IN (SELECT @ FROM t);", "SELECT json_group_array(@) FROM t;", "SELECT k FROM t WHERE k > 0 EXCEPT SELECT k FROM t WHERE @;", "SELECT 1; SELECT k, @ FROM t;"};
    static const vector<string> ALONE = {"SELECT * FROM t;", "SELECT * FROM vt;", "SELECT * FROM vs;", "SELECT * FROM t NATURAL JOIN u;", "SELECT * FROM u;", "TABLE t;", "SELECT o FROM y;", "SELECT rowid, o FROM y;", "SELECT o FROM y WHERE _rowid_ > 3;", "SELECT o FROM y ORDER BY oid % 3 LIMIT 1;", "SELECT y.RowId FROM t JOIN y ON t.k=y.rowid;", "SELECT count(*) FROM z;", "SELECT 1 FROM z;", "SELECT k FROM t WHERE k=(SELECT count(*) FROM z);", "SELECT t.k FROM t, z;", "SELECT max(rowid) FROM z;", "SELECT k FROM t WHERE k IN z;", "SELECT k FROM t LEFT JOIN z;", "SELECT t.* FROM t;", "SELECT rowid, s FROM t;", "VALUES((SELECT s FROM t WHERE k=1));", "PRAGMA table_info(t);", "SELECT * FROM pragma_table_info('t');", "SELECT * FROM sqlite_master;", "PRAGMA integrity_check;", "PRAGMA query_only;", "EXPLAIN SELECT s FROM t;", "EXPLAIN QUERY PLAN SELECT s FROM t WHERE s='aa';", "ANALYZE;", "ANALYZE t;", "SELECT * FROM t WHERE k=(SELECT n FROM t ORDER BY n LIMIT 1);", "WITH RECURSIVE c(x) AS (SELECT s FROM t UNION ALL SELECT x || 'a' FROM c LIMIT 3) SELECT * FROM c;",
        "INSERT INTO t VALUES(9, 'o', 's', 1);", "UPDATE t SET o=s;", "DELETE FROM t WHERE s='aa';", "UPDATE t SET o='c' WHERE k=1 RETURNING s;", "CREATE TABLE n AS SELECT s FROM t;", "CREATE TEMP TABLE n AS SELECT s FROM t;", "CREATE VIEW n AS SELECT s FROM t;", "CREATE TEMP VIEW n AS SELECT s AS o FROM t;", "CREATE INDEX i ON t(s);", "DROP TABLE u;", "ALTER TABLE t RENAME COLUMN s TO o3;", "ATTACH ':memory:' AS m;", "VACUUM INTO '';", "REINDEX;", "PRAGMA user_version=3;", "PRAGMA writable_schema=1;", "BEGIN;", "COMMIT;", "SAVEPOINT p;", "CREATE TRIGGER x AFTER INSERT ON t BEGIN SELECT 1; END;", "DROP VIEW vt;", "INSERT INTO u SELECT k + 5, s FROM t;"};
    int f = mc::choose((int) (F.size() + ALONE.size()), "form"); string q = f < (int) F.size() ? put(F[f], mc::pick(X, "expression")) : ALONE[f - F.size()]; int ctx = mc::choose(3, "context"), how = mc::choose(3, "how"); if (mc::thorough() && f < (int) F.size()) q = put(F[f], put(mc::pick(vector<string>{"@", "(@)", "coalesce(@, 'd')", "(SELECT @)", "(@) IS NULL", "max(@, 'b')", "CASE @ WHEN 'aa' THEN 1 END"}, "in"), mc::pick(X, "expression")));
    if (how == 2 && ctx == 0) return;
    map<string, set<string>> white = {{"t", {"k", "o"}}, {"u", {"k"}}, {"y", {"o"}}}; string out[2]; sqlSetup(); rt::NoPoints np; rt::setClockTick(0); mc::note("%s", q.c_str());
    for (int i = 0; i < 2; i++) {
        string file = seededFile(-1, WSCHEMA + SECRETS[i]); SQLite db(file, 0, 1000, -1); auto im = shim::hashImage(shim::image(file)); string before = dumpOf(file);
        if (ctx) MC_CHECK(db.beginTransaction(ctx == 2 ? SQLite::TRANSACTION_TYPE::EXCLUSIVE : SQLite::TRANSACTION_TYPE::SHARED), "begin");
        SQResult seen; if (ctx == 1) db.read(q.find("SELECT") == 0 ? q : "SELECT * FROM t;", seen);                    // the same query before, without the whitelist
        if (q.find("SELECT") != 0 && ctx == 1) db.read("SELECT * FROM t;", seen);
        db.whitelist = &white; bool ok = false; SQResult r; string& o = out[i];
        try { if (how == 0) ok = db.read(q, r); else if (how == 1) { sqlite3_qrf_spec spec = {}; spec.iVersion = 1; char* t = nullptr; spec.eStyle = QRF_STYLE_Csv; spec.pzOutput = &t; ok = !db.read(q, &spec); if (t) o += t; sqlite3_free(t); } else ok = db.write(q, r); } catch (const SException&) {} catch (const SQLite::constraint_error&) {}
        db.whitelist = nullptr; for (auto& x : rowSet(r)) o += x + "\n"; o += ok ? "ok" : "failed";
        MC_CHECK(shim::hashImage(shim::image(file)) == im, "\"%s\" changed the database under a whitelist", q.c_str());
        if (ctx) { MC_CHECK(!how || db.getUncommittedQuery().empty(), "\"%s\" was recorded under a whitelist", q.c_str()); uint64_t id; string h; if (db.prepare(&id, &h)) db.commit("check"); else db.rollback(); string now = dumpOf(file); MC_CHECK(now == before, "\"%s\" wrote under a whitelist", q.c_str()); } mc::compared(2);
    }
    if (how == 1) for (auto& o : out) { auto l = SParseList(o, '\n'); vector<string> v(l.begin(), l.end()); sort(v.begin(), v.end()); o = SComposeList(v, "\n"); }
    MC_CHECK(out[0] == out[1], "under a whitelist without t.s, t.n and u.p, \"%s\" tells two databases apart which differ only in these columns:\n%s\n---\n%s", q.c_str(), out[0].c_str(), out[1].c_str()); mc::compared();
    // and the whitelisted columns stay readable
    if (q == "SELECT k, o FROM t;") MC_CHECK(out[0].find("o1") != string::npos && out[0].find("o3") != string::npos, "whitelisted column o is not readable: %s", out[0].c_str());
    mc::outcome(out[0].substr(0, 40)); mc::state(q + to_string(ctx) + to_string(how)); mc::transition();
}
void mc::registerScenarios() {
    Options o; o.concurrent = true; o.maxSteps = 60000; o.bounds = {0};
    add("read-only phases", readOnly, o);
    add("transaction control in queries", transactionControl, o);
    add("changing values", changingValues, o);
    add("fixed values", fixedValues, o);
    add("other sources of changing values", otherSources, o);
    add("parameters", parameters, o);
    add("endings of queries", endings, o);
    add("column whitelist", whitelist, o);
    setRuleText("query texts from grammars of statements, expressions and positions, in read-only, writing and whitelisted contexts");
}
