// S03: whatever goes wrong in a transaction, it leaves no trace, no lock, and usable handles. Real code: SQLite.cpp.
#include "txn.h"
#include <string.h>
static const string SCHEMA = "CREATE TABLE a(k INTEGER PRIMARY KEY, v TEXT UNIQUE); CREATE TABLE b(k INTEGER PRIMARY KEY, v TEXT); INSERT INTO a VALUES(1, 'x'), (2, 'z'); INSERT INTO b VALUES(1, 'y'), (2, 'y2');";
enum Ev { NONE, SYNTAX, CONSTRAINT, CONSTRAINT_ROLLBACK, DENIED, AUTHORIZER, BADREAD, MULTI, WRITE_LATE, READ_LATE, BEGIN_AGAIN, BEGIN_AGAIN_EXCL, COMMIT_OFF, CONFLICT, PREPARE_ROLLBACK, PREPARE_FAILS, HANDLER_THROWS, LOCK_TIMEOUT, LOCK_ABORT_WAITING, ABORT_FREE, BEGIN_FAILS, SYNC_BEGIN, SLOW_WRITE_TIMEOUT, SLOW_WRITE_ABORT, SLOW_READ_TIMEOUT, SLOW_READ_ABORT, EVENTS };
static const char* NAMES[] = {"nothing", "syntax error", "constraint", "constraint, automatic rollback", "denied function", "denied by authorizer", "bad read", "second of two statements fails", "write finished too late", "read finished too late", "begin again", "begin again exclusively", "commits disabled", "conflict", "rollback after prepare", "journal insert fails", "prepare handler throws", "commit lock timeout", "aborted waiting for the commit lock", "aborted, lock free", "begin fails", "sync thread begin, lock busy", "slow write times out", "slow write aborted", "slow read times out", "slow read aborted"};
static atomic<bool> gAbort, gHeld, gGo; static bool handlerThrows;
static void onPrepare(SQLite& db, int64_t) { if (handlerThrows) STHROW("500 handler"); }
struct Run { World& w; uint64_t count; shim::ImagePtr image; };
// One transaction of the given handle that must succeed; adds its record.
static void good(World& w, int h, const string& what) {
    SQLite& db = *w.handles[h]; static int n = 0; string v = "g" + to_string(++n);
    Rec r; r.thread = h; r.committed = true;
    MC_CHECK(db.beginTransaction(), "begin refused after: %s", what.c_str());
    // a read with a value that may not be written
    SQResult q; MC_CHECK(db.read("SELECT random() IS NOT NULL, COUNT(*) FROM b;", q) && !q.empty() && q[0][0] == "1", "read refused after: %s", what.c_str());
    MC_CHECK(db.write("UPDATE b SET v = " + SQ(v) + " WHERE k = 1;"), "write refused after: %s", what.c_str());
    r.query = db.getUncommittedQuery();
    MC_CHECK(r.query == "UPDATE b SET v = " + SQ(v) + " WHERE k = 1;", "transaction starts with leftovers <%s> after: %s", r.query.c_str(), what.c_str());
    MC_CHECK(db.prepare(&r.id, &r.hash), "prepare refused after: %s", what.c_str());
    int c = db.commit("check"); MC_CHECK(c == SQLITE_OK, "commit gives %d after: %s", c, what.c_str());
    w.recs.push_back(r);
}
static int gEpisode = 0; static string K(int k) { return to_string(k + 100 * gEpisode); }
// The transaction that goes wrong. Returns false if the event does not apply.
static void bad(World& w, bool exclusive, bool before, int ev, int k, int after) {
    SQLite& db = *w.handles[0]; auto X = SQLite::TRANSACTION_TYPE::EXCLUSIVE, S = SQLite::TRANSACTION_TYPE::SHARED;
    bool ended = false; thread holder; gAbort = gHeld = gGo = false; handlerThrows = false; shim::onProgress = nullptr;
    auto hold = [&] { holder = thread([&] { SQLite& c = *w.handles[2]; Rec r; r.thread = 2; MC_CHECK(c.beginTransaction() && c.write("INSERT INTO b VALUES((SELECT MAX(k) FROM b)+1, 'holder');"), "holder"); r.query = c.getUncommittedQuery(); MC_CHECK(c.prepare(&r.id, &r.hash), "holder prepare"); gHeld = true; rt::waitUntil("go", [] { return __atomic_load_n((bool*) &gGo, __ATOMIC_SEQ_CST); }); int x = c.commit("check"); if (x == SQLITE_OK) { r.committed = true; w.recs.push_back(r); } else c.rollback(); });
        rt::waitUntil("held", [] { return __atomic_load_n((bool*) &gHeld, __ATOMIC_SEQ_CST); }); };
    bool thrown = false; const char* expect = nullptr;
    try {
        if (ev == BEGIN_FAILS) { shim::setBusyBegin([] { return true; }); bool b = false; try { b = db.beginTransaction(exclusive ? X : S); } catch (const SException&) {} shim::setBusyBegin(nullptr); MC_CHECK(!b, "begin succeeded"); db.rollback(); return; }
        if (ev == SYNC_BEGIN) { hold(); isSyncThread = true; try { db.beginTransaction(X); } catch (const SException&) { thrown = true; } isSyncThread = false; MC_CHECK(thrown, "sync thread waited for the commit lock"); db.rollback(); gGo = true; holder.join(); return; }
        MC_CHECK(db.beginTransaction(exclusive ? X : S), "begin");
        if (before) MC_CHECK(db.write("INSERT INTO a VALUES(" + K(10) + ", 'before" + K(0) + "');"), "write before");
        uint64_t id; string hash;
        switch (ev) {
            case NONE: break;
            case SYNTAX: MC_CHECK(!db.write("UPDATE a SET;"), "nonsense accepted"); break;
            case CONSTRAINT: expect = "constraint"; db.write("INSERT INTO a VALUES(1, 'w');"); break;
            case CONSTRAINT_ROLLBACK: expect = "constraint"; db.write("INSERT OR ROLLBACK INTO a VALUES(1, 'w');"); break;
            case DENIED: MC_CHECK(!db.write("INSERT INTO a VALUES(" + K(20) + ", random());"), "random() written"); break;
            case AUTHORIZER: db.setAuthorizer([](int action, const char* t, const char*, const char*, const char*) { return !(action == SQLITE_INSERT && string(t) == "a"); }); MC_CHECK(!db.write("INSERT INTO a VALUES(" + K(21) + ", 'w');"), "authorizer ignored"); db.setAuthorizer(nullptr); break;
            case BADREAD: { SQResult q; MC_CHECK(!db.read("SELECT * FROM nothere;", q), "read of nothing"); break; }
            case MULTI: expect = "constraint"; db.write("INSERT INTO a VALUES(" + K(22) + ", 'first" + K(0) + "'); INSERT INTO a VALUES(1, 'second');"); break;
            case WRITE_LATE: expect = "timeout"; db.setTimeout(1ul); db.write("INSERT INTO a VALUES(" + K(23) + ", 'late" + K(0) + "');"); break;
            case READ_LATE: { expect = "timeout"; SQResult q; db.setTimeout(1ul); db.read("SELECT * FROM a;", q); break; }
            case BEGIN_AGAIN: expect = "begin"; db.beginTransaction(S); break;
            case BEGIN_AGAIN_EXCL: expect = "begin"; db.beginTransaction(X); break;
            case COMMIT_OFF: { MC_CHECK(db.prepare(&id, &hash), "prepare"); w.base->setCommitEnabled(false); int c = db.commit("check"); MC_CHECK(c == SQLite::COMMIT_DISABLED, "commit with commits disabled gave %d", c); break; }
            case CONFLICT: if (exclusive) break; { SQResult q; MC_CHECK(db.read("SELECT * FROM b;", q), "read"); good(w, 1, "nothing"); if (!before) MC_CHECK(db.write("UPDATE b SET v = 'mine' WHERE k = 2;"), "write"); else MC_CHECK(db.write("UPDATE a SET v = v || 'c' WHERE k = " + K(10) + ";"), "write");
                MC_CHECK(db.prepare(&id, &hash), "prepare"); int c = db.commit("check"); MC_CHECK(c == SQLITE_BUSY_SNAPSHOT, "conflicting commit gave %d", c); break; }
            case PREPARE_ROLLBACK: MC_CHECK(db.prepare(&id, &hash), "prepare"); break;
            case PREPARE_FAILS: { int n = k; shim::onStep = [n](sqlite3*, const char* sql) { return strncmp(sql, "INSERT INTO journal", 19) == 0 ? (n ? SQLITE_FULL : SQLITE_INTERRUPT) : 0; }; bool p = db.prepare(&id, &hash); shim::onStep = nullptr; MC_CHECK(!p, "prepare succeeded without journal entry"); break; }
            case HANDLER_THROWS: handlerThrows = true; db.setOnPrepareHandler(onPrepare); db.enablePrepareNotifications(true); expect = "handler"; db.prepare(&id, &hash); break;
            case LOCK_TIMEOUT: if (exclusive) break; { hold(); MC_CHECK(!db.prepare(&id, &hash, chrono::milliseconds(k ? 2500 : 3)), "prepare got a held lock"); break; }
            case LOCK_ABORT_WAITING: if (exclusive) break; { hold(); gAbort = true; MC_CHECK(!db.prepare(&id, &hash, chrono::seconds(100), &gAbort), "prepare got a held lock"); break; }
            case ABORT_FREE: if (exclusive) break; { gAbort = true; MC_CHECK(!db.prepare(&id, &hash, chrono::seconds(100), &gAbort), "prepare ignored the abort flag"); break; }
            case SLOW_WRITE_TIMEOUT: case SLOW_WRITE_ABORT: case SLOW_READ_TIMEOUT: case SLOW_READ_ABORT: {
                bool abort = ev == SLOW_WRITE_ABORT || ev == SLOW_READ_ABORT; int at = k; uint64_t seen = 0;
                expect = "interrupt"; if (abort) db.setAbortRef(gAbort); else db.setTimeout(1000000ul);
                shim::onProgress = [&seen, at, abort] { if ((int) seen++ == at * 3) { if (abort) gAbort = true; else rt::advanceUs(2000000); } };
                if (ev == SLOW_READ_TIMEOUT || ev == SLOW_READ_ABORT) { SQResult q; db.read("SELECT /*slow*/ x.k + y.k, x.v || y.v FROM a x, b y ORDER BY 2;", q); }
                else db.write("UPDATE /*slow*/ b SET v = v || (SELECT GROUP_CONCAT(v) FROM a);");
                expect = nullptr;      // it finished before the moment chosen
                break; }
        }
    } catch (const SQLite::constraint_error&) { thrown = true; MC_CHECK(expect && string(expect) == "constraint", "unexpected constraint error"); }
    catch (const SQLite::timeout_error&) { thrown = true; MC_CHECK(expect && (string(expect) == "timeout" || string(expect) == "interrupt"), "unexpected timeout"); }
    catch (const SException& e) { thrown = true; MC_CHECK(expect, "unexpected exception %s", e.what()); }
    MC_CHECK(!expect || thrown, "%s was not reported", expect);
    shim::onProgress = nullptr;
    // what a caller does: give up this transaction, one way or the other
    if (after == 2 && !ended && !holder.joinable()) { Rec r; r.thread = 0; bool done = false; try { if (db.insideTransaction() && db.getUncommittedHash().empty()) { r.query = db.getUncommittedQuery(); if (db.prepare(&r.id, &r.hash)) { done = true; int c = db.commit("check"); MC_CHECK(c == SQLITE_OK || (c == SQLITE_BUSY_SNAPSHOT && !exclusive), "a commit after %s gives %d", NAMES[ev], c); r.committed = c == SQLITE_OK; if (r.committed) w.recs.push_back(r); } } } catch (const SException&) {} catch (const SQLite::timeout_error&) {} (void) done; }
    if (after == 1) { try { if (db.beginTransaction()) {} } catch (const SException&) {} }
    db.rollback(); if (k & 1) db.rollback();
    if (ev == COMMIT_OFF) { w.base->setCommitEnabled(true); }
    db.clearTimeout(); db.clearAbortRef(); db.enablePrepareNotifications(false); gAbort = false;
    if (holder.joinable()) { gGo = true; holder.join(); }
}
static void episodes(int n, bool fine) {
    World w(3, 0, SCHEMA);
    { rt::NoPoints np; shim::progressOps = 1; w.handles.clear(); for (int i = 0; i < 3; i++) w.handles.emplace_back(new SQLite(*w.base)); }
    string what;
    for (int e = 0; e < n; e++) {
        int ev = mc::choose(EVENTS, "event"); bool few = !mc::thorough() && n > 1;      // quick: two failures in a row in fewer surroundings
        bool exclusive = mc::choose(2, "exclusive"), before = (!few || e) && mc::choose(2, "write before"); int again = !few || !e ? mc::choose(3, "afterwards") : 0; static const char* AFTER[] = {"", ", begin again", ", commit anyway"};
        int k = ev >= SLOW_WRITE_TIMEOUT ? fine ? mc::choose(40, "moment") : (mc::choose(few ? 1 : 3, "moment") * 9 + (few ? 9 : 0)) : ev == PREPARE_FAILS || ev == LOCK_TIMEOUT ? mc::choose(2, "kind") : 0;
        what += string(what.empty() ? "" : ", ") + NAMES[ev] + (exclusive ? " (exclusive)" : "") + (before ? " after a write" : "") + (k ? " " + to_string(k) : "") + AFTER[again];
        mc::note("%s", what.c_str());
        auto im = shim::image(w.file); uint64_t n0 = w.base->getCommitCount(); size_t recs = w.recs.size();
        gEpisode = e; bad(w, exclusive, before, ev, k, again);
        if (w.recs.size() == recs) { MC_CHECK(shim::image(w.file) == im, "the database changed although the transaction ended with: %s", what.c_str()); MC_CHECK(w.base->getCommitCount() == n0, "the commit count changed after: %s", what.c_str()); }
        MC_CHECK(!w.handles[0]->insideTransaction(), "still inside a transaction after: %s", what.c_str());
        // another thread on another handle is not held up
        thread t([&] { good(w, 1, what); }); t.join();
        if (e == n - 1 || (!few && mc::choose(2, "use in between"))) good(w, 0, what);
        mc::compared(4);
    }
    thread t([&] { good(w, 2, what); }); t.join();
    for (auto& r : w.recs) r.txn = 0;
    mc::outcome(checkWorld(w, false) + to_string(w.recs.size())); mc::state(what); mc::transition(n);
}
void mc::registerScenarios() {
    bool T = thorough();
    Options o; o.concurrent = true; o.maxSteps = 60000; o.bounds = {0};
    add("one failing transaction, every moment", [] { episodes(1, true); }, o);
    add("two failing transactions", [] { episodes(2, false); }, o);
    if (T) add("two failing transactions, every moment", [] { episodes(2, true); }, o);
    Options p = o; p.bounds = T ? vector<int>{0, 1, 2} : vector<int>{0, 1};
    add("one failing transaction, preempted", [] { episodes(1, false); }, p);
    setRuleText("kind, moment and surroundings of the failure");
}
