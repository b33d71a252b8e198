// C06: the database handle pool. Real code: SQLitePool.cpp, SQLite.cpp.
#include "sqlcommon.h"
enum { GOT = 1, HELD };
static void run(size_t maxDBs, int threads, int rounds, bool create, bool doubleRelease) {
    sqlSetup(); rt::setAtomicPoints(false); shim::pointsEnabled = false;
    string f; unique_ptr<SQLitePool> pool; { rt::NoPoints np; f = seededFile(); pool.reset(new SQLitePool(maxDBs, f, 0, 1000, 0)); }
    static map<void*, int> holder; static map<size_t, int> idx; static set<void*> seen; static int held; holder.clear(); idx.clear(); seen.clear(); held = 0;
    vector<thread> ts; SQLitePool* P = pool.get();
    for (int t = 0; t < threads; t++) ts.emplace_back([=] {
        for (int r = 0; r < rounds; r++) {
            size_t id = rt::opBegin(GOT, t);
            size_t i = P->getIndex(create || t == 0);
            rt::opEnd(id, i);
            { rt::NoPoints np; MC_CHECK(++idx[i] == 1, "handle %zu given to two holders", i); }
            {
                SQLiteScopedHandle h(*P, i);
                SQLite* db = &h.db();
                { rt::NoPoints np; MC_CHECK(++holder[db] == 1, "one database handle object is shared by two holders"); MC_CHECK(db != &P->getBase(), "the base handle was handed out");
                  seen.insert(db); MC_CHECK(seen.size() <= maxDBs, "%zu handles exist, limit is %zu", seen.size(), maxDBs); held++; MC_CHECK(held <= (int) maxDBs, "more holders than handles"); }
                if (r == 0) { string s = db->read("SELECT 1;"); MC_CHECK(s == "1", "handle unusable"); }
                rt::point("holding");
                { rt::NoPoints np; --holder[db]; --idx[i]; held--; }
                if (doubleRelease || t == 1) h.release();
                if (doubleRelease) h.release();
            }
        }
    });
    for (auto& t : ts) t.join();     // a waiter never woken shows as a deadlock
    rt::NoPoints np; rt::setAtomicPoints(false);
    string o; for (auto& op : rt::ops()) o += to_string(op.fiber) + ":" + to_string(op.res) + " "; mc::outcome(o); mc::state(o); mc::compared(rt::ops().size());
    // Every handle is available again: the pool can be drained to its full size without waiting.
    vector<unique_ptr<SQLiteScopedHandle>> all; set<void*> objs;
    size_t can = maxDBs > 1 ? maxDBs - 1 : 1;
    for (size_t k = 0; k < can; k++) { all.emplace_back(new SQLiteScopedHandle(*P, P->getIndex())); MC_CHECK(objs.insert(&all.back()->db()).second, "handle returned twice"); }
    all.clear(); pool.reset();
}
void mc::registerScenarios() {
    bool T = thorough();
    Options o; o.concurrent = true; o.raceDetect = true; o.maxSteps = 20000; o.bounds = T ? vector<int>{0, 1, 2, 3, 4} : vector<int>{0, 1, 2, 3};
    Options p = o; p.bounds = T ? vector<int>{0, 1, 2, 3} : vector<int>{0, 1, 2};
    add("1 usable handle, 2 threads", [] { run(2, 2, 2, true, false); }, o);
    add("1 usable handle, 3 threads, double release", [] { run(2, 3, 1, true, true); }, p);
    add("2 usable handles, 3 threads", [] { run(3, 3, mc::thorough() ? 2 : 1, false, false); }, p);
        Options q = o; q.bounds = T ? vector<int>{0, 1, 2} : vector<int>{0, 1};
    add("2 usable handles, 4 threads, double release", [] { run(3, 4, 1, true, true); }, q);
    setRuleText("order in which the threads obtained handles under every schedule within the bound");
}
