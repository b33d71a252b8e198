// C05: per-page conflict locks. Real code: ConflictLockGuard.cpp (its static tables are fresh in every execution).
#include "common.h"
#include <ConflictLockGuard.h>
#include <optional>
enum { HOLD = 1 };
static map<uint64_t, int>* holders;
// prog: lists of pages to lock one after the other
static void run(int prefill, const vector<vector<uint64_t>>& progs, bool nested, bool fresh = false) {
    quietLogs();
    { rt::NoPoints np; for (int i = 0; i < prefill; i++) ConflictLockGuard g(1000 + i);
      if (!prefill && !fresh) for (int i = 1; i < 10; i++) ConflictLockGuard g(i); }   // same table state at the start of every execution of this process
    static int inside[2048]; for (int& x : inside) x = 0;
    vector<thread> ts;
    for (auto& p : progs) ts.emplace_back([=] {
        optional<ConflictLockGuard> outer;
        for (uint64_t page : p) {
            if (nested && page == p[0]) { outer.emplace(page); rt::opEnd(rt::opBegin(HOLD, page)); if (page) MC_CHECK(++inside[page] == 1, "two threads hold the lock of page %lu", page); continue; }
            ConflictLockGuard g(page);
            auto id = rt::opBegin(HOLD, page);
            if (page) MC_CHECK(++inside[page] == 1, "two threads hold the lock of page %lu", page);
            rt::point("critical section");
            if (page) MC_CHECK(--inside[page] == 0, "two threads hold the lock of page %lu", page);
            rt::opEnd(id);
        }
        if (outer) { if (p[0]) --inside[p[0]]; outer.reset(); }
    });
    for (auto& t : ts) t.join();   // a lock never freed or destroyed in use shows as a deadlock
    rt::NoPoints np;
    // everything is free again
    set<uint64_t> pages; for (auto& p : progs) for (auto x : p) pages.insert(x);
    for (auto x : pages) { ConflictLockGuard g(x); }
    string h; for (auto& o : rt::ops()) h += to_string(o.fiber) + ":" + to_string(o.arg) + " "; mc::outcome(h); mc::state(h); mc::compared(rt::ops().size());
}
// independent pages and page 0 never wait: a thread holding page 7 waits until the others are done
static void independent(int prefill) {
    quietLogs();
    { rt::NoPoints np; for (int i = 0; i < prefill; i++) ConflictLockGuard g(1000 + i); }
    thread a([=] { ConflictLockGuard g(7); rt::waitUntil("others to finish", [] { return rt::ops().size() == 2; }); });
    thread b([=] { { ConflictLockGuard g(8); } { ConflictLockGuard g(1001); } rt::opEnd(rt::opBegin(HOLD)); });
    thread c([=] { ConflictLockGuard z(0), y(0); { ConflictLockGuard g(9); } rt::opEnd(rt::opBegin(HOLD)); });
    a.join(); b.join(); c.join(); mc::state(to_string(rt::steps())); mc::compared();
}
// users of page 5 while another thread fills the table with pages until every unused lock is pruned
static void pruning(int users) {
    quietLogs();
    { rt::NoPoints np; for (int i = 0; i < 499; i++) ConflictLockGuard g(1000 + i); }
    static int inside; inside = 0; vector<thread> ts;
    for (int u = 0; u < users; u++) ts.emplace_back([] { ConflictLockGuard g(5); rt::opEnd(rt::opBegin(HOLD, 5)); MC_CHECK(++inside == 1, "two threads hold the lock of page 5"); rt::point("critical section"); MC_CHECK(--inside == 0, "two threads hold the lock of page 5"); });
    ts.emplace_back([] { rt::point("start pruning"); { rt::NoPoints np; for (int i = 0; i < 502; i++) ConflictLockGuard g(2000 + i); } rt::point("pruned"); });
    for (auto& t : ts) t.join();
    rt::NoPoints np; { ConflictLockGuard g(5); }
    string h; for (auto& o : rt::ops()) h += to_string(o.fiber) + " "; mc::outcome(h); mc::state(h + to_string(rt::steps())); mc::compared(rt::ops().size());
}
void mc::registerScenarios() {
    bool T = thorough();
    Options o; o.concurrent = true; o.raceDetect = true; o.isolate = true; o.maxSteps = 20000; o.bounds = T ? vector<int>{0, 1, 2, 3} : vector<int>{0, 1, 2};
    Options f = o; f.bounds = {0, 1}; add("fresh tables", [] { run(0, {{5, 6}, {5}, {6, 5}}, false, true); }, f);
    Options iso = o; o.isolate = false;
    add("3 threads, 1 page", [] { run(0, {{5}, {5}, {5}}, false); }, o);
    add("3 threads, 2 pages, reuse", [] { run(0, {{5, 6, 5}, {6, 5}, {5}}, false); }, o);
    add("zero and pages", [] { run(0, {{0, 5}, {0, 5}, {0}}, false); }, o);
    add("independent pages", [] { independent(0); }, f);
    Options p = iso; p.bounds = T ? vector<int>{0, 1, 2} : vector<int>{0, 1};
    add("pruning at 500", [] { run(500, {{5, 6, 1000}, {1001, 5}, {1499, 1000}}, false); }, p);
    add("pruning at 501 with held locks", [] { run(499, {{5, 1002, 7}, {1000, 5}, {1001, 6}}, true); }, p);
    // the first page is the least recently used one when another thread prunes, whatever the number of its users
    add("users of one page against pruning", [] { run(498, {{5}, {5, 1497}, {1, 2, 3, 5}}, false); }, p);
    add("many users of one page against pruning", [] { pruning(3); }, p);
    add("independent pages, pruning", [] { independent(500); }, p);
    setRuleText("order of lock acquisitions under every schedule within the bound, fresh lock tables each time");
}
