// C03: the scheduled command queue. Real code: BedrockCommandQueue.cpp, BedrockCommand.cpp.
#include "common.h"
#include <BedrockCommandQueue.h>
static const int64_t MS = 1000;
static uint64_t base;   // virtual time origin of the execution
struct Item { int id; uint64_t sched, timeout; };
static unique_ptr<BedrockCommand> mk(int id, uint64_t sched, int timeoutMs) {
    SData r("Cmd" + to_string(id)); r["requestID"] = "r"; r["commandExecuteTime"] = to_string(sched); r["timeout"] = to_string(timeoutMs);
    return make_unique<BedrockCommand>(SQLiteCommand(move(r)), nullptr);
}
static int idOf(const unique_ptr<BedrockCommand>& c) { return c ? atoi(c->request.methodLine.c_str() + 3) : -1; }
static string rel(uint64_t t) { return to_string((int64_t) (t - base) / 500 * 0.5).substr(0, 5); }

// grid: pushes pick schedule and time-out from a few fixed moments, so that ties of either kind are common
static void sequential(int depth, bool grid) {
    quietLogs(); base = rt::nowUs();
    auto made = make_unique<BedrockCommandQueue>(); auto& q = *made;
    vector<Item> m; int next = 1; string trace;
    auto fix = [&] { uint64_t n = rt::nowUs() - base; rt::advanceUs((n + 999) / 1000 * 1000 - n); };   // back to a whole millisecond: items lie on half milliseconds
    for (int step = 0; step < depth; step++) {
        fix(); uint64_t now = rt::nowUs();
        int op = mc::choose(grid ? 11 : 12, "operation");
        if (grid && op < 9) {
            static const int S[3] = {-3, 6, 9}, T[3] = {4, 7, 40};
            Item i{next++, base + S[op / 3] * MS + 500, base + T[op % 3] * MS + 500};
            q.push(mk(i.id, i.timeout - 9 * MS, 9), i.sched); m.push_back(i); trace += " push" + to_string(i.id) + "@" + rel(i.sched) + "/" + rel(i.timeout);
        } else if (grid && op == 10) { rt::advanceUs(3 * MS); trace += " +3ms"; }
        else if (op < 6) {
            // due/future x generous/short/expired time-outs
            static const int S[6] = {-2, -2, 2, 2, -1, 4}, T[6] = {100, 1, 1, -3, 0, 50};
            Item i{next++, now + S[op] * MS + 500, now + S[op] * MS + 500 + T[op] * MS};
            bool custom = op == 4;      // schedule given by the caller instead of the command
            auto c = mk(i.id, custom ? now + 500 - 9 * MS : i.sched, custom ? 9 : T[op]);
            if (custom) { i.timeout = now + 500; q.push(move(c), i.sched); } else q.push(move(c));
            m.push_back(i); trace += " push" + to_string(i.id) + "@" + rel(i.sched) + "/" + rel(i.timeout);
        } else if (op == 6 || op == 7 || grid) {
            uint64_t wait = op == 6 || grid ? 1 : 3 * MS; int got = 0;
            try { got = idOf(q.get(wait)); } catch (const BedrockCommandQueue::timeout_error&) { got = 0; }
            uint64_t t1 = rt::nowUs();
            trace += (wait == 1 ? " get" : " wait3") + string("->") + to_string(got);
            // candidates at a given instant
            auto expect = [&](uint64_t t) { set<int> r; uint64_t b = UINT64_MAX; for (auto& i : m) if (i.timeout <= t) b = min(b, i.timeout);
                if (b != UINT64_MAX) { for (auto& i : m) if (i.timeout == b) r.insert(i.id); return r; }
                for (auto& i : m) if (i.sched <= t) b = min(b, i.sched);
                if (b != UINT64_MAX) for (auto& i : m) if (i.sched == b) r.insert(i.id);
                return r; };
            set<int> first = expect(now), last = expect(t1);
            if (!first.empty()) MC_CHECK(first.count(got), "get returned %d at once, but the queue owed %d:%s", got, *first.begin(), trace.c_str());
            else if (got == 0) { MC_CHECK(t1 - now >= wait, "get timed out after %lu us although asked to wait %lu us:%s", t1 - now, wait, trace.c_str());
                MC_CHECK(expect(now + wait - 2).empty(), "get timed out although command %d was ready:%s", *last.begin(), trace.c_str()); }
            else { bool ok = false; for (uint64_t t = now; t <= t1; t += 499) ok |= expect(t).count(got) > 0; ok |= last.count(got) > 0; MC_CHECK(ok, "get returned %d which was not the one to return at any moment of the wait:%s", got, trace.c_str()); }
            if (got) { size_t before = m.size(); for (size_t k = 0; k < m.size(); k++) if (m[k].id == got) { m.erase(m.begin() + k); break; } MC_CHECK(m.size() + 1 == before, "command %d returned twice:%s", got, trace.c_str()); }
        } else if (op == 8) { rt::advanceUs(3 * MS); trace += " +3ms"; }
        else if (op == 9) {
            q.abandonFutureCommands(1); trace += " abandon1";
            vector<Item> k; for (auto& i : m) if (i.sched <= now + MS + 100) k.push_back(i); m = k;
        } else if (op == 10) {
            auto l = q.getAll(); set<int> a, b; for (auto& c : l) a.insert(idOf(c)); for (auto& i : m) b.insert(i.id);
            MC_CHECK(a == b && l.size() == m.size(), "getAll returned %zu commands, expected %zu:%s", l.size(), m.size(), trace.c_str()); m.clear(); trace += " getAll";
        } else { q.clear(); m.clear(); trace += " clear"; }
        MC_CHECK(q.size() == m.size() && q.empty() == m.empty(), "size is %zu, expected %zu:%s", q.size(), m.size(), trace.c_str());
        auto lines = q.getRequestMethodLines(); multiset<string> a(lines.begin(), lines.end()), b; for (auto& i : m) b.insert("Cmd" + to_string(i.id));
        MC_CHECK(a == b, "getRequestMethodLines does not list the queued commands:%s", trace.c_str());
        string key; for (auto& i : m) key += rel(i.sched - rt::nowUs() + base) + "/" + rel(i.timeout - rt::nowUs() + base) + ";"; mc::state(key); mc::compared();
    }
    { // whatever is left comes out exactly once, once everything is due
        rt::advanceUs(1000 * MS);
        size_t n = m.size(); set<int> seen;
        uint64_t lastTimeout = 0;
        for (size_t i = 0; i < n; i++) { int g = 0; try { g = idOf(q.get(1)); } catch (const BedrockCommandQueue::timeout_error&) {} MC_CHECK(g && seen.insert(g).second, "a queued command was lost or repeated at the end (%d):%s", g, trace.c_str());
            for (auto& x : m) if (x.id == g) { MC_CHECK(x.timeout >= lastTimeout, "expired commands are not returned earliest first:%s", trace.c_str()); lastTimeout = x.timeout; } }
        MC_CHECK(q.empty(), "queue not empty at the end:%s", trace.c_str());
    }
    mc::outcome(trace.substr(0, 40));
}

enum { PUSH = 1, GET };
// producers x consumers; consumers wait without limit, so a lost wake-up is a deadlock
static void wake(int producers, int each, int consumers, uint64_t wait, bool expired) {
    quietLogs(); base = rt::nowUs();
    auto q = make_shared<BedrockCommandQueue>();
    int total = producers * each;
    vector<thread> ts;
    for (int c = 0; c < consumers; c++) ts.emplace_back([=] {
        int mine = total / consumers + (c < total % consumers);
        for (int i = 0; i < mine;) {
            uint64_t t0 = rt::nowUs(); auto id = rt::opBegin(GET); int g = 0;
            try { g = idOf(q->get(wait)); } catch (const BedrockCommandQueue::timeout_error&) {
                uint64_t w = rt::nowUs() - t0; MC_CHECK(w >= wait, "get timed out after %lu of %lu us", w, wait); }
            rt::opEnd(id, g);
            if (g) i++; else if (rt::ops().size() > 40) mc::fail("consumer never gets its command");
        }
    });
    for (int p = 0; p < producers; p++) ts.emplace_back([=] {
        for (int i = 0; i < each; i++) { auto c = mk(10 * (p + 1) + i, base - (expired ? 50 * MS : 5 * MS) + p * 100 + i, expired && (i & 1) ? 1 : 1000); auto id = rt::opBegin(PUSH, 10 * (p + 1) + i); q->push(move(c)); rt::opEnd(id); }
    });
    for (auto& t : ts) t.join();
    rt::NoPoints np;
    vector<int> outV; int timeouts = 0; auto out = &outV; for (auto& g : rt::ops()) if (g.op == GET) { if (g.res) outV.push_back(g.res); else timeouts++; }
    set<int> s(out->begin(), out->end());
    MC_CHECK((int) out->size() == total && (int) s.size() == total && q->empty(), "%zu commands handed out (%zu distinct), %d pushed", out->size(), s.size(), total);
    // a command available before the call began must not have been passed over by a time-out
    for (auto& g : rt::ops()) if (g.op == GET && g.res == 0) for (auto& p : rt::ops()) if (p.op == PUSH && p.end < g.start) {
        bool gone = false; for (auto& h : rt::ops()) if (h.op == GET && h.res == p.arg && h.start < g.end) gone = true;
        MC_CHECK(gone, "get timed out although command %ld was queued before it began", p.arg); }
    string h; for (int v : *out) h += to_string(v) + ","; mc::outcome(h); mc::state(h + to_string(timeouts)); mc::compared(total);
}
static void mixed() {   // getAll / abandon / size against get and push
    quietLogs(); base = rt::nowUs();
    auto q = make_shared<BedrockCommandQueue>(); 
    q->push(mk(1, base - 5 * MS, 1000)); q->push(mk(2, base + 60000 * MS, 100000));
    thread a([=] { try { rt::opEnd(rt::opBegin(GET), idOf(q->get(1000))); } catch (const BedrockCommandQueue::timeout_error&) { } });
    thread b([=] { q->push(mk(3, base - 4 * MS, 1000)); q->abandonFutureCommands(1000); });
    thread c([=] { q->size(); for (auto& x : q->getAll()) rt::opEnd(rt::opBegin(GET), idOf(x)); });
    a.join(); b.join(); c.join();
    rt::NoPoints np; for (auto& x : q->getAll()) rt::opEnd(rt::opBegin(GET), idOf(x));
    vector<int> outV; auto out = &outV; for (auto& g : rt::ops()) outV.push_back(g.res);
    multiset<int> s(out->begin(), out->end()); MC_CHECK(s.count(1) == 1 && s.count(3) == 1 && s.count(2) <= 1, "a command was lost or duplicated");
    string h; for (int v : *out) h += to_string(v) + ","; mc::outcome(h); mc::state(h); mc::compared();
}
void mc::registerScenarios() {
    bool T = thorough();
    Options s; s.concurrent = true; add("sequential", [] { sequential(mc::thorough() ? 6 : 5, false); }, s);
    add("sequential, ties", [] { sequential(mc::thorough() ? 6 : 5, true); }, s);
    Options o; o.concurrent = true; o.raceDetect = true; o.bounds = T ? vector<int>{0, 1, 2, 3} : vector<int>{0, 1, 2};
    add("2 producers, 2 waiting consumers", [] { wake(2, 1, 2, 0, false); }, o);
    add("1 producer, 3 commands, 2 timed consumers", [] { wake(1, 3, 2, 5000, true); }, o);
    add("2 producers, 1 timed consumer", [] { wake(2, 2, 1, 2000, true); }, o);
    add("getAll, abandon", mixed, o);
    if (T) add("3 producers, 3 waiting consumers", [] { wake(3, 1, 3, 0, false); }, o);
    setRuleText("queue contents relative to now (schedule/time-out of every item), and histories under every schedule within the bound");
}
