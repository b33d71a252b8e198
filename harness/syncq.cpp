// C02: the poll-able work queue. Real code: libstuff/SSynchronizedQueue.h (instantiated here, instrumented).
#include "common.h"
#include <libstuff/SSynchronizedQueue.h>
#include <poll.h>
#include <fcntl.h>
enum { PUSH = 1, POP, SIZE, EMPTY, FRONT, CLEAR, POLL, EACH };
typedef SSynchronizedQueue<string> Q;
static long val(const string& s) { return strtol(s.c_str() + 4, nullptr, 10); }
static string mk(long v) { return "item" + to_string(v) + "-padding-so-that-it-is-on-the-heap"; }

struct W {
    Q q;
    void push(long v) { auto id = rt::opBegin(PUSH, v); q.push(mk(v)); rt::opEnd(id); }
    long pop() {
        auto id = rt::opBegin(POP); long r;
        try { string s = q.pop(); r = val(s); if (s != mk(r)) r = -9; } catch (const out_of_range&) { r = 0; }
        rt::opEnd(id, r); return r; }
    long size() { auto id = rt::opBegin(SIZE); long r = q.size(); rt::opEnd(id, r); return r; }
    long empty() { auto id = rt::opBegin(EMPTY); long r = q.empty(); rt::opEnd(id, r); return r; }
    void clear() { auto id = rt::opBegin(CLEAR); q.clear(); rt::opEnd(id); }
    long front() { auto id = rt::opBegin(FRONT); long r; try { r = val(q.front()); } catch (const out_of_range&) { r = 0; } rt::opEnd(id, r); return r; }
    long each() { auto id = rt::opBegin(EACH); long r = 0; q.each([&](string& s) { r = r * 100 + val(s); }); rt::opEnd(id, r); return r; }
    bool signalled(int timeout = 0) { fd_map m; q.prePoll(m); vector<pollfd> p; for (auto& e : m) p.push_back(e.second); return poll(p.data(), p.size(), timeout) > 0; }
};

// Is there a sequential order of the recorded operations, respecting real time, in which every result is right?
struct Lin {
    vector<rt::Op> ops; set<pair<uint64_t, vector<long>>> seen;
    bool go(uint64_t done, vector<long>& q) {
        if (done == (1ull << ops.size()) - 1) return true;
        if (!seen.insert({done, q}).second) return false;
        uint64_t minEnd = UINT64_MAX; for (size_t i = 0; i < ops.size(); i++) if (!(done >> i & 1)) minEnd = min(minEnd, ops[i].end);
        for (size_t i = 0; i < ops.size(); i++) if (!(done >> i & 1) && ops[i].start < minEnd) {
            auto& o = ops[i]; vector<long> n = q; bool ok = false;
            switch (o.op) {
                case PUSH: n.push_back(o.arg); ok = true; break;
                case POP: if (q.empty()) ok = o.res == 0; else { ok = o.res == q[0]; if (ok) n.erase(n.begin()); } break;
                case SIZE: ok = o.res == (long) q.size(); break;
                case EMPTY: ok = o.res == (long) q.empty(); break;
                case FRONT: ok = o.res == (q.empty() ? 0 : q[0]); break;
                case EACH: { long r = 0; for (long v : q) r = r * 100 + v; ok = o.res == r; break; }
                case CLEAR: n.clear(); ok = true; break;
            }
            if (ok && go(done | 1ull << i, n)) return true;
        }
        return false;
    }
};
static string histStr() { string s; for (auto& o : rt::ops()) s += to_string(o.fiber) + ":" + to_string(o.op) + "(" + to_string(o.arg) + ")=" + to_string(o.res) + " "; return s; }
static void linearizable() {
    Lin l; for (auto& o : rt::ops()) if (o.op != POLL) l.ops.push_back(o);
    vector<long> q; mc::compared(l.ops.size());
    MC_CHECK(l.go(0, q), "no sequential order of the operations explains their results: %s", histStr().c_str());
    mc::outcome(histStr()); mc::state(histStr());
}

// producers + consumers using plain operations
static void plain(int producers, int each, const vector<vector<int>>& others) {
    quietLogs();
    auto w = make_shared<W>();
    vector<thread> ts;
    for (int p = 0; p < producers; p++) ts.emplace_back([=] { for (int i = 0; i < each; i++) w->push(10 * (p + 1) + i); });
    for (auto& prog : others) ts.emplace_back([=] { for (int op : prog) switch (op) { case POP: w->pop(); break; case SIZE: w->size(); break; case EMPTY: w->empty(); break; case CLEAR: w->clear(); break; case EACH: w->each(); break; } });
    for (auto& t : ts) t.join();
    { rt::NoPoints np; while (w->pop() > 0) {} w->size(); w->empty(); }
    linearizable();
}
// a poll loop as in the server: poll, drain the notification, then take everything; it must never sleep on work
static void poller(int producers, int each, bool many) {
    quietLogs();
    auto w = make_shared<W>();
    auto total = producers * each; auto got = make_shared<int>(0);
    thread c([=] {
        int loops = 0;
        while (*got < total) {
            fd_map m; w->q.prePoll(m);
            vector<pollfd> p; for (auto& e : m) p.push_back(e.second);
            int r = poll(p.data(), p.size(), -1);     // no timeout: a lost wake-up is a deadlock
            MC_CHECK(r > 0, "poll returned without an event");
            fd_map done; for (auto& e : p) done[e.fd] = e;
            w->q.postPoll(done);
            MC_CHECK(++loops < 20, "poller keeps being woken");
            if (many) { while (long v = w->pop()) { MC_CHECK(v > 0, "damaged item"); (*got)++; } }
            else while (!w->empty()) { MC_CHECK(w->pop() > 0, "lost item"); (*got)++; }
        }
    });
    vector<thread> ts;
    for (int p = 0; p < producers; p++) ts.emplace_back([=] { for (int i = 0; i < each; i++) w->push(10 * (p + 1) + i); });
    for (auto& t : ts) t.join();
    c.join();
    { rt::NoPoints np;
        MC_CHECK(w->pop() == 0, "more items than were pushed");
        // drained: after one more postPoll no notification is left over
        fd_map m; w->q.prePoll(m); vector<pollfd> p; for (auto& e : m) p.push_back(e.second);
        if (poll(p.data(), p.size(), 0) > 0) { fd_map d; for (auto& e : p) d[e.fd] = e; w->q.postPoll(d); }
        MC_CHECK(!w->signalled(), "the queue still signals after its notifications were drained and nothing is queued");
    }
    linearizable();
}
// sequential: every operation sequence, including poll state, against a plain model
static void sequential() {
    quietLogs();
    W w; vector<long> q; int notes = 0; long next = 1; string key;
    int depth = mc::thorough() ? 8 : 7;
    for (int i = 0; i < depth; i++) {
        int op = mc::choose(9, "operation"); key += to_string(op);
        switch (op) {
            case 0: w.push(next); q.push_back(next++); notes++; break;
            case 1: { long r = w.pop(); MC_CHECK(r == (q.empty() ? 0 : q[0]), "pop returned %ld after %s", r, key.c_str()); if (!q.empty()) q.erase(q.begin()); break; }
            case 2: MC_CHECK(w.size() == (long) q.size() && w.empty() == (long) q.empty(), "size/empty wrong after %s", key.c_str()); break;
            case 3: MC_CHECK(w.front() == (q.empty() ? 0 : q[0]), "front wrong after %s", key.c_str()); break;
            case 4: w.clear(); q.clear(); break;
            case 5: { bool s = w.signalled(); MC_CHECK(s == (notes > 0), "poll says %d with %d pushes not yet drained (%s)", s, notes, key.c_str()); break; }
            case 6: { fd_map m; w.q.prePoll(m); vector<pollfd> p; for (auto& e : m) p.push_back(e.second); poll(p.data(), p.size(), 0); fd_map d; for (auto& e : p) d[e.fd] = e; w.q.postPoll(d); notes = 0; break; }
            case 7: { fd_map m; w.q.prePoll(m); for (auto& e : m) e.second.revents = 0; w.q.postPoll(m); break; }  // woken for another descriptor: must not eat the notification
            case 8: { long r = w.each(), e = 0; for (long v : q) e = e * 100 + v; MC_CHECK(r == e, "each visited %ld, expected %ld", r, e); break; }
        }
        mc::state(to_string(q.size()) + "/" + to_string(notes) + "/" + key.substr(key.size() > 2 ? key.size() - 2 : 0)); mc::compared();
    }
}
void mc::registerScenarios() {
    bool T = thorough();
    Options o; o.concurrent = true; o.raceDetect = true; o.bounds = T ? vector<int>{0, 1, 2, 3} : vector<int>{0, 1, 2};
    Options s; add("sequential", sequential, s);
    add("2 producers, consumer", [] { plain(2, 2, {{POP, POP}}); }, o);
    add("2 producers, inspectors", [] { plain(2, 1, {{SIZE, POP, EMPTY}, {EACH, POP}}); }, o);
    add("producer, 2 consumers, clear", [] { plain(1, 2, {{POP, POP}, {CLEAR, SIZE}}); }, o);
    add("poller, 2 producers", [] { poller(2, 1, false); }, o);
    add("poller, 1 producer, 3 items", [] { poller(1, 3, true); }, o);
    if (T) { add("poller, 3 producers", [] { poller(3, 1, false); }, o); add("3 producers, 2 consumers", [] { plain(3, 1, {{POP, POP}, {POP, SIZE}}); }, o); }
    setRuleText("operation histories and results of the queue under every schedule within the preemption bound");
}
