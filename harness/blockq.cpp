// C04: the blocking queue's rate limiter. Real code: BedrockBlockingCommandQueue.cpp (virtual clock).
#include "common.h"
#include <BedrockBlockingCommandQueue.h>
static unique_ptr<BedrockCommand> mk(int id, const string& ident, const string& name) {
    SData r(name); r["requestID"] = "r"; r["id"] = to_string(id); r["timeout"] = "100000000";
    auto c = make_unique<BedrockCommand>(SQLiteCommand(move(r)), nullptr); c->blockingQueueRateLimitIdentifier = ident; return c;
}
struct Dim {   // reference limiter of one dimension
    uint64_t threshold; struct S { uint64_t fin, el; }; map<string, vector<S>> done; map<string, uint64_t> until; set<string> tracked;
    void record(const string& k, uint64_t now, uint64_t el, uint64_t window, uint64_t dur) {
        if (k.empty() || !threshold) return;
        tracked.insert(k);
        if (until.count(k) && until[k] > now) return;
        done[k].push_back({now, el});
        // time spent inside [now - window, now]
        uint64_t tot = 0; uint64_t lo = now > window ? now - window : 0;
        for (auto& s : done[k]) { uint64_t a = s.fin > s.el ? s.fin - s.el : 0; uint64_t from = max(a, lo); if (s.fin > from) tot += s.fin - from; }
        if (tot > threshold) until[k] = now + dur;
    }
    bool blocked(const string& k, uint64_t now) const { auto it = until.find(k); return !k.empty() && it != until.end() && it->second > now; }
};
static const vector<string> IDS = {"", "a", "b"}, CMDS = {"X", "Y"};
static void sequential(int depth) {
    quietLogs(); rt::setClockTick(0);
    auto qp = make_unique<BedrockBlockingCommandQueue>(); auto& q = *qp;
    const uint64_t W = 100, D = 70; Dim id{50}, cm{80};
    int cfg = mc::choose(3, "limits"); if (cfg == 1) id.threshold = 0; if (cfg == 2) cm.threshold = 0;
    q.setWindow(W); q.setBlockDuration(D); q.setIdentifierThreshold(id.threshold); q.setCommandThreshold(cm.threshold);
    struct QI { int n; string ident, name; }; vector<QI> queued; int next = 1; string trace = "cfg" + to_string(cfg);
    int len = 1 + mc::choose(depth, "length");     // every prefix is an execution of its own; states are compared at its end
    for (int step = 0; step < len; step++) {
        int op = mc::choose(13, "operation"); uint64_t now = rt::nowUs();
        if (op < 5) {
            static const int who[5] = {1, 1, 2, 1, 0}, cmd[5] = {0, 0, 1, 1, 0}; static const uint64_t el[5] = {30, 51, 60, 20, 90};
            trace += " rec(" + IDS[who[op]] + CMDS[cmd[op]] + "," + to_string(el[op]) + ")";
            q.recordExecutionTime(IDS[who[op]], CMDS[cmd[op]], el[op]);
            id.record(IDS[who[op]], now, el[op], W, D); cm.record(CMDS[cmd[op]], now, el[op], W, D);
        } else if (op < 8) { static const int dt[3] = {19, 50, 101}; rt::advanceUs(dt[op - 5]); trace += " +" + to_string(dt[op - 5]); }
        else if (op < 11) {
            static const int who[3] = {1, 2, 0}, cmd[3] = {0, 0, 1};
            string I = IDS[who[op - 8]], N = CMDS[cmd[op - 8]]; bool exp = id.blocked(I, now) || cm.blocked(N, now), ref = false; int n = next++;
            try { q.push(mk(n, I, N)); } catch (const SException& e) { ref = true; MC_CHECK(SStartsWith(e.method, "503"), "refused with %s", e.method.c_str()); }
            trace += " push(" + I + N + ")";
            MC_CHECK(ref == exp, "push of (%s,%s) was %s but it %s blocked:%s", I.c_str(), N.c_str(), ref ? "refused" : "accepted", exp ? "is" : "is not", trace.c_str());
            if (!ref) queued.push_back({n, I, N});
        } else if (op == 11) {
            trace += " get";
            if (queued.empty()) { rt::setClockTick(1); try { q.get(1); MC_CHECK(false, "get returned something from an empty queue"); } catch (const BedrockCommandQueue::timeout_error&) {} rt::setClockTick(0); }
            else { auto c = q.get(1); QI e = queued[0]; queued.erase(queued.begin()); MC_CHECK(c && c->request["id"] == to_string(e.n), "get did not return the oldest command:%s", trace.c_str());
                bool b = id.blocked(e.ident, now) || cm.blocked(e.name, now);
                MC_CHECK(c->complete == b, "dequeued command %s, but it %s blocked:%s", c->complete ? "answered without running" : "to be run", b ? "is" : "is not", trace.c_str());
                MC_CHECK(!b || SStartsWith(c->response.methodLine, "503"), "answered with %s", c->response.methodLine.c_str()); }
        } else {
            bool all = mc::choose(2, "clear all"); trace += all ? " clear" : " clearRateLimits";
            if (all) { q.clear(); queued.clear(); } else { size_t n = q.clearRateLimits(); MC_CHECK(n == id.tracked.size() + cm.tracked.size(), "clearRateLimits says %zu, expected %zu", n, id.tracked.size() + cm.tracked.size()); }
            id.done.clear(); id.until.clear(); id.tracked.clear(); cm.done.clear(); cm.until.clear(); cm.tracked.clear();
        }
        if (step + 1 < len) continue;
        now = rt::nowUs();
        for (auto& i : IDS) for (auto& c : CMDS) { bool e = id.blocked(i, now) || cm.blocked(c, now), g = q.isBlocked(i, c); MC_CHECK(e == g, "(%s,%s) %s blocked, expected %s:%s", i.c_str(), c.c_str(), g ? "is" : "is not", e ? "blocked" : "not blocked", trace.c_str()); }
        STable st = q.getState(); auto lst = [](const string& s) { auto l = SParseList(s); return multiset<string>(l.begin(), l.end()); };
        multiset<string> bi, bc; for (auto& i : IDS) if (id.blocked(i, now)) bi.insert(i); for (auto& c : CMDS) if (cm.blocked(c, now)) bc.insert(c);
        MC_CHECK(lst(st["blockingBlockedIdentifiers"]) == bi && lst(st["blockingBlockedCommands"]) == bc, "status lists other blocked names than are blocked:%s", trace.c_str());
        MC_CHECK(q.size() == queued.size(), "queue holds %zu commands, expected %zu:%s", q.size(), queued.size(), trace.c_str());
        string key = to_string(cfg) + "q" + to_string(queued.size()); for (Dim* d : {&id, &cm}) { for (auto& p : d->done) { key += p.first; for (auto& s : p.second) if (now - s.fin < W) key += to_string(now - s.fin) + "-" + to_string(s.el) + ","; } for (auto& p : d->until) if (p.second > now) key += "!" + p.first + to_string(p.second - now); key += "|"; }
        mc::state(key); mc::compared(8);
    }
    mc::outcome(trace.substr(0, 30));
}
// deeper histories of completions and time for one identifier
static void limiter(int depth) {
    quietLogs(); rt::setClockTick(0);
    auto qp = make_unique<BedrockBlockingCommandQueue>(); auto& q = *qp; const uint64_t W = 100, D = 70; Dim id{50}; Dim cm{75}; string trace;
    q.setWindow(W); q.setBlockDuration(D); q.setIdentifierThreshold(50); q.setCommandThreshold(75);
    int len = 1 + mc::choose(depth, "length");
    for (int i = 0; i < len; i++) {
        int op = mc::choose(6, "operation"); uint64_t now = rt::nowUs();
        static const int arg[6] = {20, 26, 51, 30, 69, 100};
        if (op < 3) { q.recordExecutionTime("a", "X", arg[op]); id.record("a", now, arg[op], W, D); cm.record("X", now, arg[op], W, D); trace += " rec" + to_string(arg[op]); }
        else { rt::advanceUs(arg[op]); trace += " +" + to_string(arg[op]); }
    }
    uint64_t now = rt::nowUs(); bool bi = id.blocked("a", now), bc = cm.blocked("X", now);
    MC_CHECK(q.isBlocked("a", "Z") == bi, "identifier %s blocked, wrong after%s", bi ? "is not" : "is", trace.c_str());
    MC_CHECK(q.isBlocked("z", "X") == bc, "command name %s blocked, wrong after%s", bc ? "is not" : "is", trace.c_str());
    string key; for (Dim* d : {&id, &cm}) { for (auto& p : d->done) for (auto& s : p.second) if (now - s.fin < W) key += to_string(now - s.fin) + "-" + to_string(s.el) + ","; for (auto& p : d->until) if (p.second > now) key += "!" + to_string(p.second - now); key += "|"; }
    mc::state(key); mc::compared(2);
}
static void concurrent(int kind) {
    quietLogs(); rt::setClockTick(0);
    auto q = make_shared<BedrockBlockingCommandQueue>(); q->setWindow(1000000); q->setIdentifierThreshold(50); q->setCommandThreshold(kind == 0 ? 100 : 0); q->setBlockDuration(1000000);
    enum { REC = 1, PUSHOK, PUSHREF, GOTRUN, GOTREF, CLEARED };
    vector<thread> ts;
    if (kind < 2) ts.emplace_back([=] { q->recordExecutionTime("a", "X", 60); rt::opEnd(rt::opBegin(REC)); });
    if (kind == 1) ts.emplace_back([=] { rt::opEnd(rt::opBegin(CLEARED), q->clearRateLimits()); q->getState(); });
    if (kind == 2) for (int i = 0; i < 2; i++) ts.emplace_back([=] { q->recordExecutionTime("a", "X", 30); });   // together over the threshold
    ts.emplace_back([=] { bool ok = true; auto o = rt::opBegin(PUSHOK); try { q->push(mk(1, "a", "X")); } catch (const SException&) { ok = false; } rt::opEnd(o, ok); if (ok) { auto o = rt::opBegin(GOTRUN); auto c = q->get(10); rt::opEnd(o, c->complete ? 2 : 1); } });
    for (auto& t : ts) t.join();
    rt::NoPoints np;
    string h; const rt::Op *rec = nullptr, *clr = nullptr; for (auto& o : rt::ops()) { h += to_string(o.op) + "=" + to_string(o.res) + " "; if (o.op == REC) rec = &o; if (o.op == CLEARED) clr = &o; }
    if (kind == 0) for (auto& o : rt::ops()) { if (o.op == PUSHOK && o.start > rec->end) MC_CHECK(o.res == 0, "push accepted after the identifier was blocked"); if (o.op == GOTRUN && o.start > rec->end) MC_CHECK(o.res == 2, "command run after its identifier was blocked"); }
    if (kind == 2) MC_CHECK(q->isBlocked("a", "X"), "two completed commands exceed the limit but the identifier is not blocked");
    if (kind == 1 && clr->start > rec->end) MC_CHECK(!q->isBlocked("a", "X") && clr->res == 1, "identifier still blocked after the limits were cleared");
    MC_CHECK(q->size() == 0, "command left in the queue");
    h += q->isBlocked("a", "X") ? "B" : "-"; mc::outcome(h); mc::state(h + to_string(kind)); mc::compared(3);
}
void mc::registerScenarios() {
    Options s; s.concurrent = true; add("sequential", [] { sequential(mc::thorough() ? 5 : 4); }, s);
    add("limiter only", [] { limiter(mc::thorough() ? 8 : 7); }, s);
    Options o; o.concurrent = true; o.raceDetect = true; o.bounds = mc::thorough() ? vector<int>{0, 1, 2, 3, 4} : vector<int>{0, 1, 2, 3};
    add("block while pushing and dequeuing", [] { concurrent(0); }, o);
    if (!mc::thorough()) o.bounds = {0, 1, 2};
    add("clear while recording", [] { concurrent(1); }, o);
    add("two completions together", [] { concurrent(2); }, o);
    setRuleText("limiter states relative to now (samples in the window, remaining block times, queue length)");
}
