// Histories of a cluster: operations and faults in every order, and the oracles of R01-R03.
#pragma once
#include "cluster.h"
namespace cl {
enum Oracle { LEAD = 1, DATA = 2, CONVERGE = 4 };
struct Config { string name; vector<Spec> nodes; vector<int> history; };
static const vector<Config>& configs() {
    static vector<Config> v = {
        {"three", {{"a", 100}, {"b", 90}, {"c", 80}}, {}},
        {"three, the first behind", {{"a", 100}, {"b", 90}, {"c", 80}}, {0, 2, 3}},
        {"three and a permafollower", {{"a", 100}, {"b", 90}, {"c", 80}, {"p", 0, true}}, {1, 1, 1, 0}},
        {"two", {{"a", 100}, {"b", 90}}, {1, 0}},
        {"three, one forked", {{"a", 100}, {"b", 90}, {"c", 80}}, {103, 3, 3}},
        {"four", {{"a", 100}, {"b", 90}, {"c", 80}, {"d", 70}}, {}},
        {"five", {{"a", 100}, {"b", 90}, {"c", 80}, {"d", 70}, {"e", 60}}, {}},
        {"three and two permafollowers", {{"a", 100}, {"b", 90}, {"c", 80}, {"p", 0, true}, {"q", 0, true}}, {}},
        {"three of two versions", {{"a", 100, false, "v2"}, {"b", 90}, {"c", 80}}, {}},
        {"two and a permafollower", {{"a", 100}, {"b", 90}, {"p", 0, true}}, {}},
        {"five, two of them away", {{"a", 100}, {"b", 90}, {"c", 80}, {"d", 70, false, "v1", false, true}, {"e", 60, false, "v1", false, true}}, {}},
        {"four, one of them away", {{"a", 100}, {"b", 90}, {"c", 80}, {"d", 70, false, "v1", false, true}}, {}},
        {"three, one forked and ahead", {{"a", 100}, {"b", 90}, {"c", 80}}, {105, 3, 3}},
        {"three, one forked and behind", {{"a", 100}, {"b", 90}, {"c", 80}}, {102, 3, 3}},
        {"three, the second forked and ahead", {{"a", 100}, {"b", 90}, {"c", 80}}, {3, 104, 2}},
    };
    return v;
}
struct Watch {
    Cluster& c; int oracles; set<string> initial;
    Watch(Cluster& c_, int o) : c(c_), oracles(o) {
        for (int f = 0; f < 3; f++) for (int k = 1; k < 10; k++) {}
        c.onChange = [this](int i, St s) { change(i, s); }; c.afterStep = [this](int i) { check(i); }; c.onDeath = [this](int i, const string& why) { death(i, why); };
    }
    bool voting(int i) { return !c.nodes[i]->spec.perma; }
    int V() { int v = 0; for (size_t i = 0; i < c.nodes.size(); i++) v += voting(i); return v; }
    const string& nm(int i) { return c.nodes[i]->spec.name; }
    Conn* link(int i, int j) { for (auto& [id, x] : c.conns) for (int s = 0; s < 2; s++) if (x.node[s] == i && x.node[1 - s] == j && x.up && x.open[s] && !x.shut[s] && !x.d[1 - s].eof) return &x; return nullptr; }
    void change(int i, St s) {
        if (!(oracles & LEAD)) return;
        if (s == St::STANDINGUP || s == St::LEADING) MC_CHECK(c.nodes[i]->configured != 0, "%s, of priority 0, is %s", nm(i).c_str(), SQLiteNode::stateName(s).c_str());
        if (s == St::LEADING && c.nodes.size() > 1) {
            MC_CHECK(c.state(i) == St::STANDINGUP, "%s starts leading without standing up", nm(i).c_str());
            int votes = 1; string who = nm(i); for (auto& [j, conn] : c.approvals[i]) { auto it = c.conns.find(conn); if (!voting(j) || it == c.conns.end()) continue; auto& x = it->second; int s = x.node[0] == i ? 0 : 1; if (x.open[s]) { votes++; who += " " + nm(j); } }
            MC_CHECK(votes * 2 > V(), "%s starts leading with the approval of %d of %d voting nodes (%s)", nm(i).c_str(), votes, V(), who.c_str());
        }
        mc::compared();
    }
    void check(int i) {
        if (!c.up(i)) return; St s = c.state(i); auto& n = *c.nodes[i];
        if (oracles & LEAD) {
            if (s == St::LEADING) {
                int reach = 0; for (size_t j = 0; j < c.nodes.size(); j++) if ((int) j != i && voting(j) && link(i, j)) reach++;
                MC_CHECK((reach + 1) * 2 > V(), "%s keeps leading while connected to %d of %d other voting nodes", nm(i).c_str(), reach, V() - 1);
                for (int j : c.leaders()) if (j != i) {
                    if (!c.cutOrCrash) mc::fail("%s and %s lead at the same time, in a history without crashes and broken connections", nm(i).c_str(), nm(j).c_str());
                    auto l = link(i, j); auto r = link(j, i); if (l && l == r && l->d[0].wire.empty() && l->d[1].wire.empty() && l->d[0].rx.empty() && l->d[1].rx.empty() && loggedIn(i, j) && loggedIn(j, i)) mc::fail("%s and %s, connected to each other with nothing in transit, both lead", nm(i).c_str(), nm(j).c_str());
                }
            }
        }
        if (oracles & DATA) {
            for (auto peer : n.node->_peerList) if (peer->forked) { int j = indexOf(peer->name); if (!c.nodes[j]->spec.puppet) MC_CHECK(!c.compatible(i, j), "%s considers %s forked, which has the same history", nm(i).c_str(), nm(j).c_str()); }
            for (auto& [h, q] : n.known) if (!initial.count(h)) MC_CHECK(c.origins.count(h), "%s has commit %s, which no leader made", nm(i).c_str(), h.c_str());
            if (s == St::FOLLOWING && n.node->_leadPeer.load()) { int l = indexOf(n.node->_leadPeer.load()->name); if (c.up(l)) MC_CHECK(c.prefix(i, l), "%s follows %s with %zu commits, which are not the beginning of %s's %zu", nm(i).c_str(), nm(l).c_str(), n.known.size(), nm(l).c_str(), c.nodes[l]->known.size()); }
        }
        if (mc::noting()) return;
    }
    bool loggedIn(int i, int j) { for (auto p : c.nodes[i]->node->_peerList) if (p->name == nm(j)) return p->loggedIn && p->socket && p->socket->state.load() == STCPManager::Socket::CONNECTED && !p->socket->recvBuffer.size(); return false; }
    int indexOf(const string& name) { for (size_t j = 0; j < c.nodes.size(); j++) if (nm(j) == name) return j; return -1; }
    void death(int i, const string& why) {
        int forked = 0; for (size_t j = 0; j < c.nodes.size(); j++) if ((int) j != i && voting(j) && !c.compatible(i, j)) forked++;
        mc::note("%s is really forked from %d voting nodes", nm(i).c_str(), forked); c.forkedAny = true;
        if (oracles & (DATA | CONVERGE)) MC_CHECK(forked >= (V() + 1) / 2, "%s ends itself (it counts forks with %s) although it is forked from only %d voting nodes", nm(i).c_str(), why.c_str(), forked);
    }
    void start() { for (auto& n : c.nodes) if (!n->spec.puppet) { shim::Db d(n->file); for (auto& e : journalOf(d)) { initial.insert(e.hash); n->known.emplace_back(e.hash, e.query); } } c.bootAll(); }
    // What must be true of a settled cluster: the expected leader leads, and everybody compatible follows with the same data.
    int expectedLeader(string* whyNot = nullptr) {
        // nodes that can take part: up, and not forked from half of the voting nodes
        int best = -1; for (size_t i = 0; i < c.nodes.size(); i++) if (c.up(i) && voting(i) && !c.nodes[i]->stopping && !c.nodes[i]->announced && c.nodes[i]->configured > 0 && partOfMajority(i) && eligible(i)) if (best < 0 || c.nodes[i]->configured > c.nodes[best]->configured) best = i;
        return best;
    }
    bool partOfMajority(int i) { int n = voting(i); for (size_t j = 0; j < c.nodes.size(); j++) if ((int) j != i && c.up(j) && voting(j) && c.compatible(i, j)) n++; return n * 2 > V(); }
    bool eligible(int i) { for (size_t j = 0; j < c.nodes.size(); j++) if ((int) j != i && c.up(j) && c.nodes[j]->spec.version == c.nodes[i]->spec.version) return true; return false; }
    bool follows(int i, int l) { auto x = c.nodes[i]->node->_leadPeer.load(); if (!x || x->name != nm(l)) return false; for (auto p : c.nodes[l]->node->_peerList) if (p->name == nm(i)) return p->subscribed; return false; }
    bool settled() {
        int l = expectedLeader(); if (l < 0) return c.leaders().empty();
        if (c.leaders() != vector<int>{l}) return false;
        for (size_t i = 0; i < c.nodes.size(); i++) if ((int) i != l && c.up(i) && !c.nodes[i]->stopping && c.compatible(i, l)) { if (c.state(i) != St::FOLLOWING || c.nodes[i]->known != c.nodes[l]->known || !follows(i, l)) return false; }
        return true;
    }
    string describe() { string o; for (size_t i = 0; i < c.nodes.size(); i++) o += nm(i) + "=" + (c.up(i) ? SQLiteNode::stateName(c.state(i)) + "/" + to_string(c.nodes[i]->known.size()) + "/" + to_string(c.nodes[i]->node->_priority) : "down") + " "; return o; }
};
struct Plan { int config; int ops; int faults; int oracles; bool bootFaults = true; vector<string> alphabet; int events = 0; int changes = 0; uint64_t patience = 400; };   // events: the next operation comes after 1, 2, ... that many events
static const vector<string> WAITS = {"settled", "an event", "a state change", "4 events", "12 s"};
static string finish(Cluster& c, Watch& w, const Plan& p) {
        // everything works again
        c.faults = 0; c.enter(1000); c.heal(); for (auto& n : c.nodes) n->paused = 0; for (auto& [id, x] : c.conns) for (auto& d : x.d) d.hold = 0;
        mc::note("== from here on nothing fails");
        for (size_t i = 0; i < c.nodes.size(); i++) if (c.nodes[i]->announced && c.up(i) && !c.nodes[i]->stopping) { c.nodes[i]->node->beginShutdown(); c.nodes[i]->stopping = true; c.step(i); }
        for (size_t i = 0; i < c.nodes.size(); i++) { if (!c.up(i) && !c.nodes[i]->stopping && mc::choose(2, "restart")) { c.boot(i); c.step(i); } }
        bool ended = c.run([&] { for (size_t i = 0; i < c.nodes.size(); i++) if (c.nodes[i]->stopping && c.up(i)) return false; return true; }, p.patience);
        if (p.oracles & CONVERGE) MC_CHECK(ended, "a node that was told to stop has not shut down after %lu s without faults: %s", p.patience, w.describe().c_str());
        uint64_t since = 0; c.userHash = [&] { return since ? rt::nowUs() - since + 1 : 0; }; bool ok = c.run([&] { if (!w.settled()) { since = 0; return false; } if (!since) since = rt::nowUs(); return rt::nowUs() >= since + 5 * SEC; }, p.patience);
        c.userHash = nullptr; string d = w.describe(); int l = w.expectedLeader();
        if (p.oracles & CONVERGE) {
            MC_CHECK(ok, "after %lu s without faults the cluster has not settled with %s leading: %s", p.patience, l < 0 ? "nobody" : w.nm(l).c_str(), d.c_str());
            c.enter(1001); uint64_t end = rt::nowUs() + 40 * SEC; size_t k = c.changes.size(); while (rt::nowUs() < end) { c.event(); MC_CHECK(w.settled() || c.oldest().c, "the cluster does not stay settled: %s", w.describe().c_str()); } (void) k;
            if (l >= 0) { uint64_t n = c.nodes[l]->known.size(); MC_CHECK(c.commit(l), "%s leads but cannot commit", w.nm(l).c_str()); bool got = c.run([&] { return w.settled(); }, 5); MC_CHECK(got && c.nodes[l]->known.size() == n + 1, "a commit at %s does not reach everybody: %s", w.nm(l).c_str(), w.describe().c_str()); }
        }
        if (p.oracles & DATA) {
            for (size_t i = 0; i < c.nodes.size(); i++) if (c.up(i)) { int forked = 0; for (size_t j = 0; j < c.nodes.size(); j++) if (j != i && w.voting(j) && c.up(j) && !c.compatible(i, j) && c.nodes[j]->known.size() <= c.nodes[i]->known.size() && w.link(i, j) && w.loggedIn(i, j)) forked++; MC_CHECK(forked < (w.V() + 1) / 2, "%s goes on although it is connected to %d of %d voting nodes it is forked from", w.nm(i).c_str(), forked, w.V()); }
            if (!c.cutOrCrash) for (auto& [h, o] : c.origins) for (size_t i = 0; i < c.nodes.size(); i++) if (c.up(i) && c.compatible(i, o.node)) MC_CHECK(c.nodes[i]->known.size() >= o.id && c.nodes[i]->known[o.id - 1].first == h, "commit %lu made at %s is not at %s, without crashes or broken connections", o.id, w.nm(o.node).c_str(), w.nm(i).c_str());
            if (ok && l >= 0) { bool got = true; if (c.commit(l)) got = c.run([&] { return w.settled(); }, 5); MC_CHECK(got, "a commit at %s does not reach everybody: %s", w.nm(l).c_str(), w.describe().c_str());
                int sub = 0; for (size_t j = 0; j < c.nodes.size(); j++) if (w.voting(j) && c.up(j) && c.state(j) == St::FOLLOWING && c.compatible(j, l)) sub++; MC_CHECK(c.nodes[l]->node->majorityOfFollowersSubscribed() == (sub * 2 >= w.V() - 1), "%s thinks a majority follows: %d of %d do", w.nm(l).c_str(), sub, w.V() - 1); }
        }
        return d;
}
static void history(const Plan& p) {
    rt::setPointsEnabled(false); const Config& cfg = configs()[p.config];
    Cluster c(cfg.nodes, cfg.history); Watch w(c, p.oracles); uint64_t planHash = 0; c.userHash = [&] { return planHash; };
    try {
        c.faults = p.bootFaults ? p.faults : 0; w.start();
        
        auto wait = [&](int how) {
            c.enter(c.phase + 1); planHash = how;
            switch (how) { case 0: c.run([&] { return w.settled(); }, 60); break; case 1: c.event(); break; case 2: { size_t k = c.changes.size(); planHash += 100; c.run([&] { return c.changes.size() > k; }, 20); break; } case 3: for (int i = 0; i < 4; i++) { planHash = how + i * 10 + 1000; c.event(); } break; case 4: { uint64_t t = rt::nowUs() + 12 * SEC; c.run([&] { return rt::nowUs() >= t; }, 13); break; } }
        };
        wait(0); c.faults = p.faults;
        for (int o = 0; o < p.ops; o++) {
            // what can be done now
            vector<function<void()>> ops; vector<string> names; auto op = [&](const string& n, function<void()> f) { names.push_back(n); ops.push_back(f); };
            for (auto& k : p.alphabet) {
                if (k == "commit") for (int l : c.leaders()) op("commit at " + w.nm(l), [&c, l] { c.commit(l); });
                if (k == "two commits") for (int l : c.leaders()) op("two commits at " + w.nm(l), [&c, l] { c.commit(l); c.commit(l); });
                for (size_t i = 0; i < c.nodes.size(); i++) { auto& n = *c.nodes[i]; string nm = w.nm(i);
                    if (k == "crash" && c.up(i)) op("crash " + nm, [&c, i] { c.crash(i); });
                    if (k == "start" && !c.up(i)) op("start " + nm, [&c, i] { c.boot(i); c.step(i); });
                    if (k == "restart" && c.up(i)) op("restart " + nm, [&c, i] { c.crash(i); c.boot(i); c.step(i); });
                    if (k == "stop" && c.up(i) && !n.stopping) op("stop " + nm, [&c, i] { c.nodes[i]->node->setShutdownPriority(); c.step(i); c.event(); if (c.up(i)) { c.nodes[i]->node->beginShutdown(); c.nodes[i]->stopping = true; c.step(i); } });
                    if (k == "announce" && c.up(i) && !n.stopping && !n.announced) op(nm + " announces that it will stop", [&c, i] { c.nodes[i]->node->setShutdownPriority(); c.nodes[i]->announced = true; c.step(i); });
                    if (k == "quick stop" && c.up(i) && !n.stopping) op("quick stop " + nm, [&c, i] { c.nodes[i]->node->beginShutdown(); c.nodes[i]->stopping = true; c.step(i); });
                    if (k == "isolate" && c.up(i)) op("isolate " + nm, [&c, i] { for (size_t j = 0; j < c.nodes.size(); j++) if (j != i) c.partition(i, j, EVER); });
                    if (k == "isolate 20 s" && c.up(i)) op("isolate for 20 s " + nm, [&c, i] { uint64_t t = rt::nowUs() + 20 * SEC; for (size_t j = 0; j < c.nodes.size(); j++) if (j != i) c.partition(i, j, t); });
                    if (k == "cut" && c.up(i)) for (size_t j = i + 1; j < c.nodes.size(); j++) if (c.up(j)) op("cut " + nm + "-" + w.nm(j), [&c, i, j] { vector<int> ids; for (auto& [id, x] : c.conns) if ((x.node[0] == (int) i && x.node[1] == (int) j) || (x.node[0] == (int) j && x.node[1] == (int) i)) ids.push_back(id); for (int id : ids) if (c.conns.count(id)) c.reset(c.conns[id]); c.step(i); c.step(j); });
                    if (k == "cut one way" && c.up(i)) for (size_t j = 0; j < c.nodes.size(); j++) if (i != j && c.up(j)) op("only " + nm + " loses its connection to " + w.nm(j), [&c, i, j] { c.cutOrCrash = c.faulted = true; for (auto& [id, x] : c.conns) for (int s = 0; s < 2; s++) if (x.up && x.node[s] == (int) i && x.node[1 - s] == (int) j) { x.d[1 - s].eof = true; x.d[1 - s].wire.clear(); x.d[s].hold = rt::nowUs() + 20 * SEC; } c.step(i); });
                    if (k == "block" && c.up(i)) for (size_t j = i + 1; j < c.nodes.size(); j++) op("block " + nm + "-" + w.nm(j), [&c, i, j] { c.partition(i, j, EVER); });
                    if (k == "pause" && c.up(i)) op("stall " + nm, [&c, i] { c.pause(i, rt::nowUs() + 40 * SEC); });
                    if (k == "priority" && c.up(i) && !n.spec.perma) for (int pr : {75, 85, 120}) op("priority of " + nm + " = " + to_string(pr), [&c, i, pr] { for (auto& o : c.nodes) if (o->configured == pr) return; try { c.nodes[i]->node->setPriority(pr); } catch (const SException& e) { mc::note("refused: %s", e.what()); } c.step(i); });
                }
                if (k == "heal") op("heal", [&c] { c.heal(); });
            }
            if (ops.empty()) break;
            int d = mc::choose(ops.size(), "operation"); mc::note("== %s", names[d].c_str()); ops[d]();
            if (p.events && o + 1 < p.ops) { c.enter(c.phase + 1); int k = 1 + mc::choose(p.events, "events"); c.noMerge = true; for (int i = 0; i < k; i++) c.event(); c.noMerge = false; mc::note("== after %d events", k); continue; }
            if (p.changes && o + 1 < p.ops) {
                static const vector<St> S = {St::SYNCHRONIZING, St::WAITING, St::STANDINGUP, St::LEADING, St::STANDINGDOWN, St::SUBSCRIBING, St::FOLLOWING};
                c.enter(c.phase + 1); St s = S[mc::choose(S.size(), "state")]; int k = 1 + mc::choose(p.changes, "time"), e = mc::choose(16, "events"); size_t n = c.changes.size(); c.noMerge = true;
                bool got = c.run([&] { int m = 0; for (size_t j = n; j < c.changes.size(); j++) m += c.changes[j].second == s; return m >= k; }, 20); if (!got) throw Ended();
                for (int i = 0; i < e; i++) c.event(); c.noMerge = false; mc::note("== after %d changes to %s and %d events", k, SQLiteNode::stateName(s).c_str(), e); continue;
            }
            int how = o + 1 == p.ops ? 0 : mc::choose(mc::thorough() ? WAITS.size() : 4, "wait"); mc::note("== wait for %s", WAITS[how].c_str()); wait(how);
        }
        if (p.oracles == LEAD) { mc::outcome(w.describe()); return; }
        string d = finish(c, w, p);
        mc::outcome(d);
    } catch (const Ended&) {}
}
// Worker threads (and the nodes' own) alongside the steps of the nodes: situation, how many events in, for how many events.
static void races(int config, int situation, int oracles, bool atomics) {
    rt::setPointsEnabled(false); const Config& cfg = configs()[config]; Cluster c(cfg.nodes, cfg.history); Watch w(c, oracles); Plan p{config, 0, 0, oracles}; c.noMerge = true;
    try {
        w.start(); if (!c.run([&] { return w.settled(); }, 60)) mc::internalError("not settled"); int l = c.leaders()[0], last = c.nodes.size() - 1, other = l == 1 ? 0 : 1; c.enter(500 + situation);
        for (int i = 0; i < 3; i++) c.event();
        function<void()> go = [] {};
        switch (situation) {
            case 0: c.crash(last); c.run([&] { return c.oldest().c == nullptr; }, 5); if (mc::choose(2, "it misses a commit")) c.commit(l); c.run([&] { return c.oldest().c == nullptr; }, 5); go = [&] { c.boot(last); c.step(last); }; break;      // a node starts, is brought up to date, and follows
            case 1: go = [&] { c.nodes[l]->node->setShutdownPriority(); c.nodes[l]->announced = true; c.step(l); }; break;                          // the leader stands down
            case 2: go = [&] { c.nodes[l]->node->setPriority(5); c.step(l); }; break;                                 // another takes over
            case 3: go = [&] { c.nodes[l]->node->beginShutdown(); c.nodes[l]->stopping = true; c.step(l); }; break;
            case 4: c.partition(l, other, rt::nowUs() + 2 * SEC); { vector<int> ids; for (auto& [id, x] : c.conns) if (x.node[0] + x.node[1] == l + other && x.node[0] != x.node[1]) ids.push_back(id); c.cutOrCrash = c.faulted = true; for (int id : ids) if (c.conns.count(id)) c.reset(c.conns[id]); } go = [&] { c.step(l); c.step(other); }; break;   // a follower is lost and comes back
            case 5: { int b = c.nodes.size() > 2 ? 2 : other; go = [&c, b] { c.nodes[b]->node->setPriority(150); c.step(b); }; break; }                                 // a follower becomes the highest
        }
        bool now = mc::choose(2, "during the operation");
        if (now) { c.startRace(atomics); c.worker(l, 2); }
        go();
        if (!now) { int k = mc::choose(mc::thorough() ? 60 : 40, "events before"); for (int i = 0; i < k; i++) { c.event(); if (w.settled() && !c.oldest().c) throw Ended(); } auto ls = c.leaders(); if (ls.empty()) throw Ended(); c.startRace(atomics); c.worker(ls[0], 2); }
        int n = now ? 0 : 1; for (int i = 0; i < n; i++) c.event();
        c.endRace(); c.noMerge = false;
        mc::outcome(finish(c, w, p));
    } catch (const Ended&) {}
}
static const vector<string> EVERYTHING = {"commit", "crash", "start", "stop", "isolate", "heal", "cut", "cut one way", "block", "pause", "priority"};
static void scenarios(int oracles) {
    bool T = mc::thorough();
    mc::Options o; o.concurrent = true; o.preemptFree = false; o.maxSteps = 2000000;
    mc::Options f = o; f.bounds = T ? vector<int>{0, 1, 2} : vector<int>{0, 1}; o.bounds = {0};
    for (int k : T ? vector<int>{3, 0, 1, 2, 4, 10, 11, 12, 13, 14, 8, 5, 7, 6} : vector<int>{3, 0, 1, 2, 4}) mc::add("start with faults: " + configs()[k].name, [k, oracles] { history({k, 0, ALLFAULTS, oracles}); }, f);
    mc::Options f0 = f; f0.bounds = {0, 1}; if (!T) for (int k : {10, 11, 12, 13, 14}) mc::add("start: " + configs()[k].name, [k, oracles] { history({k, 0, HOLDQ | RESET, oracles}); }, f0);
    for (int k : T ? vector<int>{3, 0, 2, 5, 1, 4, 8, 7, 6} : vector<int>{3, 0}) mc::add("an operation and faults: " + configs()[k].name, [k, oracles] { history({k, 1, ALLFAULTS & ~IDLEPAUSE, oracles, false, {"commit", "two commits", "stop", "quick stop", "start", "isolate", "cut", "priority"}}); }, f);
    for (int k : T ? vector<int>{3, 0, 4, 1, 2, 8, 5, 7} : vector<int>{3, 4}) mc::add("two operations: " + configs()[k].name, [k, oracles] { history({k, 2, 0, oracles, true, EVERYTHING}); }, o);
    for (int k : T ? vector<int>{0, 3, 5, 1} : vector<int>{0}) mc::add("an operation, some events, another operation: " + configs()[k].name, [k, oracles] { history({k, 2, 0, oracles, true, {"restart", "quick stop", "cut", "priority"}, 30}); }, o);
    for (int k : T ? vector<int>{0, 3, 5, 1} : vector<int>{0}) mc::add("an operation, a state reached, another operation: " + configs()[k].name, [k, oracles] { history({k, 2, 0, oracles, true, mc::thorough() ? vector<string>{"restart", "announce", "priority", "cut"} : vector<string>{"restart", "priority"}, 0, mc::thorough() ? 2 : 1}); }, o);
    for (int k : T ? vector<int>{9, 2, 7} : vector<int>{9}) mc::add("with permafollowers, an operation, some events, another operation: " + configs()[k].name, [k, oracles] { history({k, 2, 0, oracles, true, {"crash", "restart", "announce", "isolate"}, 30}); }, o);
    for (int k : T ? vector<int>{2, 7} : vector<int>{2}) mc::add("two operations with permafollowers: " + configs()[k].name, [k, oracles, T] { history({k, 2, 0, oracles, true, T ? vector<string>{"crash", "restart", "stop", "quick stop", "isolate"} : vector<string>{"restart", "stop", "isolate"}}); }, o);
    for (int k : T ? vector<int>{0, 2, 8} : vector<int>{0}) mc::add("three operations: " + configs()[k].name, [k, oracles, T] { history({k, 3, 0, oracles, true, T ? vector<string>{"commit", "crash", "start", "stop", "isolate", "heal", "block"} : vector<string>{"commit", "crash", "start"}}); }, o);
}
}
