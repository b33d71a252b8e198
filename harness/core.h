// Commands executed the way a leading server executes them: real plugins, real BedrockCore phases, real commit.
#pragma once
#include "sqlcommon.h"
#include <BedrockCore.h>
#include <BedrockServer.h>
#include <BedrockPlugin.h>
#include <BedrockCommand.h>
// Random numbers repeat for each step (linked with --wrap for SRandom::rand64).
static uint64_t gRandom = 1;
#ifndef OWN_RANDOM
extern "C" uint64_t __wrap__ZN7SRandom6rand64Ev() { gRandom += 0x9E3779B97F4A7C15ull; uint64_t z = gRandom; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
#endif
static BedrockServer& fakeServer(const map<string, string>& args = {}) {
    static map<string, BedrockServer*> all; string key; SData a("args"); for (auto& [k, v] : args) { a[k] = v; key += k + "=" + v + ";"; }
    auto& s = all[key]; if (!s) s = new BedrockServer(SQLiteNodeState::LEADING, a); return *s;
}
struct Ran { SData response; bool peeked = false, committed = false, conflict = false; string query; uint64_t id = 0; };
// peek, process, commit.
static Ran runCommand(SQLite& db, BedrockServer& server, unique_ptr<BedrockCommand> cmd) {
    Ran r; BedrockCore core(db, server);
    auto p = core.peekCommand(cmd, false);
    MC_CHECK(db.getUncommittedQuery().empty(), "the peek phase left a write");
    if (p == BedrockCore::RESULT::COMPLETE) { r.peeked = true; MC_CHECK(!db.insideTransaction(), "still inside a transaction after the command was completed in peek"); r.response = cmd->response; return r; }
    if (core.processCommand(cmd, false) == BedrockCore::RESULT::NEEDS_COMMIT) {
        r.query = db.getUncommittedQuery(); string hash;
        MC_CHECK(db.prepare(&r.id, &hash), "prepare"); int c = db.commit("check");
        if (c == SQLITE_OK) r.committed = true; else { MC_CHECK(c == SQLITE_BUSY_SNAPSHOT, "commit gives %d", c); r.conflict = true; db.rollback(); }
    }
    MC_CHECK(!db.insideTransaction(), "still inside a transaction after the command");
    r.response = cmd->response; return r;
}
// Depth-first exploration of operation sequences in which each executed prefix is kept, so that only the last operation of a
// path runs, and a path ends at a state that has been reached before with as many operations left.
template<class Node> struct Explorer {
    vector<pair<int, Node>> path; int scenario = -1;
    // root(config), count(node), apply(node, op), hash(node)
    template<class R, class C, class A, class H> void run(int id, int configs, int depth, R root, C count, A apply, H hash) {
        if (scenario != id) { path.clear(); scenario = id; }
        int c = mc::choose(configs, "population"); bool same = !mc::noting();
        auto at = [&](size_t i, int op, auto make) -> Node& {
            if (!(same && path.size() > i && path[i].first == op)) { same = false; path.resize(min(path.size(), i)); path.emplace_back(op, make()); mc::transition(); mc::state(hash(path[i].second)); }
            return path[i].second;
        };
        at(0, c, [&] { return root(c); });
        for (int i = 0; i < depth; i++) {
            Node& n = path[i].second;
            if (mc::visited(hash(n), depth - i)) return;
            int k = count(n); if (!k) return;
            int op = mc::choose(k, "operation");
            at(i + 1, op, [&] { return apply(path[i].second, op); });
        }
        mc::outcome(to_string(hash(path[depth].second)));
    }
};
