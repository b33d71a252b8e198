// S02: transactions are serializable in commit-number order. Real code: SQLite.cpp.
#include "txn.h"
static const string SCHEMA = "CREATE TABLE a(k INTEGER PRIMARY KEY, v INTEGER); CREATE TABLE b(k INTEGER PRIMARY KEY, v INTEGER); INSERT INTO a VALUES(1, 10); INSERT INTO b VALUES(1, 20);";
static const Txn INC_A = {false, {{'r', "SELECT v FROM a WHERE k=1;"}, {'w', "UPDATE a SET v=# WHERE k=1;"}}};
static const Txn SKEW_AB = {false, {{'r', "SELECT v FROM a WHERE k=1;"}, {'w', "UPDATE b SET v=# WHERE k=1;"}}};
static const Txn SKEW_BA = {false, {{'r', "SELECT v FROM b WHERE k=1;"}, {'w', "UPDATE a SET v=# WHERE k=1;"}}};
static const Txn INC_B = {false, {{'r', "SELECT v FROM b WHERE k=1;"}, {'w', "UPDATE b SET v=# WHERE k=1;"}}};
static const Txn READ_TWICE = {false, {{'r', "SELECT v FROM a WHERE k=1;"}, {'r', "SELECT v FROM b WHERE k=1;"}, {'r', "SELECT v FROM a WHERE k=1;"}, {'w', "INSERT INTO b VALUES((SELECT MAX(k) FROM b)+1, $);"}}};
static const Txn COUNT = {false, {{'r', "SELECT COUNT(*) FROM b;"}, {'w', "INSERT INTO b VALUES(#, 0);"}}};
static Txn excl(Txn t) { t.exclusive = true; return t; }
static Txn one(Txn t) { t.attempts = 1; t.mustCommit = false; return t; }
static Txn rb(Txn t) { t.rollback = true; return t; }
static void run(const vector<vector<Txn>>& progs, int journals, bool atomics) {
    World w(progs.size(), journals, SCHEMA); rt::setAtomicPoints(atomics);
    vector<thread> ts;
    for (size_t i = 0; i < progs.size(); i++) ts.emplace_back([&, i] { for (size_t k = 0; k < progs[i].size(); k++) runTxn(w, i, k, *w.handles[i], progs[i][k]); });
    for (auto& t : ts) t.join();
    string o = checkWorld(w, true); checkSerial(w, progs);
    for (auto& r : w.recs) { auto& t = progs[r.thread][r.txn]; if (t.mustCommit && !t.rollback) MC_CHECK(r.committed, "a retried transaction never succeeded"); for (auto& x : r.reads) o += x; }
    mc::outcome(o); mc::state(o);
}
void mc::registerScenarios() {
    bool T = thorough();
    Options o; o.concurrent = true; o.maxSteps = 60000; o.bounds = T ? vector<int>{0, 1, 2, 3} : vector<int>{0, 1, 2};
    Options s = o; s.bounds = T ? vector<int>{0, 1, 2} : vector<int>{0, 1};
    add("lost update", [] { run({{INC_A}, {INC_A}}, 0, false); }, o);
    add("write skew", [] { run({{SKEW_AB}, {SKEW_BA}}, 0, false); }, o);
    add("write skew, no retry", [] { run({{one(SKEW_AB)}, {one(SKEW_BA)}}, -1, false); }, o);
    add("independent", [] { run({{INC_A, INC_A}, {INC_B}}, 1, false); }, o);
    add("repeatable read", [] { run({{READ_TWICE}, {INC_A, INC_B}}, 0, false); }, o);
    add("exclusive against shared", [] { run({{excl(SKEW_AB)}, {SKEW_BA}}, 0, false); }, o);
    add("exclusive against exclusive", [] { run({{excl(INC_A)}, {excl(INC_A)}}, 0, false); }, o);
    add("rollback in between", [] { run({{rb(INC_A), INC_A}, {INC_A}}, 0, false); }, o);
    add("phantom", [] { run({{COUNT}, {COUNT}}, 0, false); }, o);
    add("three threads", [] { run({{INC_A}, {SKEW_AB}, {SKEW_BA}}, 1, false); }, s);
    add("three threads, read only view", [] { run({{INC_A}, {INC_B}, {READ_TWICE}}, 0, false); }, s);
    add("lost update, atomics", [] { run({{INC_A}, {INC_A}}, 0, true); }, s);
    add("write skew, atomics", [] { run({{SKEW_AB}, {SKEW_BA}}, 1, true); }, s);
    setRuleText("values read, commit order and number of attempts of every transaction, under every schedule within the bound");
}
