// J01: a job is handed to at most one worker, when due, in order. Real code: plugins/Jobs.cpp, BedrockCore.cpp.
#include "jobs.h"
static const vector<Op> KINDS = {
    create({{"name", "www/a"}}), create({{"name", "www/b"}, {"jobPriority", "1000"}}), create({{"name", "x/c"}, {"firstRun", "2001-01-01 00:00:00"}}), create({{"name", "www/d"}, {"jobPriority", "0"}}),
    create({{"name", "www/e"}, {"firstRun", "2099-01-01 00:00:00"}}), create({{"name", "www/f"}, {"retryAfter", "+5 MINUTES"}}), create({{"name", "www/g"}, {"mockRequest", "true"}}),
    create({{"name", "x/h"}, {"retryAfter", "+5 MINUTES"}, {"repeat", "SCHEDULED, +1 DAY"}, {"firstRun", "2001-01-02 00:00:00"}}), create({{"name", "www/i"}, {"repeat", "FINISHED, +1 MINUTE"}, {"jobPriority", "850"}}), create({{"name", "manual/j"}, {"retryAfter", "+1 HOUR"}, {"jobPriority", "250"}}), create({{"name", "x/k"}, {"retryAfter", "+20 MINUTES"}, {"repeat", "FINISHED, +2 MINUTES"}, {"jobPriority", "750"}})};
static vector<Op> gets(bool all) {
    vector<Op> o = {op("GetJob", -1, {{"name", "*"}}), op("GetJob", -1, {{"name", "www/*"}}), op("GetJob", -1, {{"name", "www/a,x/c,www/f"}}), op("GetJobs", -1, {{"name", "*"}, {"numResults", "2"}}), op("GetJob", -1, {{"name", "*"}, {"mockRequest", "true"}})};
    if (all) for (auto& x : {op("GetJob", -1, {{"name", "x/*"}, {"jobPriority", "500"}}), op("GetJob", -1, {{"name", "*"}, {"getMockedJobs", "true"}}), op("GetJobs", -1, {{"name", "www/*"}, {"numResults", "5"}}), op("GetJobs", -1, {{"name", "*"}, {"numResults", "3"}, {"jobPriority", "1000"}}), op("GetJob", -1, {{"name", "www/"}}), op("GetJob", -1, {{"name", "*"}, {"numResults", "1"}}), op("GetJobs", -1, {{"name", "*"}}), op("GetJob", -1, {{"name", "*"}, {"jobPriority", "7"}}), op("GetJobs", -1, {{"name", "www/d,x/h"}, {"numResults", "9"}, {"jobPriority", "0"}}), op("GetJob", -1, {{"name", "*"}, {"jobPriority", "500"}})}) o.push_back(x);
    return o;
}
static vector<Op> ops(const Node& n, bool all) {
    auto o = gets(all);
    for (auto& [i, j] : n.m.jobs) { o.push_back(op("FinishJob", i)); o.push_back(op("RetryJob", i, {{"delay", "90"}})); if (all) { o.push_back(op("FailJob", i)); o.push_back(op("DeleteJob", i)); o.push_back(requeue(i, true)); } }
    o.push_back(advance(120)); if (all) { o.push_back(advance(400)); o.push_back(advance(90000)); }
    return o;
}
// Jobs that an administrator has switched off because they crash are failed when they would be handed out.
static vector<Op> switching(const Node& n) {
    vector<Op> o = {op("GetJob", -1, {{"name", "*"}}), op("GetJob", -1, {{"name", "x/*"}, {"jobPriority", "750"}}), op("GetJobs", -1, {{"name", "*"}, {"numResults", "3"}}), op("GetJobs", -1, {{"name", "www/a,www/d"}, {"numResults", "2"}}), op("CrashBedrockJob", -1, {{"names", "www/a"}}), op("CrashBedrockJob", -1, {{"names", "x/*,www/d"}}), op("CrashBedrockJob", -1, {{"names", "*a"}}), op("CrashBedrockJob", -1, {{"names", "*"}, {"_source", "10.0.0.1"}}), op("ClearCrashedBedrockJobs"), op("ClearCrashedBedrockJobs", -1, {{"_source", "10.0.0.1"}}), advance(1300)};
    for (auto& [i, j] : n.m.jobs) { o.push_back(op("FinishJob", i)); o.push_back(requeue(i)); }
    return o;
}
static vector<vector<Op>> populations(int n) {
    vector<vector<Op>> out; vector<Op> cur;
    function<void(int, int)> go = [&](int from, int left) { if (!left) { out.push_back(cur); return; } for (size_t k = from; k < KINDS.size(); k++) { cur.push_back(KINDS[k]); go(k, left - 1); cur.pop_back(); } };
    go(0, n); return out;
}
// Jobs of every priority, each with jobs of the same and of another one.
static vector<vector<Op>> priorities() {
    static const vector<int> P = {0, 250, 500, 750, 850, 1000}; vector<vector<Op>> out;
    auto kinds = [](int p, const char* n) { string name = n; string q = to_string(p); return vector<Op>{create({{"name", name}, {"jobPriority", q}}), create({{"name", name}, {"jobPriority", q}, {"retryAfter", "+5 MINUTES"}}), create({{"name", name}, {"jobPriority", q}, {"firstRun", "2001-01-01 00:00:00"}}), create({{"name", name}, {"jobPriority", q}, {"firstRun", "2099-01-01 00:00:00"}}), create({{"name", name}, {"jobPriority", q}, {"mockRequest", "true"}})}; };
    for (size_t i = 0; i < P.size(); i++) { auto a = kinds(P[i], "p/a"), b = kinds(P[i], "p/b"), c = kinds(P[(i + 1) % P.size()], "p/c"); for (auto& x : a) for (auto* y : {&b[0], &b[1], &c[0]}) out.push_back({x, *y}); }
    return out;
}
static vector<Op> byPriority(const Node& n) {
    vector<Op> o = {op("GetJob", -1, {{"name", "*"}}), op("GetJobs", -1, {{"name", "p/*"}, {"numResults", "3"}}), op("GetJob", -1, {{"name", "p/a,p/c"}}), op("GetJob", -1, {{"name", "*"}, {"mockRequest", "true"}}), advance(400)}; set<string> seen;
    for (auto& [i, j] : n.m.jobs) { if (seen.insert(to_string(j.prio)).second) { o.push_back(op("GetJob", -1, {{"name", "p/*"}, {"jobPriority", to_string(j.prio)}})); o.push_back(op("GetJobs", -1, {{"name", "p/a,p/b"}, {"numResults", "2"}, {"jobPriority", to_string(j.prio)}})); } o.push_back(op("RetryJob", i, {{"delay", "90"}})); }
    return o;
}
// Ten hand-outs without an end fail the job; every other command in between at one moment.
static vector<vector<Op>> worn() { vector<vector<Op>> out; for (auto& k : {5, 7, 9, 10}) { vector<Op> p = {KINDS[k]}; for (int i = 0; i < 9; i++) { p.push_back(op("GetJob", -1, {{"name", "*"}})); p.push_back(advance(4000)); } out.push_back(p); } return out; }
void mc::registerScenarios() {
    bool T = thorough(); Options o; o.concurrent = true; o.maxSteps = 2000000; o.bounds = {0};
    add("two jobs", [T] { static auto p = populations(2); exploreJobs(1, p, [](const Node& n) { return ops(n, true); }, T ? 4 : 3); }, o);
    add("three jobs", [T] { static auto p = populations(3); exploreJobs(2, p, [](const Node& n) { return ops(n, false); }, T ? 4 : 2); }, o);
    add("many retries", [T] { static auto p = worn(); exploreJobs(3, p, [](const Node& n) { return ops(n, true); }, T ? 6 : 4); }, o);
    add("jobs that are switched off", [T] { static auto p = populations(2); static vector<vector<Op>> q; if (q.empty()) for (auto& x : p) if (x[0].args == KINDS[0].args || x[1].args == KINDS[10].args) q.push_back(x); exploreJobs(4, q, switching, T ? 5 : 3); }, o);
    add("jobs of every priority", [T] { static auto p = priorities(); exploreJobs(5, p, byPriority, T ? 5 : 3); }, o);
    setRuleText("populations of jobs, and sequences of job commands and time steps on them");
}
