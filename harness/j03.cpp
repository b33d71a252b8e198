// J03: parents and children. Real code: plugins/Jobs.cpp, BedrockCore.cpp.
#include "jobs.h"
static vector<vector<Op>> populations() {
    vector<vector<Op>> out; Op get = op("GetJob", -1, {{"name", "*"}, {"getMockedJobs", "true"}});
    for (const char* retry : {"", "+1 HOUR"}) for (const char* repeat : {"", "FINISHED, +1 MINUTE"}) for (bool mock : {false, true}) {
        map<string, string> a = {{"name", "parent"}, {"data", "{\"p\":\"1\"}"}}; if (*retry) a["retryAfter"] = retry; if (*repeat) a["repeat"] = repeat; if (mock) a["mockRequest"] = "true"; if (mock && (*repeat || *retry)) continue;
        out.push_back({create(a), get});
    }
    return out;
}
static vector<Op> ops(const Node& n, int maxJobs, bool all) {
    vector<Op> o = {op("GetJob", -1, {{"name", "*"}, {"getMockedJobs", "true"}}), op("GetJobs", -1, {{"name", "child*"}, {"numResults", "2"}, {"getMockedJobs", "true"}})};
    int parent = -1; for (auto& [i, j] : n.m.jobs) if (j.parent < 0) parent = i;
    if (n.m.made < maxJobs) {
        int p = parent < 0 ? 0 : parent;
        o.push_back(create({{"name", "child" + to_string(n.m.made)}, {"data", "{\"c\":\"" + to_string(n.m.made) + "\"}"}}, p));
        if (all) { o.push_back(create({{"name", "child" + to_string(n.m.made)}, {"retryAfter", "+1 MINUTE"}}, p)); o.push_back(create({{"name", "childu"}, {"unique", "true"}}, p)); for (auto& [i, j] : n.m.jobs) if (j.parent >= 0) { o.push_back(create({{"name", "grandchild"}}, i)); break; } }
    }
    for (auto& [i, j] : n.m.jobs) {
        bool mock = mocked(j.data); string d = mock ? "{\"mockRequest\":true,\"r\":\"" + to_string(i) + "\"}" : "{\"r\":\"" + to_string(i) + "\"}";
        o.push_back(op("FinishJob", i, {{"data", d}})); o.push_back(op("CancelJob", i)); o.push_back(op("DeleteJob", i)); o.push_back(op("FailJob", i)); o.push_back(op("RetryJob", i, {{"delay", "0"}}));
        if (all && j.state == "FAILED") o.push_back(requeue(i));
    }
    o.push_back(advance(120)); if (all) o.push_back(advance(4000));
    return o;
}
void mc::registerScenarios() {
    bool T = thorough(); Options o; o.concurrent = true; o.maxSteps = 2000000; o.bounds = {0};
    add("parent and two children", [T] { static vector<vector<Op>> p = {populations()[0]}; exploreJobs(1, p, [](const Node& n) { return ops(n, 3, false); }, T ? 14 : 10); }, o);
    add("parent and three children", [T] { static vector<vector<Op>> p = {populations()[0]}; exploreJobs(2, p, [](const Node& n) { return ops(n, 4, false); }, T ? 12 : 8); }, o);
    add("kinds of parent and child", [T] { static auto p = populations(); exploreJobs(3, p, [](const Node& n) { return ops(n, 3, true); }, T ? 7 : 5); }, o);
    setRuleText("kinds of parent, and sequences of job commands and time steps on a family of jobs");
}
