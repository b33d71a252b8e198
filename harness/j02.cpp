// J02: the life cycle of a job under every command. Real code: plugins/Jobs.cpp, BedrockCore.cpp.
#include "jobs.h"
static const vector<string> REPEATS = {"", "hourly", "Daily", "WEEKLY", "FINISHED, +10 MINUTES", "STARTED, +1 HOUR", "SCHEDULED, +1 HOUR", "SCHEDULED, +1 DAY", "SCHEDULED, +30 MINUTES, START OF HOUR", "finished, +1 MONTH, START OF MONTH", "STARTED, +1 DAY, WEEKDAY 0", "SCHEDULED, +10 MINUTES, +5 MINUTES", "SCHEDULED, +5 HOURS", "SCHEDULED, +2 HOURS, -30 MINUTES"};
static vector<vector<Op>> populations() {
    vector<vector<Op>> out;
    for (auto& r : REPEATS) for (const char* retry : {"", "+3 HOURS", "+40 SECONDS"}) for (const char* first : {"", "2023-11-14 12:34:56"}) for (const char* name : {"www/x", "manual/x"}) {
        if (!*retry && (*name == 'm' || (*first && r.empty()))) continue;
        map<string, string> a = {{"name", name}, {"data", "{\"n\":\"1\",\"keep\":\"k\"}"}}; if (!r.empty()) a["repeat"] = r; if (*retry) a["retryAfter"] = retry; if (*first) a["firstRun"] = first;
        out.push_back({create(a)});
    }
    out.push_back({create({{"name", "www/x"}, {"mockRequest", "true"}, {"repeat", "DAILY"}})}); out.push_back({create({{"name", "www/x"}, {"mockRequest", "true"}, {"retryAfter", "+40 SECONDS"}, {"data", "{\"n\":\"1\"}"}})});
    return out;
}
// Jobs that are handed out and finished at the ends of weeks, months and years.
static vector<vector<Op>> periods() {
    static const vector<uint64_t> AT = {1700438397 /* Sunday 23:59:57 */, 1700352010 /* Sunday 00:00:10 */, 1701388797 /* November 30 23:59:57 */, 1704067197 /* December 31 23:59:57 */, 1709207997 /* February 29 11:59:57 */}; vector<vector<Op>> out;
    for (const char* r : {"HOURLY", "DAILY", "WEEKLY", "FINISHED, +1 MONTH", "SCHEDULED, +1 MONTH, START OF MONTH", "STARTED, +1 DAY, WEEKDAY 0", "SCHEDULED, +1 YEAR", "FINISHED, START OF YEAR, +1 YEAR, -1 DAY"}) for (const char* retry : {"", "+40 SECONDS"}) for (auto at : AT) for (bool taken : {false, true}) { map<string, string> a = {{"name", "www/x"}, {"repeat", r}}; if (*retry) a["retryAfter"] = retry; vector<Op> p = {create(a), advance(at - 1700000000)}; if (taken) p.insert(p.begin() + 1, op("GetJob", -1, {{"name", "*"}})); out.push_back(p); }
    return out;
}
static vector<Op> ops(const Node& n, bool few) {
    vector<Op> o = {op("GetJob", -1, {{"name", "*"}, {"mockRequest", "true"}}), advance(5400)}; if (!few) { o.push_back(advance(400000)); o.push_back(advance(50)); }
    if (n.m.jobs.empty()) return o;
    int i = n.m.jobs.rbegin()->first; if (long b = toBoundary(n, n.m.jobs.at(i)); b > 0) o.push_back(advance(b)); bool mock = mocked(n.m.jobs.at(i).data);
    auto data = [mock](const string& d) { return mock ? "{\"mockRequest\":true," + d.substr(1) : d; };
    for (auto& x : {op("FinishJob", i), op("FinishJob", i, {{"data", data("{\"n\":\"2\"}")}}), op("RetryJob", i, {{"delay", "30"}, {"ignoreRepeat", "true"}}), op("RetryJob", i), op("FailJob", i), op("UpdateJob", i, {{"data", "{\"n\":\"3\"}"}, {"repeat", "SCHEDULED, +2 HOURS"}})}) o.push_back(x);
    if (!few) for (auto& x : {op("FinishJob", i, {{"data", data("{\"delete\":\"true\"}")}}), op("FinishJob", i, {{"data", mock ? "{\"n\":\"5\"}" : "{\"mockRequest\":true}"}}), op("RetryJob", i, {{"nextRun", "2023-12-24 18:00:00"}, {"data", data("{\"n\":\"4\"}")}}),
        op("RetryJob", i, {{"nextRun", "2023-12-24 18:00:00"}, {"ignoreRepeat", "true"}, {"name", "www/y"}, {"jobPriority", "850"}}), op("RetryJob", i, {{"delay", "-1"}, {"ignoreRepeat", "true"}}), op("RetryJob", i, {{"delay", "5"}, {"jobPriority", "3"}}),
        op("FailJob", i, {{"data", data("{\"n\":\"6\"}")}}), op("DeleteJob", i), op("QueryJob", i), op("CancelJob", i), requeue(i), requeue(i, true, "www/z"),
        op("UpdateJob", i, {{"data", "{\"n\":\"7\"}"}, {"nextRun", "2023-11-14 01:00:00"}, {"jobPriority", "1000"}}), op("UpdateJob", i, {{"data", "{\"mockRequest\":true}"}, {"shouldClearRepeat", "1"}}), op("UpdateJob", i, {{"data", "{}"}, {"repeat", "sometimes"}}), op("UpdateJob", i, {{"data", "{}"}, {"jobPriority", "1"}})}) o.push_back(x);
    return o;
}
// Creation: unique, overwriting, refused values, batches.
static vector<Op> creating(const Node& n) {
    vector<Op> o; map<string, string> u = {{"name", "u"}, {"unique", "true"}}; auto with = [](map<string, string> m, map<string, string> p) { for (auto& [k, v] : p) m[k] = v; return m; };
    for (auto& p : vector<map<string, string>>{{}, {{"data", "{\"a\":\"1\"}"}}, {{"data", "{\"b\":\"2\"}"}, {"repeat", "DAILY"}, {"jobPriority", "1000"}}, {{"data", "{\"a\":\"3\"}"}, {"overwrite", "false"}}, {{"data", "{\"a\":\"4\"}"}, {"overwrite", "true"}}, {{"mockRequest", "true"}}, {{"mockRequest", "true"}, {"data", "{\"a\":\"1\"}"}}, {{"name", "v"}}, {{"retryAfter", "+1 HOUR"}}})
        o.push_back(create(with(u, p)));
    Op b = create({{"name", "u"}, {"unique", "true"}, {"data", "{\"a\":\"1\"}"}}); b.verb = "CreateJobs"; o.push_back(b); Op c = create({{"name", "w"}}); c.verb = "CreateJobs"; o.push_back(c); Op d = create({{"name", "q"}, {"jobPriority", "4"}}); d.verb = "CreateJobs"; o.push_back(d);
    for (auto& p : vector<map<string, string>>{{{"name", "p"}, {"jobPriority", "1"}}, {{"name", "p"}, {"data", "nonsense"}}, {{"name", "p"}, {"repeat", "never, +1 DAY"}}, {{"name", "p"}, {"retryAfter", "soon"}}, {{"name", "p"}, {"data", "{}"}}}) o.push_back(create(p));
    if (!n.m.jobs.empty()) { int i = n.m.jobs.begin()->first; o.push_back(create({{"name", "child"}}, i)); o.push_back(create({{"name", "u"}, {"unique", "true"}, {"data", "{\"c\":\"1\"}"}}, i)); o.push_back(op("DeleteJob", i)); o.push_back(op("FinishJob", i)); } else o.push_back(create({{"name", "child"}}, 7));
    o.push_back(op("GetJobs", -1, {{"name", "*"}, {"numResults", "2"}})); o.push_back(op("GetJob", -1, {{"name", "u"}, {"getMockedJobs", "true"}}));
    for (auto& v : {"FinishJob", "RetryJob", "CancelJob", "FailJob", "DeleteJob", "QueryJob", "UpdateJob"}) { Op x = op(v, 9); if (string(v) == "UpdateJob") x.args["data"] = "{}"; if (n.m.jobs.empty()) o.push_back(x); }
    return o;
}
void mc::registerScenarios() {
    bool T = thorough(); Options o; o.concurrent = true; o.maxSteps = 2000000; o.bounds = {0};
    add("one job, all commands", [T] { static auto p = populations(); exploreJobs(1, p, [](const Node& n) { return ops(n, false); }, T ? 4 : 2); }, o);
    add("one job, commands that move it", [T] { static auto p = populations(); exploreJobs(2, p, [](const Node& n) { return ops(n, true); }, T ? 7 : 5); }, o);
    add("creating", [T] { static vector<vector<Op>> p = {{}}; exploreJobs(3, p, creating, T ? 5 : 3); }, o);
    add("a job at the end of a period", [T] { static auto p = periods(); exploreJobs(4, p, [](const Node& n) { return ops(n, true); }, T ? 4 : 2); }, o);
    setRuleText("kinds of job, and sequences of job commands and time steps on them");
}
