// Job commands executed by the real plugin, compared after every command with an independent model of the job queue.
#pragma once
#include "core.h"
#include <plugins/Jobs.h>
typedef map<string, string> Data;
struct Job { string name, state, created, next, last, repeat, retry; Data data; int prio = 500, parent = -1; };
struct Model { map<int, Job> jobs; int made = 0; };
struct Op { string verb; map<string, string> args; int job = -1, parent = -1; uint64_t advance = 0; vector<int> requeue; string show() const { string s = verb; if (job >= 0) s += " #" + to_string(job); for (auto& [k, v] : args) s += " " + k + "=" + v; if (parent >= 0) s += " child of #" + to_string(parent); if (advance) s += " " + to_string(advance / 1000000) + "s"; for (int q : requeue) s += " #" + to_string(q); return s; } };
struct Node { shim::ImagePtr image; Model m; vector<string> ids; uint64_t clock = 0; string trace; set<string> off; };
static BedrockServer& jobServer() { static BedrockServer& s = fakeServer({{"-plugins", "Jobs"}}); return s; }
static BedrockPlugin_Jobs& jobPlugin() { static BedrockPlugin_Jobs* p = new BedrockPlugin_Jobs(jobServer()); return *p; }
static const string& calc(const string& expr) {
    static map<string, string> memo; auto it = memo.find(expr); if (it != memo.end()) return it->second;
    rt::NoPoints np; shim::Db d(shim::freshName("calc")); bool ok; auto r = d.query("SELECT " + expr + ";", &ok); if (!ok || r.empty()) mc::internalError("calc %s: %s", expr.c_str(), d.error.c_str());
    return memo[expr] = r[0][0] == "~" ? "" : r[0][0];
}
static string stamp(uint64_t us) { time_t t = us / 1000000; struct tm tm; gmtime_r(&t, &tm); char b[64]; strftime(b, sizeof b, "%Y-%m-%d %H:%M:%S", &tm); return b; }
static string stampMs(uint64_t us) { char b[16]; snprintf(b, sizeof b, ".%03d", (int) (us / 1000 % 1000)); return stamp(us) + b; }
static string secs(const string& t) { return "CAST(STRFTIME('%s', '" + t + "') AS INTEGER)"; }
static string upper(string s) { for (auto& c : s) c = toupper(c); return s; }
static Data parseData(const string& s) { Data d; for (auto& [k, v] : SParseJSONObject(s)) d[k] = v; return d; }
static bool mocked(const Data& d) { return d.count("mockRequest"); }
static int num(const Data& d, const string& k) { auto i = d.find(k); return i == d.end() ? 0 : atoi(i->second.c_str()); }
// When a job with this repeat runs next; empty if the repeat is not valid.
static string nextRun(uint64_t now, const string& scheduled, const string& started, string repeat) {
    repeat = upper(repeat); string n = stamp(now);
    if (repeat.empty()) return "";
    if (repeat == "HOURLY") return calc("STRFTIME('%Y-%m-%d %H:00:00', '" + n + "', '+1 HOUR')");
    if (repeat == "DAILY") return calc("DATETIME('" + n + "', '+1 DAY', 'START OF DAY')");
    if (repeat == "WEEKLY") return calc("DATETIME('" + n + "', '+1 DAY', 'WEEKDAY 0', 'START OF DAY')");
    vector<string> parts; for (auto& p : SParseList(repeat)) parts.push_back(p);
    if (parts.size() < 2) return "";
    string base = parts[0] == "SCHEDULED" ? scheduled : parts[0] == "STARTED" ? started : parts[0] == "FINISHED" ? n : "?"; if (base == "?") return "";
    string t = base; bool fixed = true;
    for (size_t i = 1; i < parts.size(); i++) { if (parts[i][0] != '+' && parts[i][0] != '-') fixed = false; t = parts[i] == "START OF HOUR" ? calc("STRFTIME('%Y-%m-%d %H:00:00', '" + t + "')") : calc("DATETIME('" + t + "', '" + parts[i] + "')"); }
    if (parts[0] == "SCHEDULED" && fixed && t <= n) {
        long interval = atol(calc(secs(t) + "-" + secs(scheduled)).c_str()), late = atol(calc(secs(n) + "-" + secs(scheduled)).c_str());
        if (interval > 0 && interval < 4 * 3600) { long k = 1; while (k * interval <= late) k++; t = calc("DATETIME('" + scheduled + "', '+" + to_string(k * interval) + " SECONDS')"); }
    }
    return calc("DATETIME('" + t + "')");
}
static bool validRepeat(const string& r) { static const set<string> bad = {"SOMETIMES", "FINISHED", "FINISHED, SOON", "NEVER, +1 DAY", "SCHEDULED, +1"}; return !bad.count(upper(r)); }
static bool validPrio(int p) { return p == 0 || p == 250 || p == 500 || p == 750 || p == 850 || p == 1000; }
static bool glob(const string& pat, const string& s) { auto star = pat.find('*'); if (star == string::npos) return pat == s; return s.size() >= pat.size() - 1 && s.compare(0, star, pat, 0, star) == 0 && s.substr(s.size() - (pat.size() - star - 1)) == pat.substr(star + 1); }
static bool pendingChild(const Model& m, int id) { for (auto& [i, j] : m.jobs) if (j.parent == id && (j.state == "QUEUED" || j.state == "RUNQUEUED" || j.state == "RUNNING" || j.state == "PAUSED")) return true; return false; }
static string jobsOf(const Model& m, const vector<string>* ids = nullptr) {
    string o; for (auto& [i, j] : m.jobs) { o += "#" + to_string(i) + " " + j.name + " " + j.state + " prio=" + to_string(j.prio) + " next=" + j.next + " last=" + j.last + " created=" + j.created + " repeat=" + j.repeat + " retry=" + j.retry + (j.parent >= 0 ? " parent=#" + to_string(j.parent) : "") + " {"; for (auto& [k, v] : j.data) o += k + ":" + v + " "; o += "}\n"; }
    return o;
}
static Model stored(const Node& n) {
    Model m; m.made = n.m.made; rt::NoPoints np; shim::Db d(n.image); map<string, int> idx; for (size_t i = 0; i < n.ids.size(); i++) idx[n.ids[i]] = i;
    for (auto& r : d.query("SELECT jobID, state, name, nextRun, lastRun, repeat, data, priority, parentJobID, retryAfter, created FROM jobs;")) {
        if (!idx.count(r[0])) mc::fail("a job nobody was told about exists: %s%s", r[0].c_str(), n.trace.c_str());
        Job j; j.state = r[1]; j.name = r[2]; j.next = r[3]; j.last = r[4] == "~" ? "" : r[4]; j.repeat = r[5]; j.data = parseData(r[6]); j.prio = atoi(r[7].c_str()); j.retry = r[9]; j.created = r[10];
        if (r[8] != "0") j.parent = idx.count(r[8]) ? idx[r[8]] : 999; m.jobs[idx[r[0]]] = j;
    }
    return m;
}
// Executes one command on the real code and on the model, and compares.
static Node step(const Node& from, const Op& op) {
    Node n = from; n.trace += "\n  " + op.show(); mc::note("%s", op.show().c_str());
    if (op.verb == "advance") { n.clock += op.advance; return n; }
    n.clock += 1000000; uint64_t now = n.clock;
    if (rt::nowUs() < now) rt::advanceUs(now - rt::nowUs());
    string T = n.trace; Model& m = n.m; auto code = [](const string& s) { return s.substr(0, 3); };
    // --- the real code
    gRandom = mc::hashStr(n.trace);
    SData req(op.verb); for (auto& [k, v] : op.args) req[k] = v;
    auto idOf = [&](int i) { return i < (int) n.ids.size() ? n.ids[i] : string("424242"); };
    if (op.job >= 0) req["jobID"] = idOf(op.job); if (op.parent >= 0) req["parentJobID"] = idOf(op.parent);
    if (op.verb == "RequeueJobs") { string l; for (int i : op.requeue) l += (l.empty() ? "" : ",") + idOf(i); req["jobIDs"] = l; }
    string batch; if (op.verb == "CreateJobs") { STable t; for (auto& [k, v] : op.args) t[k] = v; if (op.parent >= 0) t["parentJobID"] = idOf(op.parent); STable u = t; u["name"] = t["name"] + "2"; list<string> l = {SComposeJSONObject(t), SComposeJSONObject(u)}; SData q("CreateJobs"); q["jobs"] = SComposeJSONArray(l); if (op.args.count("mockRequest")) q["mockRequest"] = "true"; req = q; }
    Ran ran;
    static set<string> off;
    // The names that are switched off are in the memory of the plugin.
    if (off != n.off) { string f = "offdb"; shim::seed(f, n.image); SQLite db(f, 0, 1000000, 0); auto run = [&](SData r) { auto c = runCommand(db, jobServer(), jobPlugin().getCommand(SQLiteCommand(move(r)))); MC_CHECK(c.response.methodLine == "200 OK", "switching jobs off: %s", c.response.methodLine.c_str()); }; run(SData("ClearCrashedBedrockJobs")); if (!n.off.empty()) { SData c("CrashBedrockJob"); c["names"] = SComposeList(n.off); run(c); } off = n.off; }
    { string f = "jobsdb"; shim::seed(f, n.image); { SQLite db(f, 0, 1000000, 0); auto cmd = jobPlugin().getCommand(SQLiteCommand(move(req))); MC_CHECK(cmd != nullptr, "%s is not a command of the plugin", op.verb.c_str()); ran = runCommand(db, jobServer(), move(cmd)); }
      n.image = shim::image(f); }
    string got = code(ran.response.methodLine); STable json = SParseJSONObject(ran.response.content);
    // --- the model
    auto arg = [&](const string& k) { auto i = op.args.find(k); return i == op.args.end() ? string() : i->second; };
    string want = "200"; Model before = m; auto refuse = [&](const string& c) { m = before; want = c; };
    auto target = m.jobs.find(op.job); Job* j = target == m.jobs.end() ? nullptr : &target->second;
    auto createOne = [&](string name, bool single, string& error) -> int {   // index of the job, or -1
        int prio = op.args.count("jobPriority") ? atoi(arg("jobPriority").c_str()) : 500; bool mock = op.args.count("mockRequest");
        if (!validPrio(prio)) { error = "402"; return -1; }
        Data data = arg("data").empty() ? Data() : parseData(arg("data")); if (!arg("data").empty() && data.empty() && arg("data") != "{}") { error = "402"; return -1; }
        if (arg("retryAfter") == "soon") { error = "402"; return -1; }
        if (op.parent >= 0) { auto p = m.jobs.find(op.parent); if (p == m.jobs.end()) { error = "404"; return -1; } if (p->second.state != "RUNNING" && p->second.state != "RUNQUEUED" && p->second.state != "PAUSED") { error = "405"; return -1; } mock = mocked(p->second.data); }
        if (mock) data["mockRequest"] = "true";
        int existing = -1; if (arg("unique") == "true") for (auto& [i, e] : m.jobs) if (e.name == name && mocked(e.data) == mock) existing = i;
        if (existing >= 0 && m.jobs[existing].parent >= 0 && m.jobs[existing].parent != op.parent) { error = "404"; return -1; }
        if (existing >= 0 && m.jobs[existing].data == data) return existing;
        string repeat = mock ? "" : arg("repeat"); if (!repeat.empty() && !validRepeat(repeat)) { error = "402"; return -1; }
        if (op.parent >= 0 && m.jobs[op.parent].parent >= 0) { error = "405"; return -1; }
        if (existing >= 0) { if (arg("overwrite") != "false") { Job& e = m.jobs[existing]; e.repeat = upper(repeat); for (auto& [k, v] : data) e.data[k] = v; e.prio = prio; } return existing; }
        Job e; e.name = name; e.state = op.parent >= 0 && m.jobs[op.parent].state != "PAUSED" ? "PAUSED" : "QUEUED"; e.created = stamp(now); e.next = arg("firstRun").empty() ? stampMs(now) : arg("firstRun"); e.repeat = upper(repeat); e.retry = arg("retryAfter"); e.data = data; e.prio = prio; e.parent = op.parent;
        m.jobs[m.made] = e; return m.made++;
    };
    if (op.verb == "CreateJob") {
        string error; int made = m.made; int i = createOne(arg("name"), true, error);
        if (!error.empty()) refuse(error);
        else { if (got == "200") { if (i == made) n.ids.push_back(json["jobID"]); MC_CHECK(json["jobID"] == n.ids[i], "CreateJob answers with job %s instead of #%d (%s)%s", json["jobID"].c_str(), i, n.ids[i].c_str(), T.c_str()); } }
    } else if (op.verb == "CreateJobs") {
        string error; int made = m.made; vector<int> ix; for (auto& suffix : {"", "2"}) { if (error.empty()) ix.push_back(createOne(arg("name") + suffix, false, error)); }
        if (!error.empty()) refuse(error);
        else if (got == "200") { auto l = SParseJSONArray(json["jobIDs"]); MC_CHECK(l.size() == 2, "CreateJobs answers with %zu jobs%s", l.size(), T.c_str()); int k = 0; for (auto& id : l) { if (ix[k] >= made) n.ids.push_back(id); MC_CHECK(n.ids[ix[k]] == id, "CreateJobs answers with the wrong job%s", T.c_str()); k++; } }
    } else if (op.verb == "GetJob" || op.verb == "GetJobs") {
        bool mock = op.args.count("mockRequest") || op.args.count("getMockedJobs"); size_t limit = op.verb == "GetJobs" ? max(1, atoi(arg("numResults").c_str())) : 1; list<string> names = SParseList(arg("name"));
        if ((op.verb == "GetJobs") != (bool) op.args.count("numResults")) want = "402";
        else if (op.args.count("jobPriority") && !validPrio(atoi(arg("jobPriority").c_str()))) want = "402";
        else {
            vector<int> due; for (auto& [i, e] : m.jobs) {
                if (e.state != "QUEUED" && e.state != "RUNQUEUED") continue; if (e.next > stampMs(now)) continue; if (!mock && mocked(e.data)) continue;
                if (op.args.count("jobPriority") && e.prio != atoi(arg("jobPriority").c_str())) continue;
                bool match = false; if (names.size() > 1) { for (auto& x : names) match |= x == e.name; } else match = glob(arg("name"), e.name); if (match) due.push_back(i);
            }
            Model after = n.off.empty() ? Model() : stored(n); set<string> given; for (auto& [i, e] : after.jobs) if (e.state == "FAILED") given.insert(n.ids[i]); auto isOff = [&](const string& name) { bool o = false; for (auto& x : n.off) o |= glob(x, name); return o; };
            for (auto& x : op.verb == "GetJob" ? list<string>{ran.response.content} : SParseJSONArray(json["jobs"])) given.insert(SParseJSONObject(x)["jobID"]);   // any order among equals
            vector<string> order; if (op.verb == "GetJobs") for (auto& x : SParseJSONArray(json["jobs"])) order.push_back(SParseJSONObject(x)["jobID"]); auto place = [&](int i) { return find(order.begin(), order.end(), n.ids[i]) - order.begin(); };
            sort(due.begin(), due.end(), [&](int a, int b) { auto &x = m.jobs[a], &y = m.jobs[b]; if (x.prio != y.prio) return x.prio > y.prio; if (x.next != y.next) return x.next < y.next; if (given.count(n.ids[a]) != given.count(n.ids[b])) return given.count(n.ids[a]) > given.count(n.ids[b]); return place(a) != place(b) ? place(a) < place(b) : a < b; });
            if (due.size() > limit) due.resize(limit);
            if (due.empty()) want = "404";
            else if (got == "200") {
                vector<int> give; list<string> answers; if (op.verb == "GetJob") { if (ran.response.content != "{}") answers.push_back(ran.response.content); } else answers = SParseJSONArray(json["jobs"]);
                for (int i : due) {
                    Job& e = m.jobs[i]; bool over = !e.retry.empty() && num(e.data, "retryAfterCount") >= 10;
                    if (over || isOff(e.name)) { e.state = "FAILED"; continue; }
                    give.push_back(i); MC_CHECK(!answers.empty(), "job #%d (%s) is due but was not handed out%s\n%s", i, e.name.c_str(), T.c_str(), jobsOf(before).c_str());
                    STable a = SParseJSONObject(answers.front()); answers.pop_front();
                    string who = "?"; for (size_t k = 0; k < n.ids.size(); k++) if (n.ids[k] == a["jobID"]) who = to_string(k);
                    MC_CHECK(a["jobID"] == n.ids[i], "job #%s was handed out instead of #%d%s\n%s", who.c_str(), i, T.c_str(), jobsOf(before).c_str());
                    MC_CHECK(a["name"] == e.name && parseData(a["data"]) == e.data && a["created"] == e.created && a["repeat"] == e.repeat && a["retryAfter"] == e.retry && a["lastRun"] == e.last && a["nextRun"] == e.next && a["priority"] == to_string(e.prio), "job #%d was handed out with other values: %s%s\n%s", i, SComposeJSONObject(a).c_str(), T.c_str(), jobsOf(before).c_str());
                    if (e.parent >= 0) { MC_CHECK(a["parentJobID"] == n.ids[e.parent] && parseData(a["parentData"]) == (m.jobs.count(e.parent) ? m.jobs[e.parent].data : Data()), "job #%d was handed out without its parent's data%s", i, T.c_str()); } else MC_CHECK(!a.count("parentJobID"), "job #%d was handed out with a parent%s", i, T.c_str());
                    map<string, Data> fin, can; for (auto& [k, c] : m.jobs) if (c.parent == i) { if (c.state == "FINISHED") fin[n.ids[k]] = c.data; if (c.state == "CANCELLED") can[n.ids[k]] = c.data; }
                    auto list = [&](const string& key) { map<string, Data> o; for (auto& x : SParseJSONArray(a[key])) { STable t = SParseJSONObject(x); o[t["jobID"]] = parseData(t["data"]); } return o; };
                    MC_CHECK(list("finishedChildJobs") == fin && list("cancelledChildJobs") == can, "job #%d was handed out with the wrong children: %s%s\n%s", i, SComposeJSONObject(a).c_str(), T.c_str(), jobsOf(before).c_str());
                    mc::compared(4);
                    if (e.retry.empty()) { e.state = "RUNNING"; e.last = stamp(now); }
                    else {
                        string retryAt = calc("DATETIME('" + stamp(now) + "', '" + e.retry + "')"), again = nextRun(now, e.next, stamp(now), e.repeat), next = !again.empty() && again > stamp(now) ? min(retryAt, again) : retryAt;
                        e.state = "RUNQUEUED"; e.last = stamp(now);
                        if (e.name.compare(0, 6, "manual")) { e.data["retryAfterCount"] = to_string(num(e.data, "retryAfterCount") + 1); if (e.repeat.find("SCHEDULED") != string::npos) e.data["originalNextRun"] = e.next; }
                        e.next = next;
                    }
                }
                MC_CHECK(answers.empty(), "a job that is not due was handed out: %s%s\n%s", answers.empty() ? "" : answers.front().c_str(), T.c_str(), jobsOf(before).c_str());
            }
        }
    } else if (op.verb == "CrashBedrockJob" || op.verb == "ClearCrashedBedrockJobs") {
        if (op.args.count("_source")) want = "401"; else if (op.verb == "CrashBedrockJob") { for (auto& x : SParseList(arg("names"))) n.off.insert(x); } else n.off.clear();
        set<string> real; STable info = jobPlugin().getInfo(); for (auto& x : SParseJSONArray(info["crashedBedrockJobList"])) real.insert(x); MC_CHECK(real == n.off, "the jobs \"%s\" are switched off instead of \"%s\"%s", SComposeList(real).c_str(), SComposeList(n.off).c_str(), T.c_str()); off = n.off;
    } else if (op.verb == "RequeueJobs") {
        for (int i : op.requeue) if (m.jobs.count(i)) { Job& e = m.jobs[i]; e.state = "QUEUED"; e.next = e.created; if (!arg("name").empty()) e.name = arg("name"); if (arg("decrementFailures") == "true") e.data["retryAfterCount"] = to_string((e.data.count("retryAfterCount") ? num(e.data, "retryAfterCount") : 1) - 1); }
    } else if (!j) want = "404";
    else if (op.verb == "QueryJob") {
        if (got == "200") MC_CHECK(json["jobID"] == n.ids[op.job] && json["name"] == j->name && json["state"] == j->state && json["nextRun"] == j->next && json["lastRun"] == j->last && json["repeat"] == j->repeat && parseData(json["data"]) == j->data && json["retryAfter"] == j->retry && json["priority"] == to_string(j->prio) && json["created"] == j->created, "QueryJob answers %s for%s\n%s", ran.response.content.c_str(), T.c_str(), jobsOf(m).c_str());
    } else if (op.verb == "UpdateJob") {
        if (!arg("repeat").empty() && !validRepeat(arg("repeat"))) want = "402"; else if (op.args.count("jobPriority") && !validPrio(atoi(arg("jobPriority").c_str()))) want = "402";
        else {
            bool mock = mocked(j->data); j->data = parseData(arg("data")); j->data.erase("mockRequest"); if (mock) j->data["mockRequest"] = "true";
            string next = arg("nextRun"); if (next.empty() && !arg("repeat").empty()) next = nextRun(now, j->next, j->last, arg("repeat"));
            if (arg("shouldClearRepeat") == "1") j->repeat = ""; else if (!arg("repeat").empty()) j->repeat = upper(arg("repeat"));
            if (!next.empty()) j->next = next; if (op.args.count("jobPriority")) j->prio = atoi(arg("jobPriority").c_str());
        }
    } else if (op.verb == "CancelJob") {
        bool kids = false; for (auto& [i, e] : m.jobs) kids |= e.parent == op.job;
        if (kids || j->parent < 0) want = "404";
        else if (j->state == "FINISHED" || j->state == "RUNNING" || j->state == "PAUSED") {}
        else { int parent = j->parent; j->state = "CANCELLED"; bool open = false; for (auto& [i, e] : m.jobs) open |= e.parent == parent && (e.state == "QUEUED" || e.state == "RUNQUEUED" || e.state == "RUNNING"); if (!open && m.jobs.count(parent) && m.jobs[parent].state == "PAUSED") m.jobs[parent].state = "QUEUED"; }
    } else if (op.verb == "FailJob") {
        if (j->state != "RUNNING" && j->state != "RUNQUEUED") want = "405"; else { j->state = "FAILED"; if (op.args.count("data")) j->data = parseData(arg("data")); }
    } else if (op.verb == "DeleteJob") {
        if (j->state == "RUNNING" || j->state == "PAUSED") want = "405";
        else { int parent = j->parent; m.jobs.erase(op.job); if (parent >= 0 && m.jobs.count(parent) && m.jobs[parent].state == "PAUSED" && !pendingChild(m, parent)) m.jobs[parent].state = "QUEUED"; }
    } else if (op.verb == "FinishJob" || op.verb == "RetryJob") {
        bool finish = op.verb == "FinishJob", mock = mocked(j->data); string repeat = j->repeat;
        if (j->state != "RUNNING" && j->state != "RUNQUEUED" && !mock) want = "405";
        else if (j->parent >= 0 && (!m.jobs.count(j->parent) || m.jobs[j->parent].state != "PAUSED")) want = "405";
        else do {
            for (auto it = m.jobs.begin(); it != m.jobs.end();) if (it->second.parent == op.job && (it->second.state == "FINISHED" || it->second.state == "CANCELLED")) it = m.jobs.erase(it); else ++it;
            string original = j->data.count("originalNextRun") ? j->data["originalNextRun"] : "", lastRun = j->last;
            if (!arg("data").empty()) { Data d = parseData(arg("data")); if (mocked(d) != mock) { refuse("500"); break; } if (d.count("delete") && d["delete"] == "true") repeat = ""; j->data = d; }
            j->data.erase("retryAfterCount");
            if (finish && pendingChild(m, op.job)) { j->state = "PAUSED"; j->next = lastRun; for (auto& [i, e] : m.jobs) if (e.parent == op.job && e.state == "PAUSED") e.state = "QUEUED"; break; }
            if (!finish) { if (!arg("name").empty()) j->name = arg("name"); if (op.args.count("jobPriority")) { int p = atoi(arg("jobPriority").c_str()); if (!validPrio(p)) { refuse("402"); break; } j->prio = p; } }
            string next;
            if (!repeat.empty() && arg("ignoreRepeat") != "true") { string sched = j->next; if (!j->retry.empty() && repeat.find("SCHEDULED") != string::npos && !original.empty()) sched = original; next = nextRun(now, sched, lastRun, repeat); }
            else if (!finish) { if (!arg("nextRun").empty()) next = arg("nextRun"); else { if (atoi(arg("delay").c_str()) < 0) { refuse("402"); break; } next = nextRun(now, "", "", "FINISHED, +" + to_string(atoi(arg("delay").c_str())) + " SECONDS"); } }
            if (!next.empty()) { j->next = next; j->state = "QUEUED"; break; }
            if (j->parent >= 0) { j->state = "FINISHED"; int p = j->parent; if (!pendingChild(m, p) && m.jobs.count(p)) m.jobs[p].state = "QUEUED"; break; }
            bool kids = false; for (auto& [i, e] : m.jobs) kids |= e.parent == op.job;
            if (kids) { refuse("405"); break; }
            m.jobs.erase(op.job);
        } while (false);
    } else mc::internalError("verb %s", op.verb.c_str());
    MC_CHECK(got == want, "%s answers \"%s\" instead of %s%s\n%s", op.show().c_str(), ran.response.methodLine.c_str(), want.c_str(), T.c_str(), jobsOf(before).c_str());
    if (want != "200") MC_CHECK(!ran.committed, "%s was refused with %s but committed something%s", op.show().c_str(), want.c_str(), T.c_str());
    string a = jobsOf(m), b = jobsOf(stored(n));
    MC_CHECK(a == b, "after%s\nthe jobs are\n%sinstead of\n%s", T.c_str(), b.c_str(), a.c_str());
    mc::compared(2);
    return n;
}
static Node emptyQueue() {
    static shim::ImagePtr im;
    if (!im) { rt::NoPoints np; string f = shim::freshName("seed"); { SQLite db(f, 0, 1000000, 0); MC_CHECK(db.beginTransaction(), "begin"); jobPlugin().upgradeDatabase(db); uint64_t id; string h; MC_CHECK(db.prepare(&id, &h) && db.commit("setup") == 0, "setup"); } im = shim::image(f); }
    Node n; n.image = im; n.clock = rt::nowUs() / 1000000 * 1000000 + 3600000000ull; return n;
}
// Seconds until the next command would run exactly a whole number of intervals after the time this job was scheduled for (0: now; -1: no such interval).
static long toBoundary(const Node& n, const Job& j) {
    auto parts = SParseList(j.repeat); if (parts.size() < 2 || parts.front() != "SCHEDULED" || j.state == "QUEUED") return -1; parts.pop_front(); string sched = j.data.count("originalNextRun") && !j.retry.empty() ? j.data.at("originalNextRun") : j.next, t = sched;
    for (auto& p : parts) { if (p[0] != '+' && p[0] != '-') return -1; t = calc("DATETIME('" + t + "', '" + p + "')"); }
    long interval = atol(calc(secs(t) + "-" + secs(sched)).c_str()), late = n.clock / 1000000 + 1 - atol(calc(secs(sched)).c_str()); if (interval <= 0 || interval >= 4 * 3600 || late < 0) return -1; return (interval - late % interval) % interval;
}
// States are identified up to the identity of jobs, and times up to their order and distance from now.
static uint64_t hashNode(const Node& n) {
    string now = stampMs(n.clock), o; vector<string> order; for (auto& [i, j] : n.m.jobs) { order.push_back(j.next); order.push_back(j.created); } sort(order.begin(), order.end()); order.erase(unique(order.begin(), order.end()), order.end());
    auto rank = [&](const string& t) { return to_string(lower_bound(order.begin(), order.end(), t) - order.begin()); };
    for (auto& [i, j] : n.m.jobs) { o += to_string(i) + j.name + "/" + j.state + "/" + to_string(j.prio) + "/" + to_string(j.parent) + "/" + j.retry + "/" + j.repeat + "/" + rank(j.next) + "/" + rank(j.created) + (j.next > now ? calc(secs(j.next) + "-" + secs(stamp(n.clock))) : j.repeat.empty() ? "due" : calc("(" + secs(j.next) + "-" + secs(stamp(n.clock)) + ")/60")) + "/" + (j.repeat.find("STARTED") != string::npos || j.state == "PAUSED" ? calc("(" + secs(j.last.empty() ? "2000-01-01" : j.last) + "-" + secs(stamp(n.clock)) + ")/60") : j.last.empty() ? "" : "ran") + (toBoundary(n, j) ? "{" : "!{"); for (auto& [k, v] : j.data) o += k + (k == "originalNextRun" ? calc("(" + secs(v) + "-" + secs(stamp(n.clock)) + ")/60") : v) + ","; o += "}"; }
    for (auto& x : n.off) o += x + "|"; return mc::hashStr(o + to_string(n.m.made));
}
static Op op(const string& verb, int job = -1, map<string, string> args = {}) { Op o; o.verb = verb; o.job = job; o.args = args; return o; }
static Op advance(uint64_t s) { Op o; o.verb = "advance"; o.advance = s * 1000000; return o; }
static Op create(map<string, string> args, int parent = -1) { Op o; o.verb = "CreateJob"; o.args = args; o.parent = parent; return o; }
static Op requeue(int i, bool dec = false, const string& name = "") { Op o; o.verb = "RequeueJobs"; o.requeue = {i}; if (dec) o.args["decrementFailures"] = "true"; if (!name.empty()) o.args["name"] = name; return o; }
typedef function<vector<Op>(const Node&)> Ops;
static void exploreJobs(int id, const vector<vector<Op>>& populations, const Ops& ops, int depth) {
    static Explorer<Node> e; sqlSetup(); rt::setClockTick(0); rt::NoPoints np;
    e.run(id, populations.size(), depth, [&](int c) { Node n = emptyQueue(); for (auto& o : populations[c]) n = step(n, o); return n; }, [&](const Node& n) { return (int) ops(n).size(); }, [&](const Node& n, int i) { return step(n, ops(n)[i]); }, hashNode);
}
