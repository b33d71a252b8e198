#include "mc.h"
#include "mcint.h"
#include <atomic>
#include <cerrno>
#include <csignal>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <fcntl.h>
#include <map>
#include <set>
#include <sstream>
#include <fstream>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/prctl.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>

using std::string;
using std::vector;

namespace mc {
namespace {
const int MAXD = 1 << 16;
const int MAXW = 16;
const int MAXJ = 4096;
const size_t NOTEBUF = 1 << 18;
const size_t TABLE = 1ull << 24;

struct Choice { uint16_t chosen, hi, n; uint8_t dev, pad; };
enum Status { IDLE = 0, RUNNING = 1, DONE = 2, VIOL = 3, INTERNAL = 4, RECYCLE = 5 };

struct Slot {
    std::atomic<int> status;
    pid_t pid;
    int scenario, bound;
    int fixed;                 // the first `fixed` choices are not backtracked
    int depth;                 // length of choices valid (prefix to replay)
    int pos;                   // choices consumed in the current execution
    bool fresh;                // start of exec not yet run (prefix ready)
    bool haveJob;
    std::atomic<uint64_t> beat;
    uint64_t execInJob;
    char fp[512];
    char msg[16384];
    size_t noteLen;
    char notes[NOTEBUF];
    Choice stack[MAXD];
};
struct Job { int scenario, bound, fixed; int off, len; };
struct Global {
    std::atomic<int> lock;
    std::atomic<int> nextScenario;   // index into (bound, scenario) list
    std::atomic<int> hungry;
    std::atomic<int> busy;
    std::atomic<bool> stop;
    std::atomic<uint64_t> execs, trans, compares, states, outcomes, devExecs, maxDepth, selfchecks, knownHits;
    std::atomic<uint64_t> doneJobs[64];
    std::atomic<uint64_t> scenExecs[64][8], scenUs[64][8];
    int njobs;
    Job jobs[MAXJ];
    int nsamples;
    char samples[6][8192];
    std::atomic<uint64_t> table[TABLE];
    std::atomic<uint64_t> otable[1 << 20];
    std::atomic<uint64_t> vtable[1 << 23];
    Choice jobbuf[MAXJ][2048];
};
Global* G;
Slot* slots;
Slot* cur = nullptr;
Slot replaySlotDummy;
bool gNoting = false;
bool gReplay = false;
bool gThorough = false;
double gDeadline = 0;
string gRule, gBounds;
struct Scen { string name; std::function<void()> body; Options opt; };
vector<Scen>& scens() { static vector<Scen> v; return v; }
struct Known { string fp, text; };
vector<Known> gKnown;
int gDevUsed = 0;
uint64_t gExecIdx = 0;
string gExecOutcome;

double now() { timespec t; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
void lockG() { int e = 0; while (!G->lock.compare_exchange_weak(e, 1)) { e = 0; syscall(SYS_sched_yield); } }
void unlockG() { G->lock = 0; }

bool insert(std::atomic<uint64_t>* t, size_t size, uint64_t h) {
    if (h == 0) h = 1;
    size_t i = (h * 0x9E3779B97F4A7C15ull) >> 20;
    for (size_t k = 0; k < 4096; k++, i++) {
        auto& c = t[i & (size - 1)];
        uint64_t v = c.load(std::memory_order_relaxed);
        if (v == h) return false;
        if (v == 0) { uint64_t e = 0; if (c.compare_exchange_strong(e, h)) return true; if (e == h) return false; }
    }
    return false;
}
}

bool thorough() { return gThorough; }
bool noting() { return gNoting; }
uint64_t executionIndex() { return gExecIdx; }
void setRuleText(const string& s) { gRule = s; }
void setBoundsText(const string& s) { gBounds = s; }
const Options& currentOptions() { return scens()[cur->scenario].opt; }
int currentBound() { return cur->bound; }

uint64_t hashBytes(const void* p, size_t n, uint64_t h) {
    const unsigned char* c = (const unsigned char*) p;
    for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 1099511628211ull; }
    h ^= h >> 29;
    return h;
}

void add(const string& name, std::function<void()> body, Options opt) { scens().push_back({name, body, opt}); }

[[noreturn]] static void finish(Status s, const string& fp, const string& m) {
    snprintf(cur->fp, sizeof cur->fp, "%s", fp.c_str());
    snprintf(cur->msg, sizeof cur->msg, "%s", m.c_str());
    cur->status = s;
    _exit(s == VIOL ? 3 : 4);
}
void failfp(const string& fp, const string& m) {
    finish(VIOL, fp, m);
}
void fail(const char* fmt, ...) {
    char b[12000]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    finish(VIOL, string("check:") + string(fmt).substr(0, 120), b);
}
void internalError(const char* fmt, ...) {
    char b[12000]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    finish(INTERNAL, "internal", b);
}
void note(const char* fmt, ...) {
    if (!gNoting) return;
    char b[4096]; va_list ap; va_start(ap, fmt); int n = vsnprintf(b, sizeof b - 1, fmt, ap); va_end(ap);
    if (n > (int) sizeof b - 2) n = sizeof b - 2;
    b[n++] = '\n';
    if (gReplay) (void) !write(2, b, n);
    if (cur->noteLen + n < NOTEBUF) { memcpy(cur->notes + cur->noteLen, b, n); cur->noteLen += n; cur->notes[cur->noteLen] = 0; }
}
void state(uint64_t h) { if (insert(G->table, TABLE, h)) G->states++; }
void state(const string& s) { state(hashStr(s)); }
void outcome(const string& s) { gExecOutcome += s; if (insert(G->otable, 1 << 20, hashStr(s))) G->outcomes++; }
void transition(uint64_t n) { cur->beat.fetch_add(1, std::memory_order_relaxed); G->trans.fetch_add(n, std::memory_order_relaxed); }
void compared(uint64_t n) { G->compares.fetch_add(n, std::memory_order_relaxed); }
int deviationsLeft() { return cur->bound - gDevUsed; }

static int doChoose(int n, const char* what, bool dev) {
    if (n <= 0) internalError("choose(%d) at %s", n, what);
    if (n > 60000) internalError("choose(%d) too wide at %s", n, what);
    cur->beat.fetch_add(1, std::memory_order_relaxed);
    int eff = n;
    if (dev && gDevUsed >= cur->bound) eff = 1;
    int i = cur->pos;
    if (i >= MAXD) internalError("choice stack overflow at %s", what);
    Choice& c = cur->stack[i];
    if (i < cur->depth) {
        if (c.n != n || c.chosen >= eff || (bool) c.dev != dev)
            internalError("divergence while replaying prefix: position %d (%s) recorded n=%d dev=%d chosen=%d, now n=%d dev=%d eff=%d", i, what, c.n, c.dev, c.chosen, n, dev, eff);
    } else {
        c.chosen = 0; c.hi = eff; c.n = n; c.dev = dev;
        cur->depth = i + 1;
    }
    cur->pos++;
    if (dev && c.chosen) gDevUsed++;
    if (gNoting && n > 1 && what[0]) note("  [choice %d/%d %s]", c.chosen, n, what);
    return c.chosen;
}
int choose(int n, const char* what) { if (n == 1) return 0; return doChoose(n, what, false); }
int chooseDev(int n, const char* what) { if (n == 1) return 0; return doChoose(n, what, true); }

static bool present(std::atomic<uint64_t>* t, size_t size, uint64_t h) {
    if (h == 0) h = 1;
    size_t i = (h * 0x9E3779B97F4A7C15ull) >> 20;
    for (size_t k = 0; k < 4096; k++, i++) { uint64_t v = t[i & (size - 1)].load(std::memory_order_relaxed); if (v == h) return true; if (v == 0) return false; }
    return false;
}
static std::vector<bool> gAnswers; static size_t gAnswerAt; static bool gRepeat;   // the answers of one execution, given again when it is repeated
static bool visitedNow(uint64_t h, int remaining);
bool visited(uint64_t h, int remaining) {
    if (gRepeat) return gAnswerAt < gAnswers.size() && gAnswers[gAnswerAt++];
    bool r = visitedNow(h, remaining); gAnswers.push_back(r); return r;
}
static bool visitedNow(uint64_t h, int remaining) {
    if (cur->pos < cur->depth) return false;              // this path goes on from here: it has been claimed already
    uint64_t base = (h ^ ((uint64_t) cur->scenario << 56)) * 0x9E3779B97F4A7C15ull;
    for (int r = remaining + 1; r < remaining + 24; r++) if (present(G->vtable, 1 << 23, base + (uint64_t) r)) return true;   // with more steps left: covers this
    return !insert(G->vtable, 1 << 23, base + (uint64_t) remaining);
}
void prune() { cur->status = DONE; _exit(9); }

// Run one execution along cur->stack[0..depth).
static void runOnce() {
    cur->pos = 0; gDevUsed = 0; cur->noteLen = 0; cur->notes[0] = 0; gExecOutcome.clear(); if (!gRepeat) gAnswers.clear();
    cur->beat++;
    Scen& s = scens()[cur->scenario];
    if (s.opt.concurrent && runConcurrentHook) runConcurrentHook(s.body, s.opt);
    else s.body();
    if (cur->pos < cur->depth) internalError("execution consumed %d of %d recorded choices", cur->pos, cur->depth);
    cur->depth = cur->pos;
}
void (*runConcurrentHook)(const std::function<void()>&, const Options&) = nullptr;

static void account() {
    G->execs++;
    if (gDevUsed) G->devExecs++;
    uint64_t d = cur->depth, m = G->maxDepth; while (d > m && !G->maxDepth.compare_exchange_weak(m, d)) {}
}
static bool backtrack() {
    int i = cur->depth - 1;
    while (i >= cur->fixed) {
        Choice& c = cur->stack[i];
        if (c.chosen + 1 < c.hi) { c.chosen++; cur->depth = i + 1; return true; }
        i--;
    }
    return false;
}
static void donate() {
    if (G->hungry.load(std::memory_order_relaxed) <= 0) return;
    for (int i = cur->fixed; i < cur->depth && i < 2000; i++) {
        Choice& c = cur->stack[i];
        if (c.chosen + 1 < c.hi) {
            lockG();
            if (G->njobs < MAXJ && G->hungry > 0) {
                // give away [mid, hi) of choice i; keep (chosen, mid)
                int mid = c.chosen + 1 + (c.hi - c.chosen - 1) / 2;
                Job& j = G->jobs[G->njobs];
                j.scenario = cur->scenario; j.bound = cur->bound; j.fixed = i; j.len = i + 1; j.off = 0;
                memcpy(G->jobbuf[G->njobs], cur->stack, sizeof(Choice) * (i + 1));
                Choice& d = G->jobbuf[G->njobs][i];
                d.chosen = mid;
                c.hi = mid;
                G->njobs++;
                G->hungry--;
            }
            unlockG();
            return;
        }
    }
}
static bool takeJob(const vector<std::pair<int,int>>& list) {
    // Shared donated jobs first, then fresh scenarios.
    lockG();
    if (G->njobs > 0) {
        Job& j = G->jobs[--G->njobs];
        cur->scenario = j.scenario; cur->bound = j.bound; cur->fixed = j.fixed; cur->depth = j.len;
        memcpy(cur->stack, G->jobbuf[G->njobs], sizeof(Choice) * j.len);
        G->busy++;
        unlockG();
        cur->execInJob = 0;
        return true;
    }
    int i = G->nextScenario;
    if (i < (int) list.size()) {
        G->nextScenario++;
        cur->bound = list[i].first; cur->scenario = list[i].second; cur->fixed = 0; cur->depth = 0; cur->execInJob = 0;
        G->busy++;
        unlockG();
        return true;
    }
    unlockG();
    return false;
}

static void sampleMaybe() {
    if (!gNoting || !cur->noteLen) return;
    lockG();
    if (G->nsamples < 6) {
        snprintf(G->samples[G->nsamples], sizeof G->samples[0], "scenario %s, deviation bound %d:\n%.7000s", scens()[cur->scenario].name.c_str(), cur->bound, cur->notes);
        G->nsamples++;
    }
    unlockG();
}

static long rssKB() { long pages = 0, x; FILE* f = fopen("/proc/self/statm", "r"); if (!f) return 0; if (fscanf(f, "%ld %ld", &x, &pages) != 2) pages = 0; fclose(f); return pages * 4; }

// One isolated execution in a child. Returns when it is over; propagates failures by exiting the same way.
static void runIsolated() {
    int depthBefore = cur->depth; (void) depthBefore;
    cur->status = RUNNING;
    pid_t p = fork();
    if (p == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        runOnce();
        account();
        cur->status = DONE;
        if (gNoting) sampleMaybe();
        _exit(0);
    }
    int st;
    while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    if (WIFSIGNALED(st)) {
        // die the same way so that the parent sees it
        snprintf(cur->msg, sizeof cur->msg, "execution killed by signal %d", WTERMSIG(st));
        cur->fp[0] = 0;
        cur->status = VIOL;
        snprintf(cur->fp, sizeof cur->fp, "signal:%d", WTERMSIG(st));
        _exit(3);
    }
    if (cur->status == VIOL) _exit(3);
    if (cur->status == INTERNAL) _exit(4);
    if (WEXITSTATUS(st) != 0 && WEXITSTATUS(st) != 9) {
        snprintf(cur->msg, sizeof cur->msg, "execution exited with code %d", WEXITSTATUS(st));
        snprintf(cur->fp, sizeof cur->fp, "exit:%d", WEXITSTATUS(st));
        cur->status = VIOL;
        _exit(3);
    }
    cur->depth = cur->pos > cur->depth ? cur->pos : cur->depth;
}

static void workerLoop(int w, const vector<std::pair<int,int>>& list) {
    cur = &slots[w];
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    bool wasHungry = false;
    uint64_t n = 0;
    double idleSince = 0;
    for (;;) {
        if (G->stop) _exit(0);
        if (!cur->haveJob) {
            if (!takeJob(list)) {
                if (!wasHungry) { wasHungry = true; lockG(); if (G->hungry < MAXW) G->hungry++; unlockG(); idleSince = now(); }
                if (G->busy == 0) {
                    lockG(); bool none = G->njobs == 0; unlockG();
                    if (none) _exit(0);
                }
                timespec ts{0, 1000000}; syscall(SYS_nanosleep, &ts, nullptr);
                lockG(); if (G->hungry <= 0 && G->njobs == 0) G->hungry = 1; unlockG();
                continue;
            }
            wasHungry = false;
            cur->haveJob = true;
            cur->fresh = true;
        }
        if (gDeadline && now() > gDeadline) { G->stop = true; _exit(8); }
        double tBegin = now(); int si = cur->scenario & 63, bi = cur->bound & 7;
        Scen& s = scens()[cur->scenario];
        cur->status = RUNNING;
        bool sample = (cur->fixed == 0 && cur->execInJob == 0 && G->nsamples < 3) || (cur->execInJob == 37 && G->nsamples < 6);
        gNoting = sample;
        gExecIdx = cur->execInJob;
        if (s.opt.isolate) runIsolated();
        else {
            runOnce(); account();
            if (sample) sampleMaybe();
            // determinism self-check: the same path must give the same choices and outcome
            if (cur->execInJob == 1 || (cur->execInJob & 0x3fff) == 0x2000) {
                string o1 = gExecOutcome; int d1 = cur->depth;
                gNoting = false; gRepeat = true; gAnswerAt = 0;
                runOnce(); gRepeat = false;
                if (cur->depth != d1 || o1 != gExecOutcome) internalError("nondeterminism: replay of one path gave depth %d/%d outcomes <%s> / <%s>", d1, cur->depth, o1.c_str(), gExecOutcome.c_str());
                G->selfchecks++;
            }
        }
        gNoting = false;
        cur->execInJob++;
        n++;
        cur->status = DONE;
        G->scenExecs[si][bi]++; G->scenUs[si][bi] += (now() - tBegin) * 1e6;
        donate();
        if (!backtrack()) { cur->haveJob = false; if (cur->bound < 64) G->doneJobs[cur->bound]++; G->busy--; }
        if ((n & 63) == 0 && rssKB() > 1500 * 1024) { cur->status = RECYCLE; _exit(7); }
    }
}

static string jsonStr(const string& s) {
    string o = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c == '\n') o += "\\n";
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
        else o += c;
    }
    return o + "\"";
}

static pid_t spawn(int w, const vector<std::pair<int,int>>& list) {
    fflush(stdout); fflush(stderr);
    pid_t p = fork();
    if (p == 0) { workerLoop(w, list); _exit(0); }
    slots[w].pid = p;
    return p;
}

static double cpuOf(pid_t p) {
    char path[64]; snprintf(path, sizeof path, "/proc/%d/stat", p);
    FILE* f = fopen(path, "r"); if (!f) return 0;
    char b[1024]; size_t n = fread(b, 1, 1023, f); b[n] = 0; fclose(f);
    char* q = strrchr(b, ')'); if (!q) return 0;
    unsigned long ut = 0, st = 0, cut = 0, cst = 0;
    sscanf(q + 2, "%*c %*d %*d %*d %*d %*d %*u %*u %*u %*u %*u %lu %lu %lu %lu", &ut, &st, &cut, &cst);
    return (ut + st + cut + cst) / (double) sysconf(_SC_CLK_TCK);
}

// Re-run one path in a fresh process; returns status, fills slot messages (with notes).
static int replayPath(Slot& s, double limit, bool verbose) {
    s.status = RUNNING; s.msg[0] = 0; s.fp[0] = 0;
    fflush(stdout); fflush(stderr);
    pid_t p = fork();
    if (p == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        cur = &s; gNoting = true; gReplay = verbose; gExecIdx = 0;
        if (verbose) setvbuf(stderr, nullptr, _IONBF, 0);
        runOnce();
        s.status = DONE;
        _exit(0);
    }
    double t0 = now();
    int st;
    for (;;) {
        pid_t r = waitpid(p, &st, WNOHANG);
        if (r == p) break;
        double cpu = cpuOf(p);
        if (cpu > limit || now() - t0 > limit * 6) {
            kill(p, SIGKILL); waitpid(p, &st, 0);
            snprintf(s.msg, sizeof s.msg, "execution does not terminate (no end within %.0f s of CPU time)", limit);
            snprintf(s.fp, sizeof s.fp, "hang");
            s.status = VIOL;
            return VIOL;
        }
        usleep(2000);
    }
    if (WIFSIGNALED(st)) {
        snprintf(s.msg, sizeof s.msg, "execution killed by signal %d%s", WTERMSIG(st), WTERMSIG(st) == SIGABRT ? " (abort: an assertion of the code failed, or an exception escaped)" : "");
        snprintf(s.fp, sizeof s.fp, "signal:%d", WTERMSIG(st));
        s.status = VIOL;
    } else if (s.status == RUNNING) {
        snprintf(s.msg, sizeof s.msg, "execution called exit (code %d)", WEXITSTATUS(st));
        snprintf(s.fp, sizeof s.fp, "exit:%d", WEXITSTATUS(st));
        s.status = VIOL;
    }
    return s.status;
}

static const Known* knownFor(const string& fp) { for (auto& k : gKnown) if (k.fp == fp) return &k; return nullptr; }

static int mainImpl(int argc, char** argv) {
    string property = "X00", tier = "quick", out, replay, replayDir = ".", knownFile, only; int nw = 8; double budget = 300; bool list = false;
    for (int i = 1; i < argc; i++) {
        string a = argv[i];
        auto nx = [&]() { return string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--property") property = nx();
        else if (a == "--tier") tier = nx();
        else if (a == "--out") out = nx();
        else if (a == "--replay") replay = nx();
        else if (a == "--replay-dir") replayDir = nx();
        else if (a == "--known") knownFile = nx();
        else if (a == "--workers") nw = atoi(nx().c_str());
        else if (a == "--budget") budget = atof(nx().c_str());
        else if (a == "--only") only = nx();
        else if (a == "--list") list = true;
    }
    if (nw > MAXW) nw = MAXW;
    gThorough = tier == "thorough";
    // known findings: lines  KNOWN-FINDING property=<id> fingerprint=<fp> :: <text>
    if (!knownFile.empty()) {
        std::ifstream f(knownFile); string line;
        while (getline(f, line)) {
            if (line.rfind("known:", 0) != 0) continue;
            size_t p = line.find("property=" + property + " "), q = line.find("fingerprint=<");
            if (p == string::npos || q == string::npos) continue;
            size_t e = line.find("> ", q);
            if (e == string::npos) continue;
            gKnown.push_back({line.substr(q + 13, e - q - 13), line.substr(e + 2)});
        }
    }
    void* m = mmap(nullptr, sizeof(Global) + sizeof(Slot) * (MAXW + 2), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (m == MAP_FAILED) { perror("mmap"); return 2; }
    G = (Global*) m;
    slots = (Slot*) ((char*) m + sizeof(Global));
    registerScenarios();
    if (!only.empty()) {
        vector<Scen> keep;
        for (auto& s : scens()) if (s.name.find(only) != string::npos) keep.push_back(s);
        scens() = keep;
    }
    if (list) { for (auto& s : scens()) { printf("%s bounds", s.name.c_str()); for (int b : s.opt.bounds) printf(" %d", b); printf("\n"); } return 0; }
    if (scens().empty()) { fprintf(stderr, "no scenarios\n"); return 2; }

    if (!replay.empty()) {
        std::ifstream f(replay); string line; Slot& s = slots[MAXW]; string sc; int n = 0;
        bool inList = false;
        while (getline(f, line)) {
            if (line.rfind("scenario: ", 0) == 0) sc = line.substr(10);
            else if (line.rfind("bound: ", 0) == 0) s.bound = atoi(line.c_str() + 7);
            else if (line.rfind("choices: ", 0) == 0) {
                std::istringstream is(line.substr(9)); string t;
                while (is >> t) { int c, nn, d; if (sscanf(t.c_str(), "%d/%d/%d", &c, &nn, &d) == 3) { s.stack[n].chosen = c; s.stack[n].n = nn; s.stack[n].dev = d; s.stack[n].hi = c + 1; n++; } }
                inList = true;
            }
        }
        (void) inList;
        s.depth = n; s.scenario = -1;
        for (size_t i = 0; i < scens().size(); i++) if (scens()[i].name == sc) s.scenario = i;
        if (s.scenario < 0) { fprintf(stderr, "unknown scenario %s\n", sc.c_str()); return 2; }
        int r = replayPath(s, 120, true);
        if (r == VIOL) { printf("REPLAYED violation: %s\n", s.msg); return 1; }
        if (r == DONE) { printf("replay finished without violation\n"); return 0; }
        printf("replay internal error: %s\n", s.msg); return 2;
    }

    vector<std::pair<int,int>> jobs;
    std::set<int> bs;
    for (auto& s : scens()) for (int b : s.opt.bounds) bs.insert(b);
    std::map<int, uint64_t> perBound;
    for (int b : bs) for (size_t i = 0; i < scens().size(); i++) for (int x : scens()[i].opt.bounds) if (x == b) { jobs.push_back({b, (int) i}); perBound[b]++; }
    double t0 = now();
    gDeadline = t0 + budget;
    for (int w = 0; w < nw; w++) spawn(w, jobs);
    int alive = nw, exitCode = 0; bool capped = false;
    std::map<int, uint64_t> lastBeat; std::map<int, double> lastCpu, lastWall;
    std::map<string, uint64_t> knownSeen;
    int violations = 0;
    string violText, violReplay;
    auto writeReplay = [&](Slot& s) {
        string safe = scens()[s.scenario].name; for (char& c : safe) if (!isalnum((unsigned char) c)) c = '_';
        string path = replayDir + "/" + property + "_" + safe.substr(0, 60) + ".replay";
        std::ofstream f(path);
        f << "property: " << property << "\ntier: " << tier << "\nscenario: " << scens()[s.scenario].name << "\nbound: " << s.bound << "\nmessage: " << s.msg << "\nfingerprint: " << s.fp << "\nchoices:";
        int last = s.depth; 
        for (int i = 0; i < last; i++) f << " " << s.stack[i].chosen << "/" << s.stack[i].n << "/" << (int) s.stack[i].dev;
        f << "\n--- trace ---\n" << s.notes << "\n";
        return path;
    };
    while (alive > 0) {
        int st; pid_t p = waitpid(-1, &st, WNOHANG);
        if (p <= 0) {
            timespec ts{0, 2000000}; syscall(SYS_nanosleep, &ts, nullptr);
            static int tick = 0;
            if (++tick % 250 == 0) {
                for (int w = 0; w < nw; w++) {
                    Slot& s = slots[w];
                    if (s.pid <= 0 || s.status != RUNNING) { lastBeat[w] = s.beat; lastCpu[w] = s.pid > 0 ? cpuOf(s.pid) : 0; lastWall[w] = now(); continue; }
                    uint64_t b = s.beat;
                    if (b != lastBeat[w] || !lastWall.count(w)) { lastBeat[w] = b; lastCpu[w] = cpuOf(s.pid); lastWall[w] = now(); continue; }
                    bool isolated = scens()[s.scenario].opt.isolate;
                    if ((!isolated && cpuOf(s.pid) - lastCpu[w] > 20) || now() - lastWall[w] > 100) {
                        fprintf(stderr, "worker %d makes no progress; killing\n", w);
                        kill(s.pid, SIGKILL);
                        lastWall[w] = now();
                        s.msg[0] = 0;
                    }
                }
            }
            continue;
        }
        int w = -1;
        for (int i = 0; i < nw; i++) if (slots[i].pid == p) w = i;
        if (w < 0) continue;
        Slot& s = slots[w];
        s.pid = 0;
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0) { alive--; continue; }
        if (WIFEXITED(st) && WEXITSTATUS(st) == 8) { alive--; capped = true; continue; }
        if (WIFEXITED(st) && WEXITSTATUS(st) == 7) {
            if (s.haveJob || !G->stop) spawn(w, jobs); else alive--;
            continue;
        }
        if (G->stop) { alive--; continue; }
        if (WIFEXITED(st) && WEXITSTATUS(st) == 9) {  // pruned path
            if (!([&] { cur = &s; bool b = backtrack(); cur = nullptr; return b; })()) { s.haveJob = false; G->busy--; }
            spawn(w, jobs); continue;
        }
        if (s.status == INTERNAL) {
            fprintf(stderr, "INTERNAL ERROR in scenario %s: %s\n", scens()[s.scenario].name.c_str(), s.msg);
            exitCode = 2; G->stop = true; alive--; continue;
        }
        // Violation, crash or hang: confirm in a fresh process before reporting.
        string firstMsg = s.msg, firstFp = s.fp;
        s.depth = s.pos > s.depth ? s.pos : s.depth;
        Slot& r = slots[MAXW];
        memcpy((void*) &r, (void*) &s, sizeof(Slot));
        int res = replayPath(r, 60, false);
        if (res == VIOL) {
            const Known* k = knownFor(r.fp);
            if (k) {
                G->knownHits++;
                knownSeen[k->fp]++;
                // continue with the next path
                cur = &s; s.execInJob++; bool more = backtrack(); cur = nullptr;
                if (!more) { s.haveJob = false; G->busy--; }
                spawn(w, jobs);
                continue;
            }
            violations++;
            violText = string("scenario ") + scens()[r.scenario].name + ": " + r.msg;
            violReplay = writeReplay(r);
            exitCode = 1; G->stop = true; alive--;
        } else {
            fprintf(stderr, "UNREPRODUCED failure in scenario %s: first run said <%s> (wait status %x), replay status %d <%s>\n", scens()[s.scenario].name.c_str(), firstMsg.c_str(), st, res, r.msg);
            // Explore the scenario again from its start in a fresh process: state carried over between executions is deterministic too.
            r.depth = 0; r.fixed = 0; r.haveJob = true; r.execInJob = 0; r.status = IDLE;
            fflush(stdout); fflush(stderr);
            pid_t q = fork();
            if (q == 0) { prctl(PR_SET_PDEATHSIG, SIGKILL); cur = &r; gDeadline = now() + 60;
                for (;;) { r.status = RUNNING; runOnce(); r.status = DONE; r.execInJob++; if (!backtrack() || now() > gDeadline) _exit(0); } }
            int st2; while (waitpid(q, &st2, 0) < 0 && errno == EINTR) {}
            if (r.status == VIOL || WIFSIGNALED(st2)) {
                violations++;
                if (WIFSIGNALED(st2)) snprintf(r.msg, sizeof r.msg, "killed by signal %d", WTERMSIG(st2));
                snprintf(r.notes, 512, "(appears only when the scenario is explored from its start: state survives between executions; explored %llu executions)\n", (unsigned long long) r.execInJob);
                violText = string("scenario ") + scens()[r.scenario].name + ": " + r.msg;
                violReplay = writeReplay(r);
                exitCode = 1;
            } else exitCode = exitCode ? exitCode : 2;
            G->stop = true; alive--;
        }
    }
    double wall = now() - t0;
    bool exhaustive = !capped && !exitCode;
    std::ostringstream j;
    j << "{\"property\":" << jsonStr(property) << ",\"tier\":" << jsonStr(tier) << ",\"exit\":" << exitCode
      << ",\"executions\":" << G->execs << ",\"states\":" << G->states << ",\"transitions\":" << G->trans << ",\"compared\":" << G->compares
      << ",\"outcomes\":" << G->outcomes << ",\"with_deviations\":" << G->devExecs << ",\"max_choice_depth\":" << G->maxDepth
      << ",\"determinism_replays\":" << G->selfchecks << ",\"scenarios\":" << scens().size() << ",\"exhaustive\":" << (exhaustive ? "true" : "false")
      << ",\"rule\":" << jsonStr(gRule) << ",\"bounds_text\":" << jsonStr(gBounds) << ",\"bounds\":[";
    bool first = true;
    for (auto& b : perBound) { j << (first ? "" : ",") << "{\"bound\":" << b.first << ",\"scenarios\":" << b.second << ",\"completed\":" << ((exhaustive) ? "true" : "false") << "}"; first = false; }
    j << "],\"per_scenario\":[";
    for (size_t i = 0; i < scens().size() && i < 64; i++) { j << (i ? "," : "") << "{\"name\":" << jsonStr(scens()[i].name) << ",\"executions\":{"; bool f1 = true;
        for (int b : scens()[i].opt.bounds) { j << (f1 ? "" : ",") << "\"bound " << b << "\":" << G->scenExecs[i][b & 7]; f1 = false; }
        j << "},\"cpu_s\":{"; f1 = true; for (int b : scens()[i].opt.bounds) { j << (f1 ? "" : ",") << "\"bound " << b << "\":" << G->scenUs[i][b & 7] / 10000 / 100.0; f1 = false; }
        j << "}}"; }
    j << "],\"next_job\":" << G->nextScenario << ",\"jobs\":" << jobs.size() << ",\"wall_s\":" << wall << ",\"violations\":" << violations << ",\"violation\":" << jsonStr(violText) << ",\"replay\":" << jsonStr(violReplay) << ",\"samples\":[";
    for (int i = 0; i < G->nsamples; i++) j << (i ? "," : "") << jsonStr(G->samples[i]);
    j << "],\"known\":[";
    first = true;
    for (auto& k : gKnown) if (knownSeen.count(k.fp)) { j << (first ? "" : ",") << jsonStr(k.text); first = false; }
    j << "]}\n";
    if (!out.empty()) { std::ofstream f(out); f << j.str(); } else printf("%s", j.str().c_str());
    return exitCode;
}
}
int main(int argc, char** argv) { return mc::mainImpl(argc, argv); }
