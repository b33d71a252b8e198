#include "rt.h"
#include "mc.h"
#include "mcint.h"
#include <cxxabi.h>
#include <dlfcn.h>
#include <errno.h>
#include <link.h>
#include <poll.h>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <linux/futex.h>
#include <malloc.h>
#include <time.h>
#include <unistd.h>
#include <map>
#include <unordered_map>
#include <list>
#include <algorithm>

extern "C" char __libc_single_threaded;

namespace rt {
using std::string; using std::vector;
#ifndef RT_MAXF
#define RT_MAXF 48
#endif
const int MAXF = RT_MAXF;
const size_t STACK = 1 << 20;
const uint64_t NEVER = UINT64_MAX;

struct VC { uint32_t c[MAXF]; };
static void vcJoin(VC& a, const VC& b) { for (int i = 0; i < MAXF; i++) if (b.c[i] > a.c[i]) a.c[i] = b.c[i]; }

enum St { RUNNABLE, BLOCKED, DONE };
struct Fiber {
    int id; St st = RUNNABLE; void* sp = nullptr; char* stack = nullptr;
    vector<char> tls; void* eh[2] = {nullptr, nullptr}; int err = 0;
    uint64_t deadline = NEVER; uint64_t hash = 0; bool timedOut = false; bool yielded = false;
    const void* waitAddr = nullptr; const char* waitWhat = ""; std::function<bool()> pred;
    VC vc; VC acqFence; VC relFence; bool hasRelFence = false;
    void* (*fn)(void*) = nullptr; void* arg = nullptr; void* ret = nullptr; bool detached = false; bool joined = false;
    vector<std::pair<void (*)(void*), void*>> dtors;
    string name; int noPoint = 0; uint32_t quiet = 0; bool started = false;
};
static vector<Fiber*> F;
static Fiber* C = nullptr;          // current fiber
static void* mainSp = nullptr;
static void* mainEh[2]; static vector<char> mainTls;
static bool gActive = false;
static uint64_t gNow, gTick = 1;
static uint64_t gSteps = 0;
static int gMaxSteps = 200000;
static bool gPreemptFree = true, gRace = false;
static const std::function<void()>* gBody = nullptr;
static vector<char*> stackPool;
static vector<const void*> gIgnored;
static bool gAtomicPoints = true;
static int gUnjoined = 0;           // threads started and not yet joined
int (*vpoll)(int, short) = nullptr;
static bool gEarlyTimers = true;
void setEarlyTimers(bool on) { gEarlyTimers = on; }
void (*onIdle)() = nullptr;
const uint64_t EPOCH0 = 1700000000ull * 1000000ull;

// --- sync objects ---
struct Mx { int owner = -1; int count = 0; VC vc{}; };
struct Rw { int writer = -1; int readers = 0; VC wvc{}, rvc{}; };
extern "C" void __libc_free(void*);
template<class T> struct OwnAlloc {   // the runtime's tables do not go through the tracked allocator
    typedef T value_type; OwnAlloc() {} template<class U> OwnAlloc(const OwnAlloc<U>&) {}
    T* allocate(size_t n) { return (T*) malloc(n * sizeof(T)); } void deallocate(T* p, size_t) { __libc_free(p); }
    template<class U> bool operator==(const OwnAlloc<U>&) const { return true; }
};
template<class V> using Tab = std::map<const void*, V, std::less<const void*>, OwnAlloc<std::pair<const void* const, V>>>;
template<class V> static void eraseRange(Tab<V>& t, const void* lo, const void* hi) { if (t.empty()) return; auto a = t.lower_bound(lo); while (a != t.end() && a->first < hi) a = t.erase(a); }
static Tab<Mx>* mx;
static Tab<Rw>* rw;
static Tab<VC>* sync_;

// --- TLS of the executable ---
static char* tlsBase; static size_t tlsSize; static vector<char> tlsInit;
static int phdrCb(dl_phdr_info* i, size_t, void* d) {
    bool first = *(bool*) d; *(bool*) d = false;
    if (!first) return 0;
    for (int k = 0; k < i->dlpi_phnum; k++) if (i->dlpi_phdr[k].p_type == PT_TLS) {
        auto& p = i->dlpi_phdr[k];
        size_t al = p.p_align ? p.p_align : 1;
        size_t sz = (p.p_memsz + al - 1) / al * al;
        char* tp; asm("mov %%fs:0,%0" : "=r"(tp));
        tlsBase = tp - sz; tlsSize = p.p_memsz;
        tlsInit.assign(p.p_memsz, 0);
        memcpy(tlsInit.data(), (void*) (i->dlpi_addr + p.p_vaddr), p.p_filesz);
    }
    return 1;
}
static thread_local uint64_t tlsProbe = 0x1122334455667788ull;
struct Dso { uintptr_t lo, hi; };
static vector<Dso> ownDso;      // executable and libstdc++: their synchronization is scheduled
static int dsoCb(dl_phdr_info* i, size_t, void* d) {
    bool& first = *(bool*) d;
    bool own = first || (i->dlpi_name && strstr(i->dlpi_name, "libstdc++"));
    first = false;
    if (!own) return 0;
    for (int k = 0; k < i->dlpi_phnum; k++) if (i->dlpi_phdr[k].p_type == PT_LOAD && (i->dlpi_phdr[k].p_flags & PF_X))
        ownDso.push_back({i->dlpi_addr + i->dlpi_phdr[k].p_vaddr, i->dlpi_addr + i->dlpi_phdr[k].p_vaddr + i->dlpi_phdr[k].p_memsz});
    return 0;
}
static inline bool fromOwn(void* ra) { uintptr_t a = (uintptr_t) ra; for (auto& d : ownDso) if (a >= d.lo && a < d.hi) return true; return false; }

extern "C" void rt_switch(void** from, void* to);
asm(R"(
.text
.globl rt_switch
.type rt_switch,@function
rt_switch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  subq $8,%rsp
  stmxcsr (%rsp)
  fnstcw 4(%rsp)
  movq %rsp,(%rdi)
  movq %rsi,%rsp
  ldmxcsr (%rsp)
  fldcw 4(%rsp)
  addq $8,%rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.size rt_switch,.-rt_switch
)");

static void saveCtx(Fiber* f) {
    memcpy(f->tls.data(), tlsBase, tlsSize);
    void** g = (void**) abi::__cxa_get_globals(); f->eh[0] = g[0]; f->eh[1] = g[1];
    f->err = errno;
}
static void loadCtx(Fiber* f) {
    memcpy(tlsBase, f->tls.data(), tlsSize);
    void** g = (void**) abi::__cxa_get_globals(); g[0] = f->eh[0]; g[1] = f->eh[1];
    errno = f->err;
}
static void switchTo(Fiber* t) {
    if (t == C) return;
    Fiber* f = C;
    saveCtx(f);
    C = t;
    loadCtx(t);
    rt_switch(&f->sp, t->sp);
}
static void backToMain() {   // execution over
    Fiber* f = C;
    saveCtx(f);
    C = nullptr;
    memcpy(tlsBase, mainTls.data(), tlsSize);
    void** g = (void**) abi::__cxa_get_globals(); g[0] = mainEh[0]; g[1] = mainEh[1];
    rt_switch(&f->sp, mainSp);
    abort();
}

bool active() { return gActive && C; }
bool inFiber() { return C; }
int self() { return C ? C->id : -1; }
uint64_t nowUs() { return gNow; }
void advanceUs(uint64_t us) { gNow += us; }
void setPointsEnabled(bool on) { if (C) C->noPoint += on ? -1 : 1; }
void ignoreAtomic(const void* p) { gIgnored.push_back(p); }
void nameFiber(const string& n) { if (C) C->name = n; }
uint64_t steps() { return gSteps; }
void setAtomicPoints(bool on) { gAtomicPoints = on; }
void setClockTick(uint64_t us) { gTick = us; }
int liveFibers() { int n = 0; for (auto f : F) if (f->st != DONE) n++; return n; }

static vector<Op> gOps; static uint64_t gStamp;
size_t opBegin(int op, long arg) { gOps.push_back({C ? C->id : -1, op, arg, 0, ++gStamp, 0, false}); if (mc::noting()) mc::note("thread %d: op %d(%ld) begins", C ? C->id : -1, op, arg); return gOps.size() - 1; }
void opEnd(size_t id, long res) { gOps[id].res = res; gOps[id].end = ++gStamp; gOps[id].done = true; if (mc::noting()) mc::note("thread %d: op %d(%ld) returns %ld", C ? C->id : -1, gOps[id].op, gOps[id].arg, res); }
const vector<Op>& ops() { return gOps; }

static string describe() {
    string s;
    for (auto f : F) if (f->st != DONE) {
        char b[256]; snprintf(b, sizeof b, "[thread %d%s%s %s %s%s] ", f->id, f->name.empty() ? "" : " ", f->name.c_str(), f->st == RUNNABLE ? "runnable" : "blocked on", f->waitWhat, f->deadline != NEVER ? " (timed)" : "");
        s += b;
    }
    return s;
}

static bool ready(Fiber* f) {
    if (f->st == RUNNABLE) return true;
    if (f->st == BLOCKED && f->pred) {
        if (f->pred()) { f->st = RUNNABLE; f->pred = nullptr; f->timedOut = false; f->deadline = NEVER; return true; }
    }
    if (f->st == BLOCKED && f->deadline <= gNow) { f->st = RUNNABLE; f->timedOut = true; f->pred = nullptr; f->deadline = NEVER; return true; }
    return false;
}
static void fire(Fiber* f) { if (f->deadline > gNow) gNow = f->deadline; f->st = RUNNABLE; f->timedOut = true; f->pred = nullptr; f->deadline = NEVER; }

// Decide who runs next. The current fiber may be RUNNABLE (a plain point), yielded, BLOCKED or DONE.
static void schedule(const char* what) {
    gSteps++;
    C->hash = (C->hash ^ (uint64_t) (uintptr_t) what) * 1099511628211ull + 1;
    { uint64_t h = 1469598103934665603ull; for (auto f : F) h = (h ^ (f->hash + (f->st << 1))) * 1099511628211ull; mc::state(h ^ (h >> 31)); }
    if ((int) gSteps > gMaxSteps) mc::failfp("livelock", "no progress within the step horizon of " + std::to_string(gMaxSteps) + " scheduling steps (livelock): " + describe());
    for (;;) {
        bool curOk = C->st == RUNNABLE && !C->yielded;
        Fiber* cand[MAXF + 2]; int n = 0; Fiber* timers[MAXF]; int nt = 0;
        int total = F.size();
        // canonical order: current first, then round robin after it
        for (int k = 1; k <= total; k++) {
            Fiber* f = F[(C->id + k) % total];
            if (f == C) continue;
            if (f->st == DONE) continue;
            if (ready(f)) cand[n++] = f;
            else if (f->deadline != NEVER) timers[nt++] = f;
        }
        if (C->st == BLOCKED) { if (ready(C)) { curOk = true; } else if (C->deadline != NEVER) timers[nt++] = C; }
        Fiber* next = nullptr;
        if (curOk) {
            int k = mc::chooseDev(1 + n + (gEarlyTimers ? nt : 0), what);
            if (k == 0) next = C; else if (k <= n) next = cand[k - 1]; else { next = timers[k - n - 1]; fire(next); }
        } else if (n > 0) {
            int t = nt && gEarlyTimers ? mc::chooseDev(1 + nt, "timer") : 0;
            if (t) { next = timers[t - 1]; fire(next); }
            else next = cand[gPreemptFree ? mc::choose(n, what) : mc::chooseDev(n, what)];
        } else if (C->st == RUNNABLE && C->yielded) {
            // nobody else can run: time passes, else the yielder continues
            Fiber* e = nullptr; for (int i = 0; i < nt; i++) if (!e || timers[i]->deadline < e->deadline) e = timers[i];
            if (e) { next = e; fire(e); } else { next = C; gNow += 100; }
        } else {
            if (onIdle) { uint64_t before = gSteps; onIdle(); (void) before; bool any = false; for (auto f : F) if (f->st == BLOCKED && ready(f)) any = true; if (any) continue; }
            // only timers: the earliest fires (ties are a choice)
            Fiber* e = nullptr; for (int i = 0; i < nt; i++) if (!e || timers[i]->deadline < e->deadline) e = timers[i];
            if (!e) mc::failfp("deadlock", "deadlock: no thread can run: " + describe());
            Fiber* ties[MAXF]; int k = 0; for (int i = 0; i < nt; i++) if (timers[i]->deadline == e->deadline) ties[k++] = timers[i];
            next = ties[k > 1 ? mc::chooseDev(k, "timer tie") : 0];
            fire(next);
        }
        C->yielded = false;
        if (next != C) { next->quiet = 0; if (mc::noting()) mc::note("  -> thread %d%s%s", next->id, next->name.empty() ? "" : " ", next->name.c_str()); switchTo(next); }
        return;
    }
}

void point(const char* what) {
    if (!C || C->noPoint > 0) return;
    // a fiber that spins without blocking must let others run eventually
    if (++C->quiet > 3000) { C->quiet = 0; C->yielded = true; }
    C->waitWhat = what;
    schedule(what);
}
static void yieldNow() { if (!C) return; C->yielded = true; C->waitWhat = "yield"; schedule("yield"); }
static bool block(const char* what, const void* addr, uint64_t deadline) {
    C->st = BLOCKED; C->waitAddr = addr; C->waitWhat = what; C->deadline = deadline; C->timedOut = false; C->pred = nullptr;
    schedule(what);
    return !C->timedOut;
}
bool waitUntil(const char* what, std::function<bool()> pred, uint64_t deadline) {
    if (pred()) return true;
    C->st = BLOCKED; C->waitAddr = nullptr; C->waitWhat = what; C->deadline = deadline; C->timedOut = false; C->pred = pred;
    schedule(what);
    return !C->timedOut;
}
static void wakeAll(const void* addr) { for (auto f : F) if (f->st == BLOCKED && f->waitAddr == addr && addr) { f->st = RUNNABLE; f->timedOut = false; f->deadline = NEVER; f->waitAddr = nullptr; } }
static int wakeSome(const void* addr, int n) {
    int woke = 0;
    while (woke < n) {
        Fiber* w[MAXF]; int k = 0; for (auto f : F) if (f->st == BLOCKED && f->waitAddr == addr) w[k++] = f;
        if (!k) break;
        Fiber* f = w[k > 1 ? mc::choose(k, "which waiter is woken") : 0];
        f->st = RUNNABLE; f->timedOut = false; f->deadline = NEVER; f->waitAddr = nullptr; woke++;
    }
    return woke;
}

// --- vector clocks ---
static inline void tick() { C->vc.c[C->id]++; }
static inline void acquire(VC& v) { if (gRace) vcJoin(C->vc, v); }
static inline void release(VC& v) { if (gRace) { vcJoin(v, C->vc); tick(); } }

// --- shadow memory ---
struct Rec { uint32_t clk; uint8_t tid, mask, write, atomic; };
struct Cell { uint64_t key; uint32_t gen; uint8_t n; Rec r[6]; };
static Cell* shadow; static const size_t SH = 1 << 18; static uint32_t shGen = 1;
static uint64_t lineBits[1024];     // which cache lines were touched in this execution (hashed; may say yes too often)
static inline bool lineSeen(uintptr_t line, bool set) { uint32_t h = (uint32_t) ((line * 0x9E3779B97F4A7C15ull) >> 48); uint64_t b = 1ull << (h & 63); if (set) lineBits[h >> 6] |= b; return lineBits[h >> 6] & b; }
static Cell* cellOf(uint64_t key, bool create) {
    if (create) lineSeen(key >> 3, true);
    size_t i = (key * 0x9E3779B97F4A7C15ull) >> 46;
    for (size_t k = 0; k < SH; k++, i++) {
        Cell& c = shadow[i & (SH - 1)];
        if (c.gen != shGen) { if (!create) return nullptr; c.gen = shGen; c.key = key; c.n = 0; return &c; }
        if (c.key == key) return &c;
    }
    mc::internalError("shadow table full");
}
static void raceReport(uintptr_t a, const Rec& o, bool write, bool atomic, void* pc) {
    Dl_info di; string where = "?"; if (dladdr(pc, &di) && di.dli_sname) { int st; char* d = abi::__cxa_demangle(di.dli_sname, 0, 0, &st); where = d ? d : di.dli_sname; free(d); }
    { Dl_info d2; char b[40] = ""; if (dladdr(pc, &d2) && d2.dli_fbase) snprintf(b, sizeof b, " (+0x%lx)", (unsigned long) ((char*) pc - (char*) d2.dli_fbase)); where += b; }
    mc::failfp("data-race", "data race: thread " + std::to_string(C->id) + (write ? " writes" : " reads") + (atomic ? " (atomic)" : "") + " memory in " + where + " while thread " + std::to_string(o.tid) + (o.write ? " wrote" : " read") + " it with no happens-before order");
}
static void access1(uint64_t key, uint8_t mask, bool write, bool atomic, void* pc) {
    Cell* c = cellOf(key, true);
    int slot = -1;
    for (int i = 0; i < c->n; i++) {
        Rec& r = c->r[i];
        if (!(r.mask & mask)) continue;
        if (r.tid != C->id) {
            if ((r.write || write) && !(r.atomic && atomic) && r.clk > C->vc.c[r.tid]) raceReport(key << 3, r, write, atomic, pc);
        }
        if (r.tid == C->id && r.write == write && r.atomic == atomic && r.mask == mask) slot = i;
    }
    uint32_t now = C->vc.c[C->id];
    if (slot < 0) { if (c->n < 6) slot = c->n++; else { memmove(c->r, c->r + 1, sizeof(Rec) * 5); slot = 5; } }
    c->r[slot] = {now, (uint8_t) C->id, mask, (uint8_t) write, (uint8_t) atomic};
}
static void access(const void* p, size_t n, bool write, bool atomic, void* pc) {
    if (!gRace || !C || !gActive || !gUnjoined) return;   // a lone thread is ordered with everything
    uintptr_t a = (uintptr_t) p;
    while (n) {
        size_t off = a & 7, len = std::min<size_t>(8 - off, n);
        access1(a >> 3, (uint8_t) (((1u << len) - 1) << off), write, atomic, pc);
        a += len; n -= len;
    }
}
static void clearShadow(const void* p, size_t n) {
    if (!gRace || !C || !gActive || !shadow || !n) return;
    uintptr_t lo = (uintptr_t) p, hi = lo + n;
    for (uintptr_t line = lo >> 6; line <= (hi - 1) >> 6; line++) {
        if (!lineSeen(line, false)) continue;
        for (uintptr_t k = std::max(line << 3, lo >> 3); k <= std::min((line << 3) + 7, (hi - 1) >> 3); k++) { Cell* c = cellOf(k, false); if (c) c->n = 0; }
    }
    // sync objects in that memory die with it
    eraseRange(*sync_, p, (void*) hi); eraseRange(*mx, p, (void*) hi); eraseRange(*rw, p, (void*) hi);
}

// The parts of std::map, std::set and std::list that live in the library announce what they write.
static bool ownTable(const void* p) { auto in = [p](const void* t, size_t n) { return p >= t && p < (const char*) t + n; }; return in(mx, sizeof *mx) || in(rw, sizeof *rw) || in(sync_, sizeof *sync_); }
static void wrote(const void* p, void* pc) { if (C && !C->noPoint) access(p, 8, true, false, pc); }
}
namespace std {
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) throw() {
    static auto real = (void (*)(bool, _Rb_tree_node_base*, _Rb_tree_node_base*, _Rb_tree_node_base&)) dlsym(RTLD_NEXT, "_ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_");
    if (rt::gRace && !rt::ownTable(&h)) { void* pc = __builtin_return_address(0); rt::wrote(&h._M_parent, pc); rt::wrote(&h._M_left, pc); rt::wrote(&h._M_right, pc); }
    real(left, x, p, h);
}
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& h) throw() {
    static auto real = (_Rb_tree_node_base* (*)(_Rb_tree_node_base*, _Rb_tree_node_base&)) dlsym(RTLD_NEXT, "_ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_");
    if (rt::gRace && !rt::ownTable(&h)) { void* pc = __builtin_return_address(0); rt::wrote(&h._M_parent, pc); rt::wrote(&h._M_left, pc); rt::wrote(&h._M_right, pc); }
    return real(z, h);
}
namespace __detail {
void _List_node_base::_M_hook(_List_node_base* const at) noexcept {
    if (rt::gRace) { void* pc = __builtin_return_address(0); rt::wrote(&at->_M_prev, pc); rt::wrote(&at->_M_prev->_M_next, pc); }
    _M_next = at; _M_prev = at->_M_prev; at->_M_prev->_M_next = this; at->_M_prev = this;
}
void _List_node_base::_M_unhook() noexcept {
    if (rt::gRace) { void* pc = __builtin_return_address(0); rt::wrote(&_M_next->_M_prev, pc); rt::wrote(&_M_prev->_M_next, pc); }
    _M_next->_M_prev = _M_prev; _M_prev->_M_next = _M_next;
}
void _List_node_base::_M_transfer(_List_node_base* const first, _List_node_base* const last) noexcept {
    if (this == last) return;
    if (rt::gRace) { void* pc = __builtin_return_address(0); for (auto n : {last, first, this}) { rt::wrote(&n->_M_prev, pc); rt::wrote(&n->_M_prev->_M_next, pc); } }
    last->_M_prev->_M_next = this; first->_M_prev->_M_next = last; _M_prev->_M_next = first;
    auto t = _M_prev; _M_prev = last->_M_prev; last->_M_prev = first->_M_prev; first->_M_prev = t;
}
}
}
namespace rt {
// --- fibers ---
static void runDtors() { while (!C->dtors.empty()) { auto d = C->dtors.back(); C->dtors.pop_back(); d.first(d.second); } }
static void fiberMain() {
    Fiber* me = C;
    try {
        if (me->id == 0) (*gBody)();
        else me->ret = me->fn(me->arg);
    } catch (std::exception& e) {
        mc::failfp("uncaught-exception", string("uncaught exception in thread ") + std::to_string(me->id) + ": " + e.what());
    } catch (abi::__forced_unwind&) { throw; }
    catch (...) { mc::failfp("uncaught-exception", "uncaught exception in thread " + std::to_string(me->id)); }
    runDtors();
    if (me->id == 0) backToMain();
    me->st = DONE;
    if (gRace) tick();
    wakeAll(me);
    schedule("thread end");
    abort();
}
static Fiber* newFiber() {
    Fiber* f = new Fiber; f->id = F.size(); char* again = nullptr;
    if (!gRace && F.size() >= MAXF / 2) for (auto& o : F) if (o->st == DONE && (o->joined || o->detached) && o != C) { f->id = o->id; again = o->stack; delete o; o = f; break; }
    if (f->id >= MAXF) mc::internalError("too many threads");
    f->tls = tlsInit; memset(&f->vc, 0, sizeof(VC)); f->vc.c[f->id] = 1; memset(&f->acqFence, 0, sizeof(VC)); memset(&f->relFence, 0, sizeof(VC));
    if (again) f->stack = again;
    else if (stackPool.empty()) {
        char* s = (char*) mmap(nullptr, STACK + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        mprotect(s, 4096, PROT_NONE); f->stack = s;
    } else { f->stack = stackPool.back(); stackPool.pop_back(); }
    uint64_t* sp = (uint64_t*) (f->stack + 4096 + STACK);
    *--sp = 0;
    *--sp = (uint64_t) (void*) fiberMain;   // return address of rt_switch
    for (int i = 0; i < 6; i++) *--sp = 0;
    --sp; ((uint32_t*) sp)[0] = 0x1f80; ((uint32_t*) sp)[1] = 0x37f;
    f->sp = sp;
    if (!again) F.push_back(f);
    return f;
}
static bool inited = false;
static void init() {
    if (inited) return; inited = true;
    bool t = true; dl_iterate_phdr(phdrCb, &t); t = true; dl_iterate_phdr(dsoCb, &t);
    if (tlsProbe != 0x1122334455667788ull) mc::internalError("tls probe");
    if ((char*) &tlsProbe < tlsBase || (char*) &tlsProbe >= tlsBase + tlsSize) mc::internalError("TLS block not found");
    mx = new Tab<Mx>; rw = new Tab<Rw>; sync_ = new Tab<VC>;
    __libc_single_threaded = 0;
}
void forgetLocks(const void* lo, const void* hi) { for (auto& [k, m] : *mx) if (m.owner == C->id) { m.owner = -1; m.count = 0; wakeAll(k); } for (auto& [k, r] : *rw) if (r.writer == C->id) { r.writer = -1; wakeAll(k); } else if (k >= lo && k < hi) r.readers = 0; }
void resetClock() { gNow = EPOCH0; }
static void runConcurrent(const std::function<void()>& body, const mc::Options& o) {
    init();
    if (o.raceDetect && !shadow) shadow = (Cell*) mmap(nullptr, SH * sizeof(Cell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    gRace = o.raceDetect; shGen++; memset(lineBits, 0, sizeof lineBits);
    gMaxSteps = o.maxSteps; gPreemptFree = o.preemptFree; gSteps = 0; gNow = EPOCH0; gTick = 1; gEarlyTimers = true;
    gOps.clear(); gStamp = 0; mx->clear(); rw->clear(); sync_->clear(); gIgnored.clear(); gAtomicPoints = true; gUnjoined = 0;
    for (auto f : F) { stackPool.push_back(f->stack); delete f; }
    F.clear();
    gBody = &body;
    Fiber* f = newFiber();
    mainTls.assign(tlsBase, tlsBase + tlsSize);
    void** g = (void**) abi::__cxa_get_globals(); mainEh[0] = g[0]; mainEh[1] = g[1];
    gActive = true;
    C = f; loadCtx(f);
    rt_switch(&mainSp, f->sp);
    gActive = false;
    mc::transition(gSteps);
}
__attribute__((constructor)) static void reg() { mc::runConcurrentHook = runConcurrent; }

template<class T> static T real(const char* n) { static_assert(sizeof(T) == 8); void* p = dlsym(RTLD_NEXT, n); if (!p) { fprintf(stderr, "no %s\n", n); abort(); } return (T) p; }
#define REAL(name) static auto real_##name = real<decltype(&name)>(#name)
#define ON (gActive && C)

static uint64_t toUs(const timespec* t) { return (uint64_t) t->tv_sec * 1000000ull + (t->tv_nsec + 999) / 1000; }
static uint64_t absDeadline(clockid_t, const timespec* t) { return toUs(t); } // all clocks read the same virtual time

static void mlock(const void* m, bool recursive, bool sched) {
    if (sched) point("lock");
    for (;;) {
        Mx& x = (*mx)[m];
        if (x.owner < 0) { x.owner = C->id; x.count = 1; acquire(x.vc); return; }
        if (x.owner == C->id) {
            if (recursive) { x.count++; return; }
            mc::failfp("self-deadlock", "thread " + std::to_string(C->id) + " locks a mutex it already holds");
        }
        block("mutex", m, NEVER);
    }
}
static int munlock(const void* m) {
    Mx& x = (*mx)[m];
    if (x.owner != C->id) mc::failfp("unlock-not-owner", "thread " + std::to_string(C->id) + " unlocks a mutex it does not hold");
    if (--x.count == 0) { release(x.vc); x.owner = -1; wakeAll(m); }
    return 0;
}
static bool isRec(pthread_mutex_t* m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP; }
}
using namespace rt;

extern "C" {
int pthread_mutex_lock(pthread_mutex_t* m) {
    if (!ON) { REAL(pthread_mutex_lock); return real_pthread_mutex_lock(m); }
    mlock(m, isRec(m), fromOwn(__builtin_return_address(0)));
    return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
    if (!ON) { REAL(pthread_mutex_trylock); return real_pthread_mutex_trylock(m); }
    if (fromOwn(__builtin_return_address(0))) point("trylock");
    Mx& x = (*mx)[m];
    if (x.owner < 0) { x.owner = C->id; x.count = 1; acquire(x.vc); return 0; }
    if (x.owner == C->id && isRec(m)) { x.count++; return 0; }
    return EBUSY;
}
static int timedlock(pthread_mutex_t* m, uint64_t dl) {
    point("timedlock");
    for (;;) {
        Mx& x = (*mx)[m];
        if (x.owner < 0) { x.owner = C->id; x.count = 1; acquire(x.vc); return 0; }
        if (x.owner == C->id && isRec(m)) { x.count++; return 0; }
        if (gNow >= dl) return ETIMEDOUT;
        if (!block("timed mutex", m, dl)) return ETIMEDOUT;
    }
}
int pthread_mutex_timedlock(pthread_mutex_t* m, const timespec* t) { if (!ON) { REAL(pthread_mutex_timedlock); return real_pthread_mutex_timedlock(m, t); } return timedlock(m, toUs(t)); }
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t c, const timespec* t) { if (!ON) { REAL(pthread_mutex_clocklock); return real_pthread_mutex_clocklock(m, c, t); } return timedlock(m, toUs(t)); }
int pthread_mutex_unlock(pthread_mutex_t* m) {
    if (!ON) { REAL(pthread_mutex_unlock); return real_pthread_mutex_unlock(m); }
    if (fromOwn(__builtin_return_address(0))) point("unlock");
    return munlock(m);
}
int pthread_mutex_destroy(pthread_mutex_t* m) { if (!ON) { REAL(pthread_mutex_destroy); return real_pthread_mutex_destroy(m); } mx->erase(m); return 0; }
int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a) { REAL(pthread_mutex_init); if (ON) mx->erase(m); return real_pthread_mutex_init(m, a); }

int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t* a) { REAL(pthread_cond_init); return real_pthread_cond_init(c, a); }
int pthread_cond_destroy(pthread_cond_t* c) { if (!ON) { REAL(pthread_cond_destroy); return real_pthread_cond_destroy(c); } return 0; }
static int cwait(pthread_cond_t* c, pthread_mutex_t* m, uint64_t dl) {
    point("cond wait");
    Mx& x = (*mx)[m];
    if (x.owner != C->id) mc::failfp("cond-wait-unlocked", "condition wait without holding the mutex");
    int cnt = x.count; x.count = 1; munlock(m);
    bool ok = block("condition", c, dl);
    mlock(m, false, false);
    (*mx)[m].count = cnt;
    return ok ? 0 : ETIMEDOUT;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { if (!ON) { REAL(pthread_cond_wait); return real_pthread_cond_wait(c, m); } return cwait(c, m, NEVER); }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec* t) { if (!ON) { REAL(pthread_cond_timedwait); return real_pthread_cond_timedwait(c, m, t); } return cwait(c, m, toUs(t)); }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const timespec* t) { if (!ON) { REAL(pthread_cond_clockwait); return real_pthread_cond_clockwait(c, m, k, t); } return cwait(c, m, toUs(t)); }
int pthread_cond_signal(pthread_cond_t* c) { if (!ON) { REAL(pthread_cond_signal); return real_pthread_cond_signal(c); } point("notify"); wakeSome(c, 1); return 0; }
int pthread_cond_broadcast(pthread_cond_t* c) { if (!ON) { REAL(pthread_cond_broadcast); return real_pthread_cond_broadcast(c); } point("notify all"); wakeAll(c); return 0; }

int pthread_rwlock_init(pthread_rwlock_t* l, const pthread_rwlockattr_t* a) { REAL(pthread_rwlock_init); if (ON) rw->erase(l); return real_pthread_rwlock_init(l, a); }
int pthread_rwlock_destroy(pthread_rwlock_t* l) { if (!ON) { REAL(pthread_rwlock_destroy); return real_pthread_rwlock_destroy(l); } rw->erase(l); return 0; }
static int rlock(pthread_rwlock_t* l, uint64_t dl, bool tr) {
    point("rdlock");
    for (;;) { Rw& x = (*rw)[l]; if (x.writer < 0) { x.readers++; acquire(x.wvc); return 0; }
        if (x.writer == C->id) return EDEADLK;
        if (tr) return EBUSY; if (gNow >= dl || !block("shared lock", l, dl)) return ETIMEDOUT; }
}
static int wlock(pthread_rwlock_t* l, uint64_t dl, bool tr) {
    point("wrlock");
    for (;;) { Rw& x = (*rw)[l]; if (x.writer < 0 && x.readers == 0) { x.writer = C->id; acquire(x.wvc); acquire(x.rvc); return 0; }
        if (x.writer == C->id) return EDEADLK;
        if (tr) return EBUSY; if (gNow >= dl || !block("exclusive lock", l, dl)) return ETIMEDOUT; }
}
int pthread_rwlock_rdlock(pthread_rwlock_t* l) { if (!ON) { REAL(pthread_rwlock_rdlock); return real_pthread_rwlock_rdlock(l); } return rlock(l, NEVER, false); }
int pthread_rwlock_tryrdlock(pthread_rwlock_t* l) { if (!ON) { REAL(pthread_rwlock_tryrdlock); return real_pthread_rwlock_tryrdlock(l); } return rlock(l, NEVER, true); }
int pthread_rwlock_timedrdlock(pthread_rwlock_t* l, const timespec* t) { if (!ON) { REAL(pthread_rwlock_timedrdlock); return real_pthread_rwlock_timedrdlock(l, t); } return rlock(l, toUs(t), false); }
int pthread_rwlock_clockrdlock(pthread_rwlock_t* l, clockid_t k, const timespec* t) { if (!ON) { REAL(pthread_rwlock_clockrdlock); return real_pthread_rwlock_clockrdlock(l, k, t); } return rlock(l, toUs(t), false); }
int pthread_rwlock_wrlock(pthread_rwlock_t* l) { if (!ON) { REAL(pthread_rwlock_wrlock); return real_pthread_rwlock_wrlock(l); } return wlock(l, NEVER, false); }
int pthread_rwlock_trywrlock(pthread_rwlock_t* l) { if (!ON) { REAL(pthread_rwlock_trywrlock); return real_pthread_rwlock_trywrlock(l); } return wlock(l, NEVER, true); }
int pthread_rwlock_timedwrlock(pthread_rwlock_t* l, const timespec* t) { if (!ON) { REAL(pthread_rwlock_timedwrlock); return real_pthread_rwlock_timedwrlock(l, t); } return wlock(l, toUs(t), false); }
int pthread_rwlock_clockwrlock(pthread_rwlock_t* l, clockid_t k, const timespec* t) { if (!ON) { REAL(pthread_rwlock_clockwrlock); return real_pthread_rwlock_clockwrlock(l, k, t); } return wlock(l, toUs(t), false); }
int pthread_rwlock_unlock(pthread_rwlock_t* l) {
    if (!ON) { REAL(pthread_rwlock_unlock); return real_pthread_rwlock_unlock(l); }
    point("rw unlock");
    Rw& x = (*rw)[l];
    if (x.writer == C->id) { release(x.wvc); x.writer = -1; wakeAll(l); }
    else if (x.readers > 0) { release(x.rvc); if (--x.readers == 0) wakeAll(l); }
    else mc::failfp("unlock-not-owner", "shared mutex unlocked while not held");
    return 0;
}

int pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*fn)(void*), void* arg) {
    if (!ON) { REAL(pthread_create); return real_pthread_create(t, a, fn, arg); }
    Fiber* f = newFiber(); f->fn = fn; f->arg = arg; f->noPoint = 0;
    if (gRace) { uint32_t own = f->vc.c[f->id]; f->vc = C->vc; f->vc.c[f->id] = own; tick(); }
    *t = (pthread_t) (0x10000 + f->id); gUnjoined++;
    point("thread start");
    return 0;
}
static Fiber* byHandle(pthread_t t) { size_t i = (size_t) t - 0x10000; return i < F.size() ? F[i] : nullptr; }
int pthread_join(pthread_t t, void** r) {
    if (!ON) { REAL(pthread_join); return real_pthread_join(t, r); }
    Fiber* f = byHandle(t); if (!f) return ESRCH;
    point("join");
    while (f->st != DONE) block("join", f, NEVER);
    if (gRace) vcJoin(C->vc, f->vc);
    if (!f->joined) gUnjoined--;
    f->joined = true;
    if (r) *r = f->ret;
    return 0;
}
int pthread_detach(pthread_t t) { if (!ON) { REAL(pthread_detach); return real_pthread_detach(t); } Fiber* f = byHandle(t); if (f) f->detached = true; return 0; }
pthread_t pthread_self(void) { static auto r = (pthread_t (*)(void)) dlsym(RTLD_NEXT, "pthread_self"); if (!ON) return r(); return (pthread_t) (0x10000 + C->id); }
int pthread_setname_np(pthread_t t, const char* n) { if (!ON) { REAL(pthread_setname_np); return real_pthread_setname_np(t, n); } return 0; }
int pthread_once(pthread_once_t* o, void (*fn)(void)) {
    // 0 = fresh, 1 = running, 2 = done (glibc uses 2 for done as well)
    if (!ON) { REAL(pthread_once); return real_pthread_once(o, fn); }
    if (*o == 2) return 0;
    while (*o == 1) block("once", o, NEVER);
    if (*o == 2) return 0;
    *o = 1; try { fn(); } catch (...) { *o = 0; wakeAll(o); throw; } *o = 2; wakeAll(o);
    return 0;
}

int __cxa_guard_acquire(abi::__guard* g) {
    char* b = (char*) g;
    if (ON && gRace && b[0]) acquire((*sync_)[g]);
    if (b[0]) return 0;
    while (b[1]) { if (ON) block("static init", g, NEVER); else abort(); }
    if (b[0]) return 0;
    b[1] = 1; return 1;
}
void __cxa_guard_release(abi::__guard* g) noexcept { char* b = (char*) g; b[0] = 1; b[1] = 0; if (ON) { release((*sync_)[g]); wakeAll(g); } }
void __cxa_guard_abort(abi::__guard* g) noexcept { char* b = (char*) g; b[1] = 0; if (ON) wakeAll(g); }
int __cxa_thread_atexit(void (*d)(void*), void* o, void* dso) {
    if (ON) { C->dtors.push_back({d, o}); return 0; }
    static auto r = (int (*)(void (*)(void*), void*, void*)) dlsym(RTLD_DEFAULT, "__cxa_thread_atexit_impl");
    return r(d, o, dso);
}

int sched_yield(void) { if (!ON) return syscall(SYS_sched_yield); yieldNow(); return 0; }
static int vsleep(uint64_t us) { if (us == 0) { yieldNow(); return 0; } block("sleep", nullptr, gNow + us); return 0; }
int nanosleep(const timespec* t, timespec* rem) { if (!ON) return syscall(SYS_nanosleep, t, rem); return vsleep(toUs(t)); }
int clock_nanosleep(clockid_t c, int fl, const timespec* t, timespec* rem) { if (!ON) return syscall(SYS_clock_nanosleep, c, fl, t, rem) ? errno : 0; uint64_t d = toUs(t); if (fl & TIMER_ABSTIME) { if (d > gNow) vsleep(d - gNow); return 0; } return vsleep(d); }
int usleep(useconds_t us) { if (!ON) { timespec t{(time_t) (us / 1000000), (long) (us % 1000000) * 1000}; return syscall(SYS_nanosleep, &t, nullptr); } return vsleep(us); }
unsigned sleep(unsigned s) { if (!ON) { timespec t{(time_t) s, 0}; syscall(SYS_nanosleep, &t, nullptr); return 0; } vsleep(s * 1000000ull); return 0; }
int clock_gettime(clockid_t c, timespec* t) {
    if (!ON || c == CLOCK_PROCESS_CPUTIME_ID || c == CLOCK_THREAD_CPUTIME_ID) { if (ON) { t->tv_sec = 0; t->tv_nsec = 0; return 0; } return syscall(SYS_clock_gettime, c, t); }
    gNow += gTick; t->tv_sec = gNow / 1000000; t->tv_nsec = gNow % 1000000 * 1000; return 0;
}
int gettimeofday(struct timeval* tv, void*) {
    if (!ON) { timespec t; syscall(SYS_clock_gettime, CLOCK_REALTIME, &t); tv->tv_sec = t.tv_sec; tv->tv_usec = t.tv_nsec / 1000; return 0; }
    gNow += gTick; tv->tv_sec = gNow / 1000000; tv->tv_usec = gNow % 1000000; return 0;
}
time_t time(time_t* p) { time_t v; if (!ON) { timespec t; syscall(SYS_clock_gettime, CLOCK_REALTIME, &t); v = t.tv_sec; } else v = gNow / 1000000; if (p) *p = v; return v; }

static long rawSyscall(long n, long a, long b, long c, long d, long e, long f) {
    long r; register long r10 asm("r10") = d; register long r8 asm("r8") = e; register long r9 asm("r9") = f;
    asm volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    if (r < 0 && r > -4096) { errno = -r; return -1; }
    return r;
}
long syscall(long n, ...) {
    va_list ap; va_start(ap, n); long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long); va_end(ap);
    if (n == SYS_futex && ON) {
        int op = (int) b & FUTEX_CMD_MASK;
        int* addr = (int*) a;
        if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
            point("atomic wait");
            if (*addr != (int) c) { errno = EAGAIN; return -1; }
            uint64_t dl = NEVER; if (d) { dl = toUs((timespec*) d); if (op == FUTEX_WAIT) dl += gNow; }
            if (!block("atomic wait", addr, dl)) { errno = ETIMEDOUT; return -1; }
            return 0;
        }
        if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) { point("atomic notify"); return wakeSome(addr, (int) c > 1000 ? 1000 : (int) c); }
    }
    return rawSyscall(n, a, b, c, d, e, f);
}
int poll(struct pollfd* fds, nfds_t n, int timeout) {
    auto once = [=]() -> int {
        int r = 0; bool anyReal = false;
        for (nfds_t i = 0; i < n; i++) { fds[i].revents = 0; int v = rt::vpoll ? rt::vpoll(fds[i].fd, fds[i].events) : -1; if (v >= 0) { fds[i].revents = v; if (v) r++; } else if (fds[i].fd >= 0) anyReal = true; }
        if (anyReal) {
            for (nfds_t i = 0; i < n; i++) { if (fds[i].fd < 0) continue; if (rt::vpoll && rt::vpoll(fds[i].fd, fds[i].events) >= 0) continue; struct pollfd p = {fds[i].fd, fds[i].events, 0}; if (rawSyscall(SYS_poll, (long) &p, 1, 0, 0, 0, 0) > 0) { fds[i].revents = p.revents; r++; } }
        }
        return r;
    };
    if (!ON) return rawSyscall(SYS_poll, (long) fds, n, timeout, 0, 0, 0);
    point("poll");
    int r = once();
    if (r || timeout == 0) return r;
    waitUntil("poll", [=]() { return once() > 0; }, timeout < 0 ? NEVER : gNow + (uint64_t) timeout * 1000);
    return once();
}

// --- ThreadSanitizer instrumentation entry points ---
// libstdc++ annotates the lock bit of atomic<shared_ptr>
void __tsan_mutex_create(void*, unsigned) {}
void __tsan_mutex_destroy(void*, unsigned) {}
void __tsan_mutex_pre_lock(void*, unsigned) {}
void __tsan_mutex_post_lock(void* a, unsigned, int) { if (ON) acquire((*sync_)[(char*) a + 1]); }
int __tsan_mutex_pre_unlock(void* a, unsigned) { if (ON) release((*sync_)[(char*) a + 1]); return 0; }
void __tsan_mutex_post_unlock(void*, unsigned) {}
void __tsan_mutex_pre_signal(void*, unsigned) {}
void __tsan_mutex_post_signal(void*, unsigned) {}
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
#define RW(n) \
void __tsan_read##n(void* p) { access(p, n, false, false, __builtin_return_address(0)); } \
void __tsan_write##n(void* p) { access(p, n, true, false, __builtin_return_address(0)); } \
void __tsan_unaligned_read##n(void* p) { access(p, n, false, false, __builtin_return_address(0)); } \
void __tsan_unaligned_write##n(void* p) { access(p, n, true, false, __builtin_return_address(0)); } \
void __tsan_read_write##n(void* p) { access(p, n, true, false, __builtin_return_address(0)); } \
void __tsan_unaligned_read_write##n(void* p) { access(p, n, true, false, __builtin_return_address(0)); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, size_t n) { access(p, n, false, false, __builtin_return_address(0)); }
void __tsan_write_range(void* p, size_t n) { access(p, n, true, false, __builtin_return_address(0)); }
void __tsan_vptr_update(void** p, void* v) { if (*p != v) access(p, 8, true, false, __builtin_return_address(0)); }
void __tsan_vptr_read(void** p) { access(p, 8, false, false, __builtin_return_address(0)); }
void* __tsan_memcpy(void* d, const void* s, size_t n) { access(s, n, false, false, __builtin_return_address(0)); access(d, n, true, false, __builtin_return_address(0)); return memcpy(d, s, n); }
void* __tsan_memmove(void* d, const void* s, size_t n) { access(s, n, false, false, __builtin_return_address(0)); access(d, n, true, false, __builtin_return_address(0)); return memmove(d, s, n); }
void* __tsan_memset(void* d, int c, size_t n) { access(d, n, true, false, __builtin_return_address(0)); return memset(d, c, n); }

static bool ignored(const void* p) { for (auto q : gIgnored) if (q == p) return true; return false; }
static inline void preAtomic(const void* p) { if (ON && gAtomicPoints && !ignored(p)) point("atomic"); }
static inline bool isAcq(int mo) { return mo == 1 || mo == 2 || mo == 4 || mo == 5; }
static inline bool isRel(int mo) { return mo == 3 || mo == 4 || mo == 5; }
static void afterLoad(const void* p, int mo) { if (!ON || !gRace) return; auto it = sync_->find(p); if (it == sync_->end()) return; if (isAcq(mo)) vcJoin(C->vc, it->second); else vcJoin(C->acqFence, it->second); }
static void beforeStore(const void* p, int mo) {
    if (!ON || !gRace) return;
    VC& v = (*sync_)[p];
    if (isRel(mo)) { v = C->vc; tick(); } else if (C->hasRelFence) v = C->relFence; else memset(&v, 0, sizeof v);
}
static void aroundRmw(const void* p, int mo) {
    if (!ON || !gRace) return;
    VC& v = (*sync_)[p];
    if (isAcq(mo)) vcJoin(C->vc, v); else vcJoin(C->acqFence, v);
    if (isRel(mo)) { vcJoin(v, C->vc); tick(); } else if (C->hasRelFence) vcJoin(v, C->relFence);
}
#define ATOM(bits, T) \
T __tsan_atomic##bits##_load(const volatile T* p, int mo) { preAtomic((void*) p); access((void*) p, sizeof(T), false, true, __builtin_return_address(0)); T v = *p; afterLoad((void*) p, mo); return v; } \
void __tsan_atomic##bits##_store(volatile T* p, T v, int mo) { preAtomic((void*) p); access((void*) p, sizeof(T), true, true, __builtin_return_address(0)); beforeStore((void*) p, mo); *p = v; } \
T __tsan_atomic##bits##_exchange(volatile T* p, T v, int mo) { preAtomic((void*) p); access((void*) p, sizeof(T), true, true, __builtin_return_address(0)); aroundRmw((void*) p, mo); return __atomic_exchange_n(p, v, 5); } \
T __tsan_atomic##bits##_fetch_add(volatile T* p, T v, int mo) { preAtomic((void*) p); access((void*) p, sizeof(T), true, true, __builtin_return_address(0)); aroundRmw((void*) p, mo); return __atomic_fetch_add(p, v, 5); } \
T __tsan_atomic##bits##_fetch_sub(volatile T* p, T v, int mo) { preAtomic((void*) p); access((void*) p, sizeof(T), true, true, __builtin_return_address(0)); aroundRmw((void*) p, mo); return __atomic_fetch_sub(p, v, 5); } \
T __tsan_atomic##bits##_fetch_or(volatile T* p, T v, int mo) { preAtomic((void*) p); access((void*) p, sizeof(T), true, true, __builtin_return_address(0)); aroundRmw((void*) p, mo); return __atomic_fetch_or(p, v, 5); } \
T __tsan_atomic##bits##_fetch_and(volatile T* p, T v, int mo) { preAtomic((void*) p); access((void*) p, sizeof(T), true, true, __builtin_return_address(0)); aroundRmw((void*) p, mo); return __atomic_fetch_and(p, v, 5); } \
T __tsan_atomic##bits##_fetch_xor(volatile T* p, T v, int mo) { preAtomic((void*) p); access((void*) p, sizeof(T), true, true, __builtin_return_address(0)); aroundRmw((void*) p, mo); return __atomic_fetch_xor(p, v, 5); } \
T __tsan_atomic##bits##_fetch_nand(volatile T* p, T v, int mo) { preAtomic((void*) p); access((void*) p, sizeof(T), true, true, __builtin_return_address(0)); aroundRmw((void*) p, mo); return __atomic_fetch_nand(p, v, 5); } \
int __tsan_atomic##bits##_compare_exchange_strong(volatile T* p, T* e, T v, int mo, int fmo) { preAtomic((void*) p); if (*p == *e) { access((void*) p, sizeof(T), true, true, __builtin_return_address(0)); aroundRmw((void*) p, mo); *p = v; return 1; } access((void*) p, sizeof(T), false, true, __builtin_return_address(0)); *e = *p; afterLoad((void*) p, fmo); return 0; } \
int __tsan_atomic##bits##_compare_exchange_weak(volatile T* p, T* e, T v, int mo, int fmo) { return __tsan_atomic##bits##_compare_exchange_strong(p, e, v, mo, fmo); } \
T __tsan_atomic##bits##_compare_exchange_val(volatile T* p, T e, T v, int mo, int fmo) { T x = e; __tsan_atomic##bits##_compare_exchange_strong(p, &x, v, mo, fmo); return x; }
ATOM(8, uint8_t) ATOM(16, uint16_t) ATOM(32, uint32_t) ATOM(64, uint64_t)
void __tsan_atomic_thread_fence(int mo) { if (!ON || !gRace) return; if (isAcq(mo)) vcJoin(C->vc, C->acqFence); if (isRel(mo)) { C->relFence = C->vc; C->hasRelFence = true; tick(); } }
void __tsan_atomic_signal_fence(int) {}
}

// Freed memory starts a new life.
void* operator new(size_t n) { void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { return operator new(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return malloc(n ? n : 1); }
void* operator new(size_t n, std::align_val_t a) { void* p = nullptr; size_t al = (size_t) a < 8 ? 8 : (size_t) a; if (posix_memalign(&p, al, n)) throw std::bad_alloc(); return p; }
void* operator new[](size_t n, std::align_val_t a) { return operator new(n, a); }
extern "C" void __libc_free(void*);
// exceptions and C buffers
extern "C" void free(void* p) { if (p && ON && gRace) clearShadow(p, malloc_usable_size(p)); __libc_free(p); }
static void del(void* p) { if (!p) return; if (ON && gRace) clearShadow(p, malloc_usable_size(p)); __libc_free(p); }
void operator delete(void* p) noexcept { del(p); }
void operator delete[](void* p) noexcept { del(p); }
void operator delete(void* p, size_t) noexcept { del(p); }
void operator delete[](void* p, size_t) noexcept { del(p); }
void operator delete(void* p, std::align_val_t) noexcept { del(p); }
void operator delete[](void* p, std::align_val_t) noexcept { del(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { del(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { del(p); }
