// C01: the lock-free ring buffer behind the log sender. Real code: libstuff/SRingBuffer.h (instantiated here, instrumented).
// The sender of the log, libstuff/SFluentdLogger.cpp, runs here with a small buffer and simulated sockets.
#include <libstuff/SRingBuffer.h>
#include <libstuff/SThread.h>
#include <arpa/inet.h>
#include <netinet/in.h>
#include <sys/socket.h>
#include <syslog.h>
#include <unistd.h>
#include "../lib/mc.h"
#include "../lib/rt.h"
#include <memory>
#include <thread>
#include <vector>
#include <map>
namespace fl {
int socket_(int, int, int); int connect_(int, const sockaddr*, socklen_t); ssize_t send_(int, const void*, size_t, int); int close_(int); void syslog_(int, const char*, ...);
}
#define SFluentdLogger FluentdLoggerUnderTest
#define SRINGBUFFER_DEFAULT_CAPACITY 2
#define socket fl::socket_
#define connect fl::connect_
#define send fl::send_
#define close fl::close_
#undef syslog
#define syslog fl::syslog_
#include <libstuff/SFluentdLogger.cpp>
#undef SFluentdLogger
#undef socket
#undef connect
#undef send
#undef close
#undef syslog
#undef SRINGBUFFER_DEFAULT_CAPACITY
enum { PUSH = 1, POP = 2, SHUT = 3, WAIT = 4 };

template<size_t C>
static void run(std::vector<int> pushesPerProducer, int freePops, bool useShutdown, int prefill, bool waiter) {
    auto buf = std::make_shared<SRingBuffer<std::string, C>>();
    auto* b = buf.get();
    int next = 1;
    auto push = [b](int v) { std::string s = "item-number-" + std::to_string(v); size_t id = rt::opBegin(PUSH, v); bool ok = b->push(std::move(s)); rt::opEnd(id, ok); return ok; };
    auto pop = [b]() -> long {
        size_t id = rt::opBegin(POP);
        auto [d, st] = b->pop();
        long r = st == State::Empty ? 0 : st == State::Shutdown ? -1 : -2;
        if (d.has_value()) { r = std::strtol(d->substr(std::string("item-number-").size()).c_str(), nullptr, 10); if (st != State::Ready) r = -3; if (*d != "item-number-" + std::to_string(r)) r = -4; }
        rt::opEnd(id, r); return r; };
    // start from a wrapped position so that slot reuse is exercised
    { rt::NoPoints np; for (int i = 0; i < prefill; i++) { push(next++); pop(); } }
    std::vector<std::thread> ts;
    for (size_t p = 0; p < pushesPerProducer.size(); p++) {
        int base = 100 * ((int) p + 1), n = pushesPerProducer[p];
        ts.emplace_back([=]() { for (int i = 0; i < n; i++) push(base + i); });
    }
    std::thread consumer([=]() {
        if (waiter) { for (;;) { size_t id = rt::opBegin(WAIT); b->wait(); rt::opEnd(id); long r = pop(); if (r == -1) break; if (r < -1) break; } }
        else for (int i = 0; i < freePops; i++) pop();
    });
    for (auto& t : ts) t.join();
    if (useShutdown) { size_t id = rt::opBegin(SHUT); b->shutdown(); rt::opEnd(id); }
    consumer.join();
    { rt::NoPoints np; for (int i = 0; i < 40; i++) { long r = pop(); if (r == 0) break; } }
    // ---- oracle ----
    auto& ops = rt::ops();
    std::vector<long> popped; std::map<long, int> seen; int shut = 0;
    std::map<long, long> lastPer;
    for (auto& o : ops) if (o.op == POP) {
        if (o.res == -1) { shut++; continue; }
        MC_CHECK(o.res >= 0, "pop returned a damaged record (code %ld)", o.res);
        if (o.res == 0) continue;
        MC_CHECK(++seen[o.res] == 1, "record %ld delivered twice", o.res);
        MC_CHECK(shut == 0, "record %ld delivered after the shutdown marker", o.res);
        long p = o.res / 100; MC_CHECK(lastPer[p] < o.res, "records of producer %ld delivered out of order: %ld after %ld", p, o.res, lastPer[p]); lastPer[p] = o.res;
        popped.push_back(o.res);
    }
    std::string oc;
    for (auto& o : ops) if (o.op == PUSH) {
        oc += o.res ? 'A' : 'R';
        if (o.res) MC_CHECK(seen[o.arg] == 1, "record %ld was accepted but never delivered", o.arg);
        else {
            MC_CHECK(seen[o.arg] == 0, "record %ld was refused but delivered", o.arg);
            // refused only when full: at some instant of the call, slots taken by others minus completed pops reached the capacity
            long best = -1;
            for (uint64_t t = o.start; t <= o.end; t++) {
                long in = 0, out = 0;
                for (auto& q : ops) { if (&q != &o && ((q.op == PUSH && q.res) || q.op == SHUT) && q.start <= t) in++; if (q.op == POP && (q.res > 0 || q.res == -1) && q.done && q.end <= t) out++; }
                best = std::max(best, in - out);
            }
            MC_CHECK(best >= (long) C, "record %ld was refused although the buffer never held more than %ld of %zu records during the call", o.arg, best, C);
        }
    } else if (o.op == POP && o.res == 0) {
        // empty only if nothing accepted before the call began is still undelivered
        for (auto& q : ops) if (q.op == PUSH && q.res && q.done && q.end < o.start) {
            bool out = false; for (auto& z : ops) if (z.op == POP && z.res == q.arg && z.start <= o.end) out = true;
            // an earlier slot may be reserved but unpublished by another producer
            bool blockedByOther = false; for (auto& z : ops) if (z.op == PUSH && &z != &q && z.start < o.end && z.end > o.start) blockedByOther = true;
            MC_CHECK(out || blockedByOther, "pop reported empty although record %ld had been accepted and not delivered", q.arg);
        }
    }
    if (useShutdown) MC_CHECK(shut == 1, "shutdown marker delivered %d times", shut);
    for (long v : popped) oc += "," + std::to_string(v);
    mc::outcome(oc); mc::state(mc::hashStr(oc, C)); mc::compared(ops.size());
}

// ---- the sender of the log ----
namespace fl {
struct Conn { bool open = true, connected = false; std::string partial; };
static std::map<int, Conn> conns; static int nextFd; static std::vector<std::string> out; static bool faults;
static void take(const std::string& line) { out.push_back(line); }
int socket_(int, int, int) { rt::point("socket"); if (faults && mc::chooseDev(2)) return -1; int fd = nextFd++; conns[fd] = Conn(); return fd; }
int connect_(int fd, const sockaddr*, socklen_t) { rt::point("connect"); auto it = conns.find(fd); MC_CHECK(it != conns.end() && it->second.open, "connect on a descriptor that is not open: %d", fd); if (faults && mc::chooseDev(2)) { errno = ECONNREFUSED; return -1; } it->second.connected = true; return 0; }
ssize_t send_(int fd, const void* d, size_t n, int) {
    rt::point("send");
    if (fd == -1) { errno = EBADF; return -1; }
    auto it = conns.find(fd); MC_CHECK(it != conns.end() && it->second.open && it->second.connected, "send on a descriptor that is not open and connected: %d", fd);
    int c = faults ? mc::chooseDev(5) : 0;      // all, the first byte, all but one byte, failure, closed
    if (c == 3) { errno = EPIPE; return -1; }
    if (c == 4) return 0;
    size_t k = c == 0 ? n : c == 1 ? std::min<size_t>(n, 1) : std::max<size_t>(n - 1, 1);
    for (size_t i = 0; i < k; i++) { char ch = ((const char*) d)[i]; it->second.partial += ch; if (ch == '\n') { take(it->second.partial); it->second.partial.clear(); } }
    return (ssize_t) k;
}
int close_(int fd) { if (fd == -1) return -1; auto it = conns.find(fd); MC_CHECK(it != conns.end() && it->second.open, "close of a descriptor that is not open: %d", fd); it->second.open = false; return 0; }
void syslog_(int pri, const char* f, ...) { va_list a; va_start(a, f); char b[400]; vsnprintf(b, sizeof b, f, a); va_end(a); int p = 0; if (sscanf(b, "[\"record %d", &p) == 1) MC_CHECK(pri == p % 100 % 8, "a record of priority %d is logged with priority %d", p % 100 % 8, pri); take(b); }
}
static void sender(std::vector<int> perProducer, bool faults) {
    using namespace fl; conns.clear(); nextFd = 1000; out.clear(); fl::faults = faults;
    auto text = [](int v) { return "[\"record " + std::to_string(v) + " %s%n and the rest of it\"]\n"; };
    {
        auto log = std::make_unique<FluentdLoggerUnderTest>("127.0.0.1", 24224); auto* l = log.get();
        std::vector<std::thread> ts;
        for (size_t p = 0; p < perProducer.size(); p++) { int n = perProducer[p]; ts.emplace_back([&, p, n] { for (int i = 0; i < n; i++) { int v = 100 * ((int) p + 1) + i; std::string r = text(v); size_t id = rt::opBegin(PUSH, v); bool ok = l->log(v % 100 % 8, std::move(r)); rt::opEnd(id, ok); } }); }
        for (auto& t : ts) t.join();
    }
    std::map<int, bool> accepted; for (auto& q : rt::ops()) if (q.op == PUSH) accepted[q.arg] = q.res;
    std::map<int, int> seen; std::map<int, int> last; std::string oc;
    for (auto& line : out) {
        int v = 0; MC_CHECK(sscanf(line.c_str(), "[\"record %d", &v) == 1 && line == text(v), "the log sender passes on a damaged record: %s", line.c_str());
        MC_CHECK(accepted.count(v) && accepted[v], "record %d was refused, but passed on", v);
        MC_CHECK(++seen[v] == 1, "record %d is passed on twice", v);
        MC_CHECK(!last.count(v / 100) || last[v / 100] < v, "record %d is passed on after %d", v, last[v / 100]); last[v / 100] = v;
        oc += std::to_string(v) + ",";
    }
    for (auto& [v, ok] : accepted) { if (ok) MC_CHECK(seen[v] == 1, "record %d was accepted, but never passed on", v); oc += ok ? 'A' : 'R'; }
    mc::outcome("sender: " + oc + " over " + std::to_string(conns.size()) + " connections"); mc::compared(out.size());
}
// shutdown at any moment: records whose push had returned come before the marker, all accepted ones come exactly once
template<size_t C>
static void shutdownAnyTime(std::vector<int> perProducer, int prefill) {
    auto buf = std::make_shared<SRingBuffer<std::string, C>>(); auto* b = buf.get();
    { rt::NoPoints np; for (int i = 0; i < prefill; i++) { b->push("x"); b->pop(); } }
    std::vector<int> got; int shut = -1;
    std::vector<std::thread> ts;
    for (size_t p = 0; p < perProducer.size(); p++) { int n = perProducer[p]; ts.emplace_back([&, p, n] { for (int i = 0; i < n; i++) { int v = 100 * ((int) p + 1) + i; std::string r = "record " + std::to_string(v); size_t id = rt::opBegin(PUSH, v); bool ok = b->push(std::move(r)); rt::opEnd(id, ok); } }); }
    std::thread stopper([&] { size_t id = rt::opBegin(SHUT); b->shutdown(); rt::opEnd(id); });
    auto one = [&]() { auto [d, st] = b->pop(); if (st == State::Shutdown) { MC_CHECK(shut < 0, "the shutdown marker is delivered twice"); shut = (int) got.size(); } else if (st == State::Ready) { int v = 0; MC_CHECK(d && sscanf(d->c_str(), "record %d", &v) == 1 && *d == "record " + std::to_string(v), "pop returned a damaged record"); got.push_back(v); } return st; };
    std::thread consumer([&] { for (;;) { b->wait(); if (one() == State::Shutdown) break; } });
    for (auto& t : ts) t.join();
    stopper.join(); consumer.join();
    { rt::NoPoints np; while (one() != State::Empty) {} }
    std::map<int, bool> accepted, before; uint64_t down = 0; for (auto& q : rt::ops()) if (q.op == SHUT) down = q.start;
    for (auto& q : rt::ops()) if (q.op == PUSH) { accepted[q.arg] = q.res; before[q.arg] = q.end < down; }
    std::map<int, int> pos; std::map<int, int> last; std::string oc;
    for (size_t i = 0; i < got.size(); i++) { int v = got[i]; MC_CHECK(!pos.count(v), "record %d delivered twice", v); pos[v] = (int) i; MC_CHECK(!last.count(v / 100) || last[v / 100] < v, "record %d delivered after %d", v, last[v / 100]); last[v / 100] = v; MC_CHECK(accepted[v], "record %d was refused but delivered", v); }
    for (auto& [v, ok] : accepted) { oc += ok ? before[v] ? 'B' : 'A' : 'R'; if (!ok) continue; MC_CHECK(pos.count(v), "record %d was accepted but never delivered", v); if (before[v]) MC_CHECK(pos[v] < shut, "record %d was accepted before the shutdown, but delivered after the shutdown marker", v); }
    mc::outcome("shutdown: " + oc + " marker after " + std::to_string(shut)); mc::compared(got.size());
}

void mc::registerScenarios() {
    mc::Options o; o.concurrent = true; o.raceDetect = true; o.maxSteps = 4000;
    bool th = mc::thorough();
    auto bnds = [&](int q, int t) { std::vector<int> v; for (int i = 0; i <= (th ? t : q); i++) v.push_back(i); return v; };
    o.bounds = bnds(3, 4);
    for (int pre : {0, 1}) {
        mc::add("cap1-2producers-pops2-pre" + std::to_string(pre), [=] { run<1>({1, 1}, 2, false, pre, false); }, o);
        mc::add("cap1-1producer2-pops2-pre" + std::to_string(pre), [=] { run<1>({2}, 2, false, pre, false); }, o);
        mc::add("cap2-2producers-pops1-pre" + std::to_string(pre), [=] { run<2>({1, 1}, 1, false, pre, false); }, o);
    }
    o.bounds = bnds(2, 4);
    mc::add("cap2-2x2-pops3", [] { run<2>({2, 2}, 3, false, 2, false); }, o);
    mc::add("cap1-2x2-pops4", [] { run<1>({2, 2}, 4, false, 1, false); }, o);
    mc::add("cap2-3producers-pops2", [] { run<2>({1, 1, 1}, 2, false, 0, false); }, o);
    mc::add("cap3-2x2-pops2", [] { run<3>({2, 2}, 2, false, 3, false); }, o);
    o.bounds = bnds(2, 4);
    mc::add("cap2-wait-shutdown-1x2", [] { run<2>({2}, 0, true, 1, true); }, o);
    mc::add("cap1-wait-shutdown-2x1", [] { run<1>({1, 1}, 0, true, 0, true); }, o);
    mc::add("cap2-wait-shutdown-2x1-wrap", [] { run<2>({1, 1}, 0, true, 2, true); }, o);
    mc::add("cap1 shutdown at any time", [] { shutdownAnyTime<1>({2}, 1); }, o);
    mc::Options f = o; f.maxSteps = 8000; f.bounds = bnds(1, 3);
    mc::add("cap2 shutdown at any time", [] { shutdownAnyTime<2>({1, 1}, 2); }, f);
    f.bounds = bnds(2, 3); mc::add("log sender", [] { sender({2, 1}, false); }, f);
    f.bounds = bnds(3, 4);
    mc::add("log sender, failing connections", [] { sender({3}, true); }, f);
    if (th) mc::add("log sender, failing connections, 2 producers", [] { sender({2, 1}, true); }, f);
    mc::setRuleText("one execution = one complete interleaving (scheduling points at every atomic operation, wait, notify, thread start/join) of 1-3 producers pushing 1-2 records each, one consumer, and optionally shutdown, on the real ring buffer with capacity 1-3");
}
