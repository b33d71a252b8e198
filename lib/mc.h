// Explicit exploration core: a deterministic body() is re-executed once per path of its choice tree.
// All choice points (inputs, operations, schedules, faults, crash points) go through choose()/chooseDev().
// The tree is walked depth first and exhaustively, up to a bound on deviations; nothing is sampled.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdarg>
#include <functional>
#include <string>
#include <vector>

namespace mc {

// --- choices -----------------------------------------------------------------------------------
int choose(int n, const char* what = "");        // free choice in [0,n)
int chooseDev(int n, const char* what = "");     // 0 is the default; any other costs one deviation
int deviationsLeft();                            // remaining deviation budget on this path
template<class T> const T& pick(const std::vector<T>& v, const char* what = "") { return v[choose((int)v.size(), what)]; }

// --- reporting ---------------------------------------------------------------------------------
// Property broken. `fingerprint` identifies the failing call site/history (matched against known findings).
[[noreturn]] void failfp(const std::string& fingerprint, const std::string& message);
[[noreturn]] void fail(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
[[noreturn]] void internalError(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void note(const char* fmt, ...) __attribute__((format(printf, 1, 2)));   // step of the trace (kept for samples/replays)
bool noting();
void state(uint64_t hash);                       // a state of the system under test was reached
void state(const std::string& canonical);
void outcome(const std::string& s);              // observed final outcome of an execution
void transition(uint64_t n = 1);                 // n steps of the real implementation were executed
void compared(uint64_t n = 1);                   // n comparisons against the reference model / oracle
bool visited(uint64_t hash, int remaining);       // true: some path already continues from this state with so many steps left; end this one
[[noreturn]] void prune();                       // abandon this path (not counted); only when nothing needs unwinding
uint64_t hashBytes(const void* p, size_t n, uint64_t seed = 1469598103934665603ull);
inline uint64_t hashStr(const std::string& s, uint64_t seed = 1469598103934665603ull) { return hashBytes(s.data(), s.size(), seed); }
bool thorough();
uint64_t executionIndex();

// --- scenarios ---------------------------------------------------------------------------------
struct Options {
    std::vector<int> bounds = {0};   // deviation bounds, explored in this order
    bool isolate = false;            // one forked process per execution
    bool concurrent = false;         // run body() as fiber 0 of the controlled scheduler
    bool preemptFree = true;         // scheduling choices when the running fiber blocked are free (CHESS); else they cost
    int maxSteps = 200000;           // scheduling steps per execution (horizon)
    bool raceDetect = false;
};
void add(const std::string& name, std::function<void()> body, Options opt = {});
void registerScenarios();            // defined by the harness
void setRuleText(const std::string&);
void setBoundsText(const std::string&);
}
#define MC_CHECK(cond, ...) do { if (!(cond)) mc::fail(__VA_ARGS__); } while (0)
