// Controlled cooperative scheduler: every thread of an execution is a fiber; every mutex, condition variable, rwlock,
// atomic, sleep, timed wait, poll and thread operation is a scheduling point decided by mc::choose*.
#pragma once
#include <cstdint>
#include <functional>
#include <string>
#include <vector>
namespace rt {
bool active();                         // inside a controlled execution
int self();                            // fiber id
uint64_t nowUs();                      // virtual time (microseconds since epoch)
void advanceUs(uint64_t us);           // move the virtual clock
void point(const char* what);          // explicit scheduling point
void setPointsEnabled(bool on);        // turn scheduling points off/on for the current fiber (set-up code)
void ignoreAtomic(const void* p);      // never a scheduling point (constant configuration flags)
struct NoPoints { NoPoints() { setPointsEnabled(false); } ~NoPoints() { setPointsEnabled(true); } };
void setAtomicPoints(bool on);          // whether atomic operations are scheduling points in this execution
void nameFiber(const std::string& n);
// Block the current fiber until pred() holds (evaluated by the scheduler) or the deadline (virtual us) passes.
bool waitUntil(const char* what, std::function<bool()> pred, uint64_t deadlineUs = UINT64_MAX);
bool inFiber();
uint64_t steps();
int liveFibers();
// Virtual descriptors (vnet) plug in here.
extern int (*vpoll)(int fd, short events);   // returns revents, or -1 if not virtual
extern void (*onIdle)();                     // called when nothing is runnable, before the clock moves
// History of operations (not instrumented, no scheduling).
struct Op { int fiber, op; long arg, res; uint64_t start, end; bool done; };
size_t opBegin(int op, long arg = 0);
void opEnd(size_t id, long res = 0);
const std::vector<Op>& ops();
void setClockTick(uint64_t us);
void setEarlyTimers(bool on);          // whether a timer may fire while fibers can run (at the cost of a deviation); reset for each execution
void resetClock();
void forgetLocks(const void* lo, const void* hi);   // after leaving code by longjmp: the calling fiber holds no lock any more
}
