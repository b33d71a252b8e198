// Real-thread stand-ins for the parts of the check machinery that the file-system shim refers to.
#include "mc.h"
#include "rt.h"
#include <cstdlib>
#include <cstdarg>
namespace mc {
void internalError(const char* fmt, ...) { va_list a; va_start(a, fmt); vfprintf(stderr, fmt, a); fputc('\n', stderr); abort(); }
uint64_t hashBytes(const void* p, size_t n, uint64_t h) { for (size_t i = 0; i < n; i++) { h ^= ((const unsigned char*) p)[i]; h *= 1099511628211ull; } return h; }
void compared(uint64_t) {}
}
namespace rt { bool active() { return false; } uint64_t nowUs() { return 0; } void point(const char*) {} }
