// Exact-size buffers between inaccessible pages: any read outside of them is a crash.
#pragma once
#include <sys/mman.h>
#include <cstring>
#include <string>
struct Guard {
    static constexpr size_t N = 1 << 16; char* p;
    Guard() { p = (char*) mmap(nullptr, N + 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); mprotect(p, 4096, PROT_NONE); mprotect(p + 4096 + N, 4096, PROT_NONE); }
    const char* atEnd(const std::string& s) { char* r = p + 4096 + N - s.size(); memcpy(r, s.data(), s.size()); return r; }      // next byte after it is inaccessible
    const char* atStart(const std::string& s) { memcpy(p + 4096, s.data(), s.size()); return p + 4096; }                           // byte before it is inaccessible
    static Guard& one() { static Guard g; return g; }
};
// Bytes made visible for traces.
inline std::string vis(const std::string& s) { std::string o; for (unsigned char c : s) { if (c == '\n') o += "\\n"; else if (c == '\r') o += "\\r"; else if (c == '\t') o += "\\t"; else if (c == '\\') o += "\\\\"; else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\x%02x", c); o += b; } else o += c; } return o; }
