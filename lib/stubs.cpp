#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>
// Stand-ins for what must not run inside a check (process-wide signal handling) and for library functions missing here.
#include <cstdint>
#include <functional>
#include <string>
#include <cstdarg>
#include <map>
using namespace std;
void* SSIGNAL_NOTIFY_INTERRUPT = nullptr;
static uint64_t pendingSignals = 0;
void stubRaiseSignal(int s) { pendingSignals |= 1ull << s; }
uint64_t STerminationSignalCount() { return 0; }
bool SCheckSignal(int s) { return pendingSignals >> s & 1; }
bool SGetSignal(int s) { bool r = SCheckSignal(s); pendingSignals &= ~(1ull << s); return r; }
uint64_t SGetSignals() { return pendingSignals; }
string SGetSignalDescription() { return ""; }
void SClearSignals() { pendingSignals = 0; }
void SInitializeSignals() {}
void SStopSignalThread() {}
void SSetSignalHandlerDieFunc(function<string()>&&) {}
extern "C" {
struct sqlite3_stmt; struct sqlite3_str;
const char* sqlite3_sql(sqlite3_stmt*);
#ifndef HAVE_SHIM
const char* sqlite3_normalized_sql(sqlite3_stmt* s) { return sqlite3_sql(s); }
#endif
int sqlite3_str_length(sqlite3_str*);
char* sqlite3_str_value(sqlite3_str*);
// the layout of sqlite3_str has been stable since 3.24: db, zText, nAlloc, mxAlloc, nChar, ...
void sqlite3_str_truncate(sqlite3_str* p, int n) { struct S { void* db; char* z; uint32_t nAlloc, mxAlloc, nChar; }; S* s = (S*) p; if (s && n >= 0 && (uint32_t) n < s->nChar) { s->nChar = n; s->z[n] = 0; } }
struct mbedtls_ssl_context; int mbedtls_ssl_is_handshake_over(struct mbedtls_ssl_context*) { return 1; }
void syslog(int, const char* f, ...) { static bool on = getenv("VERIF_LOG"); if (!on) return; char b[2000]; va_list a; va_start(a, f); int n = vsnprintf(b, sizeof b - 2, f, a); va_end(a); if (n > (int) sizeof b - 2) n = sizeof b - 2; b[n++] = 10; (void) !write(2, b, n); }
void openlog(const char*, int, int) {}
}
