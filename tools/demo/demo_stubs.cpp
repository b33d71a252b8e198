#include <cstdint>
extern "C" {
struct sqlite3_stmt; struct sqlite3_str; const char* sqlite3_sql(sqlite3_stmt*);
#ifndef HAVE_SHIM
const char* sqlite3_normalized_sql(sqlite3_stmt* s) { return sqlite3_sql(s); }
#endif
void sqlite3_str_truncate(sqlite3_str* p, int n) { struct S { void* db; char* z; uint32_t nAlloc, mxAlloc, nChar; }; S* s = (S*) p; if (s && n >= 0 && (uint32_t) n < s->nChar) { s->nChar = n; s->z[n] = 0; } }
struct mbedtls_ssl_context; int mbedtls_ssl_is_handshake_over(struct mbedtls_ssl_context*) { return 1; }
void syslog(int, const char*, ...) {}
void openlog(const char*, int, int) {}
}
