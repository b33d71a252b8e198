// For demonstrations that use the SQLite wrapper: everything lives in memory.
#pragma once
#include <libstuff/libstuff.h>
#include <sqlitecluster/SQLite.h>
#include "shim.h"
#include <thread>
#define EXPECT(c) do { if (!(c)) { fprintf(stderr, "FAILED line %d: %s\n", __LINE__, #c); _exit(1); } } while (0)
static void demoSetup() { shim::reset(); shim::logCallback = SQLite::_sqliteLogCallback; SLogLevel(LOG_ERR); }
// The journal of a file: consecutive ids, each hash the SHA1 of the previous one and the query.
static bool chainOk(const string& file) {
    shim::Db d(file); auto j = shim::journal(d); string prev; uint64_t id = 0;
    for (auto& e : j) { if (e.id != ++id) { fprintf(stderr, "gap: %lu after %lu\n", e.id, id - 1); return false; } string want = SToHex(SHashSHA1(prev + e.query)); if (want != e.hash) { fprintf(stderr, "bad hash at %lu\n", e.id); return false; } prev = e.hash; }
    return true;
}
static size_t journalSize(const string& file) { shim::Db d(file); return shim::journal(d).size(); }
static string one(const string& file, const string& sql) { shim::Db d(file); auto r = d.query(sql); return r.empty() || r[0].empty() ? "(none)" : r[0][0]; }
