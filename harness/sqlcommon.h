// Helpers for the harnesses that run the repository's SQLite wrapper on the multi-version file system.
#pragma once
#include "common.h"
#include "../lib/shim.h"
#include <sqlitecluster/SQLite.h>
#include <sqlitecluster/SQLitePool.h>
#include <string.h>
#include <zstd.h>
#include <zdict.h>
// A compression dictionary (number 7), and an independent decoder for journaled queries compressed with it.
static const string& dictionary() {
    static string d; if (d.empty()) { string sample; vector<size_t> sizes; for (int i = 0; i < 40; i++) { string t = "UPDATE a SET v = v || 'p" + to_string(i * 7919) + "' WHERE k=" + to_string(i % 7) + "; INSERT INTO b VALUES(" + to_string(i * i) + ", 'multi'); DELETE FROM c;"; sample += t; sizes.push_back(t.size()); }
        ZDICT_params_t z = {}; z.dictID = 7; z.compressionLevel = 3; d.resize(4096); size_t n = ZDICT_finalizeDictionary(&d[0], d.size(), sample.data(), min<size_t>(sample.size(), 1024), sample.data(), sizes.data(), sizes.size(), z);
        if (ZDICT_isError(n)) mc::internalError("dictionary: %s", ZDICT_getErrorName(n)); d.resize(n); }
    return d;
}
static const char* DICT_SCHEMA = "CREATE TABLE zstdDictionaries (dictionaryID INTEGER PRIMARY KEY, description TEXT, dictionary BLOB);";
static string dictSql() { string h; char b[3]; for (unsigned char c : dictionary()) { snprintf(b, 3, "%02x", c); h += b; } return string(DICT_SCHEMA) + "INSERT INTO zstdDictionaries VALUES(7, 'test', x'" + h + "');"; }
static bool compressedQuery(const string& q) { return q.size() >= 4 && !memcmp(q.data(), "\x28\xb5\x2f\xfd", 4); }
static string plainQuery(const string& q) {
    if (!compressedQuery(q)) return q;
    string out(100000, 0); static ZSTD_DCtx* c = ZSTD_createDCtx(); size_t n = ZSTD_decompress_usingDict(c, &out[0], out.size(), q.data(), q.size(), dictionary().data(), dictionary().size());
    MC_CHECK(!ZSTD_isError(n), "a compressed query does not decompress: %s", ZSTD_getErrorName(n)); out.resize(n); return out;
}
static vector<shim::JournalEntry> journalOf(shim::Db& d) { auto j = shim::journal(d); for (auto& e : j) e.query = plainQuery(e.query); return j; }
static void sqlSetup() {
    quietLogs(); shim::reset(); shim::logCallback = SQLite::_sqliteLogCallback;
    if (rt::active()) { rt::ignoreAtomic(&SQLite::enableTrace); rt::ignoreAtomic(&SQLite::journalZstdDictionaryID); }
}
// A database file with journal tables (and a schema), created by the real constructor once per process.
static string seededFile(int journals = 0, const string& schema = "", const char* prefix = "mcdb") {
    static map<string, shim::ImagePtr> memo;
    auto& im = memo[to_string(journals) + schema];
    if (!im) { string f = shim::freshName("seed"); { SQLite db(f, 0, 1000000, journals); } if (!schema.empty()) { shim::Db d(f); if (!d.exec(schema)) mc::internalError("schema: %s", d.error.c_str()); } im = shim::image(f); }
    string f = shim::freshName(prefix); shim::seed(f, im); return f;
}
// Replays a journal on an empty database and returns its content; memoized.
static string replayJournal(const vector<shim::JournalEntry>& j, const string& base = "") {
    static map<uint64_t, string> memo;
    uint64_t h = mc::hashStr(base); for (auto& e : j) h = mc::hashStr(e.query, h * 31 + 7);
    auto it = memo.find(h); if (it != memo.end()) return it->second;
    bool points = shim::pointsEnabled; shim::pointsEnabled = false;
    string d; { shim::Db db(shim::freshName("tmp")); if (!base.empty() && !db.exec(base)) mc::internalError("base: %s", db.error.c_str());
      for (auto& e : j) { if (e.query.empty()) continue; if (!db.exec("BEGIN;") || !db.exec(e.query) || !db.exec("COMMIT;")) { d = "replay of commit " + to_string(e.id) + " failed: " + db.error + "\n"; break; } }
      if (d.empty()) d = db.dump(); }
    shim::pointsEnabled = points;
    return memo[h] = d;
}
// One committed image of a database: consecutive ids, hash chain, data equal to the replayed journal. Memoized by content.
struct ImageInfo { uint64_t first = 0, last = 0; string lastHash; string data; };
static ImageInfo checkImage(const shim::ImagePtr& im, bool fullHistory = true, const string& base = "", uint64_t startHashless = 0) {
    static map<uint64_t, ImageInfo> memo;
    uint64_t h = shim::hashImage(im); auto it = memo.find(h); if (it != memo.end()) return it->second;
    bool points = shim::pointsEnabled; shim::pointsEnabled = false;
    ImageInfo info; vector<shim::JournalEntry> j; { shim::Db db(im); j = journalOf(db); info.data = db.dump(); }
    shim::pointsEnabled = points;
    string prev; bool known = fullHistory;
    for (size_t i = 0; i < j.size(); i++) {
        if (i) MC_CHECK(j[i].id == j[i - 1].id + 1, "journal is not gapless: commit %lu (%s) follows commit %lu (%s)", j[i].id, j[i].table.c_str(), j[i - 1].id, j[i - 1].table.c_str());
        else if (fullHistory) MC_CHECK(j[i].id == 1, "journal starts at commit %lu", j[i].id);
        if (i || known) { string want = SToHex(SHashSHA1(prev + j[i].query)); MC_CHECK(j[i].hash == want, "hash of commit %lu is %s, not the SHA1 of the previous hash and its query (%s)", j[i].id, j[i].hash.c_str(), want.c_str()); }
        prev = j[i].hash; mc::compared();
    }
    if (!j.empty()) { info.first = j[0].id; info.last = j.back().id; info.lastHash = prev; }
    if (fullHistory) { string r = replayJournal(j, base); MC_CHECK(r == info.data, "executing the %zu journaled queries gives different data.\nreplayed:\n%s\nstored:\n%s", j.size(), r.c_str(), info.data.c_str()); mc::compared(); }
    return memo[h] = info;
}
// Every image the file went through (each is what a crash at that point leaves, and what other connections see).
static void checkHistory(const string& file, bool full = true, const string& base = "") { ImageInfo last; for (auto& im : shim::history(file)) { auto i = checkImage(im, full, base); MC_CHECK(i.last == last.last || i.last == last.last + 1, "one database commit moved the journal from %lu to %lu", last.last, i.last); last = i; mc::state(shim::hashImage(im)); } }
