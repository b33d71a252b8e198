#include "shim.h"
#include "mc.h"
#include "rt.h"
#include <sqlite3.h>
#include <dlfcn.h>
#include <string.h>
#include <strings.h>
#include <stdlib.h>
#include <algorithm>
#include <set>
#include <map>
#ifdef SHIM_DEMO
#include <mutex>
static std::recursive_mutex& shimMutex() { static std::recursive_mutex m; return m; }
#define SHIM_LOCK std::lock_guard<std::recursive_mutex> shimLock(shimMutex());
#else
#define SHIM_LOCK
#endif
using namespace std;
namespace shim {
void (*logCallback)(void*, int, const char*) = nullptr;
bool pointsEnabled = true;
function<int(sqlite3*, const char*)> onStep;
function<void()> onProgress;
static function<bool()> busyBegin;
int progressOps = 0;
uint64_t clockUs = 1700000000ull * 1000000ull;
static uint64_t gConflicts = 0, gLockSerial = 0, gVersion = 0;
const int PS = 4096;

struct Store { string name; ImagePtr cur = make_shared<Image>(); vector<ImagePtr> hist; };
static map<string, shared_ptr<Store>>& stores() { static auto* m = new map<string, shared_ptr<Store>>; return *m; }
uint64_t conflicts() { return gConflicts; }
void setBusyBegin(function<bool()> f) { busyBegin = f; }
string freshName(const char* p) { static uint64_t n = 0; return string("/nonexistent/") + p + to_string(n++); }
static shared_ptr<Store> store(const string& n) { auto& s = stores()[n]; if (!s) { s = make_shared<Store>(); s->name = n; } return s; }
void seed(const string& n, ImagePtr i) { auto s = store(n); s->cur = i; s->hist = {i}; }
ImagePtr image(const string& n) { return store(n)->cur; }
vector<ImagePtr> history(const string& n) { return store(n)->hist; }
void clearHistory(const string& n) { store(n)->hist.clear(); }
uint64_t hashImage(const ImagePtr& im) {
    uint64_t h = 1; size_t k = 0;
    for (auto& p : *im) { if (!k) { string d = p->data; memset(&d[24], 0, 16); memset(&d[92], 0, 8); h = mc::hashStr(d, h); } else h = mc::hashStr(p->data, h); k++; }
    return h;
}

// --- the file system ---
struct File {
    sqlite3_file base; Store* st; shared_ptr<Store>* hold; int lock; ImagePtr* snap; map<uint32_t, string>* writes; set<uint32_t>* reads; uint32_t npages; unsigned char stamp[16]; string* priv; sqlite3** conn; bool conflict, aborted;
};
static void conflictLog(File* f, uint32_t pg, bool wr);
static int fClose(sqlite3_file* f_) { auto f = (File*) f_; delete f->hold; delete f->snap; delete f->writes; delete f->reads; delete f->priv; f->hold = nullptr; return SQLITE_OK; }
static int fRead(sqlite3_file* f_, void* buf, int n, sqlite3_int64 off) {
    auto f = (File*) f_; char* out = (char*) buf;
    if (!f->st) {
        int64_t have = (int64_t) f->priv->size() - off; if (have < 0) have = 0; if (have > n) have = n;
        if (have) memcpy(out, f->priv->data() + off, have);
        if (have < n) { memset(out + have, 0, n - have); return SQLITE_IOERR_SHORT_READ; }
        return SQLITE_OK;
    }
    ImagePtr im = f->lock >= SQLITE_LOCK_SHARED && *f->snap ? *f->snap : f->st->cur;
    bool sh = false; int i = 0;
    while (i < n) {
        uint32_t pg = (off + i) / PS; int po = (off + i) % PS; int len = min(n - i, PS - po);
        if (f->lock >= SQLITE_LOCK_SHARED) f->reads->insert(pg);
        auto w = f->writes->find(pg);
        if (w != f->writes->end()) memcpy(out + i, w->second.data() + po, len);
        else if (pg < im->size()) {
            memcpy(out + i, (*im)[pg]->data.data() + po, len);
            if (pg == 0 && f->lock >= SQLITE_LOCK_SHARED) for (int k = 0; k < 4; k++) { int64_t at = 24 + k - po; if (at >= 0 && at < len) out[i + at] = f->stamp[k]; }
        } else { memset(out + i, 0, len); sh = true; }
        i += len;
    }
    return sh ? SQLITE_IOERR_SHORT_READ : SQLITE_OK;
}
static int fWrite(sqlite3_file* f_, const void* buf, int n, sqlite3_int64 off) {
    auto f = (File*) f_;
    if (!f->st) { if (f->priv->size() < (size_t) (off + n)) f->priv->resize(off + n); memcpy(&(*f->priv)[off], buf, n); return SQLITE_OK; }
    if (f->lock < SQLITE_LOCK_EXCLUSIVE) mc::internalError("database write without exclusive lock");
    if (f->aborted) return SQLITE_OK;
    // Two transactions that both extend the file, or both change the free list, conflict.
    const Image &a = **f->snap, &b = *f->st->cur;
    uint32_t first = off / PS;
    if (f->st->cur != *f->snap) {
        bool clash = first >= a.size() && b.size() != a.size();
        if (first == 0 && n == PS && !a.empty()) for (int o = 32; o < 40; o += 4) clash |= memcmp((const char*) buf + o, &a[0]->data[o], 4) && memcmp(&b[0]->data[o], &a[0]->data[o], 4);
        if (clash) { f->aborted = true; conflictLog(f, first, true); return SQLITE_BUSY; }
    }
    int i = 0;
    while (i < n) {
        uint32_t pg = (off + i) / PS; int po = (off + i) % PS; int len = min(n - i, PS - po);
        auto& d = (*f->writes)[pg];
        if (d.empty()) { d.assign(PS, 0); if (pg < (*f->snap)->size()) d = (**f->snap)[pg]->data; }
        memcpy(&d[po], (const char*) buf + i, len);
        if (pg + 1 > f->npages) f->npages = pg + 1;
        i += len;
    }
    return SQLITE_OK;
}
static int fTruncate(sqlite3_file* f_, sqlite3_int64 sz) { auto f = (File*) f_; if (!f->st) { f->priv->resize(sz); return SQLITE_OK; } f->npages = sz / PS; return SQLITE_OK; }
static int fSync(sqlite3_file*, int) { return SQLITE_OK; }
static int fSize(sqlite3_file* f_, sqlite3_int64* sz) { auto f = (File*) f_; if (!f->st) *sz = f->priv->size(); else *sz = (sqlite3_int64) PS * (f->lock >= SQLITE_LOCK_SHARED ? f->npages : f->st->cur->size()); return SQLITE_OK; }
static void conflictLog(File* f, uint32_t pg, bool wr) {
    gConflicts++; f->conflict = true;
    if (!logCallback) return;
    string m = "cannot commit CONCURRENT transaction - conflict at page " + to_string(pg + 1) + " (" + (wr ? "read/write" : "read-only") + " page; part of db table t" + to_string(pg + 1) + "; content=00)";
    logCallback(nullptr, 0, m.c_str());
}
// Every page a transaction changes was read by it, or is new (see fWrite).
static int fLock(sqlite3_file* f_, int level) {
    auto f = (File*) f_;
    if (!f->st) { f->lock = level; return SQLITE_OK; }
    if (level == SQLITE_LOCK_SHARED && f->lock < SQLITE_LOCK_SHARED) {
        *f->snap = f->st->cur; f->npages = f->st->cur->size(); f->reads->clear(); f->writes->clear();
        uint64_t s = ++gLockSerial; memcpy(f->stamp, &s, 4);
    }
    if (level == SQLITE_LOCK_EXCLUSIVE && f->lock < SQLITE_LOCK_EXCLUSIVE && f->st->cur != *f->snap) {
        const Image &a = **f->snap, &b = *f->st->cur;
        for (uint32_t pg : *f->reads) {
            bool same = pg < a.size() && pg < b.size() ? a[pg]->version == b[pg]->version : pg >= a.size() && pg >= b.size();
            if (!same && pg == 0 && pg < a.size() && pg < b.size()) {   // page 1: only the schema and the root page content matter here
                const string &x = a[0]->data, &y = b[0]->data;
                same = !memcmp(&x[0], &y[0], 24) && !memcmp(&x[40], &y[40], 52) && !memcmp(&x[100], &y[100], PS - 100);
            }
            if (!same) { conflictLog(f, pg, true); return SQLITE_BUSY; }
        }
    }
    f->lock = max(f->lock, level);
    return SQLITE_OK;
}
// Publishes the pages written while the exclusive lock was held.
static void publish(File* f) {
    if (f->aborted) { f->aborted = false; f->writes->clear(); f->npages = (*f->snap)->size(); return; }
    if (f->writes->empty() && f->npages == (*f->snap)->size()) return;
    const Image &a = **f->snap; const Image& b = *f->st->cur;
    bool moved = f->st->cur != *f->snap;
    auto im = make_shared<Image>(b);
    if (f->npages != a.size()) {
        if (moved && b.size() != a.size()) mc::internalError("allocation conflict missed");
        im->resize(f->npages);
    }
    uint64_t v = ++gVersion;
    for (auto& [pg, d] : *f->writes) {
        if (pg >= im->size()) continue;
        string data = d;
        if (moved && pg == 0 && !a.empty()) {
            const string &x = a[0]->data, &y = b[0]->data;
            bool bodySame = !memcmp(&x[0], &data[0], 24) && !memcmp(&x[40], &data[40], 52) && !memcmp(&x[100], &data[100], PS - 100);
            string m = bodySame ? y : data;
            for (int o = 28; o < 40; o += 4) { if (memcmp(&data[o], &x[o], 4)) memcpy(&m[o], &data[o], 4); else memcpy(&m[o], &y[o], 4); }
            data = m;
        }
        if (pg == 0) { uint32_t n = im->size(); char c[4] = {char(n >> 24), char(n >> 16), char(n >> 8), char(n)}; memcpy(&data[28], c, 4); }
        (*im)[pg] = make_shared<Page>(Page{data, v});
    }
    f->st->cur = im; f->st->hist.push_back(im);
    *f->snap = im; f->writes->clear(); f->npages = im->size();
}
static int fUnlock(sqlite3_file* f_, int level) {
    auto f = (File*) f_;
    if (f->st && f->lock >= SQLITE_LOCK_EXCLUSIVE && level < SQLITE_LOCK_EXCLUSIVE) publish(f);
    if (f->st && level < SQLITE_LOCK_SHARED) { f->writes->clear(); f->snap->reset(); }
    f->lock = min(f->lock, level);
    return SQLITE_OK;
}
static int fReserved(sqlite3_file*, int* r) { *r = 0; return SQLITE_OK; }
static int fControl(sqlite3_file*, int, void*) { return SQLITE_NOTFOUND; }
static int fSector(sqlite3_file*) { return PS; }
static int fChar(sqlite3_file*) { return 0; }
static const sqlite3_io_methods io = {1, fClose, fRead, fWrite, fTruncate, fSync, fSize, fLock, fUnlock, fReserved, fControl, fSector, fChar};
static File* lastMain;
static int vOpen(sqlite3_vfs*, const char* name, sqlite3_file* f_, int flags, int* out) {
    auto f = (File*) f_; memset((void*) f, 0, sizeof *f); f->base.pMethods = &io;
    f->writes = new map<uint32_t, string>; f->reads = new set<uint32_t>; f->snap = new ImagePtr; f->priv = new string;
    if (flags & SQLITE_OPEN_MAIN_DB) { auto s = store(name); f->st = s.get(); f->hold = new shared_ptr<Store>(s); lastMain = f; }
    if (out) *out = flags;
    return SQLITE_OK;
}
static int vDelete(sqlite3_vfs*, const char*, int) { return SQLITE_OK; }
static int vAccess(sqlite3_vfs*, const char* n, int, int* r) { *r = stores().count(n); return SQLITE_OK; }
static int vFull(sqlite3_vfs*, const char* n, int sz, char* out) { snprintf(out, sz, "%s", n); return SQLITE_OK; }
static int vRandom(sqlite3_vfs*, int n, char* out) { memset(out, 7, n); return n; }
static int vSleep(sqlite3_vfs*, int us) { return us; }
static int vTime64(sqlite3_vfs*, sqlite3_int64* t) { *t = 210866760000000ll + (int64_t) ((rt::active() ? rt::nowUs() : clockUs) / 1000); return SQLITE_OK; }
static int vTime(sqlite3_vfs* v, double* d) { sqlite3_int64 t; vTime64(v, &t); *d = t / 86400000.0; return SQLITE_OK; }
static int vErr(sqlite3_vfs*, int, char*) { return 0; }
static sqlite3_vfs vfs = {2, sizeof(File), 1024, nullptr, "mcvfs", nullptr, vOpen, vDelete, vAccess, vFull, nullptr, nullptr, nullptr, nullptr, vRandom, vSleep, vTime, vErr, vTime64};

struct Conn { File* file = nullptr; bool conflict = false; int (*walHook)(void*, sqlite3*, const char*, int) = nullptr; void* walArg = nullptr; int frames = 0; int (*prog)(void*) = nullptr; void* progArg = nullptr; };
static map<sqlite3*, Conn>& conns() { static auto* m = new map<sqlite3*, Conn>; return *m; }
template<class T> static T real(const char* n) { auto p = (T) dlsym(RTLD_NEXT, n); if (!p) mc::internalError("no %s", n); return p; }
#define REAL(n) static auto r_##n = real<decltype(&n)>(#n)
#define RCALL(n) ([]{ REAL(n); return r_##n; }())
void reset() {
    stores().clear(); gConflicts = 0;
    onStep = nullptr; onProgress = nullptr; progressOps = 0; busyBegin = nullptr; pointsEnabled = true;
    sqlite3_test_control(28, 1, nullptr);   // deterministic random()
}
static void ensureVfs() { static bool done = [] { sqlite3_initialize(); sqlite3_vfs_register(&vfs, 1); return true; }(); (void) done; }
static int openDb(const char* name, sqlite3** db, int flags, const char* v) { SHIM_LOCK
    ensureVfs(); REAL(sqlite3_open_v2); lastMain = nullptr;
    int r = r_sqlite3_open_v2(name, db, flags, v);
    if (r == SQLITE_OK) {
        sqlite3_exec(*db, "PRAGMA journal_mode=memory; PRAGMA synchronous=off; PRAGMA cache_spill=off", nullptr, nullptr, nullptr);
        Conn c; c.file = lastMain; conns()[*db] = c;
    }
    return r;
}
static bool inSlow = false;
static int progressTramp(void* p) { auto c = (Conn*) p; if (!inSlow) return 0; if (onProgress) onProgress(); return c->prog ? c->prog(c->progArg) : 0; }
static bool startsWith(const char* s, const char* kw, const char** rest) {
    while (*s == ' ' || *s == '\n' || *s == '\t' || *s == '\r') s++;
    while (*kw) { if (*kw == ' ') { if (*s != ' ') return false; while (*s == ' ') s++; kw++; continue; } if (tolower(*s) != *kw) return false; s++; kw++; }
    if (rest) *rest = s; return true;
}

// --- raw access for the oracles ---
Db::Db(const string& n) : name(n) { if (openDb(n.c_str(), &db, SQLITE_OPEN_READWRITE | SQLITE_OPEN_CREATE | SQLITE_OPEN_NOMUTEX, nullptr)) mc::internalError("open %s", n.c_str()); }
static string seedTmp(ImagePtr i) { string n = freshName("img"); seed(n, i); return n; }
Db::Db(ImagePtr i) : Db(seedTmp(i)) {}
Db::~Db() { conns().erase(db); RCALL(sqlite3_close_v2)(db); if (name.find("/img") != string::npos || name.find("/tmp") != string::npos) stores().erase(name); }
Rows Db::query(const string& sql, bool* ok) {
    REAL(sqlite3_step); REAL(sqlite3_prepare_v2);
    Rows out; error.clear(); if (ok) *ok = true;
    const char* p = sql.c_str(); const char* e = p + sql.size();
    while (p < e) {
        sqlite3_stmt* s = nullptr; const char* t = nullptr;
        int r = r_sqlite3_prepare_v2(db, p, e - p, &s, &t);
        if (r) { error = sqlite3_errmsg(db); if (ok) *ok = false; return out; }
        if (!s) { if (t == p) break; p = t; continue; }
        while ((r = r_sqlite3_step(s)) == SQLITE_ROW) {
            vector<string> row;
            for (int i = 0; i < sqlite3_column_count(s); i++) switch (sqlite3_column_type(s, i)) {
                case SQLITE_NULL: row.push_back("~"); break;
                case SQLITE_BLOB: case SQLITE_TEXT: { auto b = (const char*) (sqlite3_column_type(s, i) == SQLITE_BLOB ? sqlite3_column_blob(s, i) : (const void*) sqlite3_column_text(s, i)); row.push_back(b ? string(b, sqlite3_column_bytes(s, i)) : ""); break; }
                default: row.push_back((const char*) sqlite3_column_text(s, i));
            }
            out.push_back(row);
        }
        sqlite3_finalize(s);
        if (r != SQLITE_DONE) { error = sqlite3_errmsg(db); if (ok) *ok = false; return out; }
        p = t;
    }
    return out;
}
bool Db::exec(const string& s) { bool ok; query(s, &ok); return ok; }
static bool isJournal(const string& n) { return n.rfind("journal", 0) == 0 && (n == "journal" || n == "journalEntries" || (n.size() == 11 && n.find_first_not_of("0123456789", 7) == string::npos)); }
string Db::dump(bool journals) {
    string o;
    for (auto& r : query("SELECT name, type, sql FROM sqlite_master WHERE name NOT LIKE 'sqlite_stat%' ORDER BY type, name")) {
        if (isJournal(r[0]) && !journals) continue;
        o += r[1] + " " + r[0] + ": " + r[2] + "\n";
        if (r[1] != "table") continue;
        for (auto& row : query("SELECT * FROM " + r[0] + " ORDER BY 1" + (r[0] == "sqlite_sequence" ? "" : ", rowid"))) { for (auto& c : row) o += c + "|"; o += "\n"; }
    }
    return o;
}
vector<JournalEntry> journal(Db& db) {
    vector<JournalEntry> out;
    for (auto& r : db.query("SELECT name FROM sqlite_master WHERE type='table'")) if (isJournal(r[0]) && r[0] != "journalEntries")
        for (auto& e : db.query("SELECT id, query, hash FROM " + r[0])) out.push_back({strtoull(e[0].c_str(), nullptr, 10), e[1], e[2], r[0]});
    stable_sort(out.begin(), out.end(), [](auto& a, auto& b) { return a.id < b.id; });
    return out;
}
}
using namespace shim;

extern "C" {
const char* sqlite3_normalized_sql(sqlite3_stmt* s) { return sqlite3_sql(s); }
int sqlite3_open_v2(const char* name, sqlite3** db, int flags, const char* v) { return openDb(name, db, flags & ~SQLITE_OPEN_URI, v); }
int sqlite3_close(sqlite3* db) { SHIM_LOCK REAL(sqlite3_close); int r = r_sqlite3_close(db); if (!r) conns().erase(db); return r; }
int sqlite3_close_v2(sqlite3* db) { conns().erase(db); return RCALL(sqlite3_close_v2)(db); }
int sqlite3_busy_timeout(sqlite3*, int) { return SQLITE_OK; }
void* sqlite3_wal_hook(sqlite3* db, int (*cb)(void*, sqlite3*, const char*, int), void* arg) { auto it = conns().find(db); if (it != conns().end()) { it->second.walHook = cb; it->second.walArg = arg; } return nullptr; }
int sqlite3_wal_checkpoint_v2(sqlite3*, const char*, int, int* a, int* b) { if (a) *a = 1; if (b) *b = 1; return SQLITE_OK; }
void sqlite3_progress_handler(sqlite3* db, int n, int (*cb)(void*), void* arg) {
    REAL(sqlite3_progress_handler);
    auto it = conns().find(db);
    if (progressOps && cb && it != conns().end()) { it->second.prog = cb; it->second.progArg = arg; r_sqlite3_progress_handler(db, progressOps, progressTramp, &it->second); }
    else r_sqlite3_progress_handler(db, n, cb, arg);
}
static int prepareCommon(int (*f)(sqlite3*, const char*, int, sqlite3_stmt**, const char**), sqlite3* db, const char* sql, int n, sqlite3_stmt** st, const char** tail) { SHIM_LOCK
    const char* rest;
    if (sql && startsWith(sql, "begin concurrent", &rest)) {
        string c(sql, n < 0 ? strlen(sql) : strnlen(sql, n)); size_t len = rest - sql;
        size_t p = len - 10; memset(&c[p], ' ', 10);
        const char* t = nullptr; int r = f(db, c.c_str(), c.size() + 1, st, &t);
        if (tail) *tail = t ? sql + (t - c.c_str()) : sql + c.size();
        return r;
    }
    if (sql && startsWith(sql, "pragma journal_mode", &rest)) {
        string all(sql, n < 0 ? strlen(sql) : strnlen(sql, n)); size_t semi = all.find(';'); string one = all.substr(0, semi); for (char& c : one) c = tolower(c);
        bool del = one.find("delete") != string::npos;
        int r = f(db, del ? "SELECT 'delete'" : "SELECT 'wal2'", -1, st, nullptr);
        if (tail) *tail = semi == string::npos ? sql + all.size() : sql + semi + 1;
        return r;
    }
    return f(db, sql, n, st, tail);
}
int sqlite3_prepare_v2(sqlite3* db, const char* sql, int n, sqlite3_stmt** st, const char** tail) { REAL(sqlite3_prepare_v2); return prepareCommon(r_sqlite3_prepare_v2, db, sql, n, st, tail); }
int sqlite3_step(sqlite3_stmt* s) {
    SHIM_LOCK REAL(sqlite3_step);
    sqlite3* db = sqlite3_db_handle(s);
    auto it = conns().find(db);
    if (it == conns().end()) return r_sqlite3_step(s);
    Conn* c = &it->second;
    c->conflict = false;
    const char* sql = sqlite3_sql(s);
    const char* rest;
    bool commit = sql && startsWith(sql, "commit", &rest), begin = sql && startsWith(sql, "begin", &rest);
    if (!sqlite3_stmt_busy(s)) {
        if (pointsEnabled && rt::active() && (commit || !begin && sqlite3_txn_state(db, "main") == SQLITE_TXN_NONE)) { rt::point(commit ? "commit" : "snapshot"); }
        if (busyBegin && begin && busyBegin()) return SQLITE_ERROR;
        if (onStep) { int r = onStep(db, sql); if (r) return r; }
    }
    bool wasSlow = inSlow; inSlow = sql && strstr(sql, "/*slow*/");
    int r = r_sqlite3_step(s);
    inSlow = wasSlow;
    bool wrote = false;
    if (c->file) { if (c->file->conflict) { c->conflict = true; c->file->conflict = false; } }
    if (r == SQLITE_BUSY && commit) c->conflict = true;
    wrote = r == SQLITE_DONE && commit;
    if (wrote && c->walHook) { c->frames++; c->walHook(c->walArg, db, "main", c->frames); }
    return r;
}
int sqlite3_extended_errcode(sqlite3* db) { SHIM_LOCK REAL(sqlite3_extended_errcode); auto it = conns().find(db); if (it != conns().end() && it->second.conflict) return SQLITE_BUSY_SNAPSHOT; return r_sqlite3_extended_errcode(db); }
}
