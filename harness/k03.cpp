// K03: encoders and their decoders are inverses; SQL literals keep their value and stay literals. Real code: libstuff.cpp, SQliteParameter.cpp.
#include <libstuff/libstuff.h>
#include <libstuff/SQliteParameter.h>
#include "../lib/mc.h"
#include "guard.h"
#include <mbedtls/md.h>
#include <mbedtls/aes.h>
#include <sqlite3.h>
#include <limits>
#include <cmath>
// Strings under test can be given memory that ends at an inaccessible page.
static bool gGuardNew; static bool gSlotUsed;
void* operator new(size_t n) { if (gGuardNew && n > 16 && n <= Guard::N && !gSlotUsed) { gSlotUsed = true; return Guard::one().p + 4096 + Guard::N - n; } void* p = malloc(n ? n : 1); if (!p) abort(); return p; }
void operator delete(void* p) noexcept { if (p >= Guard::one().p && p < Guard::one().p + Guard::N + 8192) { gSlotUsed = false; return; } free(p); }
void operator delete(void* p, size_t) noexcept { operator delete(p); }
struct Exact { string s; explicit Exact(const string& t) { Guard::one(); gGuardNew = true; s.assign(t); gGuardNew = false; } };
static void quietLogs() { _g_SLogMask = 0; }
static string hexText(const string& s) { string o; for (unsigned char c : s) { char b[4]; snprintf(b, 4, "%02X", c); o += b; } return o; }
static string lower(string s) { for (char& c : s) c = (char) tolower(c); return s; }
static string upToNul(const string& s) { return s.substr(0, s.find('\0')); }
static string brief(const string& s) { return s.size() > 120 ? vis(s.substr(0, 60)) + "...(" + to_string(s.size()) + " bytes)" : vis(s); }
#define SAME(got, want, ...) do { string g_ = (got), w_ = (want); mc::compared(); if (g_ != w_) mc::fail("%s: got \"%s\" instead of \"%s\"", SFormat(__VA_ARGS__).c_str(), brief(g_).c_str(), brief(w_).c_str()); } while (0)
static string SFormat(const char* f, ...) __attribute__((format(printf, 1, 2)));
static string SFormat(const char* f, ...) { char b[2000]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b; }
static void did(const string& state, const string& outcome, int n = 1) { mc::state(state); mc::outcome(outcome); mc::transition(n); mc::note("%s", brief(state).c_str()); }
// Data of a given length: several kinds.
static string filler(size_t n, int kind) { string s(n, 0); uint32_t x = 12345; for (size_t i = 0; i < n; i++) { x = x * 1664525 + 1013904223; s[i] = kind == 0 ? 'a' : kind == 1 ? (char) (x >> 24) : kind == 2 ? (char) ("the quick \0fox\n"[i % 15]) : (char) i; } return s; }
static string units(const vector<string>& alphabet, int maxLen, const char* what) { int n = mc::choose(maxLen + 1, what); string s; for (int i = 0; i < n; i++) s += mc::pick(alphabet, what); return s; }

// --- SQL -------------------------------------------------------------------------------------------
static sqlite3* db() { static sqlite3* d = [] { sqlite3* x; sqlite3_open(":memory:", &x); return x; }(); return d; }
struct Cell { int type; string text; bool operator==(const Cell& o) const { return type == o.type && text == o.text; } };
static vector<Cell> evaluate(const string& sql, const string& about) {
    sqlite3_stmt* st = nullptr; const char* tail = nullptr; int rc = sqlite3_prepare_v2(db(), sql.data(), (int) sql.size(), &st, &tail);
    if (rc != SQLITE_OK || !st) mc::fail("\"%s\": SQLite rejects %s: %s", brief(about).c_str(), brief(sql).c_str(), sqlite3_errmsg(db()));
    if (tail && tail != sql.data() + sql.size()) mc::fail("\"%s\" ends the statement early: %s", brief(about).c_str(), brief(sql).c_str());
    if (sqlite3_step(st) != SQLITE_ROW) mc::fail("\"%s\": %s gave no row", brief(about).c_str(), brief(sql).c_str());
    vector<Cell> out; for (int i = 0; i < sqlite3_column_count(st); i++) { Cell c; c.type = sqlite3_column_type(st, i); const char* p = (const char*) sqlite3_column_text(st, i); c.text = string(p ? p : "", p ? sqlite3_column_bytes(st, i) : 0); out.push_back(c); }
    sqlite3_finalize(st); return out;
}
static void literal(const string& s) {
    auto row = evaluate("SELECT 7, " + SQ(s) + ", 8", s); vector<Cell> want = {{SQLITE_INTEGER, "7"}, {SQLITE_TEXT, upToNul(s)}, {SQLITE_INTEGER, "8"}};
    mc::compared(); if (row != want) mc::fail("SQ(\"%s\") = %s is evaluated to %zu columns, \"%s\"", brief(s).c_str(), brief(SQ(s)).c_str(), row.size(), row.size() > 1 ? brief(row[1].text).c_str() : "");
    auto cat = evaluate("SELECT " + SQ(s) + "||" + SQ(s.c_str()), s); if (cat.size() != 1 || cat[0].text != upToNul(s) + upToNul(s)) mc::fail("two literals of \"%s\" are evaluated to \"%s\"", brief(s).c_str(), brief(cat[0].text).c_str());
}
static void sqlLiterals() { quietLogs(); static const vector<string> A = {"'", "a", "\\", "\"", ";", "--", "\n", "/*", "*/", "\xff", "\xc3\xa9", string(1, '\0'), "?", "%", ")", "x'"}; string s = units(A, mc::thorough() ? 5 : 4, "text"); literal(s); did(s, to_string(SQ(s).size() - s.size()), 2); }
static void sqlBytes() { quietLogs(); string s(1, (char) mc::choose(256, "byte")); int b = mc::choose(257, "byte"); if (b < 256) s += (char) b; literal(s); literal("'" + s + "'"); did(s, to_string(SQ(s).size() - s.size()), 4); }
static void sqlNumbers() {
    quietLogs(); static const vector<int64_t> V = [] { vector<int64_t> v = {0}; for (int i = 0; i < 63; i++) for (int64_t d : {-1, 0, 1}) { v.push_back((int64_t(1) << i) + d); v.push_back(-(int64_t(1) << i) + d); } v.push_back(INT64_MAX); v.push_back(INT64_MIN); return v; }();
    int64_t v = mc::pick(V, "value"); SAME(SQ(v), to_string(v), "SQ(%ld)", v); SAME(SQ((int) v), to_string((int) v), "SQ((int) %ld)", v); SAME(SQ((unsigned) v), to_string((unsigned) v), "SQ((unsigned) %ld)", v); SAME(SQ((uint64_t) v), to_string((uint64_t) v), "SQ((uint64_t) %ld)", v);
    auto row = evaluate("SELECT " + SQ(v) + ", -1", SQ(v)); if (v != INT64_MIN) MC_CHECK(row.size() == 2 && row[0] == (Cell{SQLITE_INTEGER, to_string(v)}), "SQ(%ld) is evaluated to %s", v, row[0].text.c_str());
    SAME(SToStr(v), to_string(v), "SToStr"); MC_CHECK(SToInt64(to_string(v)) == v && SToInt64(to_string(v).c_str()) == v && SToUInt64(to_string((uint64_t) v)) == (uint64_t) v && SToInt(to_string((int) v)) == (int) v, "%ld is read back as %ld", v, SToInt64(to_string(v)));
    MC_CHECK(SFromHex(SToHex((uint64_t) v)) == (uint64_t) v && SFromHex(lower(SToHex((uint64_t) v))) == (uint64_t) v && SToHex((uint64_t) v).size() == 16, "hex of %lx is %s", v, SToHex((uint64_t) v).c_str()); MC_CHECK(SToHex((uint32_t) v).size() == 8 && SFromHex(SToHex((uint32_t) v)) == (uint32_t) v, "hex of %x is %s", (unsigned) v, SToHex((uint32_t) v).c_str());
    for (int d = 1; d <= 16; d++) { uint64_t m = d == 16 ? ~0ull : (1ull << 4 * d) - 1; string h = SToHex((uint64_t) v, d); MC_CHECK((int) h.size() == d && SFromHex(h) == ((uint64_t) v & m), "%d hex digits of %lx are %s", d, v, h.c_str()); }
    mc::compared(24); did(to_string(v), v < 0 ? "negative" : "positive", 12);
}
// Lists of values: integers-only lists admit nothing but integers; other items are quoted.
static vector<string> referenceItems(const string& s, char sep) { vector<string> out; string cur; for (char c : upToNul(s) + sep) { if (c == sep) { if (!cur.empty()) out.push_back(cur); cur.clear(); } else if (c != ' ' || !cur.empty()) cur += c; } return out; }
static bool plainInteger(const string& s) { if (s.empty() || s.size() > 20) return false; size_t i = s[0] == '-'; if (i == s.size()) return false; for (size_t k = i; k < s.size(); k++) if (!isdigit((unsigned char) s[k])) return false; if (s[i] == '0' && s.size() > 1) return false; __int128 v = 0; for (size_t k = i; k < s.size(); k++) v = v * 10 + (s[k] - '0'); if (i) v = -v; return v >= INT64_MIN && v <= INT64_MAX; }
static void sqlLists() {
    quietLogs(); static const vector<string> A = {",", " ", "1", "0", "-", "9223372036854775807", "9223372036854775808", "'", "a", ")", "\n", "+", "\xff"}; string s = units(A, mc::thorough() ? 5 : 4, "list"); vector<string> items = referenceItems(s, ',');
    string safe = SQList(s, true), wants; for (auto& i : items) if (plainInteger(i)) wants += (wants.empty() ? "" : ", ") + i;
    SAME(safe, wants, "integers of \"%s\"", vis(s).c_str());
    string quoted = SQList(s, false); if (items.empty()) SAME(quoted, "", "list of \"%s\"", vis(s).c_str());
    else { auto row = evaluate("SELECT " + quoted, s); MC_CHECK(row.size() == items.size(), "list \"%s\" of %zu items is evaluated to %zu: %s", vis(s).c_str(), items.size(), row.size(), vis(quoted).c_str()); for (size_t i = 0; i < row.size(); i++) MC_CHECK(row[i].text == items[i] && row[i].type == SQLITE_TEXT, "item \"%s\" is evaluated to \"%s\"", vis(items[i]).c_str(), vis(row[i].text).c_str());
        for (string c : {SQList(items), SQList(list<string>(items.begin(), items.end()))}) { auto r2 = evaluate("SELECT " + c, s); MC_CHECK(r2 == row, "list of %zu strings is evaluated to %zu", items.size(), r2.size()); } }
    vector<int64_t> nums = {1, -5, INT64_MAX, 0}; SAME(SQList(nums), "1, -5, 9223372036854775807, 0", "list of numbers"); SAME(SQList(set<int64_t>{}), "", "empty list"); mc::compared(6); did(s, to_string(items.size()), 5);
}
// SParseList / SComposeList.
static void lists() {
    quietLogs(); static const vector<string> ITEM = {"a", "b c", "x ", "'", "\n", "1", "-7", "\xc3\xa9", "a\tb", "\xff"}; static const vector<char> SEP = {',', ';', '|', (char) 0xff}; char sep = mc::pick(SEP, "separator"); int n = mc::choose(mc::thorough() ? 5 : 4, "items"); vector<string> v;
    for (int i = 0; i < n; i++) { v.push_back(mc::pick(ITEM, "item")); if (v.back().find(sep) != string::npos) v.back() = "z"; }
    list<string> l(v.begin(), v.end());
    for (string glue : {string(1, sep), string(1, sep) + " "}) { string text = SComposeList(v, glue), want; for (int i = 0; i < n; i++) want += (i ? glue : "") + v[i]; SAME(text, want, "list of %d", n); SAME(SComposeList(l, glue), want, "list of %d", n); list<string> back = SParseList(text, sep), b2; bool any = SParseList(text, b2, sep); MC_CHECK(back == l && b2 == l && any == (n > 0), "\"%s\" of %d items is read back as %zu", vis(text).c_str(), n, back.size()); MC_CHECK(SParseSet(text, sep) == set<string>(v.begin(), v.end()), "set of \"%s\"", vis(text).c_str()); }
    vector<int64_t> nums; string nt; static const vector<int64_t> N = {0, -1, 12, INT64_MAX, INT64_MIN}; for (int i = 0; i < n; i++) { nums.push_back(N[(v[i].size() + i) % N.size()]); } nt = SComposeList(nums, string(1, sep)); MC_CHECK(SParseIntegerVector(nt, sep) == nums && SParseIntegerList(nt, sep) == list<int64_t>(nums.begin(), nums.end()) && SParseIntegerSet(nt, sep) == set<int64_t>(nums.begin(), nums.end()), "numbers \"%s\" are read back differently", vis(nt).c_str());
    mc::compared(10); did(SComposeList(v, "|") + sep, to_string(n), 8);
}
static void anyList() { quietLogs(); static const vector<string> A = {",", " ", "a", "bc", ";", "\n", "-1"}; string s = units(A, mc::thorough() ? 7 : 5, "list"); vector<string> want = referenceItems(s, ','); list<string> got = SParseList(Exact(s).s); MC_CHECK(vector<string>(got.begin(), got.end()) == want, "\"%s\" is read as %zu items instead of %zu", vis(s).c_str(), got.size(), want.size()); mc::compared(); did(s, to_string(want.size())); }

// --- base64 and hex --------------------------------------------------------------------------------
static string ref64(const string& s) { static const char* T = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"; string o; for (size_t i = 0; i < s.size(); i += 3) { unsigned v = (unsigned char) s[i] << 16 | (i + 1 < s.size() ? (unsigned char) s[i + 1] << 8 : 0) | (i + 2 < s.size() ? (unsigned char) s[i + 2] : 0); o += T[v >> 18]; o += T[v >> 12 & 63]; o += i + 1 < s.size() ? T[v >> 6 & 63] : '='; o += i + 2 < s.size() ? T[v & 63] : '='; } return o; }
static void codecs(const string& s) {
    Exact e(s); string b = SEncodeBase64(e.s); SAME(b, ref64(s), "base64 of %zu bytes \"%s\"", s.size(), brief(s).c_str()); SAME(SEncodeBase64((const unsigned char*) s.data(), s.size()), b, "base64"); SAME(SDecodeBase64(Exact(b).s), s, "base64 decoded"); SAME(SDecodeBase64((const unsigned char*) b.data(), b.size()), s, "base64 decoded");
    string h = SToHex(s); SAME(h, hexText(s), "hex"); SAME(SStrFromHex(h), s, "hex decoded"); SAME(SStrFromHex(lower(h)), s, "lower hex decoded");
    string u = SEncodeURIComponent(s); for (unsigned char c : u) MC_CHECK(isalnum(c) || strchr("-_.!~*()%+", c), "\"%s\" is encoded as \"%s\"", brief(s).c_str(), brief(u).c_str()); SAME(SDecodeURIComponent(u), s, "URI component \"%s\" decoded", brief(u).c_str()); SAME(SDecodeURIComponent(Exact(u).s.data(), (int) u.size()), s, "URI component decoded");
    SAME(SQliteParameter::uriDecodeParamName(SQliteParameter::uriEncodeParamName(s)), s, "parameter name");
    for (auto& p : {SQliteParameter::text(s), SQliteParameter::blob(s)}) { string t = p.serialize(); for (unsigned char c : t) MC_CHECK(c > 32 && c < 127, "a serialized parameter has byte %d", c); SQliteParameter q = SQliteParameter::deserialize(t); MC_CHECK(q.type == p.type && q.stringValue == s, "parameter \"%s\" serialized as %s comes back as type %d \"%s\"", brief(s).c_str(), brief(t).c_str(), (int) q.type, brief(q.stringValue).c_str()); }
    mc::compared(4); mc::transition(14);
}
static void shortBytes() { quietLogs(); static const vector<int> B = {0, 1, '\n', ' ', '%', '+', '&', '=', 'a', 'Z', '0', ':', '#', '@', '$', '/', 0x3e, 0x3f, 0x7f, 0x80, 0xbf, 0xe9, 0xfb, 0xff}; int n = mc::choose(4, "length"); string s; if (n == 1) s = string(1, (char) mc::choose(256, "byte")); else for (int i = 0; i < n; i++) s += (char) mc::pick(B, "byte"); if (mc::thorough() && n == 3 && mc::choose(2, "longer")) s += (char) mc::pick(B, "byte"); codecs(s); did(s, SEncodeBase64(s).substr(0, 2)); }
static void bytePairs() { quietLogs(); string s; s += (char) mc::choose(256, "byte"); s += (char) mc::choose(256, "byte"); codecs(s); did(s, SToHex(s).substr(0, 1)); }
static void lengths() { quietLogs(); size_t n = mc::choose(mc::thorough() ? 1200 : 300, "length"); int kind = mc::choose(4, "kind"); string s = filler(n, kind); codecs(s); did(to_string(n) + "/" + to_string(kind), to_string(n % 3)); }
static void parameters() {
    quietLogs(); static const vector<int64_t> I = {0, 1, -1, INT64_MAX, INT64_MIN, 1ll << 53, (1ll << 53) + 1}; static const vector<double> D = {0.0, -0.0, 1.5, 0.1, -1e300, 5e-324, 1e-310, 1.7976931348623157e308, 3.141592653589793, 1.0 / 3, INFINITY, -INFINITY, 9007199254740993.0};
    SQliteParameter p; int k = mc::choose(3, "kind"); if (k == 1) p = SQliteParameter::i(mc::pick(I, "value")); else if (k == 2) p = SQliteParameter::d(mc::pick(D, "value")); else p = SQliteParameter::null();
    string t = p.serialize(); SQliteParameter q = SQliteParameter::deserialize(t); MC_CHECK(q.type == p.type && (k != 1 || q.intValue == p.intValue) && (k != 2 || memcmp(&q.doubleValue, &p.doubleValue, 8) == 0), "parameter %s comes back as %s", t.c_str(), q.serialize().c_str()); mc::compared(); did(t, t.substr(0, 1), 2);
}
// Texts nobody encoded: no crash, no read outside, and decoding depends on the text only.
static void arbitraryTexts() {
    quietLogs(); static const vector<string> A = {"%", "4", "1", "g", "+", "=", "A", "/", "&", "?", string(1, '\0'), "\xff"}; string s = units(A, mc::thorough() ? 6 : 5, "text"); Exact e(s);
    string d = SDecodeURIComponent(e.s.data(), (int) s.size()); { string want; for (size_t i = 0; i < s.size();) { bool pct = s[i] == '%' && i + 2 < s.size(); if (pct && isxdigit((unsigned char) s[i + 1]) && isxdigit((unsigned char) s[i + 2])) { want += (char) strtol(s.substr(i + 1, 2).c_str(), 0, 16); i += 3; } else if (pct) { size_t n = isxdigit((unsigned char) s[i + 1]) ? 3 : 2; want += s.substr(i, n); i += n; } else { want += s[i] == '+' ? ' ' : s[i]; i++; } } SAME(d, want, "decoding \"%s\"", vis(s).c_str()); }
    e.s.~string(); new (&e.s) string(); { Guard& g = Guard::one(); const char* p = g.atEnd(s); SAME(SDecodeURIComponent(p, (int) s.size()), d, "decoding \"%s\"", vis(s).c_str()); string path; STable nv; SParseURIPath(p, (int) s.size(), path, nv); SDecodeBase64((const unsigned char*) g.atEnd(s), s.size()); SParseURIPath(g.atStart(s), (int) s.size(), path, nv); }
    SStrFromHex(s); SFromHex(s); SQliteParameter::deserialize(s); SQliteParameter::uriDecodeParamName(s); for (auto& c : {"T", "B", "I", "D", "N", "x"}) SQliteParameter::deserialize(c + s);
    did(s, to_string(d.size()), 12);
}
// --- addresses with parameters ---------------------------------------------------------------------
static void posts() {
    quietLogs(); static const vector<string> V = {"", "a", "b c", "&", "=", "%41", "+", "?", "a&b=c", "\xc3\xa9", "\n", "\x7f", "/", "'"}; static const vector<string> P = {"/", "/a b", "/x%", "/\xff"}; STable t; int n = mc::choose(3, "parameters"); for (int i = 0; i < n; i++) { string name = mc::pick(V, "name"); t[to_string(i) + name] = mc::pick(V, "value"); }
    string path = mc::pick(P, "path"), post = SComposePOST(t), got; STable back; string uri = SEncodeURIComponent(path) + (n ? "?" + post : ""); bool ok = SParseURIPath(uri, got, back); MC_CHECK(ok && got == path && back == t, "%d parameters composed as \"%s\" are read back as %zu", n, vis(uri).c_str(), back.size());
    STable b2; string pp; SParseURIPath("p?" + post, pp, b2); MC_CHECK(b2 == t && pp == "p", "\"%s\"", vis(post).c_str()); mc::compared(2); did(uri, to_string(n), 4);
}
// --- compression, encryption, hashes ---------------------------------------------------------------
static void compression() {
    quietLogs(); static const vector<size_t> L = [] { vector<size_t> v; for (size_t i = 0; i < 260; i++) v.push_back(i); for (size_t b : {511, 1023, 4095, 16383, 32767, 49151, 65535}) for (size_t d = 0; d < 4; d++) v.push_back(b + d); if (mc::thorough()) { for (size_t i = 260; i < 1500; i++) v.push_back(i); for (size_t i = 1500; i < 70000; i += 97) v.push_back(i); } return v; }();
    size_t n = mc::pick(L, "length"); int kind = mc::choose(4, "kind"); string s = filler(n, kind); string z = SGZip(s); MC_CHECK(z.size() > 10 && (unsigned char) z[0] == 0x1f && (unsigned char) z[1] == 0x8b, "gzip of %zu bytes gives %zu bytes", n, z.size()); SAME(SGUnzip(z), s, "gunzip of %zu bytes", n); did(to_string(n) + "/" + to_string(kind), z.size() < n ? "smaller" : "larger", 2);
}
static void badCompression() { quietLogs(); static const string Z = SGZip("some text, some text, some more text"); int k = mc::choose((int) Z.size() + 1, "cut"); string s = Z.substr(0, k); if (k == (int) Z.size()) { int at = mc::choose(k, "damaged byte"); s[at] = (char) (s[at] ^ (1 << mc::choose(8, "bit"))); } string r = SGUnzip(s); if (k < (int) Z.size() && r.size()) MC_CHECK(string("some text, some text, some more text").compare(0, r.size(), r) == 0, "a cut stream gives \"%s\"", brief(r).c_str()); mc::compared(); did(s, to_string(r.size())); }
static string cbc(const string& s, const string& iv, const string& key) { mbedtls_aes_context c; mbedtls_aes_init(&c); mbedtls_aes_setkey_enc(&c, (const unsigned char*) key.data(), 256); string o, prev = iv; for (size_t i = 0; i < s.size(); i += 16) { string b = s.substr(i, 16); b.resize(16, 0); for (int k = 0; k < 16; k++) b[k] ^= prev[k]; unsigned char e[16]; mbedtls_aes_crypt_ecb(&c, MBEDTLS_AES_ENCRYPT, (const unsigned char*) b.data(), e); prev.assign((char*) e, 16); o += prev; } mbedtls_aes_free(&c); return o; }
static void encryption() {
    quietLogs(); size_t n = mc::choose(mc::thorough() ? 300 : 100, "length"); int kind = mc::choose(4, "kind"), kk = mc::choose(3, "key"); string s = filler(n, kind), key = filler(32, 1 + kk), iv = filler(16, 3 - kk), e = SAESEncrypt(s, iv, key); SAME(e, cbc(s, iv, key), "AES of %zu bytes", n);
    string d = SAESDecryptNoStrip(e, e.size(), iv, key); MC_CHECK(d.size() == (n + 15) / 16 * 16 && d.compare(0, n, s) == 0 && d.find_first_not_of('\0', n) == string::npos, "%zu encrypted bytes come back as %zu", n, d.size()); SAME(SAESDecrypt(e, iv, key), upToNul(s), "decrypted and stripped"); if (n % 16) SAME(SAESDecrypt(s, iv, key), "", "decrypting something of the wrong length"); unsigned char raw[16]; memcpy(raw, iv.data(), 16); SAME(SAESDecrypt(e, raw, key), upToNul(s), "decrypted"); mc::compared(); did(to_string(n) + "/" + to_string(kind) + to_string(kk), to_string(e.size()), 4);
}
static string md(mbedtls_md_type_t t, const string& s, const string* key = nullptr) { unsigned char o[64]; auto* i = mbedtls_md_info_from_type(t); if (key) mbedtls_md_hmac(i, (const unsigned char*) key->data(), key->size(), (const unsigned char*) s.data(), s.size(), o); else mbedtls_md(i, (const unsigned char*) s.data(), s.size(), o); return string((char*) o, mbedtls_md_get_size(i)); }
static void hashes() {
    quietLogs(); size_t n = mc::choose(mc::thorough() ? 300 : 140, "length"), k = mc::choose(mc::thorough() ? 200 : 140, "key length"); int kind = mc::choose(2, "kind"); string s = filler(n, kind ? 3 : 1), key = filler(k, kind ? 1 : 2); Exact e(key);
    SAME(SHMACSHA1(e.s, s), md(MBEDTLS_MD_SHA1, s, &key), "HMAC-SHA1 of %zu bytes with a key of %zu", n, k); SAME(SHMACSHA256(e.s, s), md(MBEDTLS_MD_SHA256, s, &key), "HMAC-SHA256 of %zu bytes with a key of %zu", n, k);
    if (!k) { SAME(SHashSHA1(s), md(MBEDTLS_MD_SHA1, s), "SHA1 of %zu bytes", n); SAME(SHashSHA256(s), md(MBEDTLS_MD_SHA256, s), "SHA256 of %zu bytes", n); } did(to_string(n) + "/" + to_string(k) + "/" + to_string(kind), to_string(n % 64), 4);
}
// Base 32 secrets.
static void base32() {
    quietLogs(); static const string T = "ABCDEFGHIJKLMNOPQRSTUVWXYZ234567"; string s; int groups = mc::choose(3, "groups"); int step = groups ? 1 + mc::choose(31, "step") : 0, start = groups ? mc::choose(32, "start") : 0; for (int i = 0; i < 8 * groups; i++) s += T[(start + i * step) & 31];
    string want; unsigned __int128 dummy = 0; (void) dummy; for (int g = 0; g < groups; g++) { uint64_t v = 0; for (int i = 0; i < 8; i++) v = v << 5 | T.find(s[8 * g + i]); char b[16]; snprintf(b, 16, "%010lX", v); want += b; }
    SAME(SHexStringFromBase32(SBase32HexStringFromBase32(s)), want, "base 32 of %s", s.c_str());
    int c = mc::choose(256, "character"); bool valid = T.find((char) c) != string::npos && c; bool threw = false; string out; try { out = SBase32HexStringFromBase32(string(1, (char) c)); } catch (const SException&) { threw = true; } MC_CHECK(threw == !valid, "character %d %s", c, threw ? "is refused" : "is accepted"); if (valid) { string h = string("0123456789ABCDEFGHIJKLMNOPQRSTUV").substr(T.find((char) c), 1); SAME(out, h, "base 32 digit %c", c); } did(s + (char) c, threw ? "refused" : out, 2);
}
void mc::registerScenarios() {
    add("SQL text literals", sqlLiterals); add("SQL literals of bytes", sqlBytes); add("numbers", sqlNumbers); add("SQL lists", sqlLists); add("lists", lists); add("arbitrary lists", anyList);
    add("short byte strings", shortBytes); add("pairs of bytes", bytePairs); add("byte strings by length", lengths); add("bound parameters", parameters); add("arbitrary texts", arbitraryTexts); add("address parameters", posts);
    add("compression", compression); add("damaged compression", badCompression); add("encryption", encryption); add("hashes", hashes); add("base 32", base32);
    setRuleText("encoding then decoding gives the data back (base64, hex, URI components and parameters, lists, bound parameters, gzip, AES, base 32); encodings equal those of independent encoders; an SQL literal is one literal with the same value for SQLite and integer lists hold integers only; texts that nobody encoded cause no crash and no access outside the text");
    setBoundsText("texts of 4/5 units of a 16-unit alphabet and all pairs of bytes as literals; lists of 4/5 units; all pairs of bytes, all byte strings of 3/4 bytes of a 24-byte alphabet and all lengths up to 300/1200 for the codecs; all texts of 5/6 of 12 units for decoders with inaccessible memory behind them; gzip of 300/2500 lengths up to 64 KiB in four kinds; AES and HMAC of all lengths up to 100/300 and keys up to 140/200 bytes");
}
