// D02: the SQL command runs what was asked, safely, or nothing. Real code: plugins/DB.cpp, BedrockCore.cpp, SQLite.cpp, SQuery, SQResultFormatter.cpp, qrf.c.
#include "core.h"
#include "jsonread.h"
#include <plugins/DB.h>
#include <sqlite3.h>
#include <libstuff/SQResultFormatter.h>
#include <libstuff/SQResult.h>
static const char* SCHEMA = "CREATE TABLE t (a INTEGER PRIMARY KEY, b, c); CREATE TABLE u (name TEXT UNIQUE, n INTEGER NOT NULL); CREATE INDEX un ON u (n); CREATE TABLE k (\" where \", v); INSERT INTO k VALUES (1, 2); INSERT INTO t VALUES (1, 'x', NULL), (2, 'it''s', 1.5), (3, '', 'AB'), (4, ' WHERE ', -7); INSERT INTO u VALUES ('one', 1), ('two', 2);";
enum Kind { READ, WRITE, BARE, BAD, ODD };   // BARE: updates or deletes without WHERE; BAD: must be refused; ODD: may be refused
struct Q { Kind kind; string sql; };
typedef vector<vector<optional<string>>> Cells;
struct Truth { bool ok = true; vector<vector<string>> heads; vector<Cells> rows; string data; int64_t rowid = 0; };
static shim::ImagePtr base() { static shim::ImagePtr im; if (!im) im = shim::image(seededFile(0, SCHEMA)); return im; }
// What SQLite itself makes of a query, statement by statement, all or nothing.
static Truth truth(const string& sql, const map<string, string>& params) {
    Truth t; shim::Db d(base()); sqlite3_exec(d.db, "BEGIN", 0, 0, 0); const char* p = sql.c_str();
    while (*p && t.ok) {
        sqlite3_stmt* s = nullptr; if (sqlite3_prepare_v2(d.db, p, -1, &s, &p)) { t.ok = false; break; } if (!s) continue;
        for (auto& [k, v] : params) if (int i = sqlite3_bind_parameter_index(s, k.c_str())) { if (v[0] == 'i') sqlite3_bind_int64(s, i, atoll(v.c_str() + 2)); else if (v[0] == 't') sqlite3_bind_text(s, i, v.data() + 2, v.size() - 2, SQLITE_TRANSIENT); }
        vector<string> h; for (int i = 0; i < sqlite3_column_count(s); i++) h.push_back(sqlite3_column_name(s, i)); Cells c; int r;
        while ((r = sqlite3_step(s)) == SQLITE_ROW) { c.emplace_back(); for (int i = 0; i < sqlite3_column_count(s); i++) { if (sqlite3_column_type(s, i) == SQLITE_NULL) c.back().push_back(nullopt); else { auto x = (const char*) sqlite3_column_blob(s, i); int n = sqlite3_column_bytes(s, i); c.back().push_back(string(x ? x : "", n)); } } }
        if (r != SQLITE_DONE) t.ok = false; if (!h.empty()) { t.heads.push_back(h); t.rows.push_back(c); } sqlite3_finalize(s);
    }
    t.rowid = sqlite3_last_insert_rowid(d.db); sqlite3_exec(d.db, t.ok ? "COMMIT" : "ROLLBACK", 0, 0, 0); t.data = d.dump(); return t;
}
static string vis2(const string& s) { string o; for (unsigned char c : s) { if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\x%02x", c); o += b; } else o += (char) c; } return o; }
static string b64(const string& s) { static const char* A = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"; string o; for (size_t i = 0; i < s.size(); i += 3) { unsigned v = 0; for (int k = 0; k < 3; k++) v = v << 8 | (i + k < s.size() ? (unsigned char) s[i + k] : 0); for (int k = 0; k < 4; k++) o += i + k <= s.size() || !k ? A[v >> (18 - 6 * k) & 63] : '='; } return o; }
struct Format { string name; vector<pair<string, string>> headers; };
static const vector<Format>& formats() {
    static vector<Format> f = {{"list", {}}, {"Json", {{"Format", "json"}}}, {"Json", {{"format", "JSON"}}}, {"json", {{"SQLiteArgs", "-json"}}}, {"csv", {{"SQLiteArgs", "-csv"}}}, {"quote", {{"ReadDBFlags", "--quote"}}}, {"list", {{"SQLiteArgs", "-separator 'a b' -nullvalue \\<"}}}, {"list", {{"ReadDBFlags", "-noheader"}}}, {"list", {{"MYSQLFlags", "1"}}}, {"line", {{"SQLiteArgs", "-line"}}}, {"column", {{"SQLiteArgs", "--column"}}}, {"box", {{"ReadDBFlags", "-csv"}, {"SQLiteArgs", "-box"}}}, {"table", {{"SQLiteArgs", "-table"}}}, {"markdown", {{"SQLiteArgs", "-markdown"}}}, {"none", {{"SuppressResult", "true"}}}, {"csv", {{"SQLiteArgs", "-noheader -csv"}}}, {"list", {{"SQLiteArgs", "-box --header --list --separator ~"}}}, {"html", {{"SQLiteArgs", "-html"}}}};
    return f;
}
static bool sameJson(const Value& v, const optional<string>& want) { if (v.kind == '0') return !want || SIEquals(*want, "null"); if (!want) return v.kind == 's' && v.text.empty(); return v.text == *want || (SIEquals(v.text, *want) && (v.kind == 't' || v.kind == 'f')); }
static void checkRows(const string& out, const Format& f, const vector<string>& h, const Cells& rows, const string& T) {
    const char* t = T.c_str(); auto bad = [&](const char* what) { mc::fail("%s: result <%s> is not what SQLite answers (%s):%s", f.name.c_str(), vis2(out).c_str(), what, t); };
    auto has = [&](const char* k) { for (auto& [a, b] : f.headers) if (a == k || b.find(k) != string::npos) return true; return false; };
    bool titles = !has("-noheader") && !has("MYSQLFlags");
    if (f.name == "none") { MC_CHECK(out.empty(), "a suppressed result is <%s>:%s", vis2(out).c_str(), t); }
    else if (f.name == "Json") {
        auto o = readObject(out, true); if (!o) bad("not JSON"); for (auto& [k, v] : *o) { auto a = readArray(v.text, true); if (!a) bad("not a list"); if (k == "headers") { if (a->size() != h.size()) bad("number of columns"); for (size_t i = 0; i < h.size(); i++) if (!sameJson((*a)[i], h[i])) bad("column name"); } else { if (k != "rows" || a->size() != rows.size()) bad("number of rows"); for (size_t r = 0; r < rows.size(); r++) { auto c = readArray((*a)[r].text, true); if (!c || c->size() != rows[r].size()) bad("row"); for (size_t i = 0; i < c->size(); i++) if (!sameJson((*c)[i], rows[r][i])) bad("value"); } } } if (o->size() != 2) bad("fields");
    } else if (f.name == "json") {
        if (rows.empty()) { if (out != "" && out != "[]" && out != "[]\n") bad("empty"); return; } auto a = readArray(out, true); if (!a || a->size() != rows.size()) bad("number of rows");
        for (size_t r = 0; r < rows.size(); r++) { auto o = readObject((*a)[r].text, true); if (!o || o->size() != h.size()) bad("row"); for (size_t i = 0; i < h.size(); i++) { if ((*o)[i].first != h[i]) bad("column name"); auto& v = (*o)[i].second; if (rows[r][i] ? v.text != *rows[r][i] : v.kind != '0') bad("value"); } }
    } else if (f.name == "csv") {
        vector<vector<string>> got; vector<string> row; for (size_t i = 0; i < out.size();) { string v; if (out[i] == '"') { for (i++; i < out.size(); i++) { if (out[i] == '"') { if (i + 1 < out.size() && out[i + 1] == '"') i++; else break; } v += out[i]; } i++; } else while (i < out.size() && out[i] != ',' && out[i] != '\r' && out[i] != '\n') v += out[i++]; row.push_back(v); if (i < out.size() && out[i] == ',') { i++; continue; } while (i < out.size() && (out[i] == '\r' || out[i] == '\n')) { i++; if (out[i - 1] == '\n') break; } got.push_back(row); row.clear(); }
        size_t at = 0; if (titles && (!rows.empty() || !got.empty())) { if (got.empty() || got[0] != h) bad("column names"); at = 1; } if (got.size() != rows.size() + at) bad("number of rows");
        for (size_t r = 0; r < rows.size(); r++) for (size_t i = 0; i < h.size(); i++) if (got[r + at].size() != h.size() || got[r + at][i] != rows[r][i].value_or("")) bad("value");
    } else if (f.name == "list") {
        string sep = "|", null = ""; if (has("MYSQLFlags")) { sep = "\x1e"; null = "\n"; } if (has("'a b'")) { sep = "a b"; null = "<"; } if (has("~")) sep = "~";
        string want; if (titles) { for (size_t i = 0; i < h.size(); i++) want += (i ? sep : "") + h[i]; want += "\n"; } string head = want; for (auto& r : rows) { for (size_t i = 0; i < r.size(); i++) want += (i ? sep : "") + r[i].value_or(null); want += "\n"; }
        if (out != want && !(rows.empty() && out.empty())) bad(("should be <" + vis2(want) + ">").c_str());
    } else if (f.name == "quote") {
        size_t at = 0; for (size_t r = 0; r < rows.size() + (titles && !rows.empty()); r++) { string line; bool q = false; for (; at < out.size(); at++) { if (out[at] == '\'') q = !q; if (out[at] == '\n' && !q) break; line += out[at]; } at++; shim::Db d(shim::freshName("q")); auto got = truth("SELECT " + line + ";", {}); if (!got.ok || got.rows.size() != 1 || got.rows[0].size() != 1) bad("not literals"); bool head = titles && !r; for (size_t i = 0; i < h.size(); i++) if (got.rows[0][0].size() != h.size() || got.rows[0][0][i] != (head ? optional<string>(h[i]) : rows[r - (titles ? 1 : 0)][i])) bad("value"); } if (at < out.size()) bad("something else after it");
    } else for (auto& r : rows) for (auto& v : r) if (v && f.name != "html" && all_of(v->begin(), v->end(), [](unsigned char c) { return c >= 32 && c < 127 && c != '|'; }) && out.find(STrim(*v)) == string::npos) bad(("value " + *v + " is missing").c_str());
    mc::compared();
}
static BedrockServer& server() { return fakeServer(); }
static unique_ptr<BedrockCommand> command(BedrockPlugin_DB& plugin, SData&& req) { auto c = plugin.getCommand(SQLiteCommand(move(req))); MC_CHECK(c != nullptr, "not a command of the plugin"); return c; }
static void runQuery(SQLite& db, const string& file, BedrockPlugin_DB& plugin, const Q& q, const Format& f, const map<string, string>& params, int form, bool mock, int nowhere) {
    string T = "\n  " + q.sql + (mock ? " (mocked)" : "") + (nowhere ? nowhere == 1 ? " (nowhere)" : nowhere == 2 ? " (nowhere: false)" : " (nowhere: 1)" : ""); for (auto& [k, v] : f.headers) T += " " + k + ":" + v; const char* t = T.c_str(); mc::note("%s", t + 3);
    SData req(form == 0 ? "Query: " + q.sql : form == 1 ? "Query" : "query:" + q.sql); if (form == 1) req["query"] = q.sql; for (auto& [k, v] : f.headers) req[k] = v; for (auto& [k, v] : params) { char n[4]; snprintf(n, 4, "#%02X", (unsigned char) k[0]); req["sql-param-" + string(n) + k.substr(1)] = v[0] == 'i' ? "I" + v.substr(2) : "T" + b64(v.substr(2)); } if (mock) req["mockRequest"] = "true"; if (nowhere) req["nowhere"] = nowhere == 1 ? "true" : nowhere == 2 ? "false" : "1"; if (form) { SData b; b.deserialize(req.serialize()); req = b; }
    auto before = shim::image(file); Ran r = runCommand(db, server(), command(plugin, move(req))); auto after = shim::image(file); string code = r.response.methodLine.substr(0, 3); bool ok = code == "200";
    string sql = q.sql; Truth want = truth(sql, params); string dataBefore, dataAfter; size_t j0, j1; { shim::Db a(before), b(after); dataBefore = a.dump(); dataAfter = b.dump(); j0 = shim::journal(a).size(); j1 = shim::journal(b).size(); }
    MC_CHECK(code.size() == 3 && (ok || code[0] == '4' || code[0] == '5'), "answered \"%s\":%s", r.response.methodLine.c_str(), t);
    MC_CHECK(j1 - j0 <= 1 && (j1 == j0 || ok), "%zu commits, answered \"%s\":%s", j1 - j0, r.response.methodLine.c_str(), t);
    if (dataAfter != dataBefore) { MC_CHECK(ok && j1 == j0 + 1, "data changed with %zu commits and the answer \"%s\":%s", j1 - j0, r.response.methodLine.c_str(), t); MC_CHECK(q.kind != READ && q.kind != BAD, "a query that does not write changed data:%s", t); MC_CHECK(want.ok && dataAfter == want.data, "data is\n%s\ninstead of\n%s:%s", dataAfter.c_str(), want.data.c_str(), t); }
    if (q.kind == BAD) MC_CHECK(!ok, "was accepted:%s", t);
    if (q.kind == BARE) { bool allowed = nowhere == 1 || nowhere == 3; if (!mock) MC_CHECK(ok == (allowed && want.ok), "answered \"%s\":%s", r.response.methodLine.c_str(), t); if (!allowed || mock) MC_CHECK(dataAfter == dataBefore, "changed everything:%s", t); if (allowed && !mock) MC_CHECK(dataAfter == want.data, "data is\n%s\ninstead of\n%s:%s", dataAfter.c_str(), want.data.c_str(), t); }
    if (q.kind == WRITE) { MC_CHECK(ok == (want.ok || mock), "answered \"%s\", SQLite %s it:%s", r.response.methodLine.c_str(), want.ok ? "accepts" : "refuses", t); if (mock) MC_CHECK(dataAfter == dataBefore, "a mocked query changed data:%s", t); else { MC_CHECK(dataAfter == (want.ok ? want.data : dataBefore), "data is\n%s\ninstead of\n%s:%s", dataAfter.c_str(), want.data.c_str(), t); if (ok && SIEquals(sql.substr(0, 7), "INSERT ")) MC_CHECK(r.response["lastInsertRowID"] == to_string(want.rowid), "lastInsertRowID is %s instead of %ld:%s", r.response["lastInsertRowID"].c_str(), (long) want.rowid, t); } }
    if (q.kind == READ) { MC_CHECK(ok == want.ok, "answered \"%s\", SQLite %s it:%s", r.response.methodLine.c_str(), want.ok ? "accepts" : "refuses", t); if (ok) { if (f.name == "Json" && want.rows.size() < 2) checkRows(r.response.content, f, want.heads.empty() ? vector<string>() : want.heads.back(), want.rows.empty() ? Cells() : want.rows.back(), T); else if (want.rows.size() == 1) checkRows(r.response.content, f, want.heads[0], want.rows[0], T); else if (want.rows.empty() && f.name != "Json") MC_CHECK(r.response.content.empty(), "result <%s> of nothing:%s", vis2(r.response.content).c_str(), t); } }
    if (SIEquals(STrim(q.sql).substr(0, 7), ".schema") && f.name == "list" && f.headers.empty()) {
        shim::Db d(base()); string name = STrim(STrim(q.sql).substr(7)), text; for (auto& row : d.query("SELECT sql FROM sqlite_schema WHERE sql IS NOT NULL" + (name.empty() ? ""s : " AND tbl_name = '" + name + "'") + " ORDER BY rowid;")) text += row[0]; auto squeeze = [](const string& x) { string o; for (char c : x) if (!isspace(c)) o += c; return o; };
        MC_CHECK(ok && squeeze(r.response.content) == squeeze(text), "answered \"%s\" with <%s> instead of <%s>:%s", r.response.methodLine.c_str(), vis2(r.response.content).c_str(), vis2(text).c_str(), t);
    }
    // the handle still works, and keeps nothing from this query
    for (int i = 0; i < 2; i++) { Ran n = runCommand(db, server(), command(plugin, SData(i ? "Query: INSERT INTO u VALUES('probe', 3);" : "Query: SELECT count(*) FROM u;"))); MC_CHECK(n.response.methodLine == "200 OK", "the next query on the same handle was answered \"%s\" after:%s", n.response.methodLine.c_str(), t); if (i) MC_CHECK(n.committed, "the next query on the same handle was not committed after:%s", t); }
    mc::state(mc::hashStr(dataAfter, mc::hashStr(code))); mc::outcome(code + r.response.methodLine); mc::transition(3); mc::compared(4);
}
static void one(const Q& q, const Format& f, const map<string, string>& params = {}, int form = 0, bool mock = false, int nowhere = 0) {
    rt::NoPoints np; sqlSetup(); rt::setClockTick(0); string file = shim::freshName("d02"); shim::seed(file, base()); BedrockPlugin_DB plugin(server()); SQLite db(file, 0, 1000000, 0); runQuery(db, file, plugin, q, f, params, form, mock, nowhere);
}
static const vector<string>& exprs() { static vector<string> e = {"1", "-7", "9223372036854775807", "1.5", "1e100", "0.1", "NULL", "''", "'x'", "'it''s'", "'a|b'", "'a,b'", "'\"q\"'", "' blank '", "'null'", "'TRUE'", "'12'", "'1.50'", "'[1,2]'", "'{\"a\":1}'", "'[1'", "'back\\slash'", "char(10)", "'a' || char(13,10) || 'b'", "char(9)", "char(233,8364,128512)", "CAST(x'4142' AS TEXT)", "'semi;colon'", "' WHERE '", "b", "c", "a", "'x' || b", "'<b>&'"}; return e; }
// One or two expressions in every format.
static void reads(int cols) { auto& E = exprs(); string sql = "SELECT "; for (int i = 0; i < cols; i++) sql += string(i ? ", " : "") + mc::pick(E, "expression") + (i ? " AS second" : " AS \"first one\""); static const vector<string> from = {" FROM t ORDER BY a;", " FROM t WHERE a=2;", " FROM t WHERE a>9;"}; sql += mc::pick(from, "rows"); one({READ, sql}, mc::pick(formats(), "format"), {}, (int) (mc::hashStr(sql) % 3)); }
static vector<Q> statements() {
    vector<Q> o; for (const char* s : {"SELECT 1;", "SELECT a FROM t WHERE b=:p ORDER BY a;", "SELECT :p AS x, @q AS y;", "VALUES (1, 2), (3, 4);", "WITH x AS (SELECT 1 AS q) SELECT q FROM x;", "SELECT 1 -- comment\n;", "/* comment */ SELECT 2;", "-- first\nSELECT 1;", "SELECT 1;;", ";", " ; ;", "-- only;", "PRAGMA table_info(t);", "SELECT * FROM u, t WHERE u.n = t.a ORDER BY 1;", "SELECT (SELECT 'DELETE FROM t') AS d;", "SELECT abs(-9223372036854775808);", "SELECT name FROM sqlite_master WHERE name='t';", "SELECT 1; SELECT 2;", "SELECT a FROM t WHERE 0; SELECT b FROM t WHERE a=1;", "SELECT json_extract('{', '$');", "SELECT a FROM t LIMIT 'x';", "SELECT zeroblob(2000000000);"}) o.push_back({READ, s});
    for (const char* s : {"INSERT INTO u VALUES ('three', 3);", "insert into u values ('three', 3);", "INSERT INTO u VALUES ('three', 3), ('four', 4);", "INSERT INTO u VALUES ('one', 9);", "INSERT INTO u VALUES ('five', NULL);", "INSERT OR IGNORE INTO u VALUES ('one', 9);", "INSERT OR IGNORE INTO u VALUES ('six', 6); INSERT INTO u VALUES ('one', 7);", "UPDATE k SET ` where `=3 WHERE [ where ]=1;", "INSERT OR REPLACE INTO u VALUES ('one', 9);", "REPLACE INTO t VALUES (2, 'r', 'r');", "INSERT INTO t (b) SELECT b FROM t;", "INSERT INTO t (b, c) VALUES (:p, @q);", "UPDATE t SET b='y' WHERE a=1;", "UPDATE t SET b=b || '!', c=:p WHERE a>1;", "update t set b='y' where a=1;", "DELETE FROM t WHERE a=2;", "DELETE FROM t WHERE b=:p;", "DELETE FROM t WHERE a>99;", "INSERT INTO u VALUES ('six', 6); UPDATE t SET b='z' WHERE a=1;", "INSERT INTO u VALUES ('six', 6); INSERT INTO u VALUES ('six', 7);", "UPDATE t SET b='z' WHERE a=1; SELECT 1; DELETE FROM u WHERE n=1;", "SELECT 1; INSERT INTO u VALUES ('seven', 7);", "UPDATE t SET b='z' WHERE a=1; SELECT 1;", "INSERT INTO u VALUES ('six', 6); SELECT n FROM u;", "DELETE FROM t WHERE a=1; PRAGMA table_info(t);", "CREATE TABLE w (x); INSERT INTO u VALUES ('eight', 8);", "CREATE TABLE w (x);", "CREATE INDEX i ON t (b);", "INSERT INTO t VALUES (9, 'a;b', 'UPDATE t SET b=1');", "UPDATE t SET b=' WHERE ' WHERE a=1;", "DELETE FROM t WHERE a IN (SELECT n FROM u WHERE name='one');", "INSERT INTO t VALUES (1, 1, 1) ON CONFLICT (a) DO UPDATE SET b='up';", "UPDATE t\nSET b='y'\nWHERE\ta=1;", "DELETE FROM t -- some\n WHERE a=1;", "INSERT INTO u VALUES ('nul' || char(0) || 'l', 1);"}) o.push_back({WRITE, s});
    for (const char* s : {"UPDATE t SET b='y';", "DELETE FROM t;", "update t set b='y';", "delete from u;", "DELETE FROM t ;", "DELETE\nFROM\nt;", "UPDATE t SET b='where';", "UPDATE t SET b='WHERE';", "DELETE FROM t ORDER BY nowhere;"}) o.push_back({BARE, s});
    for (const char* s : {"UPDATE t SET b=' WHERE ';", "UPDATE t SET b='a WHERE b', c=' where ';", "DELETE FROM t /* WHERE a=1 */;", "DELETE FROM t -- x WHERE y\n;", "UPDATE t SET \" WHERE \"=1;", "/* all */ DELETE FROM t;", "-- all\nDELETE FROM t;", "SELECT 1; DELETE FROM t;", "DELETE FROM t; DELETE FROM u WHERE n=1;", "UPDATE t SET b='y' WHERE a=1; DELETE FROM u;", "WITH x AS (SELECT 1) DELETE FROM t;", "UPDATE k SET ` where `=3;", "UPDATE k SET \" where \"=3;", "UPDATE k SET [ where ]=3;", "UPDATE k SET v=` where `;", "UPDATE OR IGNORE t SET b=2;", "WITH x AS (SELECT 1) UPDATE t SET b=2;", ";DELETE FROM t;"}) o.push_back({BARE, s});
    for (const char* s : {"SELECT 1", "SELECT", "SELECT 1; SELECT 2", "DELETE FROM t WHERE a=1", "SELEC 1;", "SELECT nothere;", "SELECT * FROM nothere;", "SELECT 1; SELEC 2;", "INSERT INTO u VALUES ('six', 6); SELEC 2;", "INSERT INTO nothere VALUES (1);", "INSERT INTO u VALUES ('six');", "", "   ", "SELECT 'a;", "UPDATE t SET b='y' WHERE a=1 AND;", "INSERT INTO u VALUES ('nine', 9); UPDATE t SET b='y' WHERE a=1"}) o.push_back({BAD, s});
    for (const char* s : {"BEGIN;", "COMMIT;", "ROLLBACK;", "SAVEPOINT s;", "RELEASE s;", "BEGIN; INSERT INTO u VALUES ('ten', 10); COMMIT;", "INSERT INTO u VALUES ('ten', 10); COMMIT;", "INSERT INTO u VALUES ('ten', 10); ROLLBACK; INSERT INTO u VALUES ('eleven', 11);", "PRAGMA query_only=0;", "PRAGMA query_only=1;", "PRAGMA user_version=7;", "PRAGMA foreign_keys=1;", "ATTACH ':memory:' AS z;", "DETACH main;", "CREATE TEMP TABLE tmp (x);", "REINDEX;", "ANALYZE;", "EXPLAIN SELECT 1;", "EXPLAIN DELETE FROM t;", ".schema", ".schema t", ".SCHEMA u", "  .schema  u  ", ".schema nothere", ".schema  ", ".tables", "PRAGMA writable_schema=1;", "PRAGMA journal_mode;"}) o.push_back({ODD, s});
    return o;
}
static void queries() {
    static auto all = statements(); static const vector<map<string, string>> P = {{}, {{":p", "t:x"}, {"@q", "i:5"}}, {{":p", "t:it's; DROP TABLE t; --"}, {"@q", "t: WHERE "}}};
    auto& q = mc::pick(all, "query"); bool read = q.kind == READ; auto& p = q.sql.find(":p") == string::npos ? P[0] : mc::pick(P, "parameters");
    int f = mc::choose(read ? (int) formats().size() : 2, "format"), form = mc::choose(3, "form"); bool mock = mc::choose(2, "mocked"); int nowhere = read || q.kind == BAD ? 0 : mc::choose(3, "nowhere"); if (form && q.sql.find('\n') != string::npos) form = 1; if (STrim(q.sql).empty() && form != 1) return;
    one(q, formats()[f], p, form, mock, nowhere);
}
// Queries one after the other on one handle.
static void pairs() {
    static auto all = statements(); rt::NoPoints np; sqlSetup(); rt::setClockTick(0); auto& a = mc::pick(all, "first"); auto& b = mc::pick(all, "second"); string file = shim::freshName("d02"); shim::seed(file, base()); BedrockPlugin_DB plugin(server()); SQLite db(file, 0, 1000000, 0);
    { mc::note("%s", a.sql.c_str()); SData r("Query"); r["query"] = a.sql; runCommand(db, server(), command(plugin, move(r))); } shim::seed(file, base()); SQLite db2(file, 0, 1000000, 0); (void) db2; runQuery(db, file, plugin, b, formats()[0], {}, 1, false, 0);
}
// Results rendered by the library's own formatter.
static void rendering() {
    static const vector<string> V = {"", "x", "1", "-2.5e3", "it's", "a,b", "a\"b", "a\tb", "a\nb", " lead", "trail ", "\xc3\xa9", "null", "'", "\"", "\\", "[1]", "a|b"}; int rows = mc::choose(3, "rows"); SQResult r; r.headers = {"h1", mc::choose(2, "name") ? "a,'\"b" : "h2"}; Cells c; for (int i = 0; i < rows; i++) { SQResultRow row(r, 2); vector<string> v = {mc::pick(V, "value"), i ? "k" : mc::pick(V, "value")}; row.get(0) = SQValue(v[0]); row.get(1) = SQValue(v[1]); c.push_back({v[0], v[1]}); r.emplace_back(move(row)); }
    SQResultFormatter::FORMAT_OPTIONS o; o.header = mc::choose(2, "header"); string T = "\n  SQResultFormatter"; auto h = o.header ? vector<pair<string, string>>{} : vector<pair<string, string>>{{"x", "-noheader"}};
    if (o.header) checkRows(SQResultFormatter::format(r, SQResultFormatter::FORMAT::JSON, o), {"Json", h}, r.headers, c, T);
    checkRows(SQResultFormatter::format(r, SQResultFormatter::FORMAT::CSV, o), {"csv", h}, r.headers, c, T);
    string q = SQResultFormatter::format(r, SQResultFormatter::FORMAT::QUOTE, o), list; size_t at = 0; for (size_t i = 0; i < c.size() + o.header; i++) { string line; bool in = false; for (; at < q.size(); at++) { if (q[at] == '\'') in = !in; if (q[at] == '\n' && !in) break; line += q[at]; } at++; auto got = truth("SELECT CAST((SELECT x FROM (SELECT " + line.substr(0, 0) + "1 AS x)) AS TEXT);", {}); got = truth("SELECT " + line + ";", {}); MC_CHECK(got.ok && got.rows[0][0].size() == 2, "quoted row <%s> is not two literals", vis2(line).c_str()); for (int k = 0; k < 2; k++) { string want = o.header && !i ? r.headers[k] : *c[i - o.header][k]; auto& x = got.rows[0][0][k]; bool number = !want.empty() && want.find_first_not_of("0123456789.e+-") == string::npos; MC_CHECK(x && (*x == want || number), "quoted value <%s> reads as <%s>", vis2(want).c_str(), x ? vis2(*x).c_str() : "NULL"); } }
    MC_CHECK(at >= q.size(), "quoted rows followed by something: <%s>", vis2(q).c_str()); mc::state(mc::hashStr(q)); mc::compared(3); mc::transition(3);
    if (o.header) list = r.headers[0] + "|" + r.headers[1] + "\n"; for (auto& row : c) list += *row[0] + "|" + *row[1] + "\n"; string got = SQResultFormatter::format(r, SQResultFormatter::FORMAT::LIST, o); MC_CHECK(got == list, "list is <%s> instead of <%s>", vis2(got).c_str(), vis2(list).c_str());
    auto marks = [](string x) { string k; for (char ch : x) if (!isspace((unsigned char) ch) && ch != '-') k += ch; sort(k.begin(), k.end()); return k; }; string all; if (o.header) all = r.headers[0] + r.headers[1]; for (auto& row : c) all += *row[0] + *row[1]; got = SQResultFormatter::format(r, SQResultFormatter::FORMAT::COLUMN, o); MC_CHECK(rows == 0 || marks(got) == marks(all), "columns are <%s>, values <%s>", vis2(got).c_str(), vis2(all).c_str()); mc::compared(2);
}
void mc::registerScenarios() {
    bool T = thorough(); Options o; o.concurrent = true; o.maxSteps = 2000000; o.bounds = {0};
    add("reads of one value", [] { reads(1); }, o); add("reads of two values", [T] { reads(2); }, o); add("statements", queries, o); add("formatter", rendering, o); if (T) add("pairs", pairs, o);
    setRuleText("queries of a grammar in every form, format and mode");
}
