// K04: the MySQL protocol. Real code: plugins/MySQL.cpp, plugins/DB.cpp, SQResult, BedrockServer::handleSocket and what runs a command; the client's side is written here from the protocol's description.
#define WORLD_MORE "CREATE TABLE f(a TEXT NOT NULL DEFAULT 'd', b INTEGER PRIMARY KEY, c REFERENCES u(k) ON DELETE CASCADE, d INTEGER, FOREIGN KEY(d) REFERENCES s(id) ON UPDATE SET NULL);CREATE VIEW v AS SELECT 1 AS x;"
#include "connection.h"
#include <plugins/MySQL.h>
#include <plugins/DB.h>
#include <libstuff/SQResult.h>
// --- a client's decoder ---
struct Reply { enum { OK, ERR, ROWS } kind = OK; int code = 0; string message; vector<string> columns; vector<vector<string>> rows; int packets = 0; };
static string vis(const string& s) { string o; for (unsigned char c : s.substr(0, 60)) { if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\x%02x", c); o += b; } else o += c; } if (s.size() > 60) o += "...(" + to_string(s.size()) + ")"; return o; }
struct Wire {
    const string& s; size_t at = 0; Wire(const string& s_) : s(s_) {}
    // A whole message: packets of 16 MB - 1 are continued in the next one.
    string message(int& seq, bool* end = nullptr) {
        string m; for (;;) {
            if (end && at == s.size() && m.empty()) { *end = true; return ""; } MC_CHECK(s.size() - at >= 4, "%zu bytes are left where a packet should begin", s.size() - at); const unsigned char* p = (const unsigned char*) s.data() + at; size_t n = p[0] | p[1] << 8 | p[2] << 16;
            MC_CHECK(p[3] == (seq & 255), "packet number %d where %d should be", p[3], seq & 255); seq++; MC_CHECK(s.size() - at - 4 >= n, "a packet of %zu bytes has only %zu", n, s.size() - at - 4); m += s.substr(at + 4, n); at += 4 + n; if (n != 0xFFFFFF) return m;
        }
    }
    static uint64_t number(const string& m, size_t& i) {
        MC_CHECK(i < m.size(), "a length is missing"); unsigned char c = m[i++]; if (c < 251) return c; int n = c == 252 ? 2 : c == 253 ? 3 : c == 254 ? 8 : 0; MC_CHECK(n && m.size() - i >= (size_t) n, "0x%02x is no length", c); uint64_t v = 0; for (int k = 0; k < n; k++) v |= (uint64_t) (unsigned char) m[i++] << 8 * k; return v;
    }
    static string text(const string& m, size_t& i) { uint64_t n = number(m, i); MC_CHECK(m.size() - i >= n, "a text of %lu bytes has only %zu", n, m.size() - i); string r = m.substr(i, n); i += n; return r; }
    static bool eof(const string& m) { return m.size() < 9 && m.size() && (unsigned char) m[0] == 0xFE; }
    Reply reply(int seq) {
        Reply r; string m = message(seq); MC_CHECK(m.size(), "an empty packet"); unsigned char c = m[0];
        if (c == 0) { size_t i = 1; number(m, i); number(m, i); MC_CHECK(m.size() - i >= 4, "an OK packet of %zu bytes", m.size()); return r; }
        if (c == 0xFF) { r.kind = Reply::ERR; MC_CHECK(m.size() >= 3, "an error packet of %zu bytes", m.size()); r.code = (unsigned char) m[1] | (unsigned char) m[2] << 8; r.message = m.substr(3); return r; }
        size_t i = 0; uint64_t n = number(m, i); MC_CHECK(i == m.size(), "more than the number of columns"); MC_CHECK(n >= 1 && n < 5000, "%lu columns", n); r.kind = Reply::ROWS;
        for (uint64_t k = 0; k < n; k++) { m = message(seq); i = 0; MC_CHECK(!eof(m), "%lu instead of %lu columns", k, n); MC_CHECK(text(m, i) == "def", "the catalog is not \"def\""); for (int j = 0; j < 3; j++) text(m, i); r.columns.push_back(text(m, i)); text(m, i); MC_CHECK(number(m, i) == 12 && m.size() - i >= 12, "a column's description is cut off"); MC_CHECK(m.size() - i == 12, "a column's description goes on"); }
        m = message(seq); MC_CHECK(eof(m), "the columns are not ended: %s", vis(m).c_str());
        for (;;) { m = message(seq); if (eof(m)) break; i = 0; vector<string> row; for (uint64_t k = 0; k < n; k++) { if ((unsigned char) m[i] == 0xFB) { i++; row.push_back(""); } else row.push_back(text(m, i)); } MC_CHECK(i == m.size() || (i + 1 == m.size() && (unsigned char) m[i] == 0xFE), "a row goes on after its last value: %s", vis(m.substr(i)).c_str()); r.rows.push_back(row); }
        r.packets = seq; return r;
    }
};
static string packet(const string& payload, int seq = 0) { string h; h += (char) payload.size(); h += (char) (payload.size() >> 8); h += (char) (payload.size() >> 16); h += (char) seq; return h + payload; }
static string shape(const Reply& r) { string o = r.kind == Reply::OK ? "OK" : r.kind == Reply::ERR ? "error " + to_string(r.code) + " " + vis(r.message) : to_string(r.columns.size()) + " columns, " + to_string(r.rows.size()) + " rows"; return o; }
// --- result tables ---
static const vector<size_t>& lengths() { static vector<size_t> v{0, 1, 2, 8, 9, 250, 251, 252, 253, 254, 255, 256, 65535, 65536, 65537, 70000}; return v; }
static string sized(size_t n, int salt) { string s(n, 0); for (size_t i = 0; i < n; i++) s[i] = (char) (salt * 37 + i * 7 + (i >> 8)); return s; }
static void table(const vector<string>& columns, const vector<vector<string>>& rows, int seq) {
    vector<SQResultRow> R; for (auto& row : rows) { SQResultRow r; for (auto& c : row) r.push_back(c); R.push_back(r); } vector<string> h = columns; SQResult result(move(R), move(h)); string out = MySQLPacket::serializeQueryResponse(seq, result); Wire w(out); Reply r = w.reply(seq + 1); MC_CHECK(w.at == out.size(), "%zu bytes too many", out.size() - w.at);
    if (columns.empty()) { MC_CHECK(r.kind == Reply::OK, "a result without columns is sent as %s", shape(r).c_str()); return; }
    MC_CHECK(r.kind == Reply::ROWS && r.columns == columns, "the columns differ: %s", shape(r).c_str()); MC_CHECK(r.rows == rows, "the rows differ: %s", shape(r).c_str()); mc::compared(1 + rows.size()); mc::transition(); mc::state(out.size() < 500 ? out : to_string(hash<string>()(out))); mc::outcome(to_string(columns.size()) + "x" + to_string(rows.size()) + "/" + to_string(out.size()));
}
static void tables() {
    int kind = mc::choose(5, "kind"); int seq = mc::pick(vector<int>{0, 1, 254, 255}, "sequence number");
    if (kind == 0) { size_t a = mc::pick(lengths(), "length"), b = mc::pick(lengths(), "length"); table({"a", "b"}, {{sized(a, 1), sized(b, 2)}}, seq); table({sized(a, 3), sized(b, 4)}, {{"1", "2"}}, seq); }
    if (kind == 1) { int cols = mc::choose(5, "columns"), rows = mc::choose(4, "rows"); vector<string> c; vector<vector<string>> r; for (int i = 0; i < cols; i++) c.push_back("c" + to_string(i)); if (cols) for (int j = 0; j < rows; j++) { r.emplace_back(); for (int i = 0; i < cols; i++) r.back().push_back(mc::pick(vector<string>{"", "x"}, "value")); } table(c, r, seq); }
    if (kind == 2) { int a = mc::choose(256, "byte"); int b = mc::pick(vector<int>{0, 1, 0x22, 0xfb, 0xfc, 0xfe, 0xff}, "byte"); string v{(char) a, (char) b}; table({v}, {{v}, {string(1, a)}}, seq); table({"x", v}, {{v, ""}, {"", v}}, seq); }
    if (kind == 3) { int n = mc::pick(vector<int>{249, 250, 251, 252, 253, 255, 256, 300, 511, 512, 600, 1000}, "rows"); vector<vector<string>> r; for (int i = 0; i < n; i++) r.push_back({to_string(i)}); table({"n"}, r, seq); vector<string> c(n); for (int i = 0; i < n; i++) c[i] = "c" + to_string(i); table(c, {c, c}, seq); }
    if (kind == 4) { size_t n = mc::pick(vector<size_t>{(1 << 24) - 7, (1 << 24) - 6, (1 << 24) - 5, (1 << 24) - 1, 1 << 24, (1 << 24) + 1}, "length"); if (seq == 0) table({"a"}, {{sized(n, 1)}, {"z"}}, seq); }
}
static void integers() {
    int k = mc::choose(65, "power"), d = mc::choose(5, "offset") - 2; uint64_t v = (k == 64 ? 0 : 1ull << k) + d; string e = MySQLPacket::lenEncInt(v); size_t i = 0; MC_CHECK(Wire::number(e, i) == v && i == e.size(), "%lu is encoded as %s", v, vis(e).c_str()); size_t best = v < 251 ? 1 : v < 65536 ? 3 : v < 1 << 24 ? 4 : 9; MC_CHECK(e.size() == best, "%lu is encoded in %zu bytes", v, e.size()); mc::compared(); mc::transition(); mc::state(e); mc::outcome(to_string(e.size()));
}
// --- packets of a client ---
static void packets() {
    vector<string> payloads{"", string(1, 3), string("\3SELECT 1", 9), string("\0\n\r\n\r\n\xff\xfe", 8), sized(255, 1), sized(256, 2), sized(70000, 3)}; int n = 1 + mc::choose(2, "packets"); string s; vector<pair<string, int>> want; for (int i = 0; i < n; i++) { int p = mc::choose(payloads.size(), "payload"), q = mc::pick(vector<int>{0, 3, 255}, "number"); s += packet(payloads[p], q); want.push_back({payloads[p], q}); }
    size_t cut = s.size() > 600 ? mc::pick(vector<size_t>{0, 1, 2, 3, 4, 5, 258, 259, 260, s.size() / 2, s.size() - 3, s.size() - 2, s.size() - 1, s.size()}, "cut") : mc::choose(s.size() + 1, "cut"); string have = s.substr(0, cut); size_t at = 0, k = 0;
    for (size_t end = 0; k < want.size(); k++) { end += 4 + want[k].first.size(); MySQLPacket m; string exact = have.substr(at); unique_ptr<char[]> copy(new char[exact.size()]); memcpy(copy.get(), exact.data(), exact.size()); int used = m.deserialize(copy.get(), exact.size()); if (cut < end) { MC_CHECK(used == 0, "%zu of %zu bytes are taken as a packet", exact.size(), 4 + want[k].first.size()); break; } MC_CHECK(used == (int) (4 + want[k].first.size()) && m.payload == want[k].first && m.sequenceID == want[k].second, "a packet is decoded to %s", vis(m.payload).c_str()); MC_CHECK(m.serialize() == packet(want[k].first, want[k].second), "the packet is encoded differently"); at += used; }
    mc::compared(k + 1); mc::transition(); mc::state(to_string(hash<string>()(have))); mc::outcome(to_string(k) + "/" + to_string(cut));
}
// --- queries of a client ---
struct Query { string payload; string sql; int kind = -1; vector<string> columns; bool anything = false; };   // sql: what SQLite answers to is what the client must get
static string Q(const string& s) { return string(1, 3) + s; }
static const vector<Query>& queries() {
    static vector<Query> v; if (v.size()) return v;
    auto sel = [&](const string& q, const string& as = "") { v.push_back({Q(q), as.empty() ? q : as}); };
    for (auto e : {"1 AS a", "'' AS a, 'x' AS b", "NULL AS a, 5 AS b", "'a\"b\\c''d' AS \"q\"\"x\"", "'ä€😀' AS u", "char(9,10,13,1,31,127) AS c", "1 AS a, 2 AS a, 3 AS A", "'true' AS t, 'null' AS n, 'false' AS f", "'{\"a\":1}' AS j, '[1,2]' AS k", "1.5 AS r, -3 AS i, 1e100 AS h, 9223372036854775807 AS m", "'<>&/' AS h", "'1' AS t, '007' AS z, '+1' AS p, '1e5' AS e", "' a ' AS blanks"}) sel("SELECT "s + e + ";");
    for (int n : {250, 251, 255, 256, 65535, 65536, 70000}) sel("SELECT 1 AS a, replace(hex(zeroblob(" + to_string(n) + ")), '00', 'x') AS t, 'z' AS z;");
    sel("SELECT k FROM u;"); sel("SELECT id, n FROM s UNION ALL SELECT 7, 'seven' ORDER BY 1;"); sel("WITH RECURSIVE c(x) AS (SELECT 1 UNION ALL SELECT x+1 FROM c WHERE x<300) SELECT x, x*x AS y FROM c;"); sel("VALUES(1,2),(3,4);"); sel("SELECT 1 AS a", "SELECT 1 AS a;"); sel("  SELECT 1 AS a ;  ", "SELECT 1 AS a;"); sel("/* JDBC */SELECT 1 AS a;", "SELECT 1 AS a;"); sel("select 1 as \"select\";"); sel("PRAGMA table_info(s);"); sel("SELECT 'SET x' AS a, '@@b' AS \"@@b\";"); sel("SELECT 'a;b' AS a;"); sel("SELECT 'a;b' AS a", "SELECT 'a;b' AS a;"); sel("\n\tSELECT 1 AS a\n;\n ", "SELECT 1 AS a;"); sel("SELECT 1 AS a;\n");
    sel("SELECT TABLE_NAME FROM information_schema.tables;", "SELECT name as name FROM sqlite_master WHERE type = 'table' ORDER BY name;"); sel("SELECT * FROM INFORMATION_SCHEMA.VIEWS", "SELECT name as name FROM sqlite_master WHERE type = 'view' ORDER BY name;"); sel("SHOW FULL TABLES;", "SELECT name AS Tables_in_main, CASE type WHEN 'table' THEN 'BASE TABLE' WHEN 'view' THEN 'VIEW' END AS Table_type FROM sqlite_master WHERE type IN ('table','view');");
    v.push_back({Q("SELECT COLUMN_NAME FROM information_schema.columns WHERE TABLE_NAME = 's'"), "SELECT 's' as table_name, name as column_name, type as column_type, type as data_type, CASE WHEN \"notnull\" = 0 THEN 'YES' ELSE 'NO' END as is_nullable, dflt_value as column_default, (cid + 1) as ordinal_position, NULL as column_comment, CASE WHEN pk = 1 THEN 'auto_increment' ELSE NULL END as extra FROM pragma_table_info('s') ORDER BY cid;"});
    { string table, keys, foreign; auto one = [](string q, const string& name) { for (size_t i; (i = q.find("#")) != string::npos;) q.replace(i, 1, "'" + name + "'"); return q; };
      table = "SELECT # as table_name, name as column_name, type as column_type, type as data_type, CASE WHEN \"notnull\" = 0 THEN 'YES' ELSE 'NO' END as is_nullable, dflt_value as column_default, (cid + 1) as ordinal_position, NULL as column_comment, CASE WHEN pk = 1 THEN 'auto_increment' ELSE NULL END as extra FROM pragma_table_info(#) ORDER BY cid;";
      keys = "SELECT # as Table_name, 0 as Non_unique, 'PRIMARY' as Key_name, (cid + 1) as Seq_in_index, name as Column_name, 'A' as Collation, NULL as Cardinality, NULL as Sub_part, NULL as Packed, CASE WHEN \"notnull\" = 1 THEN '' ELSE 'YES' END as Null_col, 'BTREE' as Index_type, '' as Comment, '' as Index_comment FROM pragma_table_info(#) WHERE pk = 1 ORDER BY cid;";
      foreign = "SELECT 'fk_' || \"table\" || '_' || \"from\" as constraint_name, \"from\" as column_name, \"table\" as referenced_table_name, 'FOREIGN' as key_type, \"table\" as referenced_table, \"to\" as referenced_column, CASE WHEN on_update = 'NO ACTION' THEN 'RESTRICT' ELSE on_update END as on_update, CASE WHEN on_delete = 'NO ACTION' THEN 'RESTRICT' ELSE on_delete END as on_delete, 'fk_' || \"table\" || '_' || \"from\" as rc_constraint_name, (seq + 1) as ordinal_position FROM pragma_foreign_key_list(#) ORDER BY \"table\", seq;";
      sel("SELECT * FROM information_schema.columns WHERE table_schema = database() AND table_name=\"f\" ORDER BY 1;", one(table, "f")); sel("SHOW KEYS FROM `f`;", one(keys, "f")); sel("show keys from f", one(keys, "f")); sel("SHOW KEYS FROM  f  WHERE x=1;", one(keys, "f"));
      for (bool up : {false, true}) for (string t : {"cu.table_name = 'f'", "table_name=\"f\""}) { string q = "SELECT cu.constraint_name FROM information_schema.key_column_usage cu JOIN information_schema.referential_constraints rc ON cu.constraint_name = rc.constraint_name WHERE "; if (up) q = SToUpper(q); sel(q + t + " AND cu.referenced_table_name IS NOT NULL;", one(foreign, "f")); } }
    auto fixed = [&](const string& q, int kind, vector<string> columns = {}) { Query x; x.payload = q; x.kind = kind; x.columns = columns; v.push_back(x); };
    for (auto q : {"SET NAMES utf8", "USE main", "ROLLBACK;", "SELECT $$;", "set autocommit=1;", "  SET NAMES utf8", "\nROLLBACK;\n"}) fixed(Q(q), Reply::OK);
    for (auto q : {"SELECT", "SELECT nothere;", "SELECT * FROM nothere;", "INSERT INTO u VALUES(1);", "SELECT 'unterminated", "UPDATE s SET n=5;", "SELECT COLUMN_NAME FROM information_schema.columns", "SHOW KEYS FROM ``"}) fixed(Q(q), Reply::ERR);
    for (auto q : {"SELECT 1 WHERE 0;", "UPDATE s SET n=n WHERE id=1;", "DELETE FROM u WHERE k=99;", "SELECT k FROM u WHERE k=12345;", "SELECT * FROM information_schema.engines;", "SHOW KEYS FROM nothere;"}) fixed(Q(q), Reply::OK);
    fixed(Q("SELECT @@version_comment LIMIT 1"), Reply::ROWS, {"version_comment"}); fixed(Q("select @@session.auto_increment_increment"), Reply::ROWS, {"auto_increment_increment"}); fixed(Q("SHOW VARIABLES LIKE 'lower_case_table_names'"), Reply::ROWS, {"lower_case_table_names"}); fixed(Q("SHOW VARIABLES;"), Reply::ROWS, {"Variable Name", "Value"}); fixed(Q("SHOW DATABASES;"), Reply::ROWS, {"Database"}); fixed(Q("SELECT DATABASE();"), Reply::ROWS, {"Database"}); fixed(Q("SELECT VERSION()"), Reply::ROWS, {"version()"}); fixed(Q("SELECT VERSION() AS v;"), Reply::ROWS, {"v"}); fixed(Q("SELECT connection_id();"), Reply::ROWS, {"connection_id()"}); fixed(Q("SHOW KEYS FROM `s`"), Reply::ROWS, {"Table_name", "Non_unique", "Key_name", "Seq_in_index", "Column_name", "Collation", "Cardinality", "Sub_part", "Packed", "Null_col", "Index_type", "Comment", "Index_comment"});
    for (int i = 0; i < MYSQL_NUM_VARIABLES; i++) { string n = g_MySQLVariables[i][0], val = g_MySQLVariables[i][1]; bool prefix = i == 0 || i + 1 == MYSQL_NUM_VARIABLES; for (int j = 0; j < MYSQL_NUM_VARIABLES; j++) if (j != i && SStartsWith(string(g_MySQLVariables[j][0]), n)) prefix = true; if (prefix && val.size()) sel((i % 3 == 0 ? "SELECT @@" + n : i % 3 == 1 ? "SELECT @@global." + n + ";" : "SHOW VARIABLES LIKE '" + n + "';"), "SELECT '" + val + "' AS " + n + ";"); }
    for (auto p : {string("\x0e", 1), string("\x01", 1), string("\x02main", 5), string(""), string("\xff\0\0", 3)}) fixed(p, Reply::OK);
    auto any = [&](const string& q) { Query x; x.payload = Q(q); x.anything = true; v.push_back(x); };
    for (auto q : {"", ";", "/* never ended", ";;", "EXPLAIN SELECT 1;", "EXPLAIN QUERY PLAN SELECT * FROM u;", "SELECT 1 AS a; SELECT 2 AS b;", "SELECT x'00ff80' AS b;", "PRAGMA nothing;", "BEGIN;", ".schema u", "-- only", "SELECT 1 -- x", "INSERT INTO u VALUES(50) RETURNING k;", "ATTACH 'x' AS y;", "SHOW VARIABLES LIKE '%'", "@@", "SELECT @@", "SELECT 1e999 AS inf;", "VACUUM;", "information_schema", "SHOW KEYS FROM", "SHOW KEYS FROM `t", "SHOW KEYS FROM t where x", "\xff\xfe", "SELECT json_array(1,'x') AS j, json('{\"a\":[1]}') AS k;", "SELECT char(0) AS z;", "SELECT 'a' || char(0) || 'b' AS z;", "SELECT cast(x'ff80' AS TEXT) AS z;"}) any(q); any(string("SELECT 1\0 AS a;", 15));
    return v;
}
struct Mysql : BedrockPlugin_MySQL { using BedrockPlugin_MySQL::BedrockPlugin_MySQL; };
static bool same(const string& got, const string& want) { if (got == want || (want == "~" && got.empty())) return true; char *e, *f; double a = strtod(got.c_str(), &e), b = strtod(want.c_str(), &f); return got.size() && want.size() && !*e && !*f && a == b && want.find_first_of(".eE") != string::npos; }
static void checkReply(const Query& q, const Reply& r, const string& file) {
    string text = vis(q.payload); if (q.anything) { mc::outcome(shape(r)); return; }
    if (q.sql.empty()) { MC_CHECK(r.kind == q.kind, "%s is answered with %s", text.c_str(), shape(r).c_str()); if (q.columns.size()) MC_CHECK(r.columns == q.columns && r.rows.size(), "%s is answered with %s of column \"%s\"", text.c_str(), shape(r).c_str(), r.columns.size() ? vis(r.columns[0]).c_str() : ""); if (q.kind == Reply::ERR) MC_CHECK(r.code >= 400 && r.code < 2000 && r.message.size(), "%s is answered with %s", text.c_str(), shape(r).c_str()); return; }
    rt::NoPoints np; shim::Db d(file); sqlite3_stmt* st = nullptr; MC_CHECK(sqlite3_prepare_v2(d.db, q.sql.c_str(), -1, &st, nullptr) == SQLITE_OK, "preparing %s", q.sql.c_str()); vector<string> cols; for (int i = 0; i < sqlite3_column_count(st); i++) cols.push_back(sqlite3_column_name(st, i)); sqlite3_finalize(st); auto rows = d.query(q.sql);
    MC_CHECK(r.kind == Reply::ROWS || rows.empty(), "%s is answered with %s", text.c_str(), shape(r).c_str()); if (rows.empty()) { MC_CHECK(r.kind == Reply::OK || (r.kind == Reply::ROWS && r.rows.empty()), "%s is answered with %s", text.c_str(), shape(r).c_str()); return; }
    MC_CHECK(r.columns == cols, "%s has the columns %s", text.c_str(), SComposeJSONArray(r.columns).c_str()); MC_CHECK(r.rows.size() == rows.size(), "%s gives %zu rows instead of %zu", text.c_str(), r.rows.size(), rows.size());
    for (size_t i = 0; i < rows.size(); i++) for (size_t j = 0; j < rows[i].size(); j++) MC_CHECK(same(r.rows[i][j], rows[i][j]), "%s gives \"%s\" instead of \"%s\"", text.c_str(), vis(r.rows[i][j]).c_str(), vis(rows[i][j]).c_str()); mc::compared(rows.size());
}
static void session(const vector<int>& which, int cuts, int seq, bool early) {
    netReset(); rt::setEarlyTimers(false); World w(3); rt::setClockTick(1); w.s._shutdownState = BedrockServer::RUNNING; static Mysql* plugin = nullptr; Mysql my(w.s); BedrockPlugin_DB db(w.s); w.s.plugins["DB"] = &db; w.s.plugins["MySQL"] = &my; (void) plugin;
    Client k; vector<size_t> ends; string stream = packet(string("\x85\xa6\x03\0\0\0\0\x01\x21", 9) + string(23, 0) + "root" + string(2, 0), 1); ends.push_back(stream.size()); for (int i : which) { stream += packet(queries()[i].payload, seq); ends.push_back(stream.size()); mc::note("%s", vis(queries()[i].payload).c_str()); }
    set<size_t> places; for (size_t i = 0, b = 0; i < ends.size(); b = ends[i++]) for (size_t p : {b + 1, b + 3, b + 4, b + 5, (b + ends[i]) / 2, ends[i] - 1, ends[i]}) if (p < stream.size() && p > 0) places.insert(p); vector<size_t> P(places.begin(), places.end()); size_t from = 0, first = 0;
    for (int i = 0; i < cuts; i++) { int a = mc::choose(P.size() - first + 1, "cut"); if (!a) break; size_t p = P[first + a - 1]; k.pieces.push_back(stream.substr(from, p - from)); from = p; first += a; if (first == P.size()) break; } if (!cuts) { size_t b = 0; for (size_t e : ends) { k.pieces.push_back(stream.substr(b, e - b)); b = e; } } else k.pieces.push_back(stream.substr(from));
    serve(w, k, static_cast<BedrockPlugin*>(&my)); drain(w, {}); string got = gConns[CLIENT].tx; Wire wire(got); string o; int s0 = 0; string hello = wire.message(s0); MC_CHECK(hello.size() > 30 && hello[0] == 10, "the greeting is %s", vis(hello).c_str()); Reply login = wire.reply(2); MC_CHECK(login.kind == Reply::OK, "the login is answered with %s", shape(login).c_str());
    for (size_t i = 0; i < which.size(); i++) { MC_CHECK(wire.at < got.size(), "%s (query %zu of %zu) is not answered", vis(queries()[which[i]].payload).c_str(), i + 1, which.size()); Reply r = wire.reply(seq + 1); mc::note("%s: %s", vis(queries()[which[i]].payload).c_str(), shape(r).c_str()); checkReply(queries()[which[i]], r, w.file); o += shape(r) + "|"; }
    MC_CHECK(wire.at == got.size(), "after the answers the client gets %s", vis(got.substr(wire.at)).c_str()); MC_CHECK(gConns[CLIENT].closed, "the connection was not closed"); w.s._commandQueue.clear(); w.clean("a query"); mc::compared(which.size()); mc::outcome(o);
}
void mc::registerScenarios() {
    bool T = thorough(); Options p; p.bounds = {0}; add("length-encoded integers", integers, p); add("result tables", tables, p); add("packets", packets, p);
    Options o; o.concurrent = true; o.maxSteps = 400000; o.bounds = {0}; int n = queries().size();
    add("a query", [n, T] { int i = mc::choose(n, "query"); int seq = mc::pick(vector<int>{0, 7, 255}, "number"); session({i}, 0, seq, false); }, o);
    add("a query in pieces", [n, T] { int i = mc::choose(n, "query"); session({i}, T ? 2 : 1, 0, false); }, o);
    add("two queries", [n, T] { int i = mc::choose(n, "query"), j = T ? mc::choose(n, "query") : mc::pick(vector<int>{0, 8, 14, n - 1, 40, 50, 60}, "query"); session({i, j}, mc::choose(2, "at once") ? 1 : 0, 0, false); }, o);
    setRuleText("queries of a MySQL client");
}
