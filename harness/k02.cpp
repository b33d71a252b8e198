// K02: JSON composed from data parses back to the same data. Real code: libstuff.cpp (SToJSON, SComposeJSON*, SParseJSON*, SEscape, SUnescape).
#include <libstuff/libstuff.h>
#include "../lib/mc.h"
#include <map>
#include <set>
#include "guard.h"
#include <limits>
#include <optional>
// Strings under test can be given memory that ends at an inaccessible page.
static bool gGuardNew; static bool gSlotUsed;
void* operator new(size_t n) { if (gGuardNew && n > 16 && n <= Guard::N && !gSlotUsed) { gSlotUsed = true; return Guard::one().p + 4096 + Guard::N - n; } void* p = malloc(n ? n : 1); if (!p) abort(); return p; }
void operator delete(void* p) noexcept { if (p >= Guard::one().p && p < Guard::one().p + Guard::N + 8192) { gSlotUsed = false; return; } free(p); }
void operator delete(void* p, size_t) noexcept { operator delete(p); }
static void quietLogs() { _g_SLogMask = 0; }
struct Exact { string s; explicit Exact(const string& t) { Guard::one(); gGuardNew = true; s.assign(t); gGuardNew = false; } };
#include "jsonread.h"
static STable tableOf(const vector<pair<string, Value>>& v, const string& null = "null") { STable t; for (auto& x : v) t[x.first] = x.second.kind == '0' ? null : x.second.text; return t; }
static list<string> listOf(const vector<Value>& v, const string& null = "null") { list<string> l; for (auto& x : v) l.push_back(x.kind == '0' ? null : x.text); return l; }
static string show(const STable& t) { string s; for (auto& x : t) s += "<" + vis(x.first) + "=" + vis(x.second) + ">"; return s.empty() ? "nothing" : s; }
static string show(const list<string>& t) { string s; for (auto& x : t) s += "<" + vis(x) + ">"; return s.empty() ? "nothing" : s; }
// --- composing -------------------------------------------------------------------------------------
static void sameString(const string& want, const string& got, const string& doc, const char* what) {
    if (want == got) return;
    if ((SIEquals(want, "true") || SIEquals(want, "false") || SIEquals(want, "null")) && SIEquals(want, got)) mc::failfp("keyword-case", "the string \"" + want + "\" came back as \"" + got + "\"");
    mc::fail("%s \"%s\" came back as \"%s\" from %s", what, vis(want).c_str(), vis(got).c_str(), vis(doc).c_str());
}
static bool shaped(const string& v) { return v.size() >= 2 && ((v[0] == '[' && v.back() == ']') || (v[0] == '{' && v.back() == '}')); }
static void roundTrip(const string& name, const string& v, bool force) {
    mc::note("<%s> <%s> %d", vis(name).c_str(), vis(v).c_str(), force);
    STable t; t[name] = v; t["~other"] = "o\"k"; string doc = SComposeJSONObject(t, force); STable back = SParseJSONObject(Exact(doc).s);
    MC_CHECK(back.size() == 2 && back.contains(name) && back["~other"] == "o\"k", "{\"%s\": \"%s\"} was composed as %s and read back as %s", vis(name).c_str(), vis(v).c_str(), vis(doc).c_str(), show(back).c_str());
    if (back.begin()->first != "~other") MC_CHECK(back.begin()->first == name, "name \"%s\" came back as \"%s\"", vis(name).c_str(), vis(back.begin()->first).c_str());
    sameString(v, back[name], doc, "value");
    list<string> l = {v, "x", v, ""}; string arr = SComposeJSONArray(l); list<string> lb = SParseJSONArray(Exact(arr).s); MC_CHECK(lb.size() == 4, "list of \"%s\" was composed as %s and read back as %s", vis(v).c_str(), vis(arr).c_str(), show(lb).c_str()); for (auto a = l.begin(), b = lb.begin(); a != l.end(); ++a, ++b) sameString(*a, *b, arr, "item");
    STable outer; outer["in"] = doc; outer["list"] = arr; string deep = SComposeJSONObject(outer); STable ob = SParseJSONObject(deep); MC_CHECK(ob["in"] == doc && ob["list"] == arr, "the nested document %s came back as %s", vis(deep).c_str(), show(ob).c_str());
    // independent reader: valid JSON with that very value (unless the value itself looks like JSON)
    auto valid = [&](const string& d) { auto r = readObject(d, true); MC_CHECK(r && r->size() == 2, "\"%s\" gave invalid JSON: %s", vis(v).c_str(), vis(d).c_str()); };
    if (!shaped(v) || force) valid(doc);
    if (!shaped(v)) valid(deep);
    if (!shaped(v) || force) { auto r = readObject(doc, true); bool found = false; for (auto& x : *r) if (x.first == name) { found = true; sameString(v, x.second.text, doc, "value"); } MC_CHECK(found, "name \"%s\" is missing from %s", vis(name).c_str(), vis(doc).c_str()); }
    if (!shaped(v)) { auto r = readArray(arr, true); MC_CHECK(r && r->size() == 4, "\"%s\" gave invalid JSON: %s", vis(v).c_str(), vis(arr).c_str()); sameString(v, (*r)[0].text, arr, "item"); }
    mc::compared(8); mc::state(name + "|" + v + (force ? "!" : "")); mc::outcome(doc.substr(0, 14)); mc::transition(6);
}
static const vector<string> UNITS = {"a", "\"", "\\", "/", "u", "0041", "{", "}", "[", "]", ":", ",", "\n", "\t", "\b", "\x01", "\x7f", "\xc3\xa9", "\xf0\x9f\x98\x80", " ", "1", "-", ".", "e5", "true", "null", "\\u0000"};
static string units(int maxLen, const char* what) { int n = mc::choose(maxLen + 1, what); string s; for (int i = 0; i < n; i++) s += mc::pick(UNITS, what); return s; }
static void values() { quietLogs(); string v = units(mc::thorough() ? 4 : 3, "value"); roundTrip("n", v, mc::choose(2, "forced")); }
static void names() { quietLogs(); string n = units(mc::thorough() ? 3 : 2, "name"); roundTrip(n, mc::pick(vector<string>{"v", "", "\"", "[1,{\"a\":2}]", "7"}, "value"), mc::choose(2, "forced")); }
static void bytes() { quietLogs(); int a = 1 + mc::choose(255, "byte"), b = mc::choose(256, "byte"); string v(1, (char) a); if (b) v += (char) b; STable t; t["k"] = v; string doc = SComposeJSONObject(t); STable back = SParseJSONObject(doc); sameString(v, back["k"], doc, "value"); t.clear(); t[v] = "1"; doc = SComposeJSONObject(t); back = SParseJSONObject(doc); MC_CHECK(back.size() == 1 && back.begin()->first == v, "name \"%s\" came back as %s", vis(v).c_str(), show(back).c_str());
    if (a < 128 && b < 128) { auto r = readObject(doc, true); MC_CHECK(r && r->size() == 1 && (*r)[0].first == v, "invalid JSON: %s", vis(doc).c_str()); } mc::state(v); mc::outcome(doc.substr(0, 4)); mc::compared(3); mc::transition(2); }
static void numericTexts() {
    quietLogs(); static const vector<string> V = {"0", "-0", "00", "1", "-1", "+1", "01", "2147483648", "9223372036854775807", "-9223372036854775808", "9223372036854775808", "1e5", "1.5", "0.000000", "1.500000", "-1.500000", "1.5000000", "1.", ".5", "0x1f", "1 ", " 1", "1e", "1e400", "nan", "inf", "-inf", "NAN", "3.402823e38", "340282346638528859811704183484516925440.000000", "123456792.000000", "1_000", "1,5", "truex", "xtrue", "true ", "true", "false", "null", "nul", "TRUE", "True", "False", "NULL", "Null", "{}", "[]", "{} ", " []", "[1,2]", "[1", "{\"a\":1}", "{\"a\":[1,2,{\"b\":\"]\"}]}", "[\"a\\\"]\"]", "{a}", "[a]", "{\"a\" 1}", "[\"\\\"]", "{\"}", "[[]", "[]]", "{\"a\":1}}"};
    string v = mc::pick(V, "value"), u = mc::choose(2, "wrapped") ? v : v + v; roundTrip(mc::pick(vector<string>{"n", "", "-1", "true"}, "name"), u, mc::choose(2, "forced"));
    for (int64_t x : {int64_t(0), int64_t(-1), numeric_limits<int64_t>::max(), numeric_limits<int64_t>::min()}) MC_CHECK(SToJSON(x, false) == to_string(x) && SToJSON(x, true) == to_string(x), "integer %ld is composed as %s", x, SToJSON(x, false).c_str());
}
// Tables and lists of several values, nested.
static void nested() {
    quietLogs(); static const vector<string> LEAF = {"", "a\"b", "7", "[", "}\n", "null", "\\", "{\"x\":\"]\"}"}; int depth = 1 + mc::choose(3, "depth"); string v = mc::pick(LEAF, "leaf"); vector<pair<int, string>> wrap; list<string> sib = {mc::pick(LEAF, "sibling"), mc::pick(LEAF, "sibling")};
    vector<string> levels = {v};
    for (int d = 0; d < depth; d++) { bool obj = mc::choose(2, "object"); wrap.push_back({obj, levels.back()}); if (obj) { STable t; t["a{"] = sib.front(); t["b\""] = levels.back(); t["c]"] = sib.back(); levels.push_back(SComposeJSONObject(t)); } else levels.push_back(SComposeJSONArray(list<string>{sib.front(), levels.back(), sib.back()})); }
    string doc = levels.back();
    { Reader r(doc, true); Value x; MC_CHECK(r.value(x) && r.whole(), "invalid JSON: %s", vis(doc).c_str()); }
    for (int d = depth - 1; d >= 0; d--) {
        string in = levels[d]; vector<string> got;
        if (wrap[d].first) { STable t = SParseJSONObject(levels[d + 1]); MC_CHECK(t.size() == 3, "%s was read as %s", vis(levels[d + 1]).c_str(), show(t).c_str()); got = {t["a{"], t["b\""], t["c]"]}; }
        else { list<string> l = SParseJSONArray(levels[d + 1]); MC_CHECK(l.size() == 3, "%s was read as %s", vis(levels[d + 1]).c_str(), show(l).c_str()); got.assign(l.begin(), l.end()); }
        MC_CHECK(got[0] == sib.front() && got[1] == in && got[2] == sib.back(), "%s was read as %s %s %s", vis(levels[d + 1]).c_str(), vis(got[0]).c_str(), vis(got[1]).c_str(), vis(got[2]).c_str());
    }
    mc::compared(depth); mc::state(doc); mc::outcome(to_string(doc.size() / 20)); mc::transition(depth); mc::note("%s", doc.c_str());
}
// --- reading ---------------------------------------------------------------------------------------
static void parseBoth(const string& text) {
    bool fz = false; auto so = readObject(text, true), lo = so ? so : readObject(text, false, &fz); auto sa = readArray(text, true), la = sa ? sa : readArray(text, false, &fz);
    Exact e(text); STable t = SParseJSONObject(e.s); list<string> l = SParseJSONArray(e.s);
    if (so) { STable want = tableOf(*so); MC_CHECK(t == want, "%s was read as %s instead of %s", vis(text).c_str(), show(t).c_str(), show(want).c_str()); }
    else if (!lo) MC_CHECK(t.empty(), "%s is not a JSON object but was read as %s", vis(text).c_str(), show(t).c_str());
    else if (!fz) MC_CHECK(t.empty() || t == tableOf(*lo), "%s was read as %s", vis(text).c_str(), show(t).c_str());
    if (sa) { list<string> want = listOf(*sa); MC_CHECK(l == want, "%s was read as %s instead of %s", vis(text).c_str(), show(l).c_str(), show(want).c_str()); }
    else if (!la) MC_CHECK(l.empty(), "%s is not a JSON array but was read as %s", vis(text).c_str(), show(l).c_str());
    else if (!fz) MC_CHECK(l.empty() || l == listOf(*la), "%s was read as %s", vis(text).c_str(), show(l).c_str());
    mc::compared(2); mc::transition(2);
}
static void documents() {
    quietLogs(); static const vector<string> SP = {"", " ", "\n\t\r ", "  "};
    static const vector<string> VAL = {"\"\"", "\"a\"", "\"\\\"\"", "\"\\\\\"", "\"\\/\\b\\f\\n\\r\\t\"", "\"\\u0041\\u00e9\\u20AC\"", "\"\\ud83d\\ude00\"", "\"x\\uD834\\uDD1Ey\"", "\"\\u0000z\"", "\"\xc3\xa9\"", "\"]},:\"", "0", "-0", "12", "-1.50", "1e5", "1E+10", "2.5e-3", "true", "false", "null", "[]", "{}", "[ ]", "[1,\"]\",{\"a\":[]}]", "{\"b\" : [true , null]}", "\"\\uffff\"", "\"\\u07ff\\u0800\\u007f\\u0080\""};
    string sp = mc::pick(SP, "blanks"), v = mc::pick(VAL, "value"), w = mc::pick(VAL, "value"); int form = mc::choose(5, "form"); string doc = sp;
    switch (form) { case 0: doc += "[" + sp + v + sp + "]"; break; case 1: doc += "{" + sp + "\"k\"" + sp + ":" + sp + v + sp + "}"; break; case 2: doc += "[" + v + sp + "," + sp + w + sp + "]"; break; case 3: doc += "{\"a\"" + sp + ":" + v + sp + "," + sp + "\"b\\n\":" + w + sp + "}"; break; case 4: doc += "{\"x\":[" + sp + v + "," + w + "],\"y\":{\"z\":" + v + sp + "}}"; }
    doc += sp; MC_CHECK(readObject(doc, true) || readArray(doc, true), "harness: %s", doc.c_str()); parseBoth(doc);
    for (size_t k = 0; k < doc.size(); k++) parseBoth(doc.substr(0, k));                                        // all prefixes
    if (form != 1 && form != 3) { list<string> l = SParseJSONArray(doc, "(none)"); if (auto r = readArray(doc, true)) MC_CHECK(l == listOf(*r, "(none)"), "with a null value, %s was read as %s", vis(doc).c_str(), show(l).c_str()); }
    vector<pair<string, string>> calls; STable t = SParseJSONObject(doc, "(none)", [&](const string& n, const string& x) { calls.push_back({n, x}); }); if (auto r = readObject(doc, true)) { MC_CHECK(t == tableOf(*r, "(none)"), "with a null value, %s was read as %s", vis(doc).c_str(), show(t).c_str()); MC_CHECK(calls.size() == r->size(), "%zu names were reported of %zu", calls.size(), r->size()); for (size_t i = 0; i < calls.size(); i++) MC_CHECK(calls[i].first == (*r)[i].first, "names are reported in another order"); }
    mc::state(doc); mc::note("%s", vis(doc).c_str()); mc::outcome(to_string(form));
}
static void escapes() {   // every \uXXXX, alone and in pairs
    quietLogs(); int hi = mc::choose(256, "high byte"); bool upper = mc::choose(2, "upper case");
    for (int lo = 0; lo < 256; lo++) { unsigned c = hi << 8 | lo; char b[16]; snprintf(b, 16, upper ? "\\u%04X" : "\\u%04x", c); parseBoth("[\"" + string(b) + "\"]"); parseBoth("[\"p" + string(b) + "q\\ude00\\ud83d\\ude00\"]"); if (c >= 0xd800 && c < 0xdc00) for (unsigned d : {0xdc00, 0xdfff, 0xde01}) { char e[16]; snprintf(e, 16, "\\u%04x", d); parseBoth("[\"" + string(b) + e + "1\"]"); } }
    mc::state(to_string(hi) + (upper ? "U" : "u")); mc::outcome("ok");
}
static void hostile() {
    quietLogs(); static const string A("{}[]\",:\\1a \0-.", 14); int pre = mc::choose(3, "start"), a = mc::choose(A.size(), "byte"), b = mc::choose(A.size(), "byte"), len = 2 + mc::choose(mc::thorough() ? 5 : 4, "length"); long total = 1; for (int i = 2; i < len; i++) total *= A.size();
    string head = string(pre ? 0 : 17, ' ') + (pre == 1 ? "[\"a\",[\"longer than 15\"]," : pre == 2 ? "{\"name\":{\"longer\":\"than 15\"}," : ""); size_t n = 0;
    for (long x = 0; x < total; x++) { string t = head + A[a] + A[b]; long y = x; for (int i = 2; i < len; i++) { t += A[y % A.size()]; y /= A.size(); } parseBoth(t); n++; }
    mc::state(head + A[a] + A[b] + to_string(len)); mc::outcome(to_string(n));
}
static void deep() {
    quietLogs(); static const vector<int> N = {1, 10, 200, 400, 990, 1500, 20000, 300000}; int n = mc::pick(N, "depth"), form = mc::choose(4, "form"); bool closed = mc::choose(2, "closed"); string s, e;
    for (int i = 0; i < n; i++) { bool obj = form == 1 || (form >= 2 && i % 2); s += obj ? "{\"a\":" : "["; e = (obj ? "}" : "]") + e; if (e.size() > 64 && n > 2000) { e.clear(); } }
    if (n > 2000) { e.clear(); for (int i = n - 1; i >= 0; i--) e += (form == 1 || (form >= 2 && i % 2)) ? '}' : ']'; }
    string t = s + (form == 3 ? "" : "1") + (closed ? e : ""); STable o = SParseJSONObject(t); list<string> l = SParseJSONArray(t);
    if (form == 3) {} else if (!closed) MC_CHECK(o.empty() && l.empty(), "an unclosed document of depth %d was accepted", n); else if (n <= 200) MC_CHECK((form == 1 ? o.size() : l.size()) == 1, "a document of depth %d was not read", n); else MC_CHECK(o.size() <= 1 && l.size() <= 1, "a document of depth %d was read wrongly", n);
    string j = SToJSON(t); if (j != t) { list<string> back = SParseJSONArray("[" + j + "]"); MC_CHECK(back.size() == 1 && back.front() == t, "a text of depth %d was composed wrongly", n); } mc::compared(2);
    mc::state(to_string(n) + "/" + to_string(form) + (closed ? "c" : "o")); mc::outcome(to_string(o.size() + l.size())); mc::transition(3);
}
// Documents of every depth, valid and broken, read hundreds of times: the last reading gives what the first gave.
static void again() {
    quietLogs(); static const vector<string> LEAF = {"1", "\"x\"", "true", "[]", "", "\"", "x"}, END = {"", "}", "]", ",", "x"}; int depth = 1 + mc::choose(12, "depth"), form = mc::choose(3, "form"); string s = mc::pick(LEAF, "leaf"); for (int i = 0; i < depth; i++) s = form == 0 || (form == 2 && i % 2) ? "[" + s + "]" : "{\"a\":" + s + "}"; int cut = mc::choose(4, "cut"); s = s.substr(0, s.size() - min((int) s.size(), cut)) + mc::pick(END, "end");
    STable o = SParseJSONObject(s); list<string> l = SParseJSONArray(s); string j = SToJSON(s); for (int i = 0; i < 600; i++) { MC_CHECK(SParseJSONObject(s) == o && SParseJSONArray(s) == l, "%s is read differently after %d times", s.c_str(), i); MC_CHECK(SParseJSONObject("{\"k\":[[1]]}").size() == 1, "after reading %s %d times nothing can be read", s.c_str(), i); } mc::compared(600); mc::state(s); mc::transition(600); mc::outcome(to_string(o.size()) + to_string(l.size()));
}
void mc::registerScenarios() {
    Options o; o.bounds = {0}; add("documents read again and again", again, o);
    add("values of all short strings", values, o);
    add("names of all short strings", names, o);
    add("all pairs of bytes", bytes, o);
    add("numbers and words", numericTexts, o);
    add("nested documents", nested, o);
    add("documents of a grammar and all of their prefixes", documents, o);
    add("all \\u escapes", escapes, o);
    add("arbitrary text", hostile, o);
    add("depth", deep, o);
    setRuleText("all short strings as names and values, documents of a grammar with all prefixes, all short texts over the JSON alphabet; independent strict reader as oracle");
}
