#pragma once
#include <optional>
#include <string>
#include <vector>
#include <string.h>
using namespace std;
// --- an independent JSON reader --------------------------------------------------------------------
struct Value { char kind = 0; string text; };      // kind: s(tring) n(umber) t/f/0(null) a(rray) o(bject); text is the value of strings, the source text of anything else
struct Reader {
    const string& t; size_t i = 0; bool strict = true, careful = true; int depth = 0; bool fuzzy = false;
    explicit Reader(const string& t_, bool strict_) : t(t_), strict(strict_) {}
    bool ws(char c) { return c == ' ' || c == '\n' || c == '\r' || c == '\t' || (!strict && (c == '\v' || c == '\f')); }
    void skip() { while (i < t.size() && ws(t[i])) i++; }
    static void utf8(string& o, unsigned c) { if (c < 0x80) o += (char) c; else if (c < 0x800) { o += (char) (0xc0 | c >> 6); o += (char) (0x80 | (c & 63)); } else if (c < 0x10000) { o += (char) (0xe0 | c >> 12); o += (char) (0x80 | (c >> 6 & 63)); o += (char) (0x80 | (c & 63)); } else { o += (char) (0xf0 | c >> 18); o += (char) (0x80 | (c >> 12 & 63)); o += (char) (0x80 | (c >> 6 & 63)); o += (char) (0x80 | (c & 63)); } }
    bool hex4(unsigned& c) { if (i + 4 > t.size()) return false; c = 0; for (int k = 0; k < 4; k++) { char x = t[i + k]; if (!isxdigit((unsigned char) x)) return false; c = c * 16 + (isdigit((unsigned char) x) ? x - '0' : (x | 32) - 'a' + 10); } i += 4; return true; }
    bool str(string& o) {
        if (i >= t.size() || t[i] != '"') return false; i++;
        for (; i < t.size(); ) {
            unsigned char c = t[i++]; if (c == '"') return true;
            if (c == 0) return false;
            if (c < 32 && strict) return false;
            if (c != '\\') { o += (char) c; continue; }
            if (i >= t.size()) return false; char e = t[i++]; if (!e) { if (strict) return false; fuzzy = true; continue; }
            if (e == 'u') { unsigned a, b; if (!hex4(a)) { if (strict) return false; fuzzy = true; continue; } if (a >= 0xd800 && a < 0xdc00) { size_t at = i; if (i + 1 < t.size() && t[i] == '\\' && t[i + 1] == 'u' && (i += 2, hex4(b)) && b >= 0xdc00 && b < 0xe000) a = 0x10000 + ((a - 0xd800) << 10) + (b - 0xdc00); else { i = at; if (strict) return false; fuzzy = true; } } else if (a >= 0xdc00 && a < 0xe000) { if (strict) return false; fuzzy = true; } utf8(o, a); continue; }
            switch (e) { case 'b': o += '\b'; break; case 'f': o += '\f'; break; case 'n': o += '\n'; break; case 'r': o += '\r'; break; case 't': o += '\t'; break; case '"': case '\\': case '/': o += e; break; default: if (strict) return false; fuzzy = true; o += e; }
        }
        return false;
    }
    bool lit(const char* w) { size_t n = strlen(w); if (t.compare(i, n, w)) return false; i += n; return true; }
    bool num() {
        size_t s = i; auto digits = [&] { size_t b = i; while (i < t.size() && isdigit((unsigned char) t[i])) i++; return i > b; };
        if (t[i] == '-') i++; size_t d = i; if (!digits()) { i = s; return false; } if (strict && t[d] == '0' && i > d + 1) return false;
        if (i < t.size() && t[i] == '.') { i++; if (!digits() && strict) return false; }
        if (i < t.size() && (t[i] == 'e' || t[i] == 'E')) { i++; if (i < t.size() && (t[i] == '+' || t[i] == '-')) i++; if (!digits() && strict) return false; }
        return true;
    }
    bool value(Value& v) {
        skip(); if (i >= t.size()) return false; size_t s = i; char c = t[i];
        if (c == '"') { v.kind = 's'; return str(v.text); }
        if (c == '{') { vector<pair<string, Value>> x; if (!object(x)) return false; v = {'o', t.substr(s, i - s)}; return true; }
        if (c == '[') { vector<Value> x; if (!array(x)) return false; v = {'a', t.substr(s, i - s)}; return true; }
        if (c == '-' || isdigit((unsigned char) c)) { if (num()) { v = {'n', t.substr(s, i - s)}; return true; } if (strict) return false; v = {'?', ""}; return true; }
        if (lit("true")) { v = {'t', "true"}; return true; } if (lit("false")) { v = {'f', "false"}; return true; } if (lit("null")) { v = {'0', "null"}; return true; }
        if (!strict) { v = {'?', ""}; return true; } return false;
    }
    bool array(vector<Value>& out) {
        skip(); if (i >= t.size() || t[i] != '[') return false; i++; skip(); if (i < t.size() && t[i] == ']') { i++; return true; }
        for (;;) { Value v; if (!value(v)) return false; out.push_back(v); skip(); if (i >= t.size()) return false; if (t[i] == ']') { i++; return true; } if (t[i++] != ',') return false; }
    }
    bool object(vector<pair<string, Value>>& out) {
        skip(); if (i >= t.size() || t[i] != '{') return false; i++; skip(); if (i < t.size() && t[i] == '}') { i++; return true; }
        for (;;) { string n; skip(); if (!str(n)) return false; skip(); if (i >= t.size() || t[i++] != ':') return false; Value v; if (!value(v)) return false; out.push_back({n, v}); skip(); if (i >= t.size()) return false; if (t[i] == '}') { i++; return true; } if (t[i++] != ',') return false; }
    }
    bool whole() { skip(); return i == t.size(); }
};
static optional<vector<Value>> readArray(const string& t, bool strict, bool* fuzzy = nullptr) { Reader r(t, strict); vector<Value> v; if (r.array(v) && r.whole()) { if (fuzzy) *fuzzy = r.fuzzy; return v; } return nullopt; }
static optional<vector<pair<string, Value>>> readObject(const string& t, bool strict, bool* fuzzy = nullptr) { Reader r(t, strict); vector<pair<string, Value>> v; if (r.object(v) && r.whole()) { if (fuzzy) *fuzzy = r.fuzzy; return v; } return nullopt; }
