// K01: messages survive the wire however it fragments. Real code: libstuff.cpp (SParseHTTP, SComposeHTTP), SData.cpp, SFastBuffer.cpp, STCPManager.cpp.
#include "common.h"
#include "guard.h"
#include <libstuff/SData.h>
#include <libstuff/SFastBuffer.h>
#include <libstuff/STCPManager.h>
#include <sys/socket.h>
#include <fcntl.h>
struct Parsed { int n = 0; string method, content; STable head; bool operator==(const Parsed& o) const { return n == o.n && method == o.method && content == o.content && head == o.head; } };
static string show(const Parsed& p) { string s = to_string(p.n) + " <" + vis(p.method) + ">"; for (auto& h : p.head) s += " <" + vis(h.first) + "=" + vis(h.second) + ">"; return s + " content <" + vis(p.content.substr(0, 200)) + ">"; }
static Parsed parseAt(const char* b, size_t len, const string& text) {
    Parsed r;
    try { r.n = SParseHTTP(b, len, r.method, r.head, r.content); } catch (const exception& e) { mc::fail("parsing \"%s\" threw %s", vis(text).c_str(), e.what()); }
    MC_CHECK(r.n >= 0 && (size_t) r.n <= len, "parsing %zu bytes \"%s\" reported %d consumed bytes", len, vis(text).c_str(), r.n);
    MC_CHECK(r.n || (r.method.empty() && r.head.empty() && r.content.empty()), "a failed parse of \"%s\" left %s", vis(text).c_str(), show(r).c_str());
    return r;
}
// Parse with inaccessible memory right after, then right before the text.
static Parsed parse(const string& t) {
    Parsed a = parseAt(Guard::one().atEnd(t), t.size(), t), b = parseAt(Guard::one().atStart(t), t.size(), t);
    MC_CHECK(a == b, "parsing \"%s\" depends on what lies around it: %s and %s", vis(t).c_str(), show(a).c_str(), show(b).c_str()); return a;
}
static string trim(const string& s) { size_t a = 0, b = s.size(); while (a < b && s[a] == ' ') a++; while (b > a && s[b - 1] == ' ') b--; return s.substr(a, b - a); }
// What a composed message must be parsed to.
static Parsed expected(const SData& d, const string& wire) {
    Parsed e; e.n = wire.size(); e.method = trim(d.methodLine); e.content = d.content;
    for (auto& h : d.nameValueMap) e.head[h.first] = trim(h.second);
    if (d.nameValueMap.contains("Content-Encoding")) { if (d.content.empty()) e.head.erase("Content-Encoding"); }
    e.head["Content-Length"] = to_string(e.content.size()); return e;
}
// The message is only complete with its last byte. (An empty message without its very last line feed is complete: that line feed is then skipped as a blank line.)
static void prefixes(const string& wire, bool noContent, const Parsed& whole) {
    for (size_t k = 0; k < wire.size(); k++) {
        Parsed p = parseAt(Guard::one().atEnd(wire.substr(0, k)), k, wire.substr(0, k));
        if (k + 1 == wire.size() && noContent && p.n) { Parsed q = whole; q.n--; MC_CHECK(p == q, "the message without its last line feed is %s instead of %s", show(p).c_str(), show(q).c_str()); continue; }
        MC_CHECK(!p.n, "only %zu of %zu bytes of \"%s\" were taken as the whole message %s", k, wire.size(), vis(wire).c_str(), show(p).c_str());
    }
    mc::compared(wire.size()); mc::transition(wire.size());
}
static const string ALPH("a :\n\r\t\\\"\x01\xff;n%u,0", 16);
static const vector<string> NEXT = {"NEXT\r\nContent-Length: 3\r\n\r\nxyz", "\r\n\r\n", "0", "\n"};
static void check(const SData& d, bool allPrefixes) {
    string wire = d.serialize(); mc::note("%s", vis(wire).c_str());
    Parsed e = expected(d, wire);
    if (e.head.contains("Content-Encoding")) { Parsed p = parse(wire); if (p.head.contains("Content-Encoding")) { MC_CHECK(SGUnzip(p.content) == d.content, "compressed content is not the content"); e.head["Content-Encoding"] = "gzip"; e.content = p.content; e.head["Content-Length"] = to_string(p.content.size()); } else e.head.erase("Content-Encoding"); }
    Parsed p = parse(wire); MC_CHECK(p == e, "composed message \"%s\" was parsed to %s instead of %s", vis(wire).c_str(), show(p).c_str(), show(e).c_str());
    for (auto& n : NEXT) { Parsed q = parse(wire + n); MC_CHECK(q == e, "followed by \"%s\", \"%s\" was parsed to %s instead of %s", vis(n).c_str(), vis(wire).c_str(), show(q).c_str(), show(e).c_str()); }
    SData o; MC_CHECK(o.deserialize(wire) == (int) wire.size() && o.methodLine == e.method && o.content == e.content && o.nameValueMap == e.head, "SData does not read its own message back: \"%s\"", vis(wire).c_str());
    mc::compared(7); if (allPrefixes) prefixes(wire, d.content.empty(), e);
    mc::state(wire); mc::outcome(to_string(e.head.size()) + "/" + to_string(e.content.size() > 2));
}
static string str(const string& alph, int maxLen, const char* what) { int n = mc::choose(maxLen + 1, what); string s; for (int i = 0; i < n; i++) s += alph[mc::choose(alph.size(), what)]; return s; }
static const vector<string> METHODS = {"Query", "GET /a?b=c%20d HTTP/1.1", "200 OK", "A\tb: c", "x\xff"};
static vector<string> contents() { return {"", "x", "\n", "\r\n\r\n", "\n\nA: b\r\n", string("\0\r\n", 3), "Content-Length: 5\r\n\r\n", string(300, 'z') + "\r\n"}; }
static void values() {
    quietLogs(); SData d; d.methodLine = METHODS[mc::choose(2, "method")]; d["a-Name"] = str(ALPH, mc::thorough() ? 4 : 3, "value"); d.content = mc::choose(2) ? "\r\nb: c" : ""; check(d, false); }
static void shapes() {
    quietLogs(); SData d; d.methodLine = mc::pick(METHODS, "method"); int n = mc::choose(4, "headers");
    static const vector<string> NAMES = {"a", "Name-X", "Content-Length", "connection"}, VALS = {"", "v", "two words", "line\r\nbreak: 1", "\\", "\\n", "tab\t:", "\xff\xfe", "{\"a\":[1,\"\\n\"]}", "  blanks "};
    for (int i = 0; i < n && i < 3; i++) d[NAMES[(mc::choose(2) * 2 + i) % 4] + (i ? to_string(i) : "")] = i == 2 ? "z" : mc::pick(VALS, "value");
    d.content = mc::pick(contents(), "content"); check(d, true);
}
static void cookies() {
    quietLogs(); SData d; d.methodLine = "200 OK"; string sep(1, (char) 0xff); int n = 1 + mc::choose(3, "cookies"); vector<string> c;
    for (int i = 0; i < n; i++) c.push_back("k" + to_string(i) + "=" + (i ? mc::pick(vector<string>{"v", "\\n", "x\r\nX-Added: 1", "a; Path=/", "\\"}) : str(ALPH.substr(0, 9), 2, "cookie") + "x"));
    for (int i = 0; i < n; i++) d["Set-Cookie"] += (i ? sep : "") + c[i];
    if (mc::choose(2, "more")) d["Zed"] = "1"; d.content = mc::choose(2) ? "abc" : ""; check(d, true);
}
static void gzip() {
    quietLogs(); SData d; d.methodLine = "200 OK"; d["Content-Encoding"] = mc::choose(2) ? "gzip" : "GZIP"; if (mc::choose(2)) d["a"] = "b"; int n = mc::choose(60, "length"); bool same = mc::choose(2, "compressible");
    for (int i = 0; i < n; i++) d.content += same ? (char) ('a' + i % 2) : (char) (200 + (i * 37) % 55); check(d, n < 20);
}
// --- streams --------------------------------------------------------------------------------------
struct Msg { string wire; Parsed p; bool noContent; };
static const vector<Msg>& wireMessages() {
    static vector<Msg> v;
    if (v.empty()) {
        auto add = [&](const string& m, STable t, const string& c) { SData d; d.methodLine = m; d.nameValueMap = t; d.content = c; string w = d.serialize(); v.push_back({w, expected(d, w), c.empty()}); };
        add("Q", {}, ""); add("Q", {}, "x"); add("LOGIN", {{"a", "1"}}, "\r\n\r\n"); add("COMMIT", {{"Hash", "x\ny"}, {"b", "2"}}, ""); add("B", {}, "A\n\nB\r\n"); add("R", {{"h", "v"}}, string("\n\0\r", 3)); add("Z", {{"z", "\\"}}, "\n\n");
        string w = "POST / HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n3\r\na\r\n\r\n1;x\r\nb\r\n0\r\nF: g\r\n\r\n"; Parsed p; p.n = w.size(); p.method = "POST / HTTP/1.1"; p.content = "a\r\nb"; p.head["F"] = "g"; p.head["Content-Length"] = "4"; v.push_back({w, p, true});
    }
    return v;
}
// A stream of messages arriving in pieces at the buffer of a connection, which takes messages out as the server's and the cluster's sockets do.
static void stream(int nMsgs, int maxCuts) {
    quietLogs(); vector<const Msg*> m; string all; vector<size_t> ends; bool asServer = mc::choose(2, "server");
    for (int i = 0; i < nMsgs; i++) { m.push_back(&wireMessages()[mc::choose(wireMessages().size(), "message")]); all += m.back()->wire; ends.push_back(all.size()); }
    int cuts = 1 + mc::choose(maxCuts, "cuts"), c0 = 1 + mc::choose(all.size() - 1, "first cut"); bool one = mc::choose(2, "one buffer before");
    auto run = [&](vector<size_t> cut) {
        SFastBuffer b; if (one) { b.append("old", 3); b.consumeFront(2); b.append("y", 1); b.consumeFront(2); }              // a used buffer
        cut.push_back(all.size()); size_t at = 0, done = 0, taken = 0;
        for (size_t c : cut) {
            if (c < at) continue;
            b.append(all.data() + at, c - at); at = c;
            for (int guard = 0; ; guard++) {
                if (b.empty() || (asServer && !b.startsWithHTTPRequest())) break;
                SData d; int n = d.deserialize(b); if (!n) break;
                MC_CHECK(done < m.size() && (size_t) n <= b.size() && guard < 20, "more messages came out of the stream than went in: %s", show(Parsed{n, d.methodLine, d.content, d.nameValueMap}).c_str());
                const Parsed& e = m[done]->p; MC_CHECK(d.methodLine == e.method && d.content == e.content && d.nameValueMap == e.head, "message %zu of \"%s\" cut at %zu,%zu is %s instead of %s", done, vis(all).c_str(), cut[0], cut.size() > 1 ? cut[1] : 0, show(Parsed{n, d.methodLine, d.content, d.nameValueMap}).c_str(), show(e).c_str());
                b.consumeFront(n); taken += n; done++; MC_CHECK(at >= ends[done - 1] || (at + 1 == ends[done - 1] && m[done - 1]->noContent), "message %zu came out before it was complete", done - 1);
                MC_CHECK(b.size() == at - taken && string(b.c_str(), b.size()) == all.substr(taken, at - taken), "the buffer holds \"%s\" instead of \"%s\" after consuming %zu of %zu bytes", vis(string(b.c_str(), b.size())).c_str(), vis(all.substr(taken, at - taken)).c_str(), taken, at);
            }
            size_t due = 0; while (due < ends.size() && ends[due] <= at) due++;
            MC_CHECK(done >= due, "message %zu did not come out although all of its bytes (up to %zu) have arrived, of \"%s\" cut at %zu,%zu", done, at, vis(all).c_str(), cut[0], cut.size() > 1 ? cut[1] : 0);
        }
        MC_CHECK(done == m.size(), "%zu messages of %zu came out", done, m.size()); mc::compared(done); mc::transition(cut.size());
    };
    if (cuts == 1) run({(size_t) c0});
    else if (cuts == 2) for (size_t c1 = c0; c1 < all.size(); c1++) run({(size_t) c0, c1});
    else for (size_t c1 = c0; c1 < all.size(); c1++) for (size_t c2 = c1; c2 < all.size(); c2++) run({(size_t) c0, c1, c2});
    mc::state(all + to_string(c0) + "/" + to_string(cuts) + to_string(asServer) + to_string(one)); mc::outcome(to_string(cuts)); mc::note("%s cut at %d", vis(all).c_str(), c0);
}
// --- chunked bodies -------------------------------------------------------------------------------
static void chunked() {
    quietLogs(); string body = str(string("a\r\n0;", 5), mc::thorough() ? 4 : 3, "body"); int style = mc::choose(4, "style"), foot = mc::choose(3, "footers"), before = mc::choose(3, "other headers"); unsigned splits = body.size() > 1 ? mc::choose(1 << (body.size() - 1), "chunks") : 0;
    bool big = mc::choose(2, "long chunk"); string w = "POST /x HTTP/1.1\r\n"; if (before == 1) w += "A: 1\r\n"; if (before == 2) w += "Content-Length: 3\r\n"; w += string(style == 3 ? "transfer-encoding: Chunked" : "Transfer-Encoding: chunked") + "\r\n\r\n"; string content;
    auto put = [&](const string& c) { char h[32]; snprintf(h, 32, style == 1 ? "%zX" : style == 2 ? "%04zx" : "%zx", c.size()); w += h; if (style == 1) w += ";ext=\"1\""; w += "\r\n" + c + "\r\n"; content += c; };
    if (big) put(string(26, 'k') + "\r\n"); string cur; for (size_t i = 0; i < body.size(); i++) { cur += body[i]; if (i + 1 == body.size() || (splits >> i & 1)) { put(cur); cur.clear(); } }
    w += style == 2 ? "000\r\n" : "0\r\n"; if (foot) w += "Foot: er\r\n"; if (foot == 2) w += "Zz: two\r\n"; w += "\r\n"; mc::note("%s", vis(w).c_str());
    Parsed e; e.n = w.size(); e.method = "POST /x HTTP/1.1"; e.content = content; if (before == 1) e.head["A"] = "1"; if (foot) e.head["Foot"] = "er"; if (foot == 2) e.head["Zz"] = "two"; e.head["Content-Length"] = to_string(content.size());
    Parsed p = parse(w); MC_CHECK(p == e, "chunked message \"%s\" was parsed to %s instead of %s", vis(w).c_str(), show(p).c_str(), show(e).c_str());
    for (auto& n : NEXT) if (n[0] != '\n' && n[0] != '\r') { Parsed q = parse(w + n); MC_CHECK(q == e, "followed by \"%s\", \"%s\" was parsed to %s", vis(n).c_str(), vis(w).c_str(), show(q).c_str()); }
    prefixes(w, true, e); mc::state(w); mc::outcome(to_string(content.size())); mc::compared(4);
}
// --- arbitrary input ------------------------------------------------------------------------------
static void hostile() {
    quietLogs(); static const string A("\r\n :A\0" "5", 7); static const vector<string> PRE = {"", "G\r\n", "G\r\nContent-Length:", "G\r\nContent-Length: 2\r\n\r\n", "G\nTransfer-Encoding: chunked\n\n", "G\r\nTransfer-Encoding: chunked\r\n\r\n5\r\nabcde\r\n", "G\r\nSet-Cookie: a\r\nSet-Cookie:"};
    string pre = mc::pick(PRE, "start"), s; int fixed = mc::choose((int) A.size() * (int) A.size(), "first bytes"), len = mc::choose(mc::thorough() ? 9 : 7, "length");
    if (len > 0) s += A[fixed / A.size()]; if (len > 1) s += A[fixed % A.size()]; else if (fixed) return;
    long total = 1; for (int i = 2; i < len; i++) total *= A.size(); if (len < 2 && fixed % A.size()) return; set<int> lens;
    for (long x = 0; x < total; x++) { string t = s; long y = x; for (int i = 2; i < len; i++) { t += A[y % A.size()]; y /= A.size(); } Parsed p = parse(pre + t); lens.insert(p.n); if (p.n) MC_CHECK(!p.method.empty(), "\"%s\" gave a message without a method line", vis(pre + t).c_str()); mc::compared(2);
        SFastBuffer b(pre + t); if (b.startsWithHTTPRequest()) { SData d; int n = d.deserialize(b); MC_CHECK(n == p.n, "through the buffer %d bytes of \"%s\" are a message instead of %d", n, vis(pre + t).c_str(), p.n); b.consumeFront(n); MC_CHECK(b.size() == pre.size() + t.size() - n, "the buffer has %zu bytes left", b.size()); } }
    mc::state(pre + "|" + s + "/" + to_string(len)); string o; for (int l : lens) o += to_string(l) + " "; mc::outcome(o); mc::transition(total);
}
// Messages as other programs write them: either line ending, any blanks around a value, values continued on the next line.
static void foreign() {
    quietLogs(); static const vector<pair<string, vector<string>>> H = {{"A: 1", {"1"}}, {"A:1", {"1"}}, {"A:   1  ", {"1"}}, {"A: 1|  two", {"1", "two"}}, {"A: 1|\ttwo| three", {"1", "two", "three"}}, {"A: x: y", {"x: y"}}, {"A:", {""}}, {"A: ", {""}}};
    static const vector<string> C = {"", "x", " x", "\tx", "x\r\n", "A: 2\r\n\r\n", "  \n", string("\0 \n", 3)};
    string eol = mc::choose(2, "line ending") ? "\r\n" : "\n"; auto& h = mc::pick(H, "header"); auto& c = mc::pick(C, "content"); bool first = mc::choose(2, "order"), more = mc::choose(2, "more"); string name = mc::choose(2, "name") ? "content-length" : "Content-Length";
    string text; for (char ch : h.first) if (ch == '|') text += eol; else text += ch; string w = "GET / HTTP/1.1" + eol + (first ? text + eol : "") + name + ": " + to_string(c.size()) + eol + (first ? "" : text + eol) + (more ? "Zz: 9" + eol : "") + eol + c; mc::note("%s", vis(w).c_str());
    for (auto& n : NEXT) { if (c.empty() && (n[0] == '\n' || n[0] == '\r')) continue; Parsed p = parse(w + n); MC_CHECK(p.n == (int) w.size() && p.method == "GET / HTTP/1.1" && p.content == c, "\"%s\" followed by \"%s\" was parsed to %s", vis(w).c_str(), vis(n).c_str(), show(p).c_str());
        auto words = [](const string& x) { vector<string> o; string k; for (char ch : x + " ") if (isspace((unsigned char) ch)) { if (!k.empty()) o.push_back(k); k.clear(); } else k += ch; return o; }; string want; for (auto& x : h.second) want += x + " ";
        MC_CHECK(p.head.contains("A") && words(p.head["A"]) == words(want) && p.head["A"] == STrim(p.head["A"]) && p.head.size() == 2u + more, "header \"%s\" was parsed to %s", vis(text).c_str(), show(p).c_str()); if (more) MC_CHECK(p.head["Zz"] == "9", "header Zz of \"%s\" is \"%s\"", vis(w).c_str(), p.head["Zz"].c_str()); }
    for (size_t k = 0; k + !c.size() < w.size(); k++) { string t = w.substr(0, k); Parsed p = parseAt(Guard::one().atEnd(t), k, t); MC_CHECK(!p.n, "only %zu of %zu bytes of \"%s\" were taken as the whole message", k, w.size(), vis(w).c_str()); }
    mc::state(w); mc::outcome(to_string(c.size())); mc::compared(4); mc::transition(w.size());
}
// A method line that cannot be sent is refused, or arrives as it was given.
static void methods() {
    quietLogs(); SData d; int at = mc::choose(3, "where"), c = mc::choose(256, "character"); string ch(1, (char) c); d.methodLine = at == 0 ? ch + "Ab c" : at == 1 ? "A" + ch + "b c" : "Ab c" + ch; if (mc::choose(2, "headers")) d["X"] = "y"; d.content = mc::choose(2, "content") ? "z" : ""; string w;
    try { w = d.serialize(); } catch (const SException& e) { MC_CHECK(c < 32 || c == 127, "method line \"%s\" is refused", vis(d.methodLine).c_str()); mc::outcome("refused"); mc::state(d.methodLine + to_string(d.content.size())); return; }
    Parsed p = parse(w + "N"), e = expected(d, w); MC_CHECK(p.n == e.n && p.content == e.content && p.head == e.head && trim(p.method) == e.method, "method line \"%s\" was parsed to %s", vis(d.methodLine).c_str(), show(p).c_str()); mc::compared(); mc::outcome("sent"); mc::state(w);
}
static void lengths() {
    quietLogs(); static const vector<string> V = {"0", "1", "2", "3", "4", "5", "-0", "-1", "-3", "+2", "2147483647", "2147483648", "4294967295", "4294967296", "4294967297", "4294967299", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "99999999999999999999999999", "0x2", "1e1", "", " ", "abc", "2abc", "\t2", "2\t", "2 2", "\\n2", ":", "ffffffff", "ffffffffffffffff", "fffffffffffffffe", "8000000000000000", "100000000", "7fffffff", "80000000", "fffffffe", "FFFFFFFD", "00000002", "000000002", "2;", ";2", "2 ;x", "g", "-"};
    string v = mc::pick(V, "value"); int kind = mc::choose(2, "kind"), n = mc::choose(8, "bytes"); string eol = mc::choose(2) ? "\r\n" : "\n", body = string("ab\r\n0\r\n\r\n").substr(0, n), w = "G" + eol + (kind ? "Transfer-Encoding: chunked" + eol + eol + v + eol + body : "Content-Length: " + v + eol + eol + body);
    mc::note("%s", vis(w).c_str()); Parsed p = parse(w);
    if (!kind) { char* end; string u = SUnescape(v); errno = 0; long long x = strtoll(u.c_str(), &end, 10); bool valid = end != u.c_str() && !errno && x >= 0; if (!valid || x > n) MC_CHECK(!p.n, "with Content-Length \"%s\", %d bytes of content were taken as complete", v.c_str(), n); else if (x < n || !(body.size() && body[0] == '\n')) MC_CHECK(p.n && p.content == body.substr(0, x), "with Content-Length \"%s\", content is \"%s\"", v.c_str(), vis(p.content).c_str()); }
    else if (p.n) MC_CHECK(p.content.size() <= (size_t) n, "a chunked body of %d bytes gave %zu bytes of content", n, p.content.size());
    mc::compared(); mc::state(w); mc::outcome(show(p)); mc::transition();
}
// Messages larger than what is read at once, and than what buffers hold.
static void large() {
    quietLogs(); static const vector<size_t> N = {0, 100, 4000, 4090, 5000, 20000}, STEP = {1400, 4096, 5000, 65536}; string all; vector<string> content; int n = 2 + mc::choose(2, "messages");
    for (int i = 0; i < n; i++) { SData d; d.methodLine = "M" + to_string(i); d["h"] = string(mc::choose(2, "long header") ? 4100 : 3, 'h'); d.content = string(mc::pick(N, "length"), (char) ('a' + i)) ; content.push_back(d.content); all += d.serialize(); }
    size_t step = mc::pick(STEP, "step"), first = 1 + mc::choose(3, "first") * 1500; bool asServer = mc::choose(2, "server"); SFastBuffer b; size_t at = 0; int got = 0;
    while (at < all.size()) { size_t k = min(at ? step : first, all.size() - at); b.append(all.data() + at, k); at += k; while (!b.empty() && (!asServer || b.startsWithHTTPRequest())) { SData d; int m = d.deserialize(b); if (!m) break; MC_CHECK(got < n && d.methodLine == "M" + to_string(got) && d.content == content[got], "message %d of %d arrives as \"%s\" with %zu bytes of content", got, n, d.methodLine.c_str(), d.content.size()); b.consumeFront(m); got++; } }
    MC_CHECK(got == n && string(b.c_str(), b.size()).find_first_not_of("\r\n") == string::npos, "%d of %d messages came out, %zu bytes are left", got, n, b.size()); mc::state(all + to_string(step) + "/" + to_string(first)); mc::outcome(to_string(n)); mc::compared(n); mc::transition(n);
}
// Every sequence of operations on a buffer against a string.
static void buffer() {
    quietLogs(); SFastBuffer b; string m, next = "a"; int n = mc::thorough() ? 7 : 6;
    for (int i = 0; i < n; i++) { int op = mc::choose(8, "operation"); if (!op) break; string x(op == 2 ? 40 : op == 3 ? 5000 : 1, next[0]); next[0]++;
        switch (op) { case 1: case 2: case 3: b.append(x.data(), x.size()); m += x; break; case 4: { size_t k = m.size() / 2; b.consumeFront(k); m.erase(0, k); break; } case 5: b.consumeFront(m.size()); m.clear(); break; case 6: b.clear(); m.clear(); break; case 7: b = x; m = x; break; }
        MC_CHECK(b.size() == m.size() && b.empty() == m.empty() && string(b.c_str(), b.size()) == m, "the buffer holds %zu bytes (%.60s) instead of %zu (%.60s)", b.size(), string(b.c_str(), b.size()).c_str(), m.size(), m.c_str()); mc::transition(); }
    mc::state(m + to_string(n)); mc::outcome(to_string(m.size() > 0)); mc::compared(n);
    SData d("X"); d["a"] = "b"; d.content = "c"; d.clear(); MC_CHECK(d.methodLine.empty() && d.nameValueMap.empty() && d.content.empty(), "a cleared message still has something");
}
// --- sockets --------------------------------------------------------------------------------------
static string gWire; static int gFd = -1; static bool gPartial;
static ssize_t some(size_t n) { if (!gPartial) return n; if (n == 0) return 0; switch (mc::chooseDev(5, "bytes passed")) { case 0: return n; case 1: return 1; case 2: return (n + 1) / 2; case 3: return n > 1 ? n - 1 : n; default: return -1; } }
extern "C" ssize_t send(int fd, const void* p, size_t n, int) { if (fd != gFd) { errno = EBADF; return -1; } ssize_t k = some(n); if (k < 0) { errno = EAGAIN; return -1; } gWire.append((const char*) p, k); if (rt::active()) rt::point("send"); return k; }
static size_t gRead;
extern "C" ssize_t recvfrom(int fd, void* p, size_t n, int, sockaddr*, socklen_t*) { if (fd != gFd) { errno = EBADF; return -1; } size_t have = min(n, gWire.size() - gRead); if (!have) { errno = EAGAIN; return -1; } ssize_t k = some(have); if (k < 0) { errno = EAGAIN; return -1; } memcpy(p, gWire.data() + gRead, k); gRead += k; return k; }
static void sockets(int senders, int each) {
    quietLogs(); rt::setClockTick(0); gWire.clear(); gRead = 0; gFd = open("/dev/null", O_RDWR | O_NONBLOCK); gPartial = true;
    STCPManager::Socket* a; STCPManager::Socket* b; vector<vector<const Msg*>> sent(senders); { rt::NoPoints np; a = new STCPManager::Socket(gFd, STCPManager::Socket::CONNECTED, false); b = new STCPManager::Socket(gFd, STCPManager::Socket::CONNECTED, false); int k = 0; for (auto& s : sent) for (int i = 0; i < each; i++) s.push_back(&wireMessages()[(k++ * 2 + 1) % wireMessages().size()]); }
    auto sender = [&](int i) { for (auto* m : sent[i]) MC_CHECK(a->send(m->wire), "sending failed"); };
    if (senders == 1) sender(0); else { vector<thread> t; for (int i = 0; i < senders; i++) t.emplace_back(sender, i); for (auto& x : t) x.join(); }
    vector<size_t> next(senders); size_t got = 0; string order;
    auto drained = [&] { return a->sendBufferEmpty() && gRead == gWire.size(); };
    for (int round = 0; round < 100 && (got < (size_t) senders * each || !drained()); round++) {
        if (round > 20) gPartial = false;
        MC_CHECK(a->send(), "sending failed"); MC_CHECK(b->recv(), "receiving failed");
        for (;;) { SData d; int n = d.deserialize(b->recvBuffer); if (!n) break; b->recvBuffer.consumeFront(n); bool ok = false;
            for (int i = 0; i < senders && !ok; i++) if (next[i] < sent[i].size() && sent[i][next[i]]->p.method == d.methodLine && sent[i][next[i]]->p.content == d.content && sent[i][next[i]]->p.head == d.nameValueMap) { next[i]++; ok = true; order += to_string(i); }
            MC_CHECK(ok, "received %s, which is not the next message of any sender", show(Parsed{n, d.methodLine, d.content, d.nameValueMap}).c_str()); got++; }
    }
    // The line end after a message without content may be left over: the message is complete without it.
    string left(b->recvBuffer.c_str(), b->recvBuffer.size()); MC_CHECK(got == (size_t) senders * each && drained() && left.find_first_not_of("\r\n") == string::npos, "%zu of %d messages arrived, %zu bytes left over", got, senders * each, left.size()); mc::compared(got);
    mc::outcome(order); mc::state(order + to_string(gWire.size())); mc::transition(got); a->s = b->s = -1; close(gFd); delete a; delete b;
}
void mc::registerScenarios() {
    Options o; o.bounds = {0};
    add("header values", values, o);
    add("message shapes and all prefixes", shapes, o);
    add("cookies", cookies, o);
    add("compressed content", gzip, o);
    add("chunked bodies and all prefixes", chunked, o);
    add("streams of 2 messages, up to 2 cuts", [] { stream(2, 2); }, o);
    add("streams of 1 message, up to 3 cuts", [] { stream(1, 3); }, o);
    if (thorough()) { add("streams of 3 messages, up to 2 cuts", [] { stream(3, 2); }, o); add("streams of 2 messages, up to 3 cuts", [] { stream(2, 3); }, o); }
    add("arbitrary bytes", hostile, o);
    add("content and chunk lengths", lengths, o); add("messages of other programs", foreign, o); add("method lines", methods, o); add("large messages", large, o); add("buffer operations", buffer, o);
    Options c; c.concurrent = true; c.maxSteps = 20000; c.bounds = thorough() ? vector<int>{0, 1, 2, 3, 4, 5} : vector<int>{0, 1, 2, 3};
    add("1 sender, partial writes and reads", [] { sockets(1, 3); }, c);
    add("2 senders, partial writes and reads", [] { sockets(2, 2); }, c);
    setRuleText("composed, chunked and arbitrary messages, all prefixes and fragmentations, partial socket writes and reads");
    setBoundsText("");
}
