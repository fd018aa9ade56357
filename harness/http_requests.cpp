// H01: the request read from a connection is the request sent, however it is divided into packets.
#include "vh.hpp"
#include "server/request_parser.hpp"
#include "server/request.hpp"
#include <strings.h>
using std::string; using std::vector;
using namespace http::server3;
// the meaning of the bytes of a request: -1 malformed, 0 incomplete, 1 complete -----------------------------------------
struct Ref {
    int verdict = 0; size_t used = 0; string method, uri, body; int major = 0, minor = 0; vector<std::pair<string, string>> headers;
    static bool ctl(unsigned char c) { return c < 32 || c == 127; }
    static bool token(unsigned char c) { return c > 32 && c < 127 && !strchr("()<>@,;:\\\"/[]?={}", c); }
    string get(const char* n) { string r; for (auto& h : headers) if (!strcasecmp(h.first.c_str(), n)) r = h.second; return r; }
    void parse(const string& s) {
        size_t i = 0; auto bad = [&]() { verdict = -1; used = i + 1; }; auto lit = [&](const char* l) { for (; *l; ++l, ++i) { if (i == s.size()) return false; if (s[i] != *l) { bad(); return false; } } return true; };
        auto number = [&](int& n, char end) { size_t b = i; for (; i < s.size() && isdigit((unsigned char)s[i]); ++i) n = n * 10 + (s[i] - '0'); if (i == s.size()) return false; if (i == b || s[i] != end) { bad(); return false; } ++i; return true; };
        for (; i < s.size() && token(s[i]); ++i) method += s[i];
        if (i == s.size()) return;
        if (method.empty() || s[i] != ' ') return bad();
        for (++i; i < s.size() && s[i] != ' ' && !ctl(s[i]); ++i) uri += s[i];
        if (i == s.size()) return;
        if (s[i] != ' ') return bad();
        ++i;
        if (!lit("HTTP/") || !number(major, '.') || !number(minor, '\r') || !lit("\n")) return;
        for (;;) {
            if (i == s.size()) return;
            if (s[i] == '\r') { ++i; if (!lit("\n")) return; break; }
            bool folded = !headers.empty() && (s[i] == ' ' || s[i] == '\t');
            if (folded) { while (i < s.size() && (s[i] == ' ' || s[i] == '\t')) ++i; if (i == s.size()) return; }
            else {
                if (!token(s[i])) return bad();
                headers.push_back({}); for (; i < s.size() && token(s[i]); ++i) headers.back().first += s[i];
                if (i == s.size()) return;
                if (s[i] != ':') return bad();
                ++i; if (!lit(" ")) return;
            }
            for (; i < s.size() && !ctl(s[i]); ++i) headers.back().second += s[i];
            if (i == s.size()) return;
            if (s[i] != '\r') return bad();
            ++i; if (!lit("\n")) return;
        }
        long n = method == "POST" ? atol(get("Content-Length").c_str()) : 0; if (n < 0) n = 0;
        body = s.substr(i, n); if (body.size() < (size_t)n) return;
        verdict = 1; used = i + n;
    }
    string show() { if (verdict < 0) return "malformed after " + vh::num(used); if (!verdict) return "incomplete"; return describe(method, uri, major, minor, headers, body) + " used " + vh::num(used); }
    static string describe(const string& m, const string& u, int a, int b, const vector<std::pair<string, string>>& h, const string& body) {
        string r = m + " " + u + " " + vh::num(a) + "." + vh::num(b) + "{"; for (auto& x : h) r += x.first + "=" + x.second + ";"; return r + "}" + body; }
};
static string run(const string& s, const vector<size_t>& cuts, bool reuse) {
    request_parser p; request req;
    if (reuse) { request other; string o = "POST /x HTTP/1.0\r\nContent-Length: 9\r\n\r\nabc"; p.parse(other, o.data(), o.data() + o.size()); p.reset(); }
    size_t b = 0; boost::tribool r = boost::indeterminate; size_t used = 0;
    for (size_t k = 0; k <= cuts.size(); ++k) {
        size_t e = k < cuts.size() ? cuts[k] : s.size(); const char* it;
        string part = s.substr(b, e - b);   // a buffer of its own
        boost::tie(r, it) = p.parse(req, part.data(), part.data() + part.size()); used = b + (it - part.data()); vh::transitions();
        if (r || !r) break;
        b = e;
    }
    vh::traces();
    if (r) { vector<std::pair<string, string>> h; for (auto& x : req.headers) h.push_back({x.name, x.value}); return Ref::describe(req.method, req.uri, req.http_version_major, req.http_version_minor, h, req.post_data) + " used " + vh::num(used); }
    if (!r) return "malformed after " + vh::num(used);
    return "incomplete";
}
static const vector<string> TOK = {"GET", "POST", " ", "/a", "HTTP/1.0", "\r\n", "A: b", ":", "\t", "\xc4\x85", "Content-Length: 3", "content-length: 2", "Content-Type: multipart/form-data; boundary=x", "abc", "\r", "\n", "HTTP/", "12.", "3", "x@", "%2F?q=1&", string(1, '\0'), "Content-Length: 0"};
static string decode(const string& ids) { string r; for (char c : ids) r += TOK[c - 'a']; return r; }
void vh_run(const string& id) {   // <mode><tokens or text>
    string s = id[0] == 't' ? decode(id.substr(1)) : id.substr(1);
    Ref ref; ref.parse(s); string want = ref.show(); vh::state(want); vh::outcome(vh::num(ref.verdict) + want.substr(0, 40));
    vh::expectEq(run(s, {}, false), want, "whole", "the request " + vh::esc(s));
    if (id[0] == 't') {   // one byte at a time
        vector<size_t> all; for (size_t i = 1; i < s.size(); ++i) all.push_back(i); vh::expectEq(run(s, all, true), want, "bytes", "the request in one-byte packets " + vh::esc(s)); return;
    }
    for (size_t i = 0; i <= s.size(); ++i) for (size_t j = i; j <= s.size(); ++j) {
        if (!vh::expectEq(run(s, {i, j}, (i + j) & 1), want, "packets", "the request cut at " + vh::num(i) + " and " + vh::num(j) + " " + vh::esc(s))) return;
    }
}
void vh_enumerate(vh::Emit& emit) {
    bool th = vh::thorough();
    vector<string> bodies = {"", "a", "a=b", "a=1&b=%2B", "a\nb", "\r\n", "--x\r\nq\r\n--x--\r\n", string("\0\xff", 2), " x "};
    vector<string> lens = {"Content-Length: ", "content-length: ", "CONTENT-LENGTH: "}, types = {"", "Content-Type: application/x-www-form-urlencoded\r\n", "Content-Type: multipart/form-data; boundary=x\r\n", "content-type: multipart/form-data; boundary=x\r\n", "Content-Type: text/plain\r\n"};
    for (string m : {"GET", "POST", "HEAD"}) for (string u : {"/", "/a.html?x=y z", "*", "/%C4%85\xc4\x85"}) for (string v : {"HTTP/1.0", "HTTP/1.1", "HTTP/10.27", "HTTP/1", "http/1.0"}) emit("c" + m + " " + u + " " + v + "\r\nHost: h\r\nA: b c: d\r\n e\r\nB: \r\n\r\n");
    for (auto& b : bodies) for (auto& l : lens) for (auto& t : types) for (int extra : {0, 1, -1, 3}) { long n = (long)b.size() - extra; if (n < 0) continue; emit("cPOST /p.psis HTTP/1.1\r\n" + t + l + vh::num(n) + "\r\n\r\n" + b); emit("cPOST /p.psis HTTP/1.1\r\n" + l + vh::num(n) + "\r\n" + t + "Cookie: c\r\n\r\n" + b + "GET"); }
    for (auto& t : types) { emit("cPOST /p HTTP/1.0\r\n" + t + "\r\nabc"); emit("cPOST /p HTTP/1.0\r\n" + t + "Content-Length: -5\r\n\r\nabc"); }
    { string al; for (size_t i = 0; i < TOK.size(); ++i) al += 'a' + i; vector<string> a; for (char c : al) a.push_back(string(1, c));
      // a prefix leading to each part of a request, then every sequence of tokens
      for (string p : {"", "acdcef", "acdcefgf", "bcdcefmfkff", "bcdcef"}) vh::strings(a, th ? 5 : 4, [&](const string& x) { emit("t" + p + x); }); }
}
