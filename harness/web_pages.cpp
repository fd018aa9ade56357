// H05 (JSON API) and H06 (pages, with -DPAGES): whatever the pipe and the text, the answer shows them exactly.
#include "vh.hpp"
#include "psi_server.hpp"
#include "session_manager.hpp"
#include "json_site.hpp"
#include "pipe_site.hpp"
#include <boost/filesystem.hpp>
#include <fstream>
using std::string; using std::vector; using std::map;
#include "stub/file_recognizer.hpp"
const string FileRecognizer::UNKNOWN_TYPE = "UKNOWN", FileRecognizer::UNKNOWN_EXTENSION = "UNKNOWN";
static void put(const string& f, const string& c) { std::ofstream o(f.c_str(), std::ios::binary); o << c; }
static string slurp(const string& f) { std::ifstream i(f.c_str(), std::ios::binary); return string((std::istreambuf_iterator<char>(i)), std::istreambuf_iterator<char>()); }
static char* fixed() { return strdup("FIXED"); }
static string RAW; static char* raw() { return strdup(RAW.c_str()); }
static const string DIR = "<!--#psis fixed -->|<!--#psis nothing -->|<!--#psis fixed --><!--#psis fixed-->|<!-- psis --> <!--#psis";
static map<string, string> FILES;    // name -> type
static PsiServer& server() {
    static PsiServer* s; if (s) return *s;
    boost::filesystem::create_directories("root/sub");
    put("root/psitoolkit.html", "<1><!--#psis pipe_site_pipe_text --><2><!--#psis pipe_site_input_text --><3><!--#psis pipe_site_output_text --><4><!--#psis pipe_site_options --><5>");
    put("root/json.html", "<!--#psis json_site_output -->");
    FILES["x.html"] = "text/html"; FILES["x.htm"] = "text/html"; FILES["sub/x.shtml"] = "text/html"; FILES["x.css"] = "text/css"; FILES["x.js"] = "application/javascript"; FILES["sub/x.png"] = "image/png"; FILES["x.pdf"] = "application/pdf"; FILES["x.jpeg"] = "image/jpeg"; FILES["x.tiff"] = "image/tiff"; FILES["x.gif"] = "image/gif"; FILES["x.zip"] = "application/zip"; FILES["x.txt"] = ""; FILES["x"] = ""; FILES["x.html.psi"] = ""; FILES["sub.d/x"] = ""; FILES["x.tar.css"] = "text/css"; FILES["index.html"] = "text/html"; FILES["sub/index.html"] = "text/html";
    boost::filesystem::create_directories("root/sub.d"); for (auto& f : FILES) put("root/" + f.first, DIR);
    s = new PsiServer("127.0.0.1", "0", "1", "root"); s->registerIncludeCode("fixed", fixed); s->registerIncludeCode("raw", raw); put("root/raw.html", "<!--#psis raw --><!--#psis fixed -->|<!--#psis raw -->"); new JsonSite(*s);
#ifdef PAGES
    new PipeSite(*s, "initial | <pipe>", "initial <text>");
#endif
    return *s;
}
static PsiRequestHandler& handler() { static PsiRequestHandler* h = new PsiRequestHandler("root", &server()); return *h; }
static http::server3::reply ask(const string& uri, const string& post = "", const string& cookie = "") {
    http::server3::request r; r.method = post.empty() ? "GET" : "POST"; r.uri = uri; r.post_data = post; r.http_version_major = 1; r.http_version_minor = 0; if (!cookie.empty()) { http::server3::header h; h.name = "Cookie"; h.value = cookie; r.headers.push_back(h); }
    http::server3::reply rep; handler().handle_request(r, rep); vh::transitions(); return rep;
}
static string header(const http::server3::reply& r, const string& n) { string v = "(none)"; int k = 0; for (auto& h : r.headers) if (h.name == n) { v = h.value; ++k; } return k > 1 ? "(several)" : v; }
static string enc(const string& s) { string r; char b[4]; for (unsigned char c : s) { snprintf(b, 4, "%%%02X", c); r += b; } return r; }
// a strict reader of JSON -------------------------------------------------------------------------------------------------
struct Json {
    const string& s; size_t p = 0; bool bad = false; Json(const string& s) : s(s) {}
    void ws() { while (p < s.size() && strchr(" \n\r\t", s[p]) && s[p]) ++p; }
    bool eat(char c) { ws(); if (p < s.size() && s[p] == c) { ++p; return true; } bad = true; return false; }
    string str() {
        string r; if (!eat('"')) return r;
        for (;;) {
            if (p >= s.size()) { bad = true; return r; } unsigned char c = s[p++]; if (c == '"') return r; if (c < 32) { bad = true; return r; }
            if (c != '\\') { r += c; continue; } if (p >= s.size()) { bad = true; return r; } c = s[p++];
            switch (c) { case '"': case '\\': case '/': r += c; break; case 'b': r += '\b'; break; case 'f': r += '\f'; break; case 'n': r += '\n'; break; case 'r': r += '\r'; break; case 't': r += '\t'; break;
            case 'u': { unsigned v = 0; for (int k = 0; k < 4; ++k) { if (p >= s.size() || !isxdigit((unsigned char)s[p])) { bad = true; return r; } v = v * 16 + (isdigit((unsigned char)s[p]) ? s[p] - '0' : tolower(s[p]) - 'a' + 10); ++p; } if (v < 128) r += (char)v; else if (v < 2048) { r += (char)(192 | v >> 6); r += (char)(128 | (v & 63)); } else { r += (char)(224 | v >> 12); r += (char)(128 | (v >> 6 & 63)); r += (char)(128 | (v & 63)); } break; }
            default: bad = true; return r; }
        }
    }
    string value() {   // "s..." for a string, otherwise the raw text
        ws(); if (p < s.size() && s[p] == '"') return "s" + str(); size_t b = p; int depth = 0;
        for (; p < s.size() && !bad; ++p) { if (s[p] == '"') { str(); --p; } else if (s[p] == '[' || s[p] == '{') ++depth; else if (s[p] == ']' || s[p] == '}') { if (!depth) break; --depth; } else if ((s[p] == ',' || s[p] == '\n') && !depth) break; }
        return s.substr(b, p - b);
    }
    map<string, string> object() { map<string, string> r; if (!eat('{')) return r; do { string k = str(); if (!eat(':')) return r; if (r.count(k)) bad = true; r[k] = value(); ws(); } while (p < s.size() && s[p] == ',' && ++p); eat('}'); ws(); if (p != s.size()) bad = true; return r; }
};
static void json(const string& pipe, const string& input) {
    http::server3::reply rep = ask("/json.psis?pipe=" + enc(pipe) + "&input=" + enc(input)); vh::traces();
    Json j(rep.content); map<string, string> o = j.object(); string shown = "pipe [" + vh::esc(pipe) + "] input [" + vh::esc(input) + "]: " + vh::esc(rep.content);
    if (!vh::expect(!j.bad, "malformed", shown)) return;
    vh::expect(o.size() == 4, "keys", shown); vh::expectEq(o["pipe"], "s" + pipe, "pipe", shown); vh::expectEq(o["input"], "s" + input, "input", shown);
    bool err = pipe.find("broken") == 0 || pipe.find("failing") == 0, raw = pipe.find("json-simple-writer") != string::npos;
    if (err) { vh::expectEq(o["output"], "null", "output", shown); vh::expect(o["error"].size() && o["error"][0] == 's' && o["error"].find(pipe.c_str()) != string::npos, "error", shown); }
    else { string out(input.rbegin(), input.rend()); if (raw) out.erase(0, out.find_first_not_of(' ')); vh::expectEq(o["output"], (raw ? "" : "s") + out, "output", shown); vh::expectEq(o["error"], "null", "error", shown); }
    vh::expectEq(header(rep, "Content-Length"), vh::num(rep.content.size()), "length", shown); vh::state(pipe + "\0" + input); vh::outcome(err ? "error" : raw ? "raw" : "text");
}
// the address of the API, whatever follows the question mark
static void address(const string& query) { http::server3::reply rep = ask("/json.psis?" + query); vh::traces(); vh::expectEq(header(rep, "Content-Type"), "text/javascript;charset=UTF-8", "json-type", query); vh::expect(rep.content.size() && rep.content[0] == '{', "json-address", query + ": " + vh::esc(rep.content)); vh::state("q" + query); }
// pages -------------------------------------------------------------------------------------------------------------------------
static bool unhtml(const string& s, string& r) {
    r.clear(); static const map<string, string> E = {{"amp", "&"}, {"lt", "<"}, {"gt", ">"}, {"quot", "\""}, {"apos", "'"}, {"#39", "'"}, {"#34", "\""}, {"#38", "&"}, {"#60", "<"}, {"#62", ">"}, {"#13", "\r"}, {"#10", "\n"}};
    for (size_t i = 0; i < s.size(); ++i) { if (s[i] == '<' || s[i] == '>' || s[i] == '"') return false; if (s[i] != '&') { r += s[i]; continue; } size_t e = s.find(';', i); if (e == string::npos || !E.count(s.substr(i + 1, e - i - 1))) return false; r += E.at(s.substr(i + 1, e - i - 1)); i = e; }
    return true;
}
static bool jsObject(const string& s, map<string, string>& r) {   // { 'a' : 'b', ... };
    size_t p = 0; auto ws = [&] { while (p < s.size() && s[p] == ' ') ++p; }; auto eat = [&](char c) { ws(); if (p < s.size() && s[p] == c) { ++p; return true; } return false; };
    auto str = [&](string& v) { ws(); if (p >= s.size() || (s[p] != '\'' && s[p] != '"')) return false; char q = s[p++]; for (; p < s.size(); ++p) { if (s[p] == q) { ++p; return true; } if (s[p] == '\n' || s[p] == '\r') return false;
        if (s[p] != '\\') { v += s[p]; continue; } if (++p >= s.size()) return false; char c = s[p]; if (c == 'n') v += '\n'; else if (c == 'r') v += '\r'; else if (c == 't') v += '\t'; else if (c == 'x') { v += (char)strtol(s.substr(p + 1, 2).c_str(), 0, 16); p += 2; } else if (c == 'u') { v += (char)strtol(s.substr(p + 1, 4).c_str(), 0, 16); p += 4; } else if (isalnum((unsigned char)c)) return false; else v += c; } return false; };
    if (s.find('<') != string::npos) return false;   // could end the script
    if (!eat('{')) return false; do { string k, v; if (!str(k) || !eat(':') || !str(v)) return false; r[k] = v; } while (eat(',')); if (!eat('}') || !eat(';')) return false; ws(); return p == s.size();
}
static void page(const string& pipe, const string& input, char style) {
    string p = "pipe-text=" + enc(pipe) + "&input-text=" + enc(style == 'f' ? "typed" : input); string radio = style == 'f' ? "on" : style == 'r' ? input : ""; if (!radio.empty()) p += "&radio-file=" + enc(radio); if (style == 'f') p += "&input-file=" + enc(input);
    http::server3::reply rep = style == 'g' ? ask("/pipe.psis?" + p) : ask("/pipe.psis", p); vh::traces();
    string cookie = header(rep, "Set-Cookie"), c = rep.content, shown = "pipe [" + vh::esc(pipe) + "] input [" + vh::esc(input) + "]: " + vh::esc(c), part[4], un;
    size_t at = c.find("<1>"); for (int k = 0; k < 4; ++k) { string a = "<" + vh::num(k + 1) + ">", b = "<" + vh::num(k + 2) + ">"; size_t e = c.find(b, at); if (at == string::npos || c.find(a, at) != at || e == string::npos) { vh::fail("page", shown); return; } part[k] = c.substr(at + 3, e - at - 3); at = e; }
    string typed = style == 'f' ? "typed" : input, run = input.empty() ? "initial <text>" : input, out(run.rbegin(), run.rend()); bool err = pipe.find("broken") == 0 || pipe.find("failing") == 0;
    vh::expect(unhtml(part[0], un) && un == (pipe.empty() ? "initial | <pipe>" : pipe), "pipe", shown); vh::expect(unhtml(part[1], un) && un == (typed.empty() ? "initial <text>" : typed), "input", shown);
    char last = out.empty() ? 0 : out[out.size() - 1]; string o = part[2]; map<string, string> opt; const string PRE = "psisOptions = ";
    if (vh::expect(part[3].find(PRE) == 0 && jsObject(part[3].substr(PRE.size()), opt), "options", shown)) { vh::expectEq(opt["isInputFile"], radio, "radio", shown); vh::expectEq(opt["errorOccured"].empty(), !err, "error-shown", shown); if (err) vh::expect(opt["errorOccured"].find(pipe) != string::npos || pipe.find(" | ") != string::npos, "error-text", shown);
        if (!err) vh::expect(opt["fileToDownload"].find("NOWN") == string::npos, "download-name", shown);
        if (!err) { http::server3::reply file = ask(opt["fileToDownload"], "", cookie); vh::expectEq(file.content, out, "download", "the stored output " + opt["fileToDownload"] + ", " + shown); vh::expectEq(header(file, "Content-Length"), vh::num(out.size()), "download-length", shown); boost::filesystem::remove("root" + opt["fileToDownload"]); } }
    if (!err) {
        string pre = "<pre>", end = "</pre>"; size_t e = o.rfind(end);
        if (last == 'V') vh::expectEq(o, out, "svg", shown); else if (last == 'P') vh::expect(o.find("<img src=\"" + opt["fileToDownload"] + "\"") != string::npos, "png", shown); else if (last == 'D') vh::expect(o.find("<pre>") == string::npos, "binary", shown);
        else if (vh::expect(o.find(pre) == 0 && e != string::npos, "output", shown)) vh::expect(unhtml(o.substr(pre.size(), e - pre.size()), un) && un == out, "output", shown);
    }
    vh::expectEq(header(rep, "Content-Length"), vh::num(c.size()), "length", shown); vh::expectEq(header(rep, "Content-Type"), "text/html;charset=UTF-8", "type", shown); vh::state(pipe + "\0" + input + style); vh::outcome(string(1, last) + style + (err ? "e" : ""));
}
// values put into a page are left alone, whatever they look like
static void values(const string& v) { RAW = v; http::server3::reply rep = ask("/raw.html"); vh::traces(); vh::expectEq(rep.content, v + "FIXED|" + v, "value", "a page with " + vh::esc(v)); vh::expectEq(header(rep, "Content-Length"), vh::num(rep.content.size()), "length", vh::esc(v)); vh::state("v" + v); }
static void staticFile(const string& uri) {
    http::server3::reply rep = ask(uri); vh::traces(); string name; for (char c : uri) if (c != '/' || name.empty() || name.back() != '/') name += c; name.erase(0, 1); if (name.empty() || name.back() == '/') name += "index.html"; bool found = FILES.count(name); string type = found ? FILES[name] : "text/html", shown = vh::esc(uri) + ": " + vh::esc(rep.content);
    if (!found) { vh::expect(rep.status == http::server3::reply::not_found || rep.status == http::server3::reply::bad_request, "missing", shown); vh::expect(header(rep, "Content-Type").find("text/html") == 0, "missing-type", shown + " served as " + header(rep, "Content-Type")); }
    else { vh::expect(rep.status == http::server3::reply::ok, "found", shown); bool html = type == "text/html"; vh::expectEq(rep.content, html ? "FIXED||FIXED|<!-- psis --> <!--#psis" : DIR, html ? "includes" : "verbatim", shown); if (!type.empty()) vh::expectEq(header(rep, "Content-Type"), type + ";charset=UTF-8", "type", shown); }
    vh::expectEq(header(rep, "Content-Length"), vh::num(rep.content.size()), "length", shown); vh::state(uri); vh::outcome(type);
}
void vh_run(const string& id) {
    server(); vector<string> f = vh::split(id.substr(2), '\x1e');
    switch (id[0]) { case 'j': json(vh::unesc(f[0]), vh::unesc(f[1])); break; case 'q': address(id.substr(2)); break; case 'v': values(vh::unesc(f[0])); break; case 's': staticFile(id.substr(2)); break; default: page(vh::unesc(f[0]), vh::unesc(f[1]), id[1]); }
}
void vh_enumerate(vh::Emit& emit) {
    auto two = [&](const string& k, const string& a, const string& b) { emit(k + vh::esc(a) + "\x1e" + vh::esc(b)); };
    string NUL(1, '\0');
#ifndef PAGES
    vector<string> T = {"a", "\"", "\\", "/", "\n", "\r", "\t", "\b", "\f", NUL, "\x01", "\x1f", "\x7f", "é", "€", "\xff", "<", "&", "u0041", "<!--#psis json_site_output -->", "%", "+", " ", "{", "b", "'"};
    int d = vh::thorough() ? 4 : 3;
    vh::strings(T, d, [&](const string& s) { two("j ", "p", s); }); vh::strings(T, d, [&](const string& s) { if (!s.empty()) two("j ", s, "x"); });
    vh::strings(T, d - 1, [&](const string& s) { two("j ", "broken" + s, "x"); two("j ", "failing" + s, "x"); two("j ", "json-simple-writer", "]\"" + string("a") + "\"[" + string(s.size() % 3, ' ')); if (s.size() < 3) two("j ", s + "q", s); });
    for (string raw : {"[]", "[\"a\\\"b\"]", "{\"x\":[1,2,{}]}", "null", "1", "[\n\"a\"\n]"}) two("j ", "txt ! json-simple-writer --x", string(raw.rbegin(), raw.rend()));
    vh::strings({"a", "?", "/", ".", "=", "&", ".png", "pipe=", "input=", ".psis?"}, vh::thorough() ? 6 : 5, [&](const string& s) { emit("q " + s); });
#else
    vector<string> T = {"a", "&", "<", ">", "\"", "'", ";", "amp;", "&lt;", "\\", "\n", "\r", "</textarea>", "</script>", "<!--#psis fixed -->", "<!--#psis pipe_site_pipe_text -->", "-->", " | ", "é", "\xff", "read", "-c ", "U", "P", "V", "D", "X", "H"};
    int d = 3;
    vh::strings(T, d, [&](const string& s) { two("pp", "p", s); two("pp", s, "x"); if (vh::thorough() || s.size() < 8) two("pg", s, s); });
    vh::strings(T, vh::thorough() ? 3 : 2, [&](const string& s) { two("pr", "p", s); two("pf", "p", s); two("pf", s, "x" + s); two("pp", "broken" + s, "x"); two("pg", "failing" + s, s); });
    vh::strings({"a", "<", "<!--#psis", " ", "fixed", "raw", "-->", "<!--#psis fixed -->", "<!--#psis raw -->", "<!--#psis x -->", "--", "\n"}, vh::thorough() ? 6 : 5, [&](const string& s) { emit("v " + vh::esc(s)); });
    vh::strings({"/", "x", ".html", ".css", ".png", ".txt", "sub", "index", "?", ".psi", ".d", ".jpeg", ".js"}, vh::thorough() ? 6 : 5, [&](const string& s) { emit("s /" + s); });
    for (auto& f : {"x.html", "x.htm", "sub/x.shtml", "x.css", "x.js", "sub/x.png", "x.pdf", "x.jpeg", "x.tiff", "x.gif", "x.zip", "x.txt", "x", "x.html.psi", "sub.d/x", "x.tar.css", "index.html"}) emit(string("s /") + f);
#endif
}
