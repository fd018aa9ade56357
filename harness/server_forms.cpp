// H03: the values of a form reach the application exactly as they were sent.
#include "vh.hpp"
#include "psi_server.hpp"
#include "session_manager.hpp"
#include "Parser.h"
#include <fstream>
#include <sys/stat.h>
using std::string; using std::vector; using std::map;
static vector<string> NAMES; static map<string, string> GOT; static int CALLED;
static char* action(PsiServer* s) { ++CALLED; for (auto& n : NAMES) GOT[n] = s->session()->getData(n); char* r = new char[3]; strcpy(r, "/x"); return r; }
static PsiServer& server() { static PsiServer* s; if (!s) { mkdir("root", 0755); s = new PsiServer("127.0.0.1", "0", "1", "root"); s->registerActionCode("act", action); s->registerActionCode("d/act", action); } return *s; }
static int hx(char c) { return isdigit((unsigned char)c) ? c - '0' : isxdigit((unsigned char)c) ? (c | 32) - 'a' + 10 : -1; }
static string dec(const string& s) { string r; for (size_t i = 0; i < s.size(); ++i) if (s[i] == '+') r += ' '; else if (s[i] == '%' && i + 2 < s.size() && hx(s[i + 1]) >= 0 && hx(s[i + 2]) >= 0) { r += (char)(hx(s[i + 1]) * 16 + hx(s[i + 2])); i += 2; } else r += s[i]; return r; }
static string show(const map<string, string>& m) { string r; for (auto& p : m) r += vh::esc(p.first) + "=" + vh::esc(p.second) + ";"; return r; }
static void send(http::server3::request& req, const map<string, string>& want, const string& what) {
    NAMES.clear(); for (auto& p : want) NAMES.push_back(p.first);
    // values of a previous form must not leak into this one: each request has a session of its own
    GOT.clear(); CALLED = 0; PsiRequestHandler h("root", &server()); http::server3::reply rep; h.handle_request(req, rep);
    vh::expectEq(CALLED, 1, what + "-called", "the number of calls of the action"); vh::expectEq(show(GOT), show(want), what, "the values");
    vh::transitions(); vh::traces(); vh::state(show(want)); vh::outcome(show(want));
}
static const vector<string> FT = {"a", "b", "=", "&", "+", "%41", "%3D", "%26", "%2B", "%", "%4", "%zz", "\xc4\x85", "%C4%85", "%00", "%25", " 1"};
static const vector<string> CT = {"x", "\r\n", "--", "--BB", "-", "\r", "\n", string("\0", 1), "\xff", "BB", "\r\n--B", "\r\n\r\n"};
struct Part { string name, file, content; bool isFile; };
static string body(const vector<Part>& ps, const string& boundary, int style) {
    string r = style & 1 ? "a preamble\r\n" : "";
    for (auto& p : ps) { string cd = "Content-Disposition: form-data; name=\"" + p.name + "\"" + (p.isFile ? "; filename=\"" + p.file + "\"" : ""), ct = "Content-Type: text/plain";
        r += "--" + boundary + "\r\n" + (p.isFile && (style & 2) ? ct + "\r\n" + cd : p.isFile ? cd + "\r\n" + ct + (style & 4 ? "\r\nX-Y: z" : "") : cd) + "\r\n\r\n" + p.content + "\r\n"; }
    r += "--" + boundary + "--\r\n"; if (style & 8) r += "an epilogue\r\n\r\nwith lines"; return r;
}
void vh_run(const string& id) {
    if (id[0] == 'u') {   // u<how><encoded form>
        map<string, string> want; string f = id.substr(2);
        for (auto& p : vh::split(f, '&')) if (!p.empty()) { size_t e = p.find('='); want[dec(p.substr(0, e))] = e == string::npos ? "" : dec(p.substr(e + 1)); }
        http::server3::request req; req.http_version_major = 1; req.http_version_minor = 0;
        if (id[1] == 'g') { req.method = "GET"; req.uri = "/act.psis?" + f; } else if (id[1] == 'd') { req.method = "GET"; req.uri = "/d/act.psis?" + f; } else { req.method = "POST"; req.uri = "/act.psis"; req.post_data = f; http::server3::header h; h.name = "Content-Type"; h.value = "application/x-www-form-urlencoded"; req.headers.push_back(h); }
        send(req, want, string("urlencoded-") + id[1]); return;
    }
    // m<boundary><style>:<parts>, a part is t or f (text or file) and its content in letters
    size_t c = id.find(':'); string boundary = id[1] == 'b' ? "BB" : id[1] == 'q' ? "BB" : "----WebKitFormBoundaryA1"; int style = atoi(id.substr(2, c - 2).c_str());
    vector<Part> ps; map<string, string> want; size_t n = 0;
    for (auto& s : vh::split(id.substr(c + 1), ',')) { Part p; p.isFile = s[0] == 'f'; p.name = "n" + vh::num(n++); p.file = "f n.t"; for (char ch : s.substr(1)) p.content += CT[ch - 'a'];
        if (("\r\n" + p.content + "\r\n").find("--" + boundary) != string::npos) return;   // a boundary does not occur in the contents
        if (!p.isFile && p.content.find('\0') != string::npos && id[1] != 'z') {} 
        ps.push_back(p); want[p.name] = p.content; if (p.isFile) want[p.name + "-filename"] = p.file; }
    string b = body(ps, boundary, style), type = "multipart/form-data; boundary=" + (id[1] == 'q' ? "\"" + boundary + "\"; charset=utf-8" : boundary);
    http::server3::request req; req.http_version_major = 1; req.http_version_minor = 0; req.method = "POST"; req.uri = "/act.psis"; req.post_data = b; http::server3::header h; h.name = "Content-Type"; h.value = type; req.headers.push_back(h);
    send(req, want, "multipart");
    // the parser itself, the body given in pieces
    auto feed = [&](vector<size_t> cuts) {
        string got; size_t pos = 0; cuts.push_back(b.size());
        try { MPFD::Parser p; p.SetUploadedFilesStorage(MPFD::Parser::StoreUploadedFilesInMemory); p.SetTempDirForFileUpload("."); p.SetContentType(type);
            for (size_t k : cuts) { if (k > pos) { string piece = b.substr(pos, k - pos); p.AcceptSomeData(piece.data(), piece.size()); } pos = std::max(pos, k); }
            map<string, string> m; for (auto& f : p.GetFieldsMap()) if (f.second->GetType() == MPFD::Field::FileType) { m[f.first] = f.second->GetFileContentSize() ? string(f.second->GetFileContent(), f.second->GetFileContentSize()) : ""; m[f.first + "-filename"] = f.second->GetFileName(); vh::expectEq(f.second->GetFileMimeType(), "text/plain", "mime", "the type"); } else m[f.first] = f.second->GetTextTypeContent();
            got = show(m); } catch (MPFD::Exception& e) { got = "exception " + e.GetError(); }
        vh::transitions(cuts.size()); return vh::expectEq(got, show(want), "pieces", "the fields of a body in pieces");
    };
    vector<size_t> one; for (size_t i = 1; i < b.size(); ++i) one.push_back(i); if (!feed(one)) return;
    if (vh::thorough()) { for (size_t i = 0; i < b.size(); ++i) for (size_t j = i; j <= std::min(b.size(), i + 40); ++j) if (!feed({i, j})) return; }
    else for (size_t i = 0; i < b.size(); ++i) if (!feed({i})) return;
}
void vh_enumerate(vh::Emit& emit) {
    bool th = vh::thorough();
    vh::strings(FT, th ? 5 : 4, [&](const string& s) { if (s.empty()) return; for (char h : string("gdp")) if (h != 'd' || s.size() < 4) emit(string("u") + h + s); });
    vector<string> small = {"a", "=", "&", "%41", "+"}; vh::strings(small, th ? 9 : 7, [&](const string& s) { if (!s.empty()) emit("up" + s); });
    vector<string> al; for (size_t i = 0; i < CT.size(); ++i) al.push_back(string(1, 'a' + i));
    for (char bd : string("bw")) for (char k : string("tf")) vh::strings(al, th ? 4 : 3, [&](const string& s) { emit(string("m") + bd + "0:" + k + s); });
    vector<string> few = {"t", "f", "ta", "fa", "tb", "fbc", "tfi", "fh", "tl", "fej"};
    for (char bd : string("bqw")) for (int style = 0; style < 16; ++style) for (auto& a : few) { emit(string("m") + bd + vh::num(style) + ":" + a); for (auto& x : few) emit(string("m") + bd + vh::num(style) + ":" + a + "," + x); }
    if (th) for (auto& a : few) for (auto& x : few) for (auto& y : few) emit("mb0:" + a + "," + x + "," + y);
}
