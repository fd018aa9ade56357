// H02: a static file is served exactly, and nothing outside the website root.
#include "vh.hpp"
#include "server/request_handler.hpp"
#include "server/request.hpp"
#include "server/reply.hpp"
#include <fstream>
#include <sys/stat.h>
#include <unistd.h>
using std::string; using std::vector; using std::map;
using namespace http::server3;
static const vector<string> TOK = {"/", "a.html", "..", ".", "%2e", "%2F", "sub", "%00", "%", "%2", "%g1", "+", "b c.txt", "b%20c.txt", "secret", "index.html", "%5C", "\xc4\x85.css", "%C4%85.css", "root", "%-1", "% 2", "%0x", "%2B.bin", "%25"};
static map<string, string> files() {
    string big; for (int i = 0; i < 1300; ++i) big += (char)(i * 7);
    return {{"/index.html", "INDEX"}, {"/a.html", "<html>\r\n\0x"}, {"/b c.txt", "blank"}, {"/sub/index.html", "SUB"}, {"/sub/a.html", ""}, {"/\xc4\x85.css", string(512, 'c')}, {"/sub/\xc4\x85.css", big}, {"/+.bin", string("\0\x1a\xff", 3) + big.substr(0, 510)}};
}
static string root() {
    static string r; if (!r.empty()) return r;
    mkdir("root", 0755); mkdir("root/sub", 0755);
    for (auto& f : files()) { std::ofstream o("root" + f.first, std::ios::binary); o << f.second; }
    { std::ofstream o("secret"); o << "SECRET"; } { std::ofstream o("a.html"); o << "SECRET"; } { std::ofstream o("index.html"); o << "SECRET"; }
    char buf[4096]; r = string(getcwd(buf, sizeof buf)) + "/root"; return r;
}
static int hexDigit(char c) { return isdigit((unsigned char)c) ? c - '0' : isxdigit((unsigned char)c) ? (c | 32) - 'a' + 10 : -1; }
void vh_run(const string& id) {
    string dir = root(), path; bool ok = true;
    for (size_t i = 0; ok && i < id.size(); ++i) {
        if (id[i] == '%') { if (i + 2 < id.size() && hexDigit(id[i + 1]) >= 0 && hexDigit(id[i + 2]) >= 0) { path += (char)(hexDigit(id[i + 1]) * 16 + hexDigit(id[i + 2])); i += 2; } else ok = false; }
        else path += id[i] == '+' ? ' ' : id[i];
    }
    string wantContent; int want = 404;
    if (!ok || path.empty() || path[0] != '/' || path.find("..") != string::npos) want = 400;
    else {
        if (path.back() == '/') path += "index.html";
        string norm; bool nul = path.find('\0') != string::npos;   // no file has such a name
        for (auto& part : vh::split(path, '/')) if (!part.empty() && part != ".") norm += "/" + part;
        // "x/." and "index.html/." name no file
        static const map<string, string> fs = files(); auto f = fs.find(norm); bool through = false;   // a file is not a directory
        { string p; auto parts = vh::split(path, '/'); for (size_t k = 0; k + 1 < parts.size(); ++k) if (!parts[k].empty() && parts[k] != ".") { p += "/" + parts[k]; if (p != "/sub") through = true; } if (!parts.empty() && parts.back() == ".") through = true; }
        if (f != fs.end() && !nul && !through) { want = 200; wantContent = f->second; }
    }
    request req; req.method = "GET"; req.uri = id; reply rep; request_handler h(dir); h.handle_request(req, rep);
    vh::transitions(); vh::traces(); vh::state(id); vh::outcome(vh::num(want) + wantContent);
    vh::expect(rep.content.find("SECRET") == string::npos, "outside", "a file outside the root is served");
    if (want == 200) { vh::expectEq((int)rep.status, 200, "status", "the status of " + path); vh::expect(rep.content == wantContent, "content", "the content of " + path); }
    else vh::expectEq((int)rep.status, want, "error-status", "the status of " + path);
    bool len = false; for (auto& x : rep.headers) if (x.name == "Content-Length") { len = true; vh::expectEq(x.value, vh::num(rep.content.size()), "length", "Content-Length"); }
    vh::expect(len, "no-length", "no Content-Length");
    // the bytes sent: the status line, the headers, an empty line and the content
    string sent; for (auto& b : rep.to_buffers()) sent.append(boost::asio::buffer_cast<const char*>(b), boost::asio::buffer_size(b));
    string expected = string("HTTP/1.0 ") + (want == 200 ? "200 OK" : want == 400 ? "400 Bad Request" : "404 Not Found") + "\r\n"; for (auto& x : rep.headers) expected += x.name + ": " + x.value + "\r\n"; expected += "\r\n" + rep.content;
    vh::expect(sent == expected, "bytes", "the bytes sent: " + vh::esc(sent.substr(0, 300)) + " instead of " + vh::esc(expected.substr(0, 300)));
}
void vh_enumerate(vh::Emit& emit) {
    bool th = vh::thorough();
    vh::strings(TOK, th ? 4 : 3, [&](const string& s) { emit(s); emit("/" + s); });
    vector<string> small = {"/", "..", "a.html", "%2e", "%2F", "sub", ".", "secret", "root"};
    vh::strings(small, th ? 7 : 6, [&](const string& s) { emit("/" + s); });
    for (int a = 0; a < 256; ++a) for (int b = 0; b < 256; ++b) emit(string("/sub/%") + (char)a + (char)b);
    for (int a = 1; a < 256; ++a) { emit(string("/") + (char)a + "a.html"); emit(string("/sub") + (char)a + "a.html"); emit(string("/a") + (char)a + "html"); }
}
