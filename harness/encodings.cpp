// U03: texts are converted from (and to) the supported encodings as a whole, against the conversions of the C library.
#include "vh.hpp"
#include "encoding_converter.hpp"
#include <iconv.h>
#include <set>
using std::string; using std::vector;
// bytes: bytes for longer texts; skip: bytes that the standards (or their versions) map differently
struct Enc { const char *name, *lib; int kind; string skip; };
static const Enc ENC[] = {{"windows-1250", "CP1250", 1}, {"windows-1251", "CP1251", 1}, {"windows-1252", "CP1252", 1}, {"windows-1253", "CP1253", 1}, {"windows-1254", "CP1254", 1}, {"windows-1255", "CP1255", 1}, {"windows-1256", "CP1256", 1}, {"windows-1257", "CP1257", 1}, {"windows-1258", "CP1258", 1},
    {"ISO-8859-1", "ISO-8859-1", 1}, {"ISO-8859-2", "ISO-8859-2", 1}, {"ISO-8859-3", "ISO-8859-3", 1}, {"ISO-8859-4", "ISO-8859-4", 1}, {"ISO-8859-5", "ISO-8859-5", 1}, {"ISO-8859-6", "ISO-8859-6", 1}, {"ISO-8859-7", "ISO-8859-7", 1}, {"ISO-8859-8", "ISO-8859-8", 1}, {"ISO-8859-9", "ISO-8859-9", 1}, {"ISO-8859-10", "ISO-8859-10", 1}, {"ISO-8859-11", "ISO-8859-11", 1}, {"ISO-8859-13", "ISO-8859-13", 1}, {"ISO-8859-14", "ISO-8859-14", 1}, {"ISO-8859-15", "ISO-8859-15", 1}, {"ISO-8859-16", "ISO-8859-16", 1},
    {"CP866", "CP866", 1}, {"IBM866", "CP866", 1}, {"KOI8-R", "KOI8-R", 1}, {"KOI8-RU", "KOI8-RU", 1}, {"KOI8-U", "KOI8-U", 1}, {"x-mac-cyrillic", "MAC-CYRILLIC", 1},
    {"GBK", "GBK", 2}, {"GB-2312", "EUC-CN", 2}, {"GB2312", "EUC-CN", 2}, {"CP936", "CP936", 2}, {"UCS-2", "UCS-2BE", 2}, {"Big5", "BIG5", 2}, {"ISO-2022-JP", "ISO-2022-JP", 2}, {"UTF-7", "UTF-7", 2}, {"UTF-8", "UTF-8", 2}};
static const int N = sizeof ENC / sizeof *ENC;
// conversion by the C library: 0 valid, 1 invalid, 2 valid but cut in the last character
static int lib(const string& from, const string& to, const string& s, string& out) {
    static std::map<std::pair<string, string>, iconv_t> open; auto& c = open[{to, from}]; if (!c) { c = iconv_open(to.c_str(), from.c_str()); if (c == (iconv_t)-1) throw vh::InternalError("iconv " + from); }
    iconv(c, 0, 0, 0, 0); string b(s.size() * 8 + 64, 0); char *i = const_cast<char*>(s.data()), *o = &b[0]; size_t n = s.size(), m = b.size();
    int r = 0; if (iconv(c, &i, &n, &o, &m) == (size_t)-1) r = errno == EINVAL ? 2 : 1; iconv(c, 0, 0, &o, &m); out = b.substr(0, b.size() - m); return r;
}
static EncodingConverter& conv() { static EncodingConverter c("UTF-8"); return c; }
static string hex(const string& s) { string h; for (unsigned char c : s.substr(0, 12)) { char b[4]; snprintf(b, 4, "%02x", c); h += b; } return h + (s.size() > 12 ? "..." + vh::num(s.size()) : ""); }

// Where the tables of the two libraries differ for reasons of their own (versions of the standards, private use areas, byte order marks).
static bool apart(const Enc& e, const string& bytes) {
    string n = e.name; if (bytes.size() > 64) return false;
    if (n == "UCS-2") { for (size_t i = 0; i + 1 < bytes.size(); i += 2) { unsigned w = (unsigned char)bytes[i] << 8 | (unsigned char)bytes[i + 1]; if (w == 0xfeff || w == 0xfffe) return true; } return false; }
    if (n == "windows-1258") return bytes.find("\xa5\xec") != string::npos || bytes.find("\xa8\xec") != string::npos;
    if (n == "KOI8-RU" || n == "x-mac-cyrillic") { for (unsigned char c : bytes) if ((n == "KOI8-RU" && c >= 0x80 && c < 0xc0) || c == 0xa2 || c == 0xb6 || c == 0xff) return true; return false; }
    if (n == "ISO-2022-JP") { for (size_t i = 0; i < bytes.size(); ++i) if (bytes[i] == 27) { string x = bytes.substr(i, 3); if (x != "\x1b$B" && x != "\x1b(B" && x != "\x1b(J" && x != "\x1b$@") return true; } return false; }
    bool multi = n == "GBK" || n == "CP936" || n == "Big5" || n == "GB-2312" || n == "GB2312"; if (!multi) return false;
    for (size_t i = 0; i < bytes.size(); ++i) { unsigned char c = bytes[i]; if (c < 0x80) continue; if (c == 0x80 || c == 0xff) return true; if (n[0] == 'G' && n[1] == 'B' && n != "GBK" && c < 0xa1) return true; unsigned char d = i + 1 < bytes.size() ? bytes[i + 1] : 0;
        if (n == "Big5" && (c < 0xa1 || c >= 0xfa || (c >= 0xc6 && c <= 0xc8) || c == 0xa1 || c == 0xa2 || c == 0xa3 || (c == 0xf9 && d >= 0xd6))) return true;
        if (n == "CP936" && (c == 0x80 || (c >= 0xaa && c <= 0xaf && d >= 0xa1) || (c >= 0xf8 && d >= 0xa1) || (c >= 0xa1 && c <= 0xa9))) return true;
        if (n == "GBK" && c >= 0xa1 && c <= 0xa9) return true; ++i; }
    return false;
}
// the known finding: a last character that a following mark could have joined
static bool pending(const Enc& e, const string& got, string want) { string n = e.name; if ((n != "windows-1255" && n != "windows-1258") || want.empty()) return false; while ((want.back() & 0xc0) == 0x80) want.pop_back(); want.pop_back(); return got == want; }
static void from(const Enc& e, const string& s) {
    vh::transitions(); if (apart(e, s)) return; vh::traces();
    string want; int r = lib(e.lib, "UTF-8", s, want); string got = conv().convert(e.name, s); vh::outcome(hex(got));
    if (r == 1 || e.name == string("UTF-8")) want = s;
    if (got != want && pending(e, got, want)) vh::fail("pending-last-character", string(e.name) + " " + hex(s)); else if (got != want) vh::fail(string(r == 1 ? "invalid " : r == 2 ? "cut " : "to UTF-8 from ") + e.name, hex(s) + ": " + hex(got) + " instead of " + hex(want));
}
static string utf8(unsigned c) { string s; if (c < 0x80) s += char(c); else if (c < 0x800) { s += char(0xc0 | c >> 6); s += char(0x80 | (c & 63)); } else if (c < 0x10000) { s += char(0xe0 | c >> 12); s += char(0x80 | (c >> 6 & 63)); s += char(0x80 | (c & 63)); } else { s += char(0xf0 | c >> 18); s += char(0x80 | (c >> 12 & 63)); s += char(0x80 | (c >> 6 & 63)); s += char(0x80 | (c & 63)); } return s; }
// a text in UTF-8 converted to the encoding and back is the same, and what comes between is what the C library reads as the text
static void to(const Enc& e, const string& s) {
    vh::transitions(); vh::traces(); string n = e.name, in, back; int r = lib("UTF-8", e.lib, s, in); string got = conv().convert("UTF-8", e.name, s); vh::outcome(hex(got));
    bool differs = r == 0 && apart(e, in); if (differs || apart(e, got)) return;
    if (got == s && r == 1) return; // no such character in the encoding
    if (n == "UTF-8") { vh::expectEq(got, s, "from UTF-8 to UTF-8", hex(s)); return; }
    if (n == "windows-1258" && (s.find("\xcc") != string::npos || s.find("\xcd") != string::npos)) { vh::expectEq(hex(got), hex(in), "from UTF-8 to " + n, hex(s)); return; } // marks are joined with letters on the way back
    if (lib(e.lib, "UTF-8", got, back) || back != s) vh::fail("from UTF-8 to " + n, hex(s) + ": " + hex(got) + (r ? "" : " instead of " + hex(in)));
    string again = conv().convert(e.name, "UTF-8", got); if (again != s && pending(e, again, s)) vh::fail("pending-last-character", n + " " + hex(got)); else if (again != s) vh::fail("there and back through " + n, hex(s) + ": " + hex(got) + " and back " + hex(again));
}
// some characters of the encoding (by their bytes), for longer texts
static vector<string> sample(const Enc& e) {
    string n = e.name; if (n == "UTF-7") return {"a", "+AUI-", "+", "-", "+ZeVnLIqe-", "+AGE", "A"}; if (n == "ISO-2022-JP") return {"a", "\x1b$B", "\x1b(B", "\x1b(J", "F|", "\\"}; if (n == "UTF-8") return {"a", "\xc5\x82", "\xe6\x97\xa5", "\xf0\x9f\x98\x80", "\xc5"};
    if (n == "UCS-2") return {string("\0a", 2), string("\1\x42", 2), string("\x65\xe5", 2), string("\0\0", 2), string("\0\n", 2)};
    if (e.kind == 2) return {"a", n == "Big5" ? "\xa4\xe9" : "\xc8\xd5", n == "Big5" ? "\xa5\xbb" : "\xb1\xbe", string(1, 0), "\n", "\xb0"};
    if (n == "windows-1255") return {"a", "\xe0", "\xf9", "\xc8", "\xcc", "\xd1", "\xd2", "\xe5"}; if (n == "windows-1258") return {"a", "A", "\xe2", "\xcc", "\xec", "\xd2", "u", string(1, 0)};
    return {"a", "\xe1", "\xc5", "\xb1", "\xf9", string(1, 0), "\n", "\x80"};
}
void vh_run(const string& id) {
    auto p = vh::split(id, ':'); vh::state(id); auto& e = ENC[p[1] == "" ? 0 : atoi(p[1].c_str())]; int a = p.size() > 2 ? atoi(p[2].c_str()) : 0;
    if (p[0] == "pairs") { from(e, string(1, char(a))); for (int b = 0; b < 256; ++b) { string two = string(1, char(a)) + char(b); from(e, two); from(e, "a" + two + "z"); } }
    if (p[0] == "to") for (unsigned c = a * 256u; c < a * 256u + 256; ++c) if (c < 0xd800 || c > 0xdfff) { to(e, utf8(c)); to(e, "a" + utf8(c) + "+b"); }
    if (p[0] == "words") { auto chars = sample(e); int n = chars.size(); for (int len = 3; len <= (vh::thorough() ? 6 : 4); ++len) { vector<int> w(len, 0); w[0] = a; if (a >= n) return; while (true) { string s, back; for (int c : w) s += chars[c]; from(e, s); if (lib(e.lib, "UTF-8", s, back) == 0 && !apart(e, s)) to(e, back); int i = len - 1; while (i > 0 && ++w[i] == n) w[i--] = 0; if (!i) break; } } }
    if (p[0] == "long") { // texts around the multiples of the size of the buffer, with every shift of the characters
        auto chars = sample(e); int turns = 0; for (auto& c : chars) { string unit; if (lib(e.lib, "UTF-8", c, unit) || unit.empty() || unit == "+" || unit == "-") continue; int size = unit.size(); ++turns; for (int around : {a * 1000}) for (int shift = 0; shift < 4; ++shift) for (int d = -2; d <= 2; ++d) { string s; string one = e.name == string("UCS-2") ? string("\0x", 2) : "x"; for (int i = 0; i < shift; ++i) s += one; for (int i = 0; i < around / size + d; ++i) s += c; from(e, s); } }
        if (!turns) throw vh::InternalError("no characters"); }
    if (p[0] == "longto") for (string unit : {"a", "\xc5\x82", "\xe6\x97\xa5", "\xd1\x8f", "+"}) for (int d = -3; d <= 3; ++d) { string s; for (int i = 0; i < a * 1000 + d; ++i) s += unit; string in; if (lib("UTF-8", e.lib, s, in) == 0) to(e, s); }
    if (p[0] == "names") {
        std::set<string> known; for (auto& n : EncodingConverter::getAllEncodings()) known.insert(n); for (auto& k : ENC) vh::expect(known.count(k.name), "a supported encoding is not listed", k.name);
        for (string n : {"", "nothing", "UTF8", "utf-8", "latin1", "ISO-8859-12", " UTF-8"}) if (!known.count(n)) for (string s : {string("a\xb1"), string("\xc5\x82"), string("a\0b", 3)}) { vh::expectEq(conv().convert(n, s), s, "unknown source", n); vh::expectEq(conv().convert("ISO-8859-2", n, s), s, "unknown target", n); vh::expectEq(EncodingConverter(n).convert("ISO-8859-2", s), s, "unknown default target", n); vh::traces(3); }
        for (auto& k : ENC) for (string s : {string("a\xb1"), string("\xc5\x82"), string("a\0b", 3)}) { vh::expectEq(conv().convert(k.name, k.name, s), s, "to itself", k.name); vh::expectEq(conv().convert(EncodingConverter::ASCII, k.name, s), s, "from ASCII", k.name); EncodingConverter other(k.name); vh::expectEq(other.getTargetEncoding(), k.name, "target", ""); vh::expectEq(other.convert("UTF-8", s), conv().convert("UTF-8", k.name, s), "the default target", k.name); vh::expectEq(other.convert("ISO-8859-2", s), conv().convert("ISO-8859-2", k.name, s), "the default target", k.name); vh::traces(4); }
    }
    if (p[0] == "detect") { // a text whose encoding is detected is converted from it; an encoding which is detected and supported under some name is known
        static const char* TEXTS[] = {"Za\xc5\xbc\xc3\xb3\xc5\x82\xc4\x87 g\xc4\x99\xc5\x9bl\xc4\x85 ja\xc5\xba\xc5\x84. ", "\xd0\x92 \xd0\xbd\xd0\xb0\xd1\x87\xd0\xb0\xd0\xbb\xd0\xb5 \xd0\xb1\xd1\x8b\xd0\xbb\xd0\xbe \xd1\x81\xd0\xbb\xd0\xbe\xd0\xb2\xd0\xbe, \xd0\xb8 \xd1\x81\xd0\xbb\xd0\xbe\xd0\xb2\xd0\xbe \xd0\xb1\xd1\x8b\xd0\xbb\xd0\xbe \xd1\x83 \xd0\xb1\xd0\xbe\xd0\xb3\xd0\xb0. ", "\xd7\xa9\xd7\x9c\xd7\x95\xd7\x9d \xd7\xa2\xd7\x95\xd7\x9c\xd7\x9d, \xd7\x90\xd7\xa0\xd7\x99 \xd7\x9b\xd7\x90\xd7\x9f. ", "\xe6\x97\xa5\xe6\x9c\xac\xe8\xaa\x9e\xe3\x81\xae\xe6\x96\x87\xe7\xab\xa0\xe3\x81\xa7\xe3\x81\x99\xe3\x80\x82", "\xe6\x88\x91\xe4\xbb\xac\xe7\x9a\x84\xe4\xb8\xad\xe6\x96\x87\xe8\xaf\xad\xe8\xa8\x80\xe5\xbe\x88\xe5\xa5\xbd\xef\xbc\x8c", "\xce\x97 \xce\xb3\xce\xbb\xcf\x8e\xcf\x83\xcf\x83\xce\xb1 \xce\xbc\xce\xb1\xcf\x82 \xce\xb5\xce\xaf\xce\xbd\xce\xb1\xce\xb9 \xce\xb7 \xce\xb5\xce\xbb\xce\xbb\xce\xb7\xce\xbd\xce\xb9\xce\xba\xce\xae. "};
        std::set<string> known; for (auto& n : EncodingConverter::getAllEncodings()) known.insert(n);
        for (auto t : TEXTS) for (int times : {1, 3, 20}) { string text, in; for (int i = 0; i < times; ++i) text += t; if (lib("UTF-8", e.lib, text, in)) continue; string found = conv().detect(in), want; vh::outcome(string(e.name) + "/" + found); vh::traces();
            vh::expectEq(found, conv().detect(in), "detected twice", hex(in)); vh::expectEq(conv().convert(in) == conv().convert(found, in), true, "converted from what was detected", e.name);
            for (auto& k : ENC) if (found == k.name || found == k.lib) vh::expect(known.count(found), "detected and supported but unknown", found);
            if (found == "UTF-8" || found == EncodingConverter::ASCII) vh::expect(conv().convert(in) == in, "converted though UTF-8", hex(in)); }
    }
}
void vh_enumerate(vh::Emit& emit) {
    int high = vh::thorough() ? 0x1100 : 0x100;
    for (int e = 0; e < N; ++e) { string E = vh::num(e); emit("names:" + E); emit("detect:" + E); for (int a = 0; a < 256; ++a) emit("pairs:" + E + ":" + vh::num(a)); for (int a = 0; a < (e < 30 ? 0x100 : high); ++a) emit("to:" + E + ":" + vh::num(a)); for (int a = 0; a < 8; ++a) emit("words:" + E + ":" + vh::num(a)); for (int a : {0, 50, 100, 200, 300, 400}) if (a < 300 || vh::thorough()) { emit("long:" + E + ":" + vh::num(a)); emit("longto:" + E + ":" + vh::num(a)); } }
}
