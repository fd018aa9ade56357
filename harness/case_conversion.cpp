// U01: case conversion of every code point and of all short strings, against the case mappings of Unicode.
#include "vh.hpp"
#include "string_case_converter_manager.hpp"
#include "simple_convert.hpp"
#include <map>
using std::string; using std::vector; typedef vector<unsigned> U;
struct Rec { unsigned c; const char *s[3]; };
static const Rec TABLE[] = {
#include "unicode_case.inc"
};
static string utf(unsigned c) { string r; if (c < 0x80) r += char(c); else if (c < 0x800) { r += char(0xc0 | c >> 6); r += char(0x80 | (c & 63)); } else if (c < 0x10000) { r += char(0xe0 | c >> 12); r += char(0x80 | (c >> 6 & 63)); r += char(0x80 | (c & 63)); } else { r += char(0xf0 | c >> 18); r += char(0x80 | (c >> 12 & 63)); r += char(0x80 | (c >> 6 & 63)); r += char(0x80 | (c & 63)); } return r; }
static string utf(const U& u, size_t a = 0, size_t b = string::npos) { string r; for (size_t i = a; i < u.size() && i < b; ++i) r += utf(u[i]); return r; }
static const std::map<unsigned, const Rec*>& table() { static std::map<unsigned, const Rec*> m; if (m.empty()) for (auto& r : TABLE) m[r.c] = &r; return m; }
static string conv(const U& u, size_t a, size_t b, int k, bool turkic) {
    string r; for (size_t i = a; i < u.size() && i < b; ++i) { unsigned c = u[i];
        if (turkic && k == 0) { if (c == 0x49) { r += i + 1 < u.size() && i + 1 < b && u[i + 1] == 0x307 ? "i" : "\xc4\xb1"; continue; } if (c == 0x130) { r += "i"; continue; } if (c == 0x307 && i > a && u[i - 1] == 0x49) continue; }
        if (turkic && k && c == 0x69) { r += "\xc4\xb0"; continue; }
        auto f = table().find(c); r += f != table().end() && f->second->s[k] ? f->second->s[k] : utf(c); }
    return r;
}
static const char* LANGS[] = {"pl", "tr", "az", "", "en"};
typedef boost::shared_ptr<GeneralCaseConverter<string::const_iterator, std::back_insert_iterator<string> > > Conv;
static Conv converter(int k, int l) { static Conv c[3][5]; Conv& r = c[k][l]; if (!r) { auto& m = StringCaseConverterManager::getInstance(); r = k == 0 ? m.getLowerCaseConverter(LANGS[l]) : k == 1 ? m.getUpperCaseConverter(LANGS[l]) : m.getTitleCaseConverter(LANGS[l]); } return r; }
static const char* NAMES[] = {"lower", "upper", "title"};
static void check(const U& u, int k, int l) {
    auto& c = *converter(k, l); bool t = l == 1 || l == 2; string s = utf(u), where = string(NAMES[k]) + " case, language `" + LANGS[l] + "', `" + s + "'"; string all = conv(u, 0, u.size(), k, t), head = conv(u, 0, 1, k, t) + utf(u, 1), tail = utf(u, 0, 1) + conv(u, 1, u.size(), k, t);
    vh::expectEq(simpleConvert(c, s), all, "whole", where); vh::expectEq(simpleHeadConvert(c, s), head, "head", where); vh::expectEq(simpleTailConvert(c, s), tail, "tail", where);
    vh::expectEq(simpleWillBeTouchedWhenConverted(c, s), all != s, "touched", where); vh::expectEq(simpleWillBeTouchedWhenHeadConverted(c, s), head != s, "touched-head", where); vh::expectEq(simpleWillBeTouchedWhenTailConverted(c, s), tail != s, "touched-tail", where);
    vh::outcome(all + "/" + head + "/" + tail); vh::transitions(6); vh::traces();
}
static const unsigned PICK[] = {'a', 'Z', '1', 'i', 'I', 0x130, 0x131, 0x307, 0xdf, 0x141, 0x142, 0x149, 0x1c4, 0x1c5, 0x20ac, 0x587, 0x10400, 0x10428, 0xfb03, 0x3c3};
void vh_run(const string& id) {
    auto p = vh::split(id, ':'); if (p[0] == "l") { for (int k = 0; k < 3; ++k) { bool refused = false; auto& m = StringCaseConverterManager::getInstance(); try { if (k == 0) m.getLowerCaseConverter("lt"); else if (k == 1) m.getUpperCaseConverter("lt"); else m.getTitleCaseConverter("lt"); } catch (const PsiException&) { refused = true; } vh::expect(refused, "lt", "Lithuanian is not refused"); } vh::traces(); return; }
    if (p[0] == "c") { unsigned a = atoi(p[1].c_str()); for (unsigned c = a; c < a + 128; ++c) if (c && (c < 0xd800 || c > 0xdfff)) for (int k = 0; k < 3; ++k) for (int l = 0; l < 4; ++l) { check({c}, k, l); if (l < 2) { check({'I', c}, k, l); check({c, 'I', 0x142}, k, l); check({0x1c5, c, 0x307}, k, l); } } vh::state(id); return; }
    U u; for (auto& x : vh::split(p[1], ',')) if (x.size()) u.push_back(PICK[atoi(x.c_str())]); for (int k = 0; k < 3; ++k) for (int l = 0; l < (u.size() > 3 ? 2 : 5); ++l) check(u, k, l); vh::state(id);
}
void vh_enumerate(vh::Emit& emit) {
    emit("l"); emit("s:"); const unsigned n = sizeof PICK / sizeof *PICK; vector<vector<unsigned> > q = {{}}; unsigned depth = vh::thorough() ? 5 : 4;
    for (unsigned d = 1; d <= depth; ++d) { vector<vector<unsigned> > w; for (auto& x : q) for (unsigned i = 0; i < n; ++i) { auto y = x; y.push_back(i); w.push_back(y); string s; for (auto z : y) s += (s.empty() ? "" : ",") + vh::num(z); emit("s:" + s); } if (d < depth) q = w; }
    for (unsigned c = 0; c < 0x110000; c += 128) emit("c:" + vh::num(c));
}
