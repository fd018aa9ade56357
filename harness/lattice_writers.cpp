// F06: the simple and JSON writers print exactly the annotations asked for, in the order of the text, grouped as asked.
#include "vh.hpp"
#include <boost/program_options.hpp>
#include <boost/scoped_ptr.hpp>
#include "annotation_item_manager.hpp"
#include "lattice.hpp"
#include "simple_lattice_writer.hpp"
#include "json_lattice_writer.hpp"
using std::string; using std::vector; using std::map; using std::set;
struct Tpl { int from, to; const char *tags, *cat, *text; };
static const string TEXT = "ab c";
static const Tpl MENU[] = {   // bits 0-7: basic edges, 8-14: groups, 15-17: edges to fall back on
    {0, 2, "token", "A", ""}, {0, 1, "token", "x", "B"}, {1, 3, "token", "x", "C"}, {2, 3, "token", "D", ""}, {3, 4, "token,x", "y", "E"}, {0, 2, "x", "z", "F"}, {2, 4, "token", "G", "G\"\\"}, {0, 2, "token", "K", "discarded"},
    {0, 2, "g", "g", ""}, {2, 4, "g", "g", ""}, {1, 3, "g", "g", ""}, {0, 4, "g", "g", ""}, {0, 4, "h", "h", ""}, {0, 2, "h", "h", ""}, {2, 4, "h", "h", ""},
    {0, 1, "f1", "f", "H"}, {3, 4, "f1", "f", "I"}, {1, 2, "f2", "f", "J"} };
static const int NM = 18;
struct Opt { bool linear, noAlts, blank; string tags; vector<string> spec, fall; };

static boost::program_options::variables_map parse(const boost::program_options::options_description& d, const vector<string>& args) {
    boost::program_options::variables_map vm; boost::program_options::store(boost::program_options::command_line_parser(args).options(d).run(), vm); boost::program_options::notify(vm); return vm;
}
static string sepOf(const string& tag) { return tag == "g" ? ";" : tag == "h" ? "\n" : "~"; }
static string sepArg(const string& tag) { return tag == "g" ? ";" : tag == "h" ? "\\n" : "~"; }
static vector<string> args(const Opt& o, bool json, bool withArgs = false) {
    vector<string> a; if (o.linear) a.push_back("--linear"); if (o.noAlts) a.push_back("--no-alts"); if (o.blank) a.push_back("--with-blank"); if (o.tags != "token") { a.push_back("--tags"); a.push_back(o.tags); }
    if (!json) { a.push_back("--sep"); a.push_back("_"); if (o.tags == "x") { a.push_back("--alt-sep"); a.push_back("/"); } }
    if (o.spec.size()) { a.push_back("--spec"); for (auto& s : o.spec) { a.push_back(s); if (!json) a.push_back(sepArg(s)); } }
    if (o.fall.size()) { a.push_back("--fallback-tags"); for (auto& s : o.fall) a.push_back(s); }
    if (withArgs) a.push_back("--with-args");
    return a;
}
static string written(Lattice& l, const vector<string>& a, bool json) {
    static SimpleLatticeWriter::Factory sf; static JSONLatticeWriter::Factory jf; LatticeWriterFactory<std::ostream>& f = json ? (LatticeWriterFactory<std::ostream>&)jf : (LatticeWriterFactory<std::ostream>&)sf;
    boost::scoped_ptr<LatticeWriter<std::ostream> > w(f.createLatticeWriter(parse(f.optionsHandled(), a)));
    std::ostringstream o; w->writeLattice(l, o); return o.str();
}
// JSON, strictly ----------------------------------------------------------------------------------------------------------
struct J { char kind; string s; vector<J> a; vector<std::pair<string, J> > o; };
struct Reader {
    const string& t; size_t p = 0; bool bad = false; Reader(const string& t) : t(t) {}
    bool at(char c) { return p < t.size() && t[p] == c; }
    void ws() { while (p < t.size() && t[p] && strchr(" \n\r\t", t[p])) ++p; }
    string str() {
        string r; ++p;
        for (;;) { if (p >= t.size() || (unsigned char)t[p] < 32) { bad = true; return r; } char c = t[p++]; if (c == '"') return r; if (c != '\\') { r += c; continue; }
            if (p >= t.size()) { bad = true; return r; } c = t[p++]; const char* q = strchr("\"\\/bfnrt", c);
            if (q && c) r += "\"\\/\b\f\n\r\t"[q - "\"\\/bfnrt"];
            else if (c == 'u' && p + 4 <= t.size()) { unsigned v = strtoul(t.substr(p, 4).c_str(), 0, 16); for (int k = 0; k < 4; ++k) if (!isxdigit((unsigned char)t[p + k])) bad = true; p += 4; if (v < 128) r += (char)v; else if (v < 2048) { r += (char)(192 | v >> 6); r += (char)(128 | (v & 63)); } else { r += (char)(224 | v >> 12); r += (char)(128 | (v >> 6 & 63)); r += (char)(128 | (v & 63)); } }
            else { bad = true; return r; } }
    }
    J value(int depth = 0) {
        J j; j.kind = '?'; ws();
        if (bad || depth > 50) { bad = true; return j; }
        if (at('"')) { j.kind = 's'; j.s = str(); }
        else if (at('[')) { j.kind = 'a'; ++p; ws(); if (at(']')) ++p; else for (;;) { j.a.push_back(value(depth + 1)); ws(); if (bad) break; if (at(',')) { ++p; continue; } if (at(']')) { ++p; break; } bad = true; break; } }
        else if (at('{')) { j.kind = 'o'; ++p; ws(); if (at('}')) ++p; else for (;;) { ws(); if (!at('"')) { bad = true; break; } string k = str(); ws(); if (!at(':')) { bad = true; break; } ++p; j.o.push_back({k, value(depth + 1)}); ws(); if (bad) break; if (at(',')) { ++p; continue; } if (at('}')) { ++p; break; } bad = true; break; } }
        else bad = true;
        return j;
    }
    J all() { J j = value(); ws(); if (p != t.size()) bad = true; return j; }
};
static string show(const J& j) { if (j.kind == 's') return "<" + j.s + ">"; string r = "["; for (auto& x : j.a) r += show(x); return r + "]"; }
static void flat(const J& j, vector<string>& r) { if (j.kind == 's') r.push_back(j.s); for (auto& x : j.a) flat(x, r); }

// what should be printed --------------------------------------------------------------------------------------------------
struct Elem { vector<string> alts; map<string, int> group; vector<int> opened; map<int, string> kind; int last; };
static string label(const Tpl& t) { return t.text[0] ? t.text : t.cat; }
static bool has(const Tpl& t, const string& tag) { for (auto& x : vh::split(t.tags, ',')) if (x == tag) return true; return false; }
static bool matchesTags(const Tpl& t, const string& spec) { for (auto& alt : vh::split(spec, ';')) { bool ok = true; for (auto& c : vh::split(alt, ',')) if (!has(t, c)) ok = false; if (ok) return true; } return false; }
static bool isBlank(const Tpl& t) { return t.from == 2 && t.to == 3; }
static vector<Elem> expected(unsigned mask, const Opt& o) {
    vector<Tpl> edges; for (int i = 0; i < NM; ++i) if (mask >> i & 1 && i != 7) edges.push_back(MENU[i]);
    static char sy[4][2][4]; vector<Tpl> syms; for (int v = 0; v < 4; ++v) { sy[v][0][0] = TEXT[v]; syms.push_back({v, v + 1, "symbol", "'", sy[v][0]}); }
    vector<Elem> r; map<string, int> end, id; map<int, string> kind; map<string, bool> open; int skipTo = 0, n = 0;
    for (auto& s : o.spec) { open[s] = false; }
    for (int v = 0; v <= 4; ++v) {
        for (auto& s : o.spec) { if (open[s] && end[s] <= v) open[s] = false; if (open[s]) continue; for (auto& e : edges) if (e.from == v && has(e, s)) { open[s] = true; end[s] = e.to; id[s] = ++n; kind[n] = s; break; } }
        vector<Tpl> b; for (auto* list : {&syms, &edges}) for (auto& e : *list) if (e.from == v && matchesTags(e, o.tags) && (o.blank || !isBlank(e))) b.push_back(e);
        for (auto& f : o.fall) { if (!b.empty()) break; for (auto& e : edges) if (e.from == v && has(e, f) && (o.blank || !isBlank(e))) b.push_back(e); }
        if (b.empty() || v < skipTo) continue;
        bool shown = o.spec.empty(); Elem x; for (auto& s : o.spec) { x.group[s] = open[s] ? id[s] : 0; if (open[s]) shown = true; }
        if (!shown) continue;
        if (o.linear) skipTo = b[0].to;
        x.kind = kind; x.last = n; for (auto& k : kind) x.opened.push_back(k.first);
        for (auto& e : b) { x.alts.push_back(label(e)); if (o.noAlts) break; }
        r.push_back(x);
    }
    return r;
}
static string describe(unsigned mask, const vector<string>& a) { string r = "options"; for (auto& x : a) r += " " + vh::esc(x); r += "; edges"; for (int i = 0; i < NM; ++i) if (mask >> i & 1) r += string(" ") + vh::num(MENU[i].from) + "-" + vh::num(MENU[i].to) + ":" + MENU[i].tags + (i < 8 || i > 14 ? ":" + label(MENU[i]) : ""); return r; }

static void checkSimple(Lattice& l, unsigned mask, const Opt& o, const vector<Elem>& ex) {
    vector<string> a = args(o, false); string got = written(l, a, false), rest = got; string alt = o.tags == "x" ? "/" : "|"; vh::transitions();
    if (rest.empty() || rest.back() != '\n') { vh::fail("newline", describe(mask, a) + ": the output does not end with a newline: " + vh::esc(got)); return; } rest.pop_back();
    set<string> cand = {""}; string one; bool exact = true;   // all permitted outputs
    for (size_t i = 0; i < ex.size(); ++i) {
        string e; for (auto& x : ex[i].alts) e += (e.empty() ? "" : alt) + x;
        set<string> seps; if (i == 0) seps.insert("");
        else {
            set<string> must; for (auto& t : o.spec) if (ex[i].group.at(t) && ex[i].group.at(t) != ex[i - 1].group.at(t)) must.insert(sepOf(t));
            set<string> may; for (auto& t : o.spec) for (int n : ex[i].opened) if (n > ex[i - 1].last && ex[i].kind.at(n) == t) may.insert(sepOf(t));   // empty units in between
            if (must.empty()) seps.insert(" "); for (string x : must) seps.insert(x); if (must.size() > 1) seps.clear();
            if (must.size() + may.size() > 1 || may.size()) { set<string> all = must; all.insert(may.begin(), may.end()); if (all.size() == 2) { seps.insert(*all.begin() + *all.rbegin()); seps.insert(*all.rbegin() + *all.begin()); } if (must.empty()) for (auto& x : all) seps.insert(x); }
            if (must.empty() && may.size()) exact = false;
        }
        set<string> next; for (auto& c : cand) for (auto& s : seps) next.insert(c + s + e); cand.swap(next);
    }
    if (!cand.count(rest)) { string w; for (auto& c : cand) { if (w.size() < 200) w += (w.empty() ? "" : "' or `") + vh::esc(c); } vh::fail("simple", describe(mask, a) + ": got `" + vh::esc(rest) + "' expected `" + w + "'"); }
    if (exact) vh::nontrivial(); vh::outcome(got);
}
static void checkJson(Lattice& l, unsigned mask, const Opt& o, const vector<Elem>& ex) {
    vector<string> a = args(o, true); string got = written(l, a, true); vh::transitions(); Reader rd(got); J j = rd.all(); string d = describe(mask, a);
    if (rd.bad || j.kind != 'a') { vh::fail("json-invalid", d + ": not valid JSON: " + vh::esc(got)); return; }
    auto elem = [](const Elem& e) { string r; for (auto& x : e.alts) r += "<" + x + ">"; return e.alts.size() > 1 ? "[" + r + "]" : r; };
    if (o.spec.size() < 2) {
        string w = "[", s = o.spec.empty() ? "" : o.spec[0]; int cur = 0;
        for (auto& e : ex) { if (s.size() && e.group.at(s) != cur) { if (cur) w += "]"; w += "["; cur = e.group.at(s); } w += elem(e); }
        if (cur) w += "]"; w += "]"; vh::expectEq(show(j), w, "json", d);
    } else {
        vector<string> f, w; flat(j, f); for (auto& e : ex) for (auto& x : e.alts) w.push_back(x);
        vh::expect(f == w, "json-elements", d + ": the elements of " + vh::esc(got));
        // the larger groups contain the smaller ones
        bool nested = (mask & 0x7f00) == 0x6300; set<int> hs; for (auto& e : ex) hs.insert(e.group.at("h"));
        if (nested && o.tags == "token") { string n = "["; int ch = 0, cg = 0; for (auto& e : ex) { int h = e.group.at("h"), g = e.group.at("g"); if (g != cg && cg) n += "]"; if (h != ch) { if (ch) n += "]"; n += "["; ch = h; } if (g != cg) { n += "["; cg = g; } n += elem(e); } if (cg) n += "]]"; n += "]"; vh::expectEq(show(j), n, hs.size() > 1 ? "json-several-outer-groups" : "json-groups", d); }
    }
    vh::outcome(got);
}
static void build(Lattice& l, unsigned mask) {
    l.appendStringWithSymbols(TEXT);
    for (int i = 0; i < NM; ++i) if (mask >> i & 1) { const Tpl& t = MENU[i]; Lattice::EdgeDescriptor d = l.addEdge(t.from, t.to, AnnotationItem(t.cat, StringFrag(t.text)), l.getLayerTagManager().createTagCollection(t.tags)); if (i == 7) l.discard(d); }
}
static const vector<vector<string> > FALLS = {{}, {"f1"}, {"f1", "f2"}, {"f2", "f1"}};
static const vector<vector<string> > SPECS = {{"g"}, {"h"}, {"g", "h"}, {"h", "g"}};
static void subset(const string& id) {
    unsigned mask = strtoul(id.c_str() + 2, 0, 16); AnnotationItemManager aim; Lattice l(aim); build(l, mask);
    auto both = [&](const Opt& o) { vector<Elem> ex = expected(mask, o); checkSimple(l, mask, o, ex); checkJson(l, mask, o, ex); };
    if (id[0] == 'a') for (int k = 0; k < 8; ++k) for (string tags : {"token", "x", "token,x", "x;token", "nothing"}) for (auto& f : FALLS) { if (f.size() && (mask >> 15) == 0) continue; both({bool(k & 1), bool(k & 2), bool(k & 4), tags, {}, f}); }
    else for (int k = 0; k < 4; ++k) for (auto& s : SPECS) for (string tags : {"token", "symbol"}) { if (tags == "symbol" && mask & 0xfe) continue; both({bool(k & 1), false, bool(k & 2), tags, s, {}}); }
    vh::traces(); vh::state(id);
}
// any text of an annotation, with and without attributes ------------------------------------------------------------------
static void contents(const string& id) {
    auto f = vh::split(id.substr(2), '\x1e'); AnnotationItemManager aim; Lattice l(aim); l.appendStringWithSymbols("ab");
    AnnotationItem ai(f[0], StringFrag(f[1])); map<string, string> vals;
    for (size_t i = 2; i + 1 < f.size(); i += 2) { aim.setValue(ai, f[i], f[i + 1]); vals[f[i]] = f[i + 1]; }
    LayerTagCollection tok = l.getLayerTagManager().createSingletonTagCollection("token"); l.addEdge(0, 1, ai, tok); l.addEdge(1, 2, AnnotationItem("Z"), tok);
    string lab = f[1].empty() ? f[0] : f[1]; vh::transitions(3);
    vh::expectEq(written(l, {"--sep", "/"}, false), lab + "/Z\n", "simple-text", "simple-writer, " + vh::esc(id));
    { string got = written(l, {}, true); Reader r(got); J j = r.all(); vh::expect(!r.bad && j.a.size() == 2 && j.a[0].kind == 's' && j.a[0].s == lab && j.a[1].s == "Z", "json-text", "category " + vh::esc(f[0]) + " text " + vh::esc(f[1]) + ": " + vh::esc(got)); }
    { string got = written(l, {"--with-args"}, true); Reader r(got); J j = r.all(); bool ok = !r.bad && j.a.size() == 2 && j.a[0].kind == 'o' && j.a[0].o.size() == 3;
      if (ok) { auto& o = j.a[0].o; set<string> keys; string cat, text; map<string, string> v; size_t nv = 0; for (auto& p : o) { keys.insert(p.first); if (p.first == "category") cat = p.second.s; if (p.first == "text") text = p.second.s; if (p.first == "values") { for (auto& q : p.second.o) { v[q.first] = q.second.s; ++nv; } if (p.second.kind != 'o') ok = false; } } ok = ok && keys.size() == 3 && cat == f[0] && text == f[1] && v == vals && nv == vals.size(); }
      vh::expect(ok, "json-args", "category " + vh::esc(f[0]) + " text " + vh::esc(f[1]) + " and " + vh::num(vals.size()) + " values: " + vh::esc(got)); }
    vh::traces(); vh::state(id);
}
// separators ---------------------------------------------------------------------------------------------------------------
static void separators(const string& id) {   // sep, alt-sep and spec separator written with escapes
    auto f = vh::split(id.substr(2), '\x1e'); AnnotationItemManager aim; Lattice l(aim); l.appendStringWithSymbols("abcd"); LayerTagManager& m = l.getLayerTagManager();
    for (int i = 0; i < 4; ++i) { l.addEdge(i, i + 1, AnnotationItem(string(1, 'P' + i)), m.createSingletonTagCollection("token")); if (i == 1) l.addEdge(1, 2, AnnotationItem("W"), m.createSingletonTagCollection("token")); if (i % 2 == 0) l.addEdge(i, i + 2, AnnotationItem("G"), m.createSingletonTagCollection("g")); }
    auto plain = [](const string& s) { string r; for (size_t i = 0; i < s.size(); ++i) if (s[i] == '\\' && i + 1 < s.size()) { ++i; r += s[i] == 'n' ? '\n' : s[i] == 't' ? '\t' : s[i] == '_' ? ' ' : s[i]; } else r += s[i] == '_' ? ' ' : s[i]; return r; };
    (void)plain; string s = vh::unesc(f[3]), a = vh::unesc(f[4]), g = vh::unesc(f[5]); vh::transitions();
    vh::expectEq(written(l, {"--sep", f[0], "--alt-sep", f[1], "--spec", "g", f[2]}, false), "P" + s + "Q" + a + "W" + g + "R" + s + "S\n", "separators", "separators " + f[0] + " " + f[1] + " " + f[2]);
    vh::traces(); vh::state(id);
}
void vh_run(const string& id) { switch (id[0]) { case 'a': case 'g': subset(id); break; case 's': separators(id); break; default: contents(id); } }
void vh_enumerate(vh::Emit& emit) {
    char b[32]; auto E = [&](char c, unsigned m) { snprintf(b, sizeof b, "%c %x", c, m); emit(b); };
    for (int bits = 0; bits <= 18; ++bits) for (unsigned m = 0; m < 1u << 18; ++m) {
        if (__builtin_popcount(m) != bits) continue; unsigned tok = m & 0xff, gr = m >> 8 & 0x7f, fb = m >> 15;
        if (gr == 0 && (vh::thorough() || fb == 0 || __builtin_popcount(tok) <= 3)) E('a', m);
        if (gr && fb == 0 && (tok & 0xa0) == 0 && (vh::thorough() || __builtin_popcount(tok) <= 3 || __builtin_popcount(gr) <= 2)) E('g', m);
    }
    const char S = '\x1e'; vector<string> T = {"a", "\"", "\\", "/", "\n", "\t", "\r", "\b", "\f", "\x01", "\x1f", " ", "\xc5\xbc", "\xe2\x82\xac", "'", "[", "{", ",", ":"};
    vh::strings(T, vh::thorough() ? 3 : 2, [&](const string& s) { emit("c c" + string(1, S) + s); emit("c " + ("c" + s) + S); emit(string("c c") + S + "t" + S + "k" + S + "v" + s + S + "l" + S + "w"); emit(string("c c") + S + "t" + S + "k" + s + S + "1"); }, 1);
    vector<std::pair<string, string> > seps = {{",", ","}, {"\\n", "\\n"}, {"_", " "}, {"\\_", "_"}, {"\\t", "\\x09"}, {"ab", "ab"}, {"\xc5\xbc", "\\xc5\\xbc"}, {"<b>", "<b>"}};
    for (auto& x : seps) for (auto& y : seps) for (auto& z : seps) emit("s " + x.first + S + y.first + S + z.first + S + x.second + S + y.second + S + z.second);
}
