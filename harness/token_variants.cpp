// N01: normalizers, the spell checker and the detokenizer add exactly what their engines give for the tokens.
#include "vh.hpp"
#include "lattice_model.hpp"
#include "annotator.hpp"
#include "plugin_manager.hpp"
#include "aspell_adapter_interface.hpp"
#include "openfst_adapter_interface.hpp"
#include "simplenorm_normalizer.hpp"
#include "iayko.hpp"
#include "niema.hpp"
#include "psi_aspell.hpp"
#include "detok.hpp"
#include <boost/program_options.hpp>
#include <fstream>
#include <sys/stat.h>
using namespace lm;
// --- engines in place of the plug-ins
static string rewrite(const string& far, const string& fst, const string& t) {
    static const map<string, map<string, string> > R = {
        {"F1", {{"ab", "cd"}, {"cd", "ce"}, {"q", "q r"}, {"a", "aa"}, {"aa", "aaa"}, {"aaa", "a"}, {"e f", "ef"}}}, {"F2", {{"q", "x y z"}, {"ab", "a b"}, {"e f", "g  h"}, {"cd", "dc"}, {"dc", "cd"}, {" ", "_"}, {"b", ""}}}, {"F3", {{"cd", "ab"}, {"ce", "C"}, {"q", "ab cd"}}}
    };
    auto f = R.find(fst); if (far.find("other") != string::npos) return t + "!"; if (f == R.end()) return t; auto x = f->second.find(t); return x == f->second.end() ? t : x->second;
}
typedef vector<pair<string, string> > Cascade;
static string cascade(const Cascade& c, string t) { for (auto& x : c) t = rewrite(x.first, x.second, t); return t; }
struct Fst : OpenFSTAdapterInterface {
    Cascade c; int calls = 0; virtual void init() {} virtual void init(const string& far, const string& fst) { c.assign(1, make_pair(far, fst)); } virtual void init(vector<pair<string, string> > s) { c = s; }
    virtual string normalize(const string& t) { if (++calls > 1000) throw std::runtime_error("the engine is called for ever"); return cascade(c, t); } virtual string normalize(const string& far, const string& fst, const string& t) { return rewrite(far, fst, t); }
};
static int spellMode;
static bool correct(const string& w) { if (w[0] == 'g' || w[0] == 's') return true; if (w.size() > 2 && spellMode == 1) return (w[1] + w[w.size() - 1]) % 2 == 0; return false; }
static vector<string> suggestions(const string& w) { vector<string> r; if (w[0] == 'n') return r; r.push_back("s" + w); if (w.size() > 2 && spellMode) r.push_back("two words"); if (spellMode == 2) r.push_back("bad" + w.substr(0, 1)); return r; }
struct Speller : AspellAdapterInterface {
    string lang; bool created = false; string last; int calls = 0; virtual bool isWordCorrect(const string& w) { if (++calls > 1000) throw std::runtime_error("the engine is called for ever"); last = w; return correct(w); } virtual void getSuggestionsForLastWord(SuggestionsList& l, const string& w) { if (w != last) throw std::runtime_error("suggestions for a word that was not the last one"); for (auto& s : suggestions(w)) l.push_back(s); }
    virtual void initAspell(const string& l) { lang = l; } virtual void passOptionsToAspellConfig(const boost::program_options::variables_map&) {} virtual void createAspellInstance() { created = true; } virtual bool isDictionaryAvailable(const string&) { return true; }
};
static bool active = true; static int alive = 0; static Fst* fst; static Speller* speller;
PluginManager::PluginManager() {} PluginManager::~PluginManager() {} PluginManager& PluginManager::getInstance() { static PluginManager m; return m; }
PluginAdapter* PluginManager::createPluginAdapter(const string& n) { if (!active) return 0; ++alive; if (n == "aspell") return speller = new Speller; return fst = new Fst; }
void PluginManager::destroyPluginAdapter(const string&, PluginAdapter* a) { --alive; delete a; }
bool PluginManager::checkPluginRequirements(const string&, const boost::program_options::variables_map&, std::ostream&) { return true; }
// ---
static boost::program_options::variables_map opts(const boost::program_options::options_description& d, const vector<string>& a) { boost::program_options::variables_map vm; boost::program_options::store(boost::program_options::command_line_parser(a).options(d).run(), vm); boost::program_options::notify(vm); return vm; }
static string dir() { static string d; if (d.empty()) { char t[] = "/tmp/vh_norm_XXXXXX"; d = mkdtemp(t); } return d; }
// data of the processors are looked for in ../tools, so give them some
struct Dir {
    vector<string> dirs, files; pid_t me = getpid(); void write(const string& p, const string& body) { std::ofstream o(p.c_str()); o << body; }
    Dir() { for (auto f : {"n.tsv", "r.far", "other.far", "f.txt", "c.txt", "e.lst"}) files.push_back(dir() + "/" + f); string base = dir() + "/"; for (string d : {"b", "tools", "tools/normalizers", "tools/normalizers/iayko", "tools/normalizers/niema", "tools/normalizers/iayko/data", "tools/normalizers/niema/data", "tools/normalizers/iayko/data/pl", "tools/normalizers/niema/data/pl"}) { mkdir((base + d).c_str(), 0700); dirs.push_back(base + d); }
        for (auto f : {"iayko/data/pl/rules.txt", "niema/data/pl/conditions.txt", "iayko/data/pl/all.far", "niema/data/pl/all.far"}) { files.push_back(base + "tools/normalizers/" + f); write(files.back(), "F3\tno+no\n"); } if (chdir((base + "b").c_str())) throw std::runtime_error("chdir"); }
    ~Dir() { if (getpid() != me) return; if (chdir("/")) return; for (auto& f : files) unlink(f.c_str()); while (dirs.size()) { rmdir(dirs.back().c_str()); dirs.pop_back(); } rmdir(dir().c_str()); }
};
static string file(const string& name, const string& body) { static Dir d; string p = dir() + "/" + name; std::ofstream o(p.c_str()); o << body; return p; }
static const vector<E>& POOL() {
    static vector<E> e = {
        {0, 2, "ab", "T", F(), "token,!pl", {}}, {2, 3, " ", "B", F(), "token,!pl", {}}, {3, 5, "cd", "T", F(), "token,!pl", {}}, {0, 1, "a", "T", F(), "token,!pl", {}}, {1, 2, "b", "P", F(), "token,!pl", {}}, {0, 2, "AB", "T", F(), "token,!pl", {}}, {3, 5, "cd", "T", F(), "token,!en", {}},
        {3, 4, "c", "X", F{{"k", "1"}}, "other,!pl", {}}, {0, 2, "q", "T", F(), "iayko,token,!pl", {{0}}}, {3, 5, "e f", "T", F(), "iayko,token,!pl", {}}, {2, 3, " ", "T", F(), "iayko,token,!pl", {}}, {0, 5, "cd", "T", F(), "token,iayko,!pl", {{0, 2}}}
    };
    return e;
}
static void compare(Lat& l, const string& what, const string& chains = "", const string& wantChains = "") { string got = l.real(), want = l.expected(); vh::expectEq(got, want, what, "edges after the annotation"); if (chains != wantChains) vh::fail(what, "edges of loose vertices: got [" + chains + "] expected [" + wantChains + "]"); vh::outcome(got + chains); vh::state(got + chains); vh::transitions(l.m.es.size()); vh::traces(); if (alive) vh::fail("leak", "adapters not given back: " + vh::num(alive)); alive = 0; }
static void simplenorm(unsigned variant, unsigned bits) {
    vector<string> lines = {"ab\tAB", "cd\tc d", "a\t", "\tx"}; if (variant & 1) lines.push_back("ab\tab"); if (variant & 2) lines.insert(lines.begin() + 1, ""); if (variant & 4) lines.insert(lines.begin() + 2, "a b c"); if (variant & 8) lines.push_back("a\tcd\tz"); string f; for (auto& x : lines) f += x + "\n"; if (variant & 16) f.resize(f.size() - 1);
    map<string, string> m; for (auto& x : lines) { auto p = vh::split(x, '\t'); if (p.size() > 1) m[p[0]] = p[1]; }
    Lat l("ab cd", POOL(), bits); { SimplenormNormalizer s("pl", file("n.tsv", f)); s.annotate(l.l); }
    for (int e : l.m.byTarget(T{"token", "!pl"})) { ME x = l.m.es[e]; if (x.cat != "T") continue; auto n = m.find(string("ab cd").substr(x.from, x.to - x.from)); if (n != m.end()) l.m.add(x.from, x.to, Item{n->second, "T", F()}, T{"simplenorm", "normalization", "!pl"}); }
    compare(l, "simplenorm");
}
static void iayko(unsigned o, unsigned bits) {
    int exc = o % 3, how = o / 3 % 6, in = o / 18; string far = file("r.far", ""), other = file("other.far", ""); vector<string> v = {"--lang", "pl"}; Cascade c; T ex;
    if (exc) { v.push_back("--exceptions"); v.push_back(file("e.lst", exc == 1 ? "ab\n\ncd" : "q\n \na\n")); v.push_back("--bypass-exceptions"); ex = exc == 1 ? T{"ab", "cd"} : T{"q", " ", "a"}; }
    if (how < 2) { v.insert(v.end(), {"--far", far, "--fst", how ? "F3" : "F1"}); c = {{far, how ? "F3" : "F1"}}; }
    else if (how < 4) { v.insert(v.end(), {"--far", far, "--fsts", file("f.txt", how == 2 ? "F1\n\nF2\nF3\n" : "F3\nF1")}); if (how == 2) c = {{far, "F1"}, {far, "F2"}, {far, "F3"}}; else c = {{far, "F3"}, {far, "F1"}}; }
    else { v.insert(v.end(), {"--spec", far, "F2", how == 4 ? far : other, "F1", far, "F3"}); c = {{far, "F2"}, {how == 4 ? far : other, "F1"}, {far, "F3"}}; }
    string tag = in == 1 ? "other" : in == 2 ? "iayko" : "token"; if (in) { v.push_back("--in-tag"); v.push_back(tag); }
    Lat l("ab cd", POOL(), bits); { Iayko::Factory f; std::unique_ptr<Annotator> a(f.createAnnotator(opts(f.optionsHandled(), v))); a->annotate(l.l); }
    for (int e : l.m.byTarget(T{tag, "!pl"})) { ME x = l.m.es[e]; l.m.add(x.from, x.to, Item{ex.count(x.text) ? x.text : cascade(c, x.text), "T", F()}, T{"iayko", "normalization", "token", "!pl"}); }
    compare(l, "iayko");
}
static string chain(Lat& l, Lattice::EdgeDescriptor e, int depth = 0) {   // from a vertex of the text through loose vertices
    string s = l.item(e); for (auto& t : l.tags(e)) s += " " + t; s += " > "; Lattice::VertexDescriptor v = l.l.getEdgeTarget(e); if (!l.l.isLooseVertex(v)) return s + vh::num(v); if (depth > 20) return "?";
    auto in = l.l.inEdges(v, l.l.getLayerTagManager().anyTag()); int n = 0; while (in.hasNext()) { in.next(); ++n; } if (n != 1) s += "(in " + vh::num(n) + ")"; auto it = l.l.outEdges(v, l.l.getLayerTagManager().anyTag()); n = 0; while (it.hasNext()) { if (n++) s += " || "; s += chain(l, it.next(), depth + 1); } return s;
}
static void niema(unsigned o, unsigned bits) {
    static const char* CONDS[] = {"verb", "*+noun", "a&b|c+x+*", "", "p+q"}; int exc = o % 3, how = o / 3 % 3, c1 = o / 9 % 5, c2 = o / 45 % 5; string far = file("r.far", ""), other = file("other.far", ""); vector<string> v = {"--lang", "pl"}; T ex = {" "}; vector<pair<pair<string, string>, string> > spec;
    if (exc) { v.push_back("--exceptions"); v.push_back(file("e.lst", exc == 1 ? "cd\n" : "\nq\ne f")); v.push_back("--bypass-exceptions"); if (exc == 1) ex.insert("cd"); else { ex.insert("q"); ex.insert("e f"); } }
    if (how == 0) { v.insert(v.end(), {"--far", far, "--fst", "F2", "--condition", CONDS[c1]}); spec = {{{far, "F2"}, CONDS[c1]}}; }
    else if (how == 1) { v.insert(v.end(), {"--far", far, "--conditions", file("c.txt", string("F1\t") + CONDS[c1] + "\n\nF2\t" + CONDS[c2] + "\nF3\n")}); spec = {{{far, "F1"}, CONDS[c1]}, {{far, "F2"}, CONDS[c2]}, {{far, "F3"}, ""}}; }
    else { v.insert(v.end(), {"--spec", far, "F2", CONDS[c1], c2 == 1 ? other : far, "F3", CONDS[c2]}); spec = {{{far, "F2"}, CONDS[c1]}, {{c2 == 1 ? other : far, "F3"}, CONDS[c2]}}; }
    Lat l("ab cd", POOL(), bits); { Niema::Factory f; std::unique_ptr<Annotator> a(f.createAnnotator(opts(f.optionsHandled(), v))); a->annotate(l.l); }
    std::multiset<string> want; T outs = {"niema", "normalization", "token", "conditional", "!pl"}; string tags; for (auto& t : outs) tags += " " + t;
    for (int e : l.m.byTarget(T{"iayko", "!pl"})) { ME x = l.m.es[e]; for (auto& s : spec) { string n = ex.count(x.text) ? x.text : rewrite(s.first.first, s.first.second, x.text); if (n == x.text) continue; auto parts = vh::split(n, ' '), conds = vh::split(s.second, '+'); if (s.second.size() && parts.size() != conds.size()) continue;
        if (parts.size() == 1) { F a; if (s.second.size()) a["condition"] = s.second; l.m.add(x.from, x.to, Item{n, "T", a}, outs); continue; }
        string c = vh::num(x.from) + ": "; for (size_t i = 0; i < parts.size(); ++i) { if (i) c += " /B" + tags + " > "; c += parts[i] + "/T"; if (s.second.size()) c += "[condition=" + conds[i] + "]"; c += tags + " > "; } want.insert(c + vh::num(x.to)); } }
    std::multiset<string> got; auto it = l.l.allEdgesSortedBySource(); while (it.hasNext()) { auto e = it.next(); if (!l.l.isLooseVertex(l.l.getEdgeSource(e)) && l.l.isLooseVertex(l.l.getEdgeTarget(e))) got.insert(vh::num(l.l.getEdgeSource(e)) + ": " + chain(l, e)); }
    string g, w; for (auto& x : got) g += x + "; "; for (auto& x : want) w += x + "; "; compare(l, "niema", g, w);
}
static void spell(int mode, const string& seq, bool off) {
    spellMode = mode; active = !off; vector<E> es; string text; for (size_t i = 0; i < seq.size(); ++i) { char c = seq[i]; string t = c == 'B' ? " " : c == 'P' ? "." : string(1, c) + char('1' + i); es.push_back(E{(int)text.size(), (int)(text.size() + t.size()), t, c == 'B' ? "B" : c == 'P' ? "I" : "T", F(), "token,!pl", {}}); text += t; }
    es.push_back(E{0, (int)text.size(), "zz", "T", F(), "token,!en", {}}); es.push_back(E{0, (int)text.size(), "yy", "T", F(), "other,!pl", {}});
    Lat l(text, es, (1u << es.size()) - 1); { PSIAspell::Factory f; std::unique_ptr<Annotator> a(f.createAnnotator(opts(f.optionsHandled(), {"--lang", "pl"}))); if (!off) vh::expect(speller->lang == "pl" && speller->created, "speller", "the engine is not initialised"); a->annotate(l.l); }
    T outs = {"token", "aspell", "corrected", "!pl"}; auto add = [&](int from, int to, const string& w) { if (!correct(w)) for (auto& s : suggestions(w)) l.m.add(from, to, Item{s, "T", F()}, outs); };
    if (!off) for (size_t i = 0; i < seq.size(); ++i) { if (es[i].cat != "T" || correct(es[i].text)) continue; add(es[i].from, es[i].to, es[i].text); for (size_t j : {i + 1, i + 2}) if (j < seq.size() && es[j].cat == "T" && (j == i + 1 || es[i + 1].cat == "B") && !correct(es[j].text)) add(es[i].from, es[j].to, es[i].text + (j == i + 1 ? "" : es[i + 1].text) + es[j].text); }
    active = true; compare(l, "spell");
}
static void detok(const vector<string>& toks, const vector<int>& perm, bool extra) {
    AnnotationItemManager aim; Lattice l(aim, "x"); auto& ltm = l.getLayerTagManager(); auto tag = ltm.createSingletonTagCollectionWithLangCode("token", "pl"), en = ltm.createSingletonTagCollectionWithLangCode("token", "en");
    for (size_t i = 0; i < toks.size(); ++i) { Lattice::VertexDescriptor a = l.addLooseVertex(), b = l.addLooseVertex(); AnnotationItem it("T", StringFrag(toks[perm[i]])); aim.setValue(it, "SurfacePosition", perm[i] * 3 - 2); l.addEdge(a, b, it, tag); if (extra) { AnnotationItem o("T", StringFrag("no")); aim.setValue(o, "SurfacePosition", (int)i * 3 - 1); l.addEdge(a, b, o, en); } }
    Detok d("pl"); d.annotate(l); string want; for (size_t i = 0; i < toks.size(); ++i) { const string& t = toks[i]; if (i && t.size() && !strchr(".,;:)]}!?", t[0]) && want.size() && !strchr("([{", want[want.size() - 1])) want += " "; want += t; }
    auto it = l.allEdgesSortedBySource(); string got; int n = 0; while (it.hasNext()) { auto e = it.next(); LayerTagCollection t = l.getEdgeLayerTags(e); if (!ltm.isThere("text", t)) continue; ++n; got += l.getAnnotationText(e); std::set<string> s; for (auto& x : ltm.getTagNames(t)) s.insert(x); vh::expect(l.getAnnotationCategory(e) == "TEXT" && s == std::set<string>({"text", "!pl"}) && l.isLooseVertex(l.getEdgeSource(e)) && l.isLooseVertex(l.getEdgeTarget(e)) && l.getEdgeSource(e) != l.getEdgeTarget(e), "detok", "the text has other tags, category or place"); }
    vh::expect(n == 1, "detok", vh::num(n) + " texts"); vh::expectEq(got, want, "detok", "text"); vh::outcome(got); vh::state(got); vh::transitions(toks.size()); vh::traces();
}
static const char* TOKS[] = {"kot", ".", ",x", "(", "a]", "x{", ")", "", "ż", "!", "a:", "?", ";", "]b", "}", "[", "x[", ":-", "-", "%", "\xC5", "a?(", ",["};
void vh_run(const string& id) {
    auto p = vh::split(id, ':'); char k = p[0][0]; unsigned a = p.size() > 1 ? atoi(p[1].c_str()) : 0, b = p.size() > 2 ? atoi(p[2].c_str()) : 0; vh::limit(5);
    if (k == 's') simplenorm(a, b); else if (k == 'i') iayko(a, b); else if (k == 'n') niema(a, b); else if (k == 'p') spell(a % 4, p[2], a >= 4);
    else { vector<string> t; for (char c : p[1]) t.push_back(TOKS[c - 'a']); vector<int> perm; for (char c : p[2]) perm.push_back(c - '0'); detok(t, perm, p[3] == "1"); }
}
void vh_enumerate(vh::Emit& emit) {
    bool th = vh::thorough(); unsigned all = 1u << POOL().size();
    for (unsigned v = 0; v < 32; ++v) for (unsigned b = 0; b < all; ++b) { if (!th && (b * 7 + v) % 16) continue; emit("s:" + vh::num(v) + ":" + vh::num(b)); }
    for (unsigned o = 0; o < 54; ++o) for (unsigned b = 0; b < all; ++b) { if (!th && (b * 5 + o) % 16) continue; emit("i:" + vh::num(o) + ":" + vh::num(b)); }
    for (unsigned o = 0; o < 225; ++o) for (unsigned b = 0; b < 16; ++b) for (unsigned c = 0; c < 8; ++c) { emit("n:" + vh::num(o) + ":" + vh::num(b << 8 | c * 3 % 8)); }
    for (unsigned m = 0; m < 4; ++m) for (size_t n = 1; n <= (th ? 7u : 6u); ++n) vh::sequences(5, n, [&](const vector<int>& s) { string q; for (int x : s) q += "bngBP"[x]; emit("p:" + vh::num(m) + ":" + q); if (n < 3) emit("p:" + vh::num(m + 4) + ":" + q); });
    for (size_t n = 1; n <= 3; ++n) vh::sequences(23, n, [&](const vector<int>& s) { string q, id; for (size_t i = 0; i < n; ++i) { q += char('a' + s[i]); id += char('0' + i); } emit("d:" + q + ":" + id + ":1"); });
    for (size_t n = 0; n <= (th ? 5u : 4u); ++n) vh::sequences(11, n, [&](const vector<int>& s) { string q, id; for (size_t i = 0; i < n; ++i) { q += char('a' + s[i]); id += char('0' + i); } int k = 0; do { if (n > 3 && ++k % 5 != 1 + s[0] % 4) continue; emit("d:" + q + ":" + id + ":" + vh::num((n + s.size()) % 2)); } while (std::next_permutation(id.begin(), id.end())); });
}
