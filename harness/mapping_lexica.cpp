// D04: the mapper and the bilingual lexicon add exactly the edges their lexicon and options imply.
#include "vh.hpp"
#include "mapper.hpp"
#include "bilexicon.hpp"
#include "one_edge_at_a_time_annotator.hpp"
#include <boost/program_options.hpp>
#include <boost/algorithm/string.hpp>
#include <fstream>
#include <unistd.h>
using std::string; using std::vector; using std::map; using std::set; using std::pair;
typedef vector<pair<string, string>> F;
static boost::program_options::variables_map opts(const boost::program_options::options_description& d, const vector<string>& a) { boost::program_options::variables_map vm; boost::program_options::store(boost::program_options::command_line_parser(a).options(d).run(), vm); boost::program_options::notify(vm); return vm; }
static void setv(F& f, const string& k, const string& v) { for (auto& x : f) if (x.first == k) { x.second = v; return; } f.push_back({k, v}); }
static string feats(const F& g) { F f = g; std::sort(f.begin(), f.end()); string r; for (auto& x : f) r += "[" + x.first + "=" + x.second + "]"; return r; }
struct E { int from, to; const char *text, *cat; F attrs; const char* tags; };
static const vector<E>& EDGES() {
    static vector<E> e = {
        {0, 1, "a", "T", F(), "token"}, {1, 2, "b", "T", F{{"x", "1"}}, "token"}, {2, 3, "a", "X", F{{"y", "2"}, {"x", "1"}}, "token"}, {0, 2, "a,T", "B", F(), "token"}, {0, 3, "", "T", F{{"x", ""}}, "token"},
        {3, 4, "none", "N", F{{"y", "9"}}, "token"}, {1, 3, "a", "T", F{{"x", "1"}}, "form,token"}, {2, 4, "a", "T", F(), "form"}, {0, 4, "kot+subst", "subst", F(), "!pl,lexeme"}, {0, 4, "pies+subst+x", "subst", F(), "!pl,lexeme"}, {1, 4, "dom", "d", F(), "!pl,lexeme"},
        {1, 4, "kot+subst", "subst", F(), "!de,lexeme"}, {2, 4, "kot+subst", "subst", F(), "!pl,lemma"}, {2, 4, "zero", "z", F(), "!pl,lexeme"}, {1, 4, "kot+subst", "subst", F{{"n", "1"}}, "!pl,lexeme"}
    };
    return e;
}
// lexicons: key, records of text, category, attributes
struct R { const char *text, *cat, *attrs; };
typedef vector<pair<string, vector<R>>> Lex;
static const vector<Lex>& LEXS() {
    static vector<Lex> l = {
        {{"a", {{"A", 0, 0}}}, {"b", {{"B", "C", 0}, {"BB", "C", "x=5,z"}}}, {"T", {{"t", "TT", "y=a=b"}}}, {"a,T", {{"at", "AT", "x"}, {"a", "T", 0}}}, {"a,T,x=1", {{"atx", "q", "x=2,x=3"}}}, {"a,X,x=1,y=2", {{"full", 0, 0}}}, {"x=1,y=2", {{"attrs", "w", 0}}}, {"x=1", {{"one", "o", "k=v"}}}, {"", {{"empty", "e", 0}}}, {"X,x=1,y=2", {{"m", "n", "o"}}}, {"b,x=1", {{"bx", "T", 0}, {"bx", "T", "p"}}}, {",T", {{"n", "t", 0}}}, {"a,T,B", {{"atb", "r", "x=1"}}}},
        {{"a", {{"a", 0, 0}, {"a", "T", 0}, {"a", "a", 0}}}, {"T", {{"a", "T", 0}, {"b", "T", "x=1"}}}, {"y=2,x=1", {{"unsorted", 0, 0}}}, {"none", {{"none", "none", "none"}}}, {"subst", {{"kot+subst", "subst", 0}, {"kot+subst", "subst", "n=1"}, {"dom", "d", 0}}}, {"d", {{"dom", "d", 0}}}},
        {}
    };
    return l;
}
static string esc(const string& s) { return s.empty() ? "\\*" : s; }
static string fileOf(const Lex& l) { string t; for (auto& e : l) for (auto& r : e.second) { if (e.first.empty()) continue; t += esc(e.first) + " " + r.text; if (r.cat) t += string(" ") + r.cat; if (r.attrs) t += string(" ") + r.attrs; t += "\n"; } return t; }
static F parse(const string& m) { F r; size_t i = 0; while (i <= m.size()) { size_t e = m.find(',', i); if (e == string::npos) e = m.size(); string x = m.substr(i, e - i); size_t q = x.find('='); if (q == string::npos) r.push_back({x, "1"}); else r.push_back({x.substr(0, q), x.substr(q + 1)}); i = e + 1; } return r; }
struct Dir { string d; Dir() { char t[] = "/tmp/vhmapXXXXXX"; d = mkdtemp(t); } ~Dir() { unlink((d + "/t").c_str()); unlink((d + "/b").c_str()); rmdir(d.c_str()); } };
struct Lat {
    AnnotationItemManager aim; Lattice l; vector<Lattice::EdgeDescriptor> ed;
    Lat() : l(aim, "abcd") {
        for (auto& e : EDGES()) { AnnotationItem i(e.cat, StringFrag(e.text)); for (auto& a : e.attrs) aim.setValue(i, a.first, a.second);
            vector<string> ts; boost::split(ts, e.tags, boost::is_any_of(",")); ed.push_back(l.addEdge(l.getVertexForRawCharIndex(e.from), l.getVertexForRawCharIndex(e.to), i, l.getLayerTagManager().createTagCollectionFromList(std::list<string>(ts.begin(), ts.end())))); }
    }
    string show(const std::list<string>& mask) {   // the edges with all these tags
        set<string> r; auto it = l.edgesSortedBySource(l.getLayerTagManager().getMask(mask)); set<Lattice::EdgeDescriptor> old(ed.begin(), ed.end());
        while (it.hasNext()) { auto e = it.next(); (void)old; F f; for (auto& v : aim.getValues(l.getEdgeAnnotationItem(e))) f.push_back({v.first, v.second});
            set<string> ps; for (auto& p : l.getEdgePartitions(e)) { string s; Lattice::Partition::Iterator pi(l, p); while (pi.hasNext()) { auto x = pi.next(); size_t k = std::find(ed.begin(), ed.end(), x) - ed.begin(); s += vh::num(k) + "."; } ps.insert(s); }
            string tags; { auto names = l.getLayerTagManager().getTagNames(l.getEdgeLayerTags(e)); vector<string> v(names.begin(), names.end()); std::sort(v.begin(), v.end()); for (auto& t : v) tags += t + ","; }
            string s = vh::num(l.getEdgeBeginIndex(e)) + "-" + vh::num(l.getEdgeEndIndex(e)) + " " + l.getAnnotationText(e) + "/" + l.getAnnotationCategory(e) + feats(f) + " " + tags + " of"; for (auto& p : ps) s += " " + p; r.insert(s); }
        string o; for (auto& s : r) o += s + "; "; return o;
    }
};
static void expectEdges(map<string, set<string>>& want, const string& got, const char* kind) { string w; for (auto& p : want) { w += p.first + " of"; for (auto& x : p.second) w += " " + x; w += "; "; } vh::expectEq(got, w, kind, "edges added"); vh::outcome(got); vh::transitions(want.size()); vh::traces(); vh::state(got); }
// options of the mapper: consider, text, category, attributes, add, unknown text, category, attributes, lexicon, in-tags, file
static void mapper(const string& id) {
    int c = id[0] - '0', tx = id[1] - '0', ct = id[2] - '0', at = id[3] - '0', add = id[4] - '0', utx = id[5] - '0', uct = id[6] - '0', uat = id[7] - '0', lx = id[8] - '0', in = id[9] - '0', bin = id[10] - '0';
    Dir d; { std::ofstream o(d.d + "/t"); o << fileOf(LEXS()[lx]); } const Lex& lex = LEXS()[lx];
    static const char* INS[] = {"token", "form,token", "form", "lexeme"}; vector<string> a = {"--lang", "pl", "--in-tags", INS[in], "--out-tags", in == 1 ? "mapped,other" : "mapped"};
    if (c & 1) a.push_back("--consider-text"); if (c & 2) a.push_back("--consider-category"); if (c & 4) a.push_back("--consider-attributes");
    auto opt = [&](int v, const string& u, const string& what, const string& val) { if (v & 1) a.push_back("--" + u + "clone-" + what); if (v & 2) { a.push_back("--" + u + "set-" + what); a.push_back(val); } };
    opt(tx, "", "text", "newtext"); opt(ct, "", "category", "newcat"); opt(at, "", "attributes", "x=7,s"); if (add) a.push_back("--add-attributes"); opt(utx, "unknown-", "text", "untext"); opt(uct, "unknown-", "category", "uncat"); opt(uat, "unknown-", "attributes", "x=8,u=v,u=w");
    a.push_back("--plain-text-lexicon"); a.push_back(d.d + "/t"); if (bin) { a.push_back("--save-binary-lexicon"); a.push_back(d.d + "/b"); }
    bool bad = c == 0 || tx == 3 || ct == 3 || at == 3 || utx == 3 || uct == 3 || uat == 3;
    Lat l; try {
        { std::unique_ptr<Annotator> m; OneEdgeAtATimeAnnotator<Mapper>::Factory f; { // what is needed and given, as declared to the pipeline
            auto vm = opts(Mapper::optionsHandled(), a); auto req = f.requiredLayerTags(vm); vector<string> ts; boost::split(ts, INS[in], boost::is_any_of(",")); vh::expect(req.size() == 1 && set<string>(req.front().begin(), req.front().end()) == set<string>(ts.begin(), ts.end()), "declared", "tags required");
            auto prov = f.providedLayerTags(vm); for (string t : {"mapped", "other"}) vh::expect((std::find(prov.begin(), prov.end(), t) != prov.end()) == (t == "mapped" || in == 1), "declared", "tag provided: " + t); }
        m.reset(f.createAnnotator(opts(Mapper::optionsHandled(), a)));
        if (bin) { vector<string> b(a.begin(), a.end() - 4); b.push_back("--binary-lexicon"); b.push_back(d.d + "/b"); m.reset(f.createAnnotator(opts(Mapper::optionsHandled(), b))); }
        m->annotate(l.l); }
    } catch (Mapper::Exception& e) { vh::expect(bad, "rejected", string("options refused: ") + e.what()); vh::traces(); vh::outcome(e.what()); return; }
    if (!vh::expect(!bad, "accepted", "contradicting or missing options are accepted")) return;
    map<string, set<string>> want;
    for (size_t i = 0; i < EDGES().size(); ++i) {
        const E& e = EDGES()[i]; string et = string(",") + e.tags + ","; if (in < 2 && et.find(",token,") == string::npos) continue; if (in > 0 && in < 3 && et.find(",form,") == string::npos) continue; if (in == 3 && et.find(",lexeme,") == string::npos) continue; string pl = e.tags[0] == '!' ? string(e.tags).substr(0, 3) + "," : ""; string tags = pl + (in == 1 ? "mapped,other," : "mapped,");
        vector<string> ks; if (c & 1) ks.push_back(e.text); if (c & 2) ks.push_back(e.cat); if (c & 4) { vector<string> as; for (auto& x : e.attrs) as.push_back(x.first + "=" + x.second); std::sort(as.begin(), as.end()); ks.insert(ks.end(), as.begin(), as.end()); }
        string key; for (size_t k = 0; k < ks.size(); ++k) key += (k ? "," : "") + ks[k];
        auto put = [&](const string& t, const string& k, const F& f) { string at = vh::num(e.from) + "-" + vh::num(e.to) + " ", item = t + "/" + k + feats(f); string ts = tags; bool self = false, merged = false;
            for (auto& o : EDGES()) if (o.from == e.from && o.to == e.to && (o.tags[0] == '!' ? string(o.tags).substr(0, 3) + "," : string()) == pl && string(o.text) + "/" + o.cat + feats(o.attrs) == item) { merged = true; self = &o == &e; vector<string> v; boost::split(v, tags + o.tags, boost::is_any_of(",")); std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end()); ts = ""; for (auto& x : v) ts += x + ","; }   // an edge that is there already
            auto& ps = want[at + item + " " + ts]; if (merged) ps.insert(""); if (!self) ps.insert(vh::num(i) + "."); };
        const vector<R>* rs = 0; for (auto& x : lex) if (x.first == key && !key.empty()) rs = &x.second;
        if (rs) for (auto& r : *rs) {
            string t = tx == 1 ? e.text : tx == 2 ? "newtext" : r.text, k = ct == 1 ? string(e.cat) : ct == 2 ? "newcat" : r.cat ? r.cat : r.text; F f; if (at == 1) f = e.attrs; if (at == 2) f = {{"x", "7"}, {"s", "1"}}; if (add && r.attrs) for (auto& x : parse(r.attrs)) setv(f, x.first, x.second); put(t, k, f);
        } else if (utx || uct || uat) { string t = utx == 1 ? e.text : utx == 2 ? "untext" : "unknown", k = uct == 1 ? e.cat : uct == 2 ? "uncat" : "unknown"; F f; if (uat == 1) f = e.attrs; if (uat == 2) f = {{"x", "8"}, {"u", "w"}}; put(t, k, f); }
    }
    expectEdges(want, l.show({"mapped"}), "mapped");
}
static const vector<pair<const char*, vector<string>>>& BI() { static vector<pair<const char*, vector<string>>> b = {{"kot+subst cat+N", {"kot+subst", "cat+N"}}, {"kot+subst kitty+N+dim", {"kot+subst", "kitty+N+dim"}}, {"dom house", {"dom", "house"}}, {"pies+subst+x dog+", {"pies+subst+x", "dog+"}}, {"kot+subst kot+subst", {"kot+subst", "kot+subst"}}, {"dom +home;building+N", {"dom", "+home", "building+N"}}, {"kot no+N", {"kot", "no+N"}}, {"pies+subst no+N", {"pies+subst", "no+N"}}}; return b; }
static void bilexicon(const string& id, bool bin) {
    Dir d; { std::ofstream o(d.d + "/t"); for (char c : id) o << BI()[c - '0'].first << "\n"; } vector<string> a = {"--lang", "pl", "--trg-lang", "en", "--plain-text-lexicon", d.d + "/t"}; if (bin) { a.push_back("--save-binary-lexicon"); a.push_back(d.d + "/b"); }
    OneEdgeAtATimeAnnotator<BiLexicon>::Factory f; std::unique_ptr<Annotator> m(f.createAnnotator(opts(BiLexicon::optionsHandled(), a))); if (bin) m.reset(f.createAnnotator(opts(BiLexicon::optionsHandled(), {"--lang", "pl", "--trg-lang", "en", "--binary-lexicon", d.d + "/b"})));
    Lat l; m->annotate(l.l); map<string, set<string>> want;
    for (size_t i = 0; i < EDGES().size(); ++i) { const E& e = EDGES()[i]; if (string(e.tags) != "!pl,lexeme") continue; for (char c : id) { auto& b = BI()[c - '0'].second; if (b[0] == e.text) for (size_t k = 1; k < b.size(); ++k) { size_t p = b[k].find('+'); string cat = p == string::npos ? b[k] : b[k].substr(p + 1); want[vh::num(e.from) + "-" + vh::num(e.to) + " " + b[k] + "/" + cat + " !en,!translation,bilexicon,lexeme,"].insert(vh::num(i) + "."); } } }
    for (auto& e : EDGES()) if (strstr(e.tags, "lexeme")) want[vh::num(e.from) + "-" + vh::num(e.to) + " " + e.text + "/" + e.cat + feats(e.attrs) + " " + e.tags + ","].insert("");
    expectEdges(want, l.show({"lexeme"}), "translated");
}
void vh_run(const string& id) { if (id[0] == 'm') mapper(id.substr(2)); else bilexicon(id.substr(2), id[0] == 'B'); }
void vh_enumerate(vh::Emit& emit) {
    bool th = vh::thorough();
    for (int c = 1; c < 8; ++c) for (int tx = 0; tx < 3; ++tx) for (int ct = 0; ct < 3; ++ct) for (int at = 0; at < 3; ++at) for (int add = 0; add < 2; ++add) for (int u = 0; u < 27; ++u) for (int lx = 0; lx < 3; ++lx) for (int in = 0; in < 4; ++in) for (int b = 0; b < 2; ++b) {
        if (!th && (lx || in || b) && u % 13) continue; if (!th && lx == 2 && (tx || ct || at)) continue;
        emit("m:" + vh::num(c) + vh::num(tx) + vh::num(ct) + vh::num(at) + vh::num(add) + vh::num(u % 3) + vh::num(u / 3 % 3) + vh::num(u / 9) + vh::num(lx) + vh::num(in) + vh::num(b)); }
    for (int c = 0; c < 8; c += 7) for (int k = 0; k < 4096; ++k) { string s; bool three = c == 0; for (int i = 0, x = k; i < 6; ++i, x /= 4) { if (x % 4 == 3) three = true; s += (char)('0' + x % 4); } if (three) emit("m:" + vh::num(c) + s.substr(0, 3) + "0" + s.substr(3) + "000"); }   // contradictions
    vector<string> al; for (size_t i = 0; i < BI().size(); ++i) al.push_back(vh::num(i)); vh::strings(al, th ? 5 : 4, [&](const string& s) { emit("b:" + s); if (s.size() < 4) emit("B:" + s); });
}
