// F07: the bracketing writer leaves the text as it is and puts exactly the brackets of the annotations asked for around what they cover.
#include "vh.hpp"
#include "annotation_item_manager.hpp"
#include "lattice.hpp"
#include "bracketing_lattice_writer.hpp"
#include "bracketing_quoter.hpp"
#include <boost/program_options.hpp>
#include <algorithm>
#include <functional>
using std::string; using std::vector; using std::map; using std::set; using std::pair;
typedef map<string, string> F; typedef set<string> T;
static boost::program_options::variables_map opts(const boost::program_options::options_description& d, const vector<string>& a) { boost::program_options::variables_map vm; boost::program_options::store(boost::program_options::command_line_parser(a).options(d).run(), vm); boost::program_options::notify(vm); return vm; }
static T split(const string& s) { T r; for (auto& x : vh::split(s, ',')) if (!x.empty()) r.insert(x); return r; }
static const string TEXT = "a\xc5\xbc b";        // the second letter has two bytes
struct E { int from, to; const char *text, *cat; F attrs; const char* tags; vector<int> of; double score; bool discarded; };
static const vector<E>& POOL() {                 // from or to -1: a loose vertex
    static vector<E> e = {
        {0, 3, "a\xc5\xbc", "tok", F(), "token", {}, 0, false}, {3, 4, " ", "B", F(), "token", {}, 0, false}, {4, 5, "b", "tok", F(), "token", {}, 0, false},
        {0, 3, "q", "form", F{{"x", "1"}}, "form,lemma", {0}, 0, false}, {0, 3, "q", "zed", F{{"x", "2"}, {"y", "1"}}, "form", {3}, 1.5, false}, {0, 3, "r", "yak", F{{"x", "1"}}, "form", {4}, 0, false},
        {0, 5, "a", "np", F(), "parse", {0, 1, 2}, 0, false}, {0, 5, "a", "s", F{{"x", "1"}}, "parse", {6}, 2, false}, {1, 4, "c", "np", F(), "parse", {}, 0, false}, {0, 3, "zz", "form", F(), "other", {}, 0, false},
        {4, 5, "d", "form", F(), "form", {2}, 0, true}, {0, 1, "a", "tok", F(), "token", {}, 0, false}, {0, -1, "l", "form", F(), "form", {0}, 0, false}, {-1, 3, "m", "lo", F(), "form", {3}, 0, false} };
    return e;
}
struct Pat { const char *open, *close; };
static const vector<Pat>& PATS() {
    static vector<Pat> p = { {"[", "]"}, {"%c[", "]"}, {"<%c>", "</%c>"}, {"<%T|%c|%t|%s>", "</>"}, {"(%A:%c)", "(/%c)"}, {"<%a[x] %A>", "</%a{x}%A>"}, {"<%c text=\"%*[,][%t]\">", "</%c>"}, {"<%A %*[,][%c]>", "</>"}, {"<%T %*(,)(%c)>", "</>"},
        {"<%s %*{; }{%c}>", "</>"}, {"<%c %*[][{%t %*(;)(%A)}]>", "</>"}, {"<%%c%q%>%", "\\n\\t%a"}, {"<%t>", "</%*[+][%c]>"}, {"<%r %c>", "</%r>"}, {"<%r %*[+][%c]>", "</>"}, {"<%a(y)>", "</%*[, ][%T]>"} };
    return p;
}
struct M { int id; int from, to; string text, cat; F attrs; T tags; double score; bool discarded, symbol; vector<int> of; string role; };
struct Active { bool T = false, c = false, t = false, A = false, s = false, r = false; set<string> a; };
static string join(const T& t, const string& sep) { string r; for (auto& x : t) r += (r.empty() ? "" : sep) + x; return r; }
static char closing(char c) { switch (c) { case '(': return ')'; case '[': return ']'; case '{': return '}'; case '<': return '>'; } return c; }
// one pattern for one annotation; where the join operator stands, its place and its parts are noted
static string expand(const string& p, const M& e, Active& ac, string* sep, string* sub) {
    string r; size_t i = 0;
    while (i < p.size()) {
        if (p[i] != '%' || i + 1 >= p.size()) { r += p[i++]; continue; }
        char k = p[i + 1]; std::ostringstream o;
        if (k == 'T') { r += join(e.tags, ","); ac.T = true; } else if (k == 'c') { r += e.cat; ac.c = true; } else if (k == 't') { r += e.text; ac.t = true; } else if (k == 'r') { r += e.role; ac.r = true; }
        else if (k == 's') { o << e.score; r += o.str(); ac.s = true; }
        else if (k == 'A') { string x; for (auto& v : e.attrs) x += (x.empty() ? "" : ",") + v.first + "=" + v.second; r += x; ac.A = true; }
        else if (k == 'a' && i + 2 < p.size() && p.find(closing(p[i + 2]), i + 3) != string::npos) { size_t to = p.find(closing(p[i + 2]), i + 3); string a = p.substr(i + 3, to - i - 3); auto f = e.attrs.find(a); if (f != e.attrs.end()) r += f->second; ac.a.insert(a); i = to + 1; continue; }
        else if (k == '*') { size_t to = p.find(closing(p[i + 2]), i + 3), to2 = p.find(closing(p[i + 2]), to + 2); *sep = p.substr(i + 3, to - i - 3); *sub = p.substr(to + 2, to2 - to - 2); r += '\x01'; i = to2 + 1; continue; }
        else { r += k == 'a' ? "%a" : "%"; i += k == 'a' ? 2 : 1; continue; }
        i += 2;
    }
    return r;
}
static bool same(const Active& a, const M& x, const M& y) {
    if ((a.c && x.cat != y.cat) || (a.t && x.text != y.text) || (a.T && x.tags != y.tags) || (a.s && x.score != y.score) || (a.r && x.role != y.role) || (a.A && x.attrs != y.attrs)) return false;
    for (auto& k : a.a) { auto i = x.attrs.find(k), j = y.attrs.find(k); if ((i == x.attrs.end() ? "" : i->second) != (j == y.attrs.end() ? "" : j->second)) return false; }
    return true;
}
static vector<string> print(const vector<string>& pats, const M& e, const vector<M>& all, bool collapse) {
    Active ac; string sep, sub; vector<string> r; for (auto& p : pats) r.push_back(expand(p, e, ac, &sep, &sub));
    if (!sub.empty()) {
        vector<M> group; for (auto& x : all) if (same(ac, e, x)) group.push_back(x);
        vector<string> js; for (auto& x : group) js.push_back(print({sub}, x, group, collapse)[0]);
        if (collapse) { std::sort(js.begin(), js.end()); js.erase(std::unique(js.begin(), js.end()), js.end()); }
        string j; for (auto& x : js) j += (j.empty() ? "" : sep) + x;
        for (auto& s : r) { size_t f = s.find('\x01'); if (f != string::npos) s.replace(f, 1, j); }
    }
    return r;
}
struct Piece { string open, close; vector<int> ids; bool operator<(const Piece& o) const { return std::tie(open, close) < std::tie(o.open, o.close); } };
// everything that may be printed for the annotations given (the order within one span is free but for what is built of what)
static set<string> outputs(const map<pair<int, int>, vector<Piece> >& spans, const vector<M>& es) {
    vector<map<pair<int, int>, vector<Piece> > > done(1);
    for (auto& sp : spans) {
        vector<map<pair<int, int>, vector<Piece> > > next; vector<Piece> v = sp.second; std::sort(v.begin(), v.end());
        vector<int> ix(v.size()); for (size_t i = 0; i < ix.size(); ++i) ix[i] = i;
        do { bool ok = true;
            for (size_t i = 0; i < ix.size() && ok; ++i) for (size_t j = i + 1; j < ix.size() && ok; ++j) { auto& a = v[ix[i]]; auto& b = v[ix[j]]; if (a.ids.size() == 1 && b.ids.size() == 1) { auto& of = es[b.ids[0]].of; if (!of.empty() && of[0] == a.ids[0]) ok = false; } }
            if (ok) for (auto d : done) { auto& x = d[sp.first]; for (int i : ix) x.push_back(v[i]); next.push_back(d); }
        } while (std::next_permutation(ix.begin(), ix.end()));
        done = next;
    }
    set<string> r;
    for (auto& d : done) {
        string s;
        for (size_t v = 0; v <= TEXT.size(); ++v) { if (v < TEXT.size() && ((unsigned char)TEXT[v] & 0xc0) == 0x80) { s += TEXT[v]; continue; }
            for (int from = (int)v - 1; from >= 0; --from) { auto i = d.find({from, (int)v}); if (i != d.end()) for (size_t k = i->second.size(); k-- > 0;) s += i->second[k].close; }
            for (int to = TEXT.size(); to > (int)v; --to) { auto i = d.find({(int)v, to}); if (i != d.end()) for (auto& p : i->second) s += p.open; }
            if (v < TEXT.size()) s += TEXT[v]; }
        r.insert(s);
    }
    return r;
}
static const vector<vector<string> >& OPTS() {
    static vector<vector<string> > o = { {}, {"--with-blank"}, {"--skip-symbol-edges"}, {"--tags", "form", "parse"}, {"--tags", "form", "--show-only-tags", "lemma", "symbol"}, {"--show-only-tags", "token", "form"}, {"--show-attributes", "y"}, {"--tags", "token", "--with-blank", "--skip-symbol-edges"} };
    return o;
}
static bool has(const vector<string>& o, const string& x) { return std::find(o.begin(), o.end(), x) != o.end(); }
static T values(const vector<string>& o, const string& x) { T r; auto i = std::find(o.begin(), o.end(), x); if (i != o.end()) for (++i; i != o.end() && i->substr(0, 2) != "--"; ++i) r.insert(*i); return r; }
void vh_run(const string& id) {
    auto p = vh::split(id, ':'); unsigned bits = atoi(p[0].c_str()); const Pat& pat = PATS()[atoi(p[1].c_str())]; vector<string> o = OPTS()[atoi(p[2].c_str())]; bool symbols = p[3][0] == '1', collapse = p[3][1] == '0', disambig = p[3][2] == '1';
    AnnotationItemManager aim; Lattice l(aim, TEXT); auto& tm = l.getLayerTagManager(); vector<M> es; map<int, int> at; map<int, Lattice::EdgeDescriptor> ed;
    if (symbols) { l.addSymbols(l.getFirstVertex(), l.getLastVertex()); for (size_t i = 0; i < TEXT.size();) { size_t n = TEXT[i] == '\xc5' ? 2 : 1; string s = TEXT.substr(i, n); es.push_back(M{(int)es.size(), (int)i, (int)(i + n), s, "'" + s, F(), T{"symbol"}, 0, false, true, {}, ""}); i += n; } }
    auto loose = l.addLooseVertex();
    for (size_t k = 0; k < POOL().size(); ++k) if (bits >> k & 1) {
        const E& e = POOL()[k]; AnnotationItem i(e.cat, StringFrag(e.text)); for (auto& a : e.attrs) aim.setValue(i, a.first, a.second); T ts = split(e.tags); vector<int> of; Lattice::EdgeSequence::Builder b(l);
        bool all = true; for (int x : e.of) if (!at.count(x)) all = false;
        if (all) for (int x : e.of) { of.push_back(at[x]); b.addEdge(ed[x]); }
        auto v = [&](int x) { return x < 0 ? loose : l.getVertexForRawCharIndex(x); };
        auto d = l.addEdge(v(e.from), v(e.to), i, tm.createTagCollectionFromList(std::list<string>(ts.begin(), ts.end())), b.build(), e.score); if (e.discarded) l.discard(d);
        M m{(int)es.size(), e.from, e.to, e.text, e.cat, e.attrs, ts, e.score, e.discarded, false, of, ""}; if (m.from < 0) m.from = of.empty() ? -1 : es[of[0]].from; if (m.to < 0) m.to = of.empty() ? -1 : es[of[0]].to;
        at[k] = es.size(); ed[k] = d; es.push_back(m); }
    vector<string> args = o; if (!collapse) args.push_back("--no-collapse"); if (disambig) args.push_back("--disambig"); args.insert(args.end(), {"--opening-bracket", pat.open, "--closing-bracket", pat.close});
    BracketingLatticeWriter::Factory f; std::unique_ptr<LatticeWriter<std::ostream> > w(f.createLatticeWriter(opts(f.optionsHandled(), args)));
    std::ostringstream out; w->writeLattice(l, out);
    // what is shown of each annotation, and which are left out
    T filter = values(o, "--tags"), only = has(o, "--show-only-tags") ? values(o, "--show-only-tags") : filter, attrs = values(o, "--show-attributes");
    auto skip = [&](const M& m) { if (m.discarded || (!has(o, "--with-blank") && m.cat == "B" && m.tags.count("token")) || (has(o, "--skip-symbol-edges") && m.symbol)) return true; if (!filter.empty()) { for (auto& t : m.tags) if (filter.count(t)) return false; return true; } return false; };
    vector<M> shown = es; for (auto& m : shown) { if (!only.empty()) { T t; for (auto& x : m.tags) if (only.count(x)) t.insert(x); m.tags = t; } if (!attrs.empty()) { F g; for (auto& a : m.attrs) if (attrs.count(a.first)) g.insert(a); m.attrs = g; } }
    BracketingQuoter q; vector<string> pats = {q.unescape(pat.open), q.unescape(pat.close)};
    auto possible = [&](const set<int>& kept) {
        vector<int> keep(kept.begin(), kept.end()); if (disambig) std::reverse(keep.begin(), keep.end());        // the whole comes before its parts there
        map<pair<int, int>, vector<M> > by; for (int i : keep) if (es[i].from >= 0 && es[i].to > es[i].from) by[{es[i].from, es[i].to}].push_back(shown[i]);
        map<pair<int, int>, vector<Piece> > spans;
        for (auto& g : by) for (auto& m : g.second) { auto s = print(pats, m, g.second, collapse); Piece pc{s[0], s[1], {m.id}}; auto& v = spans[g.first]; bool dup = false; if (collapse) for (auto& x : v) if (x.open == pc.open && x.close == pc.close) { x.ids.push_back(m.id); dup = true; } if (!dup) v.push_back(pc); }
        return outputs(spans, es);
    };
    if (!disambig) {
        set<int> keep; for (auto& m : es) if (!skip(m)) keep.insert(m.id);
        set<string> want = possible(keep); string ws; for (auto& s : want) ws += "{" + s + "} ";
        if (!want.count(out.str())) vh::fail("brackets", "opening " + string(pat.open) + " closing " + pat.close + ": got {" + out.str() + "} expected one of " + ws);
        if (want.size() && keep.size()) vh::nontrivial();
    } else {
        // one annotation is chosen at each place, of the longest ones, with what it is built of
        for (auto& m : es) if (m.from < 0 || m.to < 0 || (m.from >= 0 && (bits >> 12))) return;
        std::function<void(int, set<int>&)> tree = [&](int e, set<int>& s) { if (!skip(es[e])) s.insert(e); for (int x : es[e].of) tree(x, s); };
        set<string> want; bool known = true;
        std::function<void(int, set<int>)> walk = [&](int v, set<int> have) {
            if (v == (int)TEXT.size()) { auto s = possible(have); want.insert(s.begin(), s.end()); return; }
            int best = -1; for (auto& m : es) if (m.from == v && !skip(m)) best = std::max(best, m.to);
            if (best < 0) { bool any = false; for (auto& m : es) if (m.from == v) { any = true; if (!m.symbol && m.of.size()) known = false; } if (!any) { auto s = possible(have); want.insert(s.begin(), s.end()); return; } set<int> ends; for (auto& m : es) if (m.from == v) ends.insert(m.to); for (int e : ends) walk(e, have); return; }
            for (auto& m : es) if (m.from == v && m.to == best && !skip(m)) { set<int> h = have; tree(m.id, h); walk(best, h); }
        };
        walk(0, set<int>()); string ws; for (auto& s : want) ws += "{" + s + "} ";
        if (known && !want.count(out.str())) vh::fail("disambig", "opening " + string(pat.open) + " closing " + pat.close + ": got {" + out.str() + "} expected one of " + ws);
    }
    vh::outcome(out.str()); vh::state(id); vh::traces(); vh::transitions(es.size());
}
void vh_enumerate(vh::Emit& emit) {
    bool th = vh::thorough(); unsigned n = POOL().size();
    for (unsigned s = 0; s < 1u << n; ++s) { if ((s >> 12) && __builtin_popcount(s & 0xfff) > (th ? 6 : 4)) continue; if (!th && __builtin_popcount(s) > 6) continue;
        for (size_t p = 0; p < PATS().size(); ++p) for (size_t o = 0; o < OPTS().size(); ++o) for (int c = 0; c < 8; ++c) { if (!th && (s * 13 + p * 7 + o * 3 + c) % 47) continue; if (th && (s + p * 3 + o + c) % 7) continue; if ((c & 1) && string(PATS()[p].open).find("%r") != string::npos) continue; if ((s >> 13) && (c & 2) && (string(PATS()[p].open) + PATS()[p].close).find("%*") != string::npos) continue;   // in what order they are joined then is nobody's business
            emit(vh::num(s) + ":" + vh::num(p) + ":" + vh::num(o) + ":" + vh::num(c >> 2 & 1) + vh::num(c >> 1 & 1) + vh::num(c & 1)); } }
}
