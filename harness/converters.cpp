// X01: the selector, the antiselector and the joiner add exactly the edges their options imply.
#include "vh.hpp"
#include "annotator.hpp"
#include "annotation_item_manager.hpp"
#include "lattice.hpp"
#include "lattice_worker.hpp"
#include "selector.hpp"
#include "antiselector.hpp"
#include "joiner.hpp"
#include <boost/program_options.hpp>
#include <algorithm>
using std::string; using std::vector; using std::map; using std::set; using std::pair;
typedef map<string, string> F; typedef set<string> T;
static boost::program_options::variables_map opts(const boost::program_options::options_description& d, const vector<string>& a) { boost::program_options::variables_map vm; boost::program_options::store(boost::program_options::command_line_parser(a).options(d).run(), vm); boost::program_options::notify(vm); return vm; }
static T split(const string& s, char c = ',') { T r; size_t i = 0; while (i <= s.size()) { size_t e = s.find(c, i); if (e == string::npos) e = s.size(); if (e > i) r.insert(s.substr(i, e - i)); i = e + 1; } return r; }
struct E { int from, to; const char *text, *cat; F attrs; const char* tags; int parent; };
static const vector<E>& SEL() {
    static vector<E> e = {
        {0, 1, "a", "T", F(), "token", -1}, {1, 2, "b", "B", F(), "token", -1}, {2, 3, "c", "T", F(), "token", -1}, {0, 2, "A", "T", F(), "token,morfologik", -1},
        {0, 1, "x", "C", F{{"condition", "T"}}, "conditional", -1}, {1, 2, "z", "C", F{{"condition", "*"}}, "conditional", -1}, {0, 1, "y", "B", F{{"x", "2"}}, "conditional,test", -1}, {2, 3, "w", "B", F{{"condition", "k=1&Q|R"}}, "conditional", -1},
        {0, 2, "u", "C", F{{"condition", "R|x=2"}}, "conditional", -1}, {1, 3, "v", "C", F{{"condition", "Q|x=*"}}, "conditional", -1}, {0, 2, "t", "R", F{{"x", "3"}}, "test", -1}, {2, 3, "t", "Q", F{{"k", "1"}}, "test", -1}, {1, 3, "s", "Q", F{{"x", "2"}}, "other", -1}, {1, 2, "b", "Q", F(), "token,test", -1}
    };
    return e;
}
static const vector<E>& JOIN() {
    static vector<E> e = {
        {0, 2, "p", "F", F(), "form", -1}, {0, 2, "q", "F", F{{"x", "1"}}, "form", -1}, {0, 1, "r", "F", F(), "form", -1},
        {0, 2, "l0", "L", F{{"x", "1"}}, "!pl,lex", 0}, {0, 2, "l1", "L", F(), "!pl,lex", 1}, {0, 2, "l2", "L", F(), "!pl,lex", -1}, {0, 1, "l3", "L", F{{"y", "3"}}, "!pl,lex", 2}, {0, 2, "l4", "L", F(), "!pl,lex,sem", 0}, {0, 2, "l5", "L", F(), "lex", 0},
        {0, 2, "r0", "R", F{{"x", "2"}, {"y", "3"}}, "!pl,sem", 0}, {0, 2, "l0", "L", F(), "!pl,sem", 0}, {0, 2, "r2", "R", F(), "!pl,!en,sem", 1}, {0, 2, "r3", "R", F(), "!pl,sem", -1}, {0, 1, "r4", "R", F(), "!de,!pl,sem", 2}
    };
    return e;
}
// the model: edges in the order in which they were added
struct ME { int from, to; string text, cat; F attrs; T tags; set<vector<int> > parts; };
static T plane(const T& t) { T r; for (auto& x : t) if (x[0] == '!') r.insert(x); return r; }
struct Model {
    vector<ME> es;
    bool has(int e, const T& m) { return std::includes(es[e].tags.begin(), es[e].tags.end(), m.begin(), m.end()); }
    int add(int from, int to, const string& text, const string& cat, const F& attrs, T tags, const vector<int>& of) {
        if (plane(tags).empty()) for (int x : of) { T p = plane(es[x].tags); tags.insert(p.begin(), p.end()); }
        int e = -1; for (size_t i = 0; i < es.size(); ++i) if (es[i].from == from && es[i].to == to && es[i].text == text && es[i].cat == cat && es[i].attrs == attrs && plane(es[i].tags) == plane(tags)) e = i;
        bool self = e >= 0 && std::count(of.begin(), of.end(), e);
        if (e < 0) { e = es.size(); es.push_back(ME{from, to, text, cat, attrs, T(), {}}); } es[e].tags.insert(tags.begin(), tags.end()); es[e].parts.insert(self ? vector<int>() : of);
        return e;
    }
    vector<int> out(int v, const T& m) { vector<int> r; for (size_t e = 0; e < es.size(); ++e) if (es[e].from == v && has(e, m)) r.push_back(e); return r; }
};
struct Lat {
    AnnotationItemManager aim; Lattice l; vector<Lattice::EdgeDescriptor> ed; Model m; map<int, int> pool;
    Lat(const vector<E>& es, const vector<int>& order) : l(aim, "abc") {
        for (int k : order) { const E& e = es[k]; AnnotationItem i(e.cat, StringFrag(e.text)); for (auto& a : e.attrs) aim.setValue(i, a.first, a.second); T ts = split(e.tags);
            Lattice::EdgeSequence::Builder b(l); vector<int> of; if (e.parent >= 0 && pool.count(e.parent)) { b.addEdge(ed[pool[e.parent]]); of.push_back(pool[e.parent]); }
            ed.push_back(l.addEdge(l.getVertexForRawCharIndex(e.from), l.getVertexForRawCharIndex(e.to), i, l.getLayerTagManager().createTagCollectionFromList(std::list<string>(ts.begin(), ts.end())), b.build()));
            pool[k] = m.add(e.from, e.to, e.text, e.cat, e.attrs, ts, of); }
    }
    string one(int from, int to, const string& text, const string& cat, const F& f, const T& tags) { string s = vh::num(from) + "-" + vh::num(to) + " " + text + "/" + cat; for (auto& x : f) s += "[" + x.first + "=" + x.second + "]"; for (auto& t : tags) s += " " + t; return s; }
    string name(int e) { ME& x = m.es[e]; return one(x.from, x.to, x.text, x.cat, x.attrs, T()); }
    string name(Lattice::EdgeDescriptor e) { F f; for (auto& v : aim.getValues(l.getEdgeAnnotationItem(e))) f[v.first] = v.second; return one(l.getEdgeBeginIndex(e), l.getEdgeEndIndex(e), l.getAnnotationText(e), l.getAnnotationCategory(e), f, T()); }
    string real() {
        std::multiset<string> r; auto it = l.allEdgesSortedBySource();
        while (it.hasNext()) { auto e = it.next(); auto n = l.getLayerTagManager().getTagNames(l.getEdgeLayerTags(e)); string s = name(e); for (auto& t : T(n.begin(), n.end())) s += " " + t; set<string> ps; for (auto& p : l.getEdgePartitions(e)) { string q; Lattice::Partition::Iterator pi(l, p); while (pi.hasNext()) q += name(pi.next()) + "+"; ps.insert(q); } s += " of"; for (auto& p : ps) s += " {" + p + "}"; r.insert(s); }
        string o; for (auto& s : r) o += s + "; "; return o;
    }
    string expected() {
        std::multiset<string> r; for (size_t i = 0; i < m.es.size(); ++i) { string s = name((int)i); for (auto& t : m.es[i].tags) s += " " + t; set<string> ps; for (auto& p : m.es[i].parts) { string q; for (int x : p) q += name(x) + "+"; ps.insert(q); } s += " of"; for (auto& p : ps) s += " {" + p + "}"; r.insert(s); }
        string o; for (auto& s : r) o += s + "; "; return o;
    }
};
static bool satisfied(Model& m, int e, const string& test) {
    auto c = m.es[e].attrs.find("condition"); if (c == m.es[e].attrs.end() || c->second == "*") return true;
    for (size_t t = 0; t < m.es.size(); ++t) { if (m.es[t].from != m.es[e].from || m.es[t].to != m.es[e].to || (test.size() && !m.es[t].tags.count(test))) continue;
        for (auto& alt : split(c->second, '|')) { bool all = true; for (auto& x : split(alt, '&')) { size_t q = x.find('='); bool ok = m.es[t].cat == x; if (q != string::npos) { auto a = m.es[t].attrs.find(x.substr(0, q)); ok = a != m.es[t].attrs.end() && a->second == x.substr(q + 1); } if (!ok) all = false; } if (all) return true; } }
    return false;
}
static const char* OUTS[] = {0, "selected", "token,conditional,sel"};
void vh_run(const string& id) {
    char kind = id[0]; size_t p = id.find(':', 2); string o = id.substr(2, p - 2); unsigned bits = atoi(id.c_str() + p + 1); bool back = id[id.size() - 1] == 'r';
    const vector<E>& pool = kind == 'j' ? JOIN() : SEL(); vector<int> order; for (size_t i = 0; i < pool.size(); ++i) if (bits >> i & 1) order.push_back(i); if (back) std::reverse(order.begin() + (kind == 'j' ? std::min<size_t>(__builtin_popcount(bits & 7), order.size()) : 0), order.end());
    Lat l(pool, order); Model& m = l.m; std::unique_ptr<Annotator> a;
    if (kind == 'j') {
        int attrs = o[2] - '0', outer = o[3] - '0', out = o[4] - '0'; vector<string> v = {"--lang", "pl", "--left-mask", "lex", "--right-mask", out == 3 ? "sem;form" : "sem", "--out-tags", out == 1 ? "joined,!en" : out == 2 ? "joined,!pl" : "joined"};
        if (o[0] == '1') v.push_back("--take-right-text"); if (o[1] == '1') v.push_back("--take-right-category"); if (attrs == 1) v.push_back("--take-left-attributes"); if (attrs == 2) v.push_back("--take-right-attributes"); if (outer & 1) v.push_back("--no-outer-join"); if (outer & 2) v.push_back("--extended-outer-join");
        Joiner::Factory f; a.reset(f.createAnnotator(opts(f.optionsHandled(), v)));
        T outs = split(v[7]), left = {"lex", "!pl"}, right = {"sem", "!pl"};
        vector<int> lefts; for (int v0 = 0; v0 < 3; ++v0) for (int e : m.out(v0, left)) lefts.push_back(e);
        for (int e : lefts) { bool found = false; int parent = -1; for (auto& q : m.es[e].parts) if (!q.empty() && parent < 0) parent = q[0]; ME le = m.es[e];
            if (parent >= 0) for (int r : m.out(m.es[parent].from, right)) { ME re = m.es[r]; bool child = false; for (auto& q : re.parts) if (std::count(q.begin(), q.end(), parent)) child = true; if (!child || re.to != le.to) continue; found = true;
                F at = attrs == 2 ? re.attrs : le.attrs; if (!attrs) for (auto& x : re.attrs) at[x.first] = x.second; m.add(le.from, le.to, o[0] == '1' ? re.text : le.text, o[1] == '1' ? re.cat : le.cat, at, outs, {e, r}); }
            if (outer & 2 || (!found && !(outer & 1))) m.add(le.from, le.to, le.text, le.cat, le.attrs, outs, {e}); }
    } else {
        bool blank = o[0] == '1'; int out = o[1] - '0', in = o[2] - '0'; string test = o[3] == '1' ? "test" : ""; vector<string> v; if (blank) v.push_back("--with-blank"); if (out) { v.push_back("--out-tags"); v.push_back(OUTS[out]); } string inTag = in ? "other" : "conditional", fb = in == 2 ? "test" : "token"; if (in) { v.push_back("--in-tag"); v.push_back(inTag); } if (in == 2) { v.push_back("--fallback-tag"); v.push_back(fb); } if (test.size()) { v.push_back("--test-tag"); v.push_back(test); }
        T outs = split(out ? OUTS[out] : "selected,token"), I = {inTag}, B = {fb};
        if (kind == 'a') {
            Antiselector::Factory f; a.reset(f.createAnnotator(opts(f.optionsHandled(), v))); vector<int> sel; for (size_t e = 0; e < m.es.size(); ++e) if (m.has(e, B) && (blank || m.es[e].cat != "B")) { bool co = false; for (size_t i = 0; i < m.es.size(); ++i) if (m.has(i, I) && m.es[i].from == m.es[e].from && m.es[i].to == m.es[e].to) co = true; if (!co) sel.push_back(e); }
            if (out == 2 && sel.size()) { vector<int> s2; sel.clear(); T done;       // the added edges count themselves from then on
                for (int v0 = 0; v0 < 4; ++v0) for (int e : m.out(v0, B)) { bool co = false; for (size_t i = 0; i < m.es.size(); ++i) if (m.has(i, I) && m.es[i].from == m.es[e].from && m.es[i].to == m.es[e].to) co = true; if (!co && (blank || m.es[e].cat != "B")) { ME x = m.es[e]; m.add(x.from, x.to, x.text, x.cat, x.attrs, outs, {}); } } }
            for (int e : sel) { ME x = m.es[e]; m.add(x.from, x.to, x.text, x.cat, x.attrs, outs, {}); }
        } else {
            Selector::Factory f; a.reset(f.createAnnotator(opts(f.optionsHandled(), v)));
            for (int v0 = 0; v0 < 4; ++v0) { vector<int> fbs = m.out(v0, B); if (fbs.empty()) continue; ME fe = m.es[fbs[0]]; vector<int> sel;
                for (int e : m.out(v0, I)) { vector<int> seq; bool ok = true; for (int x = e;;) { if (!satisfied(m, x, test)) { ok = false; break; } seq.push_back(x); if (m.es[x].to == fe.to) break; vector<int> nx = m.out(m.es[x].to, I); if (nx.empty()) break; x = nx[0]; } if (ok) sel.insert(sel.end(), seq.begin(), seq.end()); }
                if (!sel.empty()) { for (int e : sel) { ME x = m.es[e]; if (blank || x.cat != "B") m.add(x.from, x.to, x.text, x.cat, x.attrs, outs, {}); } }
                else if (blank || fe.cat != "B") m.add(fe.from, fe.to, fe.tags.count("morfologik") ? string("abc").substr(fe.from, fe.to - fe.from) : fe.text, fe.cat, fe.attrs, outs, {}); }
        }
    }
    a->annotate(l.l); string got = l.real(), want = l.expected(); vh::expectEq(got, want, kind == 'j' ? "joined" : kind == 'a' ? "antiselected" : "selected", "edges after the annotation"); vh::outcome(got); vh::state(got); vh::transitions(m.es.size()); vh::traces();
}
void vh_enumerate(vh::Emit& emit) {
    bool th = vh::thorough();
    for (unsigned s = 0; s < 1u << SEL().size(); ++s) for (int r = 0; r < 2; ++r) for (int b = 0; b < 2; ++b) for (int o = 0; o < 3; ++o) for (int t = 0; t < 2; ++t) { if (!th && (r || o) && (s * 7 + r + b + o + t) % 5) continue; emit("s:" + vh::num(b) + vh::num(o) + "0" + vh::num(t) + ":" + vh::num(s) + (r ? "r" : "")); }
    for (unsigned s = 0; s < 1u << SEL().size(); ++s) for (int i = 0; i < 3; ++i) for (int b = 0; b < 2; ++b) for (int o = 0; o < 3; ++o) { if (!th && (s * 5 + i + b + o) % 4) continue; emit("a:" + vh::num(b) + vh::num(o) + vh::num(i) + "0:" + vh::num(s)); }
    for (unsigned s = 0; s < 1u << JOIN().size(); ++s) for (int x = 0; x < 96; ++x) for (int o = 0; o < 3; ++o) { if (!th && (s ^ x * 31 ^ o * 977) % 32) continue; emit("j:" + vh::num(x & 1) + vh::num(x >> 1 & 1) + vh::num(x / 4 % 3) + vh::num(x / 12 % 4) + vh::num(o) + ":" + vh::num(s) + (x / 48 ? "r" : "")); }
}
