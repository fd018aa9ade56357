// G01: the gobio parser adds exactly the constituents that its rules license, and its parse covers the text with the best of them.
#include "vh.hpp"
#include "gobio.hpp"
#include "lattice.hpp"
#include <boost/program_options.hpp>
#include <algorithm>
#include <fstream>
using std::string; using std::vector; using std::map; using std::set; using std::pair;
typedef map<string, string> F;                       // attribute -> value; a missing attribute is "false", "nil" is "any"
// ---- conditions -----------------------------------------------------------------------------------------
struct N { string op, s, attr; int num; vector<N> k; };
static N leaf(const string& v) { return N{"lit", v, "", 0, {}}; }
static N own(const string& a) { return N{"own", "", a, 0, {}}; }
static N of(const string& sym, const string& a, int n = -1) { return N{"of", sym, a, n, {}}; }
static N bi(const string& op, const N& a, const N& b) { return N{op, "", "", 0, {a, b}}; }
static N set_(const string& op, const string& a, const N& v) { return N{op, "", a, 0, {v}}; }
static N sure(const N& a) { return N{"{}", "", "", 0, {a}}; }
static N score(int n) { return N{"setscore", "", "", n, {}}; }
static string str(const N& n, bool top = false) {
    if (n.op == "lit") return n.s;
    if (n.op == "own") return n.attr;
    if (n.op == "of") return n.s + (n.num >= 0 ? "[" + vh::num(n.num) + "]" : "") + "." + n.attr;
    if (n.op == ":=" || n.op == ":==") return (top ? "" : "(") + n.attr + " " + n.op + " " + str(n.k[0]) + (top ? "" : ")");
    if (n.op == "{}") return "{" + str(n.k[0], true) + "}";
    if (n.op == "setscore") return "setscore " + vh::num(n.num);
    string r = n.op == "?:" ? str(n.k[0]) + " ==> " + str(n.k[1]) + " :: " + str(n.k[2]) : str(n.k[0]) + " " + n.op + " " + str(n.k[1]);
    // a conjunction binds tighter than an alternative, comparisons bind tighter than both: no parentheses there
    if (n.op == ";" ) { auto part = [](const N& x) { return str(x, x.op == "," || x.op == "=" || x.op == "==" || x.op == "!="); }; r = part(n.k[0]) + " ; " + part(n.k[1]); }
    if (n.op == ",") { auto part = [](const N& x) { return str(x, x.op == "=" || x.op == "==" || x.op == "!="); }; r = part(n.k[0]) + ", " + part(n.k[1]); }
    return top ? r : "(" + r + ")";
}
// ---- the model ------------------------------------------------------------------------------------------
struct Sym { string cat; bool star; int slot = 0; };
// a terminal has a text of its own, so it differs from a constituent of the same category
struct Edge { int from, to; string cat; F f; bool term = false; bool operator<(const Edge& o) const { return std::tie(from, to, cat, f, term) < std::tie(o.from, o.to, o.cat, o.f, o.term); } bool operator==(const Edge& o) const { return !(*this < o) && !(o < *this); } };
struct Item { vector<vector<Sym> > alts; bool opt; };                 // alternatives, each a sequence
struct Rule { string lhs; vector<Item> rhs; bool hasCond; N cond; };
static string str(const Rule& r) {
    string s = r.lhs + " =";
    for (auto& i : r.rhs) { auto seq = [](const vector<Sym>& v) { string t; for (auto& x : v) t += (t.empty() ? "" : " ") + x.cat + (x.star ? "*" : ""); return t; };
        if (i.alts.size() == 1 && i.alts[0].size() == 1) s += " " + seq(i.alts[0]); else { s += " ("; for (size_t k = 0; k < i.alts.size(); ++k) s += (k ? " | " : "") + seq(i.alts[k]); s += ")"; }
        if (i.opt) s += "?"; }
    return s + (r.hasCond ? "\n\t" + str(r.cond, true) : "") + "\n\n";
}
struct Der { int rule, head; vector<Edge> kids; bool operator<(const Der& o) const { return std::tie(rule, head, kids) < std::tie(o.rule, o.head, o.kids); } };
struct Run { F f; int score; };
static bool istrue(const string& v) { return !v.empty(); }
static string get(const F& f, const string& a) { auto i = f.find(a); return i == f.end() ? "" : i->second; }
static string put(F& f, const string& a, const string& v) { if (v.empty()) f.erase(a); else f[a] = v; return v; }
static string unify(const string& a, const string& b) { return a == b ? a : a == "nil" ? b : b == "nil" ? a : ""; }
static bool isnum(const string& v) { return !v.empty() && v.find_first_not_of("0123456789") == string::npos; }
// a symbol in a condition stands for the place where it is written for the n-th time; alternatives share their places
struct Kids { const vector<Edge>& e; const vector<Sym>& rhs; const map<pair<string, int>, int>& written; };
static string eval(const N& n, Run& r, const Kids& kids) {
    if (n.op == "lit") return n.s == "any" ? "nil" : n.s == "false" ? "" : n.s;
    if (n.op == "own") return get(r.f, n.attr);
    if (n.op == "of") { auto w = kids.written.find({n.s, n.num < 0 ? 0 : n.num}); if (w == kids.written.end()) throw vh::InternalError("reference " + n.s); for (size_t i = 0; i < kids.rhs.size(); ++i) if (kids.rhs[i].slot == w->second) return get(kids.e[i].f, n.attr); return ""; }
    if (n.op == ":=") { string v = eval(n.k[0], r, kids); return put(r.f, n.attr, v); }
    if (n.op == ":==") { string v = eval(n.k[0], r, kids), o = get(r.f, n.attr), u = unify(o, v); if (o == "nil") put(r.f, n.attr, v); return u; }
    if (n.op == "{}") { eval(n.k[0], r, kids); return "nil"; }
    if (n.op == "setscore") { r.score = n.num; return "nil"; }
    if (n.op == ",") { string a = eval(n.k[0], r, kids); return istrue(a) ? eval(n.k[1], r, kids) : a; }
    if (n.op == ";") { string a = eval(n.k[0], r, kids); return istrue(a) ? a : eval(n.k[1], r, kids); }
    if (n.op == "==>") return istrue(eval(n.k[0], r, kids)) ? eval(n.k[1], r, kids) : "nil";
    if (n.op == "?:") return istrue(eval(n.k[0], r, kids)) ? eval(n.k[1], r, kids) : eval(n.k[2], r, kids);
    string a = eval(n.k[0], r, kids), b = eval(n.k[1], r, kids);
    if (n.op == "=") return a == b ? "nil" : "";
    if (n.op == "!=") return a != b ? "nil" : "";
    if (n.op == "==") return unify(a, b);
    if (n.op == "+") return isnum(a) && isnum(b) ? vh::num(atoi(a.c_str()) + atoi(b.c_str())) : "0";
    throw vh::InternalError("operator " + n.op);
}
static vector<vector<Sym> > expand(const Rule& r, map<pair<string, int>, int>* written = 0) {
    vector<vector<Sym> > rs(1); int slot = 0; map<string, int> cnt;
    for (auto& i : r.rhs) {
        vector<vector<Sym> > next; size_t len = 0; vector<vector<Sym> > alts = i.alts;
        for (auto& a : alts) { for (size_t k = 0; k < a.size(); ++k) { a[k].slot = slot + k; if (written) (*written)[{a[k].cat, cnt[a[k].cat]++}] = slot + k; } len = std::max(len, a.size()); }
        for (auto& p : rs) { if (i.opt) next.push_back(p); for (auto& a : alts) { next.push_back(p); next.back().insert(next.back().end(), a.begin(), a.end()); } }
        rs = next; slot += len;
    }
    return rs;
}
struct Chart { map<Edge, set<Der> > es; map<Edge, set<int> > scores; set<Edge> terminals; };
static Chart closure(const vector<Rule>& g, const vector<vector<Edge> >& word) {
    Chart c; for (auto& w : word) for (Edge e : w) { e.term = true; c.es[e]; c.terminals.insert(e); }
    vector<vector<vector<Sym> > > ex; vector<map<pair<string, int>, int> > wr(g.size()); for (size_t i = 0; i < g.size(); ++i) ex.push_back(expand(g[i], &wr[i]));
    for (bool more = true; more;) {
        more = false; vector<Edge> all; for (auto& e : c.es) all.push_back(e.first);
        for (size_t ri = 0; ri < g.size(); ++ri) for (auto& rhs : ex[ri]) {
            if (rhs.empty()) continue;
            vector<Edge> kids; int head = -1; for (size_t i = 0; i < rhs.size(); ++i) if (rhs[i].star) head = i;
            std::function<void(size_t)> go = [&](size_t i) {
                if (i == rhs.size()) {
                    Run r; r.score = 0; if (head >= 0) r.f = kids[head].f;
                    int root = head; if (head < 0) for (size_t k = 0; k < rhs.size(); ++k) if (rhs[k].slot == 0) root = k;   // with no head marked, trees are rooted in the first symbol
                    if (g[ri].hasCond && !istrue(eval(g[ri].cond, r, Kids{kids, rhs, wr[ri]}))) return;
                    Edge e{kids[0].from, kids.back().to, g[ri].lhs, r.f};
                    for (auto& k : kids) if (k == e) return;         // an edge is not its own part
                    auto& ds = c.es[e]; if (ds.insert(Der{(int)ri, root, kids}).second) more = true; c.scores[e].insert(r.score);
                    return;
                }
                for (auto& e : all) if (e.cat == rhs[i].cat && (i == 0 || e.from == kids.back().to)) { kids.push_back(e); go(i + 1); kids.pop_back(); }
            };
            go(0);
        }
    }
    return c;
}
typedef vector<pair<int, pair<int, string> > > Seq;      // children of a node of the tree: from, to, category
// the dependents an edge may have in a tree (a derivation may not use the same edge twice along the path of heads)
static set<Seq> trees(Chart& c, const Edge& e, set<Edge> path) {
    set<Seq> r; if (c.terminals.count(e)) { r.insert(Seq()); return r; }
    if (!path.insert(e).second) return r;
    for (auto& d : c.es[e]) { int h = d.head; set<Seq> below; if (h < 0) below.insert(Seq()); else below = trees(c, d.kids[h], path); for (auto& s : below) { Seq t = s; for (size_t i = 0; i < d.kids.size(); ++i) if ((int)i != h) t.push_back({d.kids[i].from, {d.kids[i].to, d.kids[i].cat}}); std::sort(t.begin(), t.end()); r.insert(t); } }
    return r;
}
// ---- one run --------------------------------------------------------------------------------------------
static string show(const Edge& e) { string s = vh::num(e.from) + "-" + vh::num(e.to) + " " + e.cat + (e.term ? "'" : ""); for (auto& x : e.f) s += "[" + x.first + "=" + x.second + "]"; return s; }
static string dir() { static string d; if (d.empty()) { char b[] = "/tmp/vh-gobio-XXXXXX"; d = mkdtemp(b); atexit([] { string f = dir() + "/rules.g"; unlink(f.c_str()); rmdir(dir().c_str()); }); } return d; }
static void check(const vector<Rule>& g, const vector<vector<Edge> >& word, bool exactScores) {
    string text; for (auto& r : g) text += str(r);
    string path = dir() + "/rules.g"; { std::ofstream o(path.c_str()); o << text; }
    Chart c = closure(g, word);
    Gobio gobio("pl", path, "parse-terminal", -1);
    AnnotationItemManager aim; Lattice l(aim, string(word.size(), 'x')); auto& tm = l.getLayerTagManager();
    for (auto& w : word) for (auto& e : w) { AnnotationItem ai(e.cat, StringFrag("text")); for (auto& a : e.f) aim.setValue(ai, a.first, a.second); l.addEdge(e.from, e.to, ai, tm.createTagCollectionFromList(std::list<string>{"gobio", "parse-terminal"})); }
    gobio.annotate(l);
    // the constituents
    map<Edge, vector<Lattice::EdgeDescriptor> > real, parse; set<Edge> aux; map<Edge, double> sc;
    auto conv = [&](Lattice::EdgeDescriptor d) { Edge e; e.from = l.getEdgeBeginIndex(d); e.to = l.getEdgeEndIndex(d); e.cat = l.getAnnotationCategory(d); e.term = l.getAnnotationText(d) == "text"; for (auto& v : aim.getValues(l.getEdgeAnnotationItem(d))) if (v.first[0] != '!') e.f[v.first] = v.second; return e; };
    auto it = l.allEdgesSortedBySource();
    while (it.hasNext()) { auto d = it.next(); Edge e = conv(d); auto tl = tm.getTagNames(l.getEdgeLayerTags(d)); set<string> ts(tl.begin(), tl.end()); bool isAux = ts.count("parse-aux"), isTerm = ts.count("parse-terminal"), isParse = ts.count("parse");
        if (!isAux && !isTerm && !isParse) vh::fail("foreign-edge", text + show(e));
        if (isAux || isTerm) { if (e.cat[0] == '<') continue; real[e].push_back(d); if (!sc.count(e) || sc[e] < l.getEdgeScore(d)) sc[e] = l.getEdgeScore(d); }
        if (isParse) parse[e].push_back(d); }
    string got, want; for (auto& e : real) got += show(e.first) + "; "; for (auto& e : c.es) want += show(e.first) + "; ";
    if (!vh::expectEq(got, want, "constituents", "rules:\n" + text + "constituents")) return;
    vh::state(text + got); vh::traces(); vh::transitions(c.es.size());
    // every way of building a constituent is recorded, and its score is the sum of the scores of its parts and of its rule's
    bool binary = true; for (auto& r : g) { for (auto& x : expand(r)) if (x.size() > 2) binary = false; }
    map<Edge, double> want_sc; for (auto& e : c.terminals) if (c.es[e].empty()) want_sc[e] = 0;
    if (binary) for (auto& e : c.es) {
        set<vector<Edge> > w, gt; for (auto& d : e.second) w.insert(d.kids);
        for (auto d : real[e.first]) for (auto& p : l.getEdgePartitions(d)) if (p.getRuleId() >= 0) { vector<Edge> k; Lattice::Partition::Iterator pi(l, p); while (pi.hasNext()) k.push_back(conv(pi.next())); gt.insert(k); }
        auto sh = [](const set<vector<Edge> >& s) { string r; for (auto& v : s) { r += "("; for (auto& x : v) r += show(x) + " "; r += ")"; } return r; };
        vh::expectEq(sh(gt), sh(w), "derivations", "rules:\n" + text + "ways of building " + show(e.first));
    }
    if (exactScores) for (bool more = true; more;) { more = false; for (auto& e : c.es) if (!want_sc.count(e.first) && e.second.size() == 1 && c.scores[e.first].size() == 1 && !c.terminals.count(e.first)) { double s = *c.scores[e.first].begin(); bool ok = true; for (auto& k : e.second.begin()->kids) if (want_sc.count(k)) s += want_sc[k]; else ok = false; if (ok) { want_sc[e.first] = s; more = true; vh::expectEq(sc[e.first], s, "score", "rules:\n" + text + "score of " + show(e.first)); } } }
    // the parse: from the left, the longest constituents, the best-scored of those
    string seqs; size_t v = 0; int top = 0;
    while (v < word.size()) {
        int best = 0; for (auto& e : real) if (e.first.from == (int)v) best = std::max(best, e.first.to);
        if (!best) { vh::fail("gap", text); return; }
        double bs = -1e9; for (auto& e : real) if (e.first.from == (int)v && e.first.to == best) bs = std::max(bs, sc[e.first]);
        bool ok = false; string cand; vector<Edge> chosen;
        for (auto& e : real) if (e.first.from == (int)v && e.first.to == best && sc[e.first] == bs) { cand += show(e.first) + "; "; Edge pe = e.first; pe.term = false; if (parse.count(pe)) { ok = true; chosen.push_back(e.first); } }
        if (!ok) { string p; for (auto& e : parse) p += show(e.first) + "; "; vh::fail("choice", "rules:\n" + text + "none of the best constituents from " + vh::num(v) + ": " + cand + " is in the parse: " + p); return; }
        bool fits = false; string all;
        for (auto& e : chosen) { set<Seq> ts = trees(c, e, set<Edge>()); Edge pe = e; pe.term = false;
            for (auto d : parse[pe]) for (auto& p : l.getEdgePartitions(d)) if (p.getRuleId() < 0) { Seq k; Lattice::Partition::Iterator pi(l, p); while (pi.hasNext()) { Edge x = conv(pi.next()); k.push_back({x.from, {x.to, x.cat}}); }
                all += "("; for (auto& x : k) all += vh::num(x.first) + "-" + vh::num(x.second.first) + x.second.second + " "; all += ")";
                if (ts.count(k)) fits = true;
                if (ts.count(Seq()) && k.size() == 1) { bool term = false; for (auto& t : c.terminals) if (t.from == k[0].first && t.to == k[0].second.first && t.cat == k[0].second.second && t.from == e.from && t.to == e.to) term = true; if (term) fits = true; } } }
        if (!fits) vh::fail("tree", "rules:\n" + text + "the children of " + cand + " in the parse are " + all);
        v = best; ++top;
    }
    vh::outcome(vh::num(top) + "/" + vh::num(real.size())); if (top < (int)word.size()) vh::nontrivial();
}
// ---- the bounded space ----------------------------------------------------------------------------------
static Rule rule(const string& lhs, const vector<Sym>& rhs) { Rule r; r.lhs = lhs; for (auto& s : rhs) r.rhs.push_back(Item{{{s}}, false}); r.hasCond = false; return r; }
static Rule rule(const string& lhs, const vector<Sym>& rhs, const N& n) { Rule r = rule(lhs, rhs); r.hasCond = true; r.cond = n; return r; }
static vector<vector<Edge> > plain(const string& w) { vector<vector<Edge> > r; for (size_t i = 0; i < w.size(); ++i) r.push_back({Edge{(int)i, (int)i + 1, string(1, w[i]), F()}}); return r; }
static const vector<Rule>& CFG() {          // every unary and binary rule over three categories
    static vector<Rule> rs; if (rs.empty()) { const char* C[] = {"a", "b", "s"}; for (auto l : C) { for (auto x : C) rs.push_back(rule(l, {Sym{x, true}})); for (auto x : C) for (auto y : C) rs.push_back(rule(l, {Sym{x, false}, Sym{y, true}})); } }
    return rs;
}
static const vector<N>& ATOMS() {
    static vector<N> a; if (a.empty()) { a = {
        bi("==", of("a", "X"), of("b", "X")), bi("=", of("a", "X"), of("b", "X")), bi("!=", of("a", "X"), of("b", "X")), bi("=", own("X"), leaf("1")), bi("!=", own("X"), leaf("2")), bi("==", own("Y"), leaf("m")), bi("=", of("b", "Y"), leaf("false")),
        set_(":=", "X", of("a", "X")), set_(":=", "Y", of("b", "X")), set_(":=", "Z", leaf("3")), set_(":=", "X", leaf("false")), set_(":=", "Y", leaf("any")), set_(":==", "X", of("a", "X")), set_(":==", "Y", of("b", "Y")), set_(":==", "Y", leaf("n")),
        set_(":=", "Z", bi("+", of("a", "X"), of("b", "X"))), set_(":=", "Z", bi("==", of("a", "Y"), of("b", "Y"))), sure(bi("=", of("a", "X"), leaf("1"))), sure(set_(":=", "X", of("a", "Y"))), own("Y"), of("a", "X"), score(2), bi("=", leaf("1"), of("b", "X")) }; }
    return a;
}
static vector<vector<Edge> > AB() {
    return { { Edge{0, 1, "a", F()}, Edge{0, 1, "a", F{{"X", "1"}}}, Edge{0, 1, "a", F{{"X", "2"}, {"Y", "m"}}}, Edge{0, 1, "a", F{{"Y", "n"}}} },
             { Edge{1, 2, "b", F()}, Edge{1, 2, "b", F{{"X", "1"}}}, Edge{1, 2, "b", F{{"X", "2"}, {"Y", "n"}}}, Edge{1, 2, "b", F{{"X", "1"}, {"Y", "m"}}} } };
}
static vector<N> nary(const vector<string>& s) {        // conditions over the symbols of a longer rule
    vector<N> r;
    for (size_t i = 0; i < s.size(); ++i) for (size_t j = i + 1; j < s.size(); ++j) { r.push_back(bi("==", of(s[i], "X"), of(s[j], "X"))); r.push_back(bi("!=", of(s[i], "X"), of(s[j], "X"))); r.push_back(bi("=", of(s[i], "X"), of(s[j], "X"))); }
    for (size_t i = 0; i < s.size(); ++i) { r.push_back(set_(":=", "Y", of(s[i], "X"))); r.push_back(bi("=", of(s[i], "X"), leaf("2"))); r.push_back(sure(set_(":=", "Z", of(s[i], "Y")))); }
    r.push_back(bi("=", own("X"), leaf("1")));
    return r;
}
static const vector<Item>& ITEMS() {
    static vector<Item> v; if (v.empty()) { auto S = [](const char* c) { return Sym{c, false}; };
        v = { Item{{{S("a")}}, false}, Item{{{S("a")}}, true}, Item{{{S("b")}}, false}, Item{{{S("b")}}, true}, Item{{{S("a")}, {S("b")}}, false}, Item{{{S("a")}, {S("b")}}, true}, Item{{{S("a"), S("b")}, {S("b")}}, false}, Item{{{S("a"), S("a")}, {S("b")}}, true}, Item{{{S("b"), S("a")}, {S("a"), S("a")}}, true} }; }
    return v;
}
static vector<vector<Edge> > many(const vector<string>& cats, int variants) {
    vector<vector<Edge> > w; for (size_t i = 0; i < cats.size(); ++i) { w.push_back({}); for (int v = 0; v < variants; ++v) { F f; if (v == 1) f["X"] = "1"; if (v == 2) { f["X"] = "2"; f["Y"] = "m"; } w.back().push_back(Edge{(int)i, (int)i + 1, cats[i], f}); } }
    return w;
}
void vh_enumerate(vh::Emit& emit) {
    size_t n = CFG().size(); bool T = vh::thorough();
    vh::strings({"a", "b"}, 3, [&](const string& w) { for (size_t i = 0; i < n; ++i) emit("cfg:" + w + ":" + vh::num(i)); }, 1);
    vh::strings({"a", "b"}, T ? 4 : 3, [&](const string& w) { if (w[0] != 'a') return; for (size_t i = 0; i < n; ++i) for (size_t j = i + 1; j < n; ++j) emit("cfg:" + w + ":" + vh::num(i) + ":" + vh::num(j)); }, 2);
    if (T) for (const char* w : {"aab", "aba", "abb", "aaa"}) for (size_t i = 0; i < n; ++i) for (size_t j = i + 1; j < n; ++j) for (size_t k = j + 1; k < n; ++k) emit("cfg:" + string(w) + ":" + vh::num(i) + ":" + vh::num(j) + ":" + vh::num(k));
    else for (size_t i = 0; i < n; ++i) for (size_t j = i + 1; j < n; ++j) for (size_t k = j + 1; k < n; ++k) emit("cfg:aba:" + vh::num(i) + ":" + vh::num(j) + ":" + vh::num(k));
    int na = ATOMS().size();
    for (int star = 0; star < 3; ++star) { for (int i = 0; i < na; ++i) emit("cond:" + vh::num(star) + ":" + vh::num(i));
        for (const char* op : {",", ";", "==>"}) for (int i = 0; i < na; ++i) for (int j = 0; j < na; ++j) emit("cond:" + vh::num(star) + ":" + vh::num(i) + ":" + op + ":" + vh::num(j));
        if (star == 1 || T) for (const char* op : {"?:", ",;", ";,", "{,"}) for (int i = 0; i < na; ++i) for (int j = 0; j < na; ++j) for (int k = 0; k < na; k += T ? 1 : 3) emit("cond3:" + vh::num(star) + ":" + vh::num(i) + ":" + op + ":" + vh::num(j) + ":" + vh::num(k)); }
    // longer rules: symbols, star, two conditions
    for (const char* syms : {"abc", "abcd", "aab", "aaa", "aba"}) { size_t L = strlen(syms); set<char> distinct(syms, syms + L); if (distinct.size() < L) continue; vector<string> s; for (const char* p = syms; *p; ++p) s.push_back(string(1, *p)); int nn = nary(s).size();
        for (int star = 0; star <= (int)L; ++star) for (int i = -1; i < nn; ++i) for (int j = i; j < nn; ++j) for (const char* op : {",", ";"}) { if (L == 4 && !T && (i * 7 + j) % 3) continue; emit("nary:" + string(syms) + ":" + vh::num(star) + ":" + vh::num(i) + ":" + op + ":" + vh::num(j)); } }
    for (int star = 0; star <= 3; ++star) for (int i = 0; i < 11; ++i) for (int j = 0; j < 11; ++j) for (int k = 0; k < 11; ++k) emit("assign:" + vh::num(star) + ":" + vh::num(i) + ":" + vh::num(j) + ":" + vh::num(k));
    for (const char* syms : {"aab", "aaa", "aba"}) for (int star = 0; star <= 3; ++star) for (int i = 0; i < 9; ++i) for (int j = i; j < 9; ++j) emit("same:" + string(syms) + ":" + vh::num(star) + ":" + vh::num(i) + ":" + vh::num(j));
    // two longer rules sharing some symbols: they share what is built of them
    for (int s1 = 0; s1 < 4; ++s1) for (int s2 = 0; s2 < 4; ++s2) for (int i = -1; i < 19; ++i) for (int j = -1; j < 19; ++j) for (const char* w : {"abc/abd", "abc/bcd", "abc/abc"}) emit("two:" + string(w) + ":" + vh::num(s1) + ":" + vh::num(s2) + ":" + vh::num(i) + ":" + vh::num(j));
    // alternatives and optional symbols
    int ni = ITEMS().size();
    for (int i = 0; i < ni; ++i) for (int j = 0; j < ni; ++j) for (int pos = 0; pos < 4; ++pos) for (int cond = 0; cond < 3; ++cond) for (const char* w : {"ab", "aab", "abab", "baab", "aabb", "bbaa", "ba"}) { if (!T && strlen(w) == 4 && pos == 3) continue; emit("alt:" + vh::num(i) + ":" + vh::num(j) + ":" + vh::num(pos) + ":" + vh::num(cond) + ":" + w); }
}
void vh_run(const string& id) {
    auto p = vh::split(id, ':'); auto at = [&](size_t i) { return atoi(p[i].c_str()); };
    if (p[0] == "cfg") { vector<Rule> g; for (size_t i = 2; i < p.size(); ++i) { g.push_back(CFG()[at(i)]); if (i % 2 == 1) { g.back().hasCond = true; g.back().cond = score(i); } } check(g, plain(p[1]), true); }
    else if (p[0] == "cond" || p[0] == "cond3") {
        // the operators contain colons
        string rest = id.substr(p[0].size() + 1); int star = rest[0] - '0'; rest = rest.substr(2); string op; vector<int> ix; size_t i = 0; while (i < rest.size()) { if (isdigit((unsigned char)rest[i])) { size_t e; ix.push_back(std::stoi(rest.substr(i), &e)); i += e; } else { size_t e = rest.find_first_of("0123456789", i); op = rest.substr(i, e - i); i = e; } }
        if (op.size() > 1 && op[0] == ':') op = op.substr(1); if (op.size() > 1 && op.back() == ':') op.pop_back(); if (op == "?") op = "?:";
        auto& A = ATOMS(); N n = A[ix[0]];
        if (ix.size() == 2) n = bi(op, A[ix[0]], A[ix[1]]);
        if (ix.size() == 3) { if (op == "?:") n = N{"?:", "", "", 0, {A[ix[0]], A[ix[1]], A[ix[2]]}}; else if (op == ",;") n = bi(";", bi(",", A[ix[0]], A[ix[1]]), A[ix[2]]); else if (op == ";,") n = bi(",", A[ix[0]], bi(";", A[ix[1]], A[ix[2]])); else n = bi(",", sure(bi(",", A[ix[0]], A[ix[1]])), A[ix[2]]); }
        check({rule("s", {Sym{"a", star == 0}, Sym{"b", star == 1}}, n)}, AB(), true);
    } else if (p[0] == "nary") {
        vector<string> s; vector<Sym> rhs; for (size_t i = 0; i < p[1].size(); ++i) { s.push_back(string(1, p[1][i])); rhs.push_back(Sym{s.back(), at(2) == (int)i}); }
        auto C = nary(s); int i = at(3), j = at(5); vector<Rule> g;
        if (i < 0 && j < 0) g = {rule("s", rhs)}; else if (i < 0 || i == j) g = {rule("s", rhs, C[j])}; else g = {rule("s", rhs, bi(p[4], C[i], C[j]))};
        check(g, many(s, s.size() > 3 ? 2 : 3), true);
    } else if (p[0] == "same") {
        vector<string> s; vector<Sym> rhs; for (size_t i = 0; i < p[1].size(); ++i) { s.push_back(string(1, p[1][i])); rhs.push_back(Sym{s.back(), at(2) == (int)i}); }
        map<string, int> cnt; vector<pair<string, int> > r; for (auto& x : s) r.push_back({x, cnt[x]++}); auto R = [&](int k, const char* a) { return of(r[k].first, a, r[k].second); };
        vector<N> C = { bi("==", R(0, "X"), R(1, "X")), bi("==", R(1, "X"), R(2, "X")), bi("!=", R(0, "X"), R(2, "X")), set_(":=", "Y", R(0, "X")), set_(":=", "Y", R(1, "X")), set_(":=", "Z", R(2, "X")), bi("=", R(0, "X"), leaf("1")), bi("=", R(1, "X"), leaf("1")), bi("=", R(2, "X"), leaf("2")) };
        int i = at(3), j = at(4); check({rule("s", rhs, i == j ? C[i] : bi(",", C[i], C[j]))}, many(s, 3), true);
    } else if (p[0] == "assign") {         // assignments one after another, and a look at what they have left
        vector<Sym> rhs; for (int i = 0; i < 3; ++i) rhs.push_back(Sym{string(1, "abc"[i]), at(1) == i});
        vector<N> C = { set_(":=", "Y", of("a", "X")), sure(set_(":=", "X", of("b", "X"))), sure(set_(":=", "Z", of("c", "Y"))), set_(":=", "X", leaf("2")), sure(set_(":==", "Y", of("c", "X"))), bi("=", own("X"), leaf("1")), bi("!=", own("Y"), leaf("2")), bi("=", own("Z"), leaf("m")), bi("==", own("X"), of("c", "X")), bi("=", own("Y"), of("b", "X")), bi("=", own("Z"), of("a", "Y")) };
        check({rule("s", rhs, bi(",", bi(",", C[at(2)], C[at(3)]), C[at(4)]))}, many({"a", "b", "c"}, 3), true);
    } else if (p[0] == "two") {
        auto ws = vh::split(p[1], '/'); vector<Rule> g;
        for (int k = 0; k < 2; ++k) { vector<string> s; vector<Sym> rhs; for (size_t i = 0; i < 3; ++i) { s.push_back(string(1, ws[k][i])); rhs.push_back(Sym{s.back(), at(2 + k) == (int)i}); } auto C = nary(s); int c = at(4 + k); g.push_back(c < 0 ? rule(k ? "t" : "s", rhs) : rule(k ? "t" : "s", rhs, C[c])); }
        // the last symbols stand at the same place, so that both rules apply to one text
        vector<vector<Edge> > w = many({"a", "b", "c"}, 3); if (ws[1] == "abd") { for (int v = 0; v < 2; ++v) w[2].push_back(Edge{2, 3, "d", v ? F{{"X", "1"}} : F()}); } else if (ws[1] == "bcd") w.push_back({Edge{3, 4, "d", F()}, Edge{3, 4, "d", F{{"X", "1"}}}});
        check(g, w, true);
    } else if (p[0] == "alt") {
        Item h{{{Sym{"h", true}}}, false}; Rule r; r.lhs = "s"; r.rhs = {ITEMS()[at(1)], ITEMS()[at(2)]}; int pos = at(3); string w = p[5]; if (pos < 3) { r.rhs.insert(r.rhs.begin() + pos, h); } 
        if (pos == 3 && r.rhs[0].opt && r.rhs[1].opt) return;
        { set<string> sy; for (auto& x : expand(r)) for (auto& y : x) sy.insert(y.cat); if (at(4) && !(sy.count("a") && sy.count("b"))) return; }   // conditions may only mention symbols of the rule          // it would match nothing at all
        r.hasCond = at(4); if (at(4) == 1) r.cond = bi(",", sure(set_(":=", "X", of("a", "X"))), sure(set_(":=", "Y", of("b", "X")))); if (at(4) == 2) r.cond = bi(";", bi("=", of("a", "X"), leaf("1")), bi("=", of("b", "X"), leaf("2")));
        // the head may stand at any place
        for (size_t k = 0; k <= (pos == 3 ? 0 : w.size()); ++k) { string t = w; if (pos < 3) t.insert(k, "h"); vector<vector<Edge> > e = plain(t); for (size_t i = 0; i < e.size(); ++i) if (i % 2) e[i][0].f["X"] = i % 4 == 1 ? "1" : "2"; check({r}, e, true); }
    } else throw vh::InternalError("case " + id);
}
