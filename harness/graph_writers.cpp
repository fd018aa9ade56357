// F09: the DOT and Graphviz writers draw exactly the edges asked for; the morphology and phrases writers list exactly the forms.
#include "vh.hpp"
#include "lattice.hpp"
#include "annotation_item_manager.hpp"
#include "plugin_manager.hpp"
#include "graphviz_adapter_interface.hpp"
#include "dot_lattice_writer.hpp"
#include "gv_lattice_writer.hpp"
#include "morphology_lattice_writer.hpp"
#include "phrases_lattice_writer.hpp"
#include <boost/program_options.hpp>
#include <fstream>
#include <sstream>
#include <memory>
#include <locale>
#include <map>
#include <set>
#include <algorithm>
using std::string; using std::vector; using std::map; using std::pair; using std::set;
// --- a drawing: nodes and arrows with their properties
typedef map<string, string> Props;
struct Drawing { Props graph; map<string, Props> nodes; vector<pair<pair<string, string>, Props> > arrows;
    string str() const { string s; auto pr = [&](const Props& p) { for (auto& x : p) s += " " + x.first + "=<" + x.second + ">"; s += "\n"; }; s += "graph"; pr(graph); for (auto& n : nodes) { s += n.first; pr(n.second); } vector<string> as; for (auto& a : arrows) { string keep; std::swap(keep, s); s = a.first.first + "->" + a.first.second; pr(a.second); as.push_back(s); s = keep; } std::sort(as.begin(), as.end()); for (auto& a : as) s += a; return s; } };
// --- Graphviz in place of the plug-in
static Drawing drawn; static vector<string> gvArgs; static bool active = true, finished; static int alive = 0;
struct Gv : GraphvizAdapterInterface {
    map<int, string> ids; map<string, int> nums; void init() {} void init(string a, string b, string c) { gvArgs = {a, b, c}; drawn = Drawing(); finished = false; }
    void finalize() { finished = true; std::ofstream o(gvArgs[2].substr(2).c_str()); o << "drawing of " << drawn.nodes.size() << "\n\n nodes\n"; }
    void setRankDir(string d) { drawn.graph["rankdir"] = d; } void setOrdering(string o) { drawn.graph["ordering"] = o; }
    int addNode(string id) { int n = nums.size() + 1; drawn.nodes[id]; if (nums.count(id)) { n = 1000 + ids.size(); ids[n] = id; return n; } nums[id] = n; ids[n] = id; return n; } Props& node(int n) { if (!ids.count(n)) throw std::runtime_error("unknown node"); return drawn.nodes[ids[n]]; } Props& arrow(int e) { return drawn.arrows.at(e - 1).second; }
    void setNodeLabel(int n, string l) { node(n)["label"] = l; } void setNodeColor(int n, string c) { node(n)["color"] = c; } void setNodeStyle(int n, string s) { node(n)["style"] = s; }
    int addEdge(int a, int b, string) { node(a); node(b); drawn.arrows.push_back({{ids[a], ids[b]}, Props()}); return drawn.arrows.size(); } void setEdgeLabel(int e, string l) { if (l.size()) arrow(e)["label"] = l; } void setEdgeColor(int e, string c) { arrow(e)["color"] = c; } void setEdgeStyle(int e, string s) { arrow(e)["style"] = s; }
};
PluginManager::PluginManager() {} PluginManager::~PluginManager() {} PluginManager& PluginManager::getInstance() { static PluginManager m; return m; }
PluginAdapter* PluginManager::createPluginAdapter(const string& n) { if (!active || n != "graphviz") return 0; ++alive; return new Gv; }
void PluginManager::destroyPluginAdapter(const string&, PluginAdapter* a) { --alive; delete a; }
bool PluginManager::checkPluginRequirements(const string&, const boost::program_options::variables_map&, std::ostream&) { return true; }
// --- lattices
static string quoted(const string& s) { string r; for (char c : s) switch (c) { case ' ': r += "_"; break; case '\n': r += "\\n"; break; case '\t': r += "\\t"; break; case '\r': r += "\\r"; break; case '_': case '*': case '\\': case '#': r += "\\"; default: r += c; } return r; }
struct Edge { string from, to, text, itemText, cat; vector<string> values; vector<string> tags; bool discarded, loose; vector<vector<pair<int, string> > > parts; };
static const char TEXT[] = "a\xc5\xbc \"\\b";
typedef Lattice::EdgeDescriptor ED;
struct Lat {
    AnnotationItemManager aim; Lattice l; vector<Edge> es; map<ED, int> num;
    LayerTagCollection tags(const char* t) { std::list<string> v; for (auto& x : vh::split(t, ',')) v.push_back(x); return l.getLayerTagManager().createTagCollectionFromList(v); }
    AnnotationItem item(const string& cat, const string& text, const vector<pair<string, string> >& av = {}) { AnnotationItem i(cat, StringFrag(text)); for (auto& a : av) aim.setValue(i, a.first, a.second); return i; }
    ED add(int a, int b, const string& cat, const string& text, const char* t, const vector<ED>& of = {}, const vector<pair<string, string> >& av = {}, const char* role = 0) { Lattice::EdgeSequence::Builder s(l); for (size_t i = 0; i < of.size(); ++i) if (role && i == 0) s.addEdge(of[i], aim.stringToZvalue(role)); else s.addEdge(of[i]); return l.addEdge(a, b, item(cat, text, av), tags(t), s.build()); }
    Lat(unsigned bits) : l(aim, bits & 8192 ? "" : TEXT) {
        if (bits & 8192) return; auto b = [&](int k) { return bits >> k & 1; }; if (b(0)) l.addSymbols(0, 7); int L = 0; ED tok = add(0, 3, "T", "a\xc5\xbc", "token,!pl"), blank{}, lex{}, form{}, loose{}, parse{};
        if (b(1)) blank = add(3, 4, "B", " ", "token,!pl"); if (b(2)) lex = add(0, 3, "word", "a\xc5\xbc+x+y", "lexeme,!pl", {tok});
        if (b(3) || b(4)) { L = l.addLooseVertex(); loose = add(0, L, "T", "x_*", "token,normalization"); add(L, 3, "T", "y \"z#", "token,normalization"); if (b(4)) { int M = l.addLooseVertex(); add(L, M, "B", "", "token"); add(M, 3, "", "m", "other,token"); } }
        if (b(5)) { form = add(0, 3, "subst", "", "form,!pl", {b(2) ? lex : tok}, {{"case", "nom"}, {"number", "sg"}}); if (b(6)) add(0, 3, "subst", "", "form", b(1) ? vector<ED>{tok, b(2) ? lex : tok} : vector<ED>{tok}, {{"case", "nom"}, {"number", "sg"}}); if (b(3) || b(4)) add(0, L, "verb", "", "form", {loose}, {{"t", "1"}}); }
        if (b(7) && b(1)) { parse = add(0, 4, "N\"P", "a\xc5\xbc ", "parse,form", {tok, blank}, {{"h", "a:b"}}, "head"); add(0, 4, "N\"P", "a\xc5\xbc ", "gobio", b(2) ? vector<ED>{lex, blank} : vector<ED>{tok, blank}, {{"h", "a:b"}}); if (b(8)) { ED late = add(3, 4, "late\\", "long lemma+", "parse"); add(0, 4, "N\"P", "a\xc5\xbc ", "gobio", {tok, late}, {{"h", "a:b"}}, "mod"); } }
        if (b(9)) add(4, 7, "P\\", "\"\\b", "token"); if (b(10)) l.discard(tok); if (b(11)) { if (b(1)) l.discard(blank); else add(0, 7, "S", "longer than thirteen+1", "form", {tok}); } if (b(12)) add(0, 7, "NS", "", "parse", b(3) || b(4) ? vector<ED>{tok, loose} : vector<ED>{tok}, {}, "r");
    }
    string vertex(Lattice::VertexDescriptor v) { return l.isLooseVertex(v) ? "L" + vh::num(l.getLooseVertexIndex(v)) : vh::num(l.getVertexRawCharIndex(v)); }
    void read() {
        auto& ltm = l.getLayerTagManager(); vector<ED> order; auto it = l.edgesSortedByTarget(ltm.anyTag()); while (it.hasNext()) { ED e = it.next(); num[e] = order.size(); order.push_back(e); }
        set<ED> all; auto s = l.allEdgesSortedBySource(); while (s.hasNext()) all.insert(s.next()); vh::expect(all.size() == order.size(), "order", "edges sorted by target are not all the edges: " + vh::num(order.size()) + " of " + vh::num(all.size()));
        for (ED e : order) { Edge x; auto a = l.getEdgeSource(e), b = l.getEdgeTarget(e); x.from = vertex(a); x.to = vertex(b); x.loose = l.isLooseVertex(a) || l.isLooseVertex(b); x.text = x.loose ? "" : string(TEXT).substr(a, b - a); x.itemText = l.getAnnotationText(e); x.cat = l.getAnnotationCategory(e); LayerTagCollection tc = l.getEdgeLayerTags(e); for (auto& t : ltm.getTagNames(tc)) x.tags.push_back(t); x.discarded = std::count(x.tags.begin(), x.tags.end(), "discarded"); for (auto& v : aim.getValues(l.getEdgeAnnotationItem(e))) x.values.push_back(v.second);
            for (auto& p : l.getEdgePartitions(e)) { x.parts.push_back({}); Lattice::Partition::Iterator pi(l, p); while (pi.hasNext()) { auto u = pi.nextUsage(); string role = NULLP(u.getRole()) ? "" : aim.to_string(u.getRole()); x.parts.back().push_back({num.at(u.getEdge()), role}); } } es.push_back(x); }
    }
};
static string color(const vector<string>& shown) { string r; auto& c = std::use_facet<std::collate<char> >(std::locale()); for (auto& t : shown) { unsigned h = c.hash(t.data(), t.data() + t.size()) & 0xffffff; if ((h & 0xe0e0e0) == 0xe0e0e0) h &= 0x7f7f7f; char b[16]; snprintf(b, sizeof b, "#%x", h); r += (r.empty() ? "" : ":") + string(b); } return r; }
static string csv(const vector<string>& v) { string r; for (auto& x : v) r += (r.empty() ? "" : ",") + x; return r; }
struct Opt { bool tags, color, symbols, tree, align, disambig; set<string> filter; };
static bool shown(const Edge& e, const Opt& o) { if (e.tags.size() == 1 && e.tags[0] == "symbol" && !o.symbols) return false; if (o.filter.empty()) return true; for (auto& t : e.tags) if (o.filter.count(t)) return true; return false; }
static Props props(const Edge& e, const Opt& o, const string& label) { vector<string> ts; for (auto& t : e.tags) if (t != "discarded" && (o.filter.empty() || o.filter.count(t))) ts.push_back(t); Props p; p["label"] = label + (o.tags ? " (" + csv(ts) + ")" : "") + " " + e.cat; if (o.color) p["color"] = color(ts); return p; }
static void invisible(const set<int>& vs, const set<int>& starts, Drawing& d) { for (auto i = vs.begin(); i != vs.end(); ++i) { auto n = i; if (++n != vs.end() && !starts.count(*i)) d.arrows.push_back({{vh::num(*i), vh::num(*n)}, Props{{"style", "invis"}}}); } }
// what is to be drawn; names of nodes of a tree follow the numbers given
static Drawing plain(Lat& l, const Opt& o, bool gv) {
    Drawing d; d.graph["rankdir"] = "LR"; set<int> vs, starts; for (auto& e : l.es) { if (!shown(e, o) || (!gv && e.discarded)) continue; string label = gv ? quoted(e.text) + (e.itemText.size() && e.itemText != e.text ? (e.text.size() ? "/" : "") + quoted(e.itemText) : "") : quoted(e.loose ? e.itemText : e.text); Props p = props(e, o, label); if (gv && e.discarded) p["style"] = "dotted"; if (gv) { d.nodes[e.from]; d.nodes[e.to]; } d.arrows.push_back({{e.from, e.to}, p}); if (e.from[0] != 'L') { vs.insert(atoi(e.from.c_str())); starts.insert(atoi(e.from.c_str())); } if (e.to[0] != 'L') vs.insert(atoi(e.to.c_str())); }
    if (o.align) invisible(vs, starts, d); return d;
}
static Drawing tree(Lat& l, const Opt& o, bool gv, const map<int, string>& names) {
    Drawing d; d.graph["rankdir"] = "TB"; if (gv) d.graph["ordering"] = "out"; auto in = [&](const Edge& e) { return shown(e, o) && (gv || !e.discarded); };
    for (size_t i = 0; i < l.es.size(); ++i) { auto& e = l.es[i]; if (!in(e)) continue; string label = gv ? quoted(e.text) + (e.itemText.size() && e.itemText != e.text ? (e.text.size() ? "/" : "") + quoted(e.itemText) : "") : quoted(e.loose ? e.itemText : e.text); Props p = props(e, o, label); if (gv && e.discarded) p["style"] = "dotted"; string me = names.at(i); d.nodes[me] = p; int n = 0;
        for (auto& pt : e.parts) { if (++n > 1 && o.disambig) break; for (auto& u : pt) if (in(l.es[u.first])) { Props q; string pl = e.parts.size() > 1 && !o.disambig ? (gv ? "(" + vh::num(n) + ")" : vh::num(n)) : ""; if (gv) pl += u.second; if (pl.size()) q["label"] = pl; d.arrows.push_back({{me, names.at(u.first)}, q}); } } }
    return d;
}
// --- a DOT file: ids, arrows, quoted strings in which \" is a quote
struct DotError { string what; };
static Drawing parse(const string& s) {
    Drawing d; size_t p = 0; auto sp = [&] { while (p < s.size() && (s[p] == ' ' || s[p] == '\n')) ++p; }; auto id = [&] { sp(); string r; while (p < s.size() && (isalnum((unsigned char)s[p]) || s[p] == '_')) r += s[p++]; if (r.empty()) throw DotError{"no name at " + s.substr(p, 30)}; return r; }; auto is = [&](const string& t) { sp(); if (s.compare(p, t.size(), t)) return false; p += t.size(); return true; };
    if (!is("digraph") || id() != "G" || !is("{")) throw DotError{"no graph"}; while (!is("}")) { string a = id(), b; if (is("=")) { d.graph[a] = id(); continue; } bool arrow = is("->"); if (arrow) b = id(); Props q; if (is("[")) { do { string k = id(); if (!is("=")) throw DotError{"no value"}; if (is("\"")) { string v; while (true) { if (p >= s.size()) throw DotError{"unfinished string"}; if (s[p] == '"') { ++p; break; } if (s[p] == '\\') { if (p + 1 >= s.size()) throw DotError{"unfinished string"}; if (s[p + 1] == '"') { v += '"'; p += 2; continue; } v += s[p++]; } v += s[p++]; } q[k] = v; } else q[k] = id(); } while (is(",")); if (!is("]")) throw DotError{"properties not closed at " + s.substr(p, 30)}; }
        if (arrow) d.arrows.push_back({{a, b}, q}); else { if (d.nodes.count(a)) throw DotError{"node given twice"}; d.nodes[a] = q; } }
    sp(); if (p != s.size()) throw DotError{"text after the graph"}; return d;
}
static boost::program_options::variables_map opts(const boost::program_options::options_description& d, const vector<string>& a) { boost::program_options::variables_map vm; boost::program_options::store(boost::program_options::command_line_parser(a).options(d).run(), vm); boost::program_options::notify(vm); return vm; }
static const vector<set<string> > FILTERS = {{}, {"token"}, {"form", "parse"}, {"symbol"}, {"nothing"}, {"gobio", "lexeme", "normalization", "token"}};
static string slashed(string s) { string r; for (char c : s) { if (c == '\\') r += c; r += c; } return r; }
static void dot(unsigned bits, unsigned o) {
    Lat l(bits); l.read(); Opt p = {bool(o & 1), bool(o & 2), bool(o & 4), bool(o & 8), bool(o & 16), false, FILTERS[o / 32 % 6]}; vector<string> a; if (p.tags) a.push_back("--show-tags"); if (p.color) a.push_back("--color"); if (p.symbols) a.push_back("--show-symbol-edges"); if (p.tree) a.push_back("--tree"); if (p.align) a.push_back("--align"); if (p.filter.size()) { a.push_back("--tags"); a.insert(a.end(), p.filter.begin(), p.filter.end()); }
    std::ostringstream out; { DotLatticeWriter::Factory f; std::unique_ptr<LatticeWriter<std::ostream> > w(f.createLatticeWriter(opts(f.optionsHandled(), a))); w->writeLattice(l.l, out); }
    for (auto& e : l.es) e.cat = slashed(e.cat); Drawing got, want; try { got = parse(out.str()); } catch (DotError& e) { vh::fail("dot", "not a DOT graph: " + e.what + " in " + out.str()); return; }
    if (!p.tree) want = plain(l, p, false); else { map<int, string> names; int n = 0; for (size_t i = 0; i < l.es.size(); ++i) if (shown(l.es[i], p) && !l.es[i].discarded) names[i] = vh::num(++n); want = tree(l, p, false, names); }
    vh::expectEq(got.str(), want.str(), "dot", "graph"); vh::outcome(out.str()); vh::state(out.str()); vh::transitions(l.es.size()); vh::traces();
}
static const char* FORMATS[] = {"svg", "png", "canon", "ps2", "xdot", "bmp", "SVG", ""};
struct Dir { string d; Dir() { char t[] = "/tmp/vh_graph_XXXXXX"; if (!mkdtemp(t) || chdir(t)) throw vh::InternalError("mkdtemp"); d = t; } ~Dir() { if (chdir("/")) return; rmdir(d.c_str()); } };
static int openFiles() { int n = 0; for (int i = 0; i < 64; ++i) if (fcntl(i, F_GETFD) >= 0) ++n; return n; }
static void gv(unsigned bits, unsigned o) {
    static Dir dir; Lat l(bits); l.read(); Opt p = {bool(o & 1), bool(o & 2), bool(o & 4), bool(o & 8), bool(o & 16), bool(o & 32), FILTERS[o / 64 % 6]}; unsigned f = o / 384; vector<string> a = {"--format", FORMATS[f]}; if (p.tags) a.push_back("--show-tags"); if (!p.color) a.push_back("--no-color"); if (p.symbols) a.push_back("--show-symbol-edges"); if (p.tree) a.push_back("--tree"); if (!p.align) a.push_back("--no-align"); if (p.disambig) a.push_back("--disambig"); if (p.filter.size()) { a.push_back("--tags"); a.insert(a.end(), p.filter.begin(), p.filter.end()); }
    if (f == 7) { a.erase(a.begin(), a.begin() + 2); active = bits % 2; } int before = openFiles(); std::ostringstream out; bool bad = false; { GVLatticeWriter::Factory fa; std::unique_ptr<LatticeWriter<std::ostream> > w(fa.createLatticeWriter(opts(fa.optionsHandled(), a))); try { w->writeLattice(l.l, out); } catch (const PsiException&) { bad = true; } } bool on = active; active = true; vh::expect(alive == 0, "leak", "the adapter is not given back"); alive = 0; vh::expectEq(openFiles(), before, "leak", "open files");
    vh::expectEq(bad, f == 5 || f == 6, "gv", "format refused"); if (bad || !on) { vh::expect(out.str().empty(), "gv", "output"); return; } vh::expect(finished && gvArgs[0] == "dot" && gvArgs[1] == string("-T") + (f == 7 ? "svg" : FORMATS[f]) && gvArgs[2].substr(0, 2) == "-o" && access(gvArgs[2].substr(2).c_str(), F_OK), "gv", "arguments of Graphviz, temporary file or no end");
    Drawing want; if (!p.tree) want = plain(l, p, true); else { map<int, string> names; int n = 0; std::function<void(int)> visit = [&](int e) { if (names.count(e) || !shown(l.es[e], p)) return; names[e] = vh::num(++n); for (size_t k = 0; k < l.es[e].parts.size(); ++k) { if (k && p.disambig) break; for (auto& u : l.es[e].parts[k]) visit(u.first); } }; for (size_t i = 0; i < l.es.size(); ++i) visit(i); want = tree(l, p, true, names); }
    vh::expectEq(drawn.str(), want.str(), "gv", "graph"); vh::expectEq(out.str(), "drawing of " + vh::num(drawn.nodes.size()) + "\n\n nodes\n", "gv", "output"); vh::outcome(drawn.str()); vh::state(drawn.str()); vh::transitions(l.es.size()); vh::traces();
}
static size_t width(const string& s) { size_t n = 0; for (unsigned char c : s) n += (c & 0xc0) != 0x80; return n; }
template <class W> static void table(unsigned bits) {
    Lat l(bits); l.read(); string want; for (auto& e : l.es) { if (!std::count(e.tags.begin(), e.tags.end(), "form")) continue; string av = e.cat; for (auto& v : e.values) av += ":" + v; for (auto& p : e.parts) for (auto& u : p) { string a = e.loose ? "@" : e.text, b = l.es[u.first].itemText; b = b.substr(0, b.find('+')); string row = a; while (width(row) < 13) row += ' '; row += " " + b; while (width(row) < 26) row += ' '; want += row + " " + av + "\n"; } }
    std::ostringstream out; typename W::Factory f; std::unique_ptr<LatticeWriter<std::ostream> > w(f.createLatticeWriter(opts(f.optionsHandled(), {}))); w->writeLattice(l.l, out); vh::expectEq(out.str(), want, "table", "rows"); vh::outcome(want); vh::state(want); vh::transitions(l.es.size()); vh::traces();
}
void vh_run(const string& id) { auto p = vh::split(id, ':'); vh::limit(5); unsigned b = atoi(p[1].c_str()), o = p.size() > 2 ? atoi(p[2].c_str()) : 0; if (p[0] == "d") dot(b, o); else if (p[0] == "g") gv(b, o); else if (p[0] == "m") table<MorphologyLatticeWriter>(b); else table<PhrasesLatticeWriter>(b); }
void vh_enumerate(vh::Emit& emit) {
    bool th = vh::thorough(); for (unsigned b = 0; b <= 8192; ++b) {
        for (unsigned o = 0; o < 192; ++o) if (b == 8192 || (b * 7 + o * 5 + b / 64) % (th ? 8 : 32) == 0) emit("d:" + vh::num(b) + ":" + vh::num(o));
        for (unsigned o = 0; o < 384; ++o) if (b == 8192 || (b * 11 + o * 5 + b / 64) % (th ? 8 : 64) == 0) emit("g:" + vh::num(b) + ":" + vh::num(o));
        if (b % 64 < 4) for (unsigned f = 1; f < 8; ++f) emit("g:" + vh::num(b) + ":" + vh::num(384 * f + b % 384));
        emit("m:" + vh::num(b)); emit("p:" + vh::num(b)); }
}
