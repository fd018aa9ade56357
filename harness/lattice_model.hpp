// A lattice built of a pool of edges, and a plain list-of-edges model of it (edges in the order in which they were added; an edge of the same span, item and plane is one).
#ifndef LATTICE_MODEL_HPP
#define LATTICE_MODEL_HPP
#include "vh.hpp"
#include "annotation_item_manager.hpp"
#include "lattice.hpp"
#include <algorithm>
namespace lm {
using std::string; using std::vector; using std::map; using std::set; using std::pair;
typedef map<string, string> F; typedef set<string> T;
inline T split(const string& s, char c = ',') { T r; size_t i = 0; while (i <= s.size()) { size_t e = s.find(c, i); if (e == string::npos) e = s.size(); if (e > i) r.insert(s.substr(i, e - i)); i = e + 1; } return r; }
struct E { int from, to; string text, cat; F attrs; string tags; vector<vector<int> > of; };
struct Item { string text, cat; F attrs; };
inline T plane(const T& t) { T r; for (auto& x : t) if (x[0] == '!') r.insert(x); return r; }
struct ME { int from, to; string text, cat; F attrs; T tags; set<vector<int> > parts; };
struct Model {
    vector<ME> es;
    bool has(int e, const T& m) const { return std::includes(es[e].tags.begin(), es[e].tags.end(), m.begin(), m.end()); }
    int add(int from, int to, const Item& it, T tags, const vector<int>& of = vector<int>()) {
        if (plane(tags).empty()) for (int x : of) { T p = plane(es[x].tags); tags.insert(p.begin(), p.end()); }
        int e = -1; for (size_t i = 0; i < es.size(); ++i) if (es[i].from == from && es[i].to == to && es[i].text == it.text && es[i].cat == it.cat && es[i].attrs == it.attrs && plane(es[i].tags) == plane(tags)) e = i;
        bool self = e >= 0 && std::count(of.begin(), of.end(), e);
        if (e < 0) { e = es.size(); es.push_back(ME{from, to, it.text, it.cat, it.attrs, T(), {}}); } es[e].tags.insert(tags.begin(), tags.end()); es[e].parts.insert(self ? vector<int>() : of);
        return e;
    }
    vector<int> byTarget(const T& m) const { vector<int> r; int last = 0; for (auto& e : es) last = std::max(last, e.to); for (int v = 0; v <= last; ++v) for (size_t e = 0; e < es.size(); ++e) if (es[e].to == v && has(e, m)) r.push_back(e); return r; }
};
struct Lat {
    AnnotationItemManager aim; Lattice l; vector<Lattice::EdgeDescriptor> ed; Model m; map<int, int> pool;
    Lat(const string& text, const vector<E>& es, unsigned bits) : l(aim, text) {
        for (size_t k = 0; k < es.size(); ++k) if (bits >> k & 1) { const E& e = es[k]; AnnotationItem i(e.cat, StringFrag(e.text)); for (auto& a : e.attrs) aim.setValue(i, a.first, a.second); T ts = split(e.tags); Item it{e.text, e.cat, e.attrs};
            vector<vector<int> > of = e.of; if (of.empty()) of.push_back({}); bool any = false;
            for (size_t p = 0; p <= of.size(); ++p) { vector<int> mp; Lattice::EdgeSequence::Builder b(l); bool all = true; if (p < of.size()) for (int x : of[p]) { if (!pool.count(x)) { all = false; break; } b.addEdge(ed[x]); mp.push_back(pool[x]); } else { if (any) break; }
                if (!all) continue; any = true; ed.resize(es.size()); ed[k] = l.addEdge(l.getVertexForRawCharIndex(e.from), l.getVertexForRawCharIndex(e.to), i, l.getLayerTagManager().createTagCollectionFromList(std::list<string>(ts.begin(), ts.end())), b.build()); pool[k] = m.add(e.from, e.to, it, ts, mp); }
        }
    }
    static string one(int from, int to, const string& text, const string& cat, const F& f) { string s = vh::num(from) + "-" + vh::num(to) + " " + text + "/" + cat; for (auto& x : f) s += "[" + x.first + "=" + x.second + "]"; return s; }
    string item(Lattice::EdgeDescriptor e) { string s = l.getAnnotationText(e) + "/" + l.getAnnotationCategory(e); for (auto& v : F(aimValues(e))) s += "[" + v.first + "=" + v.second + "]"; return s; }
    F aimValues(Lattice::EdgeDescriptor e) { F f; for (auto& v : aim.getValues(l.getEdgeAnnotationItem(e))) f[v.first] = v.second; return f; }
    T tags(Lattice::EdgeDescriptor e) { auto n = l.getLayerTagManager().getTagNames(l.getEdgeLayerTags(e)); return T(n.begin(), n.end()); }
    string name(int e) { ME& x = m.es[e]; return one(x.from, x.to, x.text, x.cat, x.attrs); }
    string name(Lattice::EdgeDescriptor e) { return one(l.getEdgeBeginIndex(e), l.getEdgeEndIndex(e), l.getAnnotationText(e), l.getAnnotationCategory(e), aimValues(e)); }
    bool loose(Lattice::EdgeDescriptor e) { return l.isLooseVertex(l.getEdgeSource(e)) || l.isLooseVertex(l.getEdgeTarget(e)); }
    string real() {     // without edges of loose vertices
        std::multiset<string> r; auto it = l.allEdgesSortedBySource();
        while (it.hasNext()) { auto e = it.next(); if (loose(e)) continue; string s = name(e); for (auto& t : tags(e)) s += " " + t; set<string> ps; for (auto& p : l.getEdgePartitions(e)) { string q; Lattice::Partition::Iterator pi(l, p); while (pi.hasNext()) q += name(pi.next()) + "+"; ps.insert(q); } s += " of"; for (auto& p : ps) s += " {" + p + "}"; r.insert(s); }
        string o; for (auto& s : r) o += s + "; "; return o;
    }
    string expected() {
        std::multiset<string> r; for (size_t i = 0; i < m.es.size(); ++i) { string s = name((int)i); for (auto& t : m.es[i].tags) s += " " + t; set<string> ps; for (auto& p : m.es[i].parts) { string q; for (int x : p) q += name(x) + "+"; ps.insert(q); } s += " of"; for (auto& p : ps) s += " {" + p + "}"; r.insert(s); }
        string o; for (auto& s : r) o += s + "; "; return o;
    }
};
}
#endif
