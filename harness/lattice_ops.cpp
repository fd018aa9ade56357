// L01: every history of lattice operations against a plain list-of-edges model,
// with the queries interleaved at every possible starting point.
#include "vh.hpp"
#include "lattice.hpp"
#include "annotation_item_manager.hpp"
#include "lattice_dump.hpp"

using std::string; using std::vector; using std::set;

namespace {

struct MPart { set<string> tags; vector<int> seq; double score; int rule; };
struct MEdge { int from, to; string cat, text; set<string> tags; double score; vector<MPart> parts; bool implicit; };
struct Model {
    string text;
    int loose = 0;
    vector<MEdge> edges;
    int find(int from, int to, const string& cat, const string& text, const set<string>& planes) {
        for (size_t i = 0; i < edges.size(); ++i) {
            MEdge& e = edges[i];
            if (e.from == from && e.to == to && e.cat == cat && e.text == text && planesOf(e.tags) == planes) return (int)i;
        }
        return -1;
    }
    static set<string> planesOf(const set<string>& t) { set<string> r; for (auto& x : t) if (!x.empty() && x[0] == '!') r.insert(x); return r; }
};

const set<string> SYM = {"symbol"};

struct Op { string name; int kind; int from, to; string item; set<string> tags; int seq; double score; };
// kind 0 addEdge, 1 addSymbols(from,to), 2 appendString, 3 appendStringWithSymbols, 4 loose, 5 discard (from = which), 6 addPartition to edge `from`
// item "s" = the symbol at `from`
vector<Op> OPS;
void buildOps() {
    if (!OPS.empty()) return;
    auto E = [&](const string& n, int f, int t, const string& item, set<string> tags, int seq, double sc) { OPS.push_back(Op{n, 0, f, t, item, tags, seq, sc}); };
    OPS.push_back(Op{"S", 1, 0, -100, "", {}, 0, 0});
    E("sa", 0, 1, "s", SYM, 0, 0);
    E("sA", 1, 3, "s", SYM, 0, 0);
    E("at", 0, 1, "s", {"token"}, 0, 0);
    E("ap", 0, 1, "s", {"token", "!pl"}, 0, 1);
    E("xt", 0, 1, "X", {"token"}, 0, 0);
    E("xl", 0, 1, "X", {"lemma"}, 0, 1);
    E("xs", 0, 1, "X", SYM, 0, 0);
    E("xp", 0, 1, "X", {"token", "!pl"}, 0, 0);
    E("xd", 0, 1, "X", {"lemma", "!de"}, 0, 2);
    E("wt", 0, 3, "X", {"token"}, 0, 0);
    E("wq", 0, 3, "X", {"parse"}, 1, 0.5);
    E("wy", 0, 3, "X", {"token"}, 2, 0);
    E("Yt", 1, 3, "Y", {"token"}, 0, 0);
    E("Yl", 1, 3, "Y", {"lemma", "parse"}, 1, -1);
    E("lo", 0, -1, "X", {"token"}, 0, 0);
    E("ol", -1, 3, "Y", {"token"}, 0, 0);
    E("sl", 0, -1, "Y", SYM, 0, 0);
    E("lp", 1, 1, "X", {"token"}, 0, 0);
    E("rv", 3, 0, "X", {"token"}, 0, 0);
    OPS.push_back(Op{"L", 4, 0, 0, "", {}, 0, 0});
    OPS.push_back(Op{"A", 2, 0, 0, "c", {}, 0, 0});
    OPS.push_back(Op{"W", 3, 0, 0, "\xc4\x99", {}, 0, 0});
    OPS.push_back(Op{"D0", 5, 0, 0, "", {}, 0, 0});
    OPS.push_back(Op{"DL", 5, -1, 0, "", {}, 0, 0});
    OPS.push_back(Op{"P0", 6, 0, 0, "", {"lemma"}, 0, 3});
    OPS.push_back(Op{"PL", 6, -1, 0, "", {"zz"}, 0, 0});
}

string symbolAt(const string& text, int ix) {
    size_t n = 1; unsigned char c = text[ix];
    if (c >= 0xf0) n = 4; else if (c >= 0xe0) n = 3; else if (c >= 0xc0) n = 2;
    return text.substr(ix, n);
}

const vector<vector<vector<string> > > MASKS = {   // alternatives of conjunctions
    {{"symbol"}}, {{"token"}}, {{"lemma"}}, {{"parse"}}, {{"discarded"}}, {{"token", "!pl"}}, {{"symbol"}, {"lemma"}}, {{"symbol", "token"}}, {{"zz"}, {"parse"}}
};
bool mMatch(const set<string>& tags, const vector<vector<string> >& m) {
    for (auto& alt : m) { bool all = true; for (auto& t : alt) if (!tags.count(t)) all = false; if (all) return true; }
    return false;
}
string specOf(const vector<vector<string> >& m) {
    string r;
    for (size_t i = 0; i < m.size(); ++i) { if (i) r += ";"; for (size_t j = 0; j < m[i].size(); ++j) { if (j) r += ","; r += m[i][j]; } }
    return r;
}

string edgeHead(int from, int to, const string& cat, const string& text) {
    std::ostringstream o; o << from << ">" << to << " " << cat << "|" << text; return o.str();
}

struct World {
    AnnotationItemManager aim;
    Lattice lat;
    Model m;
    string opErr;
    World() : lat(aim, "a\xc4\x85") { m.text = "a\xc4\x85"; }

    AnnotationItem item(const Op& op) {
        if (op.item == "s") { string s = symbolAt(m.text, op.from); return AnnotationItem("'" + s, StringFrag(s)); }
        if (op.item == "X") return AnnotationItem("X", StringFrag("x"));
        return AnnotationItem("Y");
    }
    LayerTagCollection coll(const set<string>& tags) {
        return lat.getLayerTagManager().createTagCollection(std::list<string>(tags.begin(), tags.end()));
    }
    Lattice::EdgeDescriptor findReal(const MEdge& e, bool& ok) {
        Lattice::InOutEdgesIterator it = lat.allOutEdges(e.from);
        ok = false;
        while (it.hasNext()) {
            Lattice::EdgeDescriptor d = it.next();
            AnnotationItem i = lat.getEdgeAnnotationItem(d);
            if (lat.getEdgeTarget(d) == e.to && i.getCategory() == e.cat && i.getText() == e.text
                && Model::planesOf(ld::tagSet(lat, lat.getEdgeLayerTags(d))) == Model::planesOf(e.tags)) { ok = true; return d; }
        }
        return Lattice::EdgeDescriptor();
    }
    // returns model outcome; compares outcome with the real one
    void addEdge(int from, int to, const AnnotationItem& it, set<string> tags, vector<int> seq, double score, int rule, bool partition, int target) {
        // real
        string real;
        Lattice::EdgeSequence::Builder b(lat);
        bool buildable = true;
        for (int k : seq) { bool ok; Lattice::EdgeDescriptor d = findReal(m.edges[k], ok); if (!ok) buildable = false; else b.addEdge(d); }
        if (!buildable) { vh::fail("edge-lost", "an edge of the model is not found in the lattice before " + edgeHead(from, to, it.getCategory(), it.getText())); return; }
        Lattice::EdgeDescriptor ret;
        try {
            if (partition) {
                bool ok; Lattice::EdgeDescriptor d = findReal(m.edges[target], ok);
                if (!ok) { vh::fail("edge-lost", "edge to be extended not found"); return; }
                ret = lat.addPartitionToEdge(d, coll(tags), b.build(), score, rule);
            } else
                ret = lat.addEdge(from, to, it, coll(tags), b.build(), score, rule);
            real = "ok";
        } catch (LoopEdgeException&) { real = "loop"; }
        catch (ReversedEdgeException&) { real = "reversed"; }
        catch (EdgeSelfReferenceException&) { real = "self"; }
        // model
        string cat = it.getCategory(), text = it.getText();
        string want = "ok";
        set<string> planes = Model::planesOf(tags);
        if (partition) { for (auto& p : Model::planesOf(m.edges[target].tags)) tags.insert(p); planes = Model::planesOf(tags); }
        if (planes.empty()) for (int k : seq) for (auto& p : Model::planesOf(m.edges[k].tags)) tags.insert(p);
        planes = Model::planesOf(tags);
        int ix = -1;
        if (from == to) want = "loop";
        else if (from >= 0 && to >= 0 && from > to) want = "reversed";
        else {
            ix = m.find(from, to, cat, text, planes);
            if (ix >= 0) {
                for (int k : seq) if (k == ix) want = "self";
                if (want == "ok") {
                    MEdge& e = m.edges[ix];
                    e.tags.insert(tags.begin(), tags.end());
                    if (!(e.implicit && e.tags == SYM)) {
                    if (score > e.score) e.score = score;
                    e.parts.push_back(MPart{e.tags, seq, score, rule});
                    e.implicit = false;
                    }
                }
            } else {
                MEdge e{from, to, cat, text, tags, score, {}, false};
                bool atSym = from >= 0 && to >= 0 && from + (int)symbolAt(m.text, from).size() == to;
                e.implicit = atSym && tags == SYM && cat == "'" + symbolAt(m.text, from) && text == symbolAt(m.text, from);
                if (!e.implicit) e.parts.push_back(MPart{tags, seq, score, rule});
                m.edges.push_back(e);
                ix = (int)m.edges.size() - 1;
            }
        }
        vh::outcome(real + edgeHead(from, to, cat, text));
        vh::expectEq(real, want, "outcome", "outcome of adding " + edgeHead(from, to, cat, text));
        if (real == "ok" && want == "ok") {
            string got = edgeHead(lat.getEdgeSource(ret), lat.getEdgeTarget(ret), lat.getEdgeAnnotationItem(ret).getCategory(), lat.getEdgeAnnotationItem(ret).getText());
            vh::expectEq(got, edgeHead(from, to, cat, text), "returned", "edge returned by the addition");
        }
    }
    bool enabled(const Op& op) {
        if (op.kind == 0 && (op.from < 0 || op.to < 0) && m.loose == 0) return false;
        if (op.kind == 0 && op.seq == 1 && m.edges.empty()) return false;
        if (op.kind == 0 && op.seq == 2) { int have = 0; for (auto& e : m.edges) if (e.tags.count("symbol") && e.cat[0] == '\'' && ((e.from == 0 && e.to == 1) || (e.from == 1 && e.to == 3))) have |= 1 << e.from; if (have != 3) return false; }
        if ((op.kind == 5 || op.kind == 6) && m.edges.empty()) return false;
        if (op.kind == 4 && m.loose >= 1) return false;
        return true;
    }
    void apply(const Op& op, int n) {
        vh::transitions();
        if (op.kind == 0) {
            vector<int> seq;
            if (op.seq == 1) seq.push_back((int)m.edges.size() - 1);
            if (op.seq == 2) {
                for (int f : {0, 1}) for (size_t i = 0; i < m.edges.size(); ++i) { MEdge& e = m.edges[i]; if (e.tags.count("symbol") && e.cat[0] == '\'' && e.from == f && e.to == (f ? 3 : 1)) { seq.push_back((int)i); break; } }
            }
            addEdge(op.from, op.to, item(op), op.tags, seq, op.score, n, false, -1);
        } else if (op.kind == 1 || op.kind == 3) {
            int from = 0, to;
            if (op.kind == 3) { from = (int)m.text.size(); m.text += op.item; lat.appendStringWithSymbols(op.item); }
            else lat.addSymbols(0, lat.getVertexForRawCharIndex((int)m.text.size()));
            to = (int)m.text.size();
            for (int i = from; i < to;) {
                string s = symbolAt(m.text, i);
                int ix = m.find(i, i + (int)s.size(), "'" + s, s, {});
                if (ix < 0) m.edges.push_back(MEdge{i, i + (int)s.size(), "'" + s, s, SYM, 0, {}, true});
                else if (!m.edges[ix].implicit) { MEdge& e = m.edges[ix]; e.tags.insert("symbol"); if (0 > e.score) e.score = 0; e.parts.push_back(MPart{e.tags, {}, 0, -1}); e.implicit = false; }
                i += (int)s.size();
            }
        } else if (op.kind == 2) { m.text += op.item; lat.appendString(op.item); }
        else if (op.kind == 4) { m.loose++; vh::expectEq(lat.addLooseVertex(), -m.loose, "loose", "descriptor of the loose vertex"); }
        else if (op.kind == 5) {
            MEdge& e = m.edges[op.from < 0 ? m.edges.size() - 1 : 0];
            bool ok; Lattice::EdgeDescriptor d = findReal(e, ok);
            if (!ok) { vh::fail("edge-lost", "edge to be discarded not found"); return; }
            bool wasExplicit = d.isExplicit();
            lat.discard(d);
            e.tags.insert("discarded");
            e.parts.push_back(MPart{e.tags, {}, -(std::numeric_limits<double>::max)(), -1});
            e.implicit = false;
            if (wasExplicit) vh::expect(lat.isDiscarded(d), "discard", "a discarded edge does not report being discarded");
        } else if (op.kind == 6) {
            int t = op.from < 0 ? (int)m.edges.size() - 1 : 0;
            MEdge e = m.edges[t];
            addEdge(e.from, e.to, AnnotationItem(e.cat, StringFrag(e.text)), op.tags, {}, op.score, n, true, t);
        }
    }

    string modelEdge(const MEdge& e) {
        std::ostringstream o;
        o << edgeHead(e.from, e.to, e.cat, e.text) << " {";
        for (auto& t : e.tags) o << t << ",";
        o << "} " << e.score << " [";
        vector<string> ps;
        for (auto& p : e.parts) {
            std::ostringstream q; q << "("; for (auto& t : p.tags) q << t << ","; q << ":";
            for (int k : p.seq) q << edgeHead(m.edges[k].from, m.edges[k].to, m.edges[k].cat, m.edges[k].text) << ";";
            q << p.score << "/" << p.rule << ")"; ps.push_back(q.str());
        }
        for (auto& s : ps) o << s;
        o << "]";
        return o.str();
    }
    string canon() { std::multiset<string> s; for (auto& e : m.edges) s.insert(modelEdge(e)); string r = m.text + "#" + vh::num(m.loose); for (auto& x : s) r += "\n" + x; return r; }

    static string join(const std::multiset<string>& s) { string r; for (auto& x : s) r += x + "\n"; return r; }

    void check(const string& when) {
        vector<int> verts;
        for (size_t i = 0; i <= m.text.size();) { verts.push_back((int)i); if (i == m.text.size()) break; i += symbolAt(m.text, (int)i).size(); }
        for (int i = 1; i <= m.loose; ++i) verts.push_back(-i);
        vh::expectEq(lat.getAllText(), m.text, "text", when + "text");
        vh::expectEq(lat.countAllVertices(), (int)verts.size(), "count-vertices", when + "number of vertices");
        LayerTagManager& ltm = lat.getLayerTagManager();
        for (int mi = -1; mi < (int)MASKS.size(); ++mi) {
            LayerTagMask mask = mi < 0 ? ltm.anyTag() : ltm.getMask(specOf(MASKS[mi]));
            string ms = mi < 0 ? "any" : specOf(MASKS[mi]);
            std::multiset<string> wantAll;
            for (int v : verts) {
                std::multiset<string> wo, wi, go, gi;
                for (auto& e : m.edges) {
                    if (mi >= 0 && !mMatch(e.tags, MASKS[mi])) continue;
                    if (e.from == v) { wo.insert(modelEdge(e)); wantAll.insert(modelEdge(e)); }
                    if (e.to == v) wi.insert(modelEdge(e));
                }
                Lattice::InOutEdgesIterator o = lat.outEdges(v, mask);
                while (o.hasNext()) go.insert(ld::edgeFull(lat, o.next()));
                Lattice::InOutEdgesIterator in = lat.inEdges(v, mask);
                while (in.hasNext()) gi.insert(ld::edgeFull(lat, in.next()));
                vh::expectEq(join(go), join(wo), "out-edges", when + "out-edges of " + vh::num(v) + " under " + ms);
                vh::expectEq(join(gi), join(wi), "in-edges", when + "in-edges of " + vh::num(v) + " under " + ms);
                bool hasFirst = true;
                try { lat.firstOutEdge(v, mask); } catch (NoEdgeException&) { hasFirst = false; }
                vh::expectEq(hasFirst, !wo.empty(), "first-out", when + "existence of a first out-edge of " + vh::num(v) + " under " + ms);
                hasFirst = true;
                try { lat.firstInEdge(v, mask); } catch (NoEdgeException&) { hasFirst = false; }
                vh::expectEq(hasFirst, !wi.empty(), "first-in", when + "existence of a first in-edge of " + vh::num(v) + " under " + ms);
            }
            for (int side = 0; side < 2; ++side) {
                std::multiset<string> got; int last = -1; bool sorted = true;
                auto take = [&](Lattice::EdgeDescriptor d) {
                    got.insert(ld::edgeFull(lat, d));
                    int p = side ? lat.getEdgeTarget(d) : lat.getEdgeSource(d);
                    if (p >= 0) { if (p < last) sorted = false; last = p; }
                };
                if (side == 0) { Lattice::EdgesSortedBySourceIterator i = lat.edgesSortedBySource(mask); while (i.hasNext()) take(i.next()); }
                else { Lattice::EdgesSortedByTargetIterator i = lat.edgesSortedByTarget(mask); while (i.hasNext()) take(i.next()); }
                vh::expectEq(join(got), join(wantAll), "sorted-edges", when + (side ? "edges by target under " : "edges by source under ") + ms);
                vh::expect(sorted, "sorted-order", when + "sorted iteration out of order under " + ms);
            }
        }
        for (int f : verts) for (int t : verts) if (f != t) {
            int n = 0; for (auto& e : m.edges) if (e.from == f && e.to == t) ++n;
            vh::expectEq(lat.countEdges(f, t), n, "count-edges", when + "number of edges " + vh::num(f) + ">" + vh::num(t));
        }
        // vertices: every vertex with an edge exactly once, sources before targets
        for (int skip = 0; skip < 2; ++skip) {
            Lattice::VertexIterator vi(lat, skip != 0);
            std::map<int, int> pos; int k = 0; bool dup = false;
            while (vi.hasNext()) { int v = vi.next(); if (pos.count(v)) dup = true; pos[v] = k++; }
            vh::expect(!dup, "vertex-dup", when + "vertex iterated twice");
            for (auto& e : m.edges) {
                if (!pos.count(e.from) || !pos.count(e.to)) vh::fail("vertex-missing", when + "vertex of an edge not iterated: " + modelEdge(e));
                else vh::expect(pos[e.from] < pos[e.to], "vertex-order", when + "edge source iterated after its target: " + modelEdge(e));
            }
            for (auto& p : pos) { bool known = false; for (int v : verts) if (v == p.first) known = true; vh::expect(known, "vertex-unknown", when + "iterated vertex does not exist"); }
            if (!skip) for (int v : verts) if (v >= 0) vh::expect(pos.count(v), "vertex-missing", when + "text vertex not iterated");
        }
        for (auto& e : m.edges) {
            bool ok; Lattice::EdgeDescriptor d = findReal(e, ok);
            if (!ok) { vh::fail("edge-lost", when + "edge not found: " + modelEdge(e)); continue; }
            if (e.from >= 0 && e.to >= 0) {
                vh::expectEq(lat.getEdgeText(d), m.text.substr(e.from, e.to - e.from), "edge-text", when + "text of " + modelEdge(e));
                vh::expectEq(lat.getEdgeTextAsStringFrag(d).str(), m.text.substr(e.from, e.to - e.from), "edge-text", when + "text fragment of " + modelEdge(e));
                vh::expectEq(lat.getEdgeLength(d), e.to - e.from, "edge-length", when + "length of " + modelEdge(e));
                vh::expectEq(lat.getEdgeBeginIndex(d), e.from, "edge-begin", when + "begin of " + modelEdge(e));
                vh::expectEq(lat.getEdgeEndIndex(d), e.to, "edge-end", when + "end of " + modelEdge(e));
            }
            vh::expectEq(lat.isDiscarded(d), e.tags.count("discarded") > 0, "discarded", when + "discarded flag of " + modelEdge(e));
        }
    }
};

// order-preserving dump: must not depend on when queries were made
string orderedDump(World& w) {
    string r;
    for (int mi = -1; mi < (int)MASKS.size(); ++mi) {
        LayerTagMask mask = mi < 0 ? w.lat.getLayerTagManager().anyTag() : w.lat.getLayerTagManager().getMask(specOf(MASKS[mi]));
        Lattice::EdgesSortedBySourceIterator i = w.lat.edgesSortedBySource(mask);
        while (i.hasNext()) r += ld::edgeFull(w.lat, i.next()) + "\n";
        Lattice::EdgesSortedByTargetIterator j = w.lat.edgesSortedByTarget(mask);
        while (j.hasNext()) r += ld::edgeFull(w.lat, j.next()) + "\n";
        r += "--\n";
    }
    return r;
}

}  // namespace

// a lattice with an edge of every combination of four tags, asked under a sequence of masks (each builds an index), extended, and asked again
static void maskSequence(const vector<int>& ms) {
    static const vector<string> n = {"t", "u", "v", "w"}; typedef vector<vector<vector<string> > > Masks; static Masks all; static vector<string> specs;
    auto sub = [&](int b) { vector<string> r; for (int i = 0; i < 4; ++i) if (b >> i & 1) r.push_back(n[i]); return r; };
    if (all.empty()) for (int i = 1; i < 16; ++i) for (int j = i; j < 16; ++j) { vector<vector<string> > m; m.push_back(sub(i)); if (j > i) m.push_back(sub(j)); all.push_back(m); specs.push_back(specOf(m)); }
    AnnotationItemManager aim; Lattice lat(aim, "ab"); LayerTagManager& L = lat.getLayerTagManager();
    auto name = [](int i, int late) { return string(late ? "L" : "E") + vh::num(i); };
    auto add = [&](int late) { for (int i = 1; i < 16; ++i) { vector<string> t = sub(i); lat.addEdge(late ? 1 : 0, late ? 2 : 1, AnnotationItem(name(i, late)), L.createTagCollection(std::list<string>(t.begin(), t.end()))); } };
    add(0);
    for (int round = 0; round < 2; ++round) {
        for (int k : ms) {
            LayerTagMask mask = L.getMask(specs[k]); string want[2], got, when = "under " + specs[k] + (round ? ", asked before," : "") + " after"; for (int q : ms) { if (q == k) break; when += " " + specs[q]; } vh::transitions();
            for (int late = 0; late <= round; ++late) for (int i = 1; i < 16; ++i) { vector<string> t = sub(i); if (mMatch(set<string>(t.begin(), t.end()), all[k])) want[late] += name(i, late) + " "; }
            Lattice::InOutEdgesIterator o = lat.outEdges(0, mask); while (o.hasNext()) got += lat.getEdgeAnnotationItem(o.next()).getCategory() + " "; if (!vh::expectEq(got, want[0], "mask-out", when)) return;
            got = ""; Lattice::InOutEdgesIterator in = lat.inEdges(2, mask); while (in.hasNext()) got += lat.getEdgeAnnotationItem(in.next()).getCategory() + " "; if (!vh::expectEq(got, want[1], "mask-in", when)) return;
            got = ""; Lattice::EdgesSortedBySourceIterator s(lat, mask); while (s.hasNext()) got += lat.getEdgeAnnotationItem(s.next()).getCategory() + " "; if (!vh::expectEq(got, want[0] + want[1], "mask-sorted", when)) return;
            vh::stateHash(vh::hash64(specs[k] + "|" + when)); vh::outcome(got);
        }
        if (!round) add(1);
    }
    vh::traces();
}

void vh_run(const string& id) {
    if (!id.empty() && id[0] == '#') { vector<int> ms; for (auto& x : vh::split(id.substr(1), ' ')) ms.push_back(atoi(x.c_str())); maskSequence(ms); return; }
    buildOps();
    vector<const Op*> seq;
    if (!id.empty()) for (auto& n : vh::split(id, ' ')) for (auto& o : OPS) if (o.name == n) seq.push_back(&o);
    int n = (int)seq.size();
    string plain;
    for (int k = n; k >= 0; --k) {     // queries from step k on
        World w;
        if (k == 0) w.check("before anything: ");
        int i = 0;
        for (; i < n; ++i) {
            if (!w.enabled(*seq[i])) return;          // not a history
            w.apply(*seq[i], i);
            if (i + 1 >= k || i + 1 == n) w.check("queries from step " + vh::num(k) + ", after " + seq[i]->name + ": ");
            if (vh::S().caseFailed) return;
        }
        string d = orderedDump(w);
        if (k == n) { plain = d; vh::state(w.canon()); vh::traces(); }
        else { vh::expectEq(d, plain, "order-depends-on-queries", "iteration order when queried from step " + vh::num(k)); vh::traces(); }
        if (vh::S().caseFailed) return;
    }
    // an iteration under way is not disturbed by a first query under another mask
    {
        World w;
        for (int i = 0; i < n; ++i) w.apply(*seq[i], i);
        std::multiset<string> a, b;
        Lattice::EdgesSortedBySourceIterator i = w.lat.edgesSortedBySource(w.lat.getLayerTagManager().getMask("token"));
        int q = 0;
        while (i.hasNext() && q < 200) {
            a.insert(ld::edgeFull(w.lat, i.next()));
            w.lat.outEdges(0, w.lat.getLayerTagManager().getMask("fresh" + vh::num(q++))); 
            if (q > 40) break;
        }
        for (auto& e : w.m.edges) if (e.tags.count("token")) b.insert(w.modelEdge(e));
        vh::expectEq(World::join(a), World::join(b), "iteration-disturbed", "edges under `token', each step followed by a first query under a new mask");
    }
}

void vh_enumerate(vh::Emit& emit) {
    buildOps();
    for (int i = 0; i < 120; ++i) for (int j = 0; j < 120; ++j) { if (i != j) emit("#" + vh::num(i) + " " + vh::num(j)); if (vh::thorough()) for (int k = 0; k < 120; ++k) if (k != i && k != j && i != j) emit("#" + vh::num(i) + " " + vh::num(j) + " " + vh::num(k)); }
    size_t deep = vh::thorough() ? 4 : 3;
    // full alphabet up to depth `deep'
    for (size_t len = 0; len <= deep; ++len)
        vh::sequences(OPS.size(), len, [&](const vector<int>& ix) {
            string id; for (int i : ix) id += (id.empty() ? "" : " ") + OPS[i].name;
            emit(id);
        });
    // the merging core, deeper
    vector<string> core = {"S", "at", "xt", "xl", "xp", "wq", "D0", "A"};
    vh::sequences(core.size(), vh::thorough() ? 5 : 4, [&](const vector<int>& ix) {
        string id; for (int i : ix) id += (id.empty() ? "" : " ") + core[i];
        emit(id);
    });
}
