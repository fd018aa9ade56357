// L02: edge sequences, paths, parents/origins and corrections on the real lattice.
#include "vh.hpp"
#include "lattice.hpp"
#include "annotation_item_manager.hpp"
#include "lattice_dump.hpp"
using std::string; using std::vector; using std::set;

static LayerTagCollection T(Lattice& l, std::initializer_list<string> t) { return l.getLayerTagManager().createTagCollection(std::list<string>(t.begin(), t.end())); }

// ---- sequences: case "s<world><e1><e2>..[+<later op>]" ----
struct SeqWorld {
    AnnotationItemManager aim; Lattice lat; vector<Lattice::EdgeDescriptor> e;
    SeqWorld(int kind) : lat(aim, "a\xc4\x85" "bc") {
        lat.addSymbols(0, 5);
        if (kind >= 1) lat.addEdge(0, 1, AnnotationItem("T", StringFrag("a")), T(lat, {"token"}));
        if (kind >= 2) lat.addEdge(3, 5, AnnotationItem("T", StringFrag("bc")), T(lat, {"token"}));
        if (kind >= 3) lat.addEdge(0, 5, AnnotationItem("W", StringFrag("x")), T(lat, {"frag"}));
        if (kind == 4) lat.addEdge(0, 3, AnnotationItem("'z", StringFrag("z")), T(lat, {"symbol"}));
        Lattice::EdgesSortedBySourceIterator i = lat.allEdgesSortedBySource();
        while (i.hasNext()) e.push_back(i.next());
    }
};
static void runSeq(const string& id) {
    int kind = id[1] - '0';
    SeqWorld w(kind);
    string spec = id.substr(2); int later = -1;
    size_t p = spec.find('+'); if (p != string::npos) { later = spec[p + 1] - '0'; spec = spec.substr(0, p); }
    Lattice::EdgeSequence::Builder b(w.lat);
    vector<Lattice::EdgeDescriptor> want; string text;
    for (char c : spec) { size_t k = c - 'a'; if (k >= w.e.size()) return; b.addEdge(w.e[k]); want.push_back(w.e[k]); text += w.lat.getEdgeText(w.e[k]); }
    vector<string> wantHeads; for (auto& d : want) wantHeads.push_back(ld::edgeHead(w.lat, d));
    Lattice::EdgeSequence s = b.build();
    vh::transitions(); vh::traces();
    switch (later) {   // changes made to the lattice after the sequence was built
    case 0: w.lat.addEdge(0, 1, AnnotationItem("U", StringFrag("u")), T(w.lat, {"token"})); break;
    case 1: w.lat.addEdge(0, 3, AnnotationItem("'y", StringFrag("y")), T(w.lat, {"symbol"})); break;
    case 2: w.lat.appendStringWithSymbols("d"); break;
    case 3: w.lat.addPartitionToEdge(w.e[0], T(w.lat, {"lemma"})); break;
    case 4: w.lat.addEdge(1, 3, AnnotationItem("V", StringFrag("v")), T(w.lat, {"token", "!p"})); break;
    }
    vector<string> got; Lattice::EdgeSequence::Iterator it(w.lat, s);
    while (it.hasNext()) { got.push_back(ld::edgeHead(w.lat, it.next())); if (got.size() > 50) break; }
    string g, h; for (auto& x : got) g += x + ";"; for (auto& x : wantHeads) h += x + ";";
    vh::expectEq(g, h, "sequence-edges", "edges of the sequence");
    vh::expectEq(s.empty(), want.empty(), "sequence-empty", "emptiness");
    vh::expectEq(s.size(w.lat), want.size(), "sequence-size", "size");
    if (!want.empty()) {
        vh::expectEq(ld::edgeHead(w.lat, s.firstEdge(w.lat)), wantHeads.front(), "sequence-first", "first edge");
        vh::expectEq(ld::edgeHead(w.lat, s.lastEdge(w.lat)), wantHeads.back(), "sequence-last", "last edge");
        for (size_t i = 0; i < want.size(); ++i) vh::expectEq(ld::edgeHead(w.lat, s.nthEdge(w.lat, i)), wantHeads[i], "sequence-nth", "edge " + vh::num(i));
    }
    vh::expectEq(w.lat.getSequenceText(s), text, "sequence-text", "text of the sequence");
    vh::expectEq(w.lat.getSequenceTextAsStringFrag(s).str(), text, "sequence-text", "text fragment of the sequence");
    vh::state("s" + h + vh::num(kind)); vh::outcome(h);
}

// ---- paths: all subsets of candidate edges; case "p<bitmask>" ----
struct PE { int f, t; const char* cat; vector<string> tags; };
static const vector<PE> PES = {
    {0, 1, "T", {"token"}}, {1, 2, "B", {"token"}}, {0, 2, "B", {"token"}}, {1, 2, "T", {"token", "lemma"}}, {2, 3, "B", {"token"}},
    {2, 3, "L", {"lemma"}}, {0, 1, "L", {"lemma"}}, {1, 3, "L", {"lemma"}}, {2, 4, "B", {"token"}}, {3, 4, "M", {"lemma"}}, {0, 4, "P", {"parse"}}, {3, 4, "B", {"token"}} };
static void runPath(const string& id) {
    unsigned bits = strtoul(id.c_str() + 1, 0, 10);
    AnnotationItemManager aim; Lattice lat(aim, "abcd");
    for (size_t i = 0; i < PES.size(); ++i) if (bits >> i & 1)
        lat.addEdge(PES[i].f, PES[i].t, AnnotationItem(PES[i].cat, StringFrag(PES[i].cat)), lat.getLayerTagManager().createTagCollection(std::list<string>(PES[i].tags.begin(), PES[i].tags.end())));
    vh::transitions(); vh::traces();
    for (string m : {"lemma", "token", "parse;lemma"}) {
        LayerTagMask mask = lat.getLayerTagManager().getMask(m);
        for (int v0 = 0; v0 <= 4; ++v0) {
            // plain path: at every vertex the last matching edge
            string want; int v = v0;
            while (true) { Lattice::InOutEdgesIterator o = lat.outEdges(v, mask); bool any = false; Lattice::EdgeDescriptor d; while (o.hasNext()) { d = o.next(); any = true; } if (!any) break; want += ld::edgeHead(lat, d) + ";"; v = lat.getEdgeTarget(d); }
            int wantEnd = v; int end = v0;
            Lattice::EdgeSequence s = lat.getPath(end, mask);
            string got; { Lattice::EdgeSequence::Iterator it(lat, s); while (it.hasNext()) got += ld::edgeHead(lat, it.next()) + ";"; }
            vh::expectEq(got, want, "path", "path from " + vh::num(v0) + " under " + m);
            vh::expectEq(end, wantEnd, "path-end", "end of the path from " + vh::num(v0) + " under " + m);
            vh::outcome(got);
            // path over blanks: matching edges wherever there are some, else a blank if there is one
            end = v0;
            Lattice::EdgeSequence sb = lat.getPathSkippingBlanks(end, mask);
            Lattice::EdgeSequence::Iterator it(lat, sb); v = v0; string steps;
            while (it.hasNext()) {
                Lattice::EdgeDescriptor d = it.next(); steps += ld::edgeHead(lat, d) + ";";
                vh::expectEq((int)lat.getEdgeSource(d), v, "blank-path-connected", "source of a step of the path from " + vh::num(v0) + " under " + m);
                Lattice::InOutEdgesIterator o = lat.outEdges(v, mask); string best; bool any = false;
                while (o.hasNext()) { best = ld::edgeHead(lat, o.next()); any = true; }
                if (any) vh::expectEq(ld::edgeHead(lat, d), best, "blank-path-choice", "step at " + vh::num(v) + " under " + m);
                else {
                    bool blank = false; Lattice::InOutEdgesIterator a = lat.allOutEdges(v); while (a.hasNext()) if (lat.isBlank(a.next())) blank = true;
                    if (blank) vh::expect(lat.isBlank(d), "blank-path-choice", "a blank is available at " + vh::num(v) + " under " + m + " but " + ld::edgeHead(lat, d) + " was taken");
                }
                v = lat.getEdgeTarget(d);
            }
            vh::expectEq(end, v, "blank-path-end", "end of the path over blanks from " + vh::num(v0) + " under " + m + ": " + steps);
            vh::expect(!lat.allOutEdges(v).hasNext(), "blank-path-maximal", "path over blanks from " + vh::num(v0) + " stops at " + vh::num(v));
        }
    }
    vh::state(id);
}

// ---- corrections: case "c<text>|op|op" ; op = i<v>,<t> / e<v>,<v> / r<v>,<v>,<t> ----
static void spelled(Lattice& lat, int v, const string& acc, int endText, set<string>& out, int depth, bool& cyclic) {
    if (depth > 14) { cyclic = true; return; }
    Lattice::InOutEdgesIterator o = lat.outEdges(v, lat.getSymbolMask());
    if (!o.hasNext() || v == endText) out.insert(acc);
    while (o.hasNext()) { Lattice::EdgeDescriptor d = o.next(); spelled(lat, lat.getEdgeTarget(d), acc + lat.getEdgeAnnotationItem(d).getCategory().substr(1), endText, out, depth + 1, cyclic); }
}
static void runCorr(const string& id) {
    vector<string> f = vh::split(id.substr(1), '|');
    AnnotationItemManager aim; Lattice lat(aim, f[0]);
    string text = f[0]; int n = (int)text.size();
    lat.addSymbols(0, n);
    set<string> must; must.insert(text); string log;
    for (size_t i = 1; i < f.size(); ++i) {
        vector<string> a = vh::split(f[i].substr(1), ',');
        int v = atoi(a[0].c_str()); string corrected; bool threw = false;
        vh::transitions();
        try {
            if (f[i][0] == 'i') { corrected = text.substr(0, v) + a[1] + text.substr(v); lat.correctionInsert(v, a[1]); }
            else if (f[i][0] == 'e') { int t = atoi(a[1].c_str()); corrected = text.substr(0, v) + text.substr(t); lat.correctionErase(v, t); }
            else { int t = atoi(a[1].c_str()); corrected = text.substr(0, v) + a[2] + text.substr(t); lat.correctionReplace(v, t, a[2]); }
        } catch (WrongVertexException&) { threw = true; }
        log += threw ? "!" : ".";
        // at the end of the text a later correction may apply to what an earlier one has put there
        int upTo = f[i][0] == 'i' ? v : atoi(a[1].c_str());
        if (!threw && (upTo < n || i == 1)) must.insert(corrected);
        if (threw) vh::expect(f[i][0] == 'e' || f[i][0] == 'r' , "correction-throws", "insertion refused");
        // only what reaches the end of the text may be refused
        if (threw) { int t = atoi(a[1].c_str()); vh::expect(t == n, "correction-throws", "correction of " + f[i] + " refused though text follows it"); }
        set<string> got; bool cyc = false; spelled(lat, 0, "", n, got, 0, cyc);
        vh::expect(!cyc, "correction-cycle", "symbol edges form a cycle after " + f[i]);
        for (auto& s : must) vh::expect(got.count(s), "correction-lost", "`" + s + "' is not spelled by any symbol path after " + f[i]);
        vh::expectEq(lat.getAllText(), text, "correction-text", "text of the lattice");
        if (i == 1 && f.size() == 2 && !threw && f[i][0] != 'r') for (auto& s : got) vh::expect(must.count(s), "correction-extra", "`" + s + "' is spelled after " + f[i]);
        string c; for (auto& s : got) c += s + ";"; vh::state("c" + c); vh::outcome(log + c);
    }
    vh::traces();
}

// ---- parents, origins: chains of partitions; case "o<len><branch>" ----
static void runOrigin(const string& id) {
    // a chain of edges each derived from the previous one, with tags chosen by digits
    static const vector<vector<string> > TG = {{"token"}, {"lemma"}, {"lexeme"}, {"lemma", "x"}, {"form"}};
    AnnotationItemManager aim; Lattice lat(aim, "ab"); lat.addSymbols(0, 2);
    vector<Lattice::EdgeDescriptor> chain; vector<int> kind;
    for (size_t i = 1; i < id.size(); ++i) {
        int k = id[i] - '0'; Lattice::EdgeSequence::Builder b(lat);
        if (!chain.empty()) b.addEdge(chain.back());
        chain.push_back(lat.addEdge(0, 2, AnnotationItem("c" + vh::num(i), StringFrag("t" + vh::num(i))), lat.getLayerTagManager().createTagCollection(std::list<string>(TG[k].begin(), TG[k].end())), b.build()));
        kind.push_back(k);
    }
    vh::transitions(chain.size()); vh::traces(); vh::state(id);
    for (size_t i = 0; i < chain.size(); ++i) {
        boost::optional<Lattice::EdgeDescriptor> p = lat.getParent(chain[i]);
        if (i == 0) vh::expect(!p, "parent", "the first edge has a parent");
        else vh::expect(p && *p == chain[i - 1], "parent", "parent of edge " + vh::num(i));
        int org = -1; for (int j = (int)i - 1; j >= 0 && org < 0; --j) if (kind[j] == 1 || kind[j] == 3) org = j;
        boost::optional<string> l = lat.getEdgeLemma(chain[i]);
        vh::expectEq(l ? *l : string("-"), org < 0 ? string("-") : "t" + vh::num(org + 1), "lemma", "lemma of edge " + vh::num(i));
        for (string m : {"lemma", "token", "form"}) {
            LayerTagMask mask = lat.getLayerTagManager().getMask(m);
            vector<Lattice::EdgeDescriptor> ch = lat.getChildren(chain[i], mask);
            bool want = i + 1 < chain.size(); if (want) { bool has = false; for (auto& t : TG[kind[i + 1]]) if (t == m) has = true; want = has; }
            vh::expectEq(ch.size(), (size_t)want, "children", "number of children of edge " + vh::num(i) + " under " + m);
            boost::optional<Lattice::EdgeDescriptor> pm = lat.getParent(chain[i], mask);
            bool pw = i > 0; if (pw) { bool has = false; for (auto& t : TG[kind[i - 1]]) if (t == m) has = true; pw = has; }
            vh::expectEq((bool)pm, pw, "parent-mask", "existence of a parent of edge " + vh::num(i) + " under " + m);
        }
        vh::outcome(l ? *l : "-");
    }
}

void vh_run(const string& id) {
    switch (id[0]) { case 's': runSeq(id); break; case 'p': runPath(id); break; case 'c': runCorr(id); break; case 'o': runOrigin(id); break; }
}
void vh_enumerate(vh::Emit& emit) {
    size_t maxLen = vh::thorough() ? 5 : 4;
    for (int kind = 0; kind <= 4; ++kind) {
        size_t ne = 4 + (kind < 4 ? kind : 4);
        for (size_t n = 0; n <= maxLen; ++n) vh::sequences(ne, n, [&](const vector<int>& v) {
            string s = "s" + vh::num(kind); for (int k : v) s += (char)('a' + k);
            emit(s); if (n <= 3) for (int l = 0; l < 5; ++l) emit(s + "+" + vh::num(l));
        });
    }
    for (unsigned b = 0; b < (1u << PES.size()); ++b) emit("p" + vh::num(b));
    for (size_t n = 1; n <= (vh::thorough() ? 6u : 5u); ++n) vh::sequences(5, n, [&](const vector<int>& v) { string s = "o"; for (int k : v) s += (char)('0' + k); emit(s); });
    for (string t : {"abc", "a\xc4\x85" "b"}) {
        vector<int> vs; for (int i = 0; i <= (int)t.size(); ++i) if (i == (int)t.size() || ((unsigned char)t[i] & 0xc0) != 0x80) vs.push_back(i);
        vector<string> ops; vector<string> ins = {"", "z", "\xc5\xbc", "xz", "a"};
        for (int v : vs) { for (auto& s : ins) ops.push_back("i" + vh::num(v) + "," + s); for (int u : vs) if (u >= v) { ops.push_back("e" + vh::num(v) + "," + vh::num(u)); for (auto& s : ins) ops.push_back("r" + vh::num(v) + "," + vh::num(u) + "," + s); } }
        for (size_t n = 1; n <= (vh::thorough() ? 3u : 2u); ++n) vh::sequences(ops.size(), n, [&](const vector<int>& v) { string s = "c" + t; for (int k : v) s += "|" + ops[k]; emit(s); });
    }
}
