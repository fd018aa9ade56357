// T01: layer tag collections and masks are sets of names and alternatives of conjunctions of names.
#include "vh.hpp"
#include "layer_tag_manager.hpp"
using std::string; using std::vector; using std::set;
static const vector<string> N = {"a", "b", "!p", "symbol", "!q"};
static set<string> sub(unsigned m, const vector<string>& n) { set<string> r; for (size_t i = 0; i < n.size(); ++i) if (m >> i & 1) r.insert(n[i]); return r; }
static string J(const set<string>& s) { string r; for (auto& x : s) r += x + ","; return r; }
static set<string> planes(const set<string>& s) { set<string> r; for (auto& x : s) if (x[0] == '!') r.insert(x); return r; }
static bool inc(const set<string>& a, const set<string>& b) { for (auto& x : a) if (!b.count(x)) return false; return true; }
static set<string> names(LayerTagManager& m, const LayerTagCollection& c) { std::list<string> l = m.getTagNames(c); set<string> r(l.begin(), l.end()); vh::expect(r.size() == l.size() && std::is_sorted(l.begin(), l.end()), "names-sorted", "tag names not sorted or repeated"); return r; }

static void pairs(LayerTagManager& m, const vector<string>& n, unsigned lim) {
    vector<set<string> > S; vector<LayerTagCollection> C;
    for (unsigned i = 0; i < lim; ++i) { S.push_back(sub(i, n)); C.push_back(m.createTagCollection(std::list<string>(S[i].begin(), S[i].end()))); }
    for (unsigned i = 0; i < lim; ++i) {
        vh::expectEq(J(names(m, C[i])), J(S[i]), "names", "names of {" + J(S[i]) + "}");
        vh::expectEq(C[i].isEmpty(), S[i].empty(), "empty", "emptiness"); vh::expectEq(C[i].isNonempty(), !S[i].empty(), "empty", "emptiness");
        vh::expectEq(J(names(m, m.onlyPlaneTags(C[i]))), J(planes(S[i])), "plane", "plane tags of {" + J(S[i]) + "}");
        for (auto& x : n) vh::expectEq(m.isThere(x, C[i]), S[i].count(x) > 0, "is-there", x + " in {" + J(S[i]) + "}");
        vh::expectEq(m.isThere("neverseen", C[i]), false, "is-there", "an unknown tag");
        vh::state(J(S[i]));
        for (unsigned j = 0; j < lim; ++j) {
            vh::transitions();
            set<string> u = S[i], x; u.insert(S[j].begin(), S[j].end()); for (auto& t : S[i]) if (S[j].count(t)) x.insert(t);
            string d = "{" + J(S[i]) + "} {" + J(S[j]) + "}";
            vh::expectEq(J(names(m, createUnion(C[i], C[j]))), J(u), "union", "union of " + d);
            vh::expectEq(J(names(m, createIntersection(C[i], C[j]))), J(x), "intersection", "intersection of " + d);
            vh::expectEq(C[i] == C[j], S[i] == S[j], "equal", "equality of " + d);
            vh::expectEq(C[i] != C[j], S[i] != S[j], "equal", "inequality of " + d);
            vh::expectEq(isSubset(C[i], C[j]), inc(S[i], S[j]), "subset", "inclusion of " + d);
            vh::expectEq(m.areInTheSamePlane(C[i], C[j]), planes(S[i]) == planes(S[j]), "plane", "same plane of " + d);
            if (C[i] == C[j]) vh::expect(C[i].getHash() == C[j].getHash(), "hash", "equal collections, different hashes");
            if (S[i].empty() || S[j].empty()) continue;
            // masks
            LayerTagMask one = m.getMask(C[j]), two = m.getAlternativeMask(C[i], C[j]);
            string spec; for (auto& t : S[i]) spec += (spec.empty() ? "" : ",") + t; spec += ";"; bool f = true; for (auto& t : S[j]) { spec += (f ? "" : ",") + t; f = false; }
            LayerTagMask parsed = m.getMask(spec);
            vh::expect(parsed == two && parsed.getHash() == two.getHash(), "mask-spec", "mask parsed from " + spec + " differs from the alternative");
            vh::expectEq(m.canBeAppliedToImplicitSymbol(two), matches(m.createSingletonTagCollection("symbol"), two), "mask-implicit", "mask " + spec + " and a bare symbol");
            for (int again = 0; again < 2; ++again) {
                for (unsigned k = 0; k < lim; ++k) {
                    vh::expectEq(matches(C[k], one), inc(S[j], S[k]), "matches", "{" + J(S[k]) + "} against {" + J(S[j]) + "}");
                    bool w = inc(S[i], S[k]) || inc(S[j], S[k]);
                    vh::expectEq(matches(C[k], two), w, "matches", "{" + J(S[k]) + "} against " + spec); 
                    vh::expectEq(matches(C[k], parsed), w, "matches", "{" + J(S[k]) + "} against parsed " + spec);
                    vh::outcome(w ? J(S[k]) : "no");
                }
                vh::expect(!two.isNone() && two.isSome() && !two.isAny() && !one.isNone(), "mask-kind", "kind of mask " + spec);
            }
            LayerTagMask swapped = m.getAlternativeMask(C[j], C[i]);
            vh::expectEq(one == m.getMask(C[j]), true, "mask-equal", "equality of masks");
            if (S[i] != S[j]) vh::expect(!(one == m.getMask(C[i])), "mask-equal", "different masks equal: " + d);
            for (unsigned k = 0; k < lim; ++k) vh::expectEq(matches(C[k], swapped), matches(C[k], two), "matches", "order of the alternatives of " + spec);
        }
        LayerTagMask any = m.anyTag(); vh::expect(matches(C[i], any) && any.isAny() && any.isSome() && !any.isNone(), "any", "the any mask against {" + J(S[i]) + "}");
    }
    vh::traces();
}
// equality of masks: all pairs of masks of up to two alternatives over four names (first fixed)
static void equality(LayerTagManager& m, unsigned i0, unsigned j0) {
    vector<string> n = {"a", "b", "!p", "symbol"}; vector<LayerTagCollection> C; vector<set<string> > S; for (unsigned i = 0; i < 16; ++i) { S.push_back(sub(i, n)); C.push_back(m.createTagCollection(std::list<string>(S[i].begin(), S[i].end()))); }
    auto make = [&](unsigned i, unsigned j) { return j ? m.getAlternativeMask(C[i], C[j]) : m.getMask(C[i]); };
    auto accepts = [&](unsigned i, unsigned j) { string r; for (unsigned k = 0; k < 16; ++k) r += (i & k) == i || (j && (j & k) == j) ? '1' : '0'; return r; };
    LayerTagMask a = make(i0, j0);
    for (unsigned i = 1; i < 16; ++i) for (unsigned j = 0; j < 16; ++j) {
        LayerTagMask b = make(i, j); string d = "{" + J(S[i0]) + ";" + J(S[j0]) + "} and {" + J(S[i]) + ";" + J(S[j]) + "}"; vh::transitions();
        if (i == i0 && j == j0) { vh::expect(a == b, "mask-equal", "the same mask twice: " + d); vh::expectEq(a.getHash(), b.getHash(), "mask-hash", d); }
        if (a == b) { vh::expectEq(accepts(i0, j0), accepts(i, j), "mask-equal", "masks " + d + " are equal and accept different collections"); vh::expectEq(a.getHash(), b.getHash(), "mask-hash", d); }
        vh::expectEq(a == b, b == a, "mask-equal", "symmetry: " + d);
    }
    LayerTagMask any = m.anyTag(); vh::expect(!(any == a) && !(a == any), "mask-equal", "any and {" + J(S[i0]) + ";" + J(S[j0]) + "}"); vh::state("e" + vh::num(i0) + "," + vh::num(j0)); vh::traces();
}
void vh_run(const string& id) {
    LayerTagManager m;
    if (id[0] == 'e') { equality(m, atoi(id.c_str() + 1) / 16, atoi(id.c_str() + 1) % 16); return; }
    if (id[0] == 'o') { for (size_t i = 1; i < id.size(); ++i) { switch (i % 3) { case 0: m.createSingletonTagCollection(N[id[i] - '0']); break; case 1: m.getMask(N[id[i] - '0']); break; case 2: m.isThere(N[id[i] - '0'], m.createEmptyTagCollection()); } } pairs(m, N, 32); }
    else if (id[0] == 'b') {   // at the capacity of 64 tags
        int first = atoi(id.c_str() + 1); vector<string> n; for (int i = 0; i < 62; ++i) { string t = (i % 7 == 3 ? "!t" : "t") + vh::num(i); n.push_back(t); m.createSingletonTagCollection(t); }
        vector<string> k; for (int i = 0; i < 5; ++i) k.push_back(n[(first + i * 13) % 62]); k[4] = n[61];
        set<string> u(k.begin(), k.end()); k.assign(u.begin(), u.end());
        pairs(m, k, 1u << k.size());
    } else if (id[0] == 's') {
        string s = id.substr(1); vh::transitions();
        bool ok = !s.empty(); vector<vector<string> > want; 
        for (auto& alt : vh::split(s, ';')) { want.push_back(vh::split(alt, ',')); for (auto& t : want.back()) if (t.empty()) ok = false; }
        std::list<std::list<string> > got = LayerTagManager::splitMaskSpecification(s);
        string g, w; for (auto& x : got) { for (auto& y : x) g += y + ","; g += ";"; } for (auto& x : want) { for (auto& y : x) w += y + ","; w += ";"; }
        if (ok) vh::expectEq(g, w, "mask-split", "alternatives and conjunctions of `" + s + "'");
        std::list<string> c = LayerTagManager::splitCollectionSpecification(s); g = ""; for (auto& x : c) g += x + "|"; w = ""; for (auto& x : vh::split(s, ',')) w += x + "|";
        vh::expectEq(g, w, "collection-split", "tags of `" + s + "'"); vh::outcome(g); vh::traces();
        // the collection made of the specification holds exactly those tags
        vector<string> v = vh::split(s, ','); set<string> sv(v.begin(), v.end());
        vh::expectEq(J(names(m, m.createTagCollection(s))), J(sv), "collection-spec", "collection made of `" + s + "'");
        vh::expectEq(J(names(m, m.createTagCollection(v))), J(sv), "collection-spec", "collection made of a vector");
        if (ok) for (unsigned k = 0; k < 8; ++k) {
            set<string> ks = sub(k, {"a", "b", "!"}); bool e = false; for (auto& a : want) { bool all = true; for (auto& t : a) if (!ks.count(t)) all = false; e = e || all; }
            vh::expectEq(matches(m.createTagCollection(std::list<string>(ks.begin(), ks.end())), m.getMask(s)), e, "matches-spec", "{" + J(ks) + "} against `" + s + "'");
        }
        vh::state(s);
    }
}
void vh_enumerate(vh::Emit& emit) {
    for (int i = 16; i < 256; ++i) emit("e" + vh::num(i));
    string p = "01234"; do emit("o" + p); while (std::next_permutation(p.begin(), p.end()));
    for (int i = 0; i < 62; i += 5) emit("b" + vh::num(i));
    vh::strings({"a", "b", "!", ",", ";"}, vh::thorough() ? 7 : 6, [&](const string& s) { emit("s" + s); });
}
