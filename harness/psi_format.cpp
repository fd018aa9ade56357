// F01: a lattice written in the PSI format and read back is the same lattice.
#include "vh.hpp"
#include "lattice_dump.hpp"
#include "annotation_item_manager.hpp"
#include "psi_lattice_reader.hpp"
#include "psi_lattice_writer.hpp"
#include "psi_quoter.hpp"
#include "utt_quoter.hpp"
using std::string; using std::vector; using std::set; using std::map;
static const char R = '\x1e', U = '\x1f';
struct Ed { string from, to, tags, cat, atext, avs, score, parts; };
static string enc(const Ed& e) { return e.from + U + e.to + U + e.tags + U + e.cat + U + e.atext + U + e.avs + U + e.score + U + e.parts; }
static Ed dec(const string& s) { auto f = vh::split(s, U); if (f.size() != 8) throw vh::InternalError("bad edge " + s); return {f[0], f[1], f[2], f[3], f[4], f[5], f[6], f[7]}; }

struct Built { Lattice* lat; AnnotationItemManager aim; vector<Lattice::EdgeDescriptor> edges; ~Built() { delete lat; } };
static Lattice::EdgeSequence seq(Lattice& l, vector<Lattice::EdgeDescriptor>& es, Lattice::VertexDescriptor from, Lattice::VertexDescriptor to, const string& p) {
    Lattice::EdgeSequence::Builder b(l);
    if (p == "[]") return b.build();
    Lattice::VertexDescriptor cur = from;
    auto sym = [&]() { Lattice::EdgeDescriptor d = l.firstOutEdge(cur, l.getSymbolMask()); b.addEdge(d); cur = l.getEdgeTarget(d); };
    if (p.empty()) { while (cur != to) sym(); return b.build(); }
    for (auto& x : vh::split(p, '-')) {
        if (x == "0") { sym(); continue; }
        auto y = vh::split(x, '$'); Lattice::EdgeDescriptor d = es.at(atoi(y[0].c_str()) - 1); cur = l.getEdgeTarget(d);
        if (y.size() > 1) b.addEdge(d, l.getAnnotationItemManager().stringToZvalue(y[1])); else b.addEdge(d);
    }
    return b.build();
}
// text pieces separated by '|': a piece starting with '%' is appended without symbols
static bool build(Built& bu, const string& text, const vector<Ed>& eds) {
    bu.lat = new Lattice(bu.aim); Lattice& l = *bu.lat;
    for (auto& p : vh::split(text, '|')) { if (p[0] == '%') l.appendString(p.substr(1)); else l.appendStringWithSymbols(p); }
    map<string, Lattice::VertexDescriptor> loose;
    auto v = [&](const string& s) { if (s[0] != '@') return l.getVertexForRawCharIndex(atoi(s.c_str())); if (!loose.count(s)) loose[s] = l.addLooseVertex(); return loose[s]; };
    for (auto& e : eds) {
        AnnotationItem ai(e.cat, StringFrag(e.atext));
        if (!e.avs.empty()) for (auto& a : vh::split(e.avs, ';')) { size_t q = a.find('='); l.getAnnotationItemManager().setValue(ai, a.substr(0, q), a.substr(q + 1)); }
        Lattice::VertexDescriptor from = v(e.from), to = v(e.to); Lattice::EdgeDescriptor d;
        for (auto& p : vh::split(e.parts, ',')) {
            auto q = vh::split(p, '/');   // sequence/tags/score
            string tags = q.size() > 1 && !q[1].empty() ? q[1] : e.tags; for (auto& c : tags) if (c == '+') c = ',';
            d = l.addEdge(from, to, ai, l.getLayerTagManager().createTagCollection(tags), seq(l, bu.edges, from, to, q[0]), atof((q.size() > 2 && !q[2].empty() ? q[2] : e.score).c_str()));
        }
        bu.edges.push_back(d);
    }
    return true;
}
typedef map<Lattice::VertexDescriptor, int> Ren;
static string vx(Lattice& l, Lattice::VertexDescriptor v, const Ren& ren) { if (!l.isLooseVertex(v)) return vh::num(l.getVertexRawCharIndex(v)); auto f = ren.find(v); return "@" + vh::num(f == ren.end() ? 99 : f->second); }
static string tagsOf(Lattice& l, const LayerTagCollection& c) { string r; for (auto& t : ld::tagSet(l, c)) r += t + ","; return r; }
static string head(Lattice& l, Lattice::EdgeDescriptor d, const Ren& ren) {
    AnnotationItem i = l.getEdgeAnnotationItem(d); string r = vx(l, l.getEdgeSource(d), ren) + "-" + vx(l, l.getEdgeTarget(d), ren) + " " + tagsOf(l, l.getEdgeLayerTags(d)) + " `" + i.getCategory() + "' `" + i.getText() + "'";
    for (auto& p : l.getAnnotationItemManager().getAVMap(i)) r += " " + p.first + "=`" + p.second + "'";
    return r;
}
// a default symbol: implicit, or spelled out with nothing more than an implicit one has
static bool isSym(Lattice& l, Lattice::EdgeDescriptor d) {
    if (!d.isExplicit()) return true; if (ld::tagSet(l, l.getEdgeLayerTags(d)) != set<string>{"symbol"} || l.isLooseVertex(l.getEdgeSource(d)) || l.isLooseVertex(l.getEdgeTarget(d)) || l.getEdgeScore(d) != 0) return false;
    AnnotationItem i = l.getEdgeAnnotationItem(d); string t = l.getEdgeText(d); return i.getText() == t && i.getCategory() == "'" + t && l.getAnnotationItemManager().getValues(i).empty();
}
static set<string> dump(Lattice& l, const Ren& ren) {
    set<string> r; Lattice::EdgesSortedBySourceIterator it = l.edgesSortedBySource(l.getLayerTagManager().anyTag());
    while (it.hasNext()) {
        Lattice::EdgeDescriptor d = it.next(); if (isSym(l, d)) continue;
        std::ostringstream o; o << head(l, d, ren) << " score " << l.getEdgeScore(d) << " parts";
        for (auto& p : l.getEdgePartitions(d)) {
            o << " (" << tagsOf(l, p.getTagList()) << " " << p.getScore() << ":"; Lattice::Partition::Iterator pi(l, p);
            while (pi.hasNext()) { Lattice::EdgeUsage u = pi.nextUsage(); if (isSym(l, u.getEdge())) o << " sym" << vx(l, l.getEdgeSource(u.getEdge()), ren) << "-" << vx(l, l.getEdgeTarget(u.getEdge()), ren); else o << " <" << head(l, u.getEdge(), ren) << ">"; if (!NULLP(u.getRole())) o << "$" << l.getAnnotationItemManager().zvalueToString(u.getRole()) << "$"; }
            o << ")";
        }
        r.insert(o.str());
    }
    return r;
}
static string join(const set<string>& s) { string r; for (auto& x : s) r += "\n    " + x; return r; }
static string write(Lattice& l, bool header) { std::ostringstream o; PsiLatticeWriter w(header); w.writeLattice(l, o); return o.str(); }
static set<Lattice::VertexDescriptor> looseOf(Lattice& l) { set<Lattice::VertexDescriptor> r; Lattice::EdgesSortedBySourceIterator it = l.edgesSortedBySource(l.getLayerTagManager().anyTag()); while (it.hasNext()) { Lattice::EdgeDescriptor d = it.next(); for (auto v : {l.getEdgeSource(d), l.getEdgeTarget(d)}) if (l.isLooseVertex(v)) r.insert(v); } return r; }

static string K;   // prefix of the keys
static string special(const string& id) {   // a value in one of the places of an annotation
    int place = id[1] - '0'; string v = id.substr(3); Ed all = {"0", "5", "frag", "FRAG", "a\xc5\xbc b", "", "0", ""}, x = {"0", "3", "token", "c", "t", "", "0", ""}, t1 = {"0", "3", "token", "T", "x", "", "0", ""}, t2 = {"3", "5", "token", "T", "y", "", "0", ""};
    if (place == 0) x.cat = v; if (place == 1) x.atext = v; if (place == 2) x.avs = "a=" + v; if (place == 3) x.avs = v + "=1";
    string s = string("La\xc5\xbc b") + R;
    return place == 4 ? s + enc(t1) + R + enc(t2) + R + enc(all) + R + enc({"0", "5", "parse", "S", "", "", "0", "1$" + v + "$-2"}) : s + enc(x) + R + enc(all);
}
static void roundTrip(const string& id) {
    auto rec = vh::split(id.substr(1), R); vector<Ed> eds; for (size_t i = 1; i < rec.size(); ++i) eds.push_back(dec(rec[i]));
    Built a; build(a, rec[0], eds); Lattice& l = *a.lat;
    string psi = write(l, false); vh::transitions(eds.size() + 2);
    AnnotationItemManager aim2; Lattice m(aim2); PsiLatticeReader rd; std::istringstream is(psi);
    try { static_cast<LatticeReader<std::istream>&>(rd).readIntoLattice(is, m); } catch (std::exception& e) { vh::fail(K + "unreadable:" + typeid(e).name(), string(e.what()) + "\n" + psi); return; }
    Ren ra; int n = 0; for (auto v : looseOf(l)) ra[v] = n++;
    vector<Lattice::VertexDescriptor> lm; for (auto v : looseOf(m)) lm.push_back(v);
    set<string> want = dump(l, ra), got; bool ok = false;
    std::sort(lm.begin(), lm.end());
    do { Ren rm; for (size_t i = 0; i < lm.size(); ++i) rm[lm[i]] = i; set<string> g = dump(m, rm); if (got.empty() || g == want) got = g; if (g == want) ok = true; } while (!ok && std::next_permutation(lm.begin(), lm.end()));
    vh::expectEq(m.getAllText(), l.getAllText(), K + "text", "the text read back from\n" + psi);
    if (!ok) { set<string> lost, extra; for (auto& x : want) if (!got.count(x)) lost.insert(x); for (auto& x : got) if (!want.count(x)) extra.insert(x);
        vh::fail(K + "edges", "written as\n" + psi + "  lost:" + join(lost) + "\n  instead:" + join(extra)); }
    else if (lm.empty() && std::none_of(eds.begin(), eds.end(), [](const Ed& e) { return e.avs.find("b=") != string::npos; })) vh::expectEq(write(m, false), psi, K + "stable", "what was read, written again");
    string hd = write(l, true); size_t nl = hd.find('\n'); vh::expect(hd[0] == '#' && hd.substr(nl + 1) == psi, K + "header", "the header changes more than the first line");
    vh::traces(); vh::state(join(want)); vh::outcome(psi);
}
static void quoting(const string& s) {
    PsiQuoter p; UTTQuoter u; Quoter* q[2] = {&p, &u};
    for (int i = 0; i < 2; ++i) {
        string e = q[i]->escape(s); vh::transitions();
        for (char c : e) vh::expect(c != ' ' && c != '\n' && c != '\t' && c != '\r' && c != '#' || (c == '#' && (i == 1 || 1)), "quote-clean", "escaping `" + s + "' leaves a separator: `" + e + "'");
        vh::expect(e.find_first_of(" \n\t\r") == string::npos, "quote-clean", "escaping `" + s + "' leaves a separator: `" + e + "'");
        vh::expectEq(q[i]->unescape(e), s, "quote", "unescape(escape(`" + s + "'))"); vh::outcome(e);
    }
    vh::traces();
}
void vh_run(const string& id) { if (id[0] == 'q') quoting(id.substr(1)); else if (id[0] == 'S') { K = "special-"; roundTrip(special(id)); } else { K = ""; roundTrip(id); } }

void vh_enumerate(vh::Emit& emit) {
    auto E = [&](const string& text, const vector<Ed>& e) { string s = "L" + text; for (auto& x : e) s += R + enc(x); emit(s); };
    vh::strings({"a", " ", "_", "\\", "*", "\n", "\t", "\r", "#", "n", "\xc5\xbc"}, vh::thorough() ? 5 : 4, [&](const string& s) { emit("q" + s); });
    // 1. texts: a token on every character, and a fragment over everything
    vh::strings({"a", " ", "_", "#", "\\", "\n", "\xc5\xbc", "*", "\t"}, vh::thorough() ? 4 : 3, [&](const string& t) {
        vector<size_t> b; for (size_t i = 0; i <= t.size(); ++i) if (i == t.size() || (t[i] & 0xc0) != 0x80) b.push_back(i);
        string n = vh::num(t.size()); Ed frag = {"0", n, "frag", "FRAG", t, "", "0", ""};
        E(t, {frag});
        for (unsigned m = 1; m < (1u << (b.size() - 1)); ++m) { vector<Ed> e; for (size_t i = 0; i + 1 < b.size(); ++i) if (m >> i & 1) { string x = t.substr(b[i], b[i + 1] - b[i]); e.push_back({vh::num(b[i]), vh::num(b[i + 1]), "token", "T", x, "lex=" + x, "0", ""}); } e.push_back(frag); E(t, e); }
    }, 1);
    // long texts: tokens, gaps and long edges
    for (string t : {"abcdefghijklmnopqrstuvwxyz0123456789ABCDEFGHIJ", "a_b_c_d_e_f_g_h_i_j_k_l_m_n", "za\xc5\xbc\xc3\xb3\xc5\x82\xc4\x87 g\xc4\x99\xc5\x9bl\xc4\x85 ja\xc5\xba\xc5\x84 i jeszcze co\xc5\x9b", "\n\n\n\nabcdefgh ijkl\n\n\nmnop"}) {
        vector<size_t> b; for (size_t i = 0; i <= t.size(); i += 1) if (i == t.size() || ((t[i] & 0xc0) != 0x80 && i % 3 == 0)) b.push_back(i);
        string n = vh::num(t.size()); Ed frag = {"0", n, "frag", "FRAG", t, "", "0", ""};
        for (size_t i = 0; i < b.size(); ++i) for (size_t j = i + 1; j < b.size(); ++j) { Ed x = {vh::num(b[i]), vh::num(b[j]), "token", "T", "x", "", "0", ""}; E(t, {x, frag}); E(t, {frag, x});
            for (size_t k = j; k + 1 < b.size(); k += 2) { Ed y = {vh::num(b[k]), vh::num(b[k + 1]), "token", "T", "y", "", "0", ""}; E(t, {x, y, frag}); E(t, {y, x}); } }
    }
    // 2. all pairs of edges
    vector<Ed> T; string t = "a\xc5\xbc b";
    vector<std::pair<string, string> > spans = {{"0", "1"}, {"0", "3"}, {"1", "3"}, {"0", "4"}, {"3", "5"}, {"0", "5"}, {"1", "5"}, {"0", "@0"}, {"@0", "5"}, {"@0", "@1"}, {"@1", "3"}};
    for (auto& s : spans) for (string tags : {"token", "!p+parse", "symbol"}) for (int it = 0; it < 4; ++it) for (string sc : {"0", "0.5", "-2"}) for (string p : {"", "[]"}) {
        if (p == "" && (s.first[0] == '@' || s.second[0] == '@')) continue;
        if (tags == "symbol" && (it != 0 && it != 2 || sc != "0" || p != "[]")) continue; if (sc == "-2" && (it > 0 || p == "[]")) continue;
        T.push_back({s.first, s.second, tags, it < 2 ? "c" : "d e", it == 1 ? "" : "t u", it == 2 ? "a=1;b=x y" : it == 3 ? "b=_" : "", sc, p});
    }
    Ed frag = {"0", "5", "frag", "FRAG", t, "", "0", ""};
    for (size_t i = 0; i < T.size(); ++i) { E(t, {T[i], frag}); for (size_t j = 0; j < T.size(); ++j) { if (!vh::thorough() && (i * 7 + j * 3) % 4) continue; E(t, {T[i], T[j], frag}); } }
    // 3. partitions
    Ed t1 = {"0", "3", "token", "T", "x", "", "0", ""}, t2 = {"3", "5", "token", "T", "y", "", "0", ""};
    vector<string> seqs = {"1-2", "0-0-2", "1-0-0", "0-0-0-0", "[]", "1$r$-2", "1-2$s t$"}, deco = {"", "/parse+other", "//0.5", "/parse/-1", "/z+parse/2"};
    vector<string> parts; for (auto& s : seqs) for (auto& d : deco) parts.push_back(s + d);
    for (string sc : {"0", "0.5", "-1"}) for (auto& p : parts) { Ed x = {"0", "5", "parse", "S", "", "k=v", sc, p}; E(t, {t1, t2, frag, x}); E(t, {t1, t2, x, frag}); { string w = p; for (size_t i = 0; i < w.size() && w[i] != '/'; ++i) w[i] = w[i] == '1' ? '2' : w[i] == '2' ? '1' : w[i]; x.parts = w; E(t, {t2, t1, x, frag}); x.parts = p; } E(t, {t1, t2, {"0", "5", "frag", "FRAG", t, "", "0", "[]"}, x});
        for (auto& q : parts) { x.parts = p + "," + q; E(t, {t1, t2, frag, x});
            if (sc == "0" || vh::thorough()) for (size_t k = 0; k < parts.size(); k += vh::thorough() ? 1 : 6) { x.parts = p + "," + q + "," + parts[k]; E(t, {t1, t2, frag, x}); } } }
    for (auto& p : {"1", "1,[]", "1-0", "0-1"}) (void)p;
    // chains of edges built on one another
    Ed all = {"0", "5", "frag", "FRAG", t, "", "0", ""};
    for (int deep = 1; deep <= 12; ++deep) { vector<Ed> e = {t1, t2}; for (int k = 0; k < deep; ++k) e.push_back({"0", "5", "parse", "N" + vh::num(k), "", "", "0", k == 0 ? "1-2" : vh::num(k + 2)}); e.push_back(all); E(t, e); std::reverse(e.begin() + 2, e.end() - 1); }
    // 4. pieces of text without symbols (markup), and default symbol edges
    for (string txt : {"a|%<b>|c", "%<b>|c", "a|%<b>|c|%</b>", "a|%<\xc5\xbc>|c", "%_|a"}) {
        string whole; vector<size_t> at = {0}; for (auto& p : vh::split(txt, '|')) { whole += p[0] == '%' ? p.substr(1) : p; at.push_back(whole.size()); }
        vector<Ed> c; for (size_t i = 0; i < at.size(); ++i) for (size_t j = i + 1; j < at.size(); ++j) for (string p : {"", "[]"}) for (string tg : {"html+markup", "token"}) { bool sym = true; string acc; auto ps = vh::split(txt, '|'); for (size_t k = i; k < j; ++k) if (ps[k][0] == '%') sym = false; if (!sym && p == "") continue; c.push_back({vh::num(at[i]), vh::num(at[j]), tg, "M", "m", "", "0", p}); }
        Ed end = {"0", vh::num(whole.size()), "frag", "FRAG", "", "", "0", "[]"};
        for (auto& x : c) { E(txt, {x, end}); for (auto& y : c) E(txt, {x, y, end}); }
        E(txt, {end});
        for (auto& x : c) { Ed lst = {x.to, vh::num(whole.size()), "token", "L", "l", "", "0", "[]"}; if (lst.from != lst.to) E(txt, {x, lst}); }
    }
    // 5. characters which separate the fields of an annotation, in every place they may stand
    for (string ch : {",", "=", "<", ">", "[", "]", "(", ")", "$", "-", "@", "'", "\"", ":", ";x", "/", "|", "0", "7", "_", "\\", "#", " ", "\n", "*", "\xc5\xbc", "\xe2\x88\x85", "..."})
        for (string pat : {"%", "x%", "%x", "x%y"}) for (int place = 0; place < 5; ++place) {
            string v = pat; size_t q = v.find('%'); v.replace(q, 1, ch == ";x" ? ";" : ch); if (ch == ";x" || ch == "|") if (place == 2 || place == 3) continue;
            if ((ch == "=" && place == 3) || (v.empty())) continue; if (place == 4 && (ch == "-" || ch == "," || ch == "/" || ch == "$")) continue;
            emit("S" + vh::num(place) + ":" + v);
        }
}
