// F10: the reader of the NKJP corpus puts in the lattice exactly the paragraphs, sentences, segments and interpretations of the document.
#include "vh.hpp"
#include "annotation_item_manager.hpp"
#include "lattice.hpp"
#include "nkjp_lattice_reader.hpp"
#include <boost/program_options.hpp>
#include <memory>
#include <sstream>
using std::string; using std::vector; using std::set; using std::map; typedef map<string, string> F; typedef set<string> T;
static const vector<string>& WORDS() { static vector<string> w = {"Za", "ą", "a&b", "<i>", "7-krotnie", ".", "10 000", "[", "żółć", "\"", "]", "[3,3]", "a [b"}; return w; }
static const vector<string>& CTAGS() { static vector<string> w = {"subst", "prep", "fin", "x&y"}; return w; }
static const vector<string>& BASES() { static vector<string> w = {"za", "mieć", "maić", "a<b"}; return w; }
struct M { const char* s; F f; };
static const vector<M>& MSDS() { static vector<M> m = {{"sg:nom:m1", {{"number", "sg"}, {"case", "nom"}, {"gender", "m1"}}}, {"sg:gen:m1", {{"number", "sg"}, {"case", "gen"}, {"gender", "m1"}}}, {"pl:nom:f:pos", {{"number", "pl"}, {"case", "nom"}, {"gender", "f"}, {"degree", "pos"}}}, {"", {}}, {"xx", {}}, {"gen", {{"case", "gen"}}}, {"nom:gen", {{"case", "nom"}}}}; return m; }
static string xml(const string& s) { string r; for (char c : s) r += c == '&' ? "&amp;" : c == '<' ? "&lt;" : c == '>' ? "&gt;" : c == '"' ? "&quot;" : string(1, c); return r; }
static int chars(const string& s) { int n = 0; for (unsigned char c : s) if ((c & 0xc0) != 0x80) ++n; return n; }
struct Lex { int base, ctag; vector<int> msds; bool alt; };
struct Attr { string name, value; char kind; };     // s string, y symbol, b binary, v fVal
struct Seg { int word; int gap; bool nps; vector<Lex> lexes; int choice; vector<Attr> attrs; string type; };
struct Sent { vector<Seg> segs; }; struct Par { string tag; vector<Sent> sents; };
struct Edge { string from, to, cat, text; F attrs; T tags; set<string> parts; };
struct Model {
    string text; int loose = 0; vector<Edge> es;
    string name(int e) { Edge& x = es[e]; string s = x.from + "-" + x.to + " " + x.text + "/" + x.cat; for (auto& a : x.attrs) s += "[" + a.first + "=" + a.second + "]"; return s; }
    int add(const string& from, const string& to, const string& cat, const string& text, const F& attrs, const string& tag, const string& part) { int e = -1; for (size_t i = 0; i < es.size(); ++i) if (es[i].from == from && es[i].to == to && es[i].cat == cat && es[i].text == text && es[i].attrs == attrs) e = i; if (e < 0) { e = es.size(); es.push_back(Edge{from, to, cat, text, attrs, {"!pl", "nkjp-reader"}, {}}); } es[e].tags.insert(tag); es[e].parts.insert(part); return e; }
    string here() { return vh::num(text.size()); } string last() { string h = here(); bool out = false; for (auto& e : es) out |= e.from == h; return out && loose ? "@" + vh::num(loose - 1) : h; } string begin(const string& b, size_t start) { return b[0] == '@' && text.size() > start ? vh::num(start) : b; } string newLoose() { return "@" + vh::num(loose++); }
    string symbols(const string& t) { string s; for (size_t i = 0; i < t.size();) { size_t j = i + 1; while (j < t.size() && ((unsigned char)t[j] & 0xc0) == 0x80) ++j; s += "'" + t.substr(i, j - i) + "+"; i = j; } return s; }
    int append(const string& t, const string& cat, const F& attrs, const string& tag) { string a = t.empty() ? last() : here(), b; text += t; b = t.empty() ? newLoose() : here(); return add(a, b, cat, t, attrs, tag, symbols(t)); }
};
static string header(const string& body) { return "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<!-- a comment -->\n<teiCorpus xmlns:xi=\"http://www.w3.org/2001/XInclude\" xmlns=\"http://www.tei-c.org/ns/1.0\" xmlns:nkjp=\"http://www.nkjp.pl/ns/1.0\">\n <xi:include href=\"NKJP_1M_header.xml\"/>\n <TEI>\n  <xi:include href=\"header.xml\"/>\n  <text xml:lang=\"pl\">\n   <body xml:id=\"b\">\n    <!-- akapit -->\n" + body + "   </body>\n  </text>\n </TEI>\n</teiCorpus>\n"; }
// source: s segmentation, m morphosyntax, w words (no positions), e senses (comment only)
static string document(const vector<Par>& ps, char source) {
    string o; int at = 0, n = 0; for (auto& p : ps) { at = 0; o += "    <" + p.tag + " corresp=\"x\" xml:id=\"p\">\n"; for (auto& s : p.sents) { o += "     <s xml:id=\"s\">\n"; for (auto& g : s.segs) { const string& w = WORDS()[g.word]; at += g.gap; string pos = vh::num(at) + "," + vh::num(chars(w)); at += chars(w); ++n; string id = "m" + vh::num(n);
        if (source == 's') { o += "      <!-- " + w + " -->\n      <seg corresp=\"text.xml#string-range(txt_1.1-ab," + pos + ")\"" + (g.nps ? " nkjp:nps=\"true\"" : "") + " xml:id=\"" + id + "\"/>\n"; continue; }
        o += "      <seg corresp=\"ann_segmentation.xml#segm_1.1-seg\" xml:id=\"" + id + "\">\n"; if (source == 'e') o += "       <!-- " + w + " [" + pos + "] -->\n"; o += "       <fs type=\"" + g.type + "\">\n"; if (source != 'e') o += "        <f name=\"orth\"><string>" + xml(w) + "</string></f>\n"; if (source == 'm') o += "        <!-- " + w + " [" + pos + "] -->\n"; if (g.nps) o += "        <f name=\"nps\"><binary value=\"true\"/></f>\n";
        for (auto& a : g.attrs) { o += "        <f name=\"" + a.name + "\""; string v = xml(a.value); o += a.kind == 'v' ? " fVal=\"" + v + "\"/>\n" : a.kind == 's' ? "><string>" + v + "</string></f>\n" : a.kind == 'y' ? "><symbol value=\"" + v + "\"/></f>\n" : "><binary value=\"" + v + "\"/></f>\n"; }
        if (g.lexes.size()) { o += "        <f name=\"interps\">\n"; int f = 0; for (auto& l : g.lexes) { o += "         <fs type=\"lex\" xml:id=\"l\"><f name=\"base\"><string>" + xml(BASES()[l.base]) + "</string></f><f name=\"ctag\"><symbol value=\"" + xml(CTAGS()[l.ctag]) + "\"/></f><f name=\"msd\">"; if (l.alt) o += "<vAlt>"; for (int m : l.msds) o += string("<symbol value=\"") + MSDS()[m].s + "\" xml:id=\"" + id + "." + vh::num(f++) + "\"/>"; if (l.alt) o += "</vAlt>"; o += "</f></fs>\n"; } o += "        </f>\n"; }
        if (g.choice >= 0) o += "        <f name=\"disamb\"><fs feats=\"#a\" type=\"tool_report\"><f fVal=\"#" + id + "." + vh::num(g.choice) + "\" name=\"choice\"/><f name=\"interpretation\"><string>za:prep:acc</string></f></fs></f>\n";
        o += "       </fs>\n"; if (source == 'w') o += "       <ptr target=\"x\"/>\n"; o += "      </seg>\n"; } o += "     </s>\n"; } o += "    </" + p.tag + ">\n"; }
    return header(o);
}
// pinned: what the repository's own mass test expects of a form both chosen and rejected
static bool expected(Model& m, const vector<Par>& ps, char source, bool pinned = false) {
    bool both = false;
    bool known = false; int prevEnd = 0; for (auto& p : ps) { int at = 0; string pBegin = m.last(), pEnd = pBegin; string pText; string pParts; size_t pStart = m.text.size();
        for (auto& s : p.sents) { string sBegin = m.last(), sEnd = sBegin, sParts; size_t start = m.text.size(); for (auto& g : s.segs) { const string& w = WORDS()[g.word]; at += g.gap; bool space = source != 'w' && known && at - prevEnd > 0; at += chars(w); if (source != 'w') { prevEnd = at; known = true; }
                string tag = source == 's' || g.type == "morph" ? "token" : g.type; if (space) m.append(" ", "B", F(), tag); F attrs; if (g.nps) attrs["nps"] = "true"; for (auto& a : g.attrs) if (a.value.size()) attrs[a.name] = a.value;
                int e = m.append(w, "T", attrs, tag); string from = m.es[e].from, to = m.es[e].to; set<int> kept; vector<int> rejected; int f = 0;
                for (auto& l : g.lexes) { string base = BASES()[l.base], ctag = CTAGS()[l.ctag]; int b = m.add(from, to, "word", base, F(), "lemma", m.name(e) + "+"); int c = m.add(from, to, ctag, base + "+" + ctag, F(), "lexeme", m.name(b) + "+"); for (int k : l.msds) { int d = m.add(from, to, ctag, w, MSDS()[k].f, "form", m.name(c) + "+"); if (l.alt && g.choice >= 0 && g.choice != f) rejected.push_back(d); else kept.insert(d); ++f; } }
                for (int d : rejected) if (kept.count(d) && !pinned) both = true; else { m.es[d].tags.insert("discarded"); m.es[d].parts.insert(""); }
                sParts += m.name(e) + "+"; sEnd = to; }
            sBegin = m.begin(sBegin, start); if (sEnd == sBegin) sEnd = m.newLoose(); int e = m.add(sBegin, sEnd, "s", m.text.substr(start), F(), "sentence", sParts); pParts += m.name(e) + "+"; pEnd = sEnd; }
        pBegin = m.begin(pBegin, pStart); if (pEnd == pBegin) pEnd = m.newLoose(); m.add(pBegin, pEnd, p.tag, pEnd[0] == '@' ? "" : m.text.substr(pStart), F(), "paragraph", pParts); }
    return both;
}
static string read(const string& doc, string& text) {
    AnnotationItemManager aim; Lattice l(aim); boost::program_options::variables_map vm; NKJPLatticeReader::Factory f; boost::scoped_ptr<LatticeReader<std::istream> > r(f.createLatticeReader(vm)); std::istringstream in(doc); vh::limit(10); r->readIntoLattice(in, l); vh::limit(0); text = l.getAllText();
    auto at = [&](Lattice::VertexDescriptor v) { return l.isLooseVertex(v) ? "@" + vh::num(l.getLooseVertexIndex(v)) : vh::num(l.getVertexRawCharIndex(v)); };
    auto name = [&](Lattice::EdgeDescriptor e) { string s = at(l.getEdgeSource(e)) + "-" + at(l.getEdgeTarget(e)) + " " + l.getAnnotationText(e) + "/" + l.getAnnotationCategory(e); F a; for (auto& v : aim.getValues(l.getEdgeAnnotationItem(e))) a[v.first] = v.second; for (auto& v : a) s += "[" + v.first + "=" + v.second + "]"; return s; };
    std::multiset<string> es; auto it = l.allEdgesSortedBySource(); while (it.hasNext()) { auto e = it.next(); auto tn = l.getLayerTagManager().getTagNames(l.getEdgeLayerTags(e)); T tags(tn.begin(), tn.end()); if (tags.count("symbol")) continue; string s = name(e) + " "; for (auto& t : tags) s += t + ","; set<string> ps; for (auto& p : l.getEdgePartitions(e)) { string q; Lattice::Partition::Iterator pi(l, p); while (pi.hasNext()) { auto x = pi.next(); auto xn = l.getLayerTagManager().getTagNames(l.getEdgeLayerTags(x)); q += (std::count(xn.begin(), xn.end(), "symbol") ? "'" + l.getAnnotationText(x) : name(x)) + "+"; } ps.insert(q); } for (auto& q : ps) s += " {" + q + "}"; es.insert(s); }
    string o; for (auto& s : es) o += s + "; "; return o;
}
static string str(Model& m) { std::multiset<string> es; for (size_t i = 0; i < m.es.size(); ++i) { string s = m.name(i) + " "; for (auto& t : m.es[i].tags) s += t + ","; for (auto& p : m.es[i].parts) s += " {" + p + "}"; es.insert(s); } string o; for (auto& s : es) o += s + "; "; return o; }
// parts of case names
static Lex lex(const string& s) { Lex l; l.base = s[0] - '0'; l.ctag = s[1] - '0'; l.alt = s[2] == 'v'; for (size_t i = 3; i < s.size(); ++i) l.msds.push_back(s[i] - '0'); return l; }
static const vector<vector<Attr> >& ATTRS() { static vector<vector<Attr> > a = {{}, {{"base", "za & c", 's'}}, {{"type", "orgName", 'y'}, {"certainty", "high", 'y'}}, {{"sense", "NKJP_WSI.xml#zostac.1", 'v'}}, {{"base", "", 's'}, {"ctag", "Noun", 'y'}, {"msd", "sg:gen", 'y'}}, {{"flag", "true", 'b'}, {"base", "ó", 's'}}}; return a; }
void vh_run(const string& id) {
    vector<string> q = vh::split(id, ':'); Model m, pinned; bool both = false; string doc, text;
    if (q[0] == "t") {      // texts: div|div of ab,ab
        string o; for (auto& d : vh::split(q[1], '|')) { string tag = d.size() && d[0] == 'D' ? "div1" : "div"; string body = d.size() && d[0] == 'D' ? d.substr(1) : d; o += "    <" + tag + " decls=\"#h\">\n     <!-- c -->\n"; string begin = m.last(), parts; size_t start = m.text.size(); for (auto& a : vh::split(body, ',')) { if (a.empty()) continue; string t; for (auto& w : vh::split(a.substr(1), '_')) if (w.size()) t += (t.empty() ? "" : " ") + WORDS()[atoi(w.c_str())]; string at = a[0] == 'h' ? "head" : a[0] == 'u' ? "u" : "ab"; o += "     <" + at + " n=\"1\">" + xml(t) + "</" + at + ">\n"; parts += m.name(m.append(t, at, F(), "paragraph")) + "+"; }
            o += "    </" + tag + ">\n"; begin = m.begin(begin, start); string end = m.last(), all = end[0] == '@' ? "" : m.text.substr(start); if (end == begin) end = m.newLoose(); m.add(begin, end, tag, all, F(), "div", parts); }
        doc = header(o);
    } else {    // source:paragraph|paragraph of sentence;sentence of segment,segment: word.gap.nps.type.attrs.choice.lex+lex
        char source = q[0][0]; vector<Par> ps; for (auto& x : vh::split(q[1], '|')) { Par p; p.tag = x.size() && x[0] == 'A' ? "ab" : x.size() && x[0] == 'U' ? "u" : "p"; string body = x.size() && (x[0] == 'A' || x[0] == 'U') ? x.substr(1) : x; if (body.size()) for (auto& y : vh::split(body, ';')) { Sent s; for (auto& z : vh::split(y, ',')) { if (z.empty()) continue; vector<string> f = vh::split(z, '.'); f.resize(7); Seg g; g.word = atoi(f[0].c_str()); g.gap = atoi(f[1].c_str()); g.nps = f[2] == "1"; g.type = f[3].empty() ? "morph" : f[3]; g.attrs = ATTRS()[atoi(f[4].c_str())]; g.choice = f[5].empty() ? -1 : atoi(f[5].c_str()); if (f[6].size()) for (auto& l : vh::split(f[6], '+')) g.lexes.push_back(lex(l)); s.segs.push_back(g); } p.sents.push_back(s); } ps.push_back(p); }
        doc = document(ps, source); both = expected(m, ps, source); if (both) expected(pinned, ps, source, true);
    }
    string got = read(doc, text), want = str(m); vh::expectEq(text, m.text, "text", "text read of " + doc); if (both && got == str(pinned)) vh::fail("chosen-form-also-rejected", "a form chosen by disamb is discarded: got [" + got + "] expected [" + want + "] of " + doc); else vh::expectEq(got, want, "edges", "edges read of " + doc); vh::outcome(got); vh::state(doc); vh::transitions(m.es.size()); vh::traces();
}
void vh_enumerate(vh::Emit& emit) {
    bool th = vh::thorough(); auto N = [](long long n) { return vh::num(n); }; int nw = WORDS().size();
    // texts
    vector<string> abs = {"a0", "a", "u1_0", "h2_3", "a8_5_6", "a7"}; vector<string> divs = {"", "D"}; for (auto& a : abs) { divs.push_back(a); for (auto& b : abs) { divs.push_back(a + "," + b); if (th) for (auto& c : abs) divs.push_back("D" + a + "," + b + "," + c); } }
    for (auto& d : divs) { emit("t:" + d); for (auto& e : divs) emit("t:" + d + "|" + e); }
    // words and gaps
    for (const char* src : {"s", "m", "e", "w"}) { string S = string(src) + ":"; string ty = *src == 'e' ? "sense" : *src == 'w' ? "words" : "";
        auto seg = [&](int w, int gap, int nps, int at = 0) { return N(w) + "." + N(gap) + "." + N(nps) + "." + ty + "." + N(at); };
        for (int w = 0; w < nw; ++w) for (int g = 0; g < 3; ++g) for (int n = 0; n < 2; ++n) for (int a = 0; a < 6; ++a) { if (*src == 's' && a) continue; if (*src == 'e' && (n || a == 1 || a > 3)) continue; emit(S + seg(w, g, n, a)); for (int v = 0; v < nw; ++v) for (int h = 0; h < 3; ++h) { if (!th && (v + w + a) % 2) continue; emit(S + seg(w, g, n, a) + "," + seg(v, h, 0, !a ? 0 : *src == 'e' ? 2 + (a + v) % 2 : (a + v) % 6)); } }
        // structures: words of up to 5 segments with gaps, divided into sentences and paragraphs
        for (int n = 1; n <= (th ? 5 : 4); ++n) for (int gaps = 0; gaps < 1 << n; ++gaps) { int cuts = 1; for (int i = 1; i < n; ++i) cuts *= 3; for (int c = 0; c < cuts; ++c) { string s; int x = c; for (int i = 0; i < n; ++i) { if (i) { s += x % 3 == 0 ? "," : x % 3 == 1 ? ";" : "|"; x /= 3; } s += seg((i * 5 + gaps) % nw, gaps >> i & 1, 0); } emit(S + s); if (n < 4) { emit(S + "A" + s); emit(S + s + ";"); emit(S + ";" + s); emit(S + "|" + s); emit(S + s + "|U"); emit(S + s + ";;"); } } }
        emit(S); emit(S + "A"); emit(S + ";"); emit(S + "|"); emit(S + ";|;"); }
    // interpretations
    vector<string> ls = {"00s0", "00v01", "11s3", "00v012", "10v10", "20v05", "22s0", "30v3", "33v00", "00s6", "10s0", "01v4", "00v1"}; int nl = ls.size();
    auto forms = [](const string& s) { int n = 0; for (auto& l : vh::split(s, '+')) n += l.size() - 3; return n; };
    auto put = [&](const string& lx, const string& rest) { for (int c = -1; c <= forms(lx); ++c) emit("m:0.0.0.morph.0." + (c < 0 ? string() : N(c)) + "." + lx + rest); };
    for (int i = 0; i < nl; ++i) { put(ls[i], ""); put(ls[i], ",1.1.0.morph.0.0.00v01"); for (int j = 0; j < nl; ++j) { put(ls[i] + "+" + ls[j], ""); for (int k = 0; k < nl; ++k) { if (!th && (i + j * 2 + k) % 3) continue; put(ls[i] + "+" + ls[j] + "+" + ls[k], ";8.1.1.morph.0..22s0"); } } }
}
