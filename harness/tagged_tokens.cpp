// M03: the maximum entropy tagger leaves every token with exactly the interpretations of the best tag, asking and teaching its model in the right contexts.
#include "vh.hpp"
#include "annotation_item_manager.hpp"
#include "lattice.hpp"
#include "me_tagger.hpp"
#include <memory>
using std::string; using std::vector; using std::set; using std::map; typedef vector<std::pair<string, string> > A; typedef set<string> T;
// the model: a prepared one
static vector<string> events, asked; static int mm, mk, ml, mz, mp, trained; static map<string, double>* memo = 0;
static int h(const string& s) { unsigned x = 2166136261u; for (unsigned char c : s) x = (x ^ c) * 16777619u; return x % 1009; }
static string feature(const vector<string>& c, const string& name) { for (auto& f : c) if (f.compare(0, name.size(), name) == 0) return f.substr(name.size()); return ""; }
static string join(vector<string> c) { string o; for (auto& f : c) o += f + "|"; return o; }
static double score(const string& word, const string& prev, const string& tag) { if (mz >= 0 && (h(tag) + mz) % 3 == 0) return 0; return ((h(tag) * mm + h(prev) * mk + h(word) * ml) % 1009 + 1) / 1010.0; }
static const vector<string>& PREDICTED() { static vector<string> p = {"subst,case=nom", "adj", "subst,case=gen,number=sg", "interp", "conj,x=y,z=t", "verb,number=sg,person=ter"}; return p; }
static string predicted(const string& word, const string& prev) { return PREDICTED()[(h(word) + h(prev) + mp) % PREDICTED().size()]; }
namespace maxent {
int verbose = 0;
MaxentModel::MaxentModel() {} void MaxentModel::load(const string&) {} void MaxentModel::save(const string&, bool) const {}
double MaxentModel::eval(const vector<string>& c, const outcome_type& o) const { asked.push_back(join(c) + "=>" + o); return score(feature(c, "curr_word="), feature(c, "prevtag="), o); }
MaxentModel::outcome_type MaxentModel::predict(const vector<string>& c) const { asked.push_back(join(c) + "=>?"); return predicted(feature(c, "curr_word="), feature(c, "prevtag=")); }
void MaxentModel::begin_add_event() { events.push_back("begin"); } void MaxentModel::end_add_event(size_t) { events.push_back("end"); }
void MaxentModel::add_event(const vector<string>& c, const outcome_type& o, size_t) { events.push_back(join(c) + "=>" + o); }
void MaxentModel::train(size_t n, const string&, double, double) { trained = n; }
}
struct Form { A attrs; bool discarded; }; struct Lex { string lemma, pos; A attrs; vector<Form> forms; };
struct Tok { string text, cat, lang; vector<string> flags; vector<Lex> lexes; };
static const vector<Tok>& TOKS() { static vector<Tok> t = {
    {"Ala", "T", "pl", {"UpperCaseFirst", "ContainsLetter"}, {{"Al", "subst", {{"gender", "m1"}}, {{{{"gender", "m1"}, {"case", "acc"}}, false}, {{{"gender", "m1"}, {"case", "gen"}}, false}}}, {"Ala", "subst", {{"gender", "f"}}, {{{{"gender", "f"}, {"case", "nom"}}, false}}}}},
    {"ma", "T", "pl", {"ContainsLetter"}, {{"mieć", "verb", {}, {{{{"number", "sg"}, {"person", "ter"}}, false}}}, {"mój", "adj", {}, {{{{"gender", "f"}}, false}, {{}, false}}}}},
    {"x", "T", "pl", {"ContainsLetter"}, {}},
    {".", "I", "pl", {"ContainsNoLetterAndNoNumber"}, {{".", "interp", {}, {{{}, false}}}}},
    {",", "I", "pl", {"ContainsNoLetterAndNoNumber"}, {}},
    {"10", "T", "pl", {"ContainsNumber"}, {{"10", "ign", {}, {{{}, false}}}}},
    {"kot", "T", "pl", {"ContainsLetter"}, {{"kot", "ign", {}, {{{}, false}}}}},
    {"C++", "T", "pl", {"UpperCaseFirst", "ContainsLetter"}, {{"C++", "subst", {}, {{{{"case", "nom"}}, false}, {{{"case", "gen"}}, false}}}}},
    {"mam", "T", "pl", {"ContainsLetter"}, {{"mama", "subst", {}, {{{{"case", "voc"}}, true}, {{{"case", "gen"}, {"number", "sg"}}, false}}}}},
    {"pan", "T", "pl", {"ContainsLetter"}, {{"pan", "subst", {}, {{{{"case", "voc"}}, true}}}}},
    {"dom", "T", "pl", {"ContainsLetter"}, {{"dom", "subst", {}, {{{{"orth", "dom"}, {"case", "nom"}}, false}, {{{"case", "gen"}, {"head", "1"}}, false}}}}},
    {"kod", "T", "pl", {"ContainsLetter"}, {{"kod", "subst", {}, {{{{"case", "nom"}}, false}, {{{"case", "nom"}, {"number", "sg"}}, false}}}}},
    {"nic", "T", "pl", {"ContainsLetter"}, {{"nic", "subst", {{"gender", "n"}}, {{{{"case", "gen"}}, false}}}, {"nic", "adj", {}, {}}}},
    {"Warszawa", "T", "pl", {"UpperCaseFirst", "ContainsLetter"}, {{"Warszawa", "subst", {{"case", "nom"}}, {{{{"case", "nom"}, {"gender", "f"}}, false}}}}},
    {"żółć", "T", "pl", {"ContainsLetter"}, {{"żółć", "subst", {}, {{{{"case", "nom"}}, false}}}}},
    {"the", "T", "en", {"ContainsLetter"}, {{"the", "adj", {}, {{{}, false}}}}},
    {"UŁ", "T", "pl", {"UpperCaseFirst", "UpperCaseAll", "ContainsLetter"}, {{"UŁ", "brev", {}, {{{{"case", "nom"}}, false}}}}},
    {"1,5%", "T", "pl", {"ContainsNumber", "IsNumber", "ContainsPunctAndNumber"}, {{"1,5%", "ign", {}, {{{}, false}}}}},
    {"A-1", "X", "pl", {"UpperCaseFirst", "ContainsNumber", "ContainsLetter", "ContainsPunctAndNumber"}, {{"A-1", "ign", {}, {{{}, false}}}}}};
    return t; }
struct Edge { int from, to; string cat, text; map<string, string> attrs; T tags; vector<string> parts; };
struct Model { vector<Edge> es;
    string name(int e) { Edge& x = es[e]; string s = vh::num(x.from) + "-" + vh::num(x.to) + " " + x.text + "/" + x.cat; for (auto& a : x.attrs) s += "[" + a.first + "=" + a.second + "]"; return s; }
    int add(int from, int to, const string& cat, const string& text, const A& attrs, const T& tags, int parent) { map<string, string> at(attrs.begin(), attrs.end()); int e = -1; for (size_t i = 0; i < es.size(); ++i) if (es[i].from == from && es[i].to == to && es[i].cat == cat && es[i].text == text && es[i].attrs == at) e = i; if (e < 0) { e = es.size(); es.push_back(Edge{from, to, cat, text, at, {}, {}}); } es[e].tags.insert(tags.begin(), tags.end()); es[e].parts.push_back(parent < 0 ? "" : name(parent)); return e; }
    string str() { std::multiset<string> r; for (size_t i = 0; i < es.size(); ++i) { string s = name(i) + " "; for (auto& t : es[i].tags) s += t + ","; T ps(es[i].parts.begin(), es[i].parts.end()); for (auto& p : ps) s += "{" + p + "}"; r.insert(s); } string o; for (auto& s : r) o += s + "; "; return o; } };
struct F2 { int edge, lex; string pos, lemma; A attrs; bool discarded; }; struct Placed { const Tok* t; int from, to, edge; vector<F2> forms; vector<int> lexes; };
static string tagOf(const F2& f) { string s = f.pos; for (auto& a : f.attrs) if (a.first != "head" && a.first != "orth") s += "," + a.first + "=" + a.second; return s; }
static vector<string> context(const vector<Placed>& ts, int i) { set<string> c; const string& w = ts[i].t->text; c.insert("curr_word=" + w); c.insert("curr_word_length=" + vh::num(w.size())); for (auto& f : ts[i].t->flags) c.insert(f);
    auto about = [&](int j, const string& p) { c.insert(p + "_word=" + ts[j].t->text); for (auto& f : ts[j].forms) if (!f.discarded) { c.insert(p + "_has_tag=" + tagOf(f)); c.insert(p + "_has_lemma=" + f.lemma); } };
    about(i, "curr"); about(i ? i - 1 : 0, "prev1"); about(i + 1 < (int)ts.size() ? i + 1 : i, "next1");
    if (w.size() > 6) { for (int n = 1; n < 4; ++n) c.insert("curr_prefix=" + w.substr(0, n)); for (int n = 1; n < 5; ++n) c.insert("curr_suffix=" + w.substr(w.size() - n)); }
    return vector<string>(c.begin(), c.end()); }
static A attrsOf(const string& tag) { A a; vector<string> p = vh::split(tag, ','); for (size_t i = 1; i < p.size(); ++i) { size_t e = p[i].find('='); a.push_back({p[i].substr(0, e), p[i].substr(e + 1)}); } return a; }
static bool within(const A& small, const A& big, bool form) { for (auto& a : small) { if (form && (a.first == "head" || a.first == "orth")) continue; if (std::find(big.begin(), big.end(), a) == big.end()) return false; } return true; }
static bool plain(const A& a) { for (auto& x : a) if (x.first != "head" && x.first != "orth") return false; return true; }
static string dump(Lattice& l, AnnotationItemManager& aim) {
    auto name = [&](Lattice::EdgeDescriptor e) { string s = vh::num(l.getEdgeBeginIndex(e)) + "-" + vh::num(l.getEdgeEndIndex(e)) + " " + l.getAnnotationText(e) + "/" + l.getAnnotationCategory(e); map<string, string> a; for (auto& v : aim.getValues(l.getEdgeAnnotationItem(e))) a[v.first] = v.second; for (auto& v : a) s += "[" + v.first + "=" + v.second + "]"; return s; };
    std::multiset<string> r; auto it = l.allEdgesSortedBySource(); while (it.hasNext()) { auto e = it.next(); auto tn = l.getLayerTagManager().getTagNames(l.getEdgeLayerTags(e)); T tags(tn.begin(), tn.end()); if (tags.count("symbol")) continue; string s = name(e) + " "; for (auto& t : tags) s += t + ","; T ps; for (auto& p : l.getEdgePartitions(e)) { string q; Lattice::Partition::Iterator pi(l, p); while (pi.hasNext()) { auto x = pi.next(); auto xn = l.getLayerTagManager().getTagNames(l.getEdgeLayerTags(x)); if (!std::count(xn.begin(), xn.end(), "symbol")) q += name(x); } ps.insert(q); } for (auto& p : ps) s += "{" + p + "}"; r.insert(s); } string o; for (auto& s : r) o += s + "; "; return o; }
// t|r : tokens (letters; - no blank before) : segments (0 none, 1 whole, 2 each token but the last... ) : m,k,l,z,p : open classes
void vh_run(const string& id) {
    vector<string> q = vh::split(id, ':'); bool training = q[0] == "r"; vector<string> n = vh::split(q[3], ','); mm = atoi(n[0].c_str()); mk = atoi(n[1].c_str()); ml = atoi(n[2].c_str()); mz = atoi(n[3].c_str()); mp = atoi(n[4].c_str()); vector<string> open; if (q[4] == "1") open = {"subst", "adj"}; if (q[4] == "2") open = {"verb"};
    events.clear(); asked.clear(); trained = -1; string text; vector<Placed> ps; Model m; vector<std::pair<int, int> > blanks; bool glued = true;
    for (char c : q[1]) { if (c == '-') { glued = true; continue; } if (!glued) { blanks.push_back({text.size(), text.size() + 1}); text += " "; } glued = false; Placed p; p.t = &TOKS()[c - 'a']; p.from = text.size(); text += p.t->text; p.to = text.size(); ps.push_back(p); }
    AnnotationItemManager aim; Lattice l(aim, text); l.addSymbols(l.getFirstVertex(), l.getLastVertex()); auto& ltm = l.getLayerTagManager(); auto V = [&](int i) { return l.getVertexForRawCharIndex(i); };
    auto tags = [&](const string& t, const string& lang) { return ltm.createSingletonTagCollectionWithLangCode(t, lang); };
    auto over = [&](int a, int b) { Lattice::EdgeSequence::Builder s(l); int x = a; while (x < b) { auto e = l.firstOutEdge(V(x), l.getSymbolMask()); s.addEdge(e); x = l.getEdgeEndIndex(e); } return s.build(); };
    auto one = [&](Lattice::EdgeDescriptor e) { Lattice::EdgeSequence::Builder s(l); s.addEdge(e); return s.build(); };
    auto item = [&](const string& cat, const string& t, const A& attrs) { AnnotationItem ai(cat, StringFrag(t)); for (auto& a : attrs) aim.setValue(ai, a.first, a.second); return ai; };
    for (auto& b : blanks) { l.addEdge(V(b.first), V(b.second), item("B", " ", A()), tags("token", "pl"), over(b.first, b.second)); m.add(b.first, b.second, "B", " ", A(), {"!pl", "token"}, -1); }
    for (auto& p : ps) { const Tok& t = *p.t; string L = "!" + t.lang; auto e = l.addEdge(V(p.from), V(p.to), item(t.cat, t.text, A()), tags("token", t.lang), over(p.from, p.to)); p.edge = m.add(p.from, p.to, t.cat, t.text, A(), {L, "token"}, -1);
        for (auto& x : t.lexes) { auto le = l.addEdge(V(p.from), V(p.to), item("word", x.lemma, A()), tags("lemma", t.lang), one(e)); int ml = m.add(p.from, p.to, "word", x.lemma, A(), {L, "lemma"}, p.edge); auto xe = l.addEdge(V(p.from), V(p.to), item(x.pos, x.lemma + "+" + x.pos, x.attrs), tags("lexeme", t.lang), one(le)); int mx = m.add(p.from, p.to, x.pos, x.lemma + "+" + x.pos, x.attrs, {L, "lexeme"}, ml); p.lexes.push_back(mx);
            for (auto& f : x.forms) { auto fe = l.addEdge(V(p.from), V(p.to), item(x.pos, t.text, f.attrs), tags("form", t.lang), one(xe)); int mf = m.add(p.from, p.to, x.pos, t.text, f.attrs, {L, "form"}, mx); if (f.discarded) { l.discard(fe); m.es[mf].tags.insert("discarded"); m.es[mf].parts.push_back(""); } A order; for (auto& v : aim.getValues(l.getEdgeAnnotationItem(fe))) order.push_back({v.first, v.second}); p.forms.push_back(F2{mf, mx, x.pos, x.lemma, order, f.discarded}); } } }
    // segments: none; one; after each token given by the bits
    vector<std::pair<size_t, size_t> > segs; int sv = atoi(q[2].c_str()); if (sv) { size_t b = 0; for (size_t i = 0; i < ps.size(); ++i) if (i + 1 == ps.size() || (sv >> (i + 1) & 1)) { segs.push_back({b, i + 1}); b = i + 1; } for (auto& s : segs) { int a = ps[s.first].from, z = ps[s.second - 1].to; l.addEdge(V(a), V(z), item("sen", text.substr(a, z - a), A()), tags("segment", "pl"), over(a, z)); m.add(a, z, "sen", text.substr(a, z - a), A(), {"!pl", "segment"}, -1); } } else segs.push_back({0, ps.size()});
    string before = dump(l, aim); vh::expectEq(before, m.str(), "input", "lattice built");
    MeTagger tagger("pl", training, "model", 7, "ign", "card", "name", open, false); vh::limit(20);
    vector<string> wantEvents, wantAsked;
    if (training) { tagger.train(l); wantEvents.push_back("begin"); } else { tagger.loadModel("x"); tagger.tag(l); }
    vh::limit(0);
    for (auto& s : segs) { vector<Placed> ts; for (size_t i = s.first; i < s.second; ++i) if (ps[i].t->lang == "pl") ts.push_back(ps[i]); string prev; vector<string> best;
        for (size_t i = 0; i < ts.size(); ++i) { vector<string> c = context(ts, i);
            if (training) { string pt; if (i) for (auto& f : ts[i - 1].forms) if (!f.discarded) pt = tagOf(f); if (pt.size()) c.push_back("prevtag=" + pt); for (auto& f : ts[i].forms) if (!f.discarded) { wantEvents.push_back(join(c) + "=>" + tagOf(f)); break; } continue; }
            if (prev.size()) c.push_back("prevtag=" + prev); const string& w = ts[i].t->text; string b; double p = 0; set<string> tried; bool punct = w.find_first_of(".,;:?!<>%&'-\"/()[]+=_*$#@~|{}\\") != string::npos, digit = w.find_first_of("0123456789") != string::npos;
            for (auto& f : ts[i].forms) { if (f.discarded) continue; if (f.pos == "ign") { for (auto& o : punct || digit ? vector<string>{"card", "name"} : open) tried.insert(o); } else tried.insert(tagOf(f)); }
            for (auto& t : tried) { wantAsked.push_back(join(c) + "=>" + t); if (score(w, prev, t) > p) { b = t; p = score(w, prev, t); } } if (b.empty()) { b = predicted(w, prev); wantAsked.push_back(join(c) + "=>?"); } best.push_back(b); prev = b; }
        if (training) continue;
        for (size_t i = 0; i < ts.size(); ++i) { Placed& t = ts[i]; bool any = false; A at = attrsOf(best[i]); string pos = vh::split(best[i], ',')[0]; for (auto& f : t.forms) { if (f.discarded) continue; bool ok = f.pos == pos && (f.attrs.empty() || (plain(f.attrs)) ? at.empty() : within(f.attrs, at, true)); if (ok) any = true; else { m.es[f.edge].tags.insert("discarded"); m.es[f.edge].parts.push_back(""); } }
            if (any || t.t->cat != "T") continue; int lex = -1; for (int x : t.lexes) { A xa(m.es[x].attrs.begin(), m.es[x].attrs.end()); if (lex < 0 && m.es[x].cat == pos && within(xa, at, false)) lex = x; }
            if (lex < 0) { int lemma = -1; for (size_t x = 0; x < m.es.size(); ++x) if (m.es[x].from == t.from && m.es[x].tags.count("lemma") && m.es[x].text == t.t->text) lemma = x; if (lemma < 0) lemma = m.add(t.from, t.to, "word", t.t->text, A(), {"lemma", "!pl"}, t.edge); lex = m.add(t.from, t.to, pos, t.t->text + "+" + pos, A(), {"lexeme", "!pl"}, lemma); }
            m.add(t.from, t.to, pos, t.t->text, at, {"form", "!pl"}, lex); } }
    string got = dump(l, aim); vh::expectEq(got, m.str(), training ? "changed" : "edges", "edges after tagging of " + before);
    if (training) { wantEvents.push_back("end"); vh::expectEq(join(events), join(wantEvents), "events", "events the model was taught"); vh::expectEq(trained, 7, "iterations", "iterations of training"); vh::outcome(join(events)); }
    else { T a(asked.begin(), asked.end()), b(wantAsked.begin(), wantAsked.end()); vh::expectEq(join(vector<string>(a.begin(), a.end())), join(vector<string>(b.begin(), b.end())), "asked", "what the model was asked"); vh::outcome(got); }
    vh::state(before); vh::transitions(m.es.size() + asked.size()); vh::traces();
}
void vh_enumerate(vh::Emit& emit) {
    bool th = vh::thorough(); int nt = TOKS().size(); auto tok = [](int i) { return string(1, 'a' + i); }; auto ok = [&](const string& s) { for (char c : s) { if (c == '-') continue; int n = 0; for (auto& x : TOKS()[c - 'a'].lexes) for (auto& f : x.forms) n += !f.discarded; if (n > 1) return false; } return true; };
    auto put = [&](const string& s, int len, int stride) { for (int sv = 0; sv < (len == 1 ? 2 : 1 << len); ++sv) { if (sv && !(sv & 1)) continue; if (ok(s) && (len < 3 || th || sv < 4)) emit("r:" + s + ":" + vh::num(sv) + ":1,1,1,-1,0:0"); int n = 0; for (int mul : {1, 7, 500, 1008}) for (int k : {0, 3}) for (int z = -1; z < 3; ++z) for (int o = 0; o < 3; ++o) { ++n; if ((n * 5 + sv + s[0] + s[s.size() - 1] * 3) % stride) continue; emit("t:" + s + ":" + vh::num(sv) + ":" + vh::num(mul) + "," + vh::num(k) + "," + vh::num(k * 2) + "," + vh::num(z) + "," + vh::num(n % 6) + ":" + vh::num(o)); } } };
    for (int i = 0; i < nt; ++i) { put(tok(i), 1, 1); for (int j = 0; j < nt; ++j) { put(tok(i) + tok(j), 2, th ? 1 : 7); put(tok(i) + "-" + tok(j), 2, th ? 5 : 23); for (int k = 0; k < nt; ++k) put(tok(i) + tok(j) + tok(k), 3, th ? 19 : 97); } }
}
