// G02: the shallow parser applies its rules in order, from left to right, grouping and deleting exactly what they match.
#include "vh.hpp"
#include "annotation_item_manager.hpp"
#include "lattice.hpp"
#include "puddle.hpp"
#include "tagset_loader.hpp"
#include "rule_loader.hpp"
#include <fstream>
#include <algorithm>
using std::string; using std::vector; using std::set; using std::map; namespace pd = poleng::bonsai::puddle; typedef map<string, string> A;
struct Form { string pos, lemma; A attrs; }; struct Tok { string text; vector<Form> forms; };
static const Tok& TOK(char c) { static map<char, Tok> t = {
    {'S', {"s", {{"subst", "ss", {{"number", "sg"}}}}}}, {'A', {"a", {{"adj", "a", {{"number", "pl"}, {"gender", "f"}}}}}},
    {'B', {"bb", {{"subst", "b", {{"number", "sg"}, {"gender", "m"}}}, {"adj", "b", {{"number", "pl"}, {"gender", "m"}}}}}}, {'U', {"u", {}}},
    {'D', {"d", {{"subst", "d", {{"number", "sg"}}}, {"subst", "d", {{"number", "pl"}}}}}}, {'V', {"v+", {{"verb", "v", {}}}}}}; return t[c]; }
struct Ed { int from, to; char kind; string cat; A attrs; string lemma; vector<vector<int> > parts; bool discarded; };
struct Rule { string left, match, right, cat; char action; int head; bool repeat; string cond; };
static vector<string> specs(const string& s) { vector<string> r; for (char c : s) { if (strchr("?*+", c)) r.back() += c; else r.push_back(string(1, c)); } return r; }
static const map<char, string>& SPEC() { static map<char, string> m = {{'S', "[pos~\"subst\"]"}, {'A', "[pos~\"adj\"]"}, {'I', "[pos~\"ign\"]"}, {'V', "[pos~\"verb\"]"}, {'n', "[pos!~\"subst\"]"}, {'a', "[pos~~\"adj\"]"}, {'s', "[pos~~\"subst\"]"},
    {'N', "[type=NP]"}, {'X', "[type=XP]"}, {'o', "[orth~\"s\"]"}, {'b', "[base~\"b\"]"}, {'g', "[number~\"sg\"]"}, {'e', "[pos~\"subst|adj\"]"}, {'c', "[pos~\"subst\" && number~\"pl\"]"}, {'q', "[pos~\"adj\" && base~\"b\"]"}, {'O', "[orth!~\"s\"]"}, {'.', "[pos~\".*\"]"}, {'p', "[orth~\"v\\+\"]"}, {'h', "[orth~\"S\"/i]"}}; return m; }
struct Model { vector<Ed> es; int last;
    bool isBlank(int v) const { for (auto& e : es) if (e.kind == 'b' && e.from == v) return true; return false; }
    string pos(int e) const { const Ed& x = es[e]; if (x.kind == 'k') return "ign"; if (x.kind == 'f') return x.cat; return pos(x.parts[0][atoi(x.attrs.at("head").c_str())]); }
    string base(int e) const { const Ed& x = es[e]; if (x.kind == 'k') return x.cat; if (x.kind == 'f') return x.lemma; return base(x.parts[0][atoi(x.attrs.at("head").c_str())]); }
    vector<int> top(int v) const { vector<int> r; set<int> below; bool other = false; for (size_t i = 0; i < es.size(); ++i) if (es[i].from == v && !es[i].discarded && es[i].kind != 'b') { r.push_back(i); other |= es[i].kind != 'k'; for (auto& p : es[i].parts) for (int c : p) below.insert(c); }
        vector<int> o; for (int e : r) if (!below.count(e) && !(other && es[e].kind == 'k')) o.push_back(e); return o; }
    struct El { int from, to; bool group; string type, orth; vector<int> edges; };
    vector<El> elements(int from, const string& text) const { vector<El> r; int v = from; while (v < last) { vector<int> t = top(v); if (t.empty()) { ++v; continue; } const Ed& f = es[t[0]]; r.push_back(El{v, f.to, f.kind == 'p', f.cat, text.substr(v, f.to - v), t}); v = f.to; } return r; }
    bool matches(char c, const El& e) const { if (c == 'N' || c == 'X') return e.group && e.type == (c == 'N' ? "NP" : "XP"); if (e.group) return false; int n = 0, subst = 0, adj = 0, ign = 0, verb = 0, sg = 0, b = 0, spl = 0, ab = 0; for (int i : e.edges) { string p = pos(i); auto num = es[i].attrs.find("number"); string nb = num == es[i].attrs.end() ? "" : num->second; ++n; subst += p == "subst"; adj += p == "adj"; ign += p == "ign"; verb += p == "verb"; sg += nb == "sg"; b += base(i) == "b"; spl += p == "subst" && nb == "pl"; ab += p == "adj" && base(i) == "b"; }
        switch (c) { case 'S': return subst; case 'A': return adj; case 'I': return ign; case 'V': return verb; case 'n': return subst == 0; case 'a': return adj == n; case 's': return subst == n; case 'o': case 'h': return e.orth == "s"; case 'O': return e.orth != "s"; case 'b': return b; case 'g': return sg; case 'e': return subst + adj; case 'c': return spl; case 'q': return ab; case '.': return true; case 'p': return e.orth == "v+"; } abort(); }
    bool place(const vector<string>& sp, size_t k, const vector<El>& el, size_t at, vector<int>& sizes) const { if (k == sp.size()) return true; char m = sp[k].size() > 1 ? sp[k][1] : 0; int lo = m == '?' || m == '*' ? 0 : 1, hi = m == '*' || m == '+' ? 1000 : 1, n = 0; while (n < hi && at + n < el.size() && matches(sp[k][0], el[at + n])) ++n; for (; n >= lo; --n) { sizes.push_back(n); if (place(sp, k + 1, el, at + n, sizes)) return true; sizes.pop_back(); } return false; }
    void apply(const Rule& r, const string& text, bool& deep) { vector<string> sp = specs(r.left + r.match + r.right); int nl = specs(r.left).size(), nm = specs(r.match).size(), from = 0;
        for (int step = 0;; ++step) { if (step > 40) { deep = true; return; } vector<El> el = elements(from, text); size_t at = 0; vector<int> sizes; bool found = false; for (; at < el.size(); ++at) { sizes.clear(); if (place(sp, 0, el, at, sizes)) { found = true; break; } } if (!found) return;
            int b = at, m = 0; for (size_t i = 0; i < sizes.size(); ++i) { if ((int)i < nl) b += sizes[i]; else if ((int)i < nl + nm) m += sizes[i]; } int past = nl ? b : b + m, after = past < (int)el.size() ? el[past].from : last, start = el[at].from; bool changed = true;
            if (r.action == 'g') { int h = 0; for (int i = nl; i < r.head - 1; ++i) h += sizes[i]; vector<vector<int> > seqs(1); for (int i = 0; i < m; ++i) { vector<vector<int> > n; for (int e : el[b + i].edges) for (auto s : seqs) { s.push_back(e); n.push_back(s); } seqs = n; }
                for (int he : el[b + h].edges) { A at2 = es[he].attrs; at2["head"] = vh::num(h); for (auto& s : seqs) if (s[h] == he) add(el[b].from, el[b + m - 1].to, r.cat, at2, s); } }
            else { int k = at; for (int i = 0; i < r.head - 1; ++i) k += sizes[i]; for (int i = 0; i < sizes[r.head - 1]; ++i) for (int e : el[k + i].edges) { string p = pos(e), bs = base(e); auto num = es[e].attrs.find("number"); string nb = num == es[e].attrs.end() ? "" : num->second; char c = r.cond[0]; bool hit = c == 'a' ? p == "adj" : c == 's' ? p == "subst" : c == 'A' ? p != "adj" : c == 'g' ? nb == "sg" : c == 'G' ? nb != "" && nb != "sg" : c == 'b' ? bs != "b" : c == 'B' ? bs == "b" : false; if (hit) es[e].discarded = true; } }
            from = r.repeat && changed ? start : after; } }
    void add(int from, int to, const string& cat, const A& attrs, const vector<int>& part) { for (auto& e : es) if (e.kind == 'p' && e.from == from && e.to == to && e.cat == cat && e.attrs == attrs) { e.parts.push_back(part); return; } es.push_back(Ed{from, to, 'p', cat, attrs, "", {part}, false}); }
    string name(int i) const { const Ed& e = es[i]; string s = vh::num(e.from) + "-" + vh::num(e.to) + (e.kind == 'k' ? "" : e.kind == 'f' ? "'" : "^") + e.cat; for (auto& a : e.attrs) s += "[" + a.first + "=" + a.second + "]"; return s; }
    string str() const { std::multiset<string> r; for (size_t i = 0; i < es.size(); ++i) { if (es[i].kind != 'p' && es[i].kind != 'f') continue; string s = name(i); if (es[i].discarded) s += "!"; set<string> ps; if (es[i].kind == 'p') for (auto& p : es[i].parts) { string q; for (int c : p) q += name(c) + " "; ps.insert("{" + q + "}"); } for (auto& p : ps) s += p; r.insert(s); } string o; for (auto& s : r) o += s + "; "; return o; } };
static Rule parse(const string& s) { vector<string> p = vh::split(s, '|'); Rule r; r.left = p[0]; r.match = p[1]; r.right = p[2]; r.action = p[3][0]; r.head = p[3][1] - '0'; r.repeat = p[3].size() > 2; if (r.action == 'g') r.cat = p[4]; else r.cond = p[4]; return r; }
static string source(const Rule& r, int i) { auto sec = [](const string& s) { string o; for (auto& x : specs(s)) o += (o.size() ? " " : "") + SPEC().at(x[0]) + x.substr(1); return o; }; static const map<char, string> cond = {{'a', "pos~\"adj\""}, {'s', "pos~\"subst\""}, {'A', "pos!~\"adj\""}, {'g', "number~\"sg\""}, {'G', "number!~\"sg\""}, {'b', "base~\"b\""}, {'B', "base!~\"b\""}};
    string o = "Rule \"r" + vh::num(i) + "\"\n"; if (r.left.size()) o += "Left: " + sec(r.left) + ";\n"; o += "Match: " + sec(r.match) + ";\n"; if (r.right.size()) o += "Right: " + sec(r.right) + ";\n"; o += "Eval: " + (r.action == 'g' ? "group(" + r.cat + ", " + vh::num(r.head) + ");" : "delete(" + cond.at(r.cond[0]) + ", " + vh::num(r.head) + ");") + (r.repeat ? " repeat;" : "") + "\n\n"; return o; }
void vh_run(const string& id) {
    vector<string> q = vh::split(id, ':'); string text; Model m; vector<Rule> rules; string src; for (auto& s : vh::split(q[1], ';')) { rules.push_back(parse(s)); src += source(rules.back(), rules.size()); }
    static string cached; static pd::RulesPtr ruleSet; static pd::TagsetPtr tagset; static pd::RuleLoader* loader = 0;
    if (!tagset) { std::ofstream("tagset.cfg") << "[POS]\n\nsubst = [number] [gender]\nadj = [number] [gender]\nverb =\ninterp =\nign =\n\n[ATTR]\nnumber = sg pl\ngender = m f\n"; pd::TagsetLoader tl; tagset = tl.load("tagset.cfg"); }
    if (cached != src) { cached = ""; std::ofstream("rules.txt") << src; delete loader; loader = new pd::RuleLoader; loader->setTagset(tagset); string f = "rules.txt"; ruleSet = loader->readFromFile(f); cached = src; }
    vh::expectEq(ruleSet->size(), rules.size(), "rules", "number of rules read");
    vector<std::pair<int, int> > at; string toks; bool glued = true; vector<int> blanks; for (char c : q[0]) { if (c == '-') { glued = true; continue; } if (!glued) { blanks.push_back(text.size()); text += " "; } glued = false; at.push_back({(int)text.size(), (int)(text.size() + TOK(c).text.size())}); text += TOK(c).text; toks += c; }
    AnnotationItemManager aim; Lattice l(aim, text); l.addSymbols(l.getFirstVertex(), l.getLastVertex()); auto& ltm = l.getLayerTagManager(); auto V = [&](int i) { return l.getVertexForRawCharIndex(i); }; auto tags = [&](const string& t) { return ltm.createSingletonTagCollectionWithLangCode(t, "fr"); };
    auto over = [&](int a, int b) { Lattice::EdgeSequence::Builder s(l); for (int x = a; x < b;) { auto e = l.firstOutEdge(V(x), l.getSymbolMask()); s.addEdge(e); x = l.getEdgeEndIndex(e); } return s.build(); }; auto one = [&](Lattice::EdgeDescriptor e) { Lattice::EdgeSequence::Builder s(l); s.addEdge(e); return s.build(); };
    m.last = text.size(); for (int b : blanks) { l.addEdge(V(b), V(b + 1), AnnotationItem("B", StringFrag(" ")), tags("token"), over(b, b + 1)); m.es.push_back(Ed{b, b + 1, 'b', " ", A(), "", {}, false}); }
    for (size_t i = 0; i < toks.size(); ++i) { const Tok& t = TOK(toks[i]); int a = at[i].first, b = at[i].second; auto e = l.addEdge(V(a), V(b), AnnotationItem("T", StringFrag(t.text)), tags("token"), over(a, b)); m.es.push_back(Ed{a, b, 'k', t.text, A(), "", {}, false});
        for (auto& f : t.forms) { auto le = l.addEdge(V(a), V(b), AnnotationItem("word", StringFrag(f.lemma)), tags("lemma"), one(e)); auto xe = l.addEdge(V(a), V(b), AnnotationItem(f.pos, StringFrag(f.lemma + "+" + f.pos)), tags("lexeme"), one(le)); AnnotationItem ai(f.pos, StringFrag(t.text)); for (auto& v : f.attrs) aim.setValue(ai, v.first, v.second); l.addEdge(V(a), V(b), ai, tags("form"), one(xe)); m.es.push_back(Ed{a, b, 'f', f.pos, f.attrs, f.lemma, {}, false}); } }
    bool deep = false; for (auto& r : rules) m.apply(r, text, deep); if (deep) { vh::expect(false, "harness", "the model does not end"); return; }
    vh::limit(10); { pd::Puddle p(tagset, ruleSet, "fr"); p.parse(l); } vh::limit(0);
    auto name = [&](Lattice::EdgeDescriptor e) { auto tn = ltm.getTagNames(l.getEdgeLayerTags(e)); set<string> t(tn.begin(), tn.end()); string s = vh::num(l.getEdgeBeginIndex(e)) + "-" + vh::num(l.getEdgeEndIndex(e)) + (t.count("form") ? "'" : t.count("parse") ? "^" : "") + (t.count("token") ? l.getAnnotationText(e) : l.getAnnotationCategory(e)); A a; for (auto& v : aim.getValues(l.getEdgeAnnotationItem(e))) a[v.first] = v.second; for (auto& v : a) s += "[" + v.first + "=" + v.second + "]"; return s; };
    std::multiset<string> r; auto it = l.allEdgesSortedBySource(); while (it.hasNext()) { auto e = it.next(); auto tn = ltm.getTagNames(l.getEdgeLayerTags(e)); set<string> t(tn.begin(), tn.end()); if (!t.count("form") && !t.count("parse")) continue; string s = name(e); if (t.count("discarded")) s += "!"; if (t.count("parse")) { set<string> ps; for (auto& p : l.getEdgePartitions(e)) { string qq; Lattice::Partition::Iterator pi(l, p); while (pi.hasNext()) qq += name(pi.next()) + " "; ps.insert("{" + qq + "}"); } for (auto& p : ps) s += p; t.erase("discarded"); vh::expect(t == set<string>{"parse", "puddle", "!fr"}, "tags", "tags of a phrase"); } r.insert(s); }
    string got; for (auto& s : r) got += s + "; "; vh::expectEq(got, m.str(), string(1, rules.back().action) + (rules.back().left.size() ? "-left" : "") + (rules.back().repeat ? "-repeat" : ""), "phrases and forms of \"" + text + "\" after:\n" + src);
    vh::state(got); vh::outcome(got); vh::transitions(m.es.size()); vh::traces();
}
void vh_enumerate(vh::Emit& emit) {
    bool th = vh::thorough(); vector<string> sents; string al = "SABUDV"; for (char a : al) { sents.push_back(string(1, a)); for (char b : al) { sents.push_back(string(1, a) + b); if (th) for (char c : al) sents.push_back(string(1, a) + b + c); } }
    vector<string> some = {"SA", "S-A", "ASB", "BAS", "SBA", "UBA", "AUS", "ABB", "SAAS", "SSAA", "BBBB", "ASUA", "A-SBA", "DAVS", "SABSA", "AASSA", "USADB"}; for (auto& s : some) sents.push_back(s);
    vector<string> m1; for (char c : string("SAIVnasobgecqO.ph")) { m1.push_back(string(1, c)); m1.push_back(string(1, c) + "+"); }
    vector<string> m2; for (char a : string(th ? "SAne.bq" : "Sne.b")) for (char b : string(th ? "SAIag.c" : "SAg.c")) for (string p : {"", "?", "*", "+"}) for (string s : {"", "?", "*", "+"}) if (!((p == "?" || p == "*") && (s == "?" || s == "*"))) m2.push_back(string(1, a) + p + b + s);
    vector<string> m3 = {"SAS", "eA*S", "A?SA?", "SnS", "e+AS", "BA*S", "S.A", "n?.S+", "A*.A*"}; for (auto& s : m3) std::replace(s.begin(), s.end(), 'B', 'b');
    auto heads = [](const string& s) { auto sp = specs(s); vector<int> r; for (size_t h = 0; h < sp.size(); ++h) if (sp[h].size() == 1 || sp[h][1] == '+') r.push_back(h + 1); return r; };
    auto rule = [](const string& lr, const string& s, const string& act, int h, const string& arg) { size_t bar = lr.find('|'); string L = lr.substr(0, bar); return L + "|" + s + "|" + lr.substr(bar + 1) + "|" + act[0] + vh::num(h + specs(L).size()) + act.substr(1) + "|" + arg; };
    // one grouping rule
    for (auto& s : m1) for (string lr : {"|", "S|", "|A", "A|S", "nS?|", "|e*", "A+|", "S*e|A?"}) for (auto& x : sents) emit(x + ":" + rule(lr, s, "g", 1, "NP"));
    for (auto* ms : {&m2, &m3}) for (auto& s : *ms) for (int h : heads(s)) for (string lr : {"|", "S|", "|A+", "nS?|", "e|S*"}) for (auto& x : some) emit(x + ":" + rule(lr, s, "g", h, "NP"));
    // one deleting rule
    for (string s : {"S", "A", "n", "e+", "b", "SA", "SA?", "e.", ".S+", "A*e", "b.A"}) for (int h : heads(s)) for (char c : string("asAgGbB")) for (string lr : {"|", "S|", "|A", "e+|"}) for (auto& x : sents) emit(x + ":" + rule(lr, s, "d", h, string(1, c)));
    // two and three rules
    vector<string> first = {"|S||g1|NP", "|A+||g1|NP", "|SA||g1|NP", "S|A||g2|NP", "|b||g1|NP", "|e+||g1|NP", "|b||d1|a", "|.||d1|s", "|A*S||g2|NP"}, second = {"|N||g1|XP", "|N+||g1|XP", "|NS||g1|XP", "|eN||g2|XP", "N|S||g2|XP", "N|.|N|g2|XP", "S|N||g2|XP", "|S|N|g1|XP", "|N.*||g1|XP", "|.||d1|g", "|e|N|d1|a", "|s||g1|XP", "|NN||g2|XP"};
    for (auto& a : first) for (auto& b : second) for (auto& x : sents) { emit(x + ":" + a + ";" + b); if (th || x.size() > 2) for (string c : {"|X||g1|NP", "|N?X||g2|NP", "|XS||g1|NP"}) if (th || c[1] != 'X' || c[2] == 'S') emit(x + ":" + a + ";" + b + ";" + c); }
    // rules applied again to their own results
    for (auto& a : first) for (string b : {"|NS||g1r|NP", "|NA||g1r|NP", "|eN||g2r|NP", "|N.||g1r|NP", "|NN||g1r|NP", "|NS|A|g1r|NP", "|NA?S||g1r|NP"}) for (auto& x : sents) if (x.size() > 1) emit(x + ":" + a + ";" + b);
    for (string b : {"|S||g1r|NP", "|SA||g2r|NP", "|e+||g1r|NP", "|A|S|g1r|NP"}) for (auto& x : sents) emit(x + ":" + b);
}
