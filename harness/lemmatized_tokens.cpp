// M01: every token gets exactly the analyses its lemmatizer gives for it and for its variants in lower case; compound tags are expanded completely.
#include "vh.hpp"
#include "lattice_model.hpp"
#include "lemmatizer_annotator.hpp"
#include "morfologik_tags_parser.hpp"
#include <boost/program_options.hpp>
#include <memory>
using namespace lm; namespace po = boost::program_options;
// a lemmatizer giving a prepared sequence of analyses for every word: C correction, N normalization, L lemma, X lexeme, F form; a digit follows
static map<string, string> ANSWERS; static vector<string> ASKED; static string LANG; static std::list<string> LAYERS;
static Lattice::Score score(char k, int n) { return n * 10 + (k % 7); }
static int rule(char k, int n) { return n * 100 + (k % 11); }
static Item itemOf(char k, int n) {
    static const char* W[] = {"kot", "kotek", "Kot", "", "pies+1"}; string w = W[n % 5]; Item i; i.text = w;
    if (k == 'C' || k == 'L') i.cat = "word"; else if (k == 'N') i.cat = "term"; else if (k == 'X') { i.text += "+subst"; i.cat = "subst"; if (n & 1) i.attrs["gender"] = "m"; } else { i.cat = n & 1 ? "subst" : "verb"; i.attrs["case"] = n & 2 ? "nom" : "gen"; if (n == 4) i.attrs["number"] = "sg"; }
    return i;
}
class Fake {
public:
    Fake(const po::variables_map&) {}
    static po::options_description optionsHandled() { po::options_description d; d.add_options()("token-tag", po::value<string>(), "")("level", po::value<int>(), ""); return d; }
    static AnnotatorFactory::LanguagesHandling languagesHandling(const po::variables_map&) { return AnnotatorFactory::JUST_ONE_LANGUAGE; }
    static std::list<string> languagesHandled(const po::variables_map&) { return std::list<string>(1, LANG); }
    static string getName() { return "fake"; } static boost::filesystem::path getFile() { return __FILE__; } static std::list<string> getLayerTags() { return LAYERS; }
    static bool checkRequirements(const po::variables_map&, std::ostream&) { return true; } static double getQualityScore(const po::variables_map&) { return 0; } string getLanguage() const { return LANG; }
    bool lemmatize(const string& w, AnnotationItemManager& aim, LemmatizerOutputIterator& out) {
        ASKED.push_back(w); auto f = ANSWERS.find(w); if (f == ANSWERS.end()) return false; const string& s = f->second;
        for (size_t i = 0; i + 1 < s.size(); i += 2) { char k = s[i]; int n = s[i + 1] - '0'; Item t = itemOf(k, n); AnnotationItem a(t.cat, StringFrag(t.text)); for (auto& v : t.attrs) aim.setValue(a, v.first, v.second);
            if (k == 'C') out.addCorrection(t.text, score(k, n), rule(k, n)); else if (k == 'N') out.addNormalization(t.text, score(k, n), rule(k, n)); else if (k == 'L') out.addLemma(t.text, score(k, n), rule(k, n)); else if (k == 'X') out.addLexeme(a, score(k, n), rule(k, n)); else out.addForm(a, score(k, n), rule(k, n)); }
        return true;
    }
};
// words with their variants: tail in lower case, head in lower case ("" when there is none)
struct W { const char *w, *tail, *head, *lang; };
static const W WORDS[] = {
    {"kot", "", "", ""}, {"Kot", "", "kot", ""}, {"kOt", "kot", "", ""}, {"KOT", "Kot", "kOT", ""}, {"K", "", "k", ""}, {"Ąż", "", "ąż", ""}, {"żĄ", "żą", "", ""}, {"A1b-C", "A1b-c", "a1b-C", ""}, {"1", "", "", ""}, {"", "", "", ""}, {".", "", "", ""}, {"xI", "xi", "", "pl"},
    {"ΟΣΑ", "Οσα", "οΣΑ", ""}, {"Ilk", "", "ılk", "tr"}, {"Ilk", "", "ilk", "pl"}, {"İZ", "İz", "iZ", "tr"}, {"xIx", "xıx", "", "tr"}, {"kİ", "ki", "", "tr"}, {"ßAẞ", "ßaß", "", ""}, {"Ǆa", "", "ǆa", ""}, {"aǅ", "aǆ", "", ""}, {"日本", "", "", ""}, {"𐐀𐐀", "𐐀𐐨", "𐐨𐐀", ""}
};
static const int NW = sizeof WORDS / sizeof *WORDS;
static const char* TAGSETS[] = {"token,!pl", "token,!en", "token", "segment,!pl", "token,!pl,extra", "word,token,!pl", "token,!pl,!en", "token,!tr", "tok,!pl"};
static const char* CATS[] = {"T", "word", "B", "P", "t", "", "Tx"};
static void annotate(const string& id) {
    // id: a:lang:layers:tokentag:token;token;…:answers;…   token = word.from.to.tags.cat; answers = word.which(0 exact 1 tail 2 head).ops
    vector<string> p = vh::split(id, ':'); LANG = p[1]; LAYERS.clear(); for (auto& t : split(p[2])) LAYERS.push_back(t); T layers = split(p[2]); ANSWERS.clear(); ASKED.clear();
    vector<E> es; vector<int> words; for (auto& t : vh::split(p[4], ';')) { if (t.empty()) continue; vector<string> q = vh::split(t, '.'); int w = atoi(q[0].c_str()); words.push_back(w); es.push_back(E{atoi(q[1].c_str()), atoi(q[2].c_str()), WORDS[w].w, CATS[atoi(q[4].c_str())], F(), TAGSETS[atoi(q[3].c_str())], {}}); }
    for (auto& t : vh::split(p[5], ';')) { if (t.empty()) continue; vector<string> q = vh::split(t, '.'); const W& w = WORDS[atoi(q[0].c_str())]; int k = atoi(q[1].c_str()); const char* x = k == 0 ? w.w : k == 1 ? w.tail : w.head; if (k && !*x) continue; ANSWERS[x] = q[2]; }
    Lat l("abcd", es, (1u << es.size()) - 1); Model& m = l.m; string tokenTag = p[3].empty() ? "token" : p[3];
    typedef LemmatizerAnnotator<Fake> A; A::Factory factory; std::unique_ptr<Annotator> a; po::variables_map vm; { vector<string> args; if (p[3].size()) args = {"--token-tag", p[3]}; po::store(po::command_line_parser(args).options(factory.optionsHandled()).run(), vm); po::notify(vm); a.reset(factory.createAnnotator(vm)); }
    T provided; for (auto& t : factory.providedLayerTags()) provided.insert(t); T wantProvided = layers; wantProvided.insert("lemma"); wantProvided.insert("lexeme"); wantProvided.insert("form"); vh::expect(provided == wantProvided, "provided", "the tags provided are not those of the lemmatizer with lemma, lexeme and form");
    // left out: answers about a variant which begin in the middle, after answers about the word itself
    auto begins = [](const string& s) { return s.empty() ? 5 : s[0] == 'C' ? 4 : s[0] == 'N' ? 3 : s[0] == 'L' ? 2 : s[0] == 'X' ? 1 : 0; }; auto reaches = [](const string& s) { return s.find('C') != string::npos ? 4 : s.find('N') != string::npos ? 3 : s.find('L') != string::npos ? 2 : s.find('X') != string::npos ? 1 : 0; };
    for (int w : words) { int r = 0; for (const char* t : {WORDS[w].w, WORDS[w].tail, WORDS[w].head}) { if (!ANSWERS.count(t)) continue; if (r > begins(ANSWERS[t])) return; r = std::max(r, reaches(ANSWERS[t])); } }
    // model
    T mask = {tokenTag, "!" + LANG}; vector<string> asked; map<int, set<string> > details; vector<int> order = m.byTarget(mask); vector<W> ofEdge; map<int, W> variants;
    for (size_t i = 0; i < words.size(); ++i) if (!variants.count(l.pool[i])) variants[l.pool[i]] = WORDS[words[i]];
    for (int e : order) { ME x = m.es[e]; if (x.cat != "T" && x.cat != "word") continue; W w = variants[e]; vector<string> tries = {w.w}; if (*w.tail) tries.push_back(w.tail); if (*w.head) tries.push_back(w.head);
        int corr = e, norm = e, lemma = e, lex = e;
        for (auto& t : tries) { asked.push_back(t); auto f = ANSWERS.find(t); if (f == ANSWERS.end()) continue; const string& s = f->second;
            for (size_t i = 0; i + 1 < s.size(); i += 2) { char k = s[i]; int n = s[i + 1] - '0'; Item it = itemOf(k, n); T tags = layers; int parent = k == 'C' ? e : k == 'N' ? corr : k == 'L' ? norm : k == 'X' ? lemma : lex;
                if (k == 'C') { tags.insert("token"); tags.insert("corrected"); } else tags.insert(k == 'N' ? "normalization" : k == 'L' ? "lemma" : k == 'X' ? "lexeme" : "form");
                { ME& y = m.es[parent]; if (y.text == it.text && y.cat == it.cat && y.attrs == it.attrs) return; }     // left out: an edge may not be built of itself
                int d = m.add(x.from, x.to, it, tags, vector<int>(1, parent)); details[d].insert((d == parent ? string("") : l.name(parent)) + " score " + vh::num(score(k, n)) + " rule " + vh::num(rule(k, n)));
                if (k == 'C') corr = norm = lemma = lex = d; else if (k == 'N') norm = lemma = lex = d; else if (k == 'L') lemma = lex = d; else if (k == 'X') lex = d; } } }
    vh::limit(10); a->annotate(l.l); vh::limit(0);
    vh::expectEq(vh::num(ASKED.size()) + " ", vh::num(asked.size()) + " ", "asked", "number of words the lemmatizer was asked about");
    for (size_t i = 0; i < asked.size() && i < ASKED.size(); ++i) vh::expectEq(ASKED[i], asked[i], "asked", "word the lemmatizer was asked about");
    // compare, with the tag "token,corrected" taken as two
    auto join = [](const T& t) { T r; for (auto& x : t) for (auto& y : split(x)) r.insert(y); string s; for (auto& x : r) s += x + " "; return s; };
    std::multiset<string> got, want; auto it = l.l.allEdgesSortedBySource();
    while (it.hasNext()) { auto e = it.next(); string s = l.name(e) + " " + join(l.tags(e)) + "of"; set<string> ps; for (auto& q : l.l.getEdgePartitions(e)) { string u; Lattice::Partition::Iterator pi(l.l, q); while (pi.hasNext()) u += l.name(pi.next()); ps.insert(u + " score " + vh::num((long long)q.getScore()) + " rule " + vh::num(q.getRuleId())); } for (auto& u : ps) s += " {" + u + "}"; got.insert(s); }
    for (size_t i = 0; i < m.es.size(); ++i) { string s = l.name((int)i) + " " + join(m.es[i].tags) + "of"; set<string> ps = details[i]; if (i < es.size() && l.pool.size() > i) ps.insert(" score 0 rule -1"); bool pool = false; for (auto& q : l.pool) if (q.second == (int)i) pool = true; if (pool) ps.insert(" score 0 rule -1"); for (auto& u : ps) s += " {" + u + "}"; want.insert(s); }
    string g, w; for (auto& s : got) g += s + "; "; for (auto& s : want) w += s + "; "; vh::expectEq(g, w, "analyses", "edges after lemmatizing");
    vh::outcome(g); vh::state(g); vh::transitions(asked.size()); vh::traces();
}
// compound tags
static const map<string, string>& VALUES() { static map<string, string> v = {{"subst", "pos"}, {"adj", "pos"}, {"verb", "pos"}, {"pos", "degree"}, {"sg", "number"}, {"pl", "number"}, {"nom", "case"}, {"gen", "case"}, {"m1", "gender"}, {"f", "gender"}, {"n", "gender"}, {"sec", "person"}, {"ter", "person"}, {"perf", "aspect"}, {"imperf", "aspect"}, {"fin", "tense"}, {"refl", "tense"}, {"pact", "tense"}, {"ppas", "tense"}, {"impt", "mode"}, {"pot", "mode"}, {"depr", "depreciativity"}, {"comp", "degree"}, {"wok", "vocalicity"}, {"_", "unknown"}, {"aff", "negation"}}; return v; }
static const vector<string>& COMPONENTS() { static vector<string> v = {"subst", "verb", "adj", "pact", "depr", "impt.pot", "sg", "sg.pl", "nom.gen", "m1.f.n", "f", "ter", "imperf", "imperf.perf", "refl.nonrefl", "xx", "xx.yy", "pos", "fin", "subst.verb", "", "gen", "n.m1", "fin.refl", "ppas.pact"}; return v; }
typedef std::multiset<string> MS;
static string show(const F& f) { string s; for (auto& x : f) s += x.first + "=" + x.second + " "; return s; }
static void expandAll(const F& raw, MS& out) { vector<F> cur(1); for (auto& x : raw) { vector<F> next; for (auto& c : cur) for (auto& v : vh::split(x.second, '.')) { F n = c; n[x.first] = v; next.push_back(n); } cur = next; } for (auto& c : cur) out.insert(show(c)); }
static string str(const MS& m) { string s; for (auto& x : m) s += "{" + x + "} "; return s; }
static void tags(const string& id) {
    string tag = id.substr(2); F raw; for (auto& c : vh::split(tag, ':')) { auto f = VALUES().find(c.substr(0, c.find('.'))); if (f != VALUES().end()) raw.insert({f->second, c}); }
    MorfologikTagsParser parser; string t = tag; MS want, got; expandAll(raw, want); vh::limit(5); for (auto& m : parser.parse(t)) got.insert(show(m)); vh::expectEq(str(got), str(want), "descriptions", "descriptions of the tag " + tag); vh::expectEq(t, tag, "tag", "the tag given");
    F form = raw; form.erase("pos"); string pos = raw.count("pos") ? raw["pos"] : ""; if (pos == "subst") form.erase("gender"); if (pos == "verb") form.erase("aspect"); want.clear(); got.clear(); expandAll(form, want); for (auto& m : parser.getFormAttributes(t)) got.insert(show(m)); vh::expectEq(str(got), str(want), "forms", "descriptions of forms with the tag " + tag);
    F lex; string p; for (const char* a : {"pos", "depreciativity", "tense", "mode"}) if (p.empty() && raw.count(a)) p = raw[a]; if (p == "pact" || p == "ppas") p = "verb"; lex["pos"] = p; const char* own = p == "subst" ? "gender" : p == "verb" ? "aspect" : 0; if (own) { string v = raw.count(own) ? raw[own] : ""; for (auto& c : v) if (c == '.') c = '-'; lex[own] = v; }
    vh::expectEq(show(parser.getLexemeAttributes(t)), show(lex), "lexeme", "description of the lexeme with the tag " + tag); vh::limit(0);
    vh::outcome(str(got)); vh::state(tag); vh::traces(); vh::transitions(3);
}
void vh_run(const string& id) { if (id[0] == 'a') annotate(id); else tags(id); }
void vh_enumerate(vh::Emit& emit) {
    bool th = vh::thorough(); auto N = [](long long n) { return vh::num(n); };
    // sequences of analyses of one token
    static const char* OPS[] = {"N1", "N2", "L1", "L2", "X1", "X2", "F1", "F2", "C1", "C2"}; int no = th ? 10 : 9; vector<string> seqs(1); size_t from = 0;
    for (int d = 1; d <= (th ? 5 : 4); ++d) { size_t to = seqs.size(); for (size_t i = from; i < to; ++i) for (int o = 0; o < no; ++o) seqs.push_back(seqs[i] + OPS[o]); from = to; }
    for (auto& s : seqs) emit("a:pl:fake,fake-tagset::0.0.1.0.0:0.0." + s);
    // two tokens with the same answers or different
    vector<string> some = {"N1L1X1F1F2", "L1X1F1", "N3L3X2X1F1", "L1L2", "C1N1L1X1F4", "N1L1X1F1L2X2F2", "X1F3", "F1", "L4X4F4X3F3", "N1N2L1", "C1L1C2L1X1F1", ""};
    // every word, with answers for its variants
    for (const char* lang : {"pl", "en", "tr", "xx"}) for (int w = 0; w < NW; ++w) { if (*WORDS[w].lang && string(WORDS[w].lang) != lang) continue; if (string(lang) == "tr" && !*WORDS[w].lang && string(WORDS[w].w).find('I') != string::npos) continue; int ts = string(lang) == "pl" ? 0 : string(lang) == "en" ? 1 : string(lang) == "tr" ? 7 : 0;
        for (int mk = 0; mk < 8; ++mk) for (int v = 0; v < 3; ++v) { string ans; const char* A[] = {"N1L1X1F1", "N2L2X2F2F1", "N3L1X1F1"}; const char* B[] = {"L1", "L2X1", "L4X2F2"}; const char* C[] = {"C1N1L1", "C2L1X1F1", "C1N2L2"}; for (int k = 0; k < 3; ++k) if (mk >> k & 1) ans += N(w) + "." + N(k) + "." + (v == 0 ? A : v == 1 ? B : C)[k] + ";"; emit(string("a:") + lang + ":fake::" + N(w) + ".0.1." + N(ts) + ".0:" + ans); } }
    // which tokens
    for (const char* tt : {"", "token", "segment", "tok"}) for (const char* lang : {"pl", "en"}) for (const char* lay : {"fake,fake-tagset", "", "x,!de", "token", "lemma,form"}) for (int ts = 0; ts < 9; ++ts) for (int c = 0; c < 7; ++c) { if (string(lay) == "token" && string(tt) != "segment") continue; for (int s = 0; s < (th ? 12 : 4); ++s) emit(string("a:") + lang + ":" + lay + ":" + tt + ":0.0.1." + N(ts) + "." + N(c) + ";1.1.2.0.0;2.1.2." + N(ts) + ".1:0.0." + some[s] + ";1.0." + some[s] + ";2.1." + some[(s + 1) % 12]); }
    // lattices of several tokens
    vector<string> toks = {"0.0.1.0.0", "1.0.1.0.0", "0.0.2.0.0", "2.1.2.0.0", "3.1.3.0.1", "0.2.3.0.0", "1.2.3.1.0", "7.3.4.0.0", "3.0.4.4.0", "0.0.1.6.0"};
    for (unsigned b = 1; b < 1u << toks.size(); ++b) { int n = __builtin_popcount(b); if (n > (th ? 5 : 3)) continue; string t; for (size_t i = 0; i < toks.size(); ++i) if (b >> i & 1) t += toks[i] + ";"; for (size_t s = 0; s < some.size(); ++s) { if (!th && n == 3 && (s + b) % 2) continue; emit("a:pl:fake::" + t + ":0.0." + some[s] + ";1.2." + some[s] + ";1.0." + some[(s + 3) % some.size()] + ";2.0.N1L1;3.1.N2L2X1F1;7.1." + (s % 2 ? "N1L2X2" : "N1L1")); } }
    // tags
    auto& c = COMPONENTS(); int n = c.size(); for (int i = 0; i < n; ++i) emit("t:" + c[i]); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { emit("t:" + c[i] + ":" + c[j]); for (int k = 0; k < n; ++k) { emit("t:" + c[i] + ":" + c[j] + ":" + c[k]); if (th || i < 4) for (int q = 0; q < n; ++q) { if (!th && (i + j + k + q) % 3) continue; emit("t:" + c[i] + ":" + c[j] + ":" + c[k] + ":" + c[q]); } } }
    for (const char* t : {"verb:fin:sg:ter:imperf:refl.nonrefl", "verb:praet:sg:m1.m2.m3:ter:perf", "adj:sg.pl:nom.gen:m1.f.n:comp.pos", "subst:sg:nom.acc:m3", "adj:sg:nom.voc:m1.m2:pos:xx.yy:aff", "verb:impt:sg:sec:perf.imperf:refl"}) { string s = t; bool known = true; for (auto& q : vh::split(s, ':')) { string f = q.substr(0, q.find('.')); if (!VALUES().count(f) && f != "xx") known = false; } if (known) emit("t:" + s); }
}
