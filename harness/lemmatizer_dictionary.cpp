// D03: the lemmatizer finds exactly the analyses its dictionary lists.
#include "vh.hpp"
#include "lamerlemma.hpp"
#include "utility_functions.hpp"
#include <fstream>
#include <boost/program_options.hpp>
#include <sys/stat.h>
#include <unistd.h>
using std::string; using std::vector; using std::map; using std::set; using std::pair;
// lemmas are stored as differences from forms ---------------------------------------------------------------------------
static string pad(int n) { string r; while ((int)r.size() < n) r += "qwertyuiop"[r.size() % 10]; return r; }
static void codec(const string& form, const string& lemma) {
    string c = KLEndEncode(form, lemma); vh::expectEq(KLEndDecode(form, c), lemma, "code", "lemma of a form of " + vh::num(form.size()) + " bytes"); vh::outcome(c.substr(0, 9)); vh::transitions(); vh::traces();
}
// the dictionary --------------------------------------------------------------------------------------------------------
struct Entry { const char* text; const char *form, *lemma, *pos; vector<pair<string, string>> posf; const char* morpho; };   // pos: null - not given
typedef vector<pair<string, string>> F;
static const vector<Entry>& LINES() {
    static vector<Entry> l = {
        {"psa\tpies", "psa", "pies", 0, F(), 0}, {"psa\tpies\tsubst,gender=m", "psa", "pies", "subst", F{{"gender", "m"}}, 0},
        {"psa\tpies\tsubst,gender=m\tcase=gen,number=sg", "psa", "pies", "subst", F{{"gender", "m"}}, "case=gen,number=sg"}, {"psa\tpies\tsubst,gender=m\tcase=acc,number=sg", "psa", "pies", "subst", F{{"gender", "m"}}, "case=acc,number=sg"},
        {"psa\tpsa\tsubst,gender=f\tcase=nom", "psa", "psa", "subst", F{{"gender", "f"}}, "case=nom"}, {"psa\tPSA\tbrev\tpun", "psa", "PSA", "brev", F(), "pun"},
        {"psa\tpies\tverb\t", "psa", "pies", "verb", F(), ""}, {"ps\tps\tqub", "ps", "ps", "qub", F(), 0}, {"psami\tpies\tsubst,gender=m\tcase=inst", "psami", "pies", "subst", F{{"gender", "m"}}, "case=inst"},
        {"zamku\tzamek:1\tsubst", "zamku", "zamek:1", "subst", F(), 0}, {"zamku\tzamek:2\tsubst\tcase=loc", "zamku", "zamek:2", "subst", F(), "case=loc"}, {"zamku\tzamek:2\tburk\tx,y=1", "zamku", "zamek:2", "burk", F(), "x,y=1"},
        {"\xc5\xbc\xc3\xb3\xc5\x82\xc4\x87\t\xc5\xbc\xc3\xb3\xc5\x82ty\tadj,degree=pos,x\tn=\xc5\x82", "\xc5\xbc\xc3\xb3\xc5\x82\xc4\x87", "\xc5\xbc\xc3\xb3\xc5\x82ty", 0, F(), 0},   // its tag is given in the model below
        {"najlepszy dobry adj", "najlepszy", "dobry", "adj", F(), 0}, {"", 0, 0, 0, F(), 0}, {"lepiej\tdobrze\tadv\tdegree=com,v=a=b", "lepiej", "dobrze", "adv", F(), "degree=com,v=a=b"},
        {"do\tod\tprep", "do", "od", "prep", F(), 0}, {"a\tb\tc", "a", "b", "c", F(), 0}
    };
    l[12].pos = "x"; l[12].posf = F{{"degree", "pos"}}; l[12].morpho = "n=\xc5\x82";
    return l;
}
static const char* TOKENS[] = {"psa", "ps", "psami", "zamku", "\xc5\xbc\xc3\xb3\xc5\x82\xc4\x87", "najlepszy", "lepiej", "do", "a", "", "p", "psam", "pies", "Psa", "psa\tpies", "\xc5\xbc", "psa\t"};
static string feats(F f) { std::sort(f.begin(), f.end()); string r; for (auto& x : f) r += "[" + x.first + "=" + x.second + "]"; return r; }
static F morphoOf(const string& m) { F r; size_t i = 0; while (i <= m.size()) { size_t e = m.find(',', i); if (e == string::npos) e = m.size(); string x = m.substr(i, e - i); if (!x.empty()) { size_t q = x.find('='); if (q == string::npos) r.push_back({x, "1"}); else r.push_back({x.substr(0, q), x.substr(q + 1)}); } i = e + 1; } return r; }
struct Rec : public LemmatizerOutputIterator {
    AnnotationItemManager& m; vector<string> norms; set<string> got; string lemma, lexeme;
    Rec(AnnotationItemManager& m) : m(m) {}
    string show(const AnnotationItem& i) { F f; for (auto& v : m.getValues(i)) f.push_back({v.first, v.second}); return i.getCategory() + "/" + i.getText() + feats(f); }
    virtual void doAddCorrection(const string& c, Lattice::Score, int) { got.insert("correction " + c); }
    virtual void doAddNormalization(const string& n, Lattice::Score, int) { norms.push_back(n); }
    virtual void doAddLemma(const string& l, Lattice::Score, int) { lemma = l; lexeme = ""; got.insert(lemma); }
    virtual void doAddLexeme(const AnnotationItem& i, Lattice::Score, int) { lexeme = lemma + " > " + show(i); got.insert(lexeme); }
    virtual void doAddForm(const AnnotationItem& i, Lattice::Score, int) { got.insert(lexeme + " > " + show(i)); }
};
static string join(const set<string>& s) { string r; for (auto& x : s) r += (r.empty() ? "" : " ; ") + x; return r; }
struct Dir { string d; Dir() { char t[] = "/tmp/vhdictXXXXXX"; d = mkdtemp(t); } ~Dir() { unlink((d + "/t").c_str()); unlink((d + "/b").c_str()); rmdir(d.c_str()); } };
static boost::program_options::variables_map opts(const vector<string>& a) { boost::program_options::variables_map vm; boost::program_options::store(boost::program_options::command_line_parser(a).options(LamerLemma::optionsHandled()).run(), vm); boost::program_options::notify(vm); return vm; }
static void dictionary(const string& id, bool newline) {
    Dir dir; string text; vector<const Entry*> ls; for (size_t i = 0; i < id.size(); ++i) { const Entry& l = LINES()[id[i] - 'A']; text += l.text; if (i + 1 < id.size() || newline) text += "\n"; if (l.form) ls.push_back(&l); }
    { std::ofstream o(dir.d + "/t"); o << text; }
    for (int level = 0; level <= 3; ++level) for (int ids = 0; ids < 2; ++ids) for (int bin = 0; bin < 2; ++bin) {
        if (level != 3 && (bin || (ids && level != 1))) continue;
        vector<string> a = {"--lang", "pl", "--level", vh::num(level)}; if (ids) a.push_back("--lexeme-ids");
        if (bin) { a.push_back("--binary-lexicon"); a.push_back(dir.d + "/b"); } else { a.push_back("--plain-text-lexicon"); a.push_back(dir.d + "/t"); if (level == 3) { a.push_back("--save-binary-lexicon"); a.push_back(dir.d + "/b"); } }
        LamerLemma lem(opts(a)); vh::transitions();
        for (const char* t : TOKENS) {
            string tok = t; set<string> want;
            if (level) for (auto l : ls) if (tok == l->form) {
                string lm = l->lemma; if (!ids) lm = lm.substr(0, lm.find(':')); want.insert(lm); if (level < 2 || !l->pos) continue;
                string lx = lm + " > " + l->pos + "/" + lm + "+" + l->pos + feats(l->posf); want.insert(lx); if (level < 3) continue;
                want.insert(lx + " > " + l->pos + "/" + tok + feats(l->morpho ? morphoOf(l->morpho) : F()));
            }
            AnnotationItemManager aim; Rec r(aim); bool found = lem.lemmatize(tok, aim, r); string how = " of " + tok + " at level " + vh::num(level) + (ids ? " with lexeme ids" : "") + (bin ? " from the binary dictionary" : "");
            vh::expectEq(join(r.got), join(want), "analyses", "analyses" + how); vh::expectEq(found, !want.empty(), "found", "whether analyses are found" + how);
            vh::expect(r.norms.size() == !want.empty() && (r.norms.empty() || r.norms[0] == tok), "normalization", "normalizations" + how); if (level == 3 && !ids) vh::outcome(join(r.got));
        }
    }
    vh::state(id); vh::traces();
}
void vh_run(const string& id) {
    string a = id.substr(2);
    switch (id[0]) {
    case 'k': { size_t p = a.find('/'); codec(a.substr(0, p), a.substr(p + 1)); break; }
    case 'l': { int x, y, u, v; sscanf(a.c_str(), "%d,%d,%d,%d", &x, &y, &u, &v); string common = pad(y); codec(string(x, 'X') + common + string(u, 'Y'), common + string(v, 'Z')); break; }   // form: X.. common Y.., lemma: common Z..
    case 'd': dictionary(a, true); break; case 'n': dictionary(a, false); break;
    case 'e': { Dir dir; { std::ofstream o(dir.d + "/t"); o << "psa\tpies\n" << a << "\nps\tps\n"; } bool thrown = false; try { LamerLemma l(opts({"--lang", "pl", "--plain-text-lexicon", dir.d + "/t"})); } catch (PsiException&) { thrown = true; } vh::expect(thrown, "malformed", "a line without a lemma is taken"); vh::traces(); break; }
    }
}
void vh_enumerate(vh::Emit& emit) {
    bool th = vh::thorough(); vector<string> fs, ls; vh::strings({"a", "b", "\xc4\x85"}, th ? 6 : 5, [&](const string& s) { fs.push_back(s); }); vh::strings({"a", "b", "\xc4\x85"}, th ? 5 : 4, [&](const string& s) { ls.push_back(s); });
    for (auto& f : fs) for (auto& l : ls) emit("k:" + f + "/" + l);
    int ns[] = {0, 1, 2, 30, 61, 62, 63, 64, 65, 90, 126, 127, 128, 180}; for (int x : ns) for (int y : ns) for (int u : ns) for (int v : {0, 1, 70, 200}) if (x + y + u <= 188) emit("l:" + vh::num(x) + "," + vh::num(y) + "," + vh::num(u) + "," + vh::num(v));
    vector<string> al; for (size_t i = 0; i < LINES().size(); ++i) al.push_back(string(1, 'A' + i));
    emit("d:"); vh::strings(al, th ? 3 : 2, [&](const string& s) { if (s.empty()) return; emit("d:" + s); if (s.size() < 3) emit("n:" + s); });
    if (!th) vh::strings(al, 3, [&](const string& s) { if (s.size() == 3 && s[0] < s[1] && s[1] < s[2]) emit("d:" + s); });
    for (string e : {"psa", "psa\xc4\x85", "x"}) emit("e:" + e);
}
