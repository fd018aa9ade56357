// M02: every fragment is marked with the language its letters or bigrams imply.
#include "vh.hpp"
#include "lattice_model.hpp"
#include "lang_guesser.hpp"
#include <boost/program_options.hpp>
#include <fstream>
#include <memory>
#include <cmath>
using namespace lm; namespace po = boost::program_options;
typedef vector<uint32_t> U;
static U decode(const string& s) { U r; for (size_t i = 0; i < s.size();) { unsigned char c = s[i]; int n = c < 128 ? 1 : c < 0xe0 ? 2 : c < 0xf0 ? 3 : 4; uint32_t u = n == 1 ? c : c & (0x7f >> n); for (int k = 1; k < n; ++k) u = u << 6 | (s[i + k] & 63); r.push_back(u); i += n; } return r; }
struct Lang { string name; vector<double> table; set<uint32_t> letters; };
static const vector<Lang>& LANGS() {
    static vector<Lang> r; if (r.size()) return r; const char* D[][2] = {{"de", "äöüßÄÖÜ"}, {"en", ""}, {"pl", "ąćęłńóśźżĄĆĘŁŃÓŚŹŻ"}, {"ru", "абвгдеёжзийклмнопрстуфхцчшщъыьэюяАБВГДЕЁЖЗИЙКЛМНОПРСТУФХЦЧШЩЪЫЬЭЮЯ"}};
    for (auto& d : D) { Lang l; l.name = d[0]; U u = decode(d[1]); l.letters.insert(u.begin(), u.end()); std::ifstream in((string(getenv("VERIF_REPO")) + "/tools/recognizers/langguesser/data/" + d[0] + "lang.i").c_str()); double x; while (in >> x) l.table.push_back(x); if (l.table.size() != 512) throw vh::InternalError("table of bigrams"); r.push_back(l); }
    return r;
}
static const vector<double>& frequencies(const string& text) { static vector<double> f; f.assign(512, 0); U u = decode(text); for (auto& c : u) if (c >= 'A' && c <= 'Z') c += 32; for (size_t i = 0; i + 1 < u.size(); ++i) f[(u[i] * 509ull + u[i + 1] * 259081ull) % 512] += 1; if (u.size() > 1) for (auto& x : f) x /= u.size() - 1; return f; }
// the languages which may be answered (more than one only when distances are all but equal)
static set<string> byBigrams(const string& text, const vector<const Lang*>& ls) {
    set<string> r; if (text.empty()) return r; const vector<double>& f = frequencies(text); vector<double> d; double best = 1e300; for (auto l : ls) { double x = 0; for (int i = 0; i < 512; ++i) x += (f[i] - l->table[i]) * (f[i] - l->table[i]); d.push_back(x); best = std::min(best, x); }
    for (size_t i = 0; i < ls.size(); ++i) if (d[i] - best < 1e-13) r.insert(ls[i]->name); return r;
}
static string byLetters(const string& text, const vector<const Lang*>& ls) {
    vector<U> words(1); for (uint32_t c : decode(text)) if (c == ' ') words.push_back(U()); else words.back().push_back(c);
    for (auto l : ls) { int n = 0; bool all = true; for (auto& w : words) { if (w.empty()) continue; ++n; bool has = false; for (uint32_t c : w) if (l->letters.count(c)) has = true; if (!has) all = false; } if (n && all) return l->name; } return "";
}
// options
struct Opt { bool force; vector<string> only; string dflt; };
static vector<Opt> OPTS() { vector<Opt> r; for (int f = 0; f < 2; ++f) for (auto d : {"", "none", "fr"}) for (auto& o : vector<vector<string> >{{}, {"pl"}, {"en"}, {"en", "pl"}, {"ru", "de", "pl"}, {"de", "en", "pl", "ru"}, {"pl", "de"}, {"en", "ru"}}) r.push_back(Opt{(bool)f, o, d}); return r; }
static set<string> guess(const string& text, const Opt& o) {    // "" = none
    if (o.force && o.only.size() == 1) return {o.only[0]};
    vector<const Lang*> ls; for (auto& l : LANGS()) if (o.only.empty()) ls.push_back(&l); for (auto& n : o.only) for (auto& l : LANGS()) if (l.name == n) ls.push_back(&l);
    set<string> r; if (text.size() >= 24) r = byBigrams(text, ls); else { string w = byLetters(text, ls); if (w.size()) r.insert(w); else if (o.force) { r = byBigrams(text, ls); if (r.empty()) r.insert(ls[0]->name); } }
    if (r.empty()) r.insert(o.dflt == "none" ? "" : o.dflt.empty() ? "xx" : o.dflt); return r;
}
static const vector<string>& PIECES() { static vector<string> p = {"ą", " ", "a", "ä", "б", "E", "€", "\n", "Ż", "ß", "ó", "Я", "ě", ".", "😀", "th", "der ", "się "}; return p; }
static const vector<string>& LONG() { static vector<string> p = {"the cat ", "kot się ", "und der ", "это кот", "Szczęście", "aaaaaaaaaaaaaaaaaaaaaaaa", "ąąąąąąąąąąąą", "1234567890", "żółć ", "€€€€", "It is ", "Buchstabe ", "буква ", "ma kota ", " ", "A"}; return p; }
static string text(const string& spec) { string t; for (auto& x : vh::split(spec, '.')) if (x.size()) t += x[0] == 'L' ? LONG()[atoi(x.c_str() + 1)] : PIECES()[atoi(x.c_str())]; return t; }
static LangGuesser& guesser(int k) {
    static bool in = !chdir((string(getenv("VERIF_REPO")) + "/formats").c_str()); if (!in) throw vh::InternalError("chdir"); static std::map<int, std::unique_ptr<LangGuesser> > cache; auto& g = cache[k];
    if (!g) { Opt o = OPTS()[k]; po::variables_map vm; vector<string> args; if (o.force) args.push_back("--force"); if (o.dflt.size()) { args.push_back("--default-language"); args.push_back(o.dflt); } if (o.only.size()) { args.push_back("--only-langs"); args.insert(args.end(), o.only.begin(), o.only.end()); } LangGuesser::Factory f; po::store(po::command_line_parser(args).options(f.optionsHandled()).run(), vm); po::notify(vm); Annotator* a = f.createAnnotator(vm); g.reset(dynamic_cast<LangGuesser*>(a)); if (!g) throw vh::InternalError("guesser"); }
    return *g;
}
void vh_run(const string& id) {
    vector<string> p = vh::split(id, ':');
    if (p[0] == "t") {      // t:text - with all options, directly; and by itself
        string t = text(p[1]); vector<Opt> os = OPTS(); set<string> all;
        for (size_t k = 0; k < os.size(); ++k) { set<string> want = guess(t, os[k]); string got = guesser(k).guessLanguage(t); if (got == "unknown") got = ""; string w; for (auto& x : want) w += x + "|"; vh::expect(want.count(got), "guess", "language guessed of \"" + vh::esc(t) + "\" with options " + vh::num(k) + (os[k].force ? " --force" : "") + " " + os[k].dflt + " of " + vh::num(os[k].only.size()) + " languages: got " + got + " expected " + w); all.insert(got); }
        LangGuesser plain; set<string> want = guess(t, Opt{false, {}, ""}); string got = plain.guessLanguage(t); vh::expect(want.count(got), "default", "language guessed of \"" + vh::esc(t) + "\" by a guesser without options: got " + got + " expected " + *want.begin());
        string o; for (auto& x : all) o += x + " "; vh::outcome(o); vh::state(t); vh::transitions(os.size() + 1); vh::traces(); return;
    }
    if (p[0] == "b") {      // b:text - the frequencies themselves
        string t = text(p[1]); BigramLanguageModel m(t); const vector<double>& f = frequencies(t); for (int i = 0; i < 512; ++i) vh::expect(fabs(m.frequencyTable()[i] - f[i]) < 1e-12, "frequencies", "frequency of the bigrams numbered " + vh::num(i) + " in \"" + vh::esc(t) + "\": got " + std::to_string(m.frequencyTable()[i]) + " expected " + std::to_string(f[i])); vh::state(t); vh::traces(); vh::transitions(512); vh::outcome(t); return;
    }
    if (p[0] == "e") { vector<string> args; for (auto& x : vh::split(p[1], '.')) args.push_back(x); args.insert(args.begin(), "--only-langs"); if (p[2] == "1") args.push_back("--force"); LangGuesser::Factory f; guesser(0); po::variables_map vm; po::store(po::command_line_parser(args).options(f.optionsHandled()).run(), vm); bool thrown = false; try { std::unique_ptr<Annotator> a(f.createAnnotator(vm)); } catch (const std::exception&) { thrown = true; } vh::expect(thrown, "unknown language", "a language that cannot be recognized is not refused"); vh::traces(); vh::transitions(); vh::state(id); return; }
    // l:options:fragment;fragment;… = text,from,to,kind
    int k = atoi(p[1].c_str()); Opt o = OPTS()[k]; vector<E> es; static const char* TAGS[] = {"frag", "frag,markup", "text", "frag,!de", "token"}; for (auto& x : vh::split(p[2], ';')) { if (x.empty()) continue; vector<string> q = vh::split(x, ','); es.push_back(E{atoi(q[1].c_str()), atoi(q[2].c_str()), text(q[0]), "FRAG", F(), TAGS[atoi(q[3].c_str())], {}}); }
    Lat l("abcd", es, (1u << es.size()) - 1); Model& m = l.m; vector<int> frags; for (size_t i = 0; i < m.es.size(); ++i) if (m.es[i].tags.count("frag")) frags.push_back(i);
    for (int e : frags) { set<string> g = guess(m.es[e].text, o); if (g.size() > 1) return; string lang = *g.begin(); if (lang.empty()) continue; Item it; it.text = m.es[e].text; it.cat = "TEXT"; T tags = {"!" + lang, "text", "lang-guesser"}; m.add(m.es[e].from, m.es[e].to, it, tags, vector<int>(1, e)); }
    vh::limit(10); guesser(k).annotate(l.l); vh::limit(0); string got = l.real(); vh::expectEq(got, l.expected(), "marked", "edges after guessing"); vh::outcome(got); vh::state(got); vh::transitions(frags.size()); vh::traces();
}
void vh_enumerate(vh::Emit& emit) {
    bool th = vh::thorough(); auto N = [](long long n) { return vh::num(n); }; int n = PIECES().size(), q = LONG().size();
    emit("t:"); emit("b:"); for (auto b : {"t", "b"}) { vector<string> cur(1); for (int d = 1; d <= (th ? 4 : 3); ++d) { vector<string> next; for (auto& c : cur) for (int i = 0; i < n; ++i) { string s = c + (c.empty() ? "" : ".") + N(i); next.push_back(s); emit(string(b) + ":" + s); } cur = next; } }
    for (int len = 1; len < 40; ++len) for (int i = 0; i < n; ++i) { string s; for (int k = 0; k < len; ++k) s += (k ? "." : "") + N(i); emit("t:" + s); emit("t:" + s + ".0"); emit("t:2." + s); if (len > 3) emit("t:" + s + ".1.2"); }
    for (auto b : {"t", "b"}) { vector<string> cur(1); for (int d = 1; d <= (th ? 4 : 3); ++d) { vector<string> next; for (auto& c : cur) for (int i = 0; i < q; ++i) { string s = c + (c.empty() ? "L" : ".L") + N(i); next.push_back(s); emit(string(b) + ":" + s); } cur = next; } }
    for (int i = 0; i < q; ++i) for (int j = 0; j < n; ++j) { emit("t:L" + N(i) + "." + N(j)); emit("t:" + N(j) + ".L" + N(i)); }
    for (auto e : {"xx", "pl.xx", "xx.pl", "en.fr.pl", "unknown", "PL", "none.de"}) { emit(string("e:") + e + ":0"); if (strchr(e, '.')) emit(string("e:") + e + ":1"); }
    vector<string> fr = {"0,0,1,0", "2,1,2,0", "L0.L0.L0,2,3,0", "L1.L1.L1,0,4,0", "4,0,2,1", "0,1,3,2", "3,3,4,3", "L3.L12,1,4,4", "6,2,4,0", "0,0,1,3"};
    for (unsigned b = 1; b < 1u << fr.size(); ++b) { if (__builtin_popcount(b) > (th ? 6 : 3)) continue; string s; for (size_t i = 0; i < fr.size(); ++i) if (b >> i & 1) s += fr[i] + ";"; for (size_t k = 0; k < OPTS().size(); ++k) { if (!th && (b + k) % 4) continue; emit("l:" + N(k) + ":" + s); } }
}
