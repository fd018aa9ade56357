// P02: how a pipeline is completed with the processors it needs, on the real AutoCompleter, over all small worlds of processors.
//   c <langs> <user>|<user>... ; <candidate> <candidate> ...     every processor: req,prov,handling,quality,time,creatable
//   d edges : aliases, on the real Aliaser
#include "vh.hpp"
#include "auto_completer.hpp"
#include "annotator_promise.hpp"
#include "non_annotator_promise.hpp"
#include "fake_processors.hpp"
#include "aliaser.hpp"
#include "logging.hpp"
#include <boost/program_options/parsers.hpp>
#include <algorithm>
using std::string; using std::vector; using std::list; using std::set;
using namespace fake;
// the world --------------------------------------------------------------------------------------------------------------------------
static std::map<string, boost::shared_ptr<ProcessorFactory> > world;
MainFactoriesKeeper::MainFactoriesKeeper() {}
MainFactoriesKeeper& MainFactoriesKeeper::getInstance() { static MainFactoriesKeeper k; return k; }
bool MainFactoriesKeeper::hasProcessorFactory(string n) { return world.count(n); }
ProcessorFactory& MainFactoriesKeeper::getProcessorFactory(string n) { return *world.at(n); }
vector<string> MainFactoriesKeeper::getProcessorNames() { vector<string> v; for (auto& p : world) v.push_back(p.first); return v; }
static const vector<vector<string> > REQ = {{}, {"A"}, {"B"}, {"AB"}, {"A", "B"}, {"AB", "C"}, {"C"}, {"C", "A"}};
static const vector<string> PROV = {"", "A", "B", "AB", "C"};
struct D { int req, prov; Handling h; string lang; double q, t; bool c; };
static D decode(const string& s) { auto v = vh::split(s, ','); static const char* L[] = {"", "pl", "en"}; return D{atoi(v[0].c_str()), atoi(v[1].c_str()), (Handling)(v[2][0] - '0'), L[v[2].size() > 1 ? v[2][1] - '0' : 0], atof(v[3].c_str()), atof(v[4].c_str()), v[5] == "1"}; }
static list<string> tags(const string& s) { list<string> l; for (char c : s) l.push_back(string(1, c)); return l; }
static Kind kind(const string& n, const D& d) { Tags2 r; for (auto& x : REQ[d.req]) r.push_back(tags(x)); return Kind{n, {}, d.h, r, tags(PROV[d.prov]), d.q, d.t, d.c}; }
// reference --------------------------------------------------------------------------------------------------------------------------
struct P { const D* d; string name, lang; };
static bool dep(const P& p) { return p.d->h >= DEP_PL && p.d->h <= DEP_NONE && p.lang.empty(); }
static string one(const P& p) { return p.d->h == JUST_PL ? "pl" : p.d->h == JUST_EN ? "en" : p.lang; }
static set<string> langsOf(const D& d) { set<string> s; if (d.h == DEP_PL || d.h == DEP_BOTH) s.insert("pl"); if (d.h == DEP_EN || d.h == DEP_BOTH) s.insert("en"); return s; }
static bool sub(const string& a, const string& b) { for (char c : a) if (b.find(c) == string::npos) return false; return true; }
typedef vector<P> Alt;
struct Ref {
    vector<std::pair<string, D> > cand; vector<string> langs; bool tooDeep = false; long nodes = 0;
    vector<vector<P> > all;
    bool multilingual(const Alt& a) { string l; for (auto& p : a) { if (dep(p)) return true; string o = one(p); if (o.empty()) continue; if (l.empty()) l = o; else if (l != o) return true; } return false; }
    Alt fulfillers(const string& req, const string& lang) {
        Alt r;
        for (auto& c : cand) {
            bool circle = false; for (auto& q : REQ[c.second.req]) if (sub(req, q)) circle = true;
            if (circle || !sub(req, PROV[c.second.prov])) continue;
            P p{&c.second, c.first, ""};
            if (dep(p)) { if (lang.empty() || !langsOf(c.second).count(lang)) continue; p.lang = lang; }
            else if (!one(p).empty() && !lang.empty() && one(p) != lang) continue;
            r.push_back(p);
        }
        return r;
    }
    void solve(vector<P> done, vector<Alt> todo) {       // todo: next at the front
        if (done.size() + todo.size() > 24 || ++nodes > 20000) { tooDeep = true; return; }
        if (todo.empty()) { all.push_back(done); return; }
        Alt a = todo[0]; vector<Alt> rest(todo.begin() + 1, todo.end());
        if (multilingual(a)) {
            vector<Alt> t;
            for (auto& l : langs) {
                Alt f; for (auto p : a) { if (dep(p)) { if (!langsOf(*p.d).count(l)) continue; p.lang = l; } else if (!one(p).empty() && one(p) != l) continue; f.push_back(p); }
                if (f.empty()) return;
                t.push_back(f);
            }
            if (t.empty()) return;                       // no language to work in: nothing can be run
            t.insert(t.end(), rest.begin(), rest.end()); solve(done, t);
        } else if (a.size() > 1) {
            for (auto& p : a) { vector<Alt> t; t.push_back(Alt(1, p)); t.insert(t.end(), rest.begin(), rest.end()); solve(done, t); }
        } else {
            P p = a[0];
            for (auto& q : REQ[p.d->req]) {
                bool met = false; for (auto& d : done) if (sub(q, PROV[d.d->prov])) met = true;
                if (met) continue;
                Alt f = fulfillers(q, one(p)); if (f.empty()) return;
                vector<Alt> t; t.push_back(f); t.insert(t.end(), todo.begin(), todo.end()); solve(done, t); return;
            }
            done.push_back(p); solve(done, rest);
        }
    }
};
static string show(const vector<P>& s) { string r; for (auto& p : s) r += p.name + (one(p).empty() ? "" : ":" + one(p)) + " "; return r; }

static string H(Handling h, int lang = 0) { return string(1, (char)('0' + h)) + (lang ? string(1, (char)('0' + lang)) : ""); }
void vh_enumerate(vh::Emit& emit) {
    vector<string> users, cands, hs = {H(INDEP), H(DEP_BOTH), H(JUST_PL)}; bool T = vh::thorough();
    if (T) { hs.push_back(H(DEP_PL)); hs.push_back(H(JUST_EN)); }
    for (int r : {1, 2, 3, 4, 5}) for (auto& h : {H(INDEP), H(DEP_BOTH), H(JUST_PL), H(DEP_BOTH, 1), H(DEP_NONE)}) users.push_back(vh::num(r) + ",0," + h + ",0,1,1");
    int k = 0;
    for (int r : {0, 1, 2}) for (int p : {1, 2, 3}) for (auto& h : hs) if (r == 0 || !sub(REQ[r][0], PROV[p])) cands.push_back(vh::num(r) + "," + vh::num(p) + "," + h + "," + vh::num(++k % 3) + "," + vh::num(1 + k % 2) + ",1");
    for (auto& h : hs) cands.push_back(string("6,1,") + h + ",1,1,1"), cands.push_back(string("0,4,") + h + ",1,1,1");
    vector<string> langs = {"p", "ep", ""};
    // worlds of up to three candidates, whatever they require, provide and can handle
    for (auto& l : langs) for (auto& u : users) { emit("c " + l + " " + u + ";"); for (auto& a : cands) { emit("c " + l + " " + u + ";" + a); for (auto& b : cands) { emit("c " + l + " " + u + ";" + a + " " + b);
        if (l != "") for (auto& c : cands) if (T || (u[0] >= '3' && c < b)) emit("c " + l + " " + u + ";" + a + " " + b + " " + c); } } }
    // two processors named by the user, or one which may be either of two
    for (auto& l : langs) for (auto& u1 : cands) for (auto& u2 : users) for (auto& a : cands) { emit("c " + l + " " + u1 + "|" + u2 + ";" + a); emit("c " + l + " " + u2 + "/" + u1 + "|" + u2 + ";" + a);
        if (l == "ep") for (auto& b : cands) if (T || a < b) emit("c " + l + " " + u1 + "|" + u2 + ";" + a + " " + b); }
    // scores, and processors which cannot be created
    vector<string> sc; for (int q : {0, 1}) for (int t : {1, 2}) for (int c : {1, 0}) sc.push_back("," + vh::num(q) + "," + vh::num(t) + "," + vh::num(c));
    vector<vector<string> > st = {{"0,1,0", "0,1,0", "0,1,0", "0,1,0"}, {"0,1,0", "0,2,0", "0,3,0", "2,1,0"}, {"2,1,0", "0,2,0", "0,2,0", "0,1,0"}, {"6,3,0", "0,4,0", "0,4,0", "0,3,0"}, {"0,1,5", "0,1,1", "0,2,5", "0,1,0"}, {"2,1,5", "0,2,1", "0,2,5", "0,1,0"}};
    for (auto& s : st) for (string u : {"1,0,0,0,1,1", "4,0,0,0,1,1", "1,0,5,0,1,1", "1,0,0,0,1,0"}) vh::sequences(sc.size(), T ? 4 : 3, [&](const vector<int>& v) {
        string w; for (size_t i = 0; i < 4; ++i) w += (i ? " " : "") + s[i] + sc[i < v.size() ? v[i] : 0];
        emit(string("c ") + (u[4] == '5' ? "ep" : "p") + " " + u + ";" + w); });
    // three or four candidates for the same, in all kinds of languages
    vector<string> all = {H(INDEP), H(DEP_BOTH), H(DEP_PL), H(JUST_PL), H(JUST_EN)};
    for (auto& l : langs) for (auto& u : users) if (u[0] == '1' || u[0] == '3') for (int n : {3, 4}) vh::sequences(all.size(), n, [&](const vector<int>& v) { for (int top = 0; top < n; ++top) { if (!T && n == 4 && (l != "ep" || top)) continue; string w; for (int i = 0; i < n; ++i) w += string(i ? " " : "") + "0,3," + all[v[i]] + "," + vh::num(i == top ? 3 : i % 2) + ",1,1"; emit("c " + l + " " + u + ";" + w); } });
    // aliases: all graphs over four names (with up to all sixteen edges)
    for (int m = 0; m < 1 << 16; ++m) if (T || __builtin_popcount(m) <= 5 || m % 7 == 0) emit("d " + vh::num(m));
}
static void runAliases(int m) {
    Aliaser a; bool e[4][4]; const char* N[] = {"k", "l", "m", "n"};
    for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) { e[i][j] = m >> (4 * i + j) & 1; if (e[i][j]) a.addAlias(N[i], N[j]); }
    bool reach[4][4], isAlias[4]; memcpy(reach, e, sizeof e);
    for (int i = 0; i < 4; ++i) { reach[i][i] = true; isAlias[i] = false; for (int j = 0; j < 4; ++j) isAlias[i] |= e[i][j]; }
    for (int k = 0; k < 4; ++k) for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) reach[i][j] |= reach[i][k] && reach[k][j];
    for (int i = 0; i < 4; ++i) {
        set<string> d, al; for (int j = 0; j < 4; ++j) { if (reach[i][j] && !isAlias[j]) d.insert(N[j]); if (reach[j][i] && isAlias[j]) al.insert(N[j]); }
        vh::expect(a.getAllDestinations(N[i]) == d, "destinations", string("destinations of ") + N[i]);
        vh::expect(a.getAllAliases(N[i]) == al, "aliases", string("aliases of ") + N[i]);
        vh::expect(a.isAlias(N[i]) == isAlias[i], "is-alias", N[i]);
    }
    vh::traces(); vh::outcome(vh::num(m));
}
void vh_run(const std::string& id) {
    static bool init = false; if (!init) { SET_LOGGING_LEVEL("CRIT"); init = true; }
    if (id[0] == 'd') { runAliases(atoi(id.c_str() + 2)); return; }
    auto parts = vh::split(id, ' '); string l = parts[1], tail = id.substr(3 + l.size());
    size_t semi = tail.find(';'); string cs = tail.substr(semi + 1);
    Ref ref; for (char c : l) ref.langs.push_back(c == 'p' ? "pl" : "en");
    world.clear(); int n = 0;
    if (!cs.empty()) for (auto& c : vh::split(cs, ' ')) ref.cand.push_back({"c" + vh::num(n++), decode(c)});
    for (auto& c : ref.cand) world[c.first].reset(makeAnnotatorFactory(kind(c.first, c.second)));
    vector<boost::shared_ptr<ProcessorFactory> > own; vector<Alt> todo; std::list<D> uds;
    ProcessorPromiseAlternativeSequence seq; n = 0;
    for (auto& u : vh::split(tail.substr(0, semi), '|')) {
        Alt a; ProcessorPromiseAlternative pa(new list<ProcessorPromiseSharedPtr>());
        for (auto& x : vh::split(u, '/')) {
            uds.push_back(decode(x)); D& d = uds.back(); string name = "u" + vh::num(n++);
            AnnotatorFactory* f = makeAnnotatorFactory(kind(name, d)); own.push_back(boost::shared_ptr<ProcessorFactory>(f));
            vector<const char*> av = {""}; if (!d.lang.empty()) { av.push_back("--lang"); av.push_back(d.lang.c_str()); }
            po::variables_map vm; po::store(po::parse_command_line((int)av.size(), av.data(), f->optionsHandled()), vm); po::notify(vm);
            pa->push_back(ProcessorPromiseSharedPtr(new AnnotatorPromise(f, vm))); a.push_back(P{&d, name, d.lang});
        }
        seq.push_back(pa); todo.push_back(a);
    }
    ref.solve({}, todo);
    if (ref.tooDeep) { vh::tally("processors requiring each other in a circle: not run"); return; }
    set<string> want; double bq = -1, bt = 0; bool any = !ref.all.empty();
    for (auto& s : ref.all) {
        double q = 0, t = 0; bool ok = true; for (auto& p : s) { q += p.d->q; t += p.d->t; ok &= p.d->c; }
        if (!ok) continue;
        if (q > bq || (q == bq && t < bt)) { bq = q; bt = t; want.clear(); }
        if (q == bq && t == bt) want.insert(show(s));
    }
    string got;
    try {
        AutoCompleter ac(seq, list<string>(ref.langs.begin(), ref.langs.end()));
        auto r = ac.complete();
        if (!r) got = "none";
        else for (auto& p : *r) { got += p->getName(); if (p->languagesHandling() == AnnotatorFactory::JUST_ONE_LANGUAGE) got += ":" + p->languagesHandled().front(); got += " "; }
    } catch (PsiException& e) { got = "error"; }
    vh::traces(); vh::transitions(ref.nodes); vh::outcome(got); vh::state(tail);
    if (want.empty()) vh::expectEq(got, any ? "error" : "none", "refusal", "what cannot be completed is refused");
    else { vh::nontrivial(); string w; for (auto& x : want) w += "/ " + x; vh::expect(want.count(got), "completion", "completed to [" + got + "], expected " + w); }
}
