// D02: operations on automata accept exactly the languages they should; a store built of sorted words contains exactly them.
#include "vh.hpp"
#include "config.hpp"
#include "logging.hpp"
#include "fsa_ndfsa.hpp"
#include "fsa_dfsa.hpp"
#include "fsa_bindfsa.hpp"
#include "fsa_algorithms.hpp"
#include "fsa_query_grammers.hpp"
#include "fsa_multi_store.hpp"
#include <memory>
using std::string; using std::vector; using std::set; using std::map;
static const size_t N = 5;
static const vector<string>& WORDS() { static vector<string> w; if (w.empty()) vh::strings({"a", "b"}, N, [&](const string& s) { w.push_back(s); }); return w; }
typedef uint64_t L;   // the words of at most N letters of a language
static L bit(const string& s) { static map<string, int> ix; if (ix.empty()) for (size_t i = 0; i < WORDS().size(); ++i) ix[WORDS()[i]] = i; auto p = ix.find(s); return p == ix.end() ? 0 : 1ULL << p->second; }
static L of(const vector<string>& v) { L l = 0; for (auto& s : v) l |= bit(s); return l; }
static L cat(L x, L y) { L r = 0; for (size_t i = 0; i < WORDS().size(); ++i) if (x >> i & 1) for (size_t j = 0; j < WORDS().size(); ++j) if ((y >> j & 1) && WORDS()[i].size() + WORDS()[j].size() <= N) r |= bit(WORDS()[i] + WORDS()[j]); return r; }
static L plus(L x) { L r = x; while (true) { L n = r | cat(r, x); if (n == r) return r; r = n; } }
static L rev(L x) { L r = 0; for (size_t i = 0; i < WORDS().size(); ++i) if (x >> i & 1) r |= bit(string(WORDS()[i].rbegin(), WORDS()[i].rend())); return r; }
static string show(L x) { string r; for (size_t i = 0; i < WORDS().size(); ++i) if (x >> i & 1) r += (r.empty() ? "" : ",") + (WORDS()[i].empty() ? string("-") : WORDS()[i]); return "{" + r + "}"; }
// what an automaton accepts, found by walking along its arcs
template <class F> static L accepts(F& f) {
    L r = 0;
    for (auto& w : WORDS()) {
        set<size_t> cur; for (auto s : f.getStartStates()) cur.insert(s);
        auto close = [&]() { vector<size_t> q(cur.begin(), cur.end()); while (!q.empty()) { size_t p = q.back(); q.pop_back(); auto a = f.getArcs(p); for (auto it = a.first; it != a.second; ++it) if (it->getSymbol() == fsa::EPS && cur.insert(it->getDest()).second) q.push_back(it->getDest()); } };
        close();
        for (char c : w) { set<size_t> nx; for (size_t p : cur) { auto a = f.getArcs(p); for (auto it = a.first; it != a.second; ++it) if (it->getSymbol() == (unsigned char)c) nx.insert(it->getDest()); } cur.swap(nx); close(); }
        for (size_t p : cur) if (f.isEndState(p)) { r |= bit(w); break; }
    }
    return r;
}
template <class F> static bool epsFree(F& f) { for (size_t p = 0; p < f.size(); ++p) { auto a = f.getArcs(p); for (auto it = a.first; it != a.second; ++it) if (it->getSymbol() == fsa::EPS) return false; } return true; }
template <class F> static bool deterministic(F& f) { if (f.getStartStates().size() > 1 || !epsFree(f)) return false; for (size_t p = 0; p < f.size(); ++p) { auto a = f.getArcs(p); set<int> s; for (auto it = a.first; it != a.second; ++it) if (!s.insert(it->getSymbol()).second) return false; } return true; }
// the number of states of the smallest deterministic automaton without useless states equivalent to a deterministic one; 0 if it accepts nothing
template <class F> static size_t minimalSize(F& f) {
    vector<map<int, size_t>> d(f.size()); for (size_t p = 0; p < f.size(); ++p) { auto a = f.getArcs(p); for (auto it = a.first; it != a.second; ++it) d[p][it->getSymbol()] = it->getDest(); }
    set<size_t> reach; vector<size_t> q; for (auto s : f.getStartStates()) if ((size_t)s < f.size()) { reach.insert(s); q.push_back(s); }
    while (!q.empty()) { size_t p = q.back(); q.pop_back(); for (auto& x : d[p]) if (reach.insert(x.second).second) q.push_back(x.second); }
    vector<bool> live(f.size()); for (size_t p = 0; p < f.size(); ++p) live[p] = f.isEndState(p);
    for (bool ch = true; ch;) { ch = false; for (size_t p = 0; p < f.size(); ++p) if (!live[p]) for (auto& x : d[p]) if (live[x.second]) { live[p] = true; ch = true; break; } }
    vector<int> cls(f.size(), -1); for (size_t p : reach) if (live[p]) cls[p] = f.isEndState(p);
    size_t n = 0;
    while (true) {
        map<vector<int>, int> ids; vector<int> nc(f.size(), -1);
        for (size_t p : reach) if (live[p]) { vector<int> k{cls[p]}; for (auto& x : d[p]) if (cls[x.second] >= 0) { k.push_back(x.first); k.push_back(cls[x.second]); } nc[p] = ids.insert({k, (int)ids.size()}).first->second; }
        if (ids.size() == n) return n; n = ids.size(); cls = nc;
    }
}
typedef fsa::NDFSA<> A; typedef fsa::DFSA<> D;
// an automaton is built by a program in postfix notation: bases push, operations replace
struct Val { std::unique_ptr<A> a; L l; };
static const char BASES[] = "eabxyzn"; static const char UNARY[] = "?+*RPEDMC"; static const char BINARY[] = "|.&";
static bool base(char c, Val& v) {
    switch (c) {
    case 'e': v.a.reset(new A(string(""))); v.l = bit(""); return true;
    case 'a': v.a.reset(new A(fsa::Symbol('a'))); v.l = bit("a"); return true;
    case 'b': v.a.reset(new A(string("b"))); v.l = bit("b"); return true;
    case 'x': { string s = "ab"; v.a.reset(new A(s.begin(), s.end())); v.l = bit("ab"); return true; }
    case 'y': v.a.reset(new A(string("ba"))); v.l = bit("ba"); return true;
    case 'z': { v.a.reset(new A()); A& z = *v.a; z.addState(); z.addState(true); z.addState(true); z.setEndState(0); z.addArc(1, A::arc_type('b', 0)); z.addArc(1, A::arc_type('a', 1)); z.addArc(2, A::arc_type('a', 0)); z.addArc(2, A::arc_type('b', 1)); z.addArc(0, A::arc_type('b', 2)); L x = cat(plus(bit("a")) | bit(""), bit("b")); L y = bit("a") | cat(bit("b"), x); v.l = x | y; v.l = cat(v.l, plus(cat(bit("b"), y)) | bit("")); return true; }   // the first state is not a start state
    case 'w': v.a.reset(new A(fsa::ANY)); v.l = bit("a") | bit("b"); return true;   // a wildcard; only for %
    case 'n': v.a.reset(new A()); v.a->addState(true); v.l = 0; return true;   // accepts nothing
    }
    return false;
}
static void program(const string& id) {
    vector<Val> st;
    for (char c : id) {
        vh::transitions(); Val v; if (base(c, v)) { st.push_back(std::move(v)); continue; }
        Val& t = st.back();
        switch (c) {
        case '?': fsa::kleene_option(*t.a); t.l |= bit(""); break;
        case '+': fsa::kleene_plus(*t.a); t.l = plus(t.l); break;
        case '*': fsa::kleene_star(*t.a); t.l = plus(t.l) | bit(""); break;
        case 'R': fsa::reverse(*t.a); t.l = rev(t.l); break;
        case 'P': fsa::prune(*t.a); break;
        case 'E': fsa::epsRemove(*t.a); break;
        case 'D': fsa::epsRemove(*t.a); fsa::determinize(*t.a); break;
        case 'M': fsa::minimize(*t.a); break;
        case 'C': { std::unique_ptr<A> n(new A()); if (id.size() % 2) { n->addState(true); n->setEndState(0); } *n = *t.a; t.a.swap(n); break; }   // assignment
        case '%': { Val s = std::move(st.back()); st.pop_back(); fsa::intersect(*st.back().a, *s.a, true); st.back().l &= s.l; break; }   // with a wildcard
        default: { Val s = std::move(st.back()); st.pop_back(); Val& d = st.back();
            if (c == '.' && !d.a->size()) return;   // without states: nothing, or something yet to be built
            if (c == '|') { fsa::unify(*d.a, *s.a); d.l |= s.l; } else if (c == '.') { fsa::concatenate(*d.a, *s.a); d.l = cat(d.l, s.l); } else { fsa::intersect(*d.a, *s.a); d.l &= s.l; } }
        }
        if (id.find('%') == string::npos || c == '%') vh::expectEq(show(accepts(*st.back().a)), show(st.back().l), string("language-") + c, "after " + id.substr(0, &c - id.data()));
        if (c == 'E') vh::expect(epsFree(*st.back().a), "eps", "an automaton without empty transitions has some");
        if (c == 'D' || c == 'M') vh::expect(deterministic(*st.back().a), "deterministic", "a determinized automaton is not deterministic");
        if (c == 'M') { size_t n = minimalSize(*st.back().a); vh::expect(st.back().a->size() == std::max<size_t>(n, 1), "minimal", "a minimized automaton has " + vh::num(st.back().a->size()) + " states instead of " + vh::num(n)); }
    }
    A& r = *st.back().a; L l = st.back().l; vh::state(id.size() > 3 ? show(l) : id); vh::outcome(show(l)); vh::traces();
    auto by = [&](std::function<bool(const string&)> in) { L x = 0; for (auto& w : WORDS()) if (in(w)) x |= bit(w); return x; };
    A e; e = r; fsa::epsRemove(e); vh::expectEq(show(by([&](const string& w) { return e.in(w.begin(), w.end()); })), show(l), "in", "what is in the automaton");
    A m; m = r; fsa::minimize(m); D d; d = m; if (d.size()) vh::expectEq(show(by([&](const string& w) { return d.in(w.begin(), w.end()); })), show(l), "in-deterministic", "what is in the deterministic automaton");
    fsa::BinDFSA<> b; fsa::unify(b, m);
    auto bin = [&](fsa::BinDFSA<>& x, const string& how) { if (!x.size()) return; vh::expectEq(show(by([&](const string& w) { return x.in(w.begin(), w.end()); })), show(l), "in-binary", "what is in the binary automaton " + how); vh::expectEq(show(accepts(x)), show(l), "binary", "language of the binary automaton " + how); };
    bin(b, "");
    string key; for (size_t p = 0; p < b.size(); ++p) { key += b.isEndState(p) ? '!' : '.'; auto a = b.getArcs(p); for (auto it = a.first; it != a.second; ++it) { key += (char)it->getSymbol(); key += (char)(1 + it->getDest()); } }
    // the same binary automaton is saved only once
    static set<string> saved; if (b.size() && saved.insert(key).second) { std::stringstream f; f << "xx"; b.save(f); f << "yy"; f.seekg(2); fsa::BinDFSA<> n; n.load(f); bin(n, "after saving and loading"); string rest; f >> rest; vh::expectEq(rest, string("yy"), "extent", "what follows the automaton in the file"); }
    vector<string> lang; fsa::language<A, std::back_insert_iterator<vector<string>>, string>(m, std::back_inserter(lang), N); set<string> ls(lang.begin(), lang.end());
    vh::expectEq(show(of(lang)), show(l), "enumerated", "the enumerated language"); vh::expectEq(ls.size(), lang.size(), "enumerated-twice", "number of enumerated words");
}
// regular expressions ---------------------------------------------------------------------------------------------------
struct Re { const string& s; size_t i; bool ok; Re(const string& t) : s(t), i(0), ok(true) {}
    L alt() { L x = seq(); while (ok && i < s.size() && s[i] == '|') { ++i; x |= seq(); } return x; }
    L seq() { L x = rep(); while (ok && i < s.size() && s[i] != '|' && s[i] != ')') x = cat(x, rep()); return x; }
    L rep() { L x = fac(); if (ok && i < s.size() && strchr("*+?", s[i])) { char c = s[i++]; x = c == '?' ? x | bit("") : c == '+' ? plus(x) : plus(x) | bit(""); } return x; }
    L fac() { if (i >= s.size() || strchr("|)*+?", s[i])) { ok = false; return 0; } if (s[i] == '(') { ++i; L x = alt(); if (i >= s.size() || s[i] != ')') ok = false; ++i; return x; } return bit(string(1, s[i++])); } };
static void regex(const string& t) {
    Re re(t); L l = re.alt(); bool ok = re.ok && re.i == t.size();
    static fsa::CharGrammar<string::const_iterator, A> g; A a; string::const_iterator it = t.begin(), end = t.end();
    bool r = parse(it, end, g, a) && it == end; vh::expectEq(r, ok, "regex-accepted", "whether it is a regular expression"); if (!r || !ok) return;
    vh::expectEq(show(accepts(a)), show(l), "regex", "language of the expression"); fsa::minimize(a); vh::expectEq(show(accepts(a)), show(l), "regex-minimized", "language of the minimized expression"); vh::outcome(show(l)); vh::traces();
}
// words added one by one ------------------------------------------------------------------------------------------------
static const vector<string>& POOL() { static vector<string> p = {"", "a", "b", "aa", "ab", "ba", "bb", "aaa", "aab", "aba", "abb", "baa", "bab", "bbb", "abab", "babb"}; return p; }
static void incremental(const string& id) {
    vector<string> ws; for (char c : id) ws.push_back(POOL()[c - 'A']); std::sort(ws.begin(), ws.end()); L l = of(ws); vh::transitions(ws.size()); vh::traces();
    fsa::StringBinFSA f; fsa::minimize_incremental(f, ws.begin(), ws.end());
    vh::expectEq(show(f.size() ? accepts(f) : 0), show(l), "words", "the words stored"); size_t n = f.size() ? minimalSize(f) : 0; vh::expect(f.size() == std::max<size_t>(n, 1), "words-minimal", "the automaton of words has " + vh::num(f.size()) + " states instead of " + vh::num(n));
    std::stringstream s; f.save(s); fsa::StringBinFSA h; h.load(s); vh::expectEq(show(h.size() ? accepts(h) : 0), show(l), "words-loaded", "the words stored, after saving and loading"); vh::outcome(show(l)); vh::state(show(l));
}
// keys with values ------------------------------------------------------------------------------------------------------
static const char* KS[] = {"a", "ab", "\xc4\x85", "a b", ""}; static const char* VS[] = {"v", "", "\xc3\xb3;x\ty", "vv", "a\tv"};
static void multi(const string& id) {   // pairs <key><value>
    vector<string> lines; map<string, vector<string>> m; std::set<string> seen; for (size_t i = 0; i < id.size(); i += 2) { string k = KS[id[i] - '0'], v = VS[id[i + 1] - '0']; lines.push_back(k + LEXICON_FIELD_SEPARATOR + v); if (seen.insert(lines.back()).second) m[k].push_back(v); }
    vh::transitions(lines.size()); fsa::FSAMultiStore::Builder b; b.createFromSeparatedLines(lines.begin(), lines.end()); std::unique_ptr<fsa::FSAMultiStore> s(b.build());
    auto check = [&](fsa::FSAMultiStore& x, const string& how) {
        for (string k : {"a", "ab", "\xc4\x85", "a b", "", "v", "abc", "\xc4", "a\tv"}) {
            set<string> want; for (auto& l : lines) if (l.size() > k.size() + 1 && l.compare(0, k.size() + 1, k + "\t") == 0) want.insert(l.substr(k.size() + 1));   // an empty value is no value
            vector<string> g = x.get(k); std::sort(g.begin(), g.end()); string a, c; for (auto& y : g) a += "<" + y + ">"; for (auto& y : want) c += "<" + y + ">"; vh::expectEq(a, c, "values", "values of [" + k + "] " + how);
        }
    };
    check(*s, ""); std::stringstream f; s->save(f); fsa::FSAMultiStore t; t.load(f); check(t, "after saving and loading"); vh::traces(); vh::outcome(id);
}
void vh_run(const string& id) {
    string a = id.substr(2);
    switch (id[0]) { case 'p': program(a); break; case 'r': regex(a); break; case 'w': incremental(a); break; case 'm': multi(a); break; }
}
void vh_enumerate(vh::Emit& emit) {
    bool th = vh::thorough();
    // all programs of a length, by their number of operations
    std::function<void(const string&, int, int, int, const string&, const string&)> gen = [&](const string& p, int depth, int basesLeft, int opsLeft, const string& bs, const string& us) {
        if (depth == 1) emit("p:" + p);
        if (basesLeft) for (char c : bs) gen(p + c, depth + 1, basesLeft - 1, opsLeft, bs, us);
        if (depth && opsLeft) for (char c : us) gen(p + c, depth, basesLeft, opsLeft - 1, bs, us);
        if (depth > 1) for (char c : string(BINARY)) gen(p + c, depth - 1, basesLeft, opsLeft, bs, us);
    };
    gen("", 0, 1, th ? 5 : 4, BASES, UNARY); gen("", 0, 2, th ? 3 : 2, th ? BASES : "exzn", UNARY); if (!th) gen("", 0, 2, 1, BASES, UNARY); gen("", 0, 2, th ? 4 : 3, "axz", "?+*R"); gen("", 0, 3, 1, "eabxn", "?+M"); if (th) gen("", 0, 3, 1, BASES, "?+M"); gen("", 0, 3, th ? 3 : 2, "abz", "*+"); 
    for (string w : {"w", "w+", "w*", "ww.", "wa|", "wb.", "aw+.", "zw."}) for (char b : string("eabxyzn")) for (string u : {"", "?", "+", "*", "M", "R"}) for (string v : {"", "M", "E"}) { emit("p:" + w + b + u + "%" + v); emit("p:" + string(1, b) + u + w + "%" + v); }
    vector<string> al; for (char c : string("ab|()*+?")) al.push_back(string(1, c)); vh::strings(al, th ? 8 : 6, [&](const string& s) { if (s.size() > (th ? 6u : 4u)) { Re re(s); re.alt(); if (!re.ok || re.i != s.size()) return; } emit("r:" + s); }, 1);
    size_t n = POOL().size(); for (unsigned m = 0; m < (1u << n); ++m) { int k = __builtin_popcount(m); if (!th && k > 4 && k < (int)n - 2) continue; string s; for (size_t i = 0; i < n; ++i) if (m >> i & 1) s += (char)('A' + i); emit("w:" + s); if (k == 2) emit("w:" + s + s); }
    vector<string> kv; for (int i = 0; i < 5; ++i) for (int j = 0; j < 5; ++j) kv.push_back(vh::num(i) + vh::num(j)); vh::strings(kv, th ? 4 : 3, [&](const string& s) { emit("m:" + s); });
}
