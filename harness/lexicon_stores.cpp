// D01: a lexicon gives for every key exactly what was put in under it, also after saving and loading.
#include "vh.hpp"
#include "key_value_store.hpp"
#include "monotonic_vector.hpp"
#include "lexicon_base.hpp"
#include "psi_quoter.hpp"
#include <boost/scoped_ptr.hpp>
#include <fstream>
using std::string; using std::vector; using std::map;
struct Mem {   // a file in memory
    FILE* f; Mem() : f(tmpfile()) {} ~Mem() { fclose(f); } FILE* rw() { rewind(f); return f; }
};
// vectors of positions -------------------------------------------------------------------------------------------------
static const long DELTA[] = {0, 1, 254, 255, 256, 511, 70000};
template <class M> static void monotonic(const string& id, const string& name) {
    M v; vector<long> m; long x = 3;
    auto check = [&](const M& a, const string& how) {
        vh::expectEq((size_t)a.size(), m.size(), name + "-size", "size " + how);
        for (size_t i = 0; i < m.size() && i < a.size(); ++i) vh::expectEq((long)a[i], m[i], name + "-at", "element " + vh::num(i) + " " + how);
        if (!m.empty()) vh::expectEq((long)a.back(), m.back(), name + "-back", "last element " + how);
    };
    for (size_t k = 0; k < id.size(); ++k) {
        x += DELTA[id[k] - '0']; v.push_back(x); m.push_back(x); vh::transitions();
        if (k + 1 == id.size()) {
            check(v, "");
            Mem f; v.save(f.rw()); M w; w.push_back(7); w.load(f.rw()); check(w, "after saving and loading");
            M s; s.push_back(1); s.push_back(300); s.swap(w); check(s, "after swapping"); vh::expectEq((size_t)w.size(), (size_t)2, name + "-swap", "size of the other"); vh::expectEq((long)w[1], 300L, name + "-swap", "element of the other");
            size_t n = m.size(); for (int i = 0; i < 5; ++i) { x += DELTA[(id[0] - '0' + i * 2) % 7]; s.push_back(x); m.push_back(x); } check(s, "grown after loading"); m.resize(n);
        }
    }
    string c; for (long y : m) c += vh::num(y) + ","; vh::state(name + c);
}
// vectors of strings ---------------------------------------------------------------------------------------------------
static const vector<string>& SV() { static vector<string> p = {"", "a", "ab", "b", "\xc4\x85", "\xff\x01", string(70000, 'x'), "abc"}; return p; }
template <class V> static void strings(const string& id) {
    V v; vector<string> m;
    for (char c : id) { const string& s = SV()[c - '0']; if (s.empty() || m.size() % 2) v.push_back(s.c_str()); else v.push_back(s); m.push_back(s); vh::transitions(); }
    auto check = [&](V& a, const string& how) {
        vh::expectEq((size_t)a.size(), m.size(), "strings-size", "size " + how);
        size_t tot = 0; bool sorted = true;
        for (size_t i = 0; i < m.size(); ++i) {
            vh::expectEq(a[i].str(), m[i], "strings-at", "string " + vh::num(i) + " " + how); vh::expectEq((size_t)a.length(i), m[i].size(), "strings-length", "length of string " + vh::num(i) + " " + how); tot += m[i].size();
            if (i && !(m[i - 1] < m[i])) sorted = false;
            vh::expect(a[i] == m[i] && !(a[i] == m[i] + "!"), "strings-equal", "comparison with string " + vh::num(i));
        }
        vh::expectEq((size_t)a.size2(), tot, "strings-chars", "number of characters " + how); vh::expectEq(a.is_sorted(), sorted, "strings-sorted", "whether sorted " + how);
        size_t i = 0; for (typename V::iterator it = a.begin(); it != a.end(); ++it, ++i) vh::expect(i < m.size() && (*it).str() == m[i], "strings-iterate", "iteration " + how);
        vh::expectEq(i, m.size(), "strings-iterate", "number iterated over " + how);
        i = 0; for (typename V::string_iterator it = a.template begin<typename V::string_iterator>(); it != a.template end<typename V::string_iterator>(); ++it, ++i) vh::expect(i < m.size() && *it == m[i], "strings-iterate", "iteration over copies " + how);
        for (string s : SV()) {
            size_t w = std::find(m.begin(), m.end(), s) - m.begin(), g = a.find(s);
            if (w < m.size()) vh::expectEq(g, w, "strings-find", "find of " + s.substr(0, 9) + " " + how); else vh::expect(g >= m.size() || m[g] != s, "strings-find", "find of an absent string " + how);
        }
    };
    check(v, ""); Mem f; v.save(f.rw()); V w; w.push_back("zz"); w.load(f.rw()); check(w, "after saving and loading");
    V x; x.push_back("q"); x.push_back("p"); x.swap(w); check(x, "after swapping"); vh::expect(w.size() == 2 && w[0] == "q" && w[1] == "p" && !w.is_sorted(), "strings-swap", "the other after swapping");
    m.push_back("ac"); x.push_back("ac"); check(x, "grown after loading"); vh::state("S" + id); vh::traces();
}
// key-value stores -----------------------------------------------------------------------------------------------------
static const vector<string>& KEYS() { static vector<string> k = {"a", "", "ab", "\xc5\xba", "kanal+subst", "b", "aa", "\xe4\xba\x9a\xe5\xbd\x93", " x ", "0"}; return k; }
static const vector<string>& VALS() { static vector<string> k = {"1", "", "a", "\xc4\x85;x\ty", string(300, 'v'), "1 2", ";", "kk", "\t", "z"}; return k; }
static void storeIs(const KeyValueStore& s, const map<string, string>& want, const vector<string>& more, const string& how) {
    for (auto& p : want) { auto g = s.get(p.first); if (vh::expect((bool)g, "store-missing", "the key " + p.first + " is missing " + how)) vh::expectEq(*g, p.second, "store-value", "value of " + p.first + " " + how); }
    for (auto& k : more) if (!want.count(k)) vh::expect(!s.get(k), "store-invented", "a value for the absent key " + k + " " + how);
}
static void store(const vector<string>& keys, const vector<string>& vals, const vector<string>& absent) {
    KeyValueStore::Builder b; map<string, string> m; for (size_t i = 0; i < keys.size(); ++i) { b.add(keys[i], vals[i]); m[keys[i]] = vals[i]; vh::transitions(); }
    boost::scoped_ptr<KeyValueStore> s(b.build()); storeIs(*s, m, absent, ""); Mem f; fputs("before", f.rw()); s->save(f.f); fputs("after", f.f);
    KeyValueStore l; char c[6]; fread(c, 1, 6, f.rw()); l.load(f.f); storeIs(l, m, absent, "after saving and loading"); char d[6] = {0}; fread(d, 1, 5, f.f); vh::expectEq(string(d), string("after"), "store-extent", "what follows the store in the file");
    vh::traces();
}
// lexica written as text -----------------------------------------------------------------------------------------------
struct Line { const char* text; const char* key; vector<string> recs; int bad; };
static const vector<Line>& LINES() {
    static vector<Line> l = {
        {"k v", "k", {"v"}, 0}, {"k\tw  x", "k", {"w\tx"}, 0}, {"l\tu;t", "l", {"u", "t"}, 0}, {"# comment k q", 0, {}, 0}, {"", 0, {}, 0}, {" \t", 0, {}, 0},
        {"l\\_x v_v#k q", "l_x", {"v v"}, 0}, {" k z", "k", {"z"}, 0}, {"\xc4\x85\\* b\\nb \t# c", "\xc4\x85*", {"b\nb"}, 0}, {"l_x;y o p q", "l x;y", {"o\tp\tq"}, 0}, {"m m", "m", {"m"}, 0},
        {"k", 0, {}, 1}, {"k # v", 0, {}, 1}, {"k\\q v", 0, {}, 2}};
    return l;
}
static void text(const string& id) {
    map<string, vector<string>> m; vector<string> order; int bad = 0; string t;
    for (size_t i = 0; i < id.size(); ++i) {
        if (id[i] == '$') { t.erase(t.size() - 1); break; }   // the last line is not ended
        const Line& l = LINES()[id[i] - 'a']; t += string(l.text) + "\n"; if (l.bad && !bad) bad = l.bad; if (l.key) for (auto& r : l.recs) m[l.key].push_back(r); vh::transitions();
    }
    { std::ofstream o("lex.txt"); o << t; }
    LexiconBase x; string err; bool threw = false; vh::expect(x.isEmpty(), "text-empty", "not empty before it is read");
    try { x.readPlainText("lex.txt"); } catch (PsiException& e) { threw = true; err = e.what(); }
    vh::traces();
    if (bad || threw) { vh::expect(threw, "text-accepted", "a wrong line is accepted"); vh::expect(bad, "text-rejected", "rejected: " + err); vh::outcome("error"); return; }
    auto check = [&](LexiconBase& a, const string& how) {
        vh::expect(!a.isEmpty(), "text-empty", "empty " + how);
        for (string k : {"k", "l", "l_x", "l x;y", "\xc4\x85*", "m", "v", "", "comment", "q", "l x", "kk", "\xc4\x85", "z"}) {
            string want, got; if (m.count(k)) for (auto& r : m[k]) want += "<" + r + ">"; for (auto& r : a.getRecords(k)) got += "<" + r + ">";
            vh::expectEq(got, want, "text-records", "records of " + k + " " + how);
        }
    };
    check(x, ""); x.saveBinary("lex.bin"); LexiconBase y; y.loadBinary("lex.bin"); check(y, "after saving and loading");
    string c; for (auto& p : m) { c += p.first + "="; for (auto& r : p.second) c += r + "|"; } vh::state(c); vh::outcome(c);
}
void vh_run(const string& id) {
    string a = id.substr(2);
    switch (id[0]) {
    case 'm': monotonic<MonotonicVector<unsigned, unsigned char, 3>>(a, "small steps"); break;
    case 'n': monotonic<MonotonicVector<size_t, unsigned char, 2>>(a, "steps of two"); break;
    case 'o': monotonic<MonotonicVector<>>(a, "long steps"); break;
    case 's': strings<StringVector<>>(a); break;
    case 'S': strings<LongStringVector>(a); break;
    case 'k': { vector<string> k, v; for (char c : a) { k.push_back(KEYS()[c - '0']); v.push_back(VALS()[(c - '0' + a.size()) % 10]); } store(k, v, KEYS()); vh::state(id); vh::outcome("keys " + vh::num(a.size())); break; }
    case 'K': { int n = atoi(a.c_str()); vector<string> k, v, ab; for (int i = 0; i < n; ++i) { k.push_back("key" + vh::num(i * 7919LL % 100003)); v.push_back(vh::num(i)); ab.push_back("no" + vh::num(i)); } store(k, v, ab); break; }
    case 't': text(a); break;
    }
}
void vh_enumerate(vh::Emit& emit) {
    static bool quiet = false; if (!quiet && !vh::replaying()) { quiet = true; freopen("/dev/null", "w", stderr); }
    bool th = vh::thorough();
    auto seqs = [&](const string& al, size_t from, size_t to, const string& pre) { vector<string> a; for (char c : al) a.push_back(string(1, c)); vh::strings(a, to, [&](const string& s) { emit(pre + s); }, from); };
    seqs("0123456", 1, th ? 7 : 6, "m:"); seqs("0123456", 1, th ? 6 : 5, "n:");
    for (int a = 0; a < 7; ++a) for (int b = 0; b < 7; ++b) for (int n : {24, 25, 26, 27, 49, 50, 51, 76}) for (int at : {0, 1, 23, 24, 25, 26, 48}) { string s(n, '0' + a); if (at < n) s[at] = '0' + b; emit("o:" + s); }
    seqs("01234567", 0, th ? 5 : 4, "s:"); seqs("0136", 0, 3, "S:"); for (int n : {19, 20, 21, 22, 41}) for (char a : string("0167")) for (char b : string("0137")) { string s(n, a); s[n - 2] = b; emit("s:" + s); if (n == 22) emit("S:" + s); }
    vector<string> al; for (char c : string("0123456789")) al.push_back(string(1, c));
    vh::strings(al, th ? 4 : 3, [&](const string& s) { std::set<char> d(s.begin(), s.end()); if (d.size() == s.size()) emit("k:" + s); }, 0);
    for (string s : {"0123456789", "9876543210", "12345", "56789"}) emit("k:" + s);
    for (int n : {1, 2, 10, 50, 100, 500, 1000, 5000, 20000}) emit("K:" + vh::num(n));
    string L; for (size_t i = 0; i < LINES().size(); ++i) L += (char)('a' + i);
    seqs(L, 0, th ? 4 : 3, "t:"); seqs("abcg", 1, th ? 6 : 5, "t:"); vector<string> la; for (char c : L) la.push_back(string(1, c)); vh::strings(la, 2, [&](const string& s) { emit("t:" + s + "$"); }, 1);
}
