// S01: a StringFrag behaves as the std::string it stands for, after any history of operations.
#include "vh.hpp"
#include "string_frag.hpp"
#include "annotation_item.hpp"
using std::string; using std::vector;

static const vector<string> SRC = {"abcab", "xa\xc4\x85" "b"};
struct Op { char kind; int a, b, c; };
static vector<Op> OPS;
static void build() {
    if (!OPS.empty()) return;
    // r: f = StringFrag(SRC[a], b, c); s: f = stored string
    OPS.push_back({'s', 0, 0, 0}); OPS.push_back({'s', 1, 0, 0}); OPS.push_back({'s', 2, 0, 0});
    for (auto t : vector<vector<int>>{{0,0,2},{0,2,2},{0,2,3},{0,1,0},{0,0,5},{1,1,3}}) OPS.push_back({'r', t[0], t[1], t[2]});
    OPS.push_back({'f', 0, 1, 2}); OPS.push_back({'f', 0, 0, 1}); OPS.push_back({'f', 0, 1, 0});   // f = fragment of f
    OPS.push_back({'g', 0, 1, 2});   // f = fragment of g
    OPS.push_back({'+', 0, 0, 0});   // f += g
    OPS.push_back({'d', 0, 0, 0});   // f += f
    OPS.push_back({'=', 0, 0, 0});   // f = g
    OPS.push_back({'x', 0, 0, 0});   // swap roles
    OPS.push_back({'c', 0, 0, 0});   // f = copy of a temporary copy of g
    OPS.push_back({'e', 0, 0, 0});   // f = f
}
static const vector<string> ST = {"", "ab", "zzzzzab"};
struct W {
    StringFrag *f, *g; string mf, mg;
    W() : f(new StringFrag()), g(new StringFrag(string("ba"))), mg("ba") {}
    ~W() { delete f; delete g; }
    void setF(StringFrag* n) { delete f; f = n; }
    void apply(const Op& o) {
        vh::transitions();
        switch (o.kind) {
        case 's': setF(new StringFrag(ST[o.a])); mf = ST[o.a]; break;
        case 'r': setF(new StringFrag(SRC[o.a], o.b, o.c)); mf = SRC[o.a].substr(o.b, o.c); break;
        case 'f': if ((int)mf.size() >= o.b + o.c) { setF(new StringFrag(*f, o.b, o.c)); mf = mf.substr(o.b, o.c); } break;
        case 'g': if ((int)mg.size() >= o.b + o.c) { setF(new StringFrag(*g, o.b, o.c)); mf = mg.substr(o.b, o.c); } break;
        case '+': f->append(*g); mf += mg; break;
        case 'd': f->append(*f); mf += string(mf); break;
        case '=': *f = *g; mf = mg; break;
        case 'x': std::swap(f, g); std::swap(mf, mg); break;
        case 'c': { StringFrag* t = new StringFrag(*g); StringFrag* u = new StringFrag(*t); delete t; setF(u); mf = mg; break; }
        case 'e': { StringFrag& r = *f; *f = r; break; }
        }
    }
    void check1(StringFrag& s, const string& m) {
        vh::expectEq(s.str(), m, "str", "contents");
        vh::expectEq(s.length(), m.size(), "length", "length");
        if (!m.empty()) vh::expectEq(string(s.data(), m.size()), m, "data", "data");
        for (size_t i = 0; i < m.size(); ++i) vh::expectEq((int)s[i], (int)m[i], "index", "character " + vh::num(i));
        for (char c : {'a', 'b', 'z', '\xc4'}) for (size_t p = 0; p <= m.size() + 1; ++p)
            vh::expectEq(s.find(c, p), m.find(c, p), "find", string("find ") + c + " from " + vh::num(p));
        for (size_t p = 0; p <= m.size(); ++p) for (size_t n : {(size_t)0, (size_t)1, (size_t)2, string::npos})
            vh::expectEq(s.substr(p, n), m.substr(p, n), "substr", "substr " + vh::num(p) + "," + vh::num((int)n));
        AnnotationItem it("C", s);
        vh::expectEq(it.getText(), m, "item-text", "text of an annotation item made of it");
    }
    void check() { check1(*f, mf); check1(*g, mg); vh::state(mf + "|" + mg); vh::traces(); vh::outcome(mf); }
};
void vh_enumerate(vh::Emit& emit) {
    build();
    size_t max = vh::thorough() ? 6 : 5;
    for (size_t n = 1; n <= max; ++n) vh::sequences(OPS.size(), n, [&](const vector<int>& v) {
        // only maximal histories are executed, every prefix is checked on the way
        if (n != max && n > 2) return;
        string id; for (int k : v) id += (char)('A' + k); emit(id);
    });
}
void vh_run(const std::string& id) {
    build(); W w;
    for (size_t i = 0; i < id.size(); ++i) { w.apply(OPS[id[i] - 'A']); if (i + 1 == id.size() || id.size() <= 2) w.check(); }
}
