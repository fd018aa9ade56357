// A01: annotation items are a category, a text and a map of attribute values.
#include "vh.hpp"
#include "annotation_item_manager.hpp"
#include "annotation_item.hpp"
#include <regex>
using std::string; using std::vector; using std::map;
static string canonInt(const string& v, bool& ok) {
    size_t i = 0; while (i < v.size() && isspace((unsigned char)v[i])) ++i;
    size_t s = i; if (i < v.size() && (v[i] == '-' || v[i] == '+')) ++i;
    size_t d = i; while (i < v.size() && isdigit((unsigned char)v[i])) ++i;
    ok = d < i && i == v.size(); if (!ok) return "";
    string dig = v.substr(d); size_t z = dig.find_first_not_of('0'); dig = z == string::npos ? "0" : dig.substr(z);
    bool neg = v[s] == '-';
    if (dig.size() > 10 || atoll(dig.c_str()) > (neg ? 2147483648LL : 2147483647LL)) { ok = false; return ""; }
    long long n = atoll(dig.c_str()); return std::to_string(neg ? -n : n);
}
// kind: i(nteger) s(ymbol) n(il) f(ail)
struct Val { char kind; string s; bool operator==(const Val& o) const { return kind == o.kind && s == o.s; } bool operator!=(const Val& o) const { return !(*this == o); } };
static Val norm(const string& v) {
    bool ok; string c = canonInt(v, ok); if (ok) return {'i', c};
    if (v == "any" || v == "nil") return {'n', "nil"};
    if (v == "fail" || v == "false" || v == "empty") return {'f', "fail"};
    return {'s', v};
}
struct Model { string cat, text; map<string, Val> av; };
static const vector<string> ATTR = {"a", "b", "c"};
static const vector<string> VAL = {"x", "y", "", "fail", "nil", "7"};
static string txt = "teksty";
static AnnotationItem mk(int how) { return how == 0 ? AnnotationItem("c", StringFrag(txt, 0, 3)) : AnnotationItem("c", StringFrag("tek")); }

static string show(const Model& m) { string r = m.cat + "|" + m.text; for (auto& p : m.av) r += "|" + p.first + "=" + p.second.kind + p.second.s; return r; }
static void check(AnnotationItemManager& man, vector<AnnotationItem>& it, vector<Model>& mo, const string& when) {
    for (size_t i = 0; i < it.size(); ++i) {
        string w = when + ", item " + vh::num(i) + " {" + show(mo[i]) + "}";
        vh::expectEq(it[i].getCategory(), mo[i].cat, "category", w); vh::expectEq(man.getCategory(it[i]), mo[i].cat, "category", w);
        vh::expectEq(it[i].getText(), mo[i].text, "text", w); vh::expectEq(it[i].getTextAsStringFrag().str(), mo[i].text, "text", w);
        map<string, string> want; for (auto& p : mo[i].av) want[p.first] = p.second.s;
        auto dump = [](const map<string, string>& m) { string r; for (auto& p : m) r += p.first + "=" + p.second + ";"; return r; };
        vh::expectEq(dump(man.getAVMap(it[i])), dump(want), "values", w);
        std::list<std::pair<string, string> > l = man.getValues(it[i]); vh::expectEq(l.size(), want.size(), "values", w);
        std::list<std::pair<string, zvalue> > z = man.getValuesAsZvalues(it[i]); vh::expectEq(z.size(), want.size(), "values", w);
        for (auto& p : z) { vh::expect(mo[i].av.count(p.first), "values", w + " lists " + p.first); vh::expectEq(man.to_string(p.second), want[p.first], "values", w + " zvalue of " + p.first); }
        for (auto& a : {string("a"), string("b"), string("c"), string("unknown")}) {
            auto f = mo[i].av.find(a); Val v = f == mo[i].av.end() ? Val{'f', "fail"} : f->second;
            vh::expectEq(man.getValueAsString(it[i], a), v.s, "value", w + " value of " + a);
            zvalue zv = man.getValue(it[i], a);
            vh::expectEq(man.is_int(zv), v.kind == 'i', "value-kind", w + " kind of " + a); vh::expectEq(man.is_any(zv), v.kind == 'n', "value-kind", w + " kind of " + a);
            vh::expectEq(man.is_false(zv), v.kind == 'f', "value-kind", w + " kind of " + a); vh::expectEq(man.is_true(zv), v.kind != 'f', "value-kind", w + " kind of " + a);
            if (v.kind == 'i' && man.is_int(zv)) vh::expectEq(std::to_string(man.to_int(zv)), v.s, "value-int", w + " integer value of " + a);
        }
        vh::state(show(mo[i]));
        for (size_t j = 0; j < it.size(); ++j) {
            bool eq = mo[i].cat == mo[j].cat && mo[i].text == mo[j].text && mo[i].av.size() == mo[j].av.size();
            if (eq) for (auto& p : mo[i].av) { auto f = mo[j].av.find(p.first); if (f == mo[j].av.end() || f->second != p.second) eq = false; }
            string d = when + ", {" + show(mo[i]) + "} and {" + show(mo[j]) + "}";
            vh::expectEq(it[i] == it[j], eq, "equality", "equality of " + d); vh::expectEq(it[i] != it[j], !eq, "equality", "inequality of " + d);
            if (it[i] == it[j]) vh::expect(it[i].getHash() == it[j].getHash(), "hash", "equal items, different hashes: " + d);
        }
    }
}
// 0..35: set item,attr,value; 36..: others
static const int NSET = 36, NOPS = NSET + 9;
static void apply(int op, AnnotationItemManager& man, vector<AnnotationItem>& it, vector<Model>& mo) {
    if (op < NSET) { int i = op / 18, a = op / 6 % 3, v = op % 6; man.setValue(it[i], ATTR[a], VAL[v]); mo[i].av[ATTR[a]] = norm(VAL[v]); return; }
    switch (op - NSET) {
        case 0: it[1] = AnnotationItem(it[0]); mo[1] = mo[0]; break;
        case 1: it[0] = AnnotationItem(it[1], string("d")); mo[0] = mo[1]; mo[0].cat = "d"; break;
        case 2: it[1] = AnnotationItem(it[0], StringFrag(txt, 3, 3)); mo[1] = mo[0]; mo[1].text = "sty"; break;
        case 3: it[0] = AnnotationItem(it[1], string("d"), StringFrag("sty")); mo[0] = mo[1]; mo[0].cat = "d"; mo[0].text = "sty"; break;
        case 4: man.addValues(it[0], it[1]); for (auto& p : mo[1].av) mo[0].av[p.first] = p.second; break;
        case 5: man.addValues(it[1], it[0]); for (auto& p : mo[0].av) mo[1].av[p.first] = p.second; break;
        case 6: man.setCategory(it[0], "d"); mo[0].cat = "d"; break;
        case 7: man.setStringValue(it[0], "b", "7"); mo[0].av["b"] = {'s', "7"}; break;
        case 8: man.setValue(it[1], "b", 7); mo[1].av["b"] = {'i', "7"}; break;
    }
}
static vector<long long> ints() {
    std::set<long long> s; for (int k = 0; k <= 31; ++k) for (int d = -2; d <= 2; ++d) for (int g = -1; g <= 1; g += 2) { long long n = g * (1LL << k) + d; if (n >= -2147483648LL && n <= 2147483647LL) s.insert(n); }
    return vector<long long>(s.begin(), s.end());
}
void vh_run(const string& id) {
    AnnotationItemManager man; vector<AnnotationItem> it; it.push_back(mk(0)); it.push_back(mk(1));
    vector<Model> mo(2); for (auto& m : mo) { m.cat = "c"; m.text = "tek"; }
    if (id[0] == 'h') {
        string done; check(man, it, mo, "initially");
        for (auto& p : vh::split(id.substr(1), ',')) { apply(atoi(p.c_str()), man, it, mo); done += p + ","; vh::transitions(); check(man, it, mo, "after " + done); }
        vh::traces(); vh::outcome(show(mo[0]) + "/" + show(mo[1]));
    } else if (id[0] == 'v') {
        string v = id.substr(1); man.setValue(it[0], "a", v); mo[0].av["a"] = norm(v); man.setStringValue(it[1], "a", v); mo[1].av["a"] = {'s', v}; vh::transitions(2);
        check(man, it, mo, "value `" + v + "'"); vh::outcome(string(1, mo[0].av["a"].kind) + mo[0].av["a"].s);
        zvalue z = man.from_string(v), z2 = man.from_string(string(v)); vh::expect(z == z2, "symbol-unique", "the same string, different values: " + v);
        man.setValue(it[0], "b", v); vh::expectEq(man.getValueAsString(it[0], "b") , mo[0].av["a"].s, "value", "value `" + v + "' of a second attribute"); vh::traces();
    } else if (id[0] == 'i') {
        long long n = atoll(id.c_str() + 1); man.setValue(it[0], "a", (int)n); mo[0].av["a"] = {'i', std::to_string(n)}; man.setValue(it[1], "a", std::to_string(n)); mo[1].av["a"] = {'i', std::to_string(n)}; vh::transitions(2);
        check(man, it, mo, "integer " + id); vh::expect(man.from_int((int)n) == man.getValue(it[0], "a"), "value-int", "from_int of " + id); vh::traces(); vh::outcome(id);
    } else if (id[0] == 'm') {   // many symbols and attributes: capacity and rehashing
        int n = atoi(id.c_str() + 1); vector<zvalue> z; for (int i = 0; i < n; ++i) z.push_back(man.from_string("s" + vh::num(i)));
        for (int i = 0; i < n; ++i) { vh::transitions(); vh::expect(man.from_string("s" + vh::num(i)) == z[i], "symbol-unique", "symbol " + vh::num(i) + " of " + vh::num(n)); vh::expectEq(man.to_string(z[i]), "s" + vh::num(i), "value", "symbol of " + vh::num(n)); }
        int k = std::min(n, 128); for (int i = 0; i < k; ++i) { man.setValue(it[i % 2], "q" + vh::num(i), i); mo[i % 2].av["q" + vh::num(i)] = {'i', std::to_string(i)}; }
        check(man, it, mo, "many"); for (int i = 0; i < k; ++i) { vh::expectEq(man.getValueAsString(it[i % 2], "q" + vh::num(i)), vh::num(i), "value", "one of many"); vh::expectEq(man.getValueAsString(it[1 - i % 2], "q" + vh::num(i)), "fail", "value", "one of many, the other item"); }
        vh::traces(); vh::outcome(id);
    }
}
void vh_enumerate(vh::Emit& emit) {
    for (int i = 0; i < NOPS; ++i) emit("h" + vh::num(i));
    for (int i = 0; i < NOPS; ++i) for (int j = 0; j < NOPS; ++j) emit("h" + vh::num(i) + "," + vh::num(j));
    for (int i = 0; i < NOPS; ++i) for (int j = 0; j < NOPS; ++j) for (int k = 0; k < NOPS; ++k) emit("h" + vh::num(i) + "," + vh::num(j) + "," + vh::num(k));
    if (vh::thorough()) {   // depth 4 over a third of the operations
        vector<int> o = {0, 2, 3, 6, 9, 17, 18, 21, 24, 26, 27, 31, 36, 37, 38, 39, 40, 41, 42, 43, 44};
        for (int a : o) for (int b : o) for (int c : o) for (int d : o) emit("h" + vh::num(a) + "," + vh::num(b) + "," + vh::num(c) + "," + vh::num(d));
    }
    vh::strings({"0", "7", "-", "+", " ", "x", "\xc5\xbc", "\t"}, vh::thorough() ? 5 : 4, [&](const string& s) { emit("v" + s); });
    for (auto& s : {"any", "nil", "fail", "false", "empty", "NULL_ZVALUE", "DELETED_ZVALUE", "Any", "nil ", "00000000007", "2147483648", "-2147483649", "99999999999999999999", "1e3", "0x7", "7.0"}) emit(string("v") + s);
    for (long long n : ints()) { emit("i" + std::to_string(n)); emit("v" + std::to_string(n)); }
    for (int n : {1, 2, 100, 127, 128, 511, 512, 513, 1023, 1024, 1025, 3000}) emit("m" + vh::num(n));
}
