// X02: the tagset converter adds exactly the conversions its rule file implies.
#include "vh.hpp"
#include "lattice_model.hpp"
#include "unumsunt.hpp"
#include <fstream>
#include <boost/program_options.hpp>
#include <memory>
using namespace lm; namespace po = boost::program_options;
static const vector<E>& POOL() {
    static vector<E> e = {
        {0, 1, "kot", "a", F{{"k", "1"}, {"g", "m"}}, "src,p1", {}}, {1, 2, "kot+subst", "b", F{{"k", "2"}}, "src,p2", {}}, {0, 1, "pies", "a", F{{"k", "1"}}, "src,p1,p2", {{0}}}, {1, 2, "x", "b", F{{"g", "m"}}, "src", {}},
        {0, 2, "kot x", "a", F{{"g", "m"}}, "src", {{0, 1}, {0, 3}}}, {0, 1, "kot", "a", F{{"k", "1"}}, "other,p1", {}}, {2, 3, "kot", "c", F{{"k", "2"}, {"g", "m"}}, "src,other", {}}, {0, 3, "kot", "b", F(), "src,p1", {{4, 6}, {2, 3, 6}}},
        {2, 3, "pies", "a", F{{"g", "f"}}, "src,p2", {{6}}}, {1, 3, "pies+kot", "a", F{{"k", "1"}, {"g", "m"}}, "src", {{1, 8}}}
    };
    return e;
}
// rules: conditions, words, commands
struct R { const char* line; };
static const vector<string>& RULES() {
    static vector<string> r = {"CAT=X >> CAT=Y", "CAT=X >> N=p|q", "K=one >> K=two|one", "K=one, N=p >> SKIP", "CAT = b, kot pies >> CAT = X|Y", "kot>>N=q", "g=m >> R=$g, g=0", "g=m >> R=$K|$g", "CAT=X >> CAT=$K|Z", "CAT=X >> CAT=Z|$K",
        "CAT = b >> g = f|m|n, R=1", "g=fail >> R=none", "R=1 >> g=-1", "N=p >> SKIP", "CAT=Y >> N=p|q, R=1|2", "CAT=X >> K=$g|$K, R=$K", "CAT=X, K=one >> g=$K", "g=nil >> N=q|any", "CAT=X, pies >> N=r, SKIP", "CAT=Z >> W=$CAT, N=$N"};
    return r;
}
static string trim(const string& s) { size_t a = s.find_first_not_of(" \t\r"), b = s.find_last_not_of(" \t\r"); return a == string::npos ? "" : s.substr(a, b - a + 1); }
static vector<string> parts(const string& s, char c) { vector<string> r; for (auto& x : vh::split(s, c)) r.push_back(trim(x)); return r; }
static string value(const string& v) { return v == "any" ? "nil" : v == "false" || v == "empty" ? "fail" : v; }
static string get(const Item& i, const string& a) { auto f = i.attrs.find(a); return f == i.attrs.end() ? "fail" : f->second; }
static vector<Item> apply(const string& line, const vector<Item>& in) {
    size_t p = line.find(">>"); vector<pair<string, string> > conds; T words; for (auto& c : parts(line.substr(0, p), ',')) { size_t q = c.find('='); if (q != string::npos) conds.push_back({trim(c.substr(0, q)), trim(c.substr(q + 1))}); else for (auto& w : split(c, ' ')) words.insert(w); }
    vector<string> cmds = parts(line.substr(p + 2), ','); vector<Item> out, more;
    for (auto& it : in) {
        bool ok = words.empty() || words.count(it.text.substr(0, it.text.find('+'))); for (auto& c : conds) if ((c.first == "CAT" ? it.cat : get(it, c.first)) != c.second) ok = false;
        if (!ok) { out.push_back(it); continue; }
        vector<Item> cur(1, it);
        for (auto& c : cmds) { if (c == "SKIP") { cur.clear(); break; } size_t q = c.find('='); string a = trim(c.substr(0, q)); vector<Item> next; vector<string> alts = parts(c.substr(q + 1), '|');
            for (auto& i : cur) for (auto& v : alts) { Item n = i; string x = v[0] == '$' ? get(i, v.substr(1)) : v; if (a == "CAT") n.cat = x; else n.attrs[a] = v[0] == '$' ? x : v == "0" ? "nil" : v == "-1" ? "fail" : value(v); next.push_back(n); }
            cur = next; }
        out.insert(out.end(), cur.begin(), cur.end());
    }
    return out;
}
// header variants: lines, maps
struct Head { const char* target; const char* tags; F cat, attr, val; };
static const Head HEADS[] = {
    {"tgt", "p1", {{"a", "X"}}, {{"k", "K"}}, {{"1", "one"}}}, {"tgt", "", {}, {}, {}}, {"tgt", "p1 p2 p3", {{"a", "b"}, {"b", "X"}}, {{"k", "g"}, {"g", "k"}}, {{"m", "1"}, {"1", "one"}, {"2", "m"}}}, {"src", "p2", {{"a", "b"}, {"b", "X"}, {"X", "Y"}}, {{"k", "K"}}, {{"1", "2"}, {"2", "3"}, {"m", "f"}}}, {"tgt", "src p1", {{"a", "b"}, {"b", "X"}}, {{"g", "K"}}, {{"m", "one"}}}
};
static string file(const Head& h, const vector<string>& rules, int layout) {
    vector<string> ls; ls.push_back("@source src"); ls.push_back("@target " + string(h.target)); if (*h.tags) ls.push_back("@tags\t" + string(h.tags)); for (auto& x : h.cat) ls.push_back("@cat " + x.first + "\t" + x.second); for (auto& x : h.attr) ls.push_back("@attr   " + x.first + " " + x.second); for (auto& x : h.val) ls.push_back("@val " + x.first + " " + x.second);
    if (layout & 8) { ls.insert(ls.end() , rules.begin(), rules.end()); std::rotate(ls.begin(), ls.end() - rules.size(), ls.end()); } else ls.insert(ls.end(), rules.begin(), rules.end());
    string f, eol = layout & 4 ? "\r\n" : "\n"; if (layout & 1) f += "# CAT=a >> CAT=b" + eol; for (auto& l : ls) { f += (layout & 16 ? "  " : "") + l + eol; if (layout & 1) f += eol; if (layout & 16) f += "#" + eol + " \t" + eol; } if (layout & 2) f.resize(f.size() - eol.size()); return f;
}
void vh_run(const string& id) {
    // id: head:layout:edges:rule,rule,…
    vector<string> p = vh::split(id, ':'); const Head& h = HEADS[atoi(p[0].c_str())]; int layout = atoi(p[1].c_str()); unsigned bits = atoi(p[2].c_str()); vector<string> rules; for (auto& x : vh::split(p[3], ',')) if (x.size()) rules.push_back(RULES()[atoi(x.c_str())]);
    static string path = "/tmp/vh_unumsunt_" + vh::num(getpid()); { std::ofstream o(path.c_str()); o << file(h, rules, layout); }
    struct Rm { ~Rm() { unlink(path.c_str()); } } rm;
    Lat l("abc", POOL(), bits); Model& m = l.m; vh::limit(5);
    Unumsunt::Factory factory; std::unique_ptr<Annotator> u; { po::variables_map vm; vector<string> args = {"--lang", "pl", "--rules", path}; po::store(po::command_line_parser(args).options(factory.optionsHandled()).run(), vm); po::notify(vm); u.reset(factory.createAnnotator(vm)); } T keep = split(h.tags, ' '); map<int, int> repl; vector<int> order; for (int v = 0; v < 4; ++v) for (size_t e = 0; e < m.es.size(); ++e) if (m.es[e].to == v && m.es[e].tags.count("src")) order.push_back(e);
    for (int e : order) { ME x = m.es[e]; T tags; for (auto& t : x.tags) if (keep.count(t)) tags.insert(t); tags.insert(h.target); tags.insert("tagset-converter");
        Item it{x.text, h.cat.count(x.cat) ? h.cat.at(x.cat) : x.cat, F()}; for (auto& a : x.attrs) it.attrs[h.attr.count(a.first) ? h.attr.at(a.first) : a.first] = h.val.count(a.second) ? h.val.at(a.second) : a.second;
        vector<Item> items(1, it); for (auto& r : rules) items = apply(r, items);
        int last = -1; for (auto& part : x.parts) { vector<int> of; for (int y : part) of.push_back(repl.count(y) ? repl[y] : y); for (auto& i : items) last = m.add(x.from, x.to, i, tags, of); } if (items.size() == 1) repl[e] = last; }
    u->annotate(l.l); string got = l.real(), want = l.expected(); vh::expectEq(got, want, "converted", "edges after the conversion by\n" + file(h, rules, layout)); vh::outcome(got); vh::state(got); vh::transitions(m.es.size()); vh::traces();
}
void vh_enumerate(vh::Emit& emit) {
    bool th = vh::thorough(); int n = RULES().size(), k = POOL().size(); unsigned all = (1u << k) - 1;
    for (int h = 0; h < 5; ++h) for (unsigned b = 1; b <= all; ++b) emit(vh::num(h) + ":0:" + vh::num(b) + ":");
    for (int h = 0; h < 5; ++h) for (int lay = 0; lay < 32; ++lay) for (int r = 0; r < n; ++r) emit(vh::num(h) + ":" + vh::num(lay) + ":" + vh::num(all) + ":" + vh::num(r) + "," + vh::num((r * 7 + lay) % n));
    for (int r = 0; r < n; ++r) for (unsigned b = 1; b <= all; ++b) { if (!th && (b * 3 + r) % 4) continue; emit("0:0:" + vh::num(b) + ":" + vh::num(r)); }
    for (int h = 0; h < 5; ++h) for (int r = 0; r < n; ++r) for (int q = 0; q < n; ++q) { for (unsigned b : {all, 0x3fu, 0x1c7u}) emit(vh::num(h) + ":0:" + vh::num(b) + ":" + vh::num(r) + "," + vh::num(q)); if (!th && h) continue; for (int s = 0; s < n; ++s) { if (!th && (r + q * 3 + s) % 2) continue; emit(vh::num(h) + ":0:" + vh::num(all) + ":" + vh::num(r) + "," + vh::num(q) + "," + vh::num(s)); } }
}
