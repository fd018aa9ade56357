// K04: tokenizer rule files mean what their directives say.
#include "vh.hpp"
#include "tp_basic_tokenizer_rule_set.hpp"
#include <fstream>
#include <unistd.h>
using std::string; using std::vector; using std::map;
struct Bad { string why; };
// the meaning of a rule file ----------------------------------------------------------------------------------------
struct Ref {
    vector<string> rules; map<string, string> defs; bool mainSeen = false, included = false; string inc;
    string expand(string s, int depth = 0) {
        if (depth > 12) throw Bad{"definition loop"};
        for (size_t i = 0; i < s.size();) {   // the longest defined name at each place
            string best; for (auto& d : defs) if (s.compare(i, d.first.size(), d.first) == 0 && d.first.size() > best.size()) best = d.first;
            if (best.empty()) { ++i; continue; }
            string v = expand(defs[best], depth + 1); s.replace(i, best.size(), v); i += v.size();
        }
        return s;
    }
    void run(const string& ids) {   // one letter per element
        struct If { bool outer, els; }; vector<If> st; bool on = true;
        for (char c : ids) {
            auto iff = [&](const string& n, bool want) { st.push_back({on, false}); if (on && (defs.count(n) > 0) != want) on = false; };
            auto def = [&](const string& n, const string& v) { if (on) defs.insert({n, v}); };
            auto rule = [&](const string& n, const string& cat, const string& p) { string x = expand(p), y; for (char ch : x) if (ch != '_') y += ch; if (on) rules.push_back(n + "/" + cat + " ^(" + y + ")"); };   // a loop is an error in a closed branch too
            switch (c) {
            case 'p': rule("pp", "P", "a+"); break;
            case 'q': rule("qq", "Q", "Xxb"); break;
            case 'r': rule("rr", "R", "Yy c\\.#@"); break;
            case 's': rule("ss", "S", string("s") + (defs.count("Zz") ? "" : "Zz")); if (defs.count("Zz") && on) rules.push_back("zz/Z ^(" + expand("zYy") + ")"); break;
            case 'h': rule("hh", "H", "(?i:Prof|e\\.g)\\.(?!\\p{L})h"); break;
            case 'x': def("Xx", "[xy]"); break;
            case 'y': def("Yy", "(?:Xx|y)"); break;
            case 'w': def("Xx", "w"); break;
            case 'z': def("Zz", "@"); break;
            case 'l': def("Yy", "Xx1"); break;
            case 'o': def("Xx", "Yy0"); break;
            case 'n': def("XxYy", "long"); break;
            case 'm': rule("mm", "M", "XxYy_Xx_Yy_Yy"); break;
            case 'i': iff("Xx", true); break; case 'j': iff("Xx", false); break; case 'k': iff("Yy", true); break;
            case 'e': if (st.empty() || st.back().els) throw Bad{"else"}; st.back().els = true; if (st.back().outer) on = !on; break;
            case 'f': if (st.empty()) throw Bad{"endif"}; if (st.back().outer) on = true; st.pop_back(); break;
            case 'I': if (on) { if (included) throw Bad{"include"}; included = true; run(inc); } break;
            case 'u': throw Bad{"unknown"};
            case 'A': if (on) throw Bad{"no rule name"}; break;
            case 'B': if (on) throw Bad{"no rule body"}; break;
            case 'C': if (on) throw Bad{"bad regex"}; break;
            case 'D': if (on) throw Bad{"no rule type"}; break;
            case 'E': if (on) throw Bad{"empty rule"}; break;
            case 'F': if (on) throw Bad{"here document"}; break;
            case 'G': if (on) throw Bad{"no such include"}; break;
            }
        }
        if (!st.empty()) throw Bad{"if not closed"};
    }
};
static string text(const string& ids) {
    static const map<char, string> T = {{'p', "@rule pp/P := a +\n"}, {'q', "@rule qq/Q := Xx\tb # a comment with @rule nn/N := n\n"}, {'r', "\t@rule rr/R := Yy\\ c\\. \\# \\@ #comment\n"}, {'s', "@rule ss/S := s\nZz\n"},
        {'h', "@rule hh/H := <<HERE h\nProf e\\.g\nHERE\n"}, {'x', "@def Xx [xy]\n"}, {'y', "@def Yy (?:Xx|y)\n# comment\n"}, {'w', "@def Xx w\n"}, {'z', "@def Zz \\@rule zz/Z := zYy\n"}, {'l', "@def Yy Xx1\n"}, {'o', "@def Xx Yy0\n"},
        {'n', "@def XxYy long\n"}, {'m', "@rule mm/M := XxYy Xx Yy  Yy\n"}, {'i', "@ifdef Xx\n"}, {'j', "@ifndef  Xx # why\n"}, {'k', "@ifdef Yy\n"}, {'e', "@else\n"}, {'f', "@endif\n"}, {'I', "@include \"inc\"\n"}, {'u', "@bogus x\n"},
        {'A', "@rule /P := a\n"}, {'B', "@rule pp/P\n"}, {'C', "@rule pp/P := (a\n"}, {'D', "@rule pp := a\n"}, {'E', "@rule pp/P :=  \n"}, {'F', "@rule pp/P := <<HERE\nabc\n"}, {'G', "@include \"nothere\"\n"}};
    string r; for (char c : ids) r += T.at(c); return r;
}
void vh_run(const string& id) {   // <main elements>:<included elements>
    size_t c = id.find(':'); string mainIds = id.substr(0, c), inc = id.substr(c + 1);
    Ref ref; ref.inc = inc; string bad;
    try { ref.run(mainIds); } catch (Bad& b) { bad = b.why; }
    { std::ofstream o("main.rgx"); o << "# a rule file\n\n@rule main_regex/main_regex := .\n" << text(mainIds); std::ofstream p("inc.rgx"); p << "\n" << text(inc); }
    map<string, string> paths; paths["main"] = "main.rgx"; paths["inc"] = "inc.rgx"; std::list<string> l(1, "main");
    TPBasicTokenizerRuleSet rs; string got; bool threw = false;
    try { rs.load(paths, l); } catch (TPTokenizerException& e) { threw = true; got = e.what(); }
    vh::transitions(mainIds.size() + inc.size()); vh::traces();
    if (!bad.empty() || threw) { vh::expect(threw, "accepted", "accepted in spite of: " + bad); vh::expect(!bad.empty(), "rejected", "rejected: " + got); vh::outcome("error " + bad); return; }
    string want; for (auto& r : ref.rules) want += r + "; ";
    for (size_t i = rs.getRegexCount(); i-- > 0;) got += rs.getRegexName(i) + "/" + rs.getRegexCategory(i) + " " + rs.getRegex(i)->pattern() + "; ";
    vh::expectEq(got, want, "rules", "the rules of " + text(mainIds)); vh::state(want); vh::outcome(want);
}
void vh_enumerate(vh::Emit& emit) {
    bool th = vh::thorough();
    auto seqs = [&](const string& al, size_t n, const vector<string>& incs) { vector<string> a; for (char c : al) a.push_back(string(1, c)); vh::strings(a, n, [&](const string& s) { for (auto& i : incs) if (i.empty() == (s.find('I') == string::npos)) emit(s + ":" + i); }); };
    vector<string> incs = {"", "p", "xq", "jyefr", "ipeqf", "i"};
    seqs("pqrshxywzlonmijkefIu", th ? 4 : 3, incs);
    seqs("pxjkefq", th ? 8 : 6, {""});
    seqs("pqijefI", th ? 6 : 5, {"", "x", "xpj", "jpeqf", "e", "f"});
    seqs("xywqrmn", th ? 7 : 5, {""});
    for (string pre : {"", "p", "x", "i", "j", "xi", "jpe"}) for (char b : string("uABCDEFG")) for (string post : {"", "p", "f", "pf"}) emit(pre + b + post + ":");
}
