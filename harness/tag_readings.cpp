// T02: positional tags of Morfologik are read attribute by attribute.
//
// A case is a sequence of pieces (indices into PIECES) joined with ':'.
#include "vh.hpp"
#include "morfologik_tags_parser.hpp"
#include <algorithm>

namespace {

typedef std::map<std::string, std::string> Desc;

struct Piece { const char* text; const char* attribute; };   // attribute "" = unknown
const Piece PIECES[] = {
    {"subst", "pos"}, {"verb", "pos"}, {"adj", "pos"}, {"sg", "number"}, {"nom.acc", "case"}, {"gen", "case"},
    {"m1.m2.f", "gender"}, {"n", "gender"}, {"imperf", "aspect"}, {"imperf.perf", "aspect"}, {"pri.ter", "person"},
    {"pact", "tense"}, {"inf", "tense"}, {"impt", "mode"}, {"depr", "depreciativity"}, {"sup", "degree"}, {"bzz", ""}, {"bzz.sg", ""},
    {"", ""}, {"sg.pl", "number"}, {"m", "gender"}, {"?perf", "aspect"}, {"adj.subst", "pos"}, {"fin.praet", "tense"}, {"pcon", "tense"},
    {"ppas", "tense"}, {"pant", "tense"}, {"pos", "degree"}, {"congr", "accommodability"}, {"wok", "vocalicity"}, {"_", "unknown"},
};
const size_t NP = sizeof PIECES / sizeof *PIECES;

std::vector<std::string> parts(const std::string& v) { return vh::split(v, '.'); }

Desc raw(const std::vector<size_t>& c) {        // the first piece of an attribute counts
    Desc d;
    for (size_t i : c) if (*PIECES[i].attribute) d.insert(std::make_pair(PIECES[i].attribute, PIECES[i].text));
    return d;
}

std::set<std::string> lexemeOnly(const std::string& pos) {
    std::set<std::string> s;
    if (pos == "subst") s.insert("gender");
    if (pos == "verb") s.insert("aspect");
    return s;
}

// every choice of one value for each attribute
std::vector<Desc> readings(const Desc& d) {
    std::vector<Desc> r(1);
    for (const auto& kv : d) {
        std::vector<Desc> n;
        for (const Desc& x : r) for (const std::string& v : parts(kv.second)) { n.push_back(x); n.back()[kv.first] = v; }
        r.swap(n);
    }
    return r;
}

std::string show(const Desc& d) {
    std::string r = "{";
    for (const auto& kv : d) r += kv.first + "=" + kv.second + " ";
    return r + "}";
}
std::string show(std::vector<Desc> v) {
    std::vector<std::string> s;
    for (const Desc& d : v) s.push_back(show(d));
    std::sort(s.begin(), s.end());
    std::string r;
    for (const std::string& x : s) r += x;
    return r;
}

}

void vh_enumerate(vh::Emit& emit) {
    size_t depth = vh::thorough() ? 4 : 3;
    std::vector<std::string> level(1);
    for (size_t l = 1; l <= depth; ++l) {
        std::vector<std::string> next;
        for (const std::string& p : level) for (size_t i = 0; i < NP; ++i) {
            if (l == 4 && i >= 22) continue;
            next.push_back(p + (p.empty() ? "" : ",") + vh::num(i));
        }
        for (const std::string& c : next) emit(c);
        level.swap(next);
    }
    // longer ones over fewer pieces: three attributes with alternatives at once
    const size_t few[] = {0, 1, 4, 6, 9, 10, 19, 16, 23};
    std::vector<std::string> lv(1);
    for (size_t l = 1; l <= (vh::thorough() ? 6u : 5u); ++l) {
        std::vector<std::string> next;
        for (const std::string& p : lv) for (size_t i : few) next.push_back(p + (p.empty() ? "" : ",") + vh::num(i));
        if (l > 3) for (const std::string& c : next) emit(c);
        lv.swap(next);
    }
}

void vh_run(const std::string& id) {
    std::vector<size_t> c;
    for (const std::string& x : vh::split(id, ',')) c.push_back(atoi(x.c_str()));
    std::string tag;
    for (size_t i = 0; i < c.size(); ++i) tag += (i ? ":" : "") + std::string(PIECES[c[i]].text);

    MorfologikTagsParser parser;
    const std::string before = tag;
    const Desc d = raw(c);

    // twice, in both orders: nothing is remembered between tags
    for (int round = 0; round < 2; ++round) {
        int counter = 0;
        Desc simple = parser.parseSimple(tag, counter);
        vh::expectEq(show(simple), show(d), "raw-attributes", "attributes of " + tag);

        std::vector<Desc> all = parser.parse(tag);
        vh::expectEq(show(all), show(readings(d)), "readings", "readings of " + tag);

        const std::string pos = d.count("pos") ? d.at("pos") : "";
        Desc form = d;
        form.erase("pos");
        for (const std::string& a : lexemeOnly(pos)) form.erase(a);
        std::vector<Desc> forms = parser.getFormAttributes(tag);
        vh::expectEq(show(forms), show(readings(form)), "form-attributes", "attributes of the form of " + tag);

        std::string lpos;
        for (const char* a : {"pos", "depreciativity", "tense", "mode"}) if (d.count(a)) { lpos = d.at(a); break; }
        if (lpos == "pact" || lpos == "pant" || lpos == "pcon" || lpos == "ppas") lpos = "verb";
        Desc lexeme;
        lexeme["pos"] = lpos;
        for (const std::string& a : lexemeOnly(lpos)) {
            std::string v = d.count(a) ? d.at(a) : "";
            std::replace(v.begin(), v.end(), '.', '-');
            lexeme[a] = v;
        }
        Desc lex = parser.getLexemeAttributes(tag);
        vh::expectEq(show(lex), show(lexeme), "lexeme-attributes", "attributes of the lexeme of " + tag);
        vh::expectEq(tag, before, "tag-changed", "the tag itself");
        if (!round) { vh::state(show(all)); vh::outcome(show(forms) + "/" + show(lex)); if (all.size() > 1) vh::nontrivial(); vh::sample(tag + " -> " + show(forms)); }
        vh::transitions(4);
    }
    vh::traces();
}
