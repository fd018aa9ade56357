// K01: tokens tile the text they are cut from, follow the rules in their order, and respect the length limits.
#include "vh.hpp"
#include "lattice_dump.hpp"
#include "annotation_item_manager.hpp"
#include "tp_tokenizer.hpp"
#include <pcre.h>
#include <fstream>
#include <memory>
using std::string; using std::vector; using std::map;
static string repo() { return getenv("VERIF_REPO"); }
struct Rule { string name, cat, re; };
// rule sets written here (the last rule of a file is tried first) ...
static const vector<vector<Rule> > OWN = {
    {{"wordy", "T", "[a-zA-Z\xc5\xbc]+"}, {"space", "B", "\\s"}, {"punct", "I", "\\p{P}"}},
    {{"any", "T", "(?s)."}, {"word2", "T", "[a-z]{2}"}, {"abbr", "X", "a\\.(?!\\p{L})"}, {"blanks", "B", "[\\s]+"}, {"euro", "E", "\xe2\x82\xac+"}},
    {{"starry", "T", "a*"}, {"opt", "B", "(?:\\s)?"}, {"dots", "I", "\\.+"}},
    {{"long", "L", "(?s).*"}},
    {{"look", "T", "a(?=\\.)"}, {"alts", "X", "a|aA|aA\\."}, {"caps", "U", "[[:upper:]]+"}, {"nonasc", "N", "[^\\x00-\\x7f]+"}},
    {},
};
struct Tok { std::unique_ptr<TpTokenizer> t; };
struct RS { string path; map<string, boost::filesystem::path> mapping; vector<std::pair<pcre*, string> > rules; vector<string> names; };
static RS& rs(int k) {
    static map<int, RS> all; auto f = all.find(k); if (f != all.end()) return f->second;
    RS& r = all[k];
    TPBasicTokenizerRuleSet own; vector<Rule> list;
    if (k < (int)OWN.size()) {
        r.path = "rules" + vh::num(k) + ".rgx"; std::ofstream o(r.path.c_str());
        o << "\n@rule main_regex/main_regex := .\n"; for (auto& x : OWN[k]) o << "\n@rule " << x.name << "/" << x.cat << " := " << x.re << "\n"; o.close();
        list = OWN[k]; std::reverse(list.begin(), list.end());
    } else {   // ... and the real ones, whose loaded patterns are taken as they are
        string lang = k == 10 ? "pl" : k == 11 ? "en" : "de", d = repo() + "/tools/tokenizers/tp/data/";
        r.path = d + lang + "/" + lang + ".rgx"; r.mapping["common"] = d + "common.rgx"; r.mapping["abbrev_" + lang] = d + lang + "/abbrev.rgx";
        map<string, string> pm; for (auto& m : r.mapping) pm[m.first] = m.second.string(); pm["main"] = r.path; std::list<string> l(1, "main"); own.load(pm, l);
        for (size_t i = 0; i < own.getRegexCount(); ++i) list.push_back({own.getRegexName(i), own.getRegexCategory(i), own.getRegex(i)->pattern()});
    }
    for (auto& x : list) { const char* e; int at; pcre* p = pcre_compile(x.re.c_str(), PCRE_UTF8, &e, &at, 0); if (!p) throw vh::InternalError("pattern " + x.re + ": " + e); r.rules.push_back({p, x.cat}); r.names.push_back(x.name); }
    return r;
}
static size_t clen(unsigned char c) { return c < 0x80 ? 1 : c < 0xe0 ? 2 : c < 0xf0 ? 3 : 4; }
struct P { size_t b, e; string cat; bool operator==(const P& o) const { return b == o.b && e == o.e && cat == o.cat; } };
static bool reference(RS& r, const string& text, size_t hard, size_t soft, vector<P>& out) {
    size_t pos = 0;
    while (pos < text.size()) {
        size_t len = 0; string cat; int ov[60];
        for (auto& x : r.rules) { int n = pcre_exec(x.first, 0, text.data() + pos, text.size() - pos, 0, PCRE_ANCHORED, ov, 60); if (n > 0 && ov[1] > 0) { len = ov[1]; cat = x.second; break; } }
        if (!len) { len = clen(text[pos]); cat = "X"; }
        size_t end = pos + len;
        while (pos < end) {
            size_t e = end;
            if (soft && end - pos >= soft) for (size_t i = pos + soft; i < end; ++i) if (text[i] == ' ') { e = i; break; }
            if (hard && e - pos > hard) { size_t h = pos + hard; while (h > pos && (text[h] & 0xc0) == 0x80) --h; if (h == pos) return false; e = h; }
            out.push_back({pos, e, cat}); pos = e;
        }
    }
    return true;
}
void vh_run(const string& id) {   // <rules>:<hard>,<soft>:<layout>:<text>
    size_t a = id.find(':'), c = id.find(','), b = id.find(':', a + 1), d = id.find(':', b + 1);
    int k = atoi(id.c_str()); size_t hard = atoi(id.c_str() + a + 1), soft = atoi(id.c_str() + c + 1); int layout = atoi(id.c_str() + b + 1); string text = id.substr(d + 1);
    RS& r = rs(k); static map<string, std::unique_ptr<TpTokenizer> > toks; string tk = id.substr(0, b);
    string lang = k == 11 ? "en" : k == 12 ? "de" : "pl";
    auto& t = toks[tk]; if (!t) t.reset(new TpTokenizer(lang, r.path, r.mapping, hard, soft));
    // the text edges: everything; two halves; two halves with a markup between; a part of the text only
    vector<string> parts; vector<std::pair<size_t, size_t> > regions; AnnotationItemManager aim; Lattice lat(aim);
    vector<size_t> bd; for (size_t i = 0; i <= text.size(); i += i < text.size() ? clen(text[i]) : 1) bd.push_back(i);
    size_t mid = bd[bd.size() / 2];
    if (layout == 0) { lat.appendStringWithSymbols(text); regions = {{0, text.size()}}; }
    else if (layout == 1) { lat.appendStringWithSymbols(text); regions = {{0, mid}, {mid, text.size()}}; }
    else if (layout == 2) { lat.appendStringWithSymbols(text.substr(0, mid)); lat.appendString("<p>"); lat.appendStringWithSymbols(text.substr(mid)); regions = {{0, mid}, {mid + 3, text.size() + 3}}; }
    else { lat.appendStringWithSymbols(text); regions = {{mid, text.size()}}; }
    LayerTagCollection tt = lat.getLayerTagManager().createTagCollectionFromListWithLangCode(std::list<string>(1, "text"), lang);
    string all = lat.getAllText(), want;
    std::ostringstream o; bool ok = true;
    for (auto& g : regions) {
        if (g.first == g.second) continue;
        lat.addEdge(g.first, g.second, AnnotationItem("TEXT", StringFrag(all, g.first, g.second - g.first)), tt);
        vector<P> ps; ok = reference(r, all.substr(g.first, g.second - g.first), hard, soft, ps) && ok;
        for (auto& p : ps) o << g.first + p.b << "-" << g.first + p.e << " " << p.cat << " `" << all.substr(g.first + p.b, p.e - p.b) << "' sym" << "; ";
    }
    want = o.str(); bool threw = false;
    try { t->annotate(lat); } catch (Cutter::Exception&) { threw = true; }
    vh::transitions(text.size()); vh::traces();
    if (!ok || threw) { vh::expectEq(threw, !ok, "limit-exception", "whether a character does not fit in the hard limit"); return; }
    std::ostringstream g; Lattice::EdgesSortedBySourceIterator it = lat.edgesSortedBySource(lat.getLayerTagManager().getMask("token"));
    while (it.hasNext()) {
        Lattice::EdgeDescriptor e = it.next(); size_t x = lat.getEdgeBeginIndex(e), y = lat.getEdgeEndIndex(e);
        g << x << "-" << y << " " << lat.getAnnotationCategory(e) << " `" << lat.getAnnotationText(e) << "'";
        auto pl = lat.getEdgePartitions(e); bool sym = pl.size() == 1; size_t at = x;
        if (sym) { Lattice::Partition::Iterator pi(lat, pl.front()); while (pi.hasNext()) { Lattice::EdgeDescriptor s = pi.next(); if (lat.getEdgeBeginIndex(s) != at) sym = false; at = lat.getEdgeEndIndex(s); } }
        g << (sym && at == y ? " sym" : " not made of its symbols") << "; ";
        auto tags = ld::tagSet(lat, lat.getEdgeLayerTags(e)); vh::expect(tags.count("token") && tags.count("!" + lang), "tags", "the layer tags of a token");
    }
    vh::expectEq(g.str(), want, "tokens", "tokens of `" + text + "'");
    vh::expectEq(lat.getAllText(), all, "text", "the text of the lattice");
    vh::state(want); vh::outcome(want);
}
void vh_enumerate(vh::Emit& emit) {
    bool th = vh::thorough();
    vector<string> lim = {"0,0", "1,0", "2,0", "3,0", "4,0", "0,1", "0,2", "0,3", "2,1", "3,2", "4,3", "5,2", "2,4", "3,3"};
    auto go = [&](int k, const vector<string>& al, int n, bool limits) { vh::strings(al, n, [&](const string& s) {
        for (auto& l : lim) { if (!limits && l != "0,0" && l != "3,2") continue; for (int lay = 0; lay < 4; ++lay) { if (lay && l != "0,0" && l != "3,2") continue; emit(vh::num(k) + ":" + l + ":" + vh::num(lay) + ":" + s); } } }, 1); };
    for (int k = 0; k < (int)OWN.size(); ++k) go(k, {"a", "A", "\xc5\xbc", " ", ".", "\xe2\x82\xac"}, th ? 5 : 4, true);
    go(3, {"a", "\xe2\x82\xac", " "}, th ? 9 : 7, true);
    for (int k = 10; k <= 12; ++k) go(k, {"a", "\xc5\xbb", " ", ".", "1", "-", "@", "\n", "\xe2\x80\x94", "\xf0\x9f\x98\x80"}, th ? 4 : 3, false);
    for (int k = 10; k <= 12; ++k) for (string s : {"Jan Kowalski (ur. 12.03.1999 r.) zap\xc5\x82" "aci\xc5\x82 1 200,50 z\xc5\x82, tj. 15% ceny.", "See http://a.b/c?d=e, mail x@y.org; tel. 12 345-67-89.", "A\xe2\x80\xa6 \xe2\x80\x9e" "b\xe2\x80\x9d \xc2\xa0 c-d", "bezspacjibezspacjibezspacji i spacja"})
        for (int h = 0; h <= 40; ++h) for (int so = 0; so <= 12; so += 3) { if (h && h < 4) continue; emit(vh::num(k) + ":" + vh::num(h) + "," + vh::num(so) + ":" + vh::num(h % 4) + ":" + s); }
}
