// K02: a text is broken into sentences exactly where the SRX rules say.
#include "vh.hpp"
#include "lattice_dump.hpp"
#include "annotation_item_manager.hpp"
#include "srx_segmenter.hpp"
#include <pcre.h>
#include <fstream>
#include <memory>
#include <boost/property_tree/ptree.hpp>
#include <boost/property_tree/xml_parser.hpp>
using std::string; using std::vector; using std::map; using std::set;
static string repo() { return getenv("VERIF_REPO"); }
struct Rule { bool brk; string before, after; };
static const vector<Rule> MENU = {
    {true, "\\.", " "}, {true, "[.!]+", "\\s"}, {true, "", "\\n"}, {true, "\\.", ""}, {true, "! ", "A"}, {true, "(a|aa)", "(\\.)"},
    {false, "A\\.", " "}, {false, "\\ba\\.", ""}, {false, "^\\s*a\\.", "\\s"}, {false, "\\. ", "A"}, {false, "\xc5\xbc", "."}, {false, "", "\\.\\."}, {false, "a[^a]", "[^\\x00-\\x7f]"}, {true, "\xc5\xbc", "\xc5\xbc"},
};
static string xml(const string& s) { string r; for (char c : s) r += c == '<' ? "&lt;" : c == '&' ? "&amp;" : string(1, c); return r; }
struct CR { bool brk; pcre* at; };
static pcre* comp(const string& s) { const char* e; int at; pcre* p = pcre_compile(s.c_str(), PCRE_UTF8, &e, &at, 0); if (!p) throw vh::InternalError("pattern " + s + ": " + e); return p; }
static vector<CR> compileRules(const vector<Rule>& rs) { vector<CR> r; for (auto& x : rs) r.push_back({x.brk, comp("(?:" + x.before + ")(?=" + x.after + ")")}); return r; }
static size_t clen(unsigned char c) { return c < 0x80 ? 1 : c < 0xe0 ? 2 : c < 0xf0 ? 3 : 4; }
// where rules apply: a rule applies at p iff some text ending at p matches `before' and a text beginning at p matches `after'
static set<size_t> breaks(const vector<CR>& rs, const string& t) {
    map<size_t, bool> first;
    for (auto& r : rs) {
        set<size_t> here;
        for (size_t s = 0; s <= t.size(); s += s < t.size() ? clen(t[s]) : 1) {
            int ov[200], ws[2000]; int n = pcre_dfa_exec(r.at, 0, t.data(), t.size(), s, PCRE_ANCHORED, ov, 200, ws, 2000);
            if (n < -1) throw vh::InternalError("pcre_dfa_exec " + vh::num(n)); if (n == 0) n = 100;
            for (int i = 0; i < n; ++i) here.insert(ov[2 * i + 1]);
        }
        for (size_t p : here) first.insert({p, r.brk});
    }
    set<size_t> b; for (auto& f : first) if (f.second && f.first > 0 && f.first < t.size()) b.insert(f.first);
    return b;
}
static string lettersToRules(const string& s, vector<Rule>& rs) { for (char c : s) rs.push_back(MENU.at(c - 'a')); return s; }
static string body(const vector<Rule>& rs) { string r; for (auto& x : rs) r += string("<rule break=\"") + (x.brk ? "yes" : "no") + "\"><beforebreak>" + xml(x.before) + "</beforebreak><afterbreak>" + xml(x.after) + "</afterbreak></rule>\n"; return r; }
struct Set { string path, lang; bool force; vector<CR> rules; std::unique_ptr<SrxSegmenter> seg; };
static map<string, std::unique_ptr<Set> > SETS;
static Set& get(const string& key, size_t hard, size_t soft) {
    auto& p = SETS[key + "/" + vh::num(hard) + "," + vh::num(soft)]; if (p) return *p;
    if (SETS.size() > 3000) SETS.clear();
    auto& q = SETS[key + "/" + vh::num(hard) + "," + vh::num(soft)]; q.reset(new Set); Set& s = *q; s.lang = "pl"; s.force = false;
    static int n = 0;
    if (key[0] == '@') {   // real rules, read here from the XML
        s.lang = key.substr(1); s.path = repo() + "/tools/segmenters/srx/data/" + s.lang + "/segmentation.srx";
        boost::property_tree::ptree pt; boost::property_tree::read_xml(s.path, pt); vector<Rule> rs;
        for (auto& l : pt.get_child("srx.body.languagerules")) if (l.first == "languagerule" && l.second.get<string>("<xmlattr>.languagerulename") == s.lang)
            for (auto& r : l.second) if (r.first == "rule") rs.push_back({r.second.get<string>("<xmlattr>.break") == "yes", r.second.get<string>("beforebreak"), r.second.get<string>("afterbreak")});
        if (rs.empty()) throw vh::InternalError("no rules in " + s.path);
        s.rules = compileRules(rs);
    } else if (key[0] == '!') {   // which language rules are chosen:  !<force><cascade><version>;<map>;<map>
        auto f = vh::split(key, ';'); bool cascade = f[0][2] == '1'; s.force = f[0][1] == '1'; int ver = f[0][3] - '0';
        vector<Rule> all[3] = {{MENU[0]}, {MENU[6]}, {MENU[2]}}; const char* names[3] = {"x", "y", "z"};
        std::ostringstream o; o << "<?xml version=\"1.0\"?>\n<srx version=\"" << ver << ".0\"><header segmentsubflows=\"yes\"" << (f[0][2] == '2' ? "" : cascade ? " cascade=\"yes\"" : " cascade=\"no\"") << "></header><body><languagerules>";
        for (int i : {1, 0, 2}) o << "<languagerule languagerulename=\"" << names[i] << "\">" << body(all[i]) << "</languagerule>";
        o << "</languagerules><maprules>"; if (ver == 1) o << "<maprule maprulename=\"m\">";
        set<string> chosen; bool stop = false;
        for (size_t i = 1; i < f.size(); ++i) {   // pattern letter + rule name:  p = "pl", e = "en", a = ".*", s = "p", t = "[pP][lL].*"
            map<char, string> pats = {{'p', "pl"}, {'e', "en"}, {'a', ".*"}, {'s', "p"}, {'t', "[pP][lL].*"}}; char c = f[i][0];
            o << "<languagemap languagepattern=\"" << pats[c] << "\" languagerulename=\"" << f[i][1] << "\"/>";
            if (!stop && (c == 'p' || c == 'a' || c == 't')) { chosen.insert(f[i].substr(1)); if (!cascade && !s.force) stop = true; }
        }
        if (ver == 1) o << "</maprule>"; o << "</maprules></body></srx>\n";
        s.path = "rules" + vh::num(++n) + ".srx"; std::ofstream of(s.path.c_str()); of << o.str(); of.close();
        vector<Rule> rs; for (int i : {1, 0, 2}) if (chosen.count(names[i])) rs.insert(rs.end(), all[i].begin(), all[i].end());
        s.rules = compileRules(rs);
    } else {
        vector<Rule> rs; lettersToRules(key, rs);
        s.path = "rules" + vh::num(++n) + ".srx"; std::ofstream o(s.path.c_str());
        o << "<?xml version=\"1.0\"?>\n<srx version=\"1.0\"><header segmentsubflows=\"yes\"></header><body><languagerules><languagerule languagerulename=\"pl\">\n" << body(rs) << "</languagerule></languagerules><maprules><maprule maprulename=\"m\"><languagemap languagepattern=\".*\" languagerulename=\"pl\"/></maprule></maprules></body></srx>\n"; o.close();
        s.rules = compileRules(rs);
    }
    s.seg.reset(new SrxSegmenter(s.lang, s.path, hard, soft, s.force));
    if (s.path[0] == 'r') unlink(s.path.c_str());
    return s;
}
void vh_run(const string& id) {   // <rules>/<hard>,<soft>/<layout>/<text>
    size_t a = id.find('/'), b = id.find('/', a + 1), c = id.find('/', b + 1); string key = id.substr(0, a), text = id.substr(c + 1); int layout = atoi(id.c_str() + b + 1);
    size_t hard = atoi(id.c_str() + a + 1), soft = atoi(id.c_str() + id.find(',', a) + 1);
    Set& s = get(key, hard, soft); AnnotationItemManager aim; Lattice lat(aim); lat.appendStringWithSymbols(text);
    vector<std::pair<size_t, size_t> > regions = {{0, text.size()}};
    if (layout) { size_t m = text.size() / 2; while ((text[m] & 0xc0) == 0x80) --m; regions = {{0, m}, {m, text.size()}}; }
    LayerTagCollection tt = lat.getLayerTagManager().createTagCollectionFromListWithLangCode(std::list<string>(1, "text"), s.lang);
    std::ostringstream want, got;
    for (auto& g : regions) {
        if (g.first == g.second) continue; string t = text.substr(g.first, g.second - g.first);
        lat.addEdge(g.first, g.second, AnnotationItem("TEXT", StringFrag(t)), tt);
        set<size_t> br = breaks(s.rules, t); br.insert(t.size()); size_t at = 0;
        for (size_t p : br) {
            while (at < p) {   // limits
                size_t e = p;
                if (soft && p - at >= soft) for (size_t i = at + soft; i < p; ++i) if (t[i] == ' ') { e = i; break; }
                if (hard && e - at > hard) { e = at + hard; while ((t[e] & 0xc0) == 0x80) --e; }
                want << g.first + at << "-" << g.first + e << " `" << t.substr(at, e - at) << "'; "; at = e;
            }
        }
    }
    s.seg->annotate(lat); vh::transitions(text.size()); vh::traces();
    Lattice::EdgesSortedBySourceIterator it = lat.edgesSortedBySource(lat.getLayerTagManager().getMask("segment"));
    while (it.hasNext()) {
        Lattice::EdgeDescriptor e = it.next(); got << lat.getEdgeBeginIndex(e) << "-" << lat.getEdgeEndIndex(e) << " `" << lat.getAnnotationText(e) << "'; ";
        auto tags = ld::tagSet(lat, lat.getEdgeLayerTags(e)); vh::expect(tags.count("segment") && tags.count("!" + s.lang), "tags", "the layer tags of a segment");
    }
    vh::expectEq(got.str(), want.str(), "segments", "segments of `" + text + "'"); vh::state(want.str()); vh::outcome(key + want.str());
}
void vh_enumerate(vh::Emit& emit) {
    bool th = vh::thorough(); int n = MENU.size();
    vector<string> al = {"a", "A", ".", " ", "!", "\xc5\xbc", "\n"};
    for (int i = 0; i < n; ++i) vh::strings(al, th ? 5 : 4, [&](const string& t) { emit(string(1, 'a' + i) + "/0,0/0/" + t); }, 1);
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (i != j) vh::strings(al, th ? 4 : 3, [&](const string& t) { emit(string(1, 'a' + i) + string(1, 'a' + j) + "/0,0/0/" + t); }, 1);
    vector<string> texts; vh::strings({"a. ", "A", "! ", ".", "\xc5\xbc", "a"}, th ? 6 : 4, [&](const string& t) { texts.push_back(t); }, 2);
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) for (int k = 0; k < n; ++k) if (i != j && i != k && j != k) vh::strings({"a. ", "A", ".", "\xc5\xbc"}, th ? 4 : 3, [&](const string& t) { emit(string() + char('a' + i) + char('a' + j) + char('a' + k) + "/0,0/0/" + t); }, 2);
    for (string r : {"a", "b", "ha", "jba", "gcb"}) for (string l : {"4,0", "5,2", "0,1", "0,3", "7,7", "0,0"}) for (int lay = 0; lay < 2; ++lay) for (auto& t : texts) emit(r + "/" + l + "/" + vh::num(lay) + "/" + t);
    // choice of language rules
    for (int force = 0; force < 2; ++force) for (int casc = 0; casc < 3; ++casc) for (int ver = 1; ver <= 2; ++ver) for (string m1 : {"px", "ax", "ey", "sx", "ty", "az"}) for (string m2 : {"", "ay", "pz", "ex", "ty"}) for (string m3 : {"", "az", "px"})
        for (string t : {"A. a. b\nA. ", "a. A.\n. "}) { string k = "!" + vh::num(force) + vh::num(casc) + vh::num(ver) + ";" + m1; if (!m2.empty()) k += ";" + m2; if (!m3.empty()) k += ";" + m3; emit(k + "/0,0/0/" + t); }
    // real rules
    vector<string> words = {"Ala", "ma. ", "Mr. ", "np. ", "kota ", "1. ", "A. ", "\xc5\xbb" "e ", "! ", "? ", "prof. ", "stop. ", "U.S. ", "\n", ".[1] ", "e.g. ", "inc. ", "a. "};
    for (string l : {"@pl", "@en", "@de", "@fr", "@xx"}) vh::strings(words, th ? 5 : 3, [&](const string& t) { emit(l + "/0,0/0/" + t + "Tak"); }, 1);
}
