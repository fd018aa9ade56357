// F05: the apertium reader cuts a marked-up text exactly where the rules of its format file say.
#include "vh.hpp"
#include "lattice.hpp"
#include "annotation_item_manager.hpp"
#include "apertium_lattice_reader.hpp"
#include <boost/program_options.hpp>
#include <fstream>
#include <sstream>
#include <memory>
#include <functional>
#include <map>
#include <set>
using std::string; using std::vector; using std::map; using std::pair;
#include "file_extractor.hpp"
// --- an archive in place of the extractor's
static string archive; static map<string, string> archived; static string extracted;
FileExtractor::FileExtractor() {}
map<string, string> FileExtractor::extractFilesFromData(const string& data, const string& re) { extracted = re; if (data != archive) throw std::runtime_error("the extractor was given other data"); return archived; }
// --- what a rule of the format file matches at a place: its end, or -1
typedef std::function<int(const string&, int)> Match;
static char low(char c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
static int lit(const string& s, int p, const string& l, bool nocase) { if (p + l.size() > s.size()) return -1; for (size_t i = 0; i < l.size(); ++i) if (nocase ? low(s[p + i]) != low(l[i]) : s[p + i] != l[i]) return -1; return p + l.size(); }
static bool blank(char c) { return c == ' ' || c == '\n' || c == '\t' || c == '\r' || c == '\f' || c == '\v'; }
static int attrs(const string& s, int p) { if (p < 0) return -1; if (p < (int)s.size() && s[p] == ' ') { int q = p; while (q < (int)s.size() && s[q] != '>') ++q; if (q < (int)s.size()) return q + 1; } return p < (int)s.size() && s[p] == '>' ? p + 1 : -1; }   // (" "[^>]*)?">"
static int tagAt(const string& s, int p, const string& open, bool nc) { return attrs(s, lit(s, p, open, nc)); }
static int anyTag(const string& s, int p, const string& open, bool nc) { p = lit(s, p, open, nc); if (p < 0 || p >= (int)s.size() || !isalpha((unsigned char)s[p]) || (!nc && !(low(s[p]) == s[p]))) return -1; for (int q = p + 1; q < (int)s.size(); ++q) if (s[q] == '>') return q + 1; return -1; }
static int lazily(const string& s, int p, const std::function<int(int)>& end) { if (p < 0) return -1; for (int q = p; q <= (int)s.size(); ++q) { int e = end(q); if (e >= 0) return e; } return -1; }
struct Rule { string xml; std::function<int(const string&, int, bool)> match; bool blanksInside = true; };
static string X(const string& s) { string r; for (char c : s) r += c == '<' ? string("&lt;") : c == '&' ? string("&amp;") : c == '>' ? string("&gt;") : string(1, c); return r; }
static string between(const string& b, const string& e) { return "<begin regexp='" + X(b) + "'/><end regexp='" + X(e) + "'/>"; }
static string tag(const string& t) { return "<tag regexp='" + X(t) + "'/>"; }
static const vector<Rule>& MENU() {
    static vector<Rule> m = {
        {between("\"<!--\"", "\"-->\""), [](const string& s, int p, bool nc) { return lazily(s, lit(s, p, "<!--", nc), [&](int q) { return lit(s, q, "-->", nc); }); }},
        {between("\"<s\"(\" \"[^>]*)?\">\"", "\"</s\"(\" \"[^>]*)?\">\""), [](const string& s, int p, bool nc) { return lazily(s, tagAt(s, p, "<s", nc), [&](int q) { return tagAt(s, q, "</s", nc); }); }},
        {tag("\"<p\"(\" \"[^>]*)?\">\"|\"<q\"(\" \"[^>]*)?\">\""), [](const string& s, int p, bool nc) { int e = tagAt(s, p, "<p", nc); return e >= 0 ? e : tagAt(s, p, "<q", nc); }},
        {tag("\"<\"[a-z][^>]*\">\""), [](const string& s, int p, bool nc) { return anyTag(s, p, "<", nc); }},
        {tag("\"</\"[a-z][^>]*\">\""), [](const string& s, int p, bool nc) { return anyTag(s, p, "</", nc); }},
        {tag("\"<b>\"") + tag("\"</b>\""), [](const string& s, int p, bool nc) { int e = lit(s, p, "<b>", nc); return e >= 0 ? e : lit(s, p, "</b>", nc); }},
        {tag("\\(\"x\"\"y\"?(?:z)\\)"), [](const string& s, int p, bool nc) { int e = lit(s, p, "(x", nc); if (e < 0) return -1; int f = lit(s, e, "y", nc); if (f < 0) f = e; return lit(s, f, "z)", nc); }},
        {between("\"(\\\"\"", "\"\\\")\""), [](const string&, int, bool) { return -1; }},   // replaced below
    };
    m[7] = {between("\\(\\\"", "\\\"\\)"), [](const string& s, int p, bool nc) { return lazily(s, lit(s, p, "(\"", nc), [&](int q) { return lit(s, q, "\")", nc); }); }};
    return m;
}
struct Cut { int from, to, rule; };
// leftmost first, then in the order of the rules; blanks before and tabs after go with the markup
static vector<Cut> cuts(const string& s, const vector<pair<int, Match> >& rules) {
    vector<Cut> r; int pos = 0; while (pos < (int)s.size()) { bool found = false; for (auto& x : rules) { int p = pos; while (true) { int e = x.second(s, p); if (e > 0) { while (e < (int)s.size() && s[e] == '\t') ++e; r.push_back({pos, e, x.first}); pos = e; found = true; break; } if (p < (int)s.size() && blank(s[p])) ++p; else break; } if (found) break; } if (!found) ++pos; } return r;
}
static string lines(const string& s) { vector<string> v = vh::split(s, '\n'); string r; bool first = true; for (size_t i = 0; i < v.size(); ++i) { bool b = true; for (char c : v[i]) if (!blank(c)) b = false; if (b) continue; if (!first) r += "\n"; first = false; r += v[i]; } return r; }
// --- the format file
struct Dir { string d; vector<string> fs; Dir() { char t[] = "/tmp/vh_apertium_XXXXXX"; if (!mkdtemp(t)) throw vh::InternalError("mkdtemp"); d = t; } ~Dir() { for (auto& f : fs) unlink(f.c_str()); rmdir(d.c_str()); } };
static string file(const string& body) { static Dir d; static map<string, string> known; auto& f = known[body]; if (f.empty()) { f = d.d + "/" + vh::num(known.size()) + ".xml"; d.fs.push_back(f); std::ofstream o(f.c_str()); o << body; } return f; }
static string format(bool cased, const vector<string>& rules, const string& replacements, const string& compressed = "no") {
    string r = "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<format name=\"t\"><options><largeblocks size=\"8192\"/><input encoding=\"UTF-8\"/><output encoding=\"UTF-8\"/><tag-name regexp='[a-z]+'/><escape-chars regexp='[x]'/><space-chars regexp='[ ]'/><case-sensitive value=\"" + string(cased ? "yes" : "no") + "\"/><compressed value=\"" + compressed + "\" regexp='doc/.*[.]xml'/></options><rules>\n";
    for (auto& x : rules) r += x + "\n"; return r + replacements + "</rules></format>\n";
}
static string rule(int n, int priority, const string& body) { return "<format-rule type=\"t" + vh::num(n) + (n % 3 == 1 ? "X" : "") + "\" eos=\"" + (n % 2 ? "yes" : "no") + "\" priority=\"" + vh::num(priority) + "\">" + body + "</format-rule>"; }
static string upper(string s) { for (char& c : s) if (c >= 'a' && c <= 'z') c -= 32; return s; }
static void check(const string& path, const string& input, bool keep, const string& text, const vector<pair<int, Match> >& rules, const string& key, bool unzip = true) {
    vector<Cut> c = cuts(text, rules); string want; int pos = 0; vector<string> es; string lat;
    auto frag = [&](int a, int b) { if (a == b) return; size_t at = lat.size(); lat += text.substr(a, b - a); es.push_back(vh::num(at) + "-" + vh::num(lat.size()) + " FRAG " + text.substr(a, b - a) + " {} apertium-reader,frag"); };
    for (auto& x : c) { frag(pos, x.from); pos = x.to; if (!keep) continue; size_t at = lat.size(); string t = text.substr(x.from, x.to - x.from); lat += t; es.push_back(vh::num(at) + "-" + vh::num(lat.size()) + " " + upper("t" + vh::num(x.rule) + (x.rule % 3 == 1 ? "X" : "")) + "-TAG " + t + " {eos=" + (x.rule % 2 ? "yes" : "no") + "} apertium-reader,tag"); }
    frag(pos, text.size()); std::multiset<string> ws(es.begin(), es.end()); want = "text " + lat + "\n"; for (auto& x : ws) want += x + "\n"; if (c.empty()) want = "no rule";
    string got; AnnotationItemManager aim; Lattice l(aim); std::istringstream in(input); ApertiumLatticeReader::Factory f; auto d = f.optionsHandled(); boost::program_options::variables_map vm; vector<string> args = {"--specification-file", path}; if (keep) args.push_back("--keep-tags"); if (!unzip) { args.push_back("--unzip-data"); args.push_back("false"); }
    boost::program_options::store(boost::program_options::command_line_parser(args).options(d).run(), vm); boost::program_options::notify(vm);
    try {
        std::unique_ptr<LatticeReader<std::istream> > r(f.createLatticeReader(vm)); r->readIntoLattice(in, l); got = "text " + l.getAllText() + "\n"; std::multiset<string> gs; auto it = l.edgesSortedBySource(l.getLayerTagManager().getMask("apertium-reader")); AnnotationItemManager& m = l.getAnnotationItemManager();
        while (it.hasNext()) { auto e = it.next(); string s = vh::num(l.getEdgeSource(e)) + "-" + vh::num(l.getEdgeTarget(e)) + " " + l.getAnnotationCategory(e) + " " + l.getAnnotationText(e) + " {"; for (auto& x : m.getValues(l.getEdgeAnnotationItem(e))) s += x.first + "=" + x.second; s += "} "; std::set<string> ts; LayerTagCollection tc = l.getEdgeLayerTags(e); for (auto& t : l.getLayerTagManager().getTagNames(tc)) ts.insert(t); string j; for (auto& t : ts) j += (j.empty() ? "" : ",") + t; gs.insert(s + j); }
        for (auto& x : gs) got += x + "\n"; int n = 0, sym = 0; auto all = l.allEdgesSortedBySource(); while (all.hasNext()) { auto e = all.next(); ++n; LayerTagCollection tc = l.getEdgeLayerTags(e); if (l.getLayerTagManager().isThere("symbol", tc)) ++sym; } size_t chars = 0; for (unsigned char ch : lat) chars += (ch & 0xc0) != 0x80; vh::expect(n == (int)(gs.size() + chars) && sym == (int)chars, key, "edges other than symbols, fragments and tags");
    } catch (const ApertiumDeformatter::ApertiumException&) { got = "no rule"; }
    vh::expectEq(got, want, key, "what was read from [" + input + "]"); vh::outcome(got); vh::state(got); vh::transitions(ws.size()); vh::traces();
}
static const char* PIECES[] = {"a", " ", "\n", "<p>", "<b>", "</b>", "<s x=\"1\">", "</s>", "<!--", "-->", "\t", "ą", "<P>", "(xz)", "(xyz)", "(\"", "\")", "<q y>", "</", "<", ">", "<S>", "(x"};
static string text(const string& q) { string t; for (char c : q) t += PIECES[c - 'a']; return t; }
static void markup(const string& spec, const string& q, int opt) {
    bool cased = opt & 1, keep = opt & 2; vector<string> xml; vector<std::tuple<int, int, int> > order; auto v = vh::split(spec, ','); for (size_t i = 0; i < v.size(); ++i) { int m = v[i][0] - '0', pr = v[i][1] - '0'; xml.push_back(rule(i, pr, MENU()[m].xml)); order.push_back(std::make_tuple(pr, (int)i, m)); }
    std::sort(order.begin(), order.end()); vector<pair<int, Match> > rules; for (auto& o : order) { auto f = MENU()[std::get<2>(o)].match; bool nc = !cased; rules.push_back({std::get<1>(o), [f, nc](const string& s, int p) { return f(s, p, nc); }}); }
    string t = text(q); check(file(format(cased, xml, "")), t, keep, lines(t), rules, "markup");
}
// many rules: rule i is {i} (or, for some, anything in braces), in one or many priorities
static void many(int n, int prios, int generic, int a, int b) {
    vector<string> xml; vector<std::tuple<int, int> > order; map<int, Match> ms; for (int i = 0; i < n; ++i) { int pr = prios == 0 ? 1 : prios == 1 ? i : prios == 2 ? n - i : i % 3; bool g = (generic & 1 && i == 0) || (generic & 2 && i == n / 2) || (generic & 4 && i == n - 1); string l = "{" + vh::num(i) + "}"; xml.push_back(rule(i, pr, g ? tag("\"\\{\"[0-9]+\"\\}\"") : i % 4 == 3 ? between("\"\\{" + vh::num(i) + "\"", "\"\\}\"") : tag("\"\\{" + vh::num(i) + "\\}\""))); order.push_back(std::make_tuple(pr, i));
        if (g) ms[i] = [](const string& s, int p) { p = lit(s, p, "{", true); if (p < 0) return -1; int q = p; while (q < (int)s.size() && isdigit((unsigned char)s[q])) ++q; return q > p ? lit(s, q, "}", true) : -1; }; else if (i % 4 == 3) ms[i] = [i](const string& s, int p) { return lazily(s, lit(s, p, "{" + vh::num(i), true), [&](int q) { return lit(s, q, "}", true); }); }; else ms[i] = [l](const string& s, int p) { return lit(s, p, l, true); }; }
    std::sort(order.begin(), order.end()); vector<pair<int, Match> > rules; for (auto& o : order) rules.push_back({std::get<1>(o), ms[std::get<1>(o)]}); string t = "x{" + vh::num(a) + "}y {" + vh::num(b) + "}"; check(file(format(false, xml, "")), t, true, t, rules, "many rules");
}
static const char* REFS[] = {"&oacute;", "&Oacute;", "&#243;", "&quot;", "&QUOT;", "&z;", "x", "<b>", "&", "oacute;", "&tab;"};
static void references(const string& q, bool cased) {
    static const map<string, string> M = {{"&oacute;", "ó"}, {"&Oacute;", "Ó"}, {"&#243;", "ó"}, {"&quot;", "\""}, {"&tab;", "t b"}}; string reps = "<replacement-rule regexp='\"&amp;\"[a-zA-Z]+;'>"; for (auto& m : M) if (m.first != "&quot;") reps += "<replace source=\"" + X(m.first) + "\" target=\"" + m.second + "\"" + (m.first == "&oacute;" ? " prefer=\"yes\"" : "") + "/>"; reps += "</replacement-rule><replacement-rule regexp='q'><replace source=\"&amp;quot;\" target='\"'/></replacement-rule>";
    string t, w; for (char c : q) t += REFS[c - 'a']; for (size_t i = 0; i < t.size();) { size_t k = 0; for (auto& m : M) if (t.compare(i, m.first.size(), m.first) == 0) { w += m.second; k = m.first.size(); } if (!k && !cased && t.compare(i, 6, "&QUOT;") == 0) { w += "\""; k = 6; } if (!k) { w += t[i]; k = 1; } i += k; } auto br = [](const string& s, int p) { return lit(s, p, "<b>", true); };
    check(file(format(cased, {rule(0, 1, tag("\"<b>\""))}, reps)), t, false, w, {{0, br}}, "references");
}
// compressed formats: the extractor gets the data as they are, its files are read one after another
static void compressed(const string& q, int opt) {
    static const char* BYTES[] = {"\n", " ", "P", "<b>", "\t", "\r"}; archive = ""; for (char c : q) archive += BYTES[c - 'a']; archived.clear(); archived["doc/a.xml"] = "x<b> y\n\n"; if (opt & 1) archived["doc/b.xml"] = "z<b>"; extracted = "nothing"; auto br = [](const string& s, int p) { return lit(s, p, "<b>", true); };
    bool unzip = opt & 2, packed = opt & 4; string raw = archive, all; for (auto& f : archived) all += f.second; check(file(format(false, {rule(0, 1, tag("\"<b>\""))}, "", packed ? "yes" : "no")), raw, true, packed && unzip ? all : lines(raw), {{0, br}}, "compressed", unzip); vh::expectEq(extracted, packed && unzip ? string("doc/.*[.]xml") : string("nothing"), "compressed", "files extracted");
}
void vh_run(const string& id) {
    auto p = vh::split(id, ':'); vh::limit(5);
    if (p[0] == "m") markup(p[1], p[2], atoi(p[3].c_str())); else if (p[0] == "n") many(atoi(p[1].c_str()), atoi(p[2].c_str()), atoi(p[3].c_str()), atoi(p[4].c_str()), atoi(p[5].c_str())); else if (p[0] == "z") compressed(p[1], atoi(p[2].c_str())); else references(p[1], p[2] == "1");
}
void vh_enumerate(vh::Emit& emit) {
    bool th = vh::thorough(); const int N = sizeof PIECES / sizeof *PIECES, R = sizeof REFS / sizeof *REFS;
    vector<string> specs = {"01,12,23,34,44", "34,44,23,12,01", "21,31,41", "31,21,41", "51,32", "32,51", "61,71", "71,61,31,41", "01,31", "11,41,31", "51,61,22,71", "12,02,31,31,41"};
    for (size_t k = 0; k < specs.size(); ++k) for (size_t n = 0; n <= (th ? 4u : 3u); ++n) vh::sequences(N, n, [&](const vector<int>& s) { string q; int sum = 0; for (int x : s) q += char('a' + x), sum += x; for (int o = 0; o < 4; ++o) if (th || n < 3 || (o == 2 && (sum + k) % 2 == 0) || (sum + k) % 8 == (size_t)o) emit("m:" + specs[k] + ":" + q + ":" + vh::num(o)); });
    for (string& sp : specs) for (string q : {"dacdbaacecadbaea", "iabajlcbijha", "gadahcaegbah", "vbgahaha", "kdkkakfkb", "babadabacdacaeac", "nonwpaqapnqa", "eddaffb", "cbccacdcc", "tatutdauebafu"}) for (int o = 0; o < 4; ++o) for (size_t i = 0; i < q.size(); ++i) for (size_t n = 4; i + n <= q.size(); ++n) emit("m:" + sp + ":" + q.substr(i, n) + ":" + vh::num(o));
    for (int n = 0; n <= (th ? 80 : 66); ++n) for (int p = 0; p < 4; ++p) for (int g : {0, 1, 2, 4, 7}) for (int a = 0; a <= n; a += n > 20 && !th ? 1 + (n + p) % 3 : 1) { emit("n:" + vh::num(n) + ":" + vh::num(p) + ":" + vh::num(g) + ":" + vh::num(a) + ":" + vh::num((a * 7 + g) % (n + 1))); }
    for (size_t n = 0; n <= (th ? 5u : 4u); ++n) vh::sequences(R, n, [&](const vector<int>& s) { string q; for (int x : s) q += char('a' + x); for (int o = 0; o < 2; ++o) emit("r:" + q + ":" + vh::num(o)); });
    for (size_t n = 0; n <= 4; ++n) vh::sequences(6, n, [&](const vector<int>& s) { string q; for (int x : s) q += char('a' + x); for (int o = 0; o < 8; ++o) emit("z:" + q + ":" + vh::num(o)); });
}
