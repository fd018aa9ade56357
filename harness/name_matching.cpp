// U02: file specifications find exactly the files they match; the name suggested for a mistyped one is the nearest.
#include "vh.hpp"
#include "segment_glob.hpp"
#include "ant_like_path_glob.hpp"
#include "file_fetcher.hpp"
#include "edit_distance.hpp"
#include <boost/filesystem.hpp>
#include <fstream>
#include <set>
#include <map>
#include <functional>
#include <sys/stat.h>
using std::string; using std::vector; using std::set; namespace fs = boost::filesystem;
static const char* CH[] = {"a", "b", "\xc5\x82", "\xe2\x82\xac", "*", "?", "\xe2"};
static vector<vector<int> > words(int n, int len) { vector<vector<int> > r = {{}}; for (size_t i = 0; i < r.size(); ++i) if ((int)r[i].size() < len) for (int c = 0; c < n; ++c) { auto x = r[i]; x.push_back(c); r.push_back(x); } return r; }
static string str(const vector<int>& w) { string r; for (int c : w) r += CH[c]; return r; }
// globs by characters: * any, ? one
static vector<string> chars(const string& s) { vector<string> r; for (unsigned char c : s) if ((c & 0xc0) == 0x80 && r.size()) r.back() += c; else r.push_back(string(1, c)); return r; }
static bool match(const vector<string>& g, size_t i, const vector<string>& s, size_t j) { if (i == g.size()) return j == s.size(); if (g[i] == "*") { for (size_t k = j; k <= s.size(); ++k) if (match(g, i + 1, s, k)) return true; return false; } return j < s.size() && (g[i] == "?" || g[i] == s[j]) && match(g, i + 1, s, j + 1); }
static bool match(const string& g, const string& s) { return match(chars(g), 0, chars(s), 0); }
static void glob(const string& g, int len) { SegmentGlob sg(g); vh::expectEq(sg.asString(), g, "glob", "asString"); vh::expectEq(sg.isFixed(), g.find_first_of("*?") == string::npos, "glob", "fixed " + g); string out; static const vector<vector<int> > NAMES = [&] { auto r = words(4, len); for (auto& w : words(5, 3)) { auto x = w; for (int& c : x) if (c == 4) c = 6; r.push_back(x); } return r; }(); for (auto& w : NAMES) { string s = str(w); bool m = match(g, s); vh::expectEq(sg.matches(s), m, "glob", "`" + g + "' on `" + s + "'"); if (m) out += s + "|"; vh::transitions(); } vh::outcome(out); vh::state(g); vh::traces(); }
// --- trees of files
struct Tree { string dir; set<string> files, dirs; };
static void mk(Tree& t, const string& p, bool d) { if (d) { t.dirs.insert(p); fs::create_directories(t.dir + "/" + p); } else { t.files.insert(p); std::ofstream((t.dir + "/" + p).c_str()) << p; } }
static Tree& tree() {
    static Tree t; if (t.dir.empty()) { char d[] = "/tmp/vh_glob_XXXXXX"; if (!mkdtemp(d)) throw vh::InternalError("mkdtemp"); t.dir = d; atexit([] { if (tree().dir.size() > 10) fs::remove_all(tree().dir); });
        for (const char* p : {"a", "b", "ab", "a/a", "a/b", "a/c.d", "b/a", "a/a/a", "a/a/b", "a/b/a", "b/a/a", "empty", "a/empty"}) mk(t, p, true);
        for (const char* p : {"x", "ax", ".h", "a/x", "a/ab", "a/.h", "a/a/x", "a/a/ab", "a/a/a/x", "a/a/b/b", "a/b/x", "a/b/bx", "a/c.d/x", "b/x", "b/b", "b/a/x", "b/a/a/ab", "ab/x", "ab/a"}) mk(t, p, false); }
    return t;
}
static vector<string> segs(const string& s) { vector<string> r; for (auto& x : vh::split(s, '/')) if (x.size()) r.push_back(x); return r; }
static bool pathMatch(const vector<string>& g, size_t i, const vector<string>& p, size_t j) { if (i == g.size()) return j == p.size(); if (g[i] == "**") { if (i + 1 == g.size()) return j < p.size(); for (size_t k = j; k < p.size(); ++k) if (pathMatch(g, i + 1, p, k)) return true; return false; } return j < p.size() && match(g[i], p[j]) && pathMatch(g, i + 1, p, j + 1); }
static set<string> expected(const string& spec) { set<string> r; auto g = segs(spec); for (auto& f : tree().files) if (pathMatch(g, 0, segs(f), 0)) r.insert(f); return r; }
static string text(const set<string>& s) { string r; for (auto& x : s) r += x + " "; return r; }
static set<string> below(const set<fs::path>& s, const string& dir, const string& what) { set<string> r; for (auto& p : s) { string x = p.string(); if (x.compare(0, dir.size(), dir)) vh::fail("path", what + ": file elsewhere " + x); else r.insert(x.substr(dir.size())); } return r; }
static void path(const string& spec) {
    Tree& t = tree(); string want = text(expected(spec)); { set<fs::path> got; AntLikePathGlob(spec).allMatchingFiles(t.dir, got); vh::expectEq(text(below(got, t.dir + "/", spec)), want, "path", "files matching " + spec); }
    { set<fs::path> got; AntLikePathGlob(t.dir + "/" + spec).allMatchingFiles("/nowhere", got); vh::expectEq(text(below(got, t.dir + "/", spec)), want, "path", "files matching the absolute " + spec); }
    vh::outcome(want); vh::state(spec); vh::transitions(2); vh::traces();
}
// --- specifications with parameters
static const char* SPECS[] = {"%D%/a/x", "%D%/%P%/x", "%D%/%P%/%P%/x", "%D%/%Q%", "%D%/*/x", "%D%/%R%", "%D%/%S%/x", "%D%/%X%", "%D%/%P", "%", "%%", "%D%/nothing", "%D%/a", "%D%/nodir/*", "%D%/%E%x", "%D%/%E%/x", "%Q%", "%D%/**/b", "%D%/%U%"};
static void fetch(const vector<int>& which, int sep) {
    Tree& t = tree(); std::map<string, string> ps = {{"D", t.dir}, {"P", "a"}, {"Q", "b/b"}, {"R", "%P%/x"}, {"S", "a/%P%"}, {"E", ""}, {"U", "%"}}; string spec, final; for (int w : which) { if (spec.size() || final.size()) spec += ",;"[sep]; else final = "-"; spec += SPECS[w]; }
    FileFetcher f; for (auto& p : ps) f.addParam(p.first, p.second);
    // reference
    bool bad = false; string r; for (size_t i = 0; i < spec.size();) { if (spec[i] != '%') { r += spec[i++]; continue; } size_t j = spec.find('%', i + 1); if (j == string::npos) { bad = true; break; } string n = spec.substr(i + 1, j - i - 1); if (!ps.count(n)) { bad = true; break; } r += ps[n]; i = j + 1; }
    set<string> want; if (!bad) for (auto& x : vh::split(r, ",;"[sep])) if (x.compare(0, t.dir.size() + 1, t.dir + "/") == 0) for (auto& y : expected(x.substr(t.dir.size() + 1))) want.insert(y);
    bool refused = false; vector<fs::path> got; try { f.getFiles(spec, std::back_inserter(got)); } catch (const FileFetcher::Exception&) { refused = true; } vh::expectEq(refused, bad, "fetch", "refused " + spec); string g; for (auto& p : got) g += p.string() + " "; string w; for (auto& x : want) w += t.dir + "/" + x + " "; vh::expectEq(g, w, "fetch", spec);
    bool one = false; string file; try { file = f.getOneFile(spec).string(); } catch (const FileFetcher::Exception&) { one = true; } vh::expectEq(one, bad || want.size() != 1, "one", "refused " + spec); if (!one) vh::expectEq(file, t.dir + "/" + *want.begin(), "one", spec);
    vh::outcome(w.size() ? "some" : bad ? "bad" : "none"); vh::state(spec); vh::transitions(2); vh::traces();
}
// --- the nearest name
static unsigned dist(const string& a, const string& b, size_t i, size_t j) { static std::map<std::pair<string, string>, unsigned> memo; if (i == a.size()) return b.size() - j; if (j == b.size()) return a.size() - i; auto k = std::make_pair(a.substr(i), b.substr(j)); auto f = memo.find(k); if (f != memo.end()) return f->second; unsigned r = std::min(std::min(dist(a, b, i + 1, j), dist(a, b, i, j + 1)) + 1, dist(a, b, i + 1, j + 1) + (a[i] != b[j])); memo[k] = r; return r; }
static unsigned dist(const string& a, const string& b) { return dist(a, b, 0, 0); }
static void nearest(const string& s, int n, int len) {
    vector<string> ns; for (auto& w : words(n, len)) ns.push_back(str(w)); for (auto& x : ns) vh::expectEq(levenshteinDistance(s, x), dist(s, x), "distance", "`" + s + "' and `" + x + "'");
    vector<string> few; for (auto& x : ns) if (x.size() <= 2) few.push_back(x); for (auto& x : few) for (auto& y : few) for (auto& z : few) { vector<string> c = {x, y, z}; string want = x; for (auto& q : c) if (dist(s, q) < dist(s, want)) want = q; vh::expectEq(findTheMostSimilarString(s, c), want, "nearest", "`" + s + "' among `" + x + "' `" + y + "' `" + z + "'"); vh::transitions(); } vh::outcome(s); vh::state(s); vh::traces();
}
static void longNames(int k) { for (int l : {1, 50, 97, 98, 99, 100, 101, 150, 255, 256, 300, 1000}) { string s(l, 'a'); vector<string> c = {string(k, 'b'), string(l, 'c') + "cc", string(l / 2, 'a') + "b", string(l + 3, 'd')}; string want = c[0]; for (auto& q : c) if (levenshteinDistance(s, q) < levenshteinDistance(s, want)) want = q; vh::expectEq(levenshteinDistance(s, c[0]), (unsigned)std::max(l, k), "distance", "long"); vh::expectEq(findTheMostSimilarString(s, c), want, "nearest", "long"); vector<string> one = {c[3]}; vh::expectEq(findTheMostSimilarString(s, one), c[3], "nearest", "long, one name"); } vh::traces(); }
void vh_run(const string& id) {
    auto p = vh::split(id, ':'); auto nums = [](const string& s) { vector<int> r; for (auto& x : vh::split(s, ',')) if (x.size()) r.push_back(atoi(x.c_str())); return r; };
    if (p[0] == "g") glob(str(nums(p[1])), atoi(p[2].c_str())); else if (p[0] == "p") path(p[1]); else if (p[0] == "f") fetch(nums(p[1]), atoi(p[2].c_str())); else if (p[0] == "n") nearest(str(nums(p[1])), 3, atoi(p[2].c_str())); else longNames(atoi(p[1].c_str()));
}
void vh_enumerate(vh::Emit& emit) {
    bool th = vh::thorough(); auto csv = [](const vector<int>& w) { string s; for (int x : w) s += (s.empty() ? "" : ",") + vh::num(x); return s; };
    for (auto& w : words(6, th ? 6 : 5)) emit("g:" + csv(w) + ":" + (th ? "6" : "5"));
    const vector<string> S = {"a", "b", "*", "?", "**", "a*", "*x", "?b", "x", "c.d", ".h", "*.*", "zz", "***"}; vector<string> q = {""}; for (int d = 0; d < (th ? 5 : 4); ++d) { vector<string> n; for (auto& x : q) for (auto& s : S) n.push_back(x + (x.size() ? "/" : "") + s); for (auto& x : n) emit("p:" + x); q = n; }
    int n = sizeof SPECS / sizeof *SPECS; for (int a = 0; a < n; ++a) { emit("f:" + vh::num(a) + ":0"); for (int b = 0; b < n; ++b) for (int s = 0; s < 2; ++s) emit("f:" + csv({a, b}) + ":" + vh::num(s)); if (th) for (int b = 0; b < n; ++b) for (int c = 0; c < n; ++c) emit("f:" + csv({a, b, c}) + ":0"); }
    for (auto& w : words(3, th ? 6 : 5)) emit("n:" + csv(w) + ":" + (th ? "5" : "4")); for (int k : {0, 1, 98, 99, 100, 120, 300}) emit("l:" + vh::num(k));
}
