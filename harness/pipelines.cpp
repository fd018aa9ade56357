// P01: what a pipeline - a string, a list of arguments or a command line - runs, on the real PipeRunner with recording processors.
//   a <how><place> X   : X is the value of an option of a processor; it arrives as it is
//   b <how> X Y        : two values of one option
//   p <how> digits     : a pipeline made of elements, against a reference of the processors which are run
//   l text             : line by line
//   x alias            : a built-in alias expands to names of processors and options with one value each
#include "vh.hpp"
#include "pipe_runner.hpp"
#include "fake_processors.hpp"
#include "console_help_formatter.hpp"
#include "version_information.hpp"
#include "encoding_converter.hpp"
#include "logging.hpp"
using std::string; using std::vector; using std::list;
// what is not under test -------------------------------------------------------------------------------------------------------------
bool HelpFormatter::formatProcessorHelpsByName(string, std::ostream&) { return true; }
void HelpFormatter::formatDescription(std::ostream&) {}
void HelpFormatter::formatAliases(std::ostream&) {}
HelpFormatter::~HelpFormatter() {}
ConsoleHelpFormatter::~ConsoleHelpFormatter() {}
void ConsoleHelpFormatter::doFormatOneProcessorHelp(string, string, string, boost::program_options::options_description, list<string>, vector<TestBatch>, list<string>, std::ostream&) {}
void ConsoleHelpFormatter::doFormatOneAlias(string, list<string>, std::ostream&) {}
void ConsoleHelpFormatter::doFormatDataFile(string, std::ostream&) {}
TestExtractor::TestExtractor() {}
EncodingConverter::EncodingConverter() {}
EncodingConverter::EncodingConverter(string) {}
string EncodingConverter::convert(string, string t) { return t; }
string EncodingConverter::convert(string t) { return t; }
vector<string> EncodingConverter::getAllEncodings() { return {}; }
string get_psi_toolkit_version_string() { return ""; }
// the processors ---------------------------------------------------------------------------------------------------------------------
using namespace fake;
static Kind K(const string& n, vector<string> o, Handling h, list<string> prov = list<string>(), double q = 0, double t = 1) { return Kind{n, o, h, Tags2(), prov, q, t, true}; }
MainFactoriesKeeper::MainFactoriesKeeper() {
    keeper_.addTagBasedIzeAliases("token", "token");
    keeper_.addAlias("read", "txt-reader");
    keeper_.takeProcessorFactory(new ReaderF("txt-reader", {"fline-by-line", "fwhole-text"}));
    keeper_.takeProcessorFactory(new WriterF("psi-writer", {}));
    keeper_.takeProcessorFactory(new WriterF("rec-writer", {"ss", "sother"}));
    keeper_.takeProcessorFactory(makeAnnotatorFactory(K("lang-guesser", {"fforce", "sonly-langs"}, GUESSER)));
    keeper_.takeProcessorFactory(makeAnnotatorFactory(K("rec", {"ss", "mmany", "fflag"}, INDEP)));
    keeper_.takeProcessorFactory(makeAnnotatorFactory(K("dep", {"ss"}, DEP_BOTH)));
    keeper_.takeProcessorFactory(makeAnnotatorFactory(K("tok-a", {"sx", "sz"}, INDEP, {"token"}, 1)));
    keeper_.takeProcessorFactory(makeAnnotatorFactory(K("tok-b", {"sy", "sz"}, INDEP, {"token"}, 2)));
    keeper_.takeProcessorFactory(makeAnnotatorFactory(K("tok-pl", {"sw"}, JUST_PL, {"token"}, 0)));
}
MainFactoriesKeeper& MainFactoriesKeeper::getInstance() { static MainFactoriesKeeper k; return k; }
bool MainFactoriesKeeper::hasProcessorFactory(string n) { return keeper_.hasProcessorFactory(n); }
ProcessorFactory& MainFactoriesKeeper::getProcessorFactory(string n) { return keeper_.getProcessorFactory(n); }
vector<string> MainFactoriesKeeper::getProcessorNames() { return keeper_.getProcessorNames(); }
std::set<string> MainFactoriesKeeper::getAliasNames() { return keeper_.getAliasNames(); }
std::set<string> MainFactoriesKeeper::getAllAliases(string d) { return keeper_.getAllAliases(d); }
list<ProcessorFactory*> MainFactoriesKeeper::getProcessorFactoriesForName(string n) { return keeper_.getProcessorFactoriesForName(n); }
// running ------------------------------------------------------------------------------------------------------------------------------
static void init() {
    static bool done = false; if (done) return; done = true;
    SET_LOGGING_LEVEL("CRIT");
    ShallowAliaser a; a.addWriteGetAlias("it", "rec --s \"q r\" ! rec-writer --s \\n"); a.addReadReaderAlias("two", "txt-reader --whole-text ! rec --flag");
}
static string quote(const string& x) { string r = "\""; for (char c : x) { if (c == '"' || c == '\\') r += '\\'; if (c == '\n') { r += "\\n"; continue; } r += c; } return r + "\""; }
static string quoteLean(const string& x) {          // quotes only what needs it
    if (!x.empty() && x.find_first_of(" \n") == string::npos) { string r; for (char c : x) { if (c == '"' || c == '\\') r += '\\'; r += c; } return r; }
    return quote(x);
}
static string out;
static string runIt(char how, const vector<string>& args, const string& text) {
    log().clear(); out = "";
    try {
        std::unique_ptr<PipeRunner> r;
        if (how == 'v') r.reset(new PipeRunner(args));
        else if (how == 'c') {
            vector<char*> av; av.push_back((char*)"psi-pipe"); for (auto& a : args) av.push_back((char*)a.c_str()); av.push_back(0);
            r.reset(new PipeRunner((int)args.size() + 1, av.data()));
        } else {
            string s; for (size_t i = 0; i < args.size(); ++i) s += (i ? " " : "") + (how == 'q' ? quote(args[i]) : quoteLean(args[i]));
            if (how == 't') s = " " + s + " \n";
            r.reset(new PipeRunner(s));
        }
        std::istringstream in(text); std::ostringstream o; r->run(in, o); out = o.str();
        if (args[0] != "-l" && text.find('\n') == string::npos) {
            auto l = log(); log().clear();
            vh::expectEq(r->run(text), out, "rerun", "output of a second run");
            vh::expect(l == log(), "rerun", "processors run a second time");
        }
        string s; for (auto& x : log()) s += x + "; "; return s;
    } catch (std::exception& e) { return string("ERROR"); }
}
// reference ----------------------------------------------------------------------------------------------------------------------------
typedef vector<vector<string> > Pipe;
static const vector<vector<string> > ELEMENTS = {
    {"txt-reader"}, {"read", "--whole-text"}, {"rec"}, {"rec", "--flag", "--s", "a b"}, {"dep"}, {"dep", "--lang", "pl"}, {"dep", "--s", "x", "--lang", "en"},
    {"tokenize"}, {"tokenize", "--x", "1"}, {"tokenizer", "--z", "\\"}, {"tokenise", "--lang", "pl"}, {"psi-writer"}, {"rec-writer", "--s", "\""}, {"write-it"}, {"read-two"}, {"dep", "--lang"}, {"nothing"}};
static string ref(const vector<int>& ix, const string& text) {
    Pipe p;
    for (int i : ix) {
        auto e = ELEMENTS[i];
        if (e[0] == "write-it") { p.push_back({"rec", "--s", "q r"}); p.push_back({"rec-writer", "--s", "\n"}); }
        else if (e[0] == "read-two") { p.push_back({"txt-reader", "--whole-text"}); p.push_back({"rec", "--flag"}); }
        else if (e[0] == "read") { e[0] = "txt-reader"; p.push_back(e); }
        else p.push_back(e);
    }
    auto isReader = [](const vector<string>& e) { return e[0] == "txt-reader"; };
    auto isWriter = [](const vector<string>& e) { return e[0].find("-writer") != string::npos; };
    for (auto& e : p) { if (e[0] == "nothing" || e == ELEMENTS[15]) return "ERROR"; }
    if (!isReader(p[0])) p.insert(p.begin(), {"txt-reader", "--line-by-line"});
    if (!isWriter(p.back())) p.push_back({"psi-writer"});
    for (size_t i = 0; i < p.size(); ++i) if ((isReader(p[i]) && i > 0) || (isWriter(p[i]) && i + 1 < p.size())) return "ERROR";
    // languages: those named, if any is named or inherent to a processor; otherwise all which may be needed
    std::set<string> just, all;
    for (auto& e : p) {
        if (e[0] == "dep") { if (e.back() == "pl" || e.back() == "en") just.insert(e.back()); else { all.insert("pl"); all.insert("en"); } }
        if (e[0].substr(0, 3) == "tok" && (e.size() == 1 || e[1] == "--lang")) just.insert("pl");
    }
    std::set<string> langs = just.empty() ? all : just;
    string s; bool first = true;
    auto show = [&](const vector<string>& e, const string& extra) {
        string n = e[0]; std::map<string, string> o;
        if (n.substr(0, 5) == "token") {
            if (e.size() == 1) n = "tok-b";                                        // the best of the three
            else if (e[1] == "--lang") n = "tok-pl"; else n = e[1] == "--x" ? "tok-a" : "tok-b";
        }
        for (size_t i = 1; i < e.size(); ++i) {
            string k = e[i].substr(2);
            if (i + 1 < e.size() && e[i + 1].substr(0, 2) != "--") { o[k] = "=[" + e[i + 1] + "]"; ++i; } else o[k] = "=[]";
        }
        if (n == "tok-pl") o.erase("lang");
        s += n; for (auto& x : o) s += " " + x.first + x.second;
        s += extra + "; ";
    };
    for (auto& e : p) {
        if (first) { show(e, " <" + text + ">"); first = false;
            if (langs.size() == 1) show({"lang-guesser", "--force", "--only-langs", *langs.begin()}, ""); else if (langs.size() > 1) show({"lang-guesser"}, "");
        } else if (e[0] == "dep" && e.size() == 1) { for (auto& l : langs) s += "dep lang=[" + l + "]; "; }
        else show(e, "");
    }
    return s;
}
void vh_enumerate(vh::Emit& emit) {
    vector<string> al = {"a", " ", "\\", "\"", "n", "!", "\n", "\xc4\x85", "write-it"};
    string hows = "vcsq";
    vh::strings(al, vh::thorough() ? 5 : 4, [&](const string& x) { for (char h : hows) for (char pl : {'m', 'e', '='}) emit(string("a ") + h + pl + x); });
    vh::strings({"a", " ", "\\", "\"", "!", "write-it"}, 2, [&](const string& x) { vh::strings({"a", " ", "\\", "\"", "!", "get-it"}, 2, [&](const string& y) { for (char h : hows) emit(string("b ") + h + x + "\x01" + y); }); });
    for (size_t n = 1; n <= (vh::thorough() ? 5 : 4); ++n)
        vh::sequences(ELEMENTS.size(), n, [&](const vector<int>& v) { string s; for (int i : v) s += (char)('A' + i); for (char h : (n < 4 ? string("vcst") : string("s"))) emit(string("p ") + h + s); });
    for (auto& a : ShallowAliaser::getAllAliases()) emit("x " + a);
    vh::strings({"a", "\n", "\r", " ", "\xc4\x85"}, vh::thorough() ? 7 : 6, [&](const string& x) { emit("l " + x); });
}
void vh_run(const string& id) {
    init();
    string rest = id.substr(2);
    if (id[0] == 'a') {
        char how = rest[0], pl = rest[1]; string x = rest.substr(2);
        bool eq = pl == '=';
        if (x == "!" && !eq) return;                                  // it separates the elements
        if (x.empty() && eq) return;
        vector<string> args; string want;
        vector<string> opt; if (eq) opt = {"--s=" + x}; else opt = {"--s", x};
        if (pl == 'e') { args = {"txt-reader", "!", "rec", "!", "rec-writer"}; want = "txt-reader <t>; rec; rec-writer s=[" + x + "]; "; }
        else { args = {"txt-reader", "!", "rec", "!", "rec-writer"}; want = "txt-reader <t>; rec s=[" + x + "]; rec-writer; "; }
        args.insert(pl == 'e' ? args.end() : args.begin() + 3, opt.begin(), opt.end());
        if (x == "write-it" && !eq) return;                           // a name of an alias on its own is replaced
        string got = runIt(how, args, "t");
        vh::expectEq(got, want, "argument", "processors run with the argument");
        vh::traces(); vh::transitions(3); vh::state(x); vh::outcome(got);
    } else if (id[0] == 'b') {
        char how = rest[0]; auto xy = vh::split(rest.substr(1), '\x01');
        for (auto& s : xy) if (s == "!" || s == "write-it" || s == "get-it" || s.empty()) return;
        string got = runIt(how, {"txt-reader", "!", "rec", "--many", xy[0], xy[1], "--flag", "!", "rec-writer", "--s", xy[1], "--other", xy[0]}, "t");
        vh::expectEq(got, "txt-reader <t>; rec flag=[] many=[" + xy[0] + "]=[" + xy[1] + "]; rec-writer other=[" + xy[0] + "] s=[" + xy[1] + "]; ", "arguments", "processors run with two arguments");
        vh::traces(); vh::transitions(3); vh::outcome(got);
    } else if (id[0] == 'p') {
        vector<int> v; vector<string> args;
        for (char c : rest.substr(1)) { v.push_back(c - 'A'); if (!args.empty()) args.push_back("!"); args.insert(args.end(), ELEMENTS[v.back()].begin(), ELEMENTS[v.back()].end()); }
        string want = ref(v, "text"), got = runIt(rest[0], args, "text");
        vh::expectEq(got, want, "pipeline", "processors run");
        if (want != "ERROR") vh::expectEq(out, "{text}", "output", "output"), vh::nontrivial();
        vh::traces(); vh::transitions(v.size()); vh::outcome(want); vh::state(want);
    } else if (id[0] == 'x') {
        ShallowAliaser a; vector<string> v = a.replace(vector<string>(1, rest)); bool name = true; int values = 1;
        vh::expect(!v.empty() && v != vector<string>(1, rest), "alias", "the alias is not replaced");
        for (auto& t : v) {
            if (t == "!") { vh::expect(!name, "alias", "an element without a name"); name = true; continue; }
            if (name) { vh::expect(!t.empty() && t.find_first_of(" \n\"=<>-") > 0 && t.find_first_of(" \n\"=<>") == string::npos, "alias", "[" + t + "] is taken for a processor"); name = false; values = 1; }
            else if (t.substr(0, 2) == "--") values = 0;
            else vh::expect(++values == 1, "alias", "[" + t + "] is not a value of an option");
        }
        vh::traces(); vh::outcome(rest);
    } else {
        string whole, s;
        string got = runIt('v', {"-l", "txt-reader", "!", "rec-writer"}, rest), gotOut = out;
        std::istringstream in(rest); string line, wantOut, want;
        while (std::getline(in, line)) { wantOut += "{" + line + "}"; want += "txt-reader <" + line + ">; rec-writer; "; }
        vh::expectEq(got, want, "line-by-line", "processors run"); vh::expectEq(gotOut, wantOut, "line-by-line", "output");
        runIt('v', {"txt-reader", "!", "rec-writer"}, rest); vh::expectEq(out, "{" + rest + "}", "whole", "output of the whole text");
        vh::traces(); vh::outcome(wantOut);
    }
}
