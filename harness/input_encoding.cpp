// R01: what a pipeline's reader gets of the input, for every encoding, way of conversion and kind of stream, on the real PipeRunner and EncodingConverter.
#include "vh.hpp"
#include "fake_processors.hpp"
#include "pipe_runner.hpp"
#include "encoding_converter.hpp"
#include "console_help_formatter.hpp"
#include "version_information.hpp"
#include "logging.hpp"
#include <fstream>
#include <functional>
#include <memory>
#include <unistd.h>
using std::string; using std::vector; using std::list;
// a reader which keeps what it reads (not a lattice, which takes valid UTF-8 only) and a writer which gives it back
static string taken;
struct RW : ReaderWorker<std::istream> { RW(std::istream& s, Lattice& l) : ReaderWorker<std::istream>(s, l) {} void doRun() { taken.assign((std::istreambuf_iterator<char>(inputStream_)), std::istreambuf_iterator<char>()); } };
struct WW : WriterWorker<std::ostream> { WW(std::ostream& s, Lattice& l) : WriterWorker<std::ostream>(s, l) {} void doRun() { getOutputStream() << "{" << taken << "}"; taken = "nothing read"; } };
struct Rd : fake::Reader { Rd() : fake::Reader("r") {} ReaderWorker<std::istream>* doCreateReaderWorker(std::istream& s, Lattice& l) { return new RW(s, l); } };
struct Wr : fake::Writer { Wr() : fake::Writer("w") {} WriterWorker<std::ostream>* doCreateWriterWorker(std::ostream& s, Lattice& l) { return new WW(s, l); } };
struct RdF : fake::ReaderF { using fake::ReaderF::ReaderF; LatticeReader<std::istream>* doCreateLatticeReader(const boost::program_options::variables_map&) { return new Rd; } };
struct WrF : fake::WriterF { using fake::WriterF::WriterF; LatticeWriter<std::ostream>* doCreateLatticeWriter(const boost::program_options::variables_map&) { return new Wr; } };
// what is not under test
bool HelpFormatter::formatProcessorHelpsByName(string, std::ostream&) { return true; }
void HelpFormatter::formatDescription(std::ostream&) {}
void HelpFormatter::formatAliases(std::ostream&) {}
HelpFormatter::~HelpFormatter() {}
ConsoleHelpFormatter::~ConsoleHelpFormatter() {}
void ConsoleHelpFormatter::doFormatOneProcessorHelp(string, string, string, boost::program_options::options_description, list<string>, vector<TestBatch>, list<string>, std::ostream&) {}
void ConsoleHelpFormatter::doFormatOneAlias(string, list<string>, std::ostream&) {}
void ConsoleHelpFormatter::doFormatDataFile(string, std::ostream&) {}
TestExtractor::TestExtractor() {}
string get_psi_toolkit_version_string() { return ""; }
MainFactoriesKeeper::MainFactoriesKeeper() {
    keeper_.addAlias("read", "txt-reader"); keeper_.addAlias("write", "psi-writer");
    keeper_.takeProcessorFactory(new RdF("txt-reader", {"fline-by-line", "fwhole-text"})); keeper_.takeProcessorFactory(new WrF("psi-writer", {"ss"}));
    keeper_.takeProcessorFactory(fake::makeAnnotatorFactory(fake::Kind{"lang-guesser", {"fforce", "sonly-langs"}, fake::GUESSER, {}, {}, 0, 1, true}));
}
MainFactoriesKeeper& MainFactoriesKeeper::getInstance() { static MainFactoriesKeeper k; return k; }
bool MainFactoriesKeeper::hasProcessorFactory(string n) { return keeper_.hasProcessorFactory(n); }
ProcessorFactory& MainFactoriesKeeper::getProcessorFactory(string n) { return keeper_.getProcessorFactory(n); }
vector<string> MainFactoriesKeeper::getProcessorNames() { return keeper_.getProcessorNames(); }
std::set<string> MainFactoriesKeeper::getAliasNames() { return keeper_.getAliasNames(); }
std::set<string> MainFactoriesKeeper::getAllAliases(string d) { return keeper_.getAllAliases(d); }
list<ProcessorFactory*> MainFactoriesKeeper::getProcessorFactoriesForName(string n) { return keeper_.getProcessorFactoriesForName(n); }

static const vector<string> MODES = {"", "-c", "-e UTF-8", "-e ISO-8859-2", "-e CP1250", "-e KOI8-R", "-e UTF-16BE", "-e SHIFT-JIS", "-e BIG5", "-e nonsense", "-c -e CP1250", "--from-encoding ISO-8859-2", "--encoding-conversion"};
static const vector<string> PIECES = {"a", "\n", " ", "\xb1", "\xb9\xea", "\xc5\x82", "\xe6", "\xff", string("\0", 1), "\xd0\xd2\xc9\xd7\xc5\xd4", "{}"};
static const char* HOW[] = {"string", "string stream", "file", "named file", "pipe", "line"};
struct Pipe : std::streambuf { string d; size_t at = 0; char c; Pipe(const string& d) : d(d) {} int_type underflow() { if (at == d.size()) return traits_type::eof(); c = d[at++]; setg(&c, &c, &c + 1); return traits_type::to_int_type(c); } };
struct Temp { string f; Temp(const string& d) { char t[] = "/tmp/vh_input_XXXXXX"; int h = mkstemp(t); if (h < 0) throw vh::InternalError("mkstemp"); close(h); f = t; std::ofstream(f.c_str(), std::ios::binary) << d; } ~Temp() { unlink(f.c_str()); } string text() { std::ifstream s(f.c_str(), std::ios::binary); return string((std::istreambuf_iterator<char>(s)), std::istreambuf_iterator<char>()); } };
static string converted(int m, const string& t) { static EncodingConverter c("UTF-8"); if (m == 0) return t; size_t p = MODES[m].find(m == 11 ? "--from-encoding " : "-e "); if (p == string::npos) return c.convert(t); return c.convert(MODES[m].substr(MODES[m].rfind(' ') + 1), "UTF-8", t); }
static string brief(const string& s) { return vh::esc(s.substr(0, 60)) + " (" + vh::num(s.size()) + ")"; }
static void check(const string& what, int m, bool lines, const string& text) {
    SET_LOGGING_LEVEL("CRIT");
    string pipe = MODES[m] + (MODES[m].empty() ? "" : " ") + (lines ? "-l " : "") + "txt-reader ! psi-writer"; vector<string> in; string want;
    if (lines) { std::istringstream s(text); string l; while (std::getline(s, l)) in.push_back(converted(m, l)); } else in.push_back(converted(m, text));
    for (auto& l : in) want += "{" + l + "}"; vh::outcome(want.substr(0, 100));
    for (int how = 0; how < 6; ++how) for (int built = 0; built < 3; ++built) {
        if (how == 5 && text.find('\n') != string::npos) continue; if (how == 0 && lines && text.find('\n') != string::npos) continue; if (built && how != 1) continue;
        if (how == 0 && lines && text.empty()) continue; 
        fake::log().clear(); string got; std::unique_ptr<PipeRunner> r; auto args = vh::split(pipe, ' ');
        if (built == 0) r.reset(new PipeRunner(pipe)); else if (built == 1) r.reset(new PipeRunner(args)); else { vector<char*> av; av.push_back((char*)"psi-pipe"); for (auto& a : args) av.push_back((char*)a.c_str()); av.push_back(0); r.reset(new PipeRunner((int)args.size() + 1, av.data())); }
        std::ostringstream o; Temp f(text), g(""); int code = 0; string w = want;
        for (int again = 0; again < 2; ++again) { // a pipeline may be run again
            o.str("");
            if (how == 0) got = r->run(text); else if (how == 1) { std::istringstream s(text); code = r->run(s, o); got = o.str(); } else if (how == 2) { std::ifstream s(f.f.c_str(), std::ios::binary); code = r->run(s, o); got = o.str(); }
            else if (how == 3) { code = r->run(f.f, g.f); got = g.text(); } else if (how == 4) { Pipe p(text); std::istream s(&p); code = r->run(s, o); got = o.str(); } else { code = r->runLine(text, o); got = o.str(); w = "{" + converted(m, text) + "}"; }
            if (got != w || code) vh::fail(string("input by ") + (lines ? "lines, " : "") + HOW[how], what + (again ? ", again" : "") + " [" + MODES[m] + "] " + brief(text) + ": " + brief(got) + " instead of " + brief(w)); vh::traces();
        }
    }
}
void vh_run(const string& id) {
    vh::state(id); auto p = vh::split(id, ':'); string t; bool lines = p[2] == "1"; int m = atoi(p[1].c_str());
    if (p[0] == "p") { for (size_t i = 3; i < p.size(); ++i) t += PIECES[atoi(p[i].c_str())]; check("pieces", m, lines, t); }
    if (p[0] == "l") { const string& x = PIECES[atoi(p[3].c_str())]; long n = atol(p[4].c_str()); bool nl = p[5] == "1"; while ((long)t.size() < n) { t += x; if (nl && t.size() % 7 == 0) t += "\n"; } check("long", m, lines, t); }
}
void vh_enumerate(vh::Emit& emit) {
    int P = PIECES.size(), depth = vh::thorough() ? 4 : 3;
    for (int m = 0; m < (int)MODES.size(); ++m) for (int l = 0; l < 2; ++l) {
        string a = "p:" + vh::num(m) + ":" + vh::num(l); emit(a);
        std::function<void(const string&, int)> go = [&](const string& s, int d) { if (d == 0) return; for (int i = 0; i < P; ++i) { string t = s + ":" + vh::num(i); emit(t); go(t, d - 1); } }; go(a, depth);
        for (int x : {0, 4, 5, 9}) for (long n : {256L, 4096L, 8191L, 8192L, 8193L, 50001L}) for (int nl = 0; nl < 2; ++nl) if (!l || n < 10000) emit("l:" + vh::num(m) + ":" + vh::num(l) + ":" + vh::num(x) + ":" + vh::num(n) + ":" + vh::num(nl));
    }
}
