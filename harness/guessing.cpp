// R01: the format of an input is guessed and the input is then read as by the reader for that format, whole, whatever stream it comes from.
#include "vh.hpp"
#include "lattice_dump.hpp"
#include "guessing_reader.hpp"
#include "file_recognizer.hpp"
#include "file_extractor.hpp"
#include "txt_lattice_reader.hpp"
#include "apertium_lattice_reader.hpp"
#include "psi_lattice_reader.hpp"
#include "utt_lattice_reader.hpp"
#include "pdf_lattice_reader.hpp"
#include "djvu_lattice_reader.hpp"
#include "doc_lattice_reader.hpp"
#include "annotation_item_manager.hpp"
#include "stream_helpers.hpp"
#include <boost/program_options.hpp>
#include <fstream>
#include <magic.h>
#include <memory>
#include <unistd.h>
using std::string; using std::vector; using std::set; using std::map;
// --- archives: what the extractor is given and what it finds there
static string given; static set<string> found;
FileExtractor::FileExtractor() {}
set<string> FileExtractor::getFileListFromData(const string& data) { given = data; return found; }
map<string, string> FileExtractor::extractFilesFromData(const string& data, const string&) { given = data; map<string, string> m; m["word/document.xml"] = "<w:p><w:t>x</w:t></w:p>"; return m; }
// --- the pieces inputs are made of
static const vector<string> PIECES = {"01 0000 01 token T:x\n", "01 0000 *0 x\n", "01 0000 0@", "01 0000 x0 a\n", "01 0001 01 token T:x\n", "02 0000 01 a\n", "# c\n", "#\xc5\x82\n", "\n", "## beg. len.  text         tags                  annot.text  annotations\n", "0000 00 BOS *\n", "0000 00 ", "0000 02 W a\xc5\x82\n", "Ala ", "\xc5\xbc", "<html>", "<p>", "{\\rtf1 ", "%PDF-1.4\n", "AT&TFORM", string("\0\1", 2), "PK\3\4\x14", "\xff", "<?xml version=\"1.0\"?>\n", "BOS"};
static const int P = PIECES.size();
// --- what the magic library says of the data
static string magicType(const string& data) {
    static magic_t m = 0; if (!m) { m = magic_open(MAGIC_MIME); if (!m || magic_load(m, 0)) throw vh::InternalError("magic"); }
    string s = magic_buffer(m, data.data(), data.size()); size_t p = s.find(';'); return s.substr(0, p);
}
static string firstLine(const string& t) { size_t p = 0; while (p < t.size()) { size_t q = t.find('\n', p); if (q == string::npos) q = t.size(); string l = t.substr(p, q - p); if (!l.empty() && l[0] != '#') return l; p = q + 1; } return ""; }
static bool digit(char c) { return c >= '0' && c <= '9'; }
static bool psi(const string& t) { string l = firstLine(t); return l.size() >= 10 && l.compare(0, 8, "01 0000 ") == 0 && (digit(l[8]) || l[8] == '*') && (digit(l[9]) || l[9] == '@'); }
static bool utt(const string& t) { return t.size() >= 9 && t.compare(0, 8, "0000 00 ") == 0 && t[8] >= 'A' && t[8] <= 'Z'; }
static string kind(const string& data) {
    static const map<string, string> known = {{"application/vnd.ms-office", "doc"}, {"application/msword", "doc"}, {"application/pdf", "pdf"}, {"application/postscript", "eps"}, {"application/xml", "xml"}, {"application/x-empty", ""}, {"application/x-gzip", "gz"}, {"application/zip", "zip"}, {"image/gif", "gif"}, {"image/jpeg", "jpg"}, {"image/png", "png"}, {"image/svg+xml", "svg"}, {"image/tiff", "tiff"}, {"image/vnd.djvu", "djvu"}, {"image/x.djvu", "djvu"}, {"text/html", "html"}, {"text/plain", "txt"}, {"text/x-tex", "tex"}, {"text/rtf", "rtf"}, {"application/octet-stream", "bin"}};
    string t = magicType(data); auto i = known.find(t); if (i == known.end()) return "UNKNOWN";
    if (i->second == "bin" && data.compare(0, 8, "AT&TFORM") == 0) return "djvu"; if (i->second == "txt") return psi(data) ? "psi" : utt(data) ? "utt" : "txt"; return i->second;
}
static string shown(const string& s) { return vh::esc(s.substr(0, 80)) + (s.size() > 80 ? "..." + vh::num(s.size()) : ""); }
// --- streams which cannot be positioned and keep only a part of what was read
struct Pipe : std::streambuf {
    string data; size_t at = 0, chunk; vector<char> buf; string back; Pipe(const string& d, size_t chunk) : data(d), chunk(chunk), buf(chunk) {}
    int_type underflow() { if (at >= data.size()) return traits_type::eof(); size_t n = std::min(chunk, data.size() - at); std::copy(data.begin() + at, data.begin() + at + n, buf.begin()); at += n; setg(&buf[0], &buf[0], &buf[0] + n); return traits_type::to_int_type(buf[0]); }
    // like stdio's: what is put back is kept in a buffer which grows
    int_type pbackfail(int_type c) { string rest(1, traits_type::to_char_type(c)); rest.append(gptr(), egptr()); buf.assign(rest.begin(), rest.end()); setg(&buf[0], &buf[0], &buf[0] + buf.size()); return c; }
};
struct Temp { string f; Temp(const string& d) { char t[] = "/tmp/vh_guess_XXXXXX"; int h = mkstemp(t); if (h < 0) throw vh::InternalError("mkstemp"); close(h); f = t; std::ofstream(f.c_str(), std::ios::binary) << d; } ~Temp() { unlink(f.c_str()); } };
template <class F> static void inStreams(const string& data, bool all, F f) {
    { std::istringstream s(data); f(s, "string stream"); } if (!all) return;
    { Temp t(data); std::ifstream s(t.f.c_str(), std::ios::binary); f(s, "file stream"); }
    { Pipe p(data, 4096); std::istream s(&p); f(s, "pipe"); } { Pipe p(data, 7); std::istream s(&p); f(s, "pipe giving a little at a time"); }
}
static string rest(std::istream& s) { string r((std::istreambuf_iterator<char>(s)), std::istreambuf_iterator<char>()); return r; }
static string dump(Lattice& l) { string r = l.getAllText() + "\n"; Lattice::VertexIterator vi(l); while (vi.hasNext()) { Lattice::InOutEdgesIterator ei(l.allOutEdges(vi.next())); std::multiset<string> es; while (ei.hasNext()) { auto e = ei.next(); if (l.getAllText().size() < 1000 || l.getEdgeLength(e) > 1) es.insert(ld::edgeFull(l, e)); } for (auto& e : es) r += e + "\n"; } return r; }
static LatticeReader<std::istream>* direct(const string& type) {
    namespace po = boost::program_options; std::unique_ptr<LatticeReaderFactory<std::istream> > f; vector<string> args;
    if (type == "txt") f.reset(new TxtLatticeReader::Factory()); else if (type == "psi") f.reset(new PsiLatticeReader::Factory()); else if (type == "utt") f.reset(new UTTLatticeReader::Factory()); else if (type == "pdf") f.reset(new PDFLatticeReader::Factory()); else if (type == "djvu") f.reset(new DjVuLatticeReader::Factory()); else if (type == "doc") f.reset(new DocLatticeReader::Factory());
    else if (type == "html" || type == "rtf" || type == "docx" || type == "xlsx" || type == "pptx") { f.reset(new ApertiumLatticeReader::Factory()); args = {"--format", type}; } else return 0;
    po::variables_map vm; if (!args.empty()) { po::store(po::command_line_parser(args).options(f->optionsHandled()).run(), vm); po::notify(vm); } return f->createLatticeReader(vm);
}
// the reading of data; what goes wrong counts as well
static string reading(LatticeReader<std::istream>* r, std::istream& s) { std::unique_ptr<LatticeReader<std::istream> > own(r); AnnotationItemManager aim; Lattice l(aim); stub::taken() = ""; string e, d; if (r) try { r->readIntoLattice(s, l); } catch (std::exception& x) { e = string("\nrefused: ") + x.what(); } try { d = dump(l); } catch (std::exception& x) { d = l.getAllText() + "\nno symbols: " + x.what(); } return d + stub::taken() + e; }
// the magic library's database is loaded once, as loading takes long
extern "C" { magic_t __real_magic_open(int); int __real_magic_load(magic_t, const char*);
magic_t __wrap_magic_open(int flags) { static map<int, magic_t> open; magic_t& m = open[flags]; if (!m) { m = __real_magic_open(flags); if (!m || __real_magic_load(m, 0)) throw vh::InternalError("magic"); } return m; }
int __wrap_magic_load(magic_t, const char*) { return 0; }
void __wrap_magic_close(magic_t) {} }
static void recognize(const string& data) {
    static FileRecognizer rec; string want = kind(data); vh::traces(); vh::outcome(want);
    vh::expectEq(rec.recognizeFileExtension(data), want, "extension", shown(data)); string type, ext; rec.recognizeMimeTypeAndFileExtension(data, type, ext); vh::expectEq(ext, want, "extension with type", shown(data));
    string m = magicType(data); vh::expectEq(type, m.substr(0, m.find('/')), "type", shown(data)); vh::expectEq(rec.recognizeMimeType(data), type, "type alone", shown(data));
}
static void guess(const string& data, int block, bool all) {
    string beginning = data.substr(0, block), want = kind(beginning); string reader = want; if (want == "zip") { reader = "UKNOWN"; bool ct = found.count("[Content_Types].xml"); if (ct && found.count("word/document.xml")) reader = "docx"; else if (ct && found.count("xl/worksheets/sheet1.xml")) reader = "xlsx"; else if (ct && found.count("ppt/slides/slide1.xml")) reader = "pptx"; }
    inStreams(data, all, [&](std::istream& s, const string& how) { GuessingReader g(block); given = ""; vh::expectEq(g.guessFileType(s), reader, "guessed", how + " " + vh::num(block) + " " + shown(data)); if (want == "zip") vh::expect(given == data, "archive", how); string left = rest(s); if (left != data) vh::fail("left in the stream", how + " " + vh::num(block) + " " + shown(data) + ": " + shown(left)); vh::traces(); });
    std::istringstream s(data); string plain = reading(direct(reader), s);
    inStreams(data, all, [&](std::istream& s, const string& how) { string got = reading(new GuessingReader(block), s); if (got != plain) vh::fail("read", how + " " + vh::num(block) + " " + reader + " " + shown(data) + ": " + shown(got) + " instead of " + shown(plain)); vh::outcome(got); vh::traces(); });
}
static void guessDefault(const string& data) { // by the options of a pipeline
    namespace po = boost::program_options; GuessingReader::Factory f; vector<string> no; po::variables_map vm; po::store(po::command_line_parser(no).options(f.optionsHandled()).run(), vm); po::notify(vm);
    std::istringstream a(data), b(data), c(data); string got = reading(f.createLatticeReader(vm), a), other = reading(new GuessingReader(), b); vh::expectEq(got, other, "default", shown(data));
    if (psi(data) && data.find("\xff") == string::npos && data.size() < 200) vh::expectEq(got, reading(direct(kind(data)), c), "default reading", shown(data));
}
void vh_run(const string& id) {
    static bool in = !chdir((string(getenv("VERIF_REPO")) + "/formats").c_str()); if (!in) throw vh::InternalError("chdir"); // where the readers find their data
    vh::state(id); auto p = vh::split(id, ':');
    if (p[0] == "r") { string d; for (size_t i = 1; i < p.size(); ++i) d += PIECES[atoi(p[i].c_str())]; recognize(d); }
    if (p[0] == "g") { string d; for (size_t i = 2; i < p.size(); ++i) d += PIECES[atoi(p[i].c_str())]; int b = atoi(p[1].c_str()); found = {}; guess(d, b, true); if (b == 32) guessDefault(d); }
    if (p[0] == "long") { int a = atoi(p[1].c_str()), b = atoi(p[2].c_str()); long n = atol(p[3].c_str()); string d = PIECES[a]; while ((long)d.size() < n) d += PIECES[b]; recognize(d); if (n == 9000) { guess(d, 32, true); guess(d, 8192, true); } if (n == 20000 && a == b) for (int block : {32, 8191, 8193, 16384, 30000}) guess(d, block, true); }
    if (p[0] == "zip") { int m = atoi(p[1].c_str()); found.clear(); const char* F[] = {"[Content_Types].xml", "word/document.xml", "xl/worksheets/sheet1.xml", "ppt/slides/slide1.xml", "other"}; for (int i = 0; i < 5; ++i) if (m >> i & 1) found.insert(F[i]); for (size_t n : {40, 9000}) guess("PK\3\4\x14" + string(n, 'x'), 32, true); }
    if (p[0] == "h") { long n = atol(p[1].c_str()), have = atol(p[2].c_str()); string d; for (long i = 0; i < have; ++i) d += "ab\n\xc5\x82\xff"[i % 6]; 
        inStreams(d, true, [&](std::istream& s, const string& how) { string what = how + " " + id; string g = getStartingDataWithoutTouchingStream(s, n); vh::expectEq(shown(g), shown(d.substr(0, n)), "beginning", what); vh::expect(g == d.substr(0, n), "beginning", what); vh::expect(getStartingDataWithoutTouchingStream(s, n) == g, "beginning again", what); vh::expect(getDataWithoutTouchingIStream(s) == d, "whole", what); char c; if (s.get(c)) { vh::expect(c == d[0], "first", what); vh::expect(getStartingDataWithoutTouchingStream(s, n) == d.substr(1, n), "beginning from the middle", what); vh::expect(getDataWithoutTouchingIStream(s) == d.substr(1), "whole from the middle", what); vh::expect(getDataFromIStream(s) == d.substr(1), "taken", what); } else vh::expect(d.empty(), "nothing left", what); s.clear(); vh::expect(rest(s).empty(), "left", what); vh::traces(); }); }
}
void vh_enumerate(vh::Emit& emit) {
    int depth = vh::thorough() ? 4 : 3;
    for (int a = 0; a < P; ++a) { emit("r:" + vh::num(a)); for (int b = 0; b < P; ++b) { emit("r:" + vh::num(a) + ":" + vh::num(b)); for (int c = 0; c < P; ++c) { emit("r:" + vh::num(a) + ":" + vh::num(b) + ":" + vh::num(c)); if (depth > 3) for (int d = 0; d < P; ++d) emit("r:" + vh::num(a) + ":" + vh::num(b) + ":" + vh::num(c) + ":" + vh::num(d)); } } }
    for (int block : {1, 9, 10, 32, 256, 10000}) for (int a = 0; a < P; ++a) { emit("g:" + vh::num(block) + ":" + vh::num(a)); for (int b = 0; b < P; ++b) { emit("g:" + vh::num(block) + ":" + vh::num(a) + ":" + vh::num(b)); if (vh::thorough()) for (int c = 0; c < P; ++c) emit("g:" + vh::num(block) + ":" + vh::num(a) + ":" + vh::num(b) + ":" + vh::num(c)); } }
    for (int a = 0; a < P; ++a) for (int b : {0, 8, 13}) for (long n : {9000L, 20000L, 400000L}) emit("long:" + vh::num(a) + ":" + vh::num(b) + ":" + vh::num(n));
    for (int m = 0; m < 32; ++m) emit("zip:" + vh::num(m));
    for (long n : {0, 1, 2, 31, 32, 33, 4095, 4096, 4097, 8191, 8192, 8193, 20000}) for (long h : {0, 1, 2, 31, 32, 33, 4095, 4096, 4097, 8191, 8192, 8193, 20000}) emit("h:" + vh::num(n) + ":" + vh::num(h));
}
