// Processors which only record that they were run and with which options; they are registered in the real factories' keeper.
#ifndef FAKE_PROCESSORS_HPP
#define FAKE_PROCESSORS_HPP
#include "annotator_factory.hpp"
#include "language_dependent_annotator_factory.hpp"
#include "lattice_reader_factory.hpp"
#include "lattice_writer_factory.hpp"
#include "main_factories_keeper.hpp"
#include "psi_exception.hpp"
#include <boost/assign/list_of.hpp>
namespace fake {
namespace po = boost::program_options;
using std::string; using std::vector; using std::list;
inline vector<string>& log() { static vector<string> l; return l; }
inline string describe(const string& name, const po::variables_map& vm) {
    string r = name;
    for (auto& p : vm) {
        auto* lang = boost::any_cast<string>(&p.second.value());
        if (p.second.defaulted() && !(p.first == "lang" && lang && *lang != "guess")) continue;      // a language chosen for the user is shown
        r += " " + p.first;
        if (auto* s = boost::any_cast<string>(&p.second.value())) r += "=[" + *s + "]";
        else if (auto* v = boost::any_cast<vector<string> >(&p.second.value())) for (auto& x : *v) r += "=[" + x + "]";
    }
    return r;
}
struct Worker : LatticeWorker {
    string d; Worker(Lattice& l, const string& d) : LatticeWorker(l), d(d) {}
    void doRun() { log().push_back(d); }
};
struct RWorker : ReaderWorker<std::istream> {
    string d; RWorker(std::istream& s, Lattice& l, const string& d) : ReaderWorker<std::istream>(s, l), d(d) {}
    void doRun() {
        string t, line; while (std::getline(inputStream_, line)) { t += line; if (!inputStream_.eof()) t += "\n"; }
        log().push_back(d + " <" + t + ">"); lattice_.appendStringWithSymbols(t);
    }
};
struct WWorker : WriterWorker<std::ostream> {
    string d; WWorker(std::ostream& s, Lattice& l, const string& d) : WriterWorker<std::ostream>(s, l), d(d) {}
    void doRun() { log().push_back(d); getOutputStream() << "{" << lattice_.getAllText() << "}"; }
};
struct Ann : Annotator { string d; Ann(const string& d) : d(d) {} LatticeWorker* doCreateLatticeWorker(Lattice& l) { return new Worker(l, d); } string doInfo() { return d; } };
struct Reader : LatticeReader<std::istream> {
    string d; Reader(const string& d) : d(d) {}
    string getFormatName() { return "F"; } string doInfo() { return d; }
    ReaderWorker<std::istream>* doCreateReaderWorker(std::istream& s, Lattice& l) { return new RWorker(s, l, d); }
};
struct Writer : LatticeWriter<std::ostream> {
    string d; Writer(const string& d) : d(d) {}
    string getFormatName() { return "F"; } string doInfo() { return d; }
    WriterWorker<std::ostream>* doCreateWriterWorker(std::ostream& s, Lattice& l) { return new WWorker(s, l, d); }
};
// options: a string with one letter per option of the processor (s string, m several strings, f switch) followed by its name
inline void addOptions(po::options_description& o, const vector<string>& opts) {
    for (auto& x : opts) {
        string n = x.substr(1);
        if (x[0] == 's') o.add_options()(n.c_str(), po::value<string>(), "");
        else if (x[0] == 'm') o.add_options()(n.c_str(), po::value<vector<string> >()->multitoken(), "");
        else o.add_options()(n.c_str(), "");
    }
}
struct ReaderF : LatticeReaderFactory<std::istream> {
    string n; vector<string> o; ReaderF(const string& n, vector<string> o) : n(n), o(o) {}
    LatticeReader<std::istream>* doCreateLatticeReader(const po::variables_map& vm) { return new Reader(describe(n, vm)); }
    po::options_description doOptionsHandled() { po::options_description d(OPTION_LABEL); addOptions(d, o); return d; }
    string doGetName() const { return n; } boost::filesystem::path doGetFile() const { return __FILE__; }
};
struct WriterF : LatticeWriterFactory<std::ostream> {
    string n; vector<string> o; WriterF(const string& n, vector<string> o) : n(n), o(o) {}
    LatticeWriter<std::ostream>* doCreateLatticeWriter(const po::variables_map& vm) { return new Writer(describe(n, vm)); }
    po::options_description doOptionsHandled() { po::options_description d(OPTION_LABEL); addOptions(d, o); return d; }
    string doGetName() const { return n; } boost::filesystem::path doGetFile() const { return __FILE__; }
};
typedef list<list<string> > Tags2;
enum Handling { INDEP, JUST_PL, JUST_EN, DEP_PL, DEP_EN, DEP_BOTH, DEP_NONE, GUESSER };
struct Kind { string name; vector<string> opts; Handling h; Tags2 req; list<string> prov; double quality, time; bool creatable; };
template <class Base> struct AnnBase : Base {
    Kind k; AnnBase(const Kind& k) : k(k) {}
    Annotator* doCreateAnnotator(const po::variables_map& vm) { if (!k.creatable) throw PsiException(k.name + " cannot be created"); return new Ann(describe(k.name, vm)); }
    Tags2 doRequiredLayerTags() { return k.req; } Tags2 doOptionalLayerTags() { return Tags2(); } list<string> doProvidedLayerTags() { return k.prov; }
    double doGetQualityScore(const po::variables_map&) const { return k.quality; } double doGetEstimatedTime(const po::variables_map&) const { return k.time; }
    string doGetName() const { return k.name; } boost::filesystem::path doGetFile() const { return __FILE__; }
};
struct PlainF : AnnBase<AnnotatorFactory> {
    PlainF(const Kind& k) : AnnBase<AnnotatorFactory>(k) {}
    po::options_description doOptionsHandled() { po::options_description d(OPTION_LABEL); addOptions(d, k.opts); return d; }
    LanguagesHandling doLanguagesHandling(const po::variables_map&) const { return k.h == GUESSER ? LANGUAGE_GUESSER : k.h == INDEP ? LANGUAGE_INDEPENDENT : JUST_ONE_LANGUAGE; }
    list<string> doLanguagesHandled(const po::variables_map&) const { list<string> l; if (k.h == JUST_PL) l.push_back("pl"); if (k.h == JUST_EN) l.push_back("en"); return l; }
};
struct DepF : AnnBase<LanguageDependentAnnotatorFactory> {
    DepF(const Kind& k) : AnnBase<LanguageDependentAnnotatorFactory>(k) {}
    void doAddLanguageIndependentOptionsHandled(po::options_description& d) { addOptions(d, k.opts); }
    list<string> doAllLanguagesHandled() const { list<string> l; if (k.h == DEP_EN || k.h == DEP_BOTH) l.push_back("en"); if (k.h == DEP_PL || k.h == DEP_BOTH) l.push_back("pl"); return l; }
};
inline AnnotatorFactory* makeAnnotatorFactory(const Kind& k) {
    if (k.h == DEP_PL || k.h == DEP_EN || k.h == DEP_BOTH || k.h == DEP_NONE) return new DepF(k);
    return new PlainF(k);
}
}
#endif
