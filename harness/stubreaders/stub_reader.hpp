#ifndef STUB_READER
#define STUB_READER
#include "stream_lattice_reader.hpp"
#include "lattice_reader_factory.hpp"
#include <iterator>
#include <string>
namespace stub {
inline std::string& taken() { static std::string t; return t; }
struct Worker : ReaderWorker<std::istream> { std::string n; Worker(std::istream& s, Lattice& l, const std::string& n) : ReaderWorker<std::istream>(s, l), n(n) {} void doRun() { taken() = n + ":" + std::string((std::istreambuf_iterator<char>(inputStream_)), std::istreambuf_iterator<char>()); } };
struct Reader : StreamLatticeReader { std::string n; Reader(const std::string& n) : n(n) {} std::string getFormatName() { return n; } std::string doInfo() { return n; } ReaderWorker<std::istream>* doCreateReaderWorker(std::istream& s, Lattice& l) { return new Worker(s, l, n); } };
template <class N> struct Factory : LatticeReaderFactory<std::istream> {
    LatticeReader<std::istream>* doCreateLatticeReader(const boost::program_options::variables_map&) { return new Reader(N::name()); }
    boost::program_options::options_description doOptionsHandled() { return boost::program_options::options_description(""); }
    std::string doGetName() const { return N::name(); } boost::filesystem::path doGetFile() const { return __FILE__; }
};
}
#endif
