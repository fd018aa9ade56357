// A stand-in for formats/doc/doc_lattice_reader.hpp (which needs a plugin): the whole input is put in the lattice under its name.
#ifndef STUB_doc_READER
#define STUB_doc_READER
#include "stub_reader.hpp"
namespace stub { struct DocName { static const char* name() { return "doc-reader"; } }; }
struct DocLatticeReader { typedef stub::Factory<stub::DocName> Factory; };
#endif
