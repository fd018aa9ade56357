// A stand-in for formats/pdf/pdf_lattice_reader.hpp (which needs a plugin): the whole input is put in the lattice under its name.
#ifndef STUB_pdf_READER
#define STUB_pdf_READER
#include "stub_reader.hpp"
namespace stub { struct PDFName { static const char* name() { return "pdf-reader"; } }; }
struct PDFLatticeReader { typedef stub::Factory<stub::PDFName> Factory; };
#endif
