// A stand-in for formats/djvu/djvu_lattice_reader.hpp (which needs a plugin): the whole input is put in the lattice under its name.
#ifndef STUB_djvu_READER
#define STUB_djvu_READER
#include "stub_reader.hpp"
namespace stub { struct DjVuName { static const char* name() { return "djvu-reader"; } }; }
struct DjVuLatticeReader { typedef stub::Factory<stub::DjVuName> Factory; };
#endif
