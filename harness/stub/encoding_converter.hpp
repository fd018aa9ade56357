// A stand-in for common/encoding_converter.hpp: nothing is converted.
#ifndef ENCODING_CONVERTER_HDR
#define ENCODING_CONVERTER_HDR
#include <string>
class EncodingConverter { public: EncodingConverter() {} EncodingConverter(std::string) {} std::string detect(std::string) { return "UTF-8"; } std::string convert(std::string t) { return t; } std::string convert(std::string, std::string t) { return t; } std::string convert(std::string, std::string, std::string t) { return t; } std::string getTargetEncoding() { return "UTF-8"; } };
#endif
