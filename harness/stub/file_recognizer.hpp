// A stand-in for common/file_recognizer.hpp (libmagic): the first character decides.
#ifndef FILE_RECOGNIZER_HDR
#define FILE_RECOGNIZER_HDR
#include <string>
class FileRecognizer {
public:
    static const std::string UNKNOWN_TYPE, UNKNOWN_EXTENSION;
    std::string recognizeMimeType(const std::string& s) { std::string t, e; recognizeMimeTypeAndFileExtension(s, t, e); return t; }
    std::string recognizeFileExtension(const std::string& s) { std::string t, e; recognizeMimeTypeAndFileExtension(s, t, e); return e; }
    void recognizeMimeTypeAndFileExtension(const std::string& s, std::string& type, std::string& ext) {
        char c = s.empty() ? 0 : s[s.size() - 1];
        if (c == 'U') { type = UNKNOWN_TYPE; ext = UNKNOWN_EXTENSION; } else if (c == 'P') { type = "image"; ext = "png"; } else if (c == 'V') { type = "image"; ext = "svg"; } else if (c == 'D') { type = "application"; ext = "pdf"; } else { type = "text"; ext = c == 'X' ? "UKNOWN" : c == 'H' ? "html" : "txt"; }
    }
};
#endif
