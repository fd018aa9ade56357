// A stand-in for framework/pipe_runner.hpp in the server harnesses: a pipeline which spells its input backwards.
#ifndef PIPE_RUNNER_HDR
#define PIPE_RUNNER_HDR
#include <istream>
#include <ostream>
#include <sstream>
#include <stdexcept>
#include <string>
#include "psi_exception.hpp"
class PipeRunner {
    std::string pipe_;
public:
    class Exception : public PsiException { public: Exception(const std::string& m) : PsiException(m) {} virtual ~Exception() throw() {} };
    explicit PipeRunner(const std::string& p) : pipe_(p) { if (p.find("broken") == 0) throw Exception(p); }
    std::string run(const std::string& s) { if (pipe_.find("failing") == 0) throw std::runtime_error(pipe_); return std::string(s.rbegin(), s.rend()); }
    int run(std::istream& in, std::ostream& out) { std::string s((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>()); out << run(s); return 0; }
    int runLine(const std::string& s, std::ostream& out) { out << run(s); return 0; }
};
#endif
