// Bounded-exhaustive exploration framework shared by all harnesses.
//
// A harness defines
//     void vh_enumerate(vh::Emit& emit)        -- emit(id) for every case of the bounded space, simplest first
//     void vh_run(const std::string& id)       -- executes ONE case against the real code and the oracle
// A case id is self-contained, so every violation is replayed with  --replay-file F  alone.
#ifndef VH_HPP
#define VH_HPP
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>
#include <fcntl.h>
#include <sys/mman.h>
#include <unistd.h>
#include <exception>
#include <stdexcept>
#include <typeinfo>

namespace vh {

struct Shared {                 // survives a crash of the shard process
    uint64_t index;             // 1-based index (within all cases) of the case being run, 0 = none
    uint64_t evaluations, transitions, traces, nontrivial;
    uint64_t done;
    uint64_t idlen;
    char id[1 << 16];
};

struct State {
    Shared* sh = nullptr;
    int shard = 0, nshards = 1;
    uint64_t skipUntil = 0;
    bool thorough = false, replay = false;
    unsigned caseTimeout = 20;
    uint64_t counter = 0, nviol = 0;
    std::string current;
    std::unordered_set<uint64_t> states, outcomes;
    std::vector<std::string> samples;
    std::map<std::string, uint64_t> tally;
    std::map<std::string, uint64_t> violCount;
    FILE* viol = nullptr;
    std::string outPrefix;
    bool caseFailed = false;
};
inline State& S() { static State s; return s; }

inline uint64_t hash64(const std::string& s) {
    uint64_t h = 1469598103934665603ULL;
    for (unsigned char c : s) { h ^= c; h *= 1099511628211ULL; }
    h ^= h >> 29; h *= 0xbf58476d1ce4e5b9ULL; h ^= h >> 32;
    return h;
}

inline bool thorough() { return S().thorough; }
inline bool replaying() { return S().replay; }

inline std::string esc(const std::string& s) {   // printable, reversible
    std::string r; char b[8];
    for (unsigned char c : s) {
        if (c == '\\') r += "\\\\";
        else if (c == '\n') r += "\\n";
        else if (c < 32 || c >= 127) { snprintf(b, sizeof b, "\\x%02x", c); r += b; }
        else r += (char)c;
    }
    return r;
}
inline std::string unesc(const std::string& s) {
    std::string r;
    for (size_t i = 0; i < s.size(); ++i) {
        if (s[i] != '\\') { r += s[i]; continue; }
        ++i;
        if (s[i] == '\\') r += '\\';
        else if (s[i] == 'n') r += '\n';
        else if (s[i] == 'x') { r += (char)strtol(s.substr(i + 1, 2).c_str(), 0, 16); i += 2; }
    }
    return r;
}
inline std::string num(long long n) { return std::to_string(n); }
inline std::vector<std::string> split(const std::string& s, char sep) {
    std::vector<std::string> r(1);
    for (char c : s) { if (c == sep) r.push_back(""); else r.back() += c; }
    return r;
}
inline std::string jstr(const std::string& s) {
    std::string r = "\""; char b[8];
    for (unsigned char c : esc(s)) {
        if (c == '"' || c == '\\') { r += '\\'; r += (char)c; }
        else if (c < 32) { snprintf(b, sizeof b, "\\u%04x", c); r += b; }
        else r += (char)c;
    }
    return r + "\"";
}

// coverage -----------------------------------------------------------------
inline void state(const std::string& canon) { S().states.insert(hash64(canon)); }
inline void stateHash(uint64_t h) { S().states.insert(h); }
inline void outcome(const std::string& o) { S().outcomes.insert(hash64(o)); }
inline void transitions(uint64_t n = 1) { S().sh->transitions += n; }
inline void traces(uint64_t n = 1) { S().sh->traces += n; }
inline void nontrivial(uint64_t n = 1) { S().sh->nontrivial += n; }
inline void tally(const std::string& k, uint64_t n = 1) { S().tally[k] += n; }
inline void sample(const std::string& s) { if (S().samples.size() < 4) S().samples.push_back(s); }

// a violation of the property: key = class of the violation, detail = what differs
inline void fail(const std::string& key, const std::string& detail) {
    State& s = S();
    s.caseFailed = true;
    uint64_t n = ++s.violCount[key];
    ++s.nviol;
    if (s.replay) { printf("VIOLATES key=%s\n  case: %s\n  %s\n", key.c_str(), esc(s.current).c_str(), detail.c_str()); fflush(stdout); }
    if (n <= 400 && s.viol) {
        fprintf(s.viol, "{\"key\":%s,\"case\":%s,\"detail\":%s,\"index\":%llu}\n", jstr(key).c_str(), jstr(s.current).c_str(),
                jstr(detail.substr(0, 4000)).c_str(), (unsigned long long)s.counter);
        fflush(s.viol);
    }
}
template <class A, class B>
inline bool expectEq(const A& got, const B& want, const std::string& key, const std::string& what) {
    if (got == want) return true;
    std::ostringstream o; o << what << ": got [" << got << "] expected [" << want << "]";
    fail(key, o.str());
    return false;
}
inline bool expect(bool ok, const std::string& key, const std::string& what) {
    if (!ok) fail(key, what);
    return ok;
}

struct Emit {
    void operator()(const std::string& id);
};

struct InternalError : std::runtime_error { using std::runtime_error::runtime_error; };

}  // namespace vh

void vh_enumerate(vh::Emit& emit);
void vh_run(const std::string& id);

namespace vh {

// A shorter time for one case; when a case is run again, alone, only the caller's limit counts.
inline void limit(unsigned seconds) { if (!S().replay) alarm(seconds); }

inline void runOne(const std::string& id) {
    State& s = S();
    s.current = id;
    s.caseFailed = false;
    Shared* sh = s.sh;
    size_t n = id.size() < sizeof(sh->id) ? id.size() : sizeof(sh->id) - 1;
    memcpy(sh->id, id.data(), n);
    sh->idlen = n;
    sh->index = s.counter;
    if (s.caseTimeout) alarm(s.caseTimeout);
    try {
        vh_run(id);
    } catch (const InternalError& e) {
        fprintf(stderr, "harness error: %s\n", e.what());
        _exit(77);
    } catch (const std::exception& e) {
        fail(std::string("exception:") + typeid(e).name(), std::string("unexpected exception: ") + e.what());
    } catch (...) {
        fail("exception:unknown", "unexpected exception of unknown type");
    }
    ++sh->evaluations;
    sh->index = 0;
}

inline void Emit::operator()(const std::string& id) {
    State& s = S();
    ++s.counter;
    if ((int)(s.counter % s.nshards) != s.shard) return;
    if (s.counter <= s.skipUntil) return;
    if (s.nviol > 20000) return;
    if (s.samples.size() < 2) sample(id);
    runOne(id);
}

inline int main_(int argc, char** argv) {
    State& s = S();
    std::string replayFile;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto next = [&]() { return std::string(argv[++i]); };
        if (a == "--shard") s.shard = atoi(next().c_str());
        else if (a == "--nshards") s.nshards = atoi(next().c_str());
        else if (a == "--skip-until") s.skipUntil = strtoull(next().c_str(), 0, 10);
        else if (a == "--thorough") s.thorough = true;
        else if (a == "--out") s.outPrefix = next();
        else if (a == "--replay-file") { replayFile = next(); s.replay = true; }
        else if (a == "--case-timeout") s.caseTimeout = atoi(next().c_str());
    }
    std::string shm = s.outPrefix.empty() ? std::string("/dev/null") : s.outPrefix + ".shm";
    if (s.outPrefix.empty()) {
        s.sh = (Shared*)calloc(1, sizeof(Shared));
    } else {
        int fd = open(shm.c_str(), O_RDWR | O_CREAT, 0600);
        if (fd < 0 || ftruncate(fd, sizeof(Shared)) != 0) { perror("shm"); return 77; }
        s.sh = (Shared*)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        s.sh->done = 0;
        s.viol = fopen((s.outPrefix + ".viol").c_str(), "a");
    }
    if (s.replay) {
        FILE* f = fopen(replayFile.c_str(), "rb");
        std::string id; char b[4096]; size_t n;
        while (f && (n = fread(b, 1, sizeof b, f)) > 0) id.append(b, n);
        if (f) fclose(f);
        runOne(id);
        if (s.nviol) return 1;
        printf("case holds: %s\n", esc(id).c_str());
        return 0;
    }
    Emit e;
    vh_enumerate(e);
    alarm(0);
    s.sh->done = 1;
    FILE* f = fopen((s.outPrefix + ".cov").c_str(), "wb");
    fprintf(f, "{\"cases\":%llu,\"samples\":[", (unsigned long long)s.counter);
    for (size_t i = 0; i < s.samples.size(); ++i) fprintf(f, "%s%s", i ? "," : "", jstr(s.samples[i].substr(0, 300)).c_str());
    fprintf(f, "],\"tally\":{");
    bool first = true;
    for (auto& p : s.tally) { fprintf(f, "%s%s:%llu", first ? "" : ",", jstr(p.first).c_str(), (unsigned long long)p.second); first = false; }
    fprintf(f, "},\"viol\":{");
    first = true;
    for (auto& p : s.violCount) { fprintf(f, "%s%s:%llu", first ? "" : ",", jstr(p.first).c_str(), (unsigned long long)p.second); first = false; }
    fprintf(f, "}}\n");
    fclose(f);
    auto dump = [&](const char* ext, std::unordered_set<uint64_t>& st) {
        FILE* g = fopen((s.outPrefix + ext).c_str(), "wb");
        std::vector<uint64_t> v(st.begin(), st.end());
        if (!v.empty()) fwrite(v.data(), 8, v.size(), g);
        fclose(g);
    };
    dump(".states", s.states);
    dump(".outcomes", s.outcomes);
    return 0;
}

// all strings over an alphabet (of possibly multi-byte symbols) up to a length, shortest first
inline void strings(const std::vector<std::string>& alphabet, size_t maxLen, const std::function<void(const std::string&)>& f, size_t minLen = 0) {
    for (size_t len = minLen; len <= maxLen; ++len) {
        std::vector<size_t> ix(len, 0);
        while (true) {
            std::string s;
            for (size_t i : ix) s += alphabet[i];
            f(s);
            size_t k = len;
            while (k > 0 && ++ix[k - 1] == alphabet.size()) ix[--k] = 0;
            if (k == 0) break;
        }
    }
}
// all sequences of small ints
inline void sequences(size_t base, size_t len, const std::function<void(const std::vector<int>&)>& f) {
    std::vector<int> ix(len, 0);
    while (true) {
        f(ix);
        size_t k = len;
        while (k > 0 && ++ix[k - 1] == (int)base) ix[--k] = 0;
        if (k == 0) break;
    }
}

}  // namespace vh

#ifndef VH_NO_MAIN
int main(int argc, char** argv) { return vh::main_(argc, argv); }
#endif
#endif
