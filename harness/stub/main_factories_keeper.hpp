// A stand-in for framework/main_factories_keeper.hpp.
#ifndef MAIN_FACTORIES_KEEPER_HDR
#define MAIN_FACTORIES_KEEPER_HDR
#include <set>
#include <string>
class MainFactoriesKeeper { public: static MainFactoriesKeeper& getInstance() { static MainFactoriesKeeper k; return k; } std::set<std::string> getAllAliases(std::string) { std::set<std::string> s; s.insert("guess"); return s; } };
#endif
