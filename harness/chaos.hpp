// Random sequences of calls on every part of the public interface, well-formed and not. The oracle is outside: the
// sanitizers (C16), the allocation counter (C17), the exception types.
#pragma once
#include "evalcheck.hpp"
#include <memory>
#include <fstream>
#include <unistd.h>
namespace mon {
struct Chaos {
    Run &R;
    Rng r;
    bool hostile;                    // also NaN, infinities, reversed or huge intervals, short rows, random bytes
    bool files;
    std::vector<std::unique_ptr<STLRom::STLDriver>> D;
    std::vector<std::unique_ptr<STLRom::STLMonitor>> M;
    std::vector<std::unique_ptr<STLRom::Signal>> S;
    long calls = 0, thrown = 0, refused = 0;
    bool foreign = false;
    std::string log;                 // kept only if `keep`
    bool keep = false;
    int serial = 0;
    Chaos(Run &R, const Rng &r, bool hostile, bool files) : R(R), r(r), hostile(hostile), files(files) {}
    void run(int steps);
    void step();
    double num_();
    double time_();
    std::string text();
    void note(const std::string &s) { if (keep) { log += s + "\n"; if (R.verbose) fprintf(stderr, "%s\n", s.c_str()); } }
};
std::string mutate_text(Rng &r, std::string s);
}
