// Worker-side framework: a module is a function run once per case index. Everything random derives from
// (seed, module, index), so every reported case can be replayed alone.
#pragma once
#include "gen.hpp"
#include "stl_driver.h"
#include "robustness.h"
#include <unordered_set>
#include <functional>
namespace mon {
using namespace orc;

struct Run {
    std::string mod;
    uint64_t seed = 1;
    long index = 0;
    bool verbose = false;
    int tier = 0;                             // 0 quick, 1 thorough
    long evals = 0, nontriv = 0, skipped = 0;
    std::map<std::string, long> cnt;          // what the monitor observed
    std::unordered_set<uint64_t> seen;        // fingerprints of the non-trivial cases
    std::vector<std::string> samples;
    FILE *out = nullptr;
    long nviol = 0;
    std::map<std::string, int> bykind;

    void count(const std::string &k, long n = 1) { cnt[k] += n; }
    void nontrivial(uint64_t fp) { nontriv++; seen.insert(fp); }
    void sample(const std::string &s) { if (samples.size() < 3) samples.push_back(s); }
    // report a violation; kind is a stable label of what failed
    void fail(const std::string &kind, const std::string &descr);
    bool want(const std::string &kind) { return bykind[kind] < 2; }   // shrink only the first few of a kind
};
typedef void (*CaseFn)(Run &, Rng &);
struct Module { const char *name; CaseFn fn; };
std::vector<Module> &modules();
struct Reg { Reg(const char *n, CaseFn f) { modules().push_back({n, f}); } };
#define MODULE(name) \
    static void mod_##name(mon::Run &R, orc::Rng &r); \
    static mon::Reg reg_##name(#name, mod_##name); \
    static void mod_##name(mon::Run &R, orc::Rng &r)

static inline uint64_t hash_str(const std::string &s) { uint64_t h = 1469598103934665603ull; for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; } return h; }

// ---------------------------------------------------------------- the code under test
struct R3 { double r, l, u; };
static inline bool same(const R3 &a, const R3 &b) { return a.r == b.r && a.l == b.l && a.u == b.u; }
static inline std::string str(const R3 &a) { return "[rob=" + dnum(a.r) + ", low=" + dnum(a.l) + ", up=" + dnum(a.u) + "]"; }
static inline const char *sem_name(SemK s) { return s == SPACE ? "SPACE" : s == LEFT ? "LEFT_TIME" : "RIGHT_TIME"; }
static inline const char *int_name(bool lin) { return lin ? "LINEAR" : "PREVIOUS"; }

static inline bool setup(STLRom::STLDriver &d, const Case &c, const std::string &text) {
    if (!d.parse_string(text)) return false;
    d.set_interpol(int_name(c.linear));
    d.set_semantics(sem_name(c.sem));
    for (auto &row : c.tr) d.add_sample(row);
    return true;
}
static inline std::string case_text(const Case &c) { return decl_text(c) + "phi := " + form_text(c.f, Names()); }
static inline bool eval_driver(const Case &c, R3 &o) {
    STLRom::STLDriver d;
    if (!setup(d, c, case_text(c))) return false;
    auto v = d.get_online_rob("phi", c.t0);
    if (v.size() != 3) return false;
    o = {v[0], v[1], v[2]};
    return true;
}
static inline bool eval_monitor(const Case &c, R3 &o) {
    STLRom::STLDriver d;
    if (!d.parse_string(case_text(c))) return false;
    STLRom::STLMonitor m = d.get_monitor("phi");
    m.set_interpol(int_name(c.linear));
    m.set_semantics(sem_name(c.sem));
    for (auto &row : c.tr) m.add_sample(row);
    double v = m.eval_rob(c.t0);
    o = {v, m.get_lower_rob(), m.get_upper_rob()};
    return true;
}
static inline Ctx ctx(const Case &c) { Ctx x; x.tr = &c.tr; x.par = &c.par; x.linear = c.linear; x.sem = c.sem; return x; }
inline double &tol_scale() { static double v = 1; return v; }     // of the values of the case at hand
static inline double tol(double v) { return 1e-6 * (tol_scale() + std::fabs(v)); }
static inline uint64_t fingerprint(const Case &c) { return hash_str(describe(c)); }
static inline bool finite(const R3 &o) { return std::isfinite(o.r) && std::isfinite(o.l) && std::isfinite(o.u); }
static inline bool covered(const Case &c) { return c.t0 + horizon(c.f, c.par) <= c.tr.back()[0]; }

std::string ref_str(const Case &c);
} // namespace mon
