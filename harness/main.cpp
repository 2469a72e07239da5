// mon MODULE SEED FROM TO STEP OUT [-v]   runs the cases FROM, FROM+STEP, ... < TO
// mon --list
#include "mon.hpp"
#include <csignal>
#include <ctime>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <unistd.h>
namespace mon {
std::vector<Module> &modules() { static std::vector<Module> m; return m; }
static std::string esc(const std::string &s) {
    std::string o;
    for (unsigned char ch : s) {
        if (ch == '"' || ch == '\\') { o += '\\'; o += ch; }
        else if (ch == '\n') o += "\\n";
        else if (ch < 0x20 || ch >= 0x7f) { char b[8]; snprintf(b, sizeof b, "\\u%04x", ch); o += b; }
        else o += ch;
    }
    return o;
}
void Run::fail(const std::string &kind, const std::string &descr) {
    nviol++;
    if (bykind[kind]++ < 5) {
        fprintf(out, "{\"viol\":\"%s\",\"index\":%ld,\"descr\":\"%s\"}\n", esc(kind).c_str(), index, esc(descr).c_str());
        fflush(out);
    }
    if (verbose) fprintf(stderr, "VIOLATION %s (case %ld)\n%s\n", kind.c_str(), index, descr.c_str());
}
std::string ref_str(const Case &c) {
    Ctx x = ctx(c);
    return "reference: low=" + dnum(value(c.f, true, x, c.t0)) + " up=" + dnum(value(c.f, false, x, c.t0));
}
} // namespace mon
using namespace mon;

static volatile long *prog;
static void on_cpu(int) { prog[1] = 1; _exit(77); }

int main(int argc, char **argv) {
    if (argc == 2 && std::string(argv[1]) == "--list") { for (auto &m : modules()) puts(m.name); return 0; }
    if (argc < 7) { fprintf(stderr, "usage\n"); return 64; }
    Run R;
    R.mod = argv[1];
    R.seed = strtoull(argv[2], 0, 10);
    long from = atol(argv[3]), to = atol(argv[4]), step = atol(argv[5]);
    std::string outp = argv[6];
    for (int i = 7; i < argc; i++) if (std::string(argv[i]) == "-v") R.verbose = true;
    if (getenv("VERIF_TIER") && std::string(getenv("VERIF_TIER")) == "thorough") R.tier = 1;
    CaseFn fn = nullptr;
    for (auto &m : modules()) if (R.mod == m.name) fn = m.fn;
    if (!fn) { fprintf(stderr, "no module %s\n", R.mod.c_str()); return 64; }
    R.out = fopen(outp.c_str(), "w");
    int pf = open((outp + ".progress").c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
    if (!R.out || pf < 0 || ftruncate(pf, 64)) { fprintf(stderr, "cannot write %s\n", outp.c_str()); return 64; }
    prog = (volatile long *)mmap(nullptr, 64, PROT_READ | PROT_WRITE, MAP_SHARED, pf, 0);
    if (prog == MAP_FAILED) return 64;
    int cpu = getenv("MON_CPU") ? atoi(getenv("MON_CPU")) : 20;   // seconds of CPU per case
    signal(SIGPROF, on_cpu);
    if (!R.verbose) { int nul = open("/dev/null", O_WRONLY); dup2(nul, 1); }   // the library prints on stdout
    std::cerr.setstate(std::ios_base::failbit);                               // and parse errors on stderr
    if (getenv("MON_AS")) { rlimit l; l.rlim_cur = l.rlim_max = (rlim_t)atol(getenv("MON_AS")) << 20; setrlimit(RLIMIT_AS, &l); }
    double slow = getenv("MON_SLOW") ? atof(getenv("MON_SLOW")) : 0;          // report slower cases
    long until = getenv("MON_UNTIL") ? atol(getenv("MON_UNTIL")) : 0;         // stop between cases at this time
    for (long i = from; i < to; i += step) {
        if (until && time(nullptr) >= until && i > from) { R.count("stopped at the time budget"); break; }
        prog[0] = i;
        R.index = i;
        itimerval it = {{0, 0}, {cpu, 0}};
        if (cpu) setitimer(ITIMER_PROF, &it, nullptr);
        Rng r(mix(mix(R.seed, hash_str(R.mod)), (uint64_t)i));
        Names::cur() = Names::Lists();
        try { fn(R, r); }
        catch (const std::exception &e) { R.fail("unexpected-exception", std::string("case of module ") + R.mod + " threw: " + e.what()); }
        if (cpu && slow > 0) { itimerval left; getitimer(ITIMER_PROF, &left); double used = cpu - left.it_value.tv_sec - left.it_value.tv_usec * 1e-6; if (used > slow) fprintf(stderr, "slow: %s %ld %.1f s\n", R.mod.c_str(), i, used); }
    }
    itimerval off = {{0, 0}, {0, 0}};
    setitimer(ITIMER_PROF, &off, nullptr);
    prog[2] = 1;
    FILE *h = fopen((outp + ".seen").c_str(), "wb");
    for (uint64_t v : R.seen) fwrite(&v, 8, 1, h);
    fclose(h);
    fprintf(R.out, "{\"done\":1,\"evals\":%ld,\"nontrivial\":%ld,\"skipped\":%ld,\"nviol\":%ld,\"cnt\":{", R.evals, R.nontriv, R.skipped, R.nviol);
    bool first = true;
    for (auto &p : R.cnt) { fprintf(R.out, "%s\"%s\":%ld", first ? "" : ",", esc(p.first).c_str(), p.second); first = false; }
    fprintf(R.out, "},\"samples\":[");
    for (size_t i = 0; i < R.samples.size(); i++) fprintf(R.out, "%s\"%s\"", i ? "," : "", esc(R.samples[i]).c_str());
    fprintf(R.out, "]}\n");
    fclose(R.out);
    return 0;
}
