// C16: hostile call sequences under sanitizers. C17: no allocation outlives its owner. C21: bounded work.
#include <unistd.h>
#include "chaos.hpp"
#include <malloc.h>
#include <cstring>
using namespace mon;
using namespace STLRom;

MODULE(hostile) {
    Chaos c(R, r, true, true);
    c.keep = R.verbose;
    c.run(r.range(5, 40));
    R.evals++;
    R.count("calls", c.calls);
    R.count("calls that threw", c.thrown);
    R.count("texts refused", c.refused);
    if (c.foreign) R.fail("foreign-exception", "an exception that is not a std::exception");
    uint64_t h = 0;
    for (auto &d : c.D) h = mix(h, d->formula_map.size() * 1000003 + d->data.size() * 31 + d->test_log.size());
    R.nontrivial(mix(h, mix(c.calls, R.index)));
}

// ---------------------------------------------------------------- allocations
#ifdef MON_LEAK
extern "C" { void *__libc_malloc(size_t); void *__libc_calloc(size_t, size_t); void *__libc_realloc(void *, size_t); void __libc_free(void *); void *__libc_memalign(size_t, size_t); }
static long live_blocks, live_bytes, total_allocs;
// the size asked for is kept in front of each block (what malloc rounds it up to depends on how the heap happens to be cut)
struct Head { void *base; size_t n; size_t magic, pad; };
static const size_t MAGIC = 0x6d6f6e6c65616b21ul;
static inline Head *head(void *p) { return (Head *)((char *)p - sizeof(Head)); }
static void *take(size_t n, size_t align) {
    if (n > (size_t)1 << 60) return nullptr;
    if (align < 16) align = 16;
    char *base = (char *)(align == 16 ? __libc_malloc(n + sizeof(Head)) : __libc_malloc(n + sizeof(Head) + align));
    if (!base) return nullptr;
    char *p = base + sizeof(Head);
    p += (align - (uintptr_t)p % align) % align;
    *head(p) = Head{base, n, MAGIC, 0};
    live_blocks++; live_bytes += n; total_allocs++;
    return p;
}
static void drop(void *p) {
    if (!p) return;
    Head *h = head(p);
    if (h->magic != MAGIC) { __libc_free(p); return; }
    live_blocks--; live_bytes -= h->n;
    h->magic = 0;
    __libc_free(h->base);
}
extern "C" void *malloc(size_t n) { return take(n, 16); }
extern "C" void *calloc(size_t a, size_t b) { size_t n; if (__builtin_mul_overflow(a, b, &n)) return nullptr; void *p = take(n, 16); if (p) memset(p, 0, n); return p; }
extern "C" void free(void *p) { drop(p); }
extern "C" void *realloc(void *p, size_t n) {
    if (!p) return take(n, 16);
    if (!n) { drop(p); return nullptr; }
    void *q = take(n, 16);
    if (!q) return nullptr;
    size_t old = head(p)->magic == MAGIC ? head(p)->n : malloc_usable_size(p);
    memcpy(q, p, old < n ? old : n);
    drop(p);
    return q;
}
extern "C" void *memalign(size_t a, size_t n) { return take(n, a); }
extern "C" void *aligned_alloc(size_t a, size_t n) { return take(n, a); }
extern "C" int posix_memalign(void **o, size_t a, size_t n) { *o = take(n, a); return *o ? 0 : 12; }

static void leak_scenario(Run &R, const Rng &r0, int steps, Chaos **keep) { Chaos *c = new Chaos(R, r0, false, true); if (keep) *keep = c; c->run(steps); if (!keep) delete c; }
MODULE(leaks) {
    // the same scenario again and again: whatever it allocated is gone when its objects are
    int steps = r.range(4, 40);
    Rng seed(mix(r.below(1 << 30), R.index));
    long at[4], al[2];
    long a0 = total_allocs;
    leak_scenario(R, seed, steps, nullptr);
    for (int i = 0; i < 4; i++) {
        at[i] = live_blocks;
        if (i < 3) { al[0] = total_allocs; leak_scenario(R, seed, steps, nullptr); al[1] = total_allocs; }
    }
    R.evals++;
    R.count("allocations", al[1] - al[0]);
    (void)a0;
    if (at[1] > at[0] && at[2] > at[1] && at[3] > at[2]) {
        int lo = 1;    // shortest prefix that leaks
        auto leaks = [&](int n) { long x[3]; for (int i = 0; i < 3; i++) { leak_scenario(R, seed, n, nullptr); x[i] = live_blocks; } return x[1] > x[0] && x[2] > x[1]; };
        while (lo < steps && !leaks(lo)) lo++;
        Chaos c(R, seed, false, true);
        c.keep = true;
        c.run(lo);
        R.fail("leak", std::to_string(at[1] - at[0]) + " blocks leaked per run of the scenario; its shortest leaking prefix:\n" + c.log);
        return;
    }
    R.nontrivial(mix((uint64_t)(al[1] - al[0]), hash_str(std::to_string(R.index))));
}
// memory held goes up and down a little (where in its blocks a deque begins depends on what it held before): growth is when all
// values of a later group of repetitions exceed all values of the group before, four times in a row. The groups lie more than
// a factor 2 apart, so that a container that doubles when full shows too.
static bool grows(const std::vector<long> &v) {
    static const int lo[] = {1, 7, 25, 91}, hi[] = {3, 12, 45, 100}, hlo[] = {1, 5, 13, 26}, hhi[] = {2, 8, 19, 30};
    bool up = true, l = v.size() > 100;
    for (int g = 0; g < 3; g++) {
        int a = (l ? lo : hlo)[g], z = (l ? hi : hhi)[g], a2 = (l ? lo : hlo)[g + 1], z2 = (l ? hi : hhi)[g + 1];
        if (*std::max_element(v.begin() + a, v.begin() + z + 1) >= *std::min_element(v.begin() + a2, v.begin() + z2 + 1)) up = false;
    }
    return up;
}
// operations on signals of any length
static void signal_growth(Run &R, Rng &r) {
    GenOpt g;
    int n = (int)(10 * std::pow(1000., r.unit()));
    Signal a, b, o;
    for (int q = 0; q < 2; q++) {
        std::vector<double> t, v;
        int style = r.below(4), k = r.chance(50) ? n : r.range(2, n);
        double last = gval(r, g);
        for (int i = 0; i < k; i++) {
            t.push_back(i * 0.25);
            last = style == 0 ? gval(r, g) : style == 1 ? last + r.range(-2, 2) * 0.25 : last + (style == 2 ? 1 : -1) * (1 + i % 3) / 64.;
            v.push_back(last);
        }
        Signal z(t.data(), v.data(), k);
        (q ? b : a) = z;
    }
    double u = r.chance(30) ? 0 : r.range(0, r.chance(70) ? 8 : n) * 0.25, z = u + r.range(0, r.chance(40) ? 8 : 2 * n) * 0.25;
    int op = r.below(16);
    long bb[31], nn[31];
    for (int i = 0; i < 31; i++) {
        switch (op) {
        case 0: o.compute_not(a); break;
        case 1: o.compute_and(a, b); break;
        case 2: o.compute_or(a, b); break;
        case 3: o.compute_implies(a, b); break;
        case 4: o.compute_eventually(a); break;
        case 5: o.compute_globally(a); break;
        case 6: o.compute_timed_eventually(a, u, z); break;
        case 7: o.compute_timed_globally(a, u, z); break;
        case 8: o.compute_until(a, b); break;
        case 9: case 12: case 13: case 14: o.compute_timed_until(a, b, u, z); break;
        case 10: o.compute_left_time_rob(a); break;
        case 11: o.compute_right_time_rob(a); break;
        case 15: { Signal k(a); k.resize(u, u + z, r.below(2)); k.simplify(); k.shift(1); break; }
        }
        bb[i] = live_bytes; nn[i] = live_blocks;
    }
    R.evals++;
    R.count("signal operators");
    if (n > 4000) R.count("signals of thousands of samples");
    if (grows(std::vector<long>(bb, bb + 31)) || grows(std::vector<long>(nn, nn + 31))) R.fail("memory-grows-with-repetition", "signal operator " + std::to_string(op) + " with a=" + dnum(u) + " b=" + dnum(z) + " on " + std::to_string(a.size()) + " and " + std::to_string(b.size()) + " samples: blocks " + std::to_string(nn[3]) + " -> " + std::to_string(nn[30]));
    R.nontrivial(mix(R.index, op));
}
MODULE(growth) {
    if (r.below(50) == 0) { signal_growth(R, r); return; }
    // repeated use of one object with unchanged inputs does not accumulate memory
    Prof p;
    p.linear = r.chance(60);
    p.sem = (SemK)r.below(3);
    p.cover = 0;
    p.huge = 40;
    Case c = gen_case(r, p);
    if (c.tr.size() > 300) R.count("thousands of samples");
    STLDriver d;
    if (!setup(d, c, case_text(c))) { R.fail("formula-rejected", case_text(c)); return; }
    STLMonitor m = d.get_monitor("phi");
    m.set_semantics(sem_name(c.sem));
    int what = r.below(6);
    const int N = c.tr.size() > 300 ? 31 : 101;
    std::vector<long> b(N), n(N);
    for (int i = 0; i < N; i++) {
        switch (what) {
        case 0: d.get_online_rob("phi", c.t0); break;
        case 1: m.eval_rob(c.t0); break;
        case 2: m.eval_rob(c.t0, c.t0 + 2); m.get_signal(); break;
        case 3: { STLDriver e(d); e.get_online_rob("phi", c.t0); d = e; break; }
        case 4: { STLMonitor k(m); k.eval_rob(c.t0); m = std::move(k); break; }
        case 5: d.set_param("p", i % 5); d.get_online_rob("phi", c.t0); { std::ostringstream o; d.print(o); } break;
        }
        b[i] = live_bytes; n[i] = live_blocks;
    }
    R.evals++;
    static const char *w[] = {"get_online_rob", "monitor eval_rob", "monitor get_signal", "driver copy and assign", "monitor copy and move", "set_param, evaluate, print"};
    R.count(w[what]);
    bool up = grows(n) || grows(b);
    if (up) R.fail("memory-grows-with-repetition", std::string(w[what]) + " repeated: live bytes " + std::to_string(b[3]) + " -> " + std::to_string(b[N - 1]) + ", blocks " + std::to_string(n[3]) + " -> " + std::to_string(n[N - 1]) + "\n" + describe(c));
    R.nontrivial(mix(fingerprint(c), what));
}
#endif

// ---------------------------------------------------------------- work
#ifdef MON_COUNT
static unsigned long steps_;
extern "C" __attribute__((no_sanitize_coverage)) void __sanitizer_cov_trace_pc(void) { steps_++; }
// what the C library does in bulk is work, too
#define BULK extern "C" __attribute__((no_sanitize_coverage, optimize("no-tree-loop-distribute-patterns")))
BULK void *memmove(void *d, const void *s, size_t n) {
    steps_ += n / 16;
    void *o = d;
    if ((uintptr_t)d - (uintptr_t)s >= n) { asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory"); return o; }
    for (char *p = (char *)d + n, *q = (char *)s + n; n; n--) *--p = *--q;
    return o;
}
BULK void *memcpy(void *d, const void *s, size_t n) {
    steps_ += n / 16;
    void *o = d;
    asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory");
    return o;
}
BULK void *memset(void *d, int c, size_t n) {
    steps_ += n / 16;
    void *o = d;
    asm volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(c) : "memory");
    return o;
}
BULK int memcmp(const void *a, const void *b, size_t n) {
    const unsigned char *p = (const unsigned char *)a, *q = (const unsigned char *)b;
    for (size_t i = 0; i < n; i++) if (p[i] != q[i]) { steps_ += i / 16; return p[i] < q[i] ? -1 : 1; }
    steps_ += n / 16;
    return 0;
}
extern "C" void *bulk_memchr(const void *, int, size_t) asm("memchr");
BULK void *bulk_memchr(const void *a, int c, size_t n) {
    const unsigned char *p = (const unsigned char *)a;
    size_t i = 0;
    while (i < n && p[i] != (unsigned char)c) i++;
    steps_ += i / 16;
    return i < n ? (void *)(p + i) : nullptr;
}
static Case scaled(Rng r, Case c, int k, int n) {
    std::function<F(const F &)> sc = [&](const F &f) -> F {
        auto g = std::make_shared<Form>(*f);
        if (g->l) g->l = sc(g->l);
        if (g->r) g->r = sc(g->r);
        if (g->k == Form::EV || g->k == Form::ALW || g->k == Form::UNTIL) { g->a.c *= k; g->b.c *= k; }
        return F(g);
    };
    if (c.f) c.f = sc(c.f);
    for (size_t i = 2; i < c.par.size(); i++) c.par[i] *= k;
    GenOpt g;
    c.tr.clear();
    double t = 0;
    std::vector<double> last(c.nsig, 0.);
    int style = r.below(3);
    for (int i = 0; i < n * k; i++) {
        std::vector<double> row{t};
        for (int s = 0; s < c.nsig; s++) { double v = style == 0 ? gval(r, g) : style == 1 ? last[s] + r.range(-2, 2) * 0.25 : (i % 2 ? 1 : -1) * (1 + r.below(8)); last[s] = v; row.push_back(v); }
        c.tr.push_back(row);
        t += 0.25;
    }
    return c;
}
MODULE(work) {
    GenOpt g;
    g.maxb = 4;
    Case c;
    c.nsig = g.nsig;
    c.par = gen_params(r, g);
    c.linear = r.chance(60);
    c.sem = (SemK)(r.chance(60) ? 0 : r.below(3));
    R.evals++;
    int what = r.chance(70) ? r.below(5) : r.range(5, 8);
    auto cost = [&](STLDriver &d, double t0) { unsigned long a = steps_; d.get_online_rob("phi", t0); return (double)(steps_ - a); };
    if (what <= 1) {             // length of the trace, intervals growing with it
        c.f = gen_form(r, g, c.par, r.range(1, 3));
        if (!valid_form(c.f, c.par)) { R.skipped++; return; }
        double h = horizon(c.f, c.par);
        int n = (int)(h / 0.25) + r.range(8, 40);
        Rng s(r.below(1 << 30));
        double w[3];
        for (int k = 0; k < 3; k++) {
            Case e = scaled(s, c, 1 << (2 * k), n);
            STLDriver d;
            if (!setup(d, e, case_text(e))) { R.fail("formula-rejected", case_text(e)); return; }
            w[k] = cost(d, 0);
            if (k == 2 && r.chance(50)) {     // evaluations do not get slower
                double f = w[k], l = 0;
                for (int i = 0; i < 4; i++) l = cost(d, 0);
                R.count("repeated evaluations");
                if (l > 1.3 * f + 2000) { R.fail("evaluation-gets-slower", "first " + dnum(f) + " fifth " + dnum(l) + "\n" + describe(c)); return; }
            }
        }
        R.count("trace scaling");
        if (R.verbose) fprintf(stderr, "%g %g %g ratios %g %g\n%s\n", w[0], w[1], w[2], w[1] / w[0], w[2] / w[1], form_text(c.f, Names()).c_str());
        double q = w[2] / w[1];
        long b = (long)(q * 2);
        R.count("ratio*2<=" + std::to_string(b));
        if (w[2] > 6 * w[1] + 20000) { R.fail("work-superlinear-in-trace", "work " + dnum(w[0]) + " for " + std::to_string(n) + " samples, " + dnum(w[1]) + " for 4 times, " + dnum(w[2]) + " for 16 times as many\n" + decl_text(c) + form_text(c.f, Names()) + (c.linear ? " LINEAR" : " PREVIOUS") + sem_name(c.sem)); return; }
        R.nontrivial(hash_str(form_text(c.f, Names()) + std::to_string(n)));
    } else if (what == 2) {      // depth of nesting, small intervals
        std::vector<int> ops;
        int one = r.chance(50) ? r.below(7) : -1;      // one operator all the way, or a mix
        for (int i = 0; i < 64; i++) ops.push_back(one >= 0 ? one : r.below(7));
        int where = r.chance(30) ? r.below(2) : 2;     // expressions nested in an atom, to the left or to the right
        std::vector<int> eops;
        int eone = r.chance(50) ? r.below(4) : -1;
        for (int i = 0; i < 64; i++) eops.push_back(eone >= 0 ? eone : r.below(4));
        double w[3], pw[3], cw[3], sz[3];
        for (int k = 0; k < 3; k++) {
            int depth = 4 << k;
            F f = fatom(esig(0), true, econst(1)), a = fatom(esig(1), false, econst(0.5));
            if (where < 2) {
                E x = esig(0), y = esig(1);
                for (int i = 0; i < depth; i++) {
                    int o = eops[i % 8];
                    Expr::K kk = o == 0 ? Expr::ADD : o == 1 ? Expr::SUB : Expr::MUL;
                    x = o == 3 ? eabs(x) : where ? ebin(kk, x, i % 2 ? econst(0.5) : y) : ebin(kk, i % 2 ? econst(0.5) : y, x);
                }
                f = fatom(x, true, econst(1));
            } else for (int i = 0; i < depth; i++) {
                Bound lo, hi;
                hi.c = 0.5;
                switch (ops[i % 8]) {
                case 0: f = fun(Form::NOT, f); break;
                case 1: f = fbin(Form::AND, f, a); break;
                case 2: f = fbin(Form::OR, a, f); break;
                case 3: f = fbin(Form::IMP, f, a); break;
                case 4: f = ftun(Form::EV, lo, hi, f); break;
                case 5: f = ftun(Form::ALW, lo, hi, f); break;
                default: f = funtil(a, lo, hi, f); break;
                }
            }
            Case e = scaled(Rng(R.index), c, 1, 100);
            e.f = f;
            STLDriver d;
            unsigned long at = steps_;
            std::string text = case_text(e);
            if (!setup(d, e, text)) { R.fail("formula-rejected", text); return; }
            pw[k] = (double)(steps_ - at);
            sz[k] = (double)text.size();
            w[k] = cost(d, 0);
            at = steps_;
            { STLDriver x(d); STLMonitor m = x.get_monitor("phi"); }
            cw[k] = (double)(steps_ - at);
        }
        R.count("nesting depth");
        std::string info = "depth 4, 8, 16: evaluation " + dnum(w[0]) + " " + dnum(w[1]) + " " + dnum(w[2]) + ", set-up " + dnum(pw[0]) + " " + dnum(pw[1]) + " " + dnum(pw[2]) + ", copy " + dnum(cw[0]) + " " + dnum(cw[1]) + " " + dnum(cw[2]);
        if (R.verbose) fprintf(stderr, "%s\n", info.c_str());
        std::string o;
        for (int i = 0; i < 8; i++) o += std::to_string(where < 2 ? eops[i] : ops[i]) + " ";
        if (where < 2) { o = "of expressions " + o + (where ? "left" : "right"); R.count("depth of expressions"); }
        long b = (long)(w[2] / w[1] * 2);
        R.count("depth ratio*2<=" + std::to_string(b));
        if (w[2] > 6 * w[1] + 20000 || pw[2] > 3.5 * pw[1] + 20000 || cw[2] > 3.5 * cw[1] + 20000) R.fail("work-superpolynomial-in-depth", info + "\noperators " + o);
        R.nontrivial(hash_str(o));
    } else if (what == 3) {      // size of the specification
        double pw[2], cw[2], lw[2];
        std::string base;
        int per = r.range(4, 10);
        std::vector<std::string> fs;
        for (int i = 0; i < per; i++) { F f = gen_form(r, g, c.par, 2); fs.push_back(form_text(f, Names())); }
        for (int k = 0; k < 2; k++) {
            int n = per * (k ? 16 : 4);
            std::string t = decl_text(c);
            for (int i = 0; i < n; i++) t += "f" + std::to_string(i) + " := " + fs[i % per] + "\n";
            STLDriver d;
            unsigned long at = steps_;
            if (!d.parse_string(t)) { R.fail("text-rejected", t); return; }
            pw[k] = (double)(steps_ - at);
            at = steps_;
            STLDriver x(d);
            cw[k] = (double)(steps_ - at);
            at = steps_;
            for (auto &row : scaled(Rng(7), c, 1, 400).tr) x.add_sample(row);
            lw[0] = (double)(steps_ - at);
            STLDriver y;
            y.parse_string(decl_text(c));
            at = steps_;
            for (auto &row : scaled(Rng(7), c, 1, 1600).tr) y.add_sample(row);
            lw[1] = (double)(steps_ - at);
        }
        R.count("specification size");
        std::string info = "4x the text: parsing " + dnum(pw[0]) + " " + dnum(pw[1]) + ", copying " + dnum(cw[0]) + " " + dnum(cw[1]) + "; 4x the samples: " + dnum(lw[0]) + " " + dnum(lw[1]);
        if (R.verbose) fprintf(stderr, "%s\n", info.c_str());
        if (pw[1] > 8 * pw[0] + 20000 || cw[1] > 8 * cw[0] + 20000) R.fail("work-superlinear-in-text", info);
        if (lw[1] > 7 * lw[0] + 20000) R.fail("work-superlinear-in-samples", info);
        R.nontrivial(mix(R.index, 3));
    } else if (what == 5) {      // a monitor of its own: samples, evaluations, copies
        c.f = gen_form(r, g, c.par, r.range(1, 3));
        if (!valid_form(c.f, c.par)) { R.skipped++; return; }
        int n = (int)(horizon(c.f, c.par) / 0.25) + r.range(30, 80);
        double w[2][6];
        Rng s(r.below(1 << 30));
        for (int k = 0; k < 2; k++) {
            Case e = scaled(s, c, k ? 16 : 4, n);
            STLDriver d;
            if (!d.parse_string(case_text(e))) { R.fail("formula-rejected", case_text(e)); return; }
            STLMonitor m = d.get_monitor("phi");
            m.set_semantics(sem_name(e.sem));
            m.set_interpol(int_name(e.linear));
            double T = e.tr.back()[0];
            int i = 0;
            unsigned long at = steps_;
            auto lap = [&] { w[k][i++] = (double)(steps_ - at); at = steps_; };
            for (auto &row : e.tr) m.add_sample(row);
            lap();
            m.eval_rob(T / 8);
            lap();
            m.eval_rob(T / 8, T / 2);
            lap();
            Signal z = m.get_signal();
            lap();
            w[k][3] /= z.size() + 20.;     // per sample of the result
            STLMonitor o(m);
            lap();
            o.eval_rob(0, T);
            m.eval_rob(0, T);
            at = steps_;
            for (int q = 0; q < 3; q++) m.eval_rob(0, T);
            lap();
        }
        static const char *nm[] = {"adding samples", "evaluation at an instant", "evaluation over an interval", "get_signal", "copy", "repeated evaluations"};
        R.count("monitors");
        for (int i = 0; i < 6; i++) {
            if (i == 3) R.count("blocks per sample of the result <=" + std::to_string((long)w[1][i]));
            else R.count(std::string(nm[i]) + " ratio*2<=" + std::to_string((long)(2 * w[1][i] / std::max(1., w[0][i]))));
            if (i == 3 ? w[1][i] > 100 : w[1][i] > 6.5 * w[0][i] + 20000) { R.fail("work-superlinear-in-monitor", std::string(nm[i]) + ": " + dnum(w[0][i]) + " for " + std::to_string(4 * n) + " samples, " + dnum(w[1][i]) + " for 4 times as many\n" + decl_text(c) + form_text(c.f, Names()) + (c.linear ? " LINEAR" : " PREVIOUS") + sem_name(c.sem)); return; }
        }
        R.nontrivial(hash_str(form_text(c.f, Names()) + std::to_string(n)));
    } else if (what == 6) {      // trace files
        std::string fn = std::string(getenv("MON_DIR") ? getenv("MON_DIR") : "/tmp") + "/work.txt";
        double w[2][4];
        Rng s(r.below(1 << 30));
        int n = r.range(60, 200);
        for (int k = 0; k < 2; k++) {
            Case e = scaled(s, c, k ? 16 : 4, n);
            STLDriver d, b;
            d.data = e.tr;
            unsigned long at = steps_;
            int i = 0;
            auto lap = [&] { w[k][i++] = (double)(steps_ - at); at = steps_; };
            d.dump_trace_file(fn);
            lap();
            if (!b.read_trace_file(fn) || b.data.size() != e.tr.size()) { R.fail("trace-not-read", std::to_string(e.tr.size()) + " rows"); unlink(fn.c_str()); return; }
            lap();
            STLDriver x(b);
            lap();
            Signal z;
            for (auto &row : e.tr) z.appendSample(row[0], row[1]);
            at = steps_;
            z.dumpFile(fn);
            lap();
            unlink(fn.c_str());
        }
        static const char *nm[] = {"dump_trace_file", "read_trace_file", "copy of the driver", "dumpFile"};
        R.count("trace files");
        for (int i = 0; i < 4; i++) {
            R.count(std::string(nm[i]) + " ratio*2<=" + std::to_string((long)(2 * w[1][i] / std::max(1., w[0][i]))));
            if (w[1][i] > 6 * w[0][i] + 20000) { R.fail("work-superlinear-in-rows", std::string(nm[i]) + ": " + dnum(w[0][i]) + " for " + std::to_string(4 * n) + " rows, " + dnum(w[1][i]) + " for 4 times as many"); return; }
        }
        R.nontrivial(mix(R.index, 6));
    } else if (what == 7) {      // tests of a specification
        double w[2][3];
        int per = r.range(2, 5), each = r.range(1, 4);
        std::vector<std::string> fs;
        bool wordy = r.chance(40);       // long messages about little
        for (int i = 0; i < per; i++) { F f = gen_form(r, g, c.par, wordy ? 0 : 2); if (!valid_form(f, c.par)) { R.skipped++; return; } fs.push_back(form_text(f, Names())); }
        Case e = scaled(Rng(r.below(1 << 30)), c, 1, wordy ? 2 : 60);
        std::string yes = wordy ? std::string(r.range(500, 3000), 'y') : "yes", no = wordy ? std::string(r.range(500, 3000), 'n') : "no";
        if (wordy) R.count("long messages");
        for (int k = 0; k < 2; k++) {
            int n = k ? 96 : 24;
            std::string t = decl_text(c);
            for (int b = 0, id = 0; b < n; b++) {
                t += "test tr" + std::to_string(b) + " : \"\"\n{\n";
                for (int q = 0; q < each; q++, id++) t += "  T" + std::to_string(id) + " { " + fs[id % per] + ", \"" + yes + "\", \"" + no + "\", false }\n";
                t += "}\n";
            }
            STLDriver d;
            int i = 0;
            unsigned long at = steps_;
            auto lap = [&] { w[k][i++] = (double)(steps_ - at); at = steps_; };
            if (!d.parse_string(t)) { R.fail("spec-rejected", t.substr(0, 2000)); return; }
            lap();
            for (auto &row : e.tr) d.add_sample(row);
            { at = steps_; STLDriver x(d); }
            lap();
            int runs = 0;
            while (!d.trace_test_queue_empty() && runs <= n) { d.run_tests(); runs++; }
            if (runs != n) { R.fail("other-number-of-tests", std::to_string(runs) + " of " + std::to_string(n)); return; }
            lap();
        }
        static const char *nm[] = {"parsing the tests", "copying the tests", "running the tests"};
        R.count("specifications with tests");
        for (int i = 0; i < 3; i++) {
            R.count(std::string(nm[i]) + " ratio*2<=" + std::to_string((long)(2 * w[1][i] / std::max(1., w[0][i]))));
            if (w[1][i] > 6 * w[0][i] + 20000) { R.fail("work-superlinear-in-tests", std::string(nm[i]) + ": " + dnum(w[0][i]) + " for 24 blocks, " + dnum(w[1][i]) + " for 96"); return; }
        }
        R.nontrivial(mix(R.index, 7));
    } else if (what == 8) {      // many declarations, names of some length
        double w[2][11];
        int len = r.range(0, 250), n0 = 10 * r.range(4, 12), perline = r.range(1, 9);
        bool vals = r.chance(50), one = r.chance(50);
        for (int k = 0; k < 2; k++) {
            int n = k ? 4 * n0 : n0;
            auto nm = [&](char c, int i) { return c + std::to_string(i * 7919 % 100003) + "_" + std::string(len, 'n'); };
            std::string ts, tp, tf;
            std::vector<std::string> ls;      // one declaration of signals per text
            for (int i = 0; i < n; i += one ? n : perline) { ts = "signal "; for (int q = i; q < n && (one || q < i + perline); q++) ts += (q > i ? ", " : "") + nm('s', q); ls.push_back(ts); }
            for (int i = 0; i < n; i += perline) { tp += "param "; for (int q = i; q < n && q < i + perline; q++) tp += (q > i ? ", " : "") + nm('p', q) + "=" + std::to_string(q); tp += "\n"; }
            // every formula carries the declarations it was parsed with: the same number of formulas
            for (int i = 0; i < n; i += n / 10) tf += nm('f', i) + " := " + nm('s', i) + "[t] > " + (vals ? nm('p', i) : "1") + "\n";
            STLDriver d;
            int i = 0;
            unsigned long at = steps_;
            auto lap = [&] { w[k][i++] = (double)(steps_ - at); at = steps_; };
            bool ok = true;
            for (auto &l : ls) ok = d.parse_string(l) && ok;
            lap();
            ok = d.parse_string(tp) && ok;
            lap();
            if (!ok) { R.fail("text-rejected", ts.substr(0, 500) + tp.substr(0, 500)); return; }
            ok = d.parse_string(tf);
            lap();
            if (!ok) { R.fail("text-rejected", tf.substr(0, 500)); return; }
            size_t names = d.get_signals_names().size();
            lap();
            if (names < (size_t)n * (len + 2)) { R.fail("names-missing", std::to_string(names)); return; }
            std::vector<double> row(n + 1, 1.);
            for (int q = 0; q < 20; q++) { row[0] = q; d.add_sample(row); }
            lap();
            { std::ostringstream o; at = steps_; d.print(o); lap(); }
            { std::ostringstream o; at = steps_; d.print_trace(o); lap(); }
            { at = steps_; STLDriver x(d); lap(); }
            at = steps_;
            STLMonitor m = d.get_monitor(nm('f', n / 2));
            m.eval_rob(0.);
            lap();
            { std::ostringstream o; at = steps_; o << m; m.get_signal_names(); lap(); }
            at = steps_;
            d.get_online_rob(nm('f', n / 10 * 3), 1.);
            d.set_param(nm('p', n / 3), 5.);
            lap();
        }
        static const char *nm[] = {"declaring signals", "declaring parameters", "formulas", "get_signals_names", "adding rows", "print", "print_trace", "copy of the driver", "monitor of one formula", "printing a monitor", "evaluation of one formula"};
        R.count("declarations");
        for (int i = 0; i < 11; i++) {
            R.count(std::string(nm[i]) + " ratio*2<=" + std::to_string((long)(2 * w[1][i] / std::max(1., w[0][i]))));
            if (w[1][i] > 7 * w[0][i] + 20000) { R.fail("work-superlinear-in-declarations", std::string(nm[i]) + ": " + dnum(w[0][i]) + " for " + std::to_string(n0) + " names of " + std::to_string(len) + " characters, " + dnum(w[1][i]) + " for 4 times as many"); return; }
        }
        R.nontrivial(mix(R.index, 8));
    } else {                     // Signal operators on long operands
        double w[2];
        int op = r.below(12);
        int style = r.below(3);
        for (int k = 0; k < 2; k++) {
            int n = k ? 1600 : 400;
            Rng s(R.index);
            Signal a, b, o;
            for (int q = 0; q < 2; q++) {
                std::vector<double> t, v;
                double last = 0;
                for (int i = 0; i < n; i++) { t.push_back(i * 0.25); last = style == 0 ? gval(s, g) : style == 1 ? last + s.range(-2, 2) * 0.25 : (i % 2 ? 1 : -1) * (1 + s.below(8)); v.push_back(last); }
                Signal z(t.data(), v.data(), n);
                (q ? b : a) = z;
            }
            double u = n * 0.25 / 8, z = n * 0.25 / 4;
            unsigned long at = steps_;
            switch (op) {
            case 0: o.compute_not(a); break;
            case 1: o.compute_and(a, b); break;
            case 2: o.compute_or(a, b); break;
            case 3: o.compute_implies(a, b); break;
            case 4: o.compute_eventually(a); break;
            case 5: o.compute_globally(a); break;
            case 6: o.compute_timed_eventually(a, u, z); break;
            case 7: o.compute_timed_globally(a, u, z); break;
            case 8: o.compute_until(a, b); break;
            case 9: o.compute_timed_until(a, b, u, z); break;
            case 10: o.compute_left_time_rob(a); break;
            case 11: o.compute_right_time_rob(a); break;
            }
            w[k] = (double)(steps_ - at);
        }
        R.count("signal operators");
        long bb = (long)(w[1] / w[0] * 2);
        R.count("signal ratio*2<=" + std::to_string(bb));
        if (R.verbose) fprintf(stderr, "op %d: %g %g ratio %g\n", op, w[0], w[1], w[1] / w[0]);
        if (w[1] > 6 * w[0] + 5000) R.fail("work-superlinear-in-signal", "operator " + std::to_string(op) + ": " + dnum(w[0]) + " for 400 samples, " + dnum(w[1]) + " for 1600");
        R.nontrivial(mix(R.index, op));
    }
}
#endif
