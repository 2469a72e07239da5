#include <set>
// Workload generation: formulas, traces, cases.
#pragma once
#include "oracle.hpp"
#include <ctime>
namespace orc {

struct GenOpt {
    int nsig = 2, npar = 3;
    int max_depth = 3;
    bool until = true;
    bool arith = true;        // arithmetic in atoms
    bool param_bounds = true; // interval bounds given by parameters
    int maxb = 6;             // largest interval bound, in time units
    double grid = 0.25;       // time grid (dyadic)
    double vgrid = 0.25;
    int vmax = 8;
};

struct Case {
    int nsig = 2;
    std::vector<double> par;               // parameter values (par[0..1]: value parameters, rest: time parameters >= 0)
    F f;
    std::vector<std::vector<double>> tr;
    double t0 = 0;
    bool linear = true;
    SemK sem = SPACE;
};

static inline double gval(Rng &r, const GenOpt &o) {
    int k = (int)(o.vmax / o.vgrid);
    if (r.chance(10)) return 0;
    if (r.chance(25)) return (double)r.range(-3, 3);
    return r.range(-k, k) * o.vgrid;
}
// values come from the parameters 0 and 1, now and then from one that is also a time
static inline int gen_par(Rng &r, const GenOpt &o) { return r.chance(12) ? r.below(o.npar) : r.below(std::min(2, o.npar)); }
static inline E gen_expr(Rng &r, const GenOpt &o, int depth) {
    int k = r.below(100);
    if (depth <= 0 || k < 55 || !o.arith) {
        int q = r.below(100);
        if (q < 70) return esig(r.below(o.nsig));
        if (q < 85 && o.npar > 0) return epar(gen_par(r, o));
        return econst(gval(r, o));
    }
    if (k < 70) return ebin(Expr::ADD, gen_expr(r, o, depth - 1), gen_expr(r, o, depth - 1));
    if (k < 84) return ebin(Expr::SUB, gen_expr(r, o, depth - 1), gen_expr(r, o, depth - 1));
    if (k < 94) {
        E c = r.chance(50) && o.npar ? epar(gen_par(r, o)) : econst(gval(r, o));
        E e = gen_expr(r, o, depth - 1);
        return r.chance(50) ? ebin(Expr::MUL, c, e) : ebin(Expr::MUL, e, c);
    }
    return eabs(gen_expr(r, o, depth - 1));
}
static inline Bound gen_bound(Rng &r, const GenOpt &o, double v) { (void)r; (void)o; Bound b; b.c = v; return b; }
static inline void gen_interval(Rng &r, const GenOpt &o, const std::vector<double> &par, Bound &a, Bound &b) {
    int n = (int)(o.maxb / o.grid);
    int i = r.chance(45) ? 0 : r.range(0, n), j = r.range(0, n);
    if (r.chance(10)) j = i;
    if (i > j) std::swap(i, j);
    if (r.chance(50)) { i = (int)(std::floor(i * o.grid) / o.grid); j = (int)(std::ceil(j * o.grid) / o.grid); }
    a.c = i * o.grid; b.c = j * o.grid;
    if (o.param_bounds && o.npar > 2 && r.chance(20)) {   // time parameters live at index >= 2
        int p = r.range(2, o.npar - 1);
        int q = r.range(2, o.npar - 1);
        if (r.chance(20)) { if (par[p] > par[q]) std::swap(p, q); a.par = p; b.par = q; }   // both bounds, also the same parameter
        else if (par[p] >= a.c) b.par = p; else a.par = p;
    }
}
static inline F gen_atom(Rng &r, const GenOpt &o) {
    E l, rr;
    for (int tries = 0;; tries++) {
        l = gen_expr(r, o, r.chance(40) ? 2 : 0);
        rr = r.chance(60) ? (r.chance(40) && o.npar ? epar(gen_par(r, o)) : econst(gval(r, o))) : gen_expr(r, o, r.chance(30) ? 2 : 0);
        if (!expr_const(l) || !expr_const(rr) || tries > 20 || r.chance(2)) break;
    }
    return fatom(l, r.chance(50), rr);
}
static inline F gen_form(Rng &r, const GenOpt &o, const std::vector<double> &par, int depth) {
    if (depth <= 0 || r.chance(10)) return gen_atom(r, o);
    int k = r.below(100);
    if (k < 10) return fun(Form::NOT, gen_form(r, o, par, depth - 1));
    if (k < 24) return fbin(Form::AND, gen_form(r, o, par, depth - 1), gen_form(r, o, par, depth - 1));
    if (k < 38) return fbin(Form::OR, gen_form(r, o, par, depth - 1), gen_form(r, o, par, depth - 1));
    if (k < 48) return fbin(Form::IMP, gen_form(r, o, par, depth - 1), gen_form(r, o, par, depth - 1));
    Bound a, b;
    gen_interval(r, o, par, a, b);
    if (k < 66) return ftun(Form::EV, a, b, gen_form(r, o, par, depth - 1));
    if (k < 84 || !o.until) return ftun(Form::ALW, a, b, gen_form(r, o, par, depth - 1));
    F l = gen_form(r, o, par, depth - 1), q = gen_form(r, o, par, depth - 1);
    return funtil(l, a, b, q);
}
static inline std::vector<double> gen_params(Rng &r, const GenOpt &o) {
    std::vector<double> p;
    for (int i = 0; i < o.npar; i++) p.push_back(i < 2 ? gval(r, o) : r.range(0, (int)(o.maxb / o.grid)) * o.grid);
    return p;
}
// strictly increasing dyadic times from `start` until at least `until_t` (or n samples)
static inline std::vector<std::vector<double>> gen_trace(Rng &r, const GenOpt &o, double start, double until_t, int maxn) {
    std::vector<std::vector<double>> tr;
    double t = start;
    int style = r.chance(8) ? 4 : r.below(4);
    std::vector<double> last(o.nsig, 0.);
    for (int i = 0; i < maxn; i++) {
        std::vector<double> row{t};
        for (int s = 0; s < o.nsig; s++) {
            double v;
            if (style == 1) v = last[s] + r.range(-4, 4) * o.vgrid;                 // random walk
            else if (style == 4) v = i ? last[s] + r.range(-2, 2) * o.vgrid / 256 : gval(r, o);   // slow drift
            else if (style == 2 && r.chance(40)) v = last[s];                         // plateaus
            else if (style == 3) v = (i % 2 ? 1 : -1) * std::fabs(gval(r, o));        // oscillation
            else v = gval(r, o);
            last[s] = v;
            row.push_back(v);
        }
        tr.push_back(row);
        if (t >= until_t) break;
        int step = r.chance(30) ? 1 : r.range(1, 12);
        t += step * o.grid;
        if (r.chance(15)) t = std::ceil(t);
        if (i == maxn - 2 && t < until_t) t = until_t;
    }
    return tr;
}
// many samples in the time of a few: n rows in all, the given ones among them
static inline void densify(Rng &r, std::vector<std::vector<double>> &tr, int n, const GenOpt &o) {
    if (tr.size() < 2) return;
    int per = std::max(1, n / (int)(tr.size() - 1));
    int bits = 0;
    while ((1 << bits) < per) bits++;
    double drift = r.chance(65) ? o.vgrid / 64 : 0;
    std::vector<int> mono(tr[0].size(), 0);           // rising or falling, never in a straight line: windows keep every sample
    if (drift && r.chance(50)) for (auto &m : mono) m = r.chance(50) ? 1 : -1;
    std::vector<std::vector<double>> out;
    for (size_t k = 0; k + 1 < tr.size(); k++) {
        out.push_back(tr[k]);
        double dt = (tr[k + 1][0] - tr[k][0]) / (1 << bits);
        for (int i = 1; i < (1 << bits) && (int)out.size() < n; i++) {
            std::vector<double> row{tr[k][0] + i * dt};
            for (size_t s = 1; s < tr[k].size(); s++) row.push_back(drift ? out.back()[s] + (mono[s] ? mono[s] * (1 + i % 3) : r.range(-2, 2)) * drift : gval(r, o));
            out.push_back(row);
        }
    }
    out.push_back(tr.back());
    tr = out;
}
// identifiers that a lexer or a look-up could confuse: prefixes of each other, of keywords, cases, digits, long ones
static inline std::string odd_name(Rng &r, std::set<std::string> &used) {
    static const char *R[] = {"F", "F_", "ev", "ev_", "G", "G_", "alw", "alw_", "U", "U_", "until", "until_", "and", "or", "not", "true", "false", "t", "abs", "param", "test", "signal"};
    static const char *A[] = {"x", "y", "speed", "RPM", "t1", "tt", "ev1", "evx", "F1", "Gx", "U2", "untilx", "notx", "and_", "orx", "tst", "signals", "params", "absx", "trueX", "a_b", "Z9", "alwX", "T", "mu", "q", "r_", "ANDY", "Not", "False", "e", "E1", "p", "P", "inf", "nan", "x1", "x_", "e5"};
    for (;;) {
        std::string s = A[r.below((int)(sizeof A / sizeof *A))];
        if (!used.empty() && r.chance(30)) { auto it = used.begin(); std::advance(it, r.below((int)used.size())); s = *it; }   // longer by a character
        if (r.chance(40)) s += (char)((r.chance(70) ? 'a' : 'A') + r.below(26));
        if (r.chance(30)) s += std::to_string(r.below(30));
        if (r.chance(15)) s += "_";
        if (r.chance(3)) s += std::string(r.range(20, 80), 'n');
        bool ok = s != "phi" && s != "other" && s != "neg" && s[0] != 'T';
        for (auto k : R) if (s == k) ok = false;
        if (ok && used.insert(s).second) return s;
    }
}
static inline bool odd_names(Rng &r, int percent = 20) {
    if (!r.chance(percent)) return false;
    std::set<std::string> used;
    auto &c = Names::cur();
    std::vector<std::string *> v;
    for (auto &s : c.sig) v.push_back(&s);
    for (auto &s : c.par) v.push_back(&s);
    for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[r.below((int)i)]);
    for (auto s : v) *s = odd_name(r, used);
    return true;
}
static inline double wildv(Rng &r) {
    switch (r.below(5)) { case 0: return r.range(-100, 100) * 0.1; case 1: return (r.unit() - 0.5) * 1e9; case 2: return 1.0 / 3; case 3: return std::ldexp(r.unit(), r.range(-60, 60)); default: return -0.0; }
}
static inline bool nonlinear(const F &f, const Case &c) {
    return fany_expr(f, [&](const E &e) { return !expr_linear_on(e, c.tr, c.par); });
}

static inline bool valid_form(const F &f, const std::vector<double> &par) {
    if (f->k == Form::EV || f->k == Form::ALW || f->k == Form::UNTIL) {
        double a = bval(f->a, par), b = bval(f->b, par);
        if (a < 0 || b < a) return false;
    }
    return (!f->l || valid_form(f->l, par)) && (!f->r || valid_form(f->r, par));
}
static inline bool valid_case(const Case &c) { return !c.tr.empty() && valid_form(c.f, c.par); }

// -------- shrinking: candidate reductions of a case, tried greedily by the caller
static inline std::vector<F> shrinks_form(const F &f) {
    std::vector<F> o;
    if (f->k == Form::ATOM) {
        std::vector<E> ls{f->el}, rs{f->er};
        auto sub = [](const E &e, std::vector<E> &v) { if (e->l) v.push_back(e->l); if (e->r) v.push_back(e->r); };
        std::vector<E> a, b;
        sub(f->el, a); sub(f->er, b);
        if (f->er->k != Expr::CONST || f->er->c != 0) b.push_back(econst(0));
        for (auto &e : a) o.push_back(fatom(e, f->lt, f->er));
        for (auto &e : b) o.push_back(fatom(f->el, f->lt, e));
        return o;
    }
    o.push_back(f->l);
    if (f->r) o.push_back(f->r);
    auto rebuild = [&](F l, F r) { auto g = std::make_shared<Form>(*f); g->l = l; g->r = r; return F(g); };
    for (auto &x : shrinks_form(f->l)) o.push_back(rebuild(x, f->r));
    if (f->r) for (auto &x : shrinks_form(f->r)) o.push_back(rebuild(f->l, x));
    if (f->k == Form::EV || f->k == Form::ALW || f->k == Form::UNTIL) {
        auto wb = [&](Bound a, Bound b) { auto g = std::make_shared<Form>(*f); g->a = a; g->b = b; o.push_back(F(g)); };
        Bound z;
        if (f->a.par >= 0 || f->a.c != 0) wb(z, f->b);
        if (f->b.par < 0) { Bound y = f->b; y.c = std::floor(y.c); if (y.c != f->b.c && (f->a.par < 0 && y.c >= f->a.c)) wb(f->a, y);
            y = f->b; y.c = f->b.c - 1; if (f->a.par < 0 && y.c >= f->a.c) wb(f->a, y); }
    }
    return o;
}
static inline Case shrink(Case c, const std::function<bool(const Case &)> &bad0, int budget = 3000) {
    const std::clock_t until = std::clock() + 6 * CLOCKS_PER_SEC;
    auto bad = [&](const Case &d) { if (std::clock() > until) { budget = 0; return false; } return valid_case(d) && bad0(d); };
    for (size_t n = c.tr.size() / 2; n > 4 && budget > 0; n /= 2)          // long traces: whole stretches first
        for (size_t i = 0; i + n < c.tr.size() && budget > 0;) { budget--; Case d = c; d.tr.erase(d.tr.begin() + i, d.tr.begin() + i + n); if (bad(d)) c = d; else i += n; }
    bool again = true;
    while (again && budget > 0) {
        again = false;
        for (auto &g : shrinks_form(c.f)) { if (--budget < 0) break; Case d = c; d.f = g; if (bad(d)) { c = d; again = true; break; } }
        if (again) continue;
        for (size_t i = c.tr.size(); i-- > 0 && c.tr.size() > 1;) { if (--budget < 0) break; Case d = c; d.tr.erase(d.tr.begin() + i); if (bad(d)) { c = d; again = true; break; } }
        if (again) continue;
        for (size_t i = 0; i < c.tr.size() && !again; i++) for (size_t j = 1; j < c.tr[i].size() && !again; j++) for (double v : {0., 1., -1., std::round(c.tr[i][j])}) {
            if (std::fabs(v) >= std::fabs(c.tr[i][j]) && v != 0) continue;
            if (c.tr[i][j] == v || --budget < 0) continue;
            Case d = c; d.tr[i][j] = v; if (bad(d)) { c = d; again = true; break; }
        }
        if (again) continue;
        for (size_t i = 0; i < c.par.size() && !again; i++) for (double v : {0., 1.}) { if (c.par[i] == v || (i < 2 ? false : v == 0) || (std::fabs(c.par[i]) <= v)) continue; if (--budget < 0) break; Case d = c; d.par[i] = v; if (bad(d)) { c = d; again = true; break; } }
        if (again) continue;
        for (double v : {0., 1., c.t0 - 1}) { if (v < 0 || v >= c.t0 || --budget < 0) continue; Case d = c; d.t0 = v; if (bad(d)) { c = d; again = true; break; } }
    }
    return c;
}

static inline std::string decl_text(const Case &c, const Names &n = Names()) {
    std::string s = "signal ";
    for (int i = 0; i < c.nsig; i++) s += (i ? ", " : "") + n.sig[i];
    s += "\n";
    if (!c.par.empty()) {
        s += "param ";
        for (size_t i = 0; i < c.par.size(); i++) s += (i ? ", " : "") + n.par[i] + "=" + num(c.par[i]);
        s += "\n";
    }
    return s;
}
static inline std::string describe(const Case &c) {
    std::string s = decl_text(c) + "phi := " + form_text(c.f, Names()) + "\ndata:";
    for (auto &r : c.tr) { if (s.size() > 20000) { s += " ... (" + std::to_string(c.tr.size()) + " rows)"; break; } s += " ["; for (size_t i = 0; i < r.size(); i++) s += (i ? "," : "") + dnum(r[i]); s += "]"; }
    s += "\nt0=" + dnum(c.t0) + (c.linear ? " LINEAR" : " PREVIOUS") + (c.sem == SPACE ? " SPACE" : c.sem == LEFT ? " LEFT_TIME" : " RIGHT_TIME");
    if (big_value() != 10000) s += " BigM=" + dnum(big_value());
    return s;
}
} // namespace orc
