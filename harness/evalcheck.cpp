#include "evalcheck.hpp"
namespace mon {
static bool temporal(const F &f) { return f->k == Form::EV || f->k == Form::ALW || f->k == Form::UNTIL; }
static bool any_temporal(const F &f) { return temporal(f) || (f->l && any_temporal(f->l)) || (f->r && any_temporal(f->r)); }
bool nested_temporal(const F &f) {
    if (temporal(f)) return (any_temporal(f->l)) || (f->r && any_temporal(f->r));
    return (f->l && nested_temporal(f->l)) || (f->r && nested_temporal(f->r));
}
// a parameter for times is used as a value too
static bool time_par_value(const F &f) { return fany_expr(f, [](const E &e) { std::function<bool(const E &)> q = [&](const E &x) { return (x->k == Expr::PARAM && x->idx >= 2) || (x->l && q(x->l)) || (x->r && q(x->r)); }; return q(e); }); }
Case gen_case(Rng &r, const Prof &p) {
    GenOpt g;
    Case c;
    c.linear = p.linear;
    c.sem = p.sem;
    bool dec = p.decimals && p.linear && p.sem == SPACE && r.chance(p.dec_pct);
    if (dec) { g.grid = 0.1; g.vgrid = 0.1; }
    g.nsig = r.chance(15) ? 1 : r.chance(20) ? 3 : 2;
    c.nsig = g.nsig;
    if (!p.until) g.until = false;
    if (r.chance(40)) g.arith = false;
    if (r.chance(15)) g.maxb = 20;
    if (r.chance(10)) g.maxb = 1;
    c.par = gen_params(r, g);
    bool lng = p.long_traces && r.chance(3);
    int depth = r.range(0, lng ? std::min(2, p.max_depth) : r.chance(70) ? std::min(3, p.max_depth) : p.max_depth);
    if (p.max_depth >= 4 && !lng && r.below(80) == 0) depth = r.range(5, 8);
    for (int tries = 0;; tries++) {
        c.f = gen_form(r, g, c.par, depth);
        if (p.nested || !nested_temporal(c.f)) break;
        if (tries > 30) depth = 1;
    }
    double start = r.chance(60) ? 0 : r.range(-32, 32) * g.grid;
    if (dec && r.chance(30)) start += r.range(100, 2000);
    c.t0 = start + (r.chance(45) ? 0 : r.range(0, 24) * g.grid);
    if (!dec && r.chance(8)) c.t0 = start - r.range(1, 24) * g.grid;              // before the first sample: extended constantly
    double h = horizon(c.f, c.par), T;
    bool cov = p.cover == 1 ? true : p.cover == 2 ? false : r.chance(50);
    if (cov) T = c.t0 + h + (dec ? 0.5 : 0) + (r.chance(40) ? 0 : r.range(0, 12) * g.grid);
    else if (r.chance(20)) T = std::max(start, c.t0);
    else T = start + r.range(0, std::max(0, (int)((c.t0 - start + h) / g.grid))) * g.grid;
    if (lng) {
        int n = r.range(60, 200);
        if (T < start + n * g.grid) T = start + n * g.grid;
        c.tr = gen_trace(r, g, start, T, n * 2);
    } else c.tr = gen_trace(r, g, start, T, r.chance(20) ? 6 : 40);
    if (p.huge && !dec && fdepth(c.f) && r.below(p.huge) == 0) densify(r, c.tr, r.chance(50) ? r.range(300, 1500) : fdepth(c.f) < 2 && r.chance(8) ? r.range(66000, 70000) : r.range(1500, 9000), g);
    if (p.off_grid) {
        for (size_t k = 1; k < c.tr.size(); k++) c.tr[k][0] += g.grid / 2;
        if (start == c.t0 && r.chance(50)) c.t0 += g.grid, c.tr.back()[0] += g.grid;
    }
    tol_scale() = 1;
    if (p.scales && !dec && p.sem == SPACE && r.chance(15) && !time_par_value(c.f)) {     // very slow, very fast, very small: other orders of magnitude
        static const double ts[] = {1024, 1024, 1, 1. / 4096, 1048576, 1. / (1 << 24)}, vs[] = {1, 1. / 1024, 1. / 64, 1. / 1048576};
        double a = ts[r.below(p.extreme ? 6 : 4)], b = a == 1 ? 1. / 1024 : vs[r.below(p.extreme ? 4 : 3)];
        c = scaled(c, a, b);
        tol_scale() = b;
    } else if (p.extreme && !dec && p.sem == SPACE && r.chance(6)) {     // clocks that started long ago, or start far from now
        double off = std::ldexp(r.chance(50) ? 1. : -1., r.range(12, c.linear ? 20 : 30));
        // a steep slope turns the rounding of a time into a difference of values: not as far then
        double slope = 0;
        for (size_t k = 1; k < c.tr.size(); k++) for (size_t q = 1; q < c.tr[k].size(); q++) slope = std::max(slope, std::fabs(c.tr[k][q] - c.tr[k - 1][q]) / (c.tr[k][0] - c.tr[k - 1][0]));
        while (c.linear && 16 * slope * std::ldexp(std::fabs(off), -52) > 2e-7) off /= 2;
        off = std::trunc(off);
        for (auto &row : c.tr) row[0] += off;
        c.t0 += off;
    }
    return c;
}
static E scaled(const E &e, double v) {
    auto n = std::make_shared<Expr>(*e);
    if (e->k == Expr::CONST) n->c *= v;
    if (e->l) n->l = scaled(e->l, v);
    if (e->r) n->r = scaled(e->r, v);
    return n;
}
static F scaled(const F &f, double t, double v) {
    auto n = std::make_shared<Form>(*f);
    if (f->k == Form::ATOM) { n->el = scaled(f->el, v); n->er = scaled(f->er, v); return n; }
    n->a.c *= t; n->b.c *= t;
    n->l = scaled(f->l, t, v);
    if (f->r) n->r = scaled(f->r, t, v);
    return n;
}
Case scaled(const Case &c, double t, double v) {
    Case d = c;
    d.f = scaled(c.f, t, v);
    for (size_t i = 0; i < d.par.size(); i++) d.par[i] *= i < 2 ? v : t;
    for (auto &row : d.tr) for (size_t i = 0; i < row.size(); i++) row[i] *= i ? v : t;
    d.t0 *= t;
    return d;
}
// values far beyond the usual saturation constant, under a larger one
bool enlarge(Rng &r, Case &c) {
    std::function<bool(const E &)> mul = [&](const E &e) { return e->k == Expr::MUL || (e->l && mul(e->l)) || (e->r && mul(e->r)); };
    if (fany_expr(c.f, mul) || time_par_value(c.f)) return false;
    double b = std::ldexp(1., r.range(3, 30));
    c = scaled(c, 1, b);
    tol_scale() *= b;
    return true;
}
bool eligible(const Case &c) {
    return !(c.linear && nonlinear(c.f, c));
}
static bool dyadic(double v) { return std::floor(v * 65536) == v * 65536; }
// times that are exact in binary: t+a-a == t, so no horizon is missed by a rounding error
bool exact_times(const Case &c) {
    std::function<bool(const F &)> ok = [&](const F &f) {
        if (f->k == Form::EV || f->k == Form::ALW || f->k == Form::UNTIL)
            if (!dyadic(bval(f->a, c.par)) || !dyadic(bval(f->b, c.par))) return false;
        return (!f->l || ok(f->l)) && (!f->r || ok(f->r));
    };
    for (auto &r : c.tr) if (!dyadic(r[0])) return false;
    return dyadic(c.t0) && ok(c.f);
}
std::string judge_covered(const Case &c, const R3 &o) {
    if (!finite(o)) return "not-finite";
    Ctx x = ctx(c);
    double e = tol(o.r);
    if (!holds(c.f, o.r - e, true, x, c.t0)) return "rob-too-high";
    if (holds(c.f, o.r + e, true, x, c.t0)) return "rob-too-low";
    // with decimal times the horizon itself is rounded: the bounds must close once the data are clearly past it
    if (!exact_times(c) && c.tr.back()[0] < c.t0 + horizon(c.f, c.par) + 1e-6) return o.l > o.r + e || o.u < o.r - e ? "rob-outside-bounds" : "";
    if (std::fabs(o.l - o.r) > e) return "lower-bound-differs-from-rob";
    if (std::fabs(o.u - o.r) > e) return "upper-bound-differs-from-rob";
    return "";
}
std::string judge_partial(const Case &c, const R3 &o) {
    if (!finite(o)) return "not-finite";
    Ctx x = ctx(c);
    double M = x.bigM;
    if (o.l < -M - 1e-6 || o.u > M + 1e-6) return "bound-outside-BigM";
    if (o.l > -M && !holds(c.f, o.l - tol(o.l), true, x, c.t0)) return "lower-bound-unsound";
    if (o.u < M && holds(c.f, o.u + tol(o.u), false, x, c.t0)) return "upper-bound-unsound";
    if (o.l > o.r + tol(o.r) || o.r > o.u + tol(o.r)) return "rob-outside-bounds";
    return "";
}
std::string judge_time(const Case &c, const R3 &o, bool &decidable) {
    Ctx x = ctx(c);
    double u;
    decidable = time_value(c.f, x, c.t0, u);
    if (!decidable) return "";
    if (!finite(o)) return "not-finite";
    if (std::fabs(u - o.r) > 1e-5) return "time-robustness-differs";
    if (std::fabs(o.l - o.r) > tol(o.r)) return "lower-bound-differs-from-rob";
    if (std::fabs(o.u - o.r) > tol(o.r)) return "upper-bound-differs-from-rob";
    return "";
}
void report(Run &R, const std::string &kind, const Case &c, const Judge &j) {
    Case m = c;
    if (R.want(kind)) m = shrink(c, [&](const Case &d) { return j(d) == kind; });
    R3 o{NAN, NAN, NAN}, om{NAN, NAN, NAN};
    eval_driver(m, o);
    eval_monitor(m, om);
    R.fail(kind, describe(m) + "\ngot driver " + str(o) + " monitor " + str(om) + "\n" + ref_str(m));
}
} // namespace mon
