// C01..C06: robustness values and bounds against the reference semantics
#include "evalcheck.hpp"
using namespace mon;
namespace mon { bool nested_temporal(const F &f); }
static void observe(Run &R, const Case &c) {
    R.evals++;
    std::set<std::string> ops;
    fops(c.f, ops);
    for (auto &o : ops) R.count("op:" + o);
    R.count("samples", (long)c.tr.size());
    if (fdepth(c.f) > 0 && c.tr.size() > 1) R.nontrivial(fingerprint(c));
    if (fdepth(c.f) > 1 && c.tr.size() > 2 && c.tr.size() < 8) R.sample(describe(c));
}
static void check(Run &R, const Case &c, bool viamon, std::string (*jf)(const Case &, const R3 &)) {
    Judge j = [&](const Case &d) -> std::string {
        if (!eligible(d)) return "";
        R3 o;
        if (!(viamon ? eval_monitor(d, o) : eval_driver(d, o))) return "formula-rejected";
        return jf(d, o);
    };
    if (!eligible(c)) { R.skipped++; return; }
    observe(R, c);
    R.count(viamon ? "via monitor" : "via driver");
    std::string k = j(c);
    if (!k.empty()) report(R, k, c, j);
}
static std::string j_cov(const Case &d, const R3 &o) { return covered(d) ? judge_covered(d, o) : ""; }
static std::string j_any(const Case &d, const R3 &o) { return judge_partial(d, o); }

// the number that stands for "nothing known" is adjustable
struct Big {
    explicit Big(Rng &r) { static const double v[] = {2500.5, 1e5, 1e6, 4096}; if (r.chance(12)) set(v[r.below(4)]); }
    static void set(double v) { big_value() = v; STLRom::Signal::set_BigM(v); }
    explicit Big(double v) { set(v); }
    ~Big() { set(10000); }
};
MODULE(exact_linear) {
    odd_names(r, 5);
    Prof p;
    p.scales = p.extreme = true;
    p.huge = 250;
    Case c = gen_case(r, p);
    if (c.tr.size() > 300) R.count("thousands of samples");
    Big usual(10000.);
    if (r.chance(6) && enlarge(r, c)) { Big::set(1e14); R.count("values in the millions"); }
    check(R, c, r.chance(50), j_cov);
}
// Products of two signals are not straight between samples, but at a single instant they are what they are.
static double at_instant(const F &f, const Case &c, double t) {
    switch (f->k) {
    case Form::ATOM: {
        std::vector<double> row = c.tr[0];
        for (size_t i = 0; i < c.tr.size(); i++) if (c.tr[i][0] <= t) {
            row = c.tr[i];
            if (c.linear && i + 1 < c.tr.size())
                for (size_t s = 1; s < row.size(); s++) row[s] += (c.tr[i + 1][s] - row[s]) * ((t - row[0]) / (c.tr[i + 1][0] - row[0]));
        }
        double L = eval_expr(f->el, row, c.par), Q = eval_expr(f->er, row, c.par);
        return f->lt ? Q - L : L - Q;
    }
    case Form::NOT: return -at_instant(f->l, c, t);
    case Form::AND: return std::min(at_instant(f->l, c, t), at_instant(f->r, c, t));
    case Form::OR: return std::max(at_instant(f->l, c, t), at_instant(f->r, c, t));
    case Form::IMP: return std::max(-at_instant(f->l, c, t), at_instant(f->r, c, t));
    default: return at_instant(f->l, c, t + bval(f->a, c.par));
    }
}
static F instants(const F &f, Rng &r, const GenOpt &o) {
    auto n = std::make_shared<Form>(*f);
    if (f->k == Form::ATOM) {
        for (E *e : {&n->el, &n->er}) if (r.chance(e == &n->el ? 60 : 20)) *e = ebin(Expr::MUL, gen_expr(r, o, r.below(3)), gen_expr(r, o, r.below(3)));
        if (r.chance(15)) n->el = r.chance(50) ? eabs(n->el) : ebin(Expr::ADD, n->el, gen_expr(r, o, 1));
        return n;
    }
    if (f->k == Form::UNTIL) n->k = Form::AND;
    else n->b = n->a;
    n->l = instants(f->l, r, o);
    if (f->r) n->r = instants(f->r, r, o);
    return n;
}
MODULE(products) {
    odd_names(r, 5);
    Prof p;
    p.decimals = false;
    p.linear = r.chance(80);
    Case c = gen_case(r, p);
    GenOpt o;
    o.nsig = c.nsig;
    c.f = instants(c.f, r, o);
    Judge j = [&](const Case &d) -> std::string {
        if (!valid_case(d) || !covered(d)) return "";
        bool ok = true;
        std::function<void(const F &)> pts = [&](const F &f) { if (f->k == Form::UNTIL || ((f->k == Form::EV || f->k == Form::ALW) && bval(f->a, d.par) != bval(f->b, d.par))) ok = false; if (f->l) pts(f->l); if (f->r) pts(f->r); };
        pts(d.f);
        if (!ok) return "";
        R3 v;
        if (!eval_driver(d, v)) return "formula-rejected";
        double w = at_instant(d.f, d, d.t0), e = 1e-9 * (1 + std::fabs(w));
        if (!(std::fabs(v.r - w) <= e)) return "value-at-instant-differs";
        if (!(std::fabs(v.l - w) <= e) || !(std::fabs(v.u - w) <= e)) return "bound-at-instant-differs";
        return "";
    };
    observe(R, c);
    std::string k = j(c);
    if (!k.empty()) report(R, k, c, j);
}
// what a product is between samples: recorded as a known finding
MODULE(product_window) {
    (void)r;
    Case c;
    c.nsig = 1;
    c.tr = {{0, 1}, {2, -1}, {3, -1}};
    c.f = ftun(Form::ALW, Bound{0, -1}, Bound{1.5, -1}, fatom(ebin(Expr::MUL, esig(0), esig(0)), false, econst(0)));
    R3 v;
    if (!eval_driver(c, v)) { R.fail("formula-rejected", describe(c)); return; }
    R.evals++;
    R.nontrivial(fingerprint(c));
    if (!(std::fabs(v.r) < 1e-6)) R.fail("square-over-window", describe(c) + "\ngot " + str(v) + ", the square is at least 0 and is 0 at time 1");
}
MODULE(exact_previous) {
    odd_names(r, 5);
    Prof p;
    p.scales = p.extreme = true;
    p.linear = false;
    p.off_grid = r.chance(30);
    p.huge = 250;
    Case c = gen_case(r, p);
    if (c.tr.size() > 300) R.count("thousands of samples");
    Big usual(10000.);
    if (r.chance(6) && enlarge(r, c)) { Big::set(1e14); R.count("values in the millions"); }
    check(R, c, r.chance(50), j_cov);
}
MODULE(bounds_sound) {
    odd_names(r, 5);
    Prof p;
    p.scales = p.extreme = true;
    p.linear = r.chance(60);
    p.cover = r.chance(90) ? 2 : 0;
    p.huge = 250;
    Big big(r);
    Case c = gen_case(r, p);
    if (!eligible(c)) { R.skipped++; return; }
    Ctx x = ctx(c);
    R.count(covered(c) ? "covered" : c.tr.back()[0] <= c.t0 ? "no data after t0" : "partial");
    check(R, c, r.chance(50), j_any);
}
// bounds along a growing trace
static std::string j_mono(const Case &c, std::vector<R3> *outs) {
    if (!eligible(c)) return "";
    STLRom::STLDriver d;
    if (!d.parse_string(case_text(c))) return "formula-rejected";
    d.set_interpol(int_name(c.linear));
    std::vector<R3> o;
    // every prefix of a short trace, some prefixes of a long one
    std::vector<size_t> at;
    for (size_t i = 0; i < c.tr.size(); i++) {
        d.add_sample(c.tr[i]);
        if (c.tr.size() > 300 && i + 3 < c.tr.size() && i % (c.tr.size() / 12) > 1) continue;
        at.push_back(i);
        auto v = d.get_online_rob("phi", c.t0);
        if (v.size() != 3) return "no-answer";
        o.push_back({v[0], v[1], v[2]});
    }
    if (outs) *outs = o;
    for (size_t i = 0; i < o.size(); i++) {
        if (!finite(o[i])) return "not-finite";
        if (o[i].l > o[i].r + tol(o[i].r) || o[i].r > o[i].u + tol(o[i].r)) return "rob-outside-bounds";
        if (i && o[i].l < o[i - 1].l - tol(o[i].l)) return "lower-bound-decreases";
        if (i && o[i].u > o[i - 1].u + tol(o[i].u)) return "upper-bound-increases";
        bool cov = c.t0 + horizon(c.f, c.par) + (exact_times(c) ? 0 : 1e-6) <= c.tr[at[i]][0];
        if (cov && (std::fabs(o[i].l - o[i].u) > tol(o[i].r) || std::fabs(o[i].l - o[i].r) > tol(o[i].r))) return "bounds-do-not-close";
    }
    return "";
}
MODULE(bounds_refine) {
    odd_names(r, 5);
    Prof p;
    p.scales = p.extreme = true;
    p.linear = r.chance(60);
    p.cover = r.chance(80) ? 1 : 0;
    p.huge = 800;
    Big big(r);
    Case c = gen_case(r, p);
    if (!eligible(c)) { R.skipped++; return; }
    std::vector<R3> o;
    std::string k = j_mono(c, &o);
    observe(R, c);
    R.count("prefixes", (long)o.size());
    int steps = 0;
    for (size_t i = 1; i < o.size(); i++) if (o[i].l != o[i - 1].l || o[i].u != o[i - 1].u) steps++;
    R.count("refinement steps seen", steps);
    if (!k.empty()) {
        Judge j = [&](const Case &d) { return j_mono(d, nullptr); };
        Case m = c;
        if (R.want(k)) m = shrink(c, [&](const Case &d) { return j(d) == k; });
        j_mono(m, &o);
        std::string s = describe(m) + "\nafter each sample:";
        for (auto &q : o) s += " " + str(q);
        R.fail(k, s);
    }
}
// formulas without nested temporal operators: bounds are the extreme values, not merely sound
static std::string j_tight(const Case &c, const R3 &o) {
    if (nested_temporal(c.f) || fhas(c.f, Form::UNTIL)) return "";
    std::string k = judge_partial(c, o);
    if (!k.empty()) return k;
    Ctx x = ctx(c);
    double M = x.bigM;
    if (o.l < M - 1 && holds(c.f, std::min(o.l + tol(o.l), M - 1e-3), true, x, c.t0) && !(o.l > -M + 1 && !holds(c.f, o.l + tol(o.l), true, x, c.t0))) return "lower-bound-too-low";
    if (o.u > -M + 1 && !holds(c.f, std::max(o.u - tol(o.u), -M + 1e-3), false, x, c.t0)) return "upper-bound-too-high";
    return "";
}
MODULE(bounds_early) {
    odd_names(r, 5);
    Prof p;
    p.scales = true;
    p.linear = r.chance(60);
    p.cover = r.chance(90) ? 2 : 0;
    p.until = false;
    p.nested = false;
    p.huge = 250;
    p.decimals = false; // what is known at the very edge of a rounded window is a matter of one ulp
    Big big(r);
    Case c = gen_case(r, p);
    if (!eligible(c)) { R.skipped++; return; }
    R3 o;
    bool vm = r.chance(50);
    if (vm ? eval_monitor(c, o) : eval_driver(c, o)) {
        if (o.l > 0) R.count("concluded true early");
        else if (o.u < 0) R.count("concluded false early");
        else if (o.l > -big_value() || o.u < big_value()) R.count("one bound known");
        else R.count("nothing known");
    }
    check(R, c, vm, j_tight);
}
MODULE(time_rob) {
    Prof p;
    p.sem = r.chance(50) ? LEFT : RIGHT;
    p.linear = r.chance(65);
    p.off_grid = !p.linear || r.chance(30);
    p.decimals = false;
    p.max_depth = 3;
    p.huge = 1500;
    Case c = gen_case(r, p);
    bool viamon = r.chance(50);
    Judge j = [&](const Case &d) -> std::string {
        if (!eligible(d) || !covered(d)) return "";
        R3 o;
        bool dec;
        if (!(viamon ? eval_monitor(d, o) : eval_driver(d, o))) return "formula-rejected";
        return judge_time(d, o, dec);
    };
    if (!eligible(c)) { R.skipped++; return; }
    R3 o;
    bool dec = false;
    double u;
    dec = time_value(c.f, ctx(c), c.t0, u);
    if (!dec) { R.skipped++; R.count("undecided: sign change on a window edge"); return; }
    observe(R, c);
    R.count(sem_name(c.sem));
    R.count(u > 0 ? "positive" : u < 0 ? "negative" : "zero");
    std::string k = j(c);
    if (!k.empty()) report(R, k, c, j);
}
