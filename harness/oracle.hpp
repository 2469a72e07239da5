// Independent oracle for STL robustness: formula AST, text rendering, and a
// threshold ("is rob >= c ?") decision procedure on sets of time intervals.
// Nothing here uses the code under test.
#pragma once
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <functional>
#include <limits>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <utility>
#include <vector>
#include <algorithm>
#include <set>

namespace orc {

static const double INF = std::numeric_limits<double>::infinity();

// ---------------------------------------------------------------- PRNG
struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567ull) { for (int i = 0; i < 4; i++) next(); }
    uint64_t next() {
        s += 0x9E3779B97F4A7C15ull;
        uint64_t z = s;
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    int below(int n) { return n <= 0 ? 0 : (int)(next() % (uint64_t)n); }
    int range(int lo, int hi) { return lo + below(hi - lo + 1); }
    bool chance(int pct) { return below(100) < pct; }
    double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
};

static inline uint64_t mix(uint64_t a, uint64_t b) {
    uint64_t z = a * 0x9E3779B97F4A7C15ull ^ (b + 0x7F4A7C15ull) * 0xD6E8FEB86659FD93ull;
    z = (z ^ (z >> 32)) * 0xD6E8FEB86659FD93ull;
    return z ^ (z >> 29);
}

static inline std::string num(double v) {  // plain decimal without exponent, exactly the value
    char b[400];
    for (int p = 12; p < 40; p += 4) {
        snprintf(b, sizeof b, "%.*f", p, v);
        if (strtod(b, nullptr) == v) break;
    }
    std::string s(b);
    while (s.find('.') != std::string::npos && s.back() == '0') s.pop_back();
    if (s.back() == '.') s.pop_back();
    if (s == "-0") s = "0";
    return s;
}
static inline std::string dnum(double v) { char b[64]; snprintf(b, sizeof b, "%.17g", v); return b; }

inline double &big_value() { static double v = 10000; return v; }   // the value that stands for no information

// ---------------------------------------------------------------- expressions
struct Expr;
typedef std::shared_ptr<const Expr> E;
struct Expr {
    enum K { SIG, CONST, PARAM, ADD, SUB, MUL, ABS } k;
    int idx = 0;      // signal or parameter index
    double c = 0;
    E l, r;
};
static inline E esig(int i) { auto e = std::make_shared<Expr>(); e->k = Expr::SIG; e->idx = i; return e; }
static inline E econst(double c) { auto e = std::make_shared<Expr>(); e->k = Expr::CONST; e->c = c; return e; }
static inline E epar(int i) { auto e = std::make_shared<Expr>(); e->k = Expr::PARAM; e->idx = i; return e; }
static inline E ebin(Expr::K k, E l, E r) { auto e = std::make_shared<Expr>(); e->k = k; e->l = l; e->r = r; return e; }
static inline E eabs(E l) { auto e = std::make_shared<Expr>(); e->k = Expr::ABS; e->l = l; return e; }

static inline double eval_expr(const E &e, const std::vector<double> &row, const std::vector<double> &par) {
    switch (e->k) {
    case Expr::SIG: return row[e->idx + 1];
    case Expr::CONST: return e->c;
    case Expr::PARAM: return par[e->idx];
    case Expr::ADD: return eval_expr(e->l, row, par) + eval_expr(e->r, row, par);
    case Expr::SUB: return eval_expr(e->l, row, par) - eval_expr(e->r, row, par);
    case Expr::MUL: return eval_expr(e->l, row, par) * eval_expr(e->r, row, par);
    case Expr::ABS: return std::fabs(eval_expr(e->l, row, par));
    }
    return 0;
}
static inline bool expr_const(const E &e) {
    if (e->k == Expr::SIG) return false;
    if (e->l && !expr_const(e->l)) return false;
    if (e->r && !expr_const(e->r)) return false;
    return true;
}
static inline int expr_size(const E &e) { return 1 + (e->l ? expr_size(e->l) : 0) + (e->r ? expr_size(e->r) : 0); }
static inline bool expr_has(const E &e, Expr::K k) {
    return e->k == k || (e->l && expr_has(e->l, k)) || (e->r && expr_has(e->r, k));
}
// true if, on this trace, the expression is exactly linear between consecutive samples
static inline bool expr_linear_on(const E &e, const std::vector<std::vector<double>> &tr, const std::vector<double> &par) {
    if (e->l && !expr_linear_on(e->l, tr, par)) return false;
    if (e->r && !expr_linear_on(e->r, tr, par)) return false;
    if (e->k == Expr::MUL && !expr_const(e->l) && !expr_const(e->r)) return false;
    return true;
}
// the expression between the samples: corners (time, value), straight in between. Absolute values have corners of their own.
typedef std::vector<std::pair<double, double>> Corners;
static inline double corner_at(const Corners &k, size_t i, double t) {   // k[i-1].t < t < k[i].t
    return k[i - 1].second + (k[i].second - k[i - 1].second) * ((t - k[i - 1].first) / (k[i].first - k[i - 1].first));
}
static inline Corners corners(const E &e, const std::vector<std::vector<double>> &tr, const std::vector<double> &par) {
    Corners o;
    if (!expr_has(e, Expr::ABS)) {
        for (auto &row : tr) o.push_back({row[0], eval_expr(e, row, par)});
        return o;
    }
    Corners l = corners(e->l, tr, par);
    if (e->k == Expr::ABS) {
        for (size_t i = 0; i < l.size(); i++) {
            if (i && ((l[i - 1].second < 0 && l[i].second > 0) || (l[i - 1].second > 0 && l[i].second < 0))) {
                double t = l[i - 1].first + (l[i].first - l[i - 1].first) * (l[i - 1].second / (l[i - 1].second - l[i].second));
                if (t > l[i - 1].first && t < l[i].first) o.push_back({t, 0});
            }
            o.push_back({l[i].first, std::fabs(l[i].second)});
        }
        return o;
    }
    Corners r = corners(e->r, tr, par);
    for (size_t i = 0, j = 0; i < l.size() || j < r.size();) {
        double t, a, b;
        if (j == r.size() || (i < l.size() && l[i].first < r[j].first)) { t = l[i].first; a = l[i].second; b = corner_at(r, j, t); i++; }
        else if (i == l.size() || r[j].first < l[i].first) { t = r[j].first; b = r[j].second; a = corner_at(l, i, t); j++; }
        else { t = l[i].first; a = l[i++].second; b = r[j++].second; }
        o.push_back({t, e->k == Expr::ADD ? a + b : e->k == Expr::SUB ? a - b : a * b});
    }
    return o;
}

// ---------------------------------------------------------------- formulas
struct Bound { double c = 0; int par = -1; };
struct Form;
typedef std::shared_ptr<const Form> F;
struct Form {
    enum K { ATOM, NOT, AND, OR, IMP, EV, ALW, UNTIL } k;
    bool lt = false;     // atom comparator
    E el, er;            // atom operands
    F l, r;
    Bound a, b;
};
static inline F fatom(E l, bool lt, E r) { auto f = std::make_shared<Form>(); f->k = Form::ATOM; f->lt = lt; f->el = l; f->er = r; return f; }
static inline F fun(Form::K k, F l) { auto f = std::make_shared<Form>(); f->k = k; f->l = l; return f; }
static inline F fbin(Form::K k, F l, F r) { auto f = std::make_shared<Form>(); f->k = k; f->l = l; f->r = r; return f; }
static inline F ftun(Form::K k, Bound a, Bound b, F l) { auto f = std::make_shared<Form>(); f->k = k; f->a = a; f->b = b; f->l = l; return f; }
static inline F funtil(F l, Bound a, Bound b, F r) { auto f = std::make_shared<Form>(); f->k = Form::UNTIL; f->a = a; f->b = b; f->l = l; f->r = r; return f; }

static inline double bval(const Bound &b, const std::vector<double> &par) { return b.par >= 0 ? par[b.par] : b.c; }
static inline double horizon(const F &f, const std::vector<double> &par) {
    switch (f->k) {
    case Form::ATOM: return 0;
    case Form::NOT: return horizon(f->l, par);
    case Form::AND: case Form::OR: case Form::IMP: return std::max(horizon(f->l, par), horizon(f->r, par));
    case Form::EV: case Form::ALW: return bval(f->b, par) + horizon(f->l, par);
    case Form::UNTIL: return bval(f->b, par) + std::max(horizon(f->l, par), horizon(f->r, par));
    }
    return 0;
}
static inline int fsize(const F &f) {
    if (f->k == Form::ATOM) return expr_size(f->el) + expr_size(f->er);
    return 1 + fsize(f->l) + (f->r ? fsize(f->r) : 0);
}
static inline int fdepth(const F &f) {
    if (f->k == Form::ATOM) return 0;
    return 1 + std::max(fdepth(f->l), f->r ? fdepth(f->r) : 0);
}
static inline bool fhas(const F &f, Form::K k) { return f->k == k || (f->l && fhas(f->l, k)) || (f->r && fhas(f->r, k)); }
static inline bool fany_expr(const F &f, const std::function<bool(const E &)> &p) {
    if (f->k == Form::ATOM) return p(f->el) || p(f->er);
    return fany_expr(f->l, p) || (f->r && fany_expr(f->r, p));
}
static inline void fops(const F &f, std::set<std::string> &s) {
    static const char *n[] = {"atom", "not", "and", "or", "imp", "ev", "alw", "until"};
    s.insert(n[f->k]);
    if (f->l) fops(f->l, s);
    if (f->r) fops(f->r, s);
}

// ---------------------------------------------------------------- text
// the names a case uses: default ones, unless the module has picked others for the case at hand
struct Names {
    std::vector<std::string> sig, par;
    Names() : sig(cur().sig), par(cur().par) {}
    struct Lists { std::vector<std::string> sig{"x", "y", "z"}, par{"p", "q", "r", "w"}; };
    static Lists &cur() { static Lists l; return l; }
};
struct Style {   // how to spell: an optional PRNG picks among the documented aliases
    Rng *rng = nullptr;
    std::string pick(std::initializer_list<const char *> v) const {
        if (!rng) return *v.begin();
        return *(v.begin() + rng->below((int)v.size()));
    }
};
static inline std::string expr_text(const E &e, const Names &n, bool top = true) {
    std::string s;
    switch (e->k) {
    case Expr::SIG: return n.sig[e->idx] + "[t]";
    case Expr::CONST: return num(e->c);
    case Expr::PARAM: return n.par[e->idx];
    case Expr::ADD: s = expr_text(e->l, n, false) + " + " + expr_text(e->r, n, false); break;
    case Expr::SUB: s = expr_text(e->l, n, false) + " - " + expr_text(e->r, n, false); break;
    case Expr::MUL: s = expr_text(e->l, n, false) + " * " + expr_text(e->r, n, false); break;
    case Expr::ABS: s = "abs(" + expr_text(e->l, n, true) + ")"; break;
    }
    return top ? s : "(" + s + ")";
}
static inline std::string bound_text(const Bound &b, const Names &n) { return b.par >= 0 ? n.par[b.par] : num(b.c); }
static inline std::string iv_text(const F &f, const Names &n, const Style &st) {
    return "[" + bound_text(f->a, n) + (st.rng && st.rng->chance(20) ? " " : ", ") + bound_text(f->b, n) + "]";
}
static inline std::string form_text(const F &f, const Names &n, const Style &st = Style()) {
    switch (f->k) {
    case Form::ATOM: return "(" + expr_text(f->el, n) + (f->lt ? st.pick({" < ", " <= "}) : st.pick({" > ", " >= "})) + expr_text(f->er, n) + ")";
    case Form::NOT: return "(" + st.pick({"not ", "! "}) + form_text(f->l, n, st) + ")";
    case Form::AND: { std::string l = form_text(f->l, n, st); return "(" + l + st.pick({" and ", " & "}) + form_text(f->r, n, st) + ")"; }
    case Form::OR: { std::string l = form_text(f->l, n, st); return "(" + l + st.pick({" or ", " | "}) + form_text(f->r, n, st) + ")"; }
    case Form::IMP: { std::string l = form_text(f->l, n, st); return "(" + l + st.pick({" => ", " -> "}) + form_text(f->r, n, st) + ")"; }
    case Form::EV: { std::string o = st.pick({"ev_", "ev", "F", "F_", "<>", "<>_"}), i = iv_text(f, n, st); return "(" + o + " " + i + " " + form_text(f->l, n, st) + ")"; }
    case Form::ALW: { std::string o = st.pick({"alw_", "alw", "G", "G_", "[]", "[]_"}), i = iv_text(f, n, st); return "(" + o + " " + i + " " + form_text(f->l, n, st) + ")"; }
    case Form::UNTIL: { std::string l = form_text(f->l, n, st), o = st.pick({" until_", " until", " U", " U_"}), i = iv_text(f, n, st); return "(" + l + o + " " + i + " " + form_text(f->r, n, st) + ")"; }
    }
    return "";
}

// ---------------------------------------------------------------- interval sets: disjoint, sorted, half-open [p,q)
typedef std::vector<std::pair<double, double>> Set;
static inline Set norm(Set s) {
    std::sort(s.begin(), s.end());
    Set o;
    for (auto &i : s) {
        if (!(i.first < i.second)) continue;
        if (!o.empty() && i.first <= o.back().second) o.back().second = std::max(o.back().second, i.second);
        else o.push_back(i);
    }
    return o;
}
static inline Set scomp(const Set &s) {
    Set o;
    double p = -INF;
    for (auto &i : s) { if (p < i.first) o.push_back({p, i.first}); p = i.second; }
    if (p < INF) o.push_back({p, INF});
    return o;
}
static inline Set sunion(Set a, const Set &b) { a.insert(a.end(), b.begin(), b.end()); return norm(a); }
static inline Set sinter(const Set &a, const Set &b) {
    Set o;
    size_t k = 0;      // both are sorted and disjoint
    for (auto &i : a) {
        while (k < b.size() && b[k].second <= i.first) k++;
        for (size_t j = k; j < b.size() && b[j].first < i.second; j++) { double p = std::max(i.first, b[j].first), q = std::min(i.second, b[j].second); if (p < q) o.push_back({p, q}); }
    }
    return norm(o);
}
static inline Set sev(const Set &s, double a, double b) {
    Set o;
    for (auto &i : s) o.push_back({i.first - b, i.second - a});
    return norm(o);
}
static inline Set suntil(const Set &x, const Set &y, double a, double b) {
    Set o;
    size_t k = 0;
    for (auto &i : x) {
        while (k < y.size() && y[k].second <= i.first) k++;
        for (size_t j = k; j < y.size() && y[j].first < i.second; j++) {
            double u = std::max(i.first, y[j].first), v = std::min(i.second, y[j].second);
            if (u < v) o.push_back({std::max(i.first, u - b), v - a});
        }
    }
    return norm(o);
}
static inline bool smem(const Set &s, double t) {
    auto i = std::upper_bound(s.begin(), s.end(), t, [](double x, const std::pair<double, double> &p) { return x < p.first; });
    return i != s.begin() && t < std::prev(i)->second;
}

// ---------------------------------------------------------------- atom signals
struct Seg { double t, v, d; };      // right-continuous piecewise linear, valid from t to the next seg's t
struct PL { std::vector<Seg> s; double end; };   // known on (-inf, end): held constant before the first seg

enum SemK { SPACE, LEFT, RIGHT };
struct Ctx {
    const std::vector<std::vector<double>> *tr;
    const std::vector<double> *par;
    bool linear = true;       // interpolation
    SemK sem = SPACE;
    double bigM = big_value();
    double tb = std::numeric_limits<double>::min();   // time semantics: an atom is true where its value is >= tb
    const std::map<const Form *, double> *atb = nullptr;   // per-atom override of tb
    double delta = 1.0 / 1048576;   // "just after the last sample"
};

static inline PL atom_pl(const F &f, const Ctx &c) {
    PL p;
    const auto &tr = *c.tr;
    std::vector<double> v;
    if (c.linear && (expr_has(f->el, Expr::ABS) || expr_has(f->er, Expr::ABS))) {
        Corners k = corners(f->lt ? ebin(Expr::SUB, f->er, f->el) : ebin(Expr::SUB, f->el, f->er), tr, *c.par);
        for (size_t i = 0; i < k.size(); i++)
            p.s.push_back({k[i].first, k[i].second, i + 1 < k.size() ? (k[i + 1].second - k[i].second) / (k[i + 1].first - k[i].first) : 0});
        p.end = tr.back()[0] + c.delta;
        return p;
    }
    for (auto &row : tr) {
        double L = eval_expr(f->el, row, *c.par), R = eval_expr(f->er, row, *c.par);
        v.push_back(f->lt ? R - L : L - R);
    }
    for (size_t i = 0; i < tr.size(); i++) {
        double d = 0;
        if (c.linear && i + 1 < tr.size()) d = (v[i + 1] - v[i]) / (tr[i + 1][0] - tr[i][0]);
        p.s.push_back({tr[i][0], v[i], d});
    }
    p.end = tr.back()[0] + c.delta;
    return p;
}
// {t : p(t) >= th}; unknown region counts as `unknown`
static inline Set above(const PL &p, double th, bool unknown) {
    Set o;
    for (size_t i = 0; i < p.s.size(); i++) {
        const Seg &g = p.s[i];
        double u = g.t, w = i + 1 < p.s.size() ? p.s[i + 1].t : p.end;
        if (i == 0 && g.v >= th) o.push_back({-INF, u});
        if (g.d == 0) { if (g.v >= th) o.push_back({u, w}); }
        else {
            double x = u + (th - g.v) / g.d;
            if (g.d > 0) o.push_back({std::max(u, x), w});
            else o.push_back({u, std::min(w, x)});
        }
    }
    if (unknown) o.push_back({p.end, INF});
    return norm(o);
}

// time-robustness of a Boolean set B on the window [s,e]: signed distance to the previous / next change within the window
static inline PL time_pl(const Set &B, double s, double e, double end, SemK sem) {
    PL p;
    std::vector<std::pair<double, bool>> pcs;   // pieces [t, next)
    std::vector<double> cuts{s};
    for (auto &i : B) { if (i.first > s && i.first < e) cuts.push_back(i.first); if (i.second > s && i.second < e) cuts.push_back(i.second); }
    std::sort(cuts.begin(), cuts.end());
    for (size_t i = 0; i < cuts.size(); i++) {
        double nx = i + 1 < cuts.size() ? cuts[i + 1] : e;
        bool tv = smem(B, cuts[i]);
        if (sem == LEFT) p.s.push_back({cuts[i], 0, tv ? 1. : -1.});
        else p.s.push_back({cuts[i], tv ? nx - cuts[i] : cuts[i] - nx, tv ? -1. : 1.});
    }
    p.end = end;
    return p;
}

// Boolean verdict set "rob(f) >= th"; low=true: unknown data make every atom -inf, else +inf
// [ws,we]: window of times over which f's values are needed (only used by the time semantics)
static inline Set sat(const F &f, double th, bool low, const Ctx &c, double ws, double we) {
    switch (f->k) {
    case Form::ATOM: {
        PL p = atom_pl(f, c);
        if (c.sem == SPACE) return above(p, th, !low);
        double tb = c.tb;
        if (c.atb) { auto it = c.atb->find(f.get()); if (it != c.atb->end()) tb = it->second; }
        Set B = above(p, tb, false);
        double e = std::min(we, p.end - c.delta);
        PL q = time_pl(B, ws, e, e + c.delta, c.sem);
        return above(q, th, !low);
    }
    case Form::NOT: return scomp(sat(f->l, -th, !low, c, ws, we));
    case Form::AND: return sinter(sat(f->l, th, low, c, ws, we), sat(f->r, th, low, c, ws, we));
    case Form::OR: return sunion(sat(f->l, th, low, c, ws, we), sat(f->r, th, low, c, ws, we));
    case Form::IMP: return sunion(scomp(sat(f->l, -th, !low, c, ws, we)), sat(f->r, th, low, c, ws, we));
    case Form::EV: { double a = bval(f->a, *c.par), b = bval(f->b, *c.par); return sev(sat(f->l, th, low, c, ws + a, we + b), a, b); }
    case Form::ALW: { double a = bval(f->a, *c.par), b = bval(f->b, *c.par); return scomp(sev(scomp(sat(f->l, th, low, c, ws + a, we + b)), a, b)); }
    case Form::UNTIL: { double a = bval(f->a, *c.par), b = bval(f->b, *c.par);
        return suntil(sat(f->l, th, low, c, ws, we + b), sat(f->r, th, low, c, ws + a, we + b), a, b); }
    }
    return Set();
}
static inline bool holds(const F &f, double th, bool low, const Ctx &c, double t) { return smem(sat(f, th, low, c, t, t), t); }
// sup { th : rob >= th }, by bisection, clipped to [-M, M]
static inline double value(const F &f, bool low, const Ctx &c, double t, double ws, double we) {
    double lo = -c.bigM, hi = c.bigM;
    if (!smem(sat(f, lo + 1e-9, low, c, ws, we), t)) return lo;
    if (smem(sat(f, hi - 1e-9, low, c, ws, we), t)) return hi;
    for (int i = 0; i < 70; i++) { double m = (lo + hi) / 2; if (smem(sat(f, m, low, c, ws, we), t)) lo = m; else hi = m; }
    return (lo + hi) / 2;
}
static inline double value(const F &f, bool low, const Ctx &c, double t);
static inline void atoms_of(const F &f, std::vector<const Form *> &v) {
    if (f->k == Form::ATOM) { v.push_back(f.get()); return; }
    atoms_of(f->l, v);
    if (f->r) atoms_of(f->r, v);
}
// Time robustness jumps where an atom's sign changes: its value is only well defined (against rounding) if it does
// not depend on how "positive" is decided within +-1e-9, independently for every atom. Returns false if it does.
static inline bool time_value(const F &f, const Ctx &c0, double t, double &out, double tol = 1e-6, int max_atoms = 5) {
    std::vector<const Form *> at;
    atoms_of(f, at);
    std::sort(at.begin(), at.end());
    at.erase(std::unique(at.begin(), at.end()), at.end());
    if ((int)at.size() > max_atoms) return false;
    bool first = true;
    for (unsigned m = 0; m < (1u << at.size()); m++) {
        std::map<const Form *, double> tb;
        for (size_t i = 0; i < at.size(); i++) tb[at[i]] = (m >> i & 1) ? 1e-9 : -1e-9;
        Ctx c = c0;
        c.atb = &tb;
        if (first) { out = value(f, true, c, t); first = false; }
        else {                                  // the same value again, within tol
            if (out - tol > -c.bigM && !holds(f, out - tol, true, c, t)) return false;
            if (out + tol < c.bigM && holds(f, out + tol, true, c, t)) return false;
        }
    }
    return true;
}
static inline double value(const F &f, bool low, const Ctx &c, double t) { return value(f, low, c, t, t, t); }

} // namespace orc
